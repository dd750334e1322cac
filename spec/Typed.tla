-------------------------------- MODULE Typed --------------------------------
(* One object with a property p of a declared type and an untouched witness  *)
(* w.  Whatever is assigned to p, and from wherever, a read of p gives a      *)
(* value of the declared type satisfying the declared constraints, or raises. *)
EXTENDS Values

VARIABLES obj, cfg, p, w, act
vars == <<obj, cfg, p, w, act>>

F(t) == <<"f", t>>        \* a float, in tenths
Dec(t) == <<"d", t>>      \* a decimal, in tenths
L(s) == <<"l", s>>        \* a list
D(x) == <<"o", [x |-> x]>>   \* {"x": x}
E0 == <<"o", <<>>>>       \* {}
DY == <<"o", [y |-> I(1)]>>
X(x) == <<"x", x>>

(* the texts used, what number (in tenths) they spell and how long they are *)
TextNum == ("0" :> 0) @@ ("4" :> 40) @@ ("5" :> 50) @@ ("-1" :> -10) @@ ("2.5" :> 25) @@ (" 4 " :> 40)
TextLen == ("" :> 0) @@ ("0" :> 1) @@ ("4" :> 1) @@ ("5" :> 1) @@ ("7" :> 1) @@ ("-1" :> 2) @@ ("2.5" :> 3) @@ (" 4 " :> 3) @@ ("abc" :> 3)
           @@ ("ab,c" :> 4) @@ ("x" :> 1) @@ ("true" :> 4) @@ ("False" :> 5) @@ ("True" :> 4) @@ ("4.0" :> 3)
           @@ ("2020-02-29" :> 10) @@ ("2021-02-29" :> 10)
IsNum(t) == t \in DOMAIN TextNum
StrOf(v) == CASE v[1] = "s" -> v[2]
              [] v[1] = "i" -> DigitText[v[2]]
              [] v[1] = "b" -> IF v[2] THEN "True" ELSE "False"
              [] v[1] = "f" -> IF v[2] = 25 THEN "2.5" ELSE "4.0"

Types == <<
  [t |-> "integer", minimum |-> 0, maximum |-> 5],                        \* 1
  [t |-> "integer", exclusiveMinimum |-> 0, exclusiveMaximum |-> 6, multipleOf |-> 2],
  [t |-> "number", minimum |-> 0, exclusiveMaximum |-> 5],                \* 3
  [t |-> "string", minLength |-> 2, maxLength |-> 3],
  [t |-> "string", pattern |-> "^a"],                                     \* 5
  [t |-> "boolean"],
  [t |-> "enum", enum |-> <<"abc", "x", "5">>],                           \* 7
  [t |-> "array", items |-> [t |-> "integer", maximum |-> 5]],
  [t |-> "object", items |-> [t |-> "integer", maximum |-> 5]],           \* 9  {x: items}
  [t |-> "array", items |-> [t |-> "object", items |-> [t |-> "integer", maximum |-> 5]]],
  [t |-> "array", items |-> [t |-> "array", items |-> [t |-> "string", maxLength |-> 3]]],   \* 11
  [t |-> "any"],
  [t |-> "integer", anyOf |-> <<0, 4>>],                                  \* 13  anyOf: maximum .. / minimum ..
  [t |-> "date"],
  [t |-> "object", items |-> [t |-> "object", items |-> [t |-> "boolean"]]] \* 15
>>

Values == {I(-1), I(0), I(4), I(5), I(7), B(TRUE), F(25), F(40),
           S(""), S("4"), S("5"), S("2.5"), S(" 4 "), S("abc"), S("ab,c"), S("x"), S("true"),
           S("2020-02-29"), S("2021-02-29"),
           L(<<>>), L(<<I(4)>>), L(<<I(4), S("5")>>), L(<<I(4), I(7)>>), L(<<S("x")>>), L(<<L(<<I(4)>>)>>), L(<<L(<<S("abc"), I(5)>>), L(<<S("ab,c")>>)>>),
           E0, D(I(4)), D(S("5")), D(I(7)), D(S("x")), DY, L(<<D(I(4))>>), L(<<D(S("4")), D(I(7))>>), D(D(I(0))), D(D(S("true"))), D(D(S("x")))}

Has(t, k) == k \in DOMAIN t
(* is the number of n tenths allowed by t *)
NumOk(t, n) ==
  /\ Has(t, "minimum") => n >= 10 * t.minimum
  /\ Has(t, "maximum") => n <= 10 * t.maximum
  /\ Has(t, "exclusiveMinimum") => n > 10 * t.exclusiveMinimum
  /\ Has(t, "exclusiveMaximum") => n < 10 * t.exclusiveMaximum
  /\ Has(t, "multipleOf") => n % (10 * t.multipleOf) = 0
  /\ Has(t, "anyOf") => n <= 10 * t.anyOf[1] \/ n >= 10 * t.anyOf[2]
StrOk(t, s) ==
  /\ Has(t, "minLength") => TextLen[s] >= t.minLength
  /\ Has(t, "maxLength") => TextLen[s] <= t.maxLength
  /\ Has(t, "pattern") => s \in {"abc", "ab,c"}
Bad == Err("invalid")
If(c, v) == IF c THEN Ok(v) ELSE Bad

RECURSIVE R(_, _)
(* what a read gives of the raw value v of a property of type t *)
R(t, v) ==
  LET k == v[1] IN
  CASE v = None -> Ok(None)
    [] t.t = "any" -> Ok(v)
    [] t.t = "integer" ->
         CASE k = "i" -> If(NumOk(t, 10 * v[2]), v)
           [] k = "b" -> Open
           [] k = "f" -> LET n == v[2] \div 10 IN If(NumOk(t, 10 * n), I(n))
           [] k = "s" -> IF IsNum(v[2]) /\ TextNum[v[2]] % 10 = 0 THEN If(NumOk(t, TextNum[v[2]]), I(TextNum[v[2]] \div 10)) ELSE Bad
           [] OTHER -> Bad
    [] t.t = "number" ->
         CASE k = "i" -> If(NumOk(t, 10 * v[2]), Dec(10 * v[2]))
           [] k = "b" -> Open
           [] k = "f" -> If(NumOk(t, v[2]), Dec(v[2]))
           [] k = "s" -> IF IsNum(v[2]) THEN If(NumOk(t, TextNum[v[2]]), Dec(TextNum[v[2]])) ELSE Bad
           [] OTHER -> Bad
    [] t.t = "string" -> IF k \in {"s", "i", "b", "f"} THEN If(StrOk(t, StrOf(v)), S(StrOf(v))) ELSE Open
    [] t.t = "boolean" ->
         CASE k = "b" -> Ok(v)
           [] k = "i" -> IF v[2] = 0 THEN Ok(B(FALSE)) ELSE IF v[2] = 1 THEN Ok(B(TRUE)) ELSE Bad
           [] k = "s" -> If(v[2] = "true", B(TRUE))
           [] OTHER -> Bad
    [] t.t = "enum" ->
         CASE k = "s" /\ v[2] \in Range(t.enum) -> Ok(v)
           [] k = "i" -> IF v[2] \in 0..(Len(t.enum) - 1) THEN Ok(S(t.enum[v[2] + 1])) ELSE Bad
           [] k = "s" /\ ~IsNum(v[2]) /\ v[2] # "" -> Bad
           [] k \in {"o", "l"} -> Bad
           [] OTHER -> Open
    [] t.t = "date" -> IF k = "s" THEN (IF v[2] = "2020-02-29" THEN Ok(<<"date", v[2]>>)
                                        ELSE IF v[2] \in {"abc", "ab,c", "x", "true", "2021-02-29"} THEN Bad ELSE Open) 
                       ELSE IF k \in {"o", "l", "b"} THEN Bad ELSE Open
    [] t.t = "array" ->
         IF k = "l" THEN
           LET rs == [i \in DOMAIN v[2] |-> R(t.items, v[2][i])] IN
           IF \E i \in DOMAIN rs : IsErr(rs[i]) THEN Bad
           ELSE IF \E i \in DOMAIN rs : IsAny(rs[i]) THEN Open
           ELSE Ok(L([i \in DOMAIN rs |-> rs[i][2]]))
         ELSE \* one value stands for the list of it; empty values are left open
           IF v \in {I(0), S(""), E0} THEN Open
           ELSE LET r == R(t.items, v) IN
                IF IsOk(r) THEN (IF t.items.t = "array" THEN Open ELSE Ok(L(<<r[2]>>))) ELSE r
    [] t.t = "object" ->
         IF k = "o" THEN
           IF v = DY THEN Bad
           ELSE IF v = E0 THEN Open
           ELSE LET r == R(t.items, v[2].x) IN IF IsOk(r) THEN Ok(D(r[2])) ELSE r
         ELSE IF v \in {S(""), L(<<>>)} THEN Open ELSE Bad

T == Types[cfg.ty]
Unknown == <<"open">>
Read == IF p = Unknown THEN Open ELSE R(T, p)
(* the value stored by an assignment *)
Stored(v) == IF IsAny(R(T, v)) THEN Unknown ELSE v

Init == /\ obj = "none"
        /\ cfg \in [ty : DOMAIN Types, lazy : BOOLEAN, inherited : BOOLEAN]
        /\ cfg.inherited => cfg.lazy = (cfg.ty % 2 = 0)
        /\ p = None /\ w = 1
        /\ act = [op |-> "init"]

(* what a property that was not given holds *)
Dflt(t) == CASE t.t = "array" -> L(<<>>) [] t.t = "enum" -> S(t.enum[1]) [] OTHER -> None

SetRes(v) == LET r == R(T, v) IN
             IF IsOk(r) THEN Ok(None) ELSE IF IsAny(r) THEN Open ELSE IF cfg.lazy THEN Ok(None) ELSE Bad

New == /\ obj = "none"
       /\ \E v \in Values \union {None} :
            LET r == R(T, v) IN
            /\ ~IsAny(r)
            /\ act' = [op |-> "new", cfg |-> cfg, sch |-> T, v |-> v,
                       res |-> IF IsOk(r) \/ cfg.lazy THEN Ok(None) ELSE Bad]
            /\ IF IsOk(r) \/ cfg.lazy THEN obj' = "live" /\ p' = (IF v = None THEN Dflt(T) ELSE v) ELSE UNCHANGED <<obj, p>>
       /\ UNCHANGED <<cfg, w>>

Set == /\ obj = "live"
       /\ \E v \in Values, door \in {"attr", "item", "update"} :
            /\ act' = [op |-> "set", door |-> door, v |-> v, res |-> SetRes(v)]
            /\ p' = Stored(v)
       /\ UNCHANGED <<obj, cfg, w>>

Get == /\ obj = "live"
       /\ \E door \in {"attr", "item", "get"} :
            act' = [op |-> "get", door |-> door,
                    res |-> IF door = "get" /\ IsErr(Read) THEN Open ELSE Read]
       /\ UNCHANGED <<obj, cfg, p, w>>

(* assignments inside the value: the child's property x, an item of the array, an appended item *)
Inner == /\ obj = "live" /\ p # Unknown /\ IsOk(R(T, p)) /\ R(T, p) # Ok(None)
         /\ \E v \in {I(4), S("5"), I(7), S("abc"), S("ab,c"), L(<<I(4)>>), D(I(4)), D(I(7)), B(TRUE), D(D(I(0))), D(B(FALSE))} :
            LET r == R(T.items, v)
                val == R(T, p)[2]
                at(kind, new) ==
                   /\ ~IsAny(r)
                   /\ act' = [op |-> "inner", kind |-> kind, v |-> v,
                              res |-> IF cfg.lazy THEN Open ELSE IF IsOk(r) THEN Ok(None) ELSE r]
                   /\ p' = IF IsOk(r) THEN new ELSE Unknown
            IN \/ T.t = "object" /\ val[1] = "o" /\ at("x", D(v))
               \/ T.t = "array" /\ Len(val[2]) > 0 /\ at("first", L([val[2] EXCEPT ![1] = v]))
               \/ T.t = "array" /\ Len(val[2]) < 2 /\ at("append", L(Append(val[2], v)))
         /\ UNCHANGED <<obj, cfg, w>>

Witness == /\ obj = "live"
           /\ \/ act' = [op |-> "getw", res |-> Ok(I(w))] /\ w' = w
              \/ act' = [op |-> "setw", v |-> 3 - w, res |-> Ok(None)] /\ w' = 3 - w
           /\ UNCHANGED <<obj, cfg, p>>

(* the type by itself, on its own, for the argument of a function, derived from the one of the library *)
Direct == /\ obj = "none" /\ ~cfg.lazy /\ ~cfg.inherited
          /\ \E v \in Values, via \in {"call", "arg", "derived", "serialized"} :
               /\ via = "derived" => T.t \notin {"array", "object"}
               /\ T.t = "array" => T.items.t # "array"
               /\ act' = [op |-> "direct", via |-> via, sch |-> T, v |-> v, res |-> R(T, v)]
          /\ UNCHANGED <<obj, cfg, p, w>>

Next == Direct \/ New \/ Set \/ Get \/ Inner \/ Witness
Spec == Init /\ [][Next]_vars

St == [obj |-> obj, cfg |-> cfg, p |-> p, w |-> w]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* every value read has the declared type and satisfies its constraints *)
RECURSIVE Fits(_, _)
Fits(t, v) ==
  CASE v = None -> TRUE
    [] t.t = "any" -> TRUE
    [] t.t = "integer" -> v[1] = "i" /\ NumOk(t, 10 * v[2])
    [] t.t = "number" -> v[1] = "d" /\ NumOk(t, v[2])
    [] t.t = "string" -> v[1] = "s" /\ StrOk(t, v[2])
    [] t.t = "boolean" -> v[1] = "b"
    [] t.t = "enum" -> v[1] = "s" /\ v[2] \in Range(t.enum)
    [] t.t = "date" -> v[1] = "date"
    [] t.t = "array" -> v[1] = "l" /\ \A i \in DOMAIN v[2] : Fits(t.items, v[2][i])
    [] t.t = "object" -> v[1] = "o" /\ Fits(t.items, v[2].x)
WellTyped == obj = "live" /\ IsOk(Read) => Fits(T, Read[2])
=============================================================================
