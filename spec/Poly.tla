-------------------------------- MODULE Poly --------------------------------
(* Objects of derived classes where a base is declared, given as objects or as *)
(* data naming their class in $schema.                                        *)
(*   B {x}      D extends B {y, default 7}      E extends D {y default 8, n: B} *)
(*   F extends B {z}   C extends B {x default 5}                               *)
(*   O {x, y} extends nothing        Z is not defined     *)
(* The holder H declares c: B, p_: B (a pattern), a: array of B, d: D,          *)
(* o: any object, and is itself extended by G.                                *)
EXTENDS Values

CONSTANT Most    \* how many values a holder has at most
VARIABLES lazy, up, has, act
vars == <<lazy, up, has, act>>

Slots == {"c", "p", "d", "o", "a1", "a2"}
Declared == [s \in Slots |-> CASE s = "d" -> "D" [] s = "o" -> "" [] OTHER -> "B"]
Line(k) == CASE k = "D" -> {"B", "D"} [] k = "E" -> {"B", "D", "E"} [] k \in {"C", "F"} -> {"B", k} [] OTHER -> {k}
Fields(k) == CASE k = "D" -> {"x", "y"} [] k = "E" -> {"x", "y", "n"} [] k = "F" -> {"x", "z"} [] k = "O" -> {"x", "y"} [] OTHER -> {"x"}
DefaultOf(k, f) == IF f = "x" /\ k = "C" THEN "5" ELSE IF f = "y" /\ k = "D" THEN "7" ELSE IF f = "y" /\ k = "E" THEN "8" ELSE ""

(* in long random histories each step is chosen first *)
Some(X) == IF Most > 2 /\ X # {} THEN {RandomElement(X)} ELSE X

(* data: how the class is named ("" when it is not), which, fields, data of n (0 none) *)
T(name, k, f, n) == [name |-> name, k |-> k, f |-> f, n |-> n]
Data == <<
  T("", "", "x" :> "1", 0),
  T("", "", <<>>, 0),
  T("rel", "D", "x" :> "1" @@ "y" :> "3", 0),
  T("abs", "D", "x" :> "1", 0),
  T("abs", "E", "y" :> "7", 3),
  T("rel", "E", <<>>, 1),
  T("abs", "B", "x" :> "1", 0),
  T("abs", "F", "z" :> "1", 0),
  T("abs", "O", "x" :> "1", 0),
  T("abs", "Z", "x" :> "1", 0),
  T("abs", "D", "y" :> "bad", 0),
  T("", "", "y" :> "3", 0),
  T("abs", "D", "z" :> "1", 0),
  T("abs", "E", <<>>, 9),
  T("rel", "E", "x" :> "2", 16),
  T("abs", "E", "y" :> "4", 8),
  T("abs", "C", <<>>, 0),
  T("rel", "C", "x" :> "4", 0),
  T("rel", "E", "y" :> "8", 17) >>

(* the object that data gives where a class is declared; <<>> when it is refused *)
RECURSIVE Made(_, _)
Made(dc, i) ==
  LET t == Data[i]
      k == IF t.name = "" THEN dc ELSE t.k
  IN IF k \in {"Z", ""} \/ (dc # "" /\ dc \notin Line(k)) \/ (dc = "" /\ t.name = "rel") THEN <<>>
     ELSE IF ~(DOMAIN t.f \subseteq Fields(k)) \/ \E f \in DOMAIN t.f : t.f[f] = "bad" THEN <<>>
     ELSE IF t.n = 0 THEN <<[k |-> k, f |-> t.f, n |-> <<>>]>>
     ELSE LET m == Made("B", t.n) IN
          IF "n" \notin Fields(k) \/ m = <<>> THEN <<>> ELSE <<[k |-> k, f |-> t.f, n |-> m]>>

(* what is read: class, fields, what is below *)
RECURSIVE Obs(_)
Obs(v) == <<v.k, [f \in Fields(v.k) \ {"n"} |-> IF f \in DOMAIN v.f THEN v.f[f] ELSE DefaultOf(v.k, f)],
            IF v.n = <<>> THEN <<>> ELSE <<Obs(v.n[1])>> >>
(* what is written: the class where it is not the declared one, no defaults *)
RECURSIVE Written(_, _)
Written(dc, v) == <<IF v.k = dc THEN "" ELSE v.k,
                    [f \in {f \in DOMAIN v.f : v.f[f] # DefaultOf(v.k, f)} |-> v.f[f]],
                    IF v.n = <<>> THEN <<>> ELSE <<Written("B", v.n[1])>> >>

Bad == [k |-> "bad", f |-> <<>>, n |-> <<>>]
Free(s) == (s # "a2" \/ "a1" \in DOMAIN has) /\ (s \in DOMAIN has \/ Cardinality(DOMAIN has) < Most)
Put(h, s, v) == [x \in DOMAIN h \union {s} |-> IF x = s THEN v ELSE h[x]]
NoBad == \A s \in DOMAIN has : has[s] # Bad

Init == lazy = FALSE /\ up = "" /\ has = <<>> /\ act = [op |-> "init"]

(* the holder is made by its class, by its class with data naming G, or by G *)
Make == /\ up = ""
        /\ \E z \in BOOLEAN, u \in {"H", "HG", "G"} :
             /\ lazy' = z /\ up' = u /\ has' = <<>>
             /\ act' = [op |-> "make", lazy |-> z, up |-> u, res |-> Ok(None)]

Forms(s) == {<<"data", i>> : i \in IF Declared[s] = "" THEN {4, 8, 9, 10, 11, 13, 16, 17} ELSE DOMAIN Data}
            \union {<<"obj", i>> : i \in {j \in {1, 3, 5, 8, 17} : Declared[s] \in Line(Made("B", j)[1].k)}}
Gives(s, w) == Made(IF w[1] = "obj" THEN "B" ELSE Declared[s], w[2])
(* through an attribute, an item, or a new holder with all that the previous one had (by its constructor) *)
Set == /\ up # ""
       /\ \E s \in Some({s \in Slots : Free(s)}) : \E w \in Some(Forms(s)), door \in {"attr", "item", "cons"} :
            LET m == Gives(s, w) IN
            /\ door = "cons" => NoBad
            /\ s \in {"p", "a1", "a2"} => door # "attr"
            \* what a refused item leaves in an array is open
            /\ s \in {"a1", "a2"} => m # <<>> \/ door = "cons"
            /\ s \in DOMAIN has /\ has[s] = Bad => m # <<>>
            /\ IF m # <<>>
               THEN /\ has' = Put(has, s, m[1])
                    /\ act' = [op |-> "set", s |-> s, w |-> w, door |-> door, res |-> Ok(None)]
               ELSE IF lazy /\ door # "cons"
               THEN /\ has' = Put(has, s, Bad)
                    /\ act' = [op |-> "set", s |-> s, w |-> w, door |-> door, res |-> Open]
               ELSE IF door = "cons"
               THEN /\ has' = has     \* the previous holder is kept
                    /\ act' = [op |-> "refused", s |-> s, w |-> w, res |-> Err("refused")]
               ELSE /\ has' = Put(has, s, Bad)   \* what a refused assignment leaves is open
                    /\ act' = [op |-> "set", s |-> s, w |-> w, door |-> door, res |-> Err("refused")]
       /\ UNCHANGED <<lazy, up>>

Read == /\ up # ""
        /\ \E s \in DOMAIN has :
             act' = [op |-> "read", s |-> s,
                     res |-> IF has[s] # Bad THEN <<"ok", Obs(has[s])>> ELSE IF lazy THEN Err("refused") ELSE Open]
        /\ UNCHANGED <<lazy, up, has>>
(* written, and read again by the class which wrote it or by a base of it *)
Reload == /\ up # "" /\ NoBad
          /\ \E via \in {"H", "own"} :
             act' = [op |-> "reload", via |-> via,
                     res |-> <<"ok", [set |-> {<<s, Written(Declared[s], has[s])>> : s \in DOMAIN has}]>>]
          /\ UNCHANGED <<lazy, up, has>>
(* a class called on data *)
Call == /\ up # ""
        /\ \E k \in Some({"B", "D", "E"}), i \in Some(DOMAIN Data), door \in Some({"call", "kw", "convert"}) :
             LET m == Made(k, i) IN
             \* data naming another class than a derived one is left open
             /\ (Data[i].name = "" \/ k \in Line(Data[i].k) \/ Data[i].k = "Z")
             /\ act' = [op |-> "call", k |-> k, i |-> i, door |-> door,
                        res |-> IF m # <<>> THEN <<"ok", <<Obs(m[1]), Written(k, m[1])>> >> ELSE Err("refused")]
        /\ Cardinality(DOMAIN has) = 0
        /\ UNCHANGED <<lazy, up, has>>

Next == Make \/ Set \/ Read \/ Reload \/ Call
Spec == Init /\ [][Next]_vars

OfDeclared == \A s \in DOMAIN has : has[s] # Bad => Declared[s] = "" \/ Declared[s] \in Line(has[s].k)
(* what is written is what data can give: the same object *)
RECURSIVE SameKind(_, _)
SameKind(dc, v) == LET w == Written(dc, v) IN
                   /\ (w[1] = "") = (v.k = dc)
                   /\ \A f \in Fields(v.k) \ {"n"} : Obs(v)[2][f] = IF f \in DOMAIN w[2] THEN w[2][f] ELSE DefaultOf(v.k, f)
                   /\ v.n # <<>> => SameKind("B", v.n[1])
Writable == \A s \in DOMAIN has : has[s] # Bad => SameKind(Declared[s], has[s])

Pairs(f) == [set |-> {<<x, f[x]>> : x \in DOMAIN f}]
St == [lazy |-> lazy, up |-> up, has |-> [set |-> {<<s, has[s].k, ToString(has[s])>> : s \in DOMAIN has}]]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
=============================================================================
