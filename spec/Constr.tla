-------------------------------- MODULE Constr --------------------------------
(* A property p whose schema combines several constraining clauses.  A value   *)
(* is accepted exactly when it satisfies every clause, whichever they are,      *)
(* wherever the schema stands: on the property, on the items of an array, on a  *)
(* definition the property refers to, on one it restricts further.             *)
EXTENDS Values

CONSTANTS MaxCl, Places
VARIABLES cfg, p, act
vars == <<cfg, p, act>>

(* numbers: halves are written in tenths; a clause is a name *)
NumCl == {"min0", "max4", "xmin0", "xmax4", "mul2", "const4", "enum0123", "all", "any", "one", "not", "if"}
StrCl == {"minl2", "maxl3", "pat", "constab", "enum", "all", "any", "one", "not"}
NumVals == {-10, 0, 10, 20, 30, 40, 50, 60, 25}
StrVals == {"", "a", "ab", "abc", "abcd", "xb", "b"}
Len_ == ("" :> 0) @@ ("a" :> 1) @@ ("ab" :> 2) @@ ("abc" :> 3) @@ ("abcd" :> 4) @@ ("xb" :> 2) @@ ("b" :> 1)
StartsA == {"a", "ab", "abc", "abcd"}
EndsB == {"ab", "xb", "b"}

Num(c, n) ==
  CASE c = "min0" -> n >= 0 [] c = "max4" -> n <= 40 [] c = "xmin0" -> n > 0 [] c = "xmax4" -> n < 40
    [] c = "mul2" -> n % 20 = 0 [] c = "const4" -> n = 40 [] c = "enum0123" -> n \in {0, 10, 20, 30}
    [] c = "all" -> n >= 10 /\ n <= 50                         \* allOf [minimum 1, maximum 5]
    [] c = "any" -> n <= 10 \/ n >= 40                         \* anyOf [maximum 1, minimum 4]
    [] c = "one" -> (n <= 40) # (n >= 20)                      \* oneOf [maximum 4, minimum 2]
    [] c = "not" -> ~(n >= 20 /\ n <= 30)                      \* not {minimum 2, maximum 3}
    [] c = "if" -> IF n >= 30 THEN n <= 40 ELSE n >= 10        \* if minimum 3 then maximum 4 else minimum 1
Str(c, s) ==
  CASE c = "minl2" -> Len_[s] >= 2 [] c = "maxl3" -> Len_[s] <= 3 [] c = "pat" -> s \in StartsA
    [] c = "constab" -> s = "ab" [] c = "enum" -> s \in {"ab", "b", "abcd"}
    [] c = "all" -> Len_[s] >= 1 /\ Len_[s] <= 2               \* allOf [minLength 1, maxLength 2]
    [] c = "any" -> Len_[s] <= 1 \/ Len_[s] >= 4               \* anyOf [maxLength 1, minLength 4]
    [] c = "one" -> (s \in StartsA) # (s \in EndsB)            \* oneOf [pattern ^a, pattern b$]
    [] c = "not" -> s \notin EndsB                             \* not {pattern b$}

V(t, x) == IF t = "string" THEN S(x) ELSE <<"f", x>>
(* an empty text stands for the first item of an enumeration *)
Vals(t) == IF t = "string" THEN (IF "enum" \in cfg.cl THEN StrVals \ {""} ELSE StrVals) ELSE IF t = "integer" THEN NumVals \ {25} ELSE NumVals
Fits(t, cl, x) == \A c \in cl : IF t = "string" THEN Str(c, x) ELSE Num(c, x)
Bad == Err("invalid")
NoV == "nothing"
T == cfg.t
Good(x) == Fits(T, cfg.cl, x)
Shape(x) == IF cfg.place = "item" THEN <<"l", <<V(T, x)>>>> ELSE V(T, x)

Init == /\ \E t \in {"integer", "number", "string"}, place \in Places, lazy \in BOOLEAN :
           \E cl \in {C \in SUBSET (IF t = "string" THEN StrCl ELSE NumCl) : Cardinality(C) <= MaxCl} :
             /\ (t = "number" => "enum0123" \notin cl)   \* (an index of an enumeration stands for its item: kept apart)
             /\ (t = "number" => place # "item" /\ ~lazy)
             /\ (place # "prop" => ~lazy /\ Cardinality(cl) > 1)
             /\ cfg = [t |-> t, place |-> place, lazy |-> lazy, cl |-> cl]
        /\ p = <<>> /\ act = [op |-> "init"]

Live == p # <<>>
(* p: <<>> before the object exists, <<x>> once x was given *)
New == /\ ~Live
       /\ \E x \in Vals(T) :
            /\ act' = [op |-> "new", cfg |-> cfg, v |-> Shape(x), res |-> IF Good(x) \/ cfg.lazy THEN Ok(None) ELSE Bad]
            /\ p' = IF Good(x) \/ cfg.lazy THEN <<x>> ELSE p
       /\ UNCHANGED cfg
Set == /\ Live
       /\ \E x \in Vals(T) :
            /\ act' = [op |-> "set", v |-> Shape(x), res |-> IF Good(x) \/ cfg.lazy THEN Ok(None) ELSE Bad]
            /\ p' = <<x>>
       /\ UNCHANGED cfg
Get == /\ Live
       /\ act' = [op |-> "get", res |-> IF Good(p[1]) THEN Ok(Shape(p[1])) ELSE Bad]
       /\ UNCHANGED <<cfg, p>>
(* the type itself, asked whether a value is one of its own *)
Check == /\ Live
         /\ \E x \in Vals(T) :
              act' = [op |-> "check", v |-> Shape(x), res |-> Ok(B(Good(x)))]
         /\ UNCHANGED <<cfg, p>>

Next == New \/ Set \/ Get \/ Check
Spec == Init /\ [][Next]_vars
St == [cfg |-> cfg, p |-> p]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
(* adding a clause never accepts more *)
Monotone == \A x \in Vals(T) : \A c \in cfg.cl : Fits(T, cfg.cl, x) => Fits(T, cfg.cl \ {c}, x)
(* nothing that does not fit is ever read *)
ReadFits == Live /\ act.op = "get" /\ IsOk(act.res) => Good(p[1])
=============================================================================
