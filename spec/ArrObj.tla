------------------------------- MODULE ArrObj -------------------------------
(* An array of objects: items keep their identity.  A child taken from the    *)
(* array stays the same object wherever the array moves it, so that changes   *)
(* through the array and through the child are the same changes; a child that *)
(* was removed or replaced no longer affects the array.                       *)
EXTENDS Values

CONSTANTS MaxLen

VARIABLES obj, cfg, items,   \* sequence of [id, x]  (x: raw value of the property x)
          held,              \* a child the user keeps a reference to ([id, x], id = 0: none)
          next, act
vars == <<obj, cfg, items, held, next, act>>

XVals == {I(0), S("4")}
None0 == [id |-> 0, x |-> I(0)]
X(r) == ConvInt(r.x)[2]
Fresh(x) == [id |-> next, x |-> x]
N == Len(items)
Ins(s, p, v) == [j \in 1..(Len(s) + 1) |-> IF j < p THEN s[j] ELSE IF j = p THEN v ELSE s[j - 1]]
Rem(s, p) == [j \in 1..(Len(s) - 1) |-> IF j < p THEN s[j] ELSE s[j + 1]]
Put(s, id, x) == [j \in DOMAIN s |-> IF s[j].id = id THEN [s[j] EXCEPT !.x = x] ELSE s[j]]

First(x) == LET P == {j \in DOMAIN items : X(items[j]) = x} IN IF P = {} THEN -1 ELSE Min(P) - 1
(* ids are renumbered so that the state space stays finite *)
Canon(its, h) ==
  LET pos == {j \in DOMAIN its : its[j].id = h.id}
      s == [j \in DOMAIN its |-> [its[j] EXCEPT !.id = j]]
      hh == IF h.id = 0 THEN h
            ELSE IF pos = {} THEN [h EXCEPT !.id = 9]
            ELSE [id |-> CHOOSE j \in pos : TRUE, x |-> its[CHOOSE j \in pos : TRUE].x]
  IN /\ items' = s
     /\ held' = hh

Do(a, its, h) == /\ act' = a
                 /\ Canon(its, h)
                 /\ UNCHANGED <<obj, cfg, next>>

Init == /\ obj = "none"
        /\ cfg \in [lo : BOOLEAN, la : BOOLEAN, li : BOOLEAN]
        /\ items \in {<<>>, <<[id |-> 1, x |-> I(3)], [id |-> 2, x |-> S("4")]>>}
        /\ held = None0
        /\ next = 8
        /\ act = [op |-> "init"]

New == /\ obj = "none" /\ obj' = "live"
       /\ act' = [op |-> "new", cfg |-> cfg, v |-> [j \in DOMAIN items |-> items[j].x], res |-> Ok(None)]
       /\ UNCHANGED <<cfg, items, held, next>>

Forms == {"dict", "inst"}
Live ==
  /\ obj = "live"
  /\ \/ \E door \in {"list", "get", "path", "ser"} :
          Do([op |-> "xs", door |-> door, res |-> Ok(<<"l", [j \in DOMAIN items |-> X(items[j])]>>)], items, held)
     \/ Do([op |-> "ys", res |-> Ok(<<"l", [j \in DOMAIN items |-> I(X(items[j])[2] + 1)]>>)], items, held)
     \/ \E i \in 1..N : Do([op |-> "hold", i |-> i - 1, res |-> Ok(None)], items, items[i])
     \/ held.id # 0 /\ Do([op |-> "held", res |-> Ok(X(held))], items, held)
     \/ held.id # 0 /\ Do([op |-> "where", res |-> Ok(<<"l", [j \in DOMAIN items |-> B(items[j].id = held.id)]>>)], items, held)
     \* the first item that meets a criterion
     \/ \E x \in {0, 3, 4} :
          Do([op |-> "find", x |-> x, res |-> Ok(I(First(I(x))))], items, held)
     \* items equal to the held child, whether it is one of them or not
     \/ held.id # 0 /\ Do([op |-> "equals", res |-> Ok(<<"l", <<I(First(X(held))), I(Cardinality({j \in DOMAIN items : X(items[j]) = X(held)}))>> >>)], items, held)
     \/ held.id # 0 /\ \E x \in XVals :
          Do([op |-> "setheld", x |-> x, res |-> Ok(None)], Put(items, held.id, x), [held EXCEPT !.x = x])
     \/ \E i \in 1..N, x \in XVals, door \in {"attr", "path", "neg"} :
          Do([op |-> "setx", i |-> i - 1, x |-> x, door |-> door, res |-> Ok(None)], [items EXCEPT ![i].x = x], held)
     \/ N < MaxLen /\ \E f \in Forms, x \in XVals, p \in {1, N + 1} :
          Do([op |-> "insert", i |-> p - 1, form |-> f, x |-> x, res |-> Ok(None)], Ins(items, p, Fresh(x)), held)
     \/ \E i \in 1..N, f \in Forms, x \in {I(0)} :
          Do([op |-> "setitem", i |-> i - 1, form |-> f, x |-> x, res |-> Ok(None)], [items EXCEPT ![i] = Fresh(x)], held)
     \* the held child put back where it is not
     \/ held.id = 9 /\ N < MaxLen /\ Do([op |-> "putback", res |-> Ok(None)], Append(items, held), held)
     \/ \E i \in 1..N, door \in {"del", "pop", "popneg"} :
          Do([op |-> "del", i |-> i - 1, door |-> door, res |-> Ok(None)], Rem(items, i), held)
     \/ Do([op |-> "reverse", res |-> Ok(None)], [j \in 1..N |-> items[N + 1 - j]], held)
     \/ Do([op |-> "assign", x |-> <<I(3)>>, res |-> Ok(None)], <<Fresh(I(3))>>, held)
     \/ Do([op |-> "clear", res |-> Ok(None)], <<>>, held)

Next == New \/ Live
Spec == Init /\ [][Next]_vars
St == [obj |-> obj, cfg |-> cfg, items |-> items, held |-> held]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
TypeOK == N <= MaxLen
HeldAgrees == \A j \in DOMAIN items : items[j].id = held.id => items[j].x = held.x
=============================================================================
