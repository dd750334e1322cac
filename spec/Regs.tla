--------------------------------- MODULE Regs ---------------------------------
(* Registries.  What is registered in a registry is registered in those it is   *)
(* attached to, and theirs; unregistering likewise.  Registry 2 is attached to   *)
(* 1, 3 to 1 and 2, 4 (of classes, where names default to those of the classes)  *)
(* to 2.                                                                        *)
EXTENDS Values

CONSTANTS MaxOps
VARIABLES weak,   \* whether registries 1 and 3 hold weak references (to values that are held elsewhere)
          r, n, act
vars == <<weak, r, n, act>>

Regs == 1..4
Parents == <<{}, {1}, {1, 2}, {2}>>
RECURSIVE Anc(_)
Anc(i) == {i} \union UNION {Anc(p) : p \in Parents[i]}
Names == {"A", "B"}
Vals == {1, 2}

Put(s, k, v) == IF \E i \in DOMAIN s : s[i].k = k THEN [i \in DOMAIN s |-> IF s[i].k = k THEN [k |-> k, v |-> v] ELSE s[i]]
                ELSE Append(s, [k |-> k, v |-> v])
Has(s, k) == \E i \in DOMAIN s : s[i].k = k
Get(s, k) == LET i == CHOOSE i \in DOMAIN s : s[i].k = k IN s[i].v

Init == weak \in BOOLEAN /\ r = [i \in Regs |-> <<>>] /\ n = 0 /\ act = [op |-> "init"]
Reg == /\ UNCHANGED weak /\ n < MaxOps /\ n' = n + 1
       /\ \E i \in Regs, k \in Names, v \in Vals, own \in BOOLEAN :
            (* own: registered under its own name, which is the one of its class *)
            /\ own => i = 4 /\ k = <<"A", "B">>[v]
            /\ r' = [j \in Regs |-> IF j \in Anc(i) THEN Put(r[j], k, v) ELSE r[j]]
            /\ act' = [op |-> "register", weak |-> weak, i |-> i, k |-> k, v |-> v, own |-> own, res |-> Ok(I(v))]
Unreg == /\ UNCHANGED weak /\ n < MaxOps /\ n' = n + 1
         /\ \E i \in Regs, k \in Names :
              IF Has(r[i], k)
              THEN /\ r' = [j \in Regs |-> IF j \in Anc(i) THEN SelectSeq(r[j], LAMBDA p : p.k # k) ELSE r[j]]
                   /\ act' = [op |-> "unregister", weak |-> weak, i |-> i, k |-> k, res |-> Ok(None)]
              ELSE /\ UNCHANGED r
                   /\ act' = [op |-> "unregister", weak |-> weak, i |-> i, k |-> k, res |-> Err("KeyError")]
Look == /\ act' = [op |-> "look", weak |-> weak, res |-> <<"ok", [i \in Regs |->
             [items |-> r[i], len |-> Len(r[i]),
              get |-> [k \in Names |-> IF Has(r[i], k) THEN Get(r[i], k) ELSE 0],
              in |-> [k \in Names |-> Has(r[i], k)]]]>>]
        /\ UNCHANGED <<r, n, weak>>
Next == Reg \/ Unreg \/ Look
Spec == Init /\ [][Next]_vars
St == [weak |-> weak, r |-> r, n |-> n]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
Unique == \A i \in Regs : \A x, y \in DOMAIN r[i] : x # y => r[i][x].k # r[i][y].k
=============================================================================
