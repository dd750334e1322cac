------------------------------- MODULE Expand -------------------------------
(* The expanded schema of a definition: its bases, nearest first, the merge  *)
(* of their properties with its own, each from the nearest definition and    *)
(* with references made absolute in the document it comes from, and all      *)
(* requirements.  A and B are in one document, C in another one.  Expanding  *)
(* changes neither the documents nor later expansions.                       *)
EXTENDS Values

VARIABLES cfg, docs, act
vars == <<cfg, docs, act>>

Defs == {"A", "B", "C"}
Props == {"x", "r", "l"}
Doc(d) == IF d = "C" THEN "d2" ELSE "d1"
Cfgs == [A : SUBSET Props, B : SUBSET Props, C : SUBSET {"x", "r"},
         eb : {<<>>, <<"A">>}, ec : {<<>>, <<"A">>, <<"B">>, <<"B", "A">>}]
Ext(d) == CASE d = "A" -> <<>> [] d = "B" -> cfg.eb [] d = "C" -> cfg.ec
Has(d) == CASE d = "A" -> cfg.A [] d = "B" -> cfg.B [] d = "C" -> cfg.C
\* every definition with "r" requires it
Req(d) == Has(d) \cap {"r"}

(* all bases, those of a base following it, each once *)
Bases(d) == CASE d = "A" -> <<>>
              [] d = "B" -> Ext(d)
              [] d = "C" -> IF Ext(d) = <<"B">> /\ cfg.eb = <<"A">> THEN <<"B", "A">> ELSE Ext(d)
Chain(d) == <<d>> \o Bases(d)
Owner(d, p) == LET c == Chain(d)
                   i == CHOOSE k \in DOMAIN c : p \in Has(c[k]) /\ \A j \in 1..(k - 1) : p \notin Has(c[j])
               IN c[i]
All(d) == {p \in Props : \E k \in DOMAIN Chain(d) : p \in Has(Chain(d)[k])}
Order == <<"l", "r", "x">>
Entries(d) == LET ps == SelectSeq(Order, LAMBDA p : p \in All(d))
              IN [k \in DOMAIN ps |-> <<ps[k], Owner(d, ps[k]), IF ps[k] = "x" THEN "" ELSE Doc(Owner(d, ps[k]))>>]
Requires(d) == \E k \in DOMAIN Chain(d) : "r" \in Req(Chain(d)[k])

Init == /\ cfg \in Cfgs /\ docs = "as written" /\ act = [op |-> "init"]
Expand == \E d \in Defs :
            /\ act' = [op |-> "expand", cfg |-> cfg, d |-> d,
                       res |-> <<"ok", [k \in DOMAIN Bases(d) |-> <<Bases(d)[k], Doc(Bases(d)[k])>>], Entries(d), Requires(d)>>]
            /\ UNCHANGED <<cfg, docs>>
Next == Expand
Spec == Init /\ [][Next]_vars
St == [cfg |-> cfg, docs |-> docs]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
OwnWins == \A d \in Defs : \A p \in Has(d) : Owner(d, p) = d
=============================================================================
