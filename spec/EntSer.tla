-------------------------------- MODULE EntSer ---------------------------------
(* How entities are serialized when keys are asked for.  An entity nested in    *)
(* what is serialized is replaced by its keys (use_identity_keys), or by an      *)
(* object of its only key (use_entity_keys), or gets its keys in addition to     *)
(* what the other options select (add_identity_keys); root_entity exempts the    *)
(* serialized entity itself.  Keys are the current ones, serialized.             *)
(*  P: entity with keys id / id, m / d (a date) / t (a text); n; boss: a P       *)
(*  H: a plain object with own: a P, all: an array of P, x: an integer           *)
EXTENDS Values

CONSTANTS MaxOps
VARIABLES kind, lazy, o, n, act
vars == <<kind, lazy, o, n, act>>

Kinds == {"int", "pair", "date", "text"}
Keys(k) == CASE k = "int" -> <<"id">> [] k = "pair" -> <<"id", "m">> [] k = "date" -> <<"d">> [] k = "text" -> <<"t">>
(* i determines the key; m has default "z" *)
Ms(k) == IF k = "pair" THEN {"", "z", "q"} ELSE {""}
Ent(k) == [i : 0..1, m : Ms(k)]
NoEnt == [i |-> -1]

DText == <<"2020-01-02", "2021-03-04">>
Val(e, f) == CASE f = "id" -> e.i [] f = "m" -> (IF e.m = "" THEN "z" ELSE e.m) [] f = "d" -> DText[e.i + 1]
             [] f = "t" -> <<"a,b", "">>[e.i + 1]
(* what is written of the entity itself, whatever its key is *)
Own(k, e) == {(IF k = "pair" THEN "id" ELSE Keys(k)[1]), "n"} \union (IF e.m \in {"", "z"} THEN {} ELSE {"m"})
Fn(S_, F(_)) == [x \in S_ |-> F(x)]
KeyVals(k, e) == [j \in DOMAIN Keys(k) |-> Val(e, Keys(k)[j])]

Opt == [use : BOOLEAN, ent : BOOLEAN, add : BOOLEAN, root : BOOLEAN, only : {"", "n", "boss", "own", "all"}]
OptOk(k, p) == /\ (p.ent => k # "pair")   \* objects of one key
               /\ (p.root => o.r = "P")
               /\ (p.only \in {"n", "boss"} => o.r = "P") /\ (p.only \in {"own", "all"} => o.r = "H")
Sel(p, S_) == IF p.only = "" THEN S_ ELSE S_ \intersect {p.only}

RECURSIVE SerP(_, _, _)
(* e: [i, m, boss]; p: options *)
SerP(k, e, p) ==
  CASE p.use /\ ~p.root -> (IF k = "pair" THEN KeyVals(k, e) ELSE Val(e, Keys(k)[1]))
    [] p.ent /\ ~p.use /\ ~p.root -> Fn({Keys(k)[1]}, LAMBDA f : Val(e, f))
    [] OTHER ->
       LET sel == Sel(p, Own(k, e) \union (IF e.boss = NoEnt THEN {} ELSE {"boss"}))
           fs == sel \union (IF p.add THEN Range(Keys(k)) ELSE {})
           q == [p EXCEPT !.root = FALSE, !.only = ""]
       IN Fn(fs, LAMBDA f : IF f = "n" THEN "N" ELSE IF f = "boss" THEN SerP(k, [i |-> e.boss.i, m |-> e.boss.m, boss |-> NoEnt], q) ELSE Val(e, f))
SerH(k, h, p) ==
  LET q == [p EXCEPT !.only = ""]
      lone(e) == SerP(k, [i |-> e.i, m |-> e.m, boss |-> NoEnt], q)
      fs == Sel(p, {"x"} \union (IF h.own = NoEnt THEN {} ELSE {"own"}) \union (IF h.all = <<>> THEN {} ELSE {"all"}))
  IN Fn(fs, LAMBDA f : CASE f = "x" -> 3 [] f = "own" -> lone(h.own) [] f = "all" -> [j \in DOMAIN h.all |-> lone(h.all[j])])

Init == /\ kind \in Kinds /\ lazy \in BOOLEAN /\ n = 0 /\ act = [op |-> "init"]
        /\ o \in {[r |-> "P", e |-> e, boss |-> b] : e \in Ent(kind), b \in Ent(kind) \union {NoEnt}}
              \union {[r |-> "H", own |-> a, all |-> l] : a \in Ent(kind) \union {NoEnt}, l \in {<<>>} \union {<<x>> : x \in Ent(kind)}}

Cfg == [kind |-> kind, lazy |-> lazy]
Make == /\ n = 0 /\ n' = 1 /\ act' = [op |-> "new", c |-> Cfg, o |-> o, res |-> Ok(None)] /\ UNCHANGED <<kind, lazy, o>>
Places == IF o.r = "P" THEN {"self"} \union (IF o.boss = NoEnt THEN {} ELSE {"boss"})
          ELSE (IF o.own = NoEnt THEN {} ELSE {"own"}) \union (IF o.all = <<>> THEN {} ELSE {"all"})
At(p) == CASE p = "self" -> o.e [] p = "boss" -> o.boss [] p = "own" -> o.own [] p = "all" -> o.all[1]
Set == /\ n > 0 /\ n <= MaxOps /\ n' = n + 1 /\ UNCHANGED <<kind, lazy>>
       /\ \E p \in Places, i \in 0..1 :
            /\ i # At(p).i
            /\ o' = CASE p = "self" -> [o EXCEPT !.e.i = i] [] p = "boss" -> [o EXCEPT !.boss.i = i]
                      [] p = "own" -> [o EXCEPT !.own.i = i] [] p = "all" -> [o EXCEPT !.all[1].i = i]
            /\ act' = [op |-> "set", place |-> p, f |-> Keys(kind)[1], v |-> Val([i |-> i, m |-> ""], Keys(kind)[1]), res |-> Ok(None)]
Look == /\ n > 0 /\ UNCHANGED <<kind, lazy, o, n>>
        /\ \E p \in Places : act' = [op |-> "keys", place |-> p, res |-> <<"ok", KeyVals(kind, At(p))>>]
Ser == /\ n > 0 /\ UNCHANGED <<kind, lazy, o, n>>
       /\ \E p \in Opt : /\ OptOk(kind, p)
            /\ act' = [op |-> "ser", p |-> p, res |-> <<"ok", IF o.r = "P" THEN SerP(kind, [i |-> o.e.i, m |-> o.e.m, boss |-> o.boss], p)
                                                            ELSE SerH(kind, o, p)>>]
Next == Make \/ Set \/ Look \/ Ser
Spec == Init /\ [][Next]_vars
St == [kind |-> kind, lazy |-> lazy, o |-> o, n |-> n]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
=============================================================================
