-------------------------------- MODULE Fkeys --------------------------------
(* Foreign keys.  A property declared as a foreign key of a class of entities  *)
(* holds the key (all the keys) of one of them, whichever way it was given, and *)
(* resolves to the entity of that class (or of a subclass) registered with that *)
(* key in the session, and to nothing else.                                    *)
(*  Person (key: int, text or a pair), Vip extends Person, Order with           *)
(*    buyer: a Person, guest: a Vip, tag: a Person by its name, all: an array    *)
(*    of Persons; boss of Person: a Person; Thing: another class of entities.    *)
(* The definitions refer to each other and are loaded starting with any.        *)
EXTENDS Values

CONSTANTS MaxEnts, KeyKinds, MaxSet
VARIABLES cfg,      \* kind of keys and the definition loaded first
          ents,     \* sequence of [cls, k, in]: class, number of its key, whether it is committed
          f,        \* property -> what it holds; NoObj before the order exists
          act
vars == <<cfg, ents, f, act>>

KeyNos == 1..3
Day(d) == <<"d", d>>
(* as it is written *)
Plain(v) == CASE v[1] = "d" -> S(v[2])
              [] v[1] = "t" -> <<"t", [i \in DOMAIN v[2] |-> IF v[2][i][1] = "d" THEN S(v[2][i][2]) ELSE v[2][i]]>>
              [] OTHER -> v
KeyOf(n) == CASE cfg.key = "int" -> <<I(n - 1)>>
              [] cfg.key = "text" -> <<S(<<"a", "b,c", "7">>[n])>>
              [] cfg.key = "pair" -> <<I(<<0, 0, 2>>[n]), S(<<"x", "y", "x">>[n])>>
              [] cfg.key = "day" -> <<Day(<<"2020-01-01", "2020-01-02", "2021-01-01">>[n])>>
              [] cfg.key = "mix" -> <<I(<<0, 0, 2>>[n]), Day(<<"2020-01-01", "2021-02-03", "2020-01-01">>[n])>>
NameOf(e) == S(<<"n1", "n2", "n3", "n4">>[e])
Val(n) == LET k == KeyOf(n) IN IF Len(k) = 1 THEN k[1] ELSE <<"t", k>>
BadVal == <<"bad">>
Props == {"buyer", "guest", "tag", "boss"}
IsA(c, d) == c = d \/ (c = "Vip" /\ d = "Person")
Foreign(p) == IF p = "guest" THEN "Vip" ELSE "Person"
Live == f # <<>>

Init == /\ cfg \in [key : KeyKinds, first : {"Person", "Order", "Vip"}]
        /\ ents = <<>> /\ f = <<>> /\ act = [op |-> "init"]

Load == /\ ents = <<>> /\ ~Live
        /\ f' = [p \in Props |-> None] @@ [all |-> <<>>]
        /\ act' = [op |-> "load", cfg |-> cfg, res |-> Ok(None)]
        /\ UNCHANGED <<cfg, ents>>

(* an entity, committed or not to the repository of its class *)
Ent == /\ Live /\ Len(ents) < MaxEnts
       /\ \E c \in {"Person", "Vip", "Thing"}, k \in KeyNos, in \in BOOLEAN :
            /\ \A i \in DOMAIN ents : ~(ents[i].in /\ in /\ ents[i].cls = c /\ ents[i].k = k)
            /\ c = "Thing" => k = 1
            /\ ents' = Append(ents, [cls |-> c, k |-> k, in |-> in])
            /\ act' = [op |-> "ent", cls |-> c, k |-> KeyOf(k), name |-> NameOf(Len(ents) + 1), in |-> in, res |-> Ok(None)]
       /\ UNCHANGED <<cfg, f>>

(* ways of giving a key *)
Forms == IF cfg.key \in {"pair", "mix"} THEN {"tuple", "list", "joined"} ELSE {"scalar", "tuple", "list"}

(* what giving e (an entity) to property p stores *)
FromEnt(p, e) == IF ~IsA(ents[e].cls, Foreign(p)) THEN BadVal
                 ELSE IF p = "tag" THEN NameOf(e) ELSE Val(ents[e].k)
(* how many properties are given something, at most *)
Room(p) == Cardinality({q \in Props \ {p} : f[q] # None}) + (IF f.all = <<>> \/ p = "all" THEN 0 ELSE 1) < MaxSet
Set(p, v, a) ==
  /\ Room(p)
  /\ f' = [f EXCEPT ![p] = v]
  /\ act' = a @@ [op |-> "set", p |-> p, res |-> IF v = BadVal THEN Err("invalid") ELSE Ok(None)]
  /\ UNCHANGED <<cfg, ents>>
SetKey == /\ Live
          /\ \E p \in Props \ {"tag"}, n \in KeyNos, form \in Forms :
               Set(p, Val(n), [how |-> "key", k |-> KeyOf(n), form |-> form])
SetEnt == /\ Live
          /\ \E p \in Props, e \in DOMAIN ents : Set(p, FromEnt(p, e), [how |-> "ent", e |-> e])
SetOther == /\ Live
            /\ \E p \in Props :
                 \/ Set(p, None, [how |-> "none"])
                 \/ p = "tag" /\ Set(p, S("n,1"), [how |-> "text", v |-> "n,1"])
                 \/ cfg.key = "int" /\ p # "tag" /\ Set(p, BadVal, [how |-> "text", v |-> "abc"])
                 \/ cfg.key = "int" /\ p # "tag" /\ Set(p, I(2), [how |-> "text", v |-> "2"])
                 \/ cfg.key = "pair" /\ p # "tag" /\ Set(p, BadVal, [how |-> "text", v |-> "1,x,y"])
                 \/ cfg.key = "pair" /\ p # "tag" /\ Set(p, BadVal, [how |-> "text", v |-> "1"])

(* an array of foreign keys, from keys and entities *)
SetAll == /\ Live /\ Room("all")
          /\ \E n \in KeyNos, e \in {0} \union DOMAIN ents :
               LET vs == <<Val(n)>> \o (IF e = 0 THEN <<>> ELSE <<FromEnt("all", e)>>)
                   ok == \A i \in DOMAIN vs : vs[i] # BadVal IN
               /\ ok
               /\ f' = [f EXCEPT !.all = vs]
               /\ act' = [op |-> "all", k |-> KeyOf(n), e |-> e, res |-> Ok(None)]
          /\ UNCHANGED <<cfg, ents>>

Get == /\ Live
       /\ \E p \in Props : act' = [op |-> "get", p |-> p, res |-> IF f[p] = BadVal THEN Err("invalid") ELSE Ok(f[p])]
       /\ UNCHANGED <<cfg, ents, f>>
Good == \A p \in Props : f[p] # BadVal
(* everything, read, serialized, and from an object made of what was serialized *)
Whole == /\ Live /\ Good
         /\ \E door \in {"get", "ser", "full", "json"} :
               act' = [op |-> "whole", door |-> door, res |-> LET W(v) == IF door \in {"ser", "full"} THEN Plain(v) ELSE v IN
                              <<"ok", [p \in Props |-> W(f[p])] @@ [all |-> <<"l", [i \in DOMAIN f.all |-> W(f.all[i])]>>]>>]
         /\ UNCHANGED <<cfg, ents, f>>

(* the committed entity of class c holding v: of the repositories in order *)
Cands(c, v) == {e \in DOMAIN ents : ents[e].in /\ IsA(ents[e].cls, c) /\ Val(ents[e].k) = v}
Find(c, v) == LET C == Cands(c, v)
                  P == {e \in C : ents[e].cls = "Person"} IN
              IF C = {} THEN 0 ELSE IF P # {} THEN CHOOSE e \in P : TRUE ELSE CHOOSE e \in C : TRUE
Found(e) == IF e = 0 THEN Err("unresolved") ELSE Ok(I(e))
Resolve == /\ Live
           /\ \E p \in Props \ {"tag"}, how \in {"type", "evaluate", "ptr"} :
                /\ f[p] \notin {None, BadVal}
                /\ act' = [op |-> "resolve", p |-> p, how |-> how, res |-> Found(Find(Foreign(p), f[p]))]
           /\ UNCHANGED <<cfg, ents, f>>
(* resolving a key given directly *)
Ask == /\ Live
       /\ \E p \in {"buyer", "guest"}, n \in KeyNos, form \in Forms :
            act' = [op |-> "ask", p |-> p, k |-> KeyOf(n), form |-> form, res |-> Found(Find(Foreign(p), Val(n)))]
       /\ UNCHANGED <<cfg, ents, f>>

Next == Load \/ Ent \/ SetKey \/ SetEnt \/ SetOther \/ SetAll \/ Get \/ Whole \/ Resolve \/ Ask
Spec == Init /\ [][Next]_vars
St == [cfg |-> cfg, ents |-> ents, f |-> f]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
EmitS == PrintT(ToJson([l |-> TLCGet("level"), a |-> act, t |-> St]))

(* a foreign key never resolves to an entity of another class, or with another key *)
Sound == act.op = "resolve" /\ IsOk(act.res) =>
           LET e == act.res[2][2] IN IsA(ents[e].cls, Foreign(act.p)) /\ Val(ents[e].k) = f[act.p] /\ ents[e].in
(* one that is given as an entity registered in the session resolves (to one with its key) *)
Complete == Live => \A p \in {"buyer", "guest", "boss"}, e \in DOMAIN ents :
               ents[e].in /\ IsA(ents[e].cls, Foreign(p)) => Find(Foreign(p), FromEnt(p, e)) # 0
=============================================================================
