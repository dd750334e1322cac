-------------------------------- MODULE Repo --------------------------------
(* Repositories of entities and the sessions they are bound to.               *)
(*  repositories:  1 of class E, 2 of its subclass F, 3 of class P (composite  *)
(*  key), bound in that order to session 1; 4 of class E bound to session 2.   *)
(* The content of a repository is a sequence of objects with distinct keys;    *)
(* the keys identify one object.                                               *)
EXTENDS Values

CONSTANTS MaxObjs, IntKeys
VARIABLES objs,     \* sequence of [cls, key]; key of P a pair
          cont,     \* repository -> sequence of indexes of objs
          act
vars == <<objs, cont, act>>

Auto == -1          \* no key given
Repos == 1..4
Cls == <<"E", "F", "P", "E">>
IsA(c, d) == c = d \/ (c = "F" /\ d = "E")
SessionRepos(s) == IF s = 1 THEN <<1, 2, 3>> ELSE <<4>>

KeysOf(c) == IF c = "P" THEN {<<a, b>> : a \in {0, 1}, b \in {"x", "y"}} ELSE {<<k>> : k \in IntKeys \union {Auto}}

Init == objs = <<>> /\ cont = [r \in Repos |-> <<>>] /\ act = [op |-> "init"]

New == /\ Len(objs) < MaxObjs
       /\ \E c \in {"E", "F", "P"}, how \in {"kwargs", "dict"} :
          \E k \in KeysOf(c) :
            /\ (how = "dict" <=> Len(objs) = 1)
            /\ objs' = Append(objs, [cls |-> c, key |-> k])
            /\ act' = [op |-> "new", cls |-> c, key |-> k, how |-> how, res |-> Ok(None)]
       /\ UNCHANGED cont

Key(o) == objs[o].key
Keys(r) == {Key(cont[r][i]) : i \in DOMAIN cont[r]}
NextKey(r) == IF cont[r] = <<>> THEN 0
              ELSE 1 + CHOOSE m \in {k[1] : k \in Keys(r)} : \A k \in Keys(r) : k[1] <= m

Commit == \E r \in Repos, o \in DOMAIN objs :
            /\ IsA(objs[o].cls, Cls[r])
            /\ LET k == IF Key(o) = <<Auto>> THEN <<NextKey(r)>> ELSE Key(o)
                   at == {i \in DOMAIN cont[r] : Key(cont[r][i]) = k} IN
               /\ objs' = [objs EXCEPT ![o].key = k]
               /\ cont' = [cont EXCEPT ![r] = IF at = {} THEN Append(@, o)
                                              ELSE [i \in DOMAIN @ |-> IF i \in at THEN o ELSE @[i]]]
               /\ act' = [op |-> "commit", r |-> r, o |-> o,
                          res |-> <<"ok", IF objs[o].cls = "P" THEN k ELSE k>>]

Find(r, k) == LET at == {i \in DOMAIN cont[r] : Key(cont[r][i]) = k} IN
              IF at = {} THEN 0 ELSE cont[r][CHOOSE i \in at : TRUE]
RECURSIVE First(_, _, _)
First(rs, c, k) == IF rs = <<>> THEN 0
                   ELSE IF IsA(Cls[Head(rs)], c) /\ Find(Head(rs), k) # 0 THEN Find(Head(rs), k)
                   ELSE First(Tail(rs), c, k)

AskKeys(c) == IF c = "P" THEN {<<0, "x">>, <<1, "y">>} ELSE {<<0>>, <<1>>, <<2>>}

(* everything that can be asked *)
Look == /\ objs # <<>>
        /\ act' = [op |-> "look",
             res |-> <<"ok", [cont |-> cont,
                              keys |-> [o \in DOMAIN objs |-> Key(o)],
                              int |-> [r \in {1, 2, 4} |-> [i \in 1..3 |-> Find(r, <<i - 1>>)]],
                              pair |-> [i \in 1..2 |-> [j \in 1..2 |-> Find(3, <<i - 1, IF j = 1 THEN "x" ELSE "y">>)]]]>>]
        /\ UNCHANGED <<objs, cont>>

(* a key, resolved by a session as an entity of a class *)
Resolve == \E s \in 1..2, c \in {"E", "F", "P"} : \E k \in AskKeys(c), form \in {"tuple", "list", "scalar"} :
             /\ objs # <<>> /\ (form = "scalar" => Len(k) = 1)
             /\ LET o == First(SessionRepos(s), c, k) IN
                act' = [op |-> "resolve", s |-> s, c |-> c, k |-> k, form |-> form,
                        res |-> IF o = 0 THEN Err("Exception") ELSE Ok(I(o))]
             /\ UNCHANGED <<objs, cont>>

Next == New \/ Commit \/ Look \/ Resolve
Spec == Init /\ [][Next]_vars
St == [objs |-> objs, cont |-> cont]
View == St
EmitS == PrintT(ToJson([l |-> TLCGet("level"), a |-> act, t |-> St]))
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* the keys of a repository are unique and none is missing *)
Unique == \A r \in Repos : \A i, j \in DOMAIN cont[r] : i # j => Key(cont[r][i]) # Key(cont[r][j])
Assigned == \A r \in Repos : \A i \in DOMAIN cont[r] : Key(cont[r][i]) # <<Auto>>
(* a commit affects one repository, and loses no other object of it *)
OneRepo == [][act'.op = "commit" => \A r \in Repos \ {act'.r} : cont'[r] = cont[r]]_vars
NoLoss == [][act'.op = "commit" => \A k \in Keys(act'.r) : \E i \in DOMAIN cont'[act'.r] : objs'[cont'[act'.r][i]].key = k]_vars
=============================================================================
