------------------------------- MODULE SesNames --------------------------------
(* Canonical names resolved by a session: the first name is the key of a named   *)
(* entity in one of its repositories (the first one bound that has it), the      *)
(* others go down its children; the last may be a property.                       *)
EXTENDS Values, Sequences

CONSTANTS MaxN, Repos
VARIABLES ts,   \* entities committed, in order: [repo, name, k, kk] (names, "" when there is none)
          ops, act
vars == <<ts, ops, act>>

Names == {"a", "b", "c"}
Init == ts = <<>> /\ ops = 0 /\ act = [op |-> "init"]

(* the entity that holds a key in a repository is the last one committed with it *)
In(r, nm) == {i \in DOMAIN ts : ts[i].repo = r /\ ts[i].name = nm}
Held(nm) == LET rs == {r \in Repos : In(r, nm) # {}} IN
            IF rs = {} THEN 0 ELSE Max(In(Min(rs), nm))

Find(p) == LET i == Held(p[1]) t == ts[i] IN
   IF i = 0 THEN Err("any")
   ELSE CASE Len(p) = 1 -> <<"ok", <<"obj", i, 0>>>>
          [] Len(p) = 2 /\ p[2] = t.k -> <<"ok", <<"obj", i, 1>>>>
          [] Len(p) = 2 /\ p[2] = "v" -> <<"ok", <<"val", i, 0>>>>
          [] Len(p) = 3 /\ p[2] = t.k /\ p[3] = t.kk /\ t.k # "" -> <<"ok", <<"obj", i, 2>>>>
          [] Len(p) = 3 /\ p[2] = t.k /\ t.k # "" /\ p[3] = "v" -> <<"ok", <<"val", i, 1>>>>
          [] OTHER -> Err("any")
Paths == {<<x>> : x \in Names} \union {<<x, y>> : x \in Names, y \in Names \union {"v"}}
         \union {<<x, y, z>> : x \in Names, y \in Names, z \in Names \union {"v"}}

More == ops < MaxN /\ ops' = ops + 1
Commit == /\ More
          /\ \E r \in Repos, nm \in {"a", "b"}, k \in {"", "a", "c"}, kk \in {"", "c"} :
               /\ (k = "" => kk = "")
               /\ ts' = Append(ts, [repo |-> r, name |-> nm, k |-> k, kk |-> kk])
               /\ act' = [op |-> "commit", r |-> r, name |-> nm, k |-> k, kk |-> kk, res |-> Ok(None)]
Rename == /\ More
          /\ \E i \in DOMAIN ts, nm \in {"a", "c"} :
               /\ ts[i].k # "" /\ ts[i].k # nm
               /\ ts' = [ts EXCEPT ![i].k = nm]
               /\ act' = [op |-> "rename", i |-> i, name |-> nm, res |-> Ok(None)]
Look == /\ UNCHANGED <<ts, ops>>
        /\ \E p \in Paths : act' = [op |-> "resolve", p |-> p, res |-> Find(p)]
Next == Commit \/ Rename \/ Look
Spec == Init /\ [][Next]_vars
St == [ts |-> ts, ops |-> ops]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
=============================================================================
