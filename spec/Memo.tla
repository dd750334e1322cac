--------------------------------- MODULE Memo ---------------------------------
(* Memoized properties and methods of two instances (one of a subclass which    *)
(* overrides and calls the method of its parent) and their copies: what is given *)
(* is what was computed first, and computing happens once.                       *)
EXTENDS Values

VARIABLES x,    \* instance -> attribute the computations read; -1: they fail
          mp,   \* instance -> what the memoized property holds
          mm,   \* instance -> argument -> what the memoized method holds
          mo,   \* instance -> <<argument, value>> the method with one slot holds
          cp,   \* the class property
          act
vars == <<x, mp, mm, mo, cp, act>>

CONSTANTS NoLast, PIns, MIns   \* which instances read the property / call the method
Ins == {1, 2}
Args == {1, 2}
Nil == -9
Init == /\ x = [i \in Ins |-> 0] /\ mp = [i \in Ins |-> Nil] /\ mm = [i \in Ins |-> [k \in Args |-> Nil]]
        /\ mo = [i \in Ins |-> <<0, Nil>>] /\ cp = 1 /\ act = [op |-> "init"]
St == [x |-> x, mp |-> mp, mm |-> mm, mo |-> mo, cp |-> cp]
UNCH == UNCHANGED <<x, mp, mm, mo, cp>>

SetX == \E i \in Ins, v \in {-1, 0, 1} :
  /\ v # x[i] /\ x' = [x EXCEPT ![i] = v] /\ act' = [op |-> "setx", i |-> i, v |-> v, res |-> Ok(None), runs |-> 0]
  /\ UNCHANGED <<mp, mm, mo, cp>>
Read(i) == \E how \in {"get", "getattr"} :
  LET hit == mp[i] # Nil  ok == hit \/ x[i] >= 0 IN
  /\ mp' = IF ok /\ ~hit THEN [mp EXCEPT ![i] = x[i]] ELSE mp
  /\ act' = [op |-> "read", i |-> i, how |-> how, runs |-> IF hit THEN 0 ELSE 1,
             res |-> IF ok THEN Ok(I(IF hit THEN mp[i] ELSE x[i])) ELSE Err("ZeroDivisionError")]
  /\ UNCHANGED <<x, mm, mo, cp>>
Reset == \E i \in Ins, how \in {"name", "desc"} :
  /\ mp' = [mp EXCEPT ![i] = Nil] /\ act' = [op |-> "reset", i |-> i, how |-> how, res |-> Ok(None), runs |-> 0]
  /\ UNCHANGED <<x, mm, mo, cp>>
(* the method: x + 10 * argument; in the subclass 100 more than the one of the parent *)
Fun(i, k) == x[i] + 10 * k
Call(i) == \E k \in Args, how \in {"call", "kept", "class"} :
  LET hit == mm[i][k] # Nil  ok == hit \/ x[i] >= 0 IN
  /\ mm' = IF ok /\ ~hit THEN [mm EXCEPT ![i][k] = Fun(i, k)] ELSE mm
  /\ act' = [op |-> "call", i |-> i, k |-> k, how |-> how, runs |-> IF hit THEN 0 ELSE 1,
             res |-> IF ok THEN Ok(I((IF hit THEN mm[i][k] ELSE Fun(i, k)) + (IF i = 2 THEN 100 ELSE 0))) ELSE Err("ZeroDivisionError")]
  /\ UNCHANGED <<x, mp, mo, cp>>
(* a single slot: another argument takes the place of the one before *)
Last(i) == ~NoLast /\ \E k \in Args :
  LET hit == mo[i][1] = k  ok == hit \/ x[i] >= 0 IN
  /\ mo' = IF ok /\ ~hit THEN [mo EXCEPT ![i] = <<k, Fun(i, k)>>] ELSE mo
  /\ act' = [op |-> "last", i |-> i, k |-> k, runs |-> IF hit THEN 0 ELSE 1,
             res |-> IF ok THEN Ok(I(IF hit THEN mo[i][2] ELSE Fun(i, k))) ELSE Err("ZeroDivisionError")]
  /\ UNCHANGED <<x, mp, mm, cp>>
(* a copy with another attribute computes its own; the original is not affected *)
Copy == \E i \in Ins, k \in Args, v \in {0, 1}, how \in {"copy", "deepcopy"} :
  /\ act' = [op |-> "copy", i |-> i, k |-> k, v |-> v, how |-> how, runs |-> 1, res |-> Ok(I(v + 10 * k + (IF i = 2 THEN 100 ELSE 0)))]
  /\ UNCH
(* class properties are read on the class, a subclass, an instance; written on instances *)
CGet == \E on \in {"class", "subclass", "inst", "subinst"} : act' = [op |-> "cget", on |-> on, res |-> Ok(I(cp)), runs |-> 0] /\ UNCH
CSet == \E i \in Ins, v \in {1, 2}, ro \in BOOLEAN :
  /\ (ro \/ i = 1)
  /\ cp' = IF ro THEN cp ELSE v
  /\ act' = [op |-> "cset", i |-> i, v |-> v, ro |-> ro, runs |-> 0, res |-> IF ro THEN Err("AttributeError") ELSE Ok(None)]
  /\ UNCHANGED <<x, mp, mm, mo>>

Next == SetX \/ (\E i \in PIns : Read(i)) \/ (\E i \in MIns : Call(i) \/ Last(i)) \/ Reset \/ Copy \/ CGet \/ CSet
Spec == Init /\ [][Next]_vars
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> [x |-> x', mp |-> mp', mm |-> mm', mo |-> mo', cp |-> cp']]))
EmitS == PrintT(ToJson([s |-> St, a |-> act', t |-> [x |-> x', mp |-> mp', mm |-> mm', mo |-> mo', cp |-> cp']]))
(* what is held is not computed again *)
Once == act.op \in {"read", "call", "last"} => (act.runs = 0 => IsOk(act.res))

=============================================================================
