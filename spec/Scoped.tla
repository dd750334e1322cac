-------------------------------- MODULE Scoped --------------------------------
(* Sessions: a factory with a configuration, and two scoped sessions over it,    *)
(* one session for each thread in the first, for each key in the second.         *)
EXTENDS Values

VARIABLES conf,   \* what the factory makes sessions with
          sess,   \* scope -> the session there: its configuration and repositories
          act
vars == <<conf, sess, act>>
Slots == {"t1", "t2", "kx", "ky"}
None_ == [there |-> FALSE, af |-> FALSE, repos |-> 0]
New(af) == [there |-> TRUE, af |-> af, repos |-> 0]
Init == conf = TRUE /\ sess = [s \in Slots |-> None_] /\ act = [op |-> "init"]
St == [conf |-> conf, sess |-> sess]
Seen(new, s) == [new |-> new, af |-> s.af, repos |-> s.repos]

Get == \E s \in Slots :
  LET now == IF sess[s].there THEN sess[s] ELSE New(conf) IN
  /\ sess' = [sess EXCEPT ![s] = now]
  /\ act' = [op |-> "get", s |-> s, res |-> <<"ok", Seen(~sess[s].there, now)>>]
  /\ UNCHANGED conf
(* arguments are for a session to be created *)
GetKw == \E s \in Slots, af \in BOOLEAN :
  /\ sess' = IF sess[s].there THEN sess ELSE [sess EXCEPT ![s] = New(af)]
  /\ act' = [op |-> "getkw", s |-> s, af |-> af, res |-> IF sess[s].there THEN Err("InvalidRequestError") ELSE <<"ok", Seen(TRUE, New(af))>>]
  /\ UNCHANGED conf
(* the session of this scope only is closed, and forgotten *)
Remove == \E s \in Slots :
  /\ sess' = [sess EXCEPT ![s] = None_]
  /\ act' = [op |-> "remove", s |-> s, res |-> Ok(None), closed |-> IF sess[s].there THEN {s} ELSE {}]
  /\ UNCHANGED conf
(* for the sessions created later, whatever it is called on *)
Configure == \E af \in BOOLEAN, on \in {"t1", "kx", "factory"} :
  /\ conf' = af
  /\ act' = [op |-> "configure", on |-> on, af |-> af, res |-> Ok(None)]
  /\ UNCHANGED sess
(* a session out of any scope *)
Direct == \E af \in {"conf", "yes", "no"} :
  /\ act' = [op |-> "direct", af |-> af, res |-> <<"ok", Seen(TRUE, New(IF af = "conf" THEN conf ELSE af = "yes"))>>]
  /\ UNCHANGED <<conf, sess>>
Bind == \E s \in Slots :
  /\ sess[s].there /\ sess[s].repos < 1
  /\ sess' = [sess EXCEPT ![s].repos = @ + 1]
  /\ act' = [op |-> "bind", s |-> s, res |-> Ok(None)]
  /\ UNCHANGED conf
CloseAll == /\ act' = [op |-> "closeall", res |-> Ok(None), closed |-> {s \in Slots : sess[s].there}]
            /\ UNCHANGED <<conf, sess>>
Next == Get \/ GetKw \/ Remove \/ Configure \/ Direct \/ Bind \/ CloseAll
Spec == Init /\ [][Next]_vars
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> [conf |-> conf', sess |-> sess']]))
(* a session in a scope stays there, with its configuration, until it is removed *)
Stays == [][\A s \in Slots : (sess[s].there /\ ~(act'.op = "remove" /\ act'.s = s)) => (sess'[s].there /\ sess'[s].af = sess[s].af)]_vars
=============================================================================
