------------------------------ MODULE ObjSerial ------------------------------
(* What do_serialize writes, and that what it writes can be read back.       *)
(*  r required; d default 4 (alias al); ro read-only, default 7; ns is never  *)
(*  serialized; o optional; e default `int(r)+1; k child object with x        *)
(*  (default 1) and kn (not serialized by the child); m list of objects with  *)
(*  y and z (default 3).  ng is a negated alias of r.                         *)
EXTENDS Values

CONSTANTS Excludes, Onlys     \* the option values explored (sets of sets of names)

VARIABLES obj, cfg, st, act
vars == <<obj, cfg, st, act>>

(* k2 another child of the class of k *)
(* e is 0 when it is derived from r, else its literal value *)
Dom == [r |-> {1, 2}, d |-> {4, 5}, ns |-> {0, 3}, o |-> {0, 6}, e |-> {0, 2, 9}, kx |-> {1, 2}, kn |-> {4}, mz |-> {3, 8}]
N(n) == IF n = 0 THEN None ELSE I(n)
EVal == IF st.e = 0 THEN st.r + 1 ELSE st.e

Start == [r |-> 1, d |-> 4, ns |-> 0, o |-> 0, e |-> 0, kx |-> 1, kn |-> 4, mz |-> 3]

Init == /\ obj = "none" /\ cfg \in [lazy : BOOLEAN, inherited : BOOLEAN]
        /\ st = Start /\ act = [op |-> "init"]
New == /\ obj = "none" /\ obj' = "live"
       /\ act' = [op |-> "new", cfg |-> cfg, res |-> Ok(None)]
       /\ UNCHANGED <<cfg, st>>

Set == /\ obj = "live"
       /\ \E s \in DOMAIN Dom : \E v \in Dom[s] :
            /\ v # st[s]
            /\ ~(s \in {"ns", "o", "e"} /\ v = 0)
            /\ st' = [st EXCEPT ![s] = v]
            /\ act' = [op |-> "set", s |-> s, v |-> v, res |-> Ok(None)]
       /\ UNCHANGED <<obj, cfg>>

Sel(k, o) == k \notin o.ex /\ (o.only = {} \/ k \in o.only)
Shown(k, v, dv, o) == Sel(k, o) /\ (o.nd => v # None /\ v # dv)
NoDflt == <<"nodefault">>

Nested(o) == [o EXCEPT !.only = {}]     \* excludes apply at every level, only at the top

Obj(f) == <<"o", f>>
Lst(s) == <<"l", s>>

(* the children: k and k2 of one shape, with a read-only rr (7 in k, its default, and 5 in
   k2); the two items of m have a read-only q (default 8, 9 in the items) *)
KOut(o, x, rr) ==
  LET n == Nested(o)
      v(f) == IF f = "x" THEN I(x) ELSE I(rr)
      ks == {f \in {"x", "rr"} : Shown(f, v(f), IF f = "x" THEN I(1) ELSE I(7), n) /\ ~(o.nro /\ f = "rr")}
  IN Obj([f \in ks |-> v(f)])
Item(o, y, z) ==
  LET n == Nested(o)
      v(f) == CASE f = "y" -> I(y) [] f = "z" -> I(z) [] f = "q" -> I(9)
      ks == {f \in {"y", "z", "q"} : Shown(f, v(f), CASE f = "z" -> I(3) [] f = "q" -> I(8) [] OTHER -> NoDflt, n)
                                      /\ ~(o.nro /\ f = "q")}
  IN Obj([f \in ks |-> v(f)])
MOut(o) == Lst(<<Item(o, 1, st.mz), Item(o, 2, 3)>>)

Flat == {"r", "d", "ro", "o", "e"}
FlatVal(k) == CASE k = "r" -> I(st.r) [] k = "d" -> I(st.d) [] k = "ro" -> I(7) [] k = "o" -> N(st.o) [] k = "e" -> I(EVal)
FlatDflt(k) == CASE k = "d" -> I(4) [] k = "ro" -> I(7) [] k = "e" -> I(st.r + 1) [] OTHER -> NoDflt

Raw(o) == {k \in Flat : Shown(k, FlatVal(k), FlatDflt(k), o) /\ ~(o.nro /\ k = "ro")}
          \cup {k \in {"k", "k2", "m"} : Sel(k, o)}
Alias(o) == {a \in {"al", "ng"} : Sel(a, o) /\ (IF a = "al" THEN "d" ELSE "r") \in Raw(o)}
Out(o) == [k \in Raw(o) \cup Alias(o) |->
             CASE k \in Flat -> FlatVal(k)
               [] k = "k" -> KOut(o, st.kx, 7)
               [] k = "k2" -> KOut(o, 1, 5)
               [] k = "m" -> MOut(o)
               [] k = "al" -> I(st.d)
               [] k = "ng" -> I(0 - st.r)]

Options == [ex : Excludes, only : Onlys, nd : BOOLEAN, nro : BOOLEAN]

Ser == /\ obj = "live"
       /\ \E o \in Options :
            /\ (o.ex # {} /\ o.only # {}) => ~o.nro
            /\ act' = [op |-> "ser", o |-> o, res |-> Ok(Out(o))]
       /\ UNCHANGED <<obj, cfg, st>>

(* serialize, build a new object of the same class from the result, read it *)
Round == /\ obj = "live"
         /\ \E nd \in BOOLEAN :
              act' = [op |-> "round", nd |-> nd,
                      res |-> Ok([r |-> I(st.r), d |-> I(st.d), ro |-> I(7), o |-> N(st.o),
                                  e |-> I(EVal), kx |-> I(st.kx), mz |-> I(st.mz), ns |-> None,
                                  rr |-> I(7), rr2 |-> I(5), q |-> I(9)])]
         /\ UNCHANGED <<obj, cfg, st>>

Next == New \/ Set \/ Ser \/ Round
Spec == Init /\ [][Next]_vars

St == [obj |-> obj, cfg |-> cfg, st |-> st]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* nothing excluded, hidden or unselected is ever written *)
NothingHidden == act.op = "ser" =>
    /\ DOMAIN act.res[2] \cap act.o.ex = {}
    /\ (act.o.only # {} => DOMAIN act.res[2] \subseteq act.o.only)
    /\ "ns" \notin DOMAIN act.res[2]
    /\ (act.o.nro => "ro" \notin DOMAIN act.res[2])
    /\ (act.o.nro => \A k \in {"k", "k2"} \cap DOMAIN act.res[2] : "rr" \notin DOMAIN act.res[2][k][2])
(* without filters, everything declared is written *)
Complete == act.op = "ser" /\ act.o = [ex |-> {}, only |-> {}, nd |-> FALSE, nro |-> FALSE] =>
    DOMAIN act.res[2] = Flat \cup {"k", "k2", "m", "al", "ng"}
SerIsPure == [][act'.op \in {"ser", "round"} => UNCHANGED <<obj, cfg, st>>]_vars
=============================================================================
