------------------------------ MODULE Accessors -----------------------------
(* Getter and setter methods (get_x, set_y) along a chain of classes A <- B   *)
(* <- E.  Each class may define the method again and may declare the property *)
(* again; the nearest method is the one called, with the instance and the     *)
(* converted value, once per accepted assignment (per first read of it when   *)
(* loading is lazy).  The nearest deleter is called once per deletion, before  *)
(* the value is gone (classes in cfg.get also define the deleter again).       *)
EXTENDS Values

VARIABLES obj, cfg, a, y, pend, seen, act
vars == <<obj, cfg, a, y, pend, seen, act>>

Levels == {"A", "B", "E"}
(* cfg.get / cfg.set: classes besides A which define the method again *)
Cfgs == [lv : Levels, get : SUBSET {"B", "E"}, set : SUBSET {"B", "E"}, redecl : SUBSET {"B", "E"}, lazy : BOOLEAN]

Up(l) == CASE l = "A" -> <<"A">> [] l = "B" -> <<"B", "A">> [] l = "E" -> <<"E", "B", "A">>
Nearest(defs, l) == LET u == Up(l)
                        i == CHOOSE k \in DOMAIN u : (u[k] = "A" \/ u[k] \in defs)
                                 /\ \A j \in 1..(k - 1) : u[j] # "A" /\ u[j] \notin defs
                    IN u[i]
Inc == [l \in Levels |-> CASE l = "A" -> 1 [] l = "B" -> 10 [] l = "E" -> 20]

X == a + Inc[Nearest(cfg.get, cfg.lv)]
SetterOf == Nearest(cfg.set, cfg.lv)
DeleterOf == Nearest(cfg.get, cfg.lv)
Gone == S("gone")

Init == /\ obj = "none" /\ cfg \in Cfgs
        /\ \A l \in cfg.get \cup cfg.set \cup cfg.redecl : l \in {Up(cfg.lv)[k] : k \in DOMAIN Up(cfg.lv)}
        /\ a = 1 /\ y = None /\ pend = FALSE /\ seen = FALSE
        /\ act = [op |-> "init"]
New == /\ obj = "none" /\ obj' = "live"
       /\ act' = [op |-> "new", cfg |-> cfg, res |-> <<"ok", None, <<>> >>]
       /\ UNCHANGED <<cfg, a, y, pend, seen>>

(* results: <<"ok", value, calls of setters>> *)
Call(v) == <<<<SetterOf, v>>>>
Live == /\ obj = "live"
        /\ \/ \E door \in {"attr", "item"} :
                /\ act' = [op |-> "getx", door |-> door, res |-> <<"ok", I(X), <<>> >>]
                /\ seen' = TRUE /\ UNCHANGED <<a, y, pend>>
           \/ \E v \in {1, 2}, door \in {"attr", "item"} :
                /\ act' = [op |-> "seta", v |-> I(v), door |-> door, res |-> <<"ok", None, <<>> >>]
                /\ a' = v /\ seen' = (IF v = a THEN seen ELSE FALSE) /\ UNCHANGED <<y, pend>>
           \/ \E v \in {I(3), S("4"), S("x")}, door \in {"attr", "item"} :
                LET c == ConvInt(v) IN
                /\ cfg.lazy => IsOk(c)
                /\ act' = [op |-> "sety", v |-> v, door |-> door,
                           res |-> IF IsErr(c) THEN <<"err", "invalid", <<>> >>
                                   ELSE IF cfg.lazy THEN <<"ok", None, <<>> >> ELSE <<"ok", None, Call(c[2])>>]
                /\ y' = IF IsOk(c) THEN c[2] ELSE S("bad")
                /\ pend' = (IsOk(c) /\ cfg.lazy /\ (pend \/ y # v))
                /\ UNCHANGED <<a, seen>>
           \* an undefined value (rejected, see Typed) is not read here
           \/ \E door \in {"attr", "item"} :
                /\ y # None /\ y # S("bad") /\ y # Gone
                /\ act' = [op |-> "gety", door |-> door, res |-> <<"ok", y, IF pend THEN Call(y) ELSE <<>> >>]
                /\ pend' = FALSE /\ UNCHANGED <<a, y, seen>>
           \* what was removed is not there any more
           \/ \E door \in {"attr", "item"} :
                /\ y = Gone
                /\ act' = [op |-> "gety", door |-> door, res |-> <<"err", "missing", <<>> >>]
                /\ UNCHANGED <<a, y, pend, seen>>
           \/ \E door \in {"attr", "item", "pop"} :
                /\ y # Gone /\ (door = "pop" => y # S("bad"))
                /\ act' = [op |-> "dely", door |-> door,
                           res |-> <<"ok", IF door = "pop" THEN y ELSE None,
                                     (IF door = "pop" /\ pend THEN Call(y) ELSE <<>>)
                                     \o <<<<"del", DeleterOf, IF y = S("bad") THEN None ELSE y>>>> >>]
                /\ y' = Gone /\ pend' = FALSE /\ UNCHANGED <<a, seen>>
        /\ UNCHANGED <<obj, cfg>>
Next == New \/ Live
Spec == Init /\ [][Next]_vars
St == [obj |-> obj, cfg |-> cfg, a |-> a, y |-> y, pend |-> pend, seen |-> seen]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
TypeOK == pend => cfg.lazy
=============================================================================
