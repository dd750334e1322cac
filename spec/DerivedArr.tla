----------------------------- MODULE DerivedArr -----------------------------
(* Derived properties whose inputs are array items, array lengths, properties *)
(* of child objects or of objects inside arrays, and templates using them in  *)
(* operators, conditions, loops, filters and method calls.  As in ObjDerived  *)
(* a read is a pure function of what was assigned; seen enumerates caches.    *)
EXTENDS Values

CONSTANTS MaxLen, MaxSeen

VARIABLES obj, cfg, raw, seen, act
vars == <<obj, cfg, raw, seen, act>>

(* raw: class 1: [l |-> <<ints>>, s |-> 0|1, x |-> text]
        class 2: [m |-> <<ints>> (property x of each object), k |-> int] *)
LVals == 0..2
Lists(c) == IF c = 1 THEN UNION {[1..n -> LVals] : n \in 0..MaxLen}
            ELSE UNION {[1..n -> {0, 3}] : n \in 1..MaxLen}

Raws(c) == IF c = 1 THEN [l : Lists(1), s : {0, 1}, x : {"ab", "b"}]
           ELSE [m : Lists(2), k : {0, 1}]

Derived(c) == IF c = 1 THEN {"t", "e", "n", "w", "j", "c", "r"} ELSE {"u", "v", "z", "y", "q", "h", "g"}

T(i) == DigitText[i]
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE T(Head(l)) \o "," \o Join(Tail(l))

Up == [x \in {"ab", "b"} |-> IF x = "ab" THEN "AB" ELSE "B"]
Rep(x, by) == IF x = "ab" THEN "a" \o by ELSE by     \* x|replace("b", by)

RECURSIVE Read(_, _, _)
Read(c, r, p) ==
  IF c = 1 THEN
    CASE p = "t" -> IF Len(r.l) >= 1 THEN Ok(S(T(r.l[1]))) ELSE Open         \* {{l[0]}}
      [] p = "e" -> IF Len(r.l) >= 2 THEN Ok(I(r.l[2] + 1)) ELSE Open        \* `int(l[1])+1
      [] p = "n" -> Ok(I(Len(r.l)))                                          \* `len(l)
      [] p = "w" -> IF Len(r.l) >= 1 THEN Ok(S(T(r.l[1]) \o "/" \o T(Len(r.l)))) ELSE Open  \* {{t}}/{{n}}
      [] p = "j" -> Ok(S("<" \o Join(r.l)))                                  \* {% for i in l %}
      [] p = "c" -> IF r.s = 1 THEN Ok(S(T(Len(r.l)))) ELSE Ok(S("no" \o T(r.s)))  \* {% if s %}{{l|length}}{% else %}no{{s}}
      [] p = "r" -> Ok(S(Rep(r.x, T(r.s)) \o Up[r.x]))                       \* {{x|replace("b",s)}}{{x.upper()}}
  ELSE
    CASE p = "u" -> Ok(S(T(r.m[1])))                                         \* {{m[0].x}}
      [] p = "v" -> Ok(I(r.m[1] + 1))                                        \* `int(m[0].x)+1
      [] p = "z" -> Ok(I(r.k + 1))                                           \* `int(this.k.x)+1
      [] p = "y" -> Ok(I(r.k + r.m[1]))                                      \* `k.x+m[0].x
      [] p = "q" -> Ok(S(T(r.k + Len(r.m))))                                 \* {{k.x + m|length}}
      [] p = "g" -> Ok(S(Join(r.m)))                                         \* {% for i in m %}{{i.x}},
      [] p = "h" -> Ok(S(T(r.m[1] + 1) \o "-" \o T(r.m[1])))                 \* {{v}}-{{u}}

Ins(l, i, v) == [j \in 1..(Len(l) + 1) |-> IF j < i THEN l[j] ELSE IF j = i THEN v ELSE l[j - 1]]
Rem(l, i) == [j \in 1..(Len(l) - 1) |-> IF j < i THEN l[j] ELSE l[j + 1]]
Rev(l) == [j \in 1..Len(l) |-> l[Len(l) + 1 - j]]

-----------------------------------------------------------------------------
Init == /\ obj = "none"
        /\ cfg \in [cls : 1..2, lo : BOOLEAN, la : BOOLEAN]
        /\ raw \in (IF cfg.cls = 1 THEN {[l |-> <<1, 2>>, s |-> 1, x |-> "ab"]} ELSE {[m |-> <<3, 0>>, k |-> 1]})
        /\ seen = {}
        /\ act = [op |-> "init"]

New == /\ obj = "none"
       /\ obj' = "live"
       /\ seen' = {}
       /\ act' = [op |-> "new", cfg |-> cfg, raw |-> raw, res |-> Ok(None)]
       /\ UNCHANGED <<cfg, raw>>

Get == /\ obj = "live"
       /\ \E p \in Derived(cfg.cls) :
            /\ act' = [op |-> "get", p |-> p, res |-> Read(cfg.cls, raw, p)]
            /\ seen' = IF Cardinality(seen) < MaxSeen THEN seen \cup {p} ELSE {p}
            /\ UNCHANGED <<obj, cfg, raw>>

Do(a, r) == /\ act' = a
            /\ raw' = r
            /\ seen' = IF r = raw THEN seen ELSE {}
            /\ UNCHANGED <<obj, cfg>>

Arr == IF cfg.cls = 1 THEN "l" ELSE "m"
IVals == IF cfg.cls = 1 THEN LVals ELSE {0, 3}
Put(l) == IF cfg.cls = 1 THEN [raw EXCEPT !.l = l] ELSE [raw EXCEPT !.m = l]
Cur == IF cfg.cls = 1 THEN raw.l ELSE raw.m
MinLen == IF cfg.cls = 1 THEN 0 ELSE 1

Edit == /\ obj = "live"
        /\ \/ \E l \in Lists(cfg.cls) : Do([op |-> "setarr", v |-> l, res |-> Ok(None)], Put(l))
           \/ \E i \in 1..Len(Cur), v \in IVals, door \in {"item", "path", "neg", "replace"} :
                Do([op |-> "setitem", i |-> i - 1, v |-> v, door |-> door, res |-> Ok(None)], Put([Cur EXCEPT ![i] = v]))
           \/ Len(Cur) < MaxLen /\ \E v \in IVals :
                \/ Do([op |-> "append", v |-> v, res |-> Ok(None)], Put(Append(Cur, v)))
                \/ Do([op |-> "insert", v |-> v, res |-> Ok(None)], Put(Ins(Cur, 1, v)))
           \/ Len(Cur) > MinLen /\ \E i \in {1, Len(Cur)}, door \in {"pop", "del"} :
                Do([op |-> "remove", i |-> i - 1, door |-> door, res |-> Ok(None)], Put(Rem(Cur, i)))
           \/ Len(Cur) = 2 /\ Do([op |-> "reverse", res |-> Ok(None)], Put(Rev(Cur)))
           \/ cfg.cls = 1 /\ \E s \in {0, 1} : Do([op |-> "sets", v |-> s, res |-> Ok(None)], [raw EXCEPT !.s = s])
           \/ cfg.cls = 1 /\ \E x \in {"ab", "b"} : Do([op |-> "setx", v |-> x, res |-> Ok(None)], [raw EXCEPT !.x = x])
           \/ cfg.cls = 2 /\ \E k \in {0, 1}, door \in {"child", "path", "whole", "wholeitem", "held"} :
                Do([op |-> "setk", v |-> k, door |-> door, res |-> Ok(None)], [raw EXCEPT !.k = k])
           \* a rejected item of an eager array changes nothing
           \/ ~cfg.la /\ Len(Cur) >= 1 /\ cfg.cls = 1
              /\ Do([op |-> "reject", res |-> Ok(None)], raw)

Next == New \/ Get \/ Edit

Spec == Init /\ [][Next]_vars

St == [obj |-> obj, cfg |-> cfg, raw |-> raw, seen |-> seen]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

TypeOK == raw \in Raws(cfg.cls) /\ seen \subseteq Derived(cfg.cls)
ReadsArePure == [][act'.op = "get" => UNCHANGED <<obj, cfg, raw>>]_vars
=============================================================================
