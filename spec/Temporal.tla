------------------------------ MODULE Temporal ------------------------------
(* Dates, times and instants.  Whatever the form in which one is given (a     *)
(* Python object, a text in one of the formats), the same one is read, and    *)
(* its serialization, in the format declared if any, reads back as the same,  *)
(* up to what the format leaves out.  What is not in the calendar is rejected.*)
EXTENDS Values

VARIABLES cfg, v, act
vars == <<cfg, v, act>>

Pad(w, n) == LET t == ToString(n) IN
             IF Len(t) >= w THEN t ELSE IF Len(t) = w - 1 THEN "0" \o t ELSE IF Len(t) = w - 2 THEN "00" \o t
             ELSE IF Len(t) = w - 3 THEN "000" \o t ELSE IF Len(t) = w - 4 THEN "0000" \o t ELSE "00000" \o t
P2(n) == Pad(2, n)

(* ---- the calendar ---- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> IF Leap(y) THEN 29 ELSE 28
IsDate(d) == d.m \in 1..12 /\ d.d \in 1..Days(d.y, d.m)
IsTime(t) == t.h \in 0..23 /\ t.i \in 0..59 /\ t.s \in 0..59

Dates == {[y |-> y, m |-> 2, d |-> 29] : y \in {2020, 2021, 2000, 1900}} \union
         {[y |-> 2020, m |-> 4, d |-> 31], [y |-> 2019, m |-> 12, d |-> 31], [y |-> 1970, m |-> 1, d |-> 1], [y |-> 2021, m |-> 13, d |-> 1],
          [y |-> 2021, m |-> 3, d |-> 4], [y |-> 1066, m |-> 10, d |-> 11]}
Times == {[h |-> 0, i |-> 0, s |-> 0, u |-> 0], [h |-> 23, i |-> 59, s |-> 59, u |-> 999999], [h |-> 1, i |-> 2, s |-> 3, u |-> 4000],
          [h |-> 12, i |-> 0, s |-> 0, u |-> 1], [h |-> 25, i |-> 0, s |-> 0, u |-> 0], [h |-> 10, i |-> 60, s |-> 0, u |-> 0], [h |-> 20, i |-> 30, s |-> 0, u |-> 0]}
Zones == {0, 120, -90}

D(d) == <<"date", d>>
T(t) == <<"time", t>>
DT(d, t, z) == <<"dt", d, t, z>>
Midnight == [h |-> 0, i |-> 0, s |-> 0, u |-> 0]

(* ---- texts ---- *)
DFmts == {"YYYY-MM-DD", "YYYY/MM/DD", "YYYY.MM.DD", "DD-MM-YYYY", "DD/MM/YYYY", "DD.MM.YYYY", "YYYY-MM", "YYYY/MM", "MM-YYYY", "MM/YYYY", "MM.YYYY"}
DText(f, d) ==
  LET y == Pad(4, d.y) m == P2(d.m) e == P2(d.d) IN
  CASE f = "YYYY-MM-DD" -> y \o "-" \o m \o "-" \o e
    [] f = "YYYY/MM/DD" -> y \o "/" \o m \o "/" \o e
    [] f = "YYYY.MM.DD" -> y \o "." \o m \o "." \o e
    [] f = "DD-MM-YYYY" -> e \o "-" \o m \o "-" \o y
    [] f = "DD/MM/YYYY" -> e \o "/" \o m \o "/" \o y
    [] f = "DD.MM.YYYY" -> e \o "." \o m \o "." \o y
    [] f = "%d %m %Y" -> e \o " " \o m \o " " \o y
    [] f = "YYYY-MM" -> y \o "-" \o m
    [] f = "YYYY/MM" -> y \o "/" \o m
    [] f = "MM-YYYY" -> m \o "-" \o y
    [] f = "MM/YYYY" -> m \o "/" \o y
    [] f = "MM.YYYY" -> m \o "." \o y
DCut(f, d) == IF f \in {"YYYY-MM", "YYYY/MM", "MM-YYYY", "MM/YYYY", "MM.YYYY"} THEN [d EXCEPT !.d = 1] ELSE d

TFmts == {"HH:mm", "HH:mm:ss", "HH:mm:ss.SSS", "HH:mm:ss.SSSSSS"}
TText(f, t) ==
  LET hm == P2(t.h) \o ":" \o P2(t.i) s == ":" \o P2(t.s) IN
  CASE f = "HH:mm" -> hm
    [] f = "HH:mm:ss" -> hm \o s
    [] f = "HH:mm:ss.SSS" -> hm \o s \o "." \o Pad(3, t.u \div 1000)
    [] f = "HH:mm:ss.SSSSSS" -> hm \o s \o "." \o Pad(6, t.u)
    [] f = "HH-mm" -> P2(t.h) \o "-" \o P2(t.i)
    [] f = "%H%M%S" -> P2(t.h) \o P2(t.i) \o P2(t.s)
    [] f = "iso" -> hm \o s \o IF t.u = 0 THEN "" ELSE "." \o Pad(6, t.u)
TCut(f, t) ==
  CASE f \in {"HH:mm", "HH-mm"} -> [t EXCEPT !.s = 0, !.u = 0]
    [] f \in {"HH:mm:ss", "%H%M%S"} -> [t EXCEPT !.u = 0]
    [] f = "HH:mm:ss.SSS" -> [t EXCEPT !.u = (t.u \div 1000) * 1000]
    [] OTHER -> t
ZText(z) == LET a == IF z < 0 THEN -z ELSE z IN (IF z < 0 THEN "-" ELSE "+") \o P2(a \div 60) \o ":" \o P2(a % 60)

(* ---- what can be given: <<how, payload, what it is>> ; what it is: a value or "invalid" ---- *)
If(ok, x) == IF ok THEN x ELSE <<"invalid">>
GiveDate ==
  {[how |-> h, d |-> d, t |-> Midnight, z |-> 0, text |-> "", is |-> D(d)] : h \in {"date", "datetime", "arrow"}, d \in {d \in Dates : IsDate(d)}}
  \union {[how |-> "text", d |-> d, t |-> Midnight, z |-> 0, text |-> DText(f, d), is |-> If(IsDate(DCut(f, d)), D(DCut(f, d)))] : f \in DFmts, d \in Dates}
  \union {[how |-> h, d |-> d, t |-> [Midnight EXCEPT !.h = 1], z |-> 0, text |-> "", is |-> <<"invalid">>] : h \in {"datetime", "arrow"}, d \in {d \in Dates : d.y = 2020 /\ IsDate(d)}}
  \union {[how |-> h, d |-> [y |-> 1, m |-> 1, d |-> 1], t |-> Midnight, z |-> 0, text |-> x, is |-> <<"invalid">>] : h \in {"text"}, x \in {"abc", "2020", "12:30", "2020-02-29x"}}
GiveTime ==
  {[how |-> h, d |-> [y |-> 1, m |-> 1, d |-> 1], t |-> t, z |-> 0, text |-> "", is |-> T(t)] : h \in {"time", "datetime"}, t \in {t \in Times : IsTime(t)}}
  \union {[how |-> "text", d |-> [y |-> 1, m |-> 1, d |-> 1], t |-> t, z |-> 0, text |-> TText(f, t), is |-> If(IsTime(t), T(TCut(f, t)))] : f \in TFmts, t \in Times}
  \union {[how |-> h, d |-> d, t |-> [Midnight EXCEPT !.h = 1], z |-> 0, text |-> "", is |-> <<"invalid">>] : h \in {"datetime"}, d \in {d \in Dates : d.y = 2020 /\ IsDate(d)}}
  \union {[how |-> "text", d |-> [y |-> 1, m |-> 1, d |-> 1], t |-> Midnight, z |-> 0, text |-> x, is |-> <<"invalid">>] : x \in {"abc", "2020-02-29"}}
GiveDt ==
  {[how |-> h, d |-> d, t |-> t, z |-> z, text |-> "", is |-> DT(d, t, z)] : h \in {"datetime", "arrow"}, d \in {d \in Dates : IsDate(d)}, t \in {t \in Times : IsTime(t)}, z \in Zones}
  \union {[how |-> "date", d |-> d, t |-> Midnight, z |-> 0, text |-> "", is |-> DT(d, Midnight, 0)] : d \in {d \in Dates : IsDate(d)}}
  \union {[how |-> "text", d |-> d, t |-> t, z |-> 0, text |-> DText(f, d) \o " " \o TText(g, t),
            is |-> If(IsDate(DCut(f, d)) /\ IsTime(t), DT(DCut(f, d), TCut(g, t), 0))] : f \in DFmts, g \in TFmts, d \in {d \in Dates : d.y > 1970}, t \in {t \in Times : t.h \in {1, 23, 10}}}
  \union {[how |-> "text", d |-> d, t |-> t, z |-> z, text |-> DText("YYYY-MM-DD", d) \o sep \o TText(g, t) \o s2 \o ZText(z),
            is |-> If(IsDate(d) /\ IsTime(t), DT(d, TCut(g, t), z))] : g \in {"HH:mm:ss", "HH:mm:ss.SSSSSS"}, sep \in {" "}, s2 \in {" "}, d \in Dates, t \in {t \in Times : t.h \in {1, 23}}, z \in Zones}
  \union {[how |-> "text", d |-> d, t |-> t, z |-> z, text |-> DText("YYYY-MM-DD", d) \o "T" \o TText("iso", t) \o ZText(z),
            is |-> If(IsDate(d) /\ IsTime(t), DT(d, t, z))] : d \in Dates, t \in Times, z \in Zones}
  \union {[how |-> "text", d |-> [y |-> 1, m |-> 1, d |-> 1], t |-> Midnight, z |-> 0, text |-> x, is |-> <<"invalid">>] : x \in {"abc", "T", "12:30"}}

Types == {"date", "time", "datetime"}
Gives == [date |-> GiveDate, time |-> GiveTime, datetime |-> GiveDt]
Fmts(ty) == CASE ty = "date" -> {"", "DD/MM/YYYY", "%d %m %Y"}
              [] ty = "time" -> {"", "HH-mm", "%H%M%S"}
              [] ty = "datetime" -> {"", "ATOM", "DD/MM/YYYY HH:mm:ss", "%d %m %Y %H%M%S"}
(* with a declared format, only the texts that cannot be mistaken for one *)
Plain(ty, g) == g.how # "text" \/ (ty = "date" /\ g.text = DText("YYYY-MM-DD", g.d)) \/ (ty = "time" /\ g.text = TText("HH:mm:ss", g.t))

Text(ty, f, x) ==
  CASE ty = "date" -> DText(IF f = "" THEN "YYYY-MM-DD" ELSE f, x[2])
    [] ty = "time" -> TText(IF f = "" THEN "iso" ELSE f, x[2])
    [] ty = "datetime" ->
         CASE f = "" -> DText("YYYY-MM-DD", x[2]) \o "T" \o TText("iso", x[3]) \o ZText(x[4])
           [] f = "ATOM" -> DText("YYYY-MM-DD", x[2]) \o " " \o TText("HH:mm:ss", x[3]) \o ZText(x[4])
           [] f = "DD/MM/YYYY HH:mm:ss" -> DText("DD/MM/YYYY", x[2]) \o " " \o TText("HH:mm:ss", x[3])
           [] OTHER -> DText("%d %m %Y", x[2]) \o " " \o TText("%H%M%S", x[3])
Cut(ty, f, x) ==
  CASE ty = "date" -> x
    [] ty = "time" -> T(TCut(f, x[2]))
    [] ty = "datetime" -> IF f = "" THEN x ELSE DT(x[2], TCut("HH:mm:ss", x[3]), IF f = "ATOM" THEN x[4] ELSE 0)

Cfgs == {c \in [ty : Types, f : {"", "DD/MM/YYYY", "%d %m %Y", "HH-mm", "%H%M%S", "ATOM", "DD/MM/YYYY HH:mm:ss", "%d %m %Y %H%M%S"},
                where : {"prop", "item"}, lazy : BOOLEAN] : c.f \in Fmts(c.ty) /\ (c.lazy => c.where = "prop")}

Init == cfg = [ty |-> ""] /\ v = None /\ act = [op |-> "init", res |-> Ok(None)]
New(c) == cfg.ty = "" /\ cfg' = c /\ v' = None /\ act' = [op |-> "new", cfg |-> c, res |-> Ok(None)]
Give(g) == /\ cfg' = cfg
           /\ (cfg.f = "" \/ Plain(cfg.ty, g))
           /\ (v = None \/ g.text \in {"abc", "2020-02-29", "10:60", "2019-12-31 23:59"})   \* again: a few are enough
           /\ v' = IF g.is = <<"invalid">> THEN None ELSE g.is
           /\ act' = [op |-> "give", g |-> [how |-> g.how, d |-> g.d, t |-> g.t, z |-> g.z, text |-> g.text],
                      res |-> IF g.is = <<"invalid">> THEN Err("invalid") ELSE Ok(g.is)]
Ser == /\ v # None /\ UNCHANGED <<cfg, v>>
       /\ act' = [op |-> "ser", res |-> Ok(Text(cfg.ty, cfg.f, v))]
Reload == /\ v # None /\ UNCHANGED <<cfg>>
          /\ v' = Cut(cfg.ty, cfg.f, v)
          /\ act' = [op |-> "reload", res |-> Ok(v')]
Next == \/ \E c \in Cfgs : New(c)
        \/ cfg.ty # "" /\ \E g \in Gives[cfg.ty] : Give(g)
        \/ Ser \/ Reload
Spec == Init /\ [][Next]_vars

St == [cfg |-> cfg, v |-> v]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* what is held is in the calendar *)
Valid == v # None => (v[1] \in {"date", "dt"} => IsDate(v[2])) /\ (v[1] = "time" => IsTime(v[2])) /\ (v[1] = "dt" => IsTime(v[3]))
(* without a declared format nothing is lost *)
Lossless == act.op = "reload" /\ cfg.f = "" => act.res = Ok(v)
=============================================================================
