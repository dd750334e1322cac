------------------------------ MODULE Defaults ------------------------------
(* A property p with a declared default, in an object, in a child object or  *)
(* in the items of an array.  x is an object being used, a witness beside it *)
(* is never touched.  An absent p reads as the default, converted to the     *)
(* declared type, whatever the default is; a given value wins over it,       *)
(* however empty; using one object changes neither the witness nor the       *)
(* default itself; only what differs from the default has to be serialized.  *)
EXTENDS Values

VARIABLES cfg, x, act
vars == <<cfg, x, act>>

N(t) == <<"d", t>>         \* decimal, tenths
L(s) == <<"l", s>>
O(f) == <<"o", f>>
E0 == <<"o", <<>>>>
Row(t, d, c, other, g, m) == [t |-> t, d |-> d, c |-> c, other |-> other, g |-> g, m |-> m]
(* t the type, d the default as declared, c as read, other the default of the base class when
   p is redefined, g what can be given <<raw, read>>, m how it can be changed in place *)
Table == <<
  Row("integer", I(0), I(0), I(4), << <<I(1), I(1)>>, <<S("0"), I(0)>>, <<I(0), I(0)>> >>, "none"),                 \* 1
  Row("integer", S("4"), I(4), I(0), << <<I(0), I(0)>>, <<I(4), I(4)>>, <<S("0"), I(0)>> >>, "none"),
  Row("string", S(""), S(""), S("a"), << <<S("a"), S("a")>>, <<S(""), S("")>>, <<I(0), S("0")>> >>, "none"),        \* 3
  Row("string", S("ab"), S("ab"), S(""), << <<S(""), S("")>>, <<S("ab"), S("ab")>>, <<S(" "), S(" ")>> >>, "none"),
  Row("boolean", B(FALSE), B(FALSE), B(TRUE), << <<B(TRUE), B(TRUE)>>, <<B(FALSE), B(FALSE)>> >>, "none"),          \* 5
  Row("boolean", B(TRUE), B(TRUE), B(FALSE), << <<B(FALSE), B(FALSE)>>, <<B(TRUE), B(TRUE)>> >>, "none"),
  Row("number", S("2.5"), N(25), I(0), << <<I(0), N(0)>>, <<S("0"), N(0)>>, <<S("2.5"), N(25)>> >>, "none"),        \* 7
  Row("number", I(0), N(0), I(1), << <<I(1), N(10)>>, <<I(0), N(0)>> >>, "none"),
  Row("enum", I(0), I(0), I(1), << <<I(1), I(1)>>, <<I(0), I(0)>> >>, "none"),                                      \* 9  of 1, 0
  Row("enum", None, I(1), I(0), << <<I(1), I(1)>>, <<I(0), I(0)>> >>, "none"),
  Row("any", I(0), I(0), S("a"), << <<S(""), S("")>>, <<I(0), I(0)>> >>, "none"),           \* 11
  Row("integer", None, None, I(0), << <<I(0), I(0)>>, <<I(1), I(1)>> >>, "none"),
  Row("ints", L(<<I(0), S("1")>>), L(<<I(0), I(1)>>), L(<<I(2)>>),                                                  \* 13
      << <<L(<<>>), L(<<>>)>>, <<L(<<I(0)>>), L(<<I(0)>>)>>, <<I(0), L(<<I(0)>>)>>, <<L(<<I(0), I(1)>>), L(<<I(0), I(1)>>)>> >>, "append"),
  Row("ints", L(<<>>), L(<<>>), L(<<I(2)>>), << <<L(<<>>), L(<<>>)>>, <<I(3), L(<<I(3)>>)>>, <<L(<<S("0")>>), L(<<I(0)>>)>> >>, "append"),
  Row("ints", None, L(<<>>), L(<<I(2)>>), << <<L(<<I(0)>>), L(<<I(0)>>)>>, <<L(<<>>), L(<<>>)>> >>, "append"),       \* 15
  Row("tuple", L(<<I(0), S("a")>>), L(<<I(0), S("a")>>), L(<<I(2)>>), << <<L(<<I(0)>>), L(<<I(0)>>)>>, <<L(<<>>), L(<<>>)>> >>, "none"),
  Row("intss", L(<<L(<<>>), L(<<S("0")>>)>>), L(<<L(<<>>), L(<<I(0)>>)>>), L(<<>>), << <<L(<<L(<<>>)>>), L(<<L(<<>>)>>)>>, <<L(<<>>), L(<<>>)>> >>, "deep"), \* 17
  Row("obj", E0, O([x |-> I(0)]), O([x |-> I(1)]), << <<O([x |-> I(5)]), O([x |-> I(5)])>>, <<O([x |-> S("0")]), O([x |-> I(0)])>>, <<E0, O([x |-> I(0)])>> >>, "x"),
  Row("obj", O([x |-> S("3")]), O([x |-> I(3)]), O([x |-> I(1)]), << <<O([x |-> I(0)]), O([x |-> I(0)])>>, <<O([x |-> I(5)]), O([x |-> I(5)])>> >>, "x"), \* 19
  Row("objs", L(<<E0, O([x |-> I(2)])>>), L(<<O([x |-> I(0)]), O([x |-> I(2)])>>), L(<<>>),
      << <<L(<<>>), L(<<>>)>>, <<L(<<E0>>), L(<<O([x |-> I(0)])>>)>> >>, "first"),
  Row("map", O([k |-> S("0")]), O([k |-> I(0)]), O([k |-> I(1)]), << <<O([k |-> I(1)]), O([k |-> I(1)])>>, <<O([j |-> I(0)]), O([j |-> I(0)])>> >>, "k"), \* 21
  Row("date", S("2020-02-29"), <<"date", "2020-02-29">>, S("2021-03-01"), << <<S("2021-03-01"), <<"date", "2021-03-01">>>> >>, "none")
>>

Row_(c) == Table[c.ty]
(* a redefinition replaces the property, default included *)
Dflt(c) == Row_(c).c
(* what x reads after the change in place *)
Changed(m, v) ==
  CASE m = "append" -> L(Append(v[2], I(7)))
    [] m = "deep"   -> IF Len(v[2]) = 0 THEN L(<<L(<<I(7)>>)>>) ELSE L([v[2] EXCEPT ![1] = L(Append(v[2][1][2], I(7)))])
    [] m = "x"      -> O([v[2] EXCEPT !.x = I(7)])
    [] m = "k"      -> O(("k" :> I(7)) @@ v[2])
    [] m = "first"  -> IF Len(v[2]) = 0 THEN L(<<O([x |-> I(7)])>>) ELSE L([v[2] EXCEPT ![1] = O([x |-> I(7)])])

NoAttr == {2, 7, 13, 22}   \* the class attribute has to be of the declared type itself
Given(c) == {0} \cup DOMAIN Row_(c).g
Cfgs == {c \in [ty : DOMAIN Table, src : {"schema", "attr", "redef", "base"}, place : {"top", "child", "item"}, lazy : BOOLEAN] :
           /\ c.src = "schema" \/ c.place = "top"
           /\ c.src = "attr" => Table[c.ty].d # None /\ c.ty \notin NoAttr}

Init == /\ cfg = [ty |-> 0] /\ x = [v |-> None, n |-> -1]
        /\ act = [op |-> "init", res |-> Ok(None)]

Val(c, g) == IF g = 0 THEN Dflt(c) ELSE Row_(c).g[g][2]
Raw(c, g) == IF g = 0 THEN None ELSE Row_(c).g[g][1]

New(c, g) ==
  /\ x.n = -1
  /\ cfg' = c
  /\ x' = [v |-> Val(c, g), n |-> 0]
  /\ act' = [op |-> "new", cfg |-> c, row |-> [t |-> Row_(c).t, d |-> Row_(c).d, other |-> Row_(c).other], given |-> (g # 0), v |-> Raw(c, g), res |-> Ok(None)]
Get(door) ==
  /\ x.n >= 0 /\ UNCHANGED <<cfg, x>>
  /\ act' = [op |-> "get", door |-> door, res |-> Ok(x.v)]
Set(g, door) ==
  /\ x.n >= 0 /\ g # 0 /\ cfg' = cfg
  /\ x' = [v |-> Val(cfg, g), n |-> 0]
  /\ act' = [op |-> "set", v |-> Raw(cfg, g), door |-> door, res |-> Ok(None)]
(* change the value read in place *)
Mut ==
  /\ x.n = 0 /\ Row_(cfg).m # "none" /\ cfg' = cfg
  /\ x' = [v |-> Changed(Row_(cfg).m, x.v), n |-> 1]
  /\ act' = [op |-> "mut", kind |-> Row_(cfg).m, res |-> Ok(None)]
Witness ==
  /\ x.n >= 0 /\ UNCHANGED <<cfg, x>>
  /\ act' = [op |-> "witness", res |-> Ok(Dflt(cfg))]
Fresh ==
  /\ x.n >= 0 /\ UNCHANGED <<cfg, x>>
  /\ act' = [op |-> "fresh", res |-> Ok(Dflt(cfg))]
(* is p serialized when defaults are left out; when they are kept *)
Ser(nd) ==
  /\ x.n >= 0 /\ UNCHANGED <<cfg, x>>
  /\ act' = [op |-> "ser", nd |-> nd, res |-> IF nd THEN IF x.v = Dflt(cfg) THEN <<"absent">> ELSE <<"present">>
                                              ELSE <<"present">>]
Reload(nd) ==
  /\ x.n >= 0 /\ UNCHANGED <<cfg, x>>
  /\ act' = [op |-> "reload", nd |-> nd, res |-> Ok(x.v)]

Next == \/ \E c \in Cfgs : \E g \in Given(c) : New(c, g)
        \/ \E d \in {"attr", "item", "get", "path"} : Get(d)
        \/ x.n >= 0 /\ \E g \in Given(cfg), d \in {"attr", "item", "update", "path"} : Set(g, d)
        \/ Mut \/ Witness \/ Fresh \/ \E nd \in BOOLEAN : Ser(nd) \/ Reload(nd)

St == [cfg |-> cfg, x |-> x]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
Spec == Init /\ [][Next]_vars

(* nothing that happens to x reaches the default *)
DefaultIntact == act.op \in {"witness", "fresh"} => act.res = Ok(Dflt(cfg))
(* a given value, however empty, is what is read *)
GivenWins == act.op = "set" => x.v \in {Row_(cfg).g[i][2] : i \in DOMAIN Row_(cfg).g}
(* nothing is lost by leaving the defaults out *)
Lossless == act.op = "reload" => act.res = Ok(x.v)
=============================================================================
