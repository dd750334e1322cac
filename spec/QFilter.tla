------------------------------- MODULE QFilter -------------------------------
(* Which objects a filter selects.  A filter is one to two criteria           *)
(*   path__operators = value                                                 *)
(* and names that must be present, combined by one of four modes.  It is a    *)
(* pure function of the object tested: whatever was tested before, and        *)
(* however the objects are given (mappings, instances, an array, a stream).   *)
EXTENDS Values

VARIABLES f, act        \* the filter in use
vars == <<f, act>>

Absent == <<"absent">>
L(s) == <<"l", s>>
O(r) == <<"o", r>>

(* text: the strings used, by characters *)
Chars == ("aB" :> <<"a", "B">>) @@ ("a.b" :> <<"a", ".", "b">>) @@ ("ab" :> <<"a", "b">>)
         @@ ("bab" :> <<"b", "a", "b">>) @@ ("B" :> <<"B">>) @@ ("AB" :> <<"A", "B">>) @@ ("." :> <<".">>)
         @@ ("a" :> <<"a">>) @@ ("" :> <<>>) @@ ("A.B" :> <<"A", ".", "B">>) @@ ("b" :> <<"b">>)
Low(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] OTHER -> c
LowS(s) == [i \in DOMAIN s |-> Low(s[i])]
Pre(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Suf(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Has(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

E0 == [k \in {} |-> None]
Objs == <<
  O([a |-> I(1), s |-> S("aB"), l |-> L(<<I(1), I(2)>>), c |-> O([x |-> I(0), size |-> I(7)])]),
  O([a |-> I(2), s |-> S("a.b"), l |-> L(<<I(2)>>), c |-> O([x |-> I(1), e |-> O([y |-> I(2), z |-> I(1)])])]),
  O([s |-> S("ab"), l |-> L(<<I(3)>>), c |-> O([x |-> I(1), e |-> O([y |-> I(0)])])]),
  O([a |-> I(0), l |-> L(<<I(1), I(3), I(0)>>)]),
  O([a |-> I(1), s |-> S("bab"), size |-> I(2), l |-> L(<<>>)]),
  O([a |-> None, s |-> S("AB"), size |-> I(0), c |-> O([size |-> I(2)])])
>>

(* (the array of an instance is always there: the last object is only a mapping) *)
NInst == 5

RECURSIVE At(_, _)
At(o, p) ==
  IF p = <<>> THEN (IF o = None THEN Absent ELSE o)
  ELSE IF o[1] = "o" THEN (IF p[1] \in DOMAIN o[2] THEN At(o[2][p[1]], Tail(p)) ELSE Absent)
  ELSE Absent

(* a criterion *)
Cr(p, ops, neg, v) == [p |-> p, ops |-> ops, neg |-> neg, v |-> v]

Items(v) == {v[2][i] : i \in DOMAIN v[2]}
StrOps == {"ieq", "icontains", "startswith", "istartswith", "endswith", "iendswith"}
Test(op, a, v) ==
  CASE op = "eq" -> a = v
    [] op \in {"ne", "neq"} -> a # v
    [] op = "lt" -> a[2] < v[2]
    [] op = "le" -> a[2] <= v[2]
    [] op = "gt" -> a[2] > v[2]
    [] op = "ge" -> a[2] >= v[2]
    [] op = "in" -> a \in Items(v)
    [] op = "contains" -> IF a[1] = "s" THEN Has(Chars[a[2]], Chars[v[2]]) ELSE v \in Items(a)
    [] op = "intersects" -> Items(a) \cap Items(v) # {}
    [] op = "startswith" -> Pre(Chars[a[2]], Chars[v[2]])
    [] op = "endswith" -> Suf(Chars[a[2]], Chars[v[2]])
    [] op = "ieq" -> LowS(Chars[a[2]]) = LowS(Chars[v[2]])
    [] op = "icontains" -> Has(LowS(Chars[a[2]]), LowS(Chars[v[2]]))
    [] op = "istartswith" -> Pre(LowS(Chars[a[2]]), LowS(Chars[v[2]]))
    [] op = "iendswith" -> Suf(LowS(Chars[a[2]]), LowS(Chars[v[2]]))

YN(b) == IF b THEN "yes" ELSE "no"
(* "yes", "no", "TypeError" or "open" *)
Holds(o, c) ==
  LET a0 == At(o, c.p)
      \* an operator that names a child of an object is part of the path
      child == c.ops # <<>> /\ a0[1] = "o" /\ At(a0, <<c.ops[1]>>) # Absent
      a1 == IF child THEN At(a0, <<c.ops[1]>>) ELSE a0
      o1 == IF child THEN Tail(c.ops) ELSE c.ops
      sized == o1 # <<>> /\ o1[1] = "size"
      item == o1 # <<>> /\ o1[1] = "@1"
      b == IF sized THEN I(Len(a1[2]))
           ELSE IF item /\ Len(a1[2]) > 1 THEN a1[2][2] ELSE a1
      o2 == IF sized \/ item THEN Tail(o1) ELSE o1
      op == IF o2 = <<>> THEN "eq" ELSE o2[1]
  IN IF a1 = Absent THEN "no"
     ELSE IF sized /\ a1[1] = "o" THEN "open"
     ELSE IF sized /\ a1[1] # "l" THEN "TypeError"
     ELSE IF item /\ (a1[1] # "l" \/ Len(a1[2]) < 2) THEN "open"
     ELSE IF op \in StrOps /\ b[1] # "s" THEN "TypeError"
     ELSE IF op = "intersects" /\ b[1] # "l" THEN "TypeError"
     ELSE YN(Test(op, b, c.v) # c.neg)

SeqsOf(s) == {<<x>> : x \in s}
SetOfOps(p, ops, vs) == {Cr(p, o, n, v) : o \in ops, n \in {FALSE}, v \in vs}
Cmp == {<<>>, <<"eq">>, <<"ne">>, <<"neq">>, <<"lt">>, <<"le">>, <<"gt">>, <<"ge">>}
Singles ==
  SetOfOps(<<"a">>, Cmp, {I(0), I(1)})
  \union SetOfOps(<<"c", "x">>, {<<>>, <<"ge">>, <<"lt">>}, {I(0), I(1)})
  \union SetOfOps(<<"c">>, {<<"size">>, <<"size", "gt">>}, {I(2), I(7)})
  \union SetOfOps(<<"size">>, {<<>>, <<"le">>}, {I(0), I(2)})
  \union SetOfOps(<<"c", "e", "y">>, {<<>>, <<"gt">>}, {I(0), I(2)})
  \union SetOfOps(<<"a", "x">>, {<<>>}, {I(0), I(1)})
  \union SetOfOps(<<"l">>, {<<"size">>, <<"size", "ge">>, <<"size", "ne">>}, {I(1), I(2)})
  \union SetOfOps(<<"l">>, {<<"contains">>, <<"@1">>, <<"@1", "gt">>}, {I(1), I(2), I(3)})
  \union SetOfOps(<<"l">>, {<<"intersects">>}, {L(<<I(1), I(9)>>), L(<<I(2), I(3)>>), L(<<>>)})
  \union SetOfOps(<<"a">>, {<<"in">>}, {L(<<I(0), I(2)>>), L(<<I(1)>>), L(<<>>)})
  \union SetOfOps(<<"s">>, {<<>>, <<"contains">>} \union SeqsOf(StrOps), {S("ab"), S("B"), S("a.b"), S("."), S("A.B"), S("AB")})
  \union SetOfOps(<<"s">>, {<<"in">>}, {L(<<S("ab"), S("aB")>>)})
  \union {Cr(<<"a">>, <<o>>, FALSE, S("b")) : o \in {"startswith", "icontains"}}
  \union {Cr(<<"s">>, <<"intersects">>, FALSE, L(<<I(1)>>))}

Negs == {[c EXCEPT !.neg = TRUE] : c \in
  {Cr(<<"a">>, <<>>, FALSE, I(1)), Cr(<<"a">>, <<"gt">>, FALSE, I(0)), Cr(<<"a">>, <<"in">>, FALSE, L(<<I(0)>>)),
   Cr(<<"s">>, <<>>, FALSE, S("ab")), Cr(<<"s">>, <<"iendswith">>, FALSE, S("B")), Cr(<<"l">>, <<"size">>, FALSE, I(1)),
   Cr(<<"l">>, <<"contains">>, FALSE, I(3)), Cr(<<"c", "x">>, <<>>, FALSE, I(0))}}
(* those combined with each other *)
Core == {Cr(<<"a">>, <<>>, FALSE, I(1)), Cr(<<"a">>, <<"le">>, FALSE, I(1)), Cr(<<"s">>, <<"icontains">>, FALSE, S("AB")),
         Cr(<<"c", "x">>, <<>>, FALSE, I(1)), Cr(<<"size">>, <<"ge">>, FALSE, I(0)),
         Cr(<<"l">>, <<"size">>, FALSE, I(1)), Cr(<<"s">>, <<>>, TRUE, S("aB"))}
KeyOf(c) == <<c.p, c.ops, c.neg>>
Pres == {<<"a">>, <<"c", "e">>, <<"a", "x">>, <<"c", "x">>}

Crits == {<<c>> : c \in Singles \union Negs} \union {<<c, d>> : c \in Core, d \in Core}
Modes == {"filter", "exclude", "any", "exclude_any"}
Filters ==
  {[mode |-> m, cs |-> cs, pr |-> <<>>] : m \in Modes, cs \in {x \in Crits : Len(x) = 1 \/ KeyOf(x[1]) # KeyOf(x[2])}}
  \union {[mode |-> m, cs |-> cs, pr |-> <<p>>] : m \in Modes, cs \in {<<>>} \union {<<c>> : c \in Core}, p \in Pres}

(* "yes", "no" or the name of an exception; criteria after the one that settles
   the answer are not evaluated *)
RECURSIVE Scan(_, _, _, _)
Scan(o, cs, any, k) ==
  IF k > Len(cs) THEN YN(~any)
  ELSE LET h == Holds(o, cs[k]) IN
       IF h \in {"TypeError", "open"} THEN h
       ELSE IF h = YN(any) THEN h ELSE Scan(o, cs, any, k + 1)
Sel(ft, o) ==
  LET any == ft.mode \in {"any", "exclude_any"}
      neg == ft.mode \in {"exclude", "exclude_any"}
      t == Scan(o, ft.cs, any, 1)
      p == \E i \in DOMAIN ft.pr : At(o, ft.pr[i]) # Absent
      r == IF t \in {"TypeError", "open"} THEN t
           ELSE IF ft.pr = <<>> THEN t ELSE IF any THEN YN(t = "yes" \/ p) ELSE YN(t = "yes" /\ p)
  IN IF r \in {"TypeError", "open"} THEN r ELSE YN((r = "yes") # neg)

Res(r) == IF r = "open" THEN Open ELSE IF r = "TypeError" THEN Err(r) ELSE Ok(B(r = "yes"))

NoF == [mode |-> "none", cs |-> <<>>, pr |-> <<>>]
Init == f = NoF /\ act = [op |-> "init"]

New == /\ f = NoF
       /\ f' \in Filters
       /\ act' = [op |-> "new", f |-> f', res |-> Ok(None)]

TestOne == /\ f # NoF
           /\ \E i \in DOMAIN Objs, as \in {"mapping", "instance"} :
                /\ as = "instance" => i <= NInst
                /\ act' = [op |-> "test", i |-> i, o |-> Objs[i], as |-> as, res |-> Res(Sel(f, Objs[i]))]
           /\ UNCHANGED f

RECURSIVE Hits(_, _, _)
Hits(ft, i, n) == IF i > n THEN <<>>
               ELSE (IF Sel(ft, Objs[i]) = "yes" THEN <<I(i)>> ELSE <<>>) \o Hits(ft, i + 1, n)
Run == /\ f # NoF
       /\ \E src \in {"list", "stream", "instances", "array"} :
            LET n == IF src \in {"instances", "array"} THEN NInst ELSE Len(Objs)
                rs == {Sel(f, Objs[i]) : i \in 1..n} IN
            act' = [op |-> "run", src |-> src, objs |-> SubSeq(Objs, 1, n),
                    res |-> IF "open" \in rs THEN Open ELSE IF "TypeError" \in rs THEN Err("TypeError")
                            ELSE <<"ok", <<"l", Hits(f, 1, n)>>>>]
       /\ UNCHANGED f

Next == New \/ TestOne \/ Run
Spec == Init /\ [][Next]_vars
St == [f |-> f]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* an exclusion keeps what the corresponding filter drops, and drops what it keeps *)
Opp(m) == CASE m = "filter" -> "exclude" [] m = "exclude" -> "filter" [] m = "any" -> "exclude_any" [] m = "exclude_any" -> "any"
Complement == f # NoF => \A i \in DOMAIN Objs :
   LET r == Sel(f, Objs[i]) q == Sel([f EXCEPT !.mode = Opp(f.mode)], Objs[i]) IN
   r \in {"yes", "no"} => q = YN(r = "no")
(* neither the order of the criteria matters, where both are defined *)
Commutes == f # NoF /\ Len(f.cs) = 2 => \A i \in DOMAIN Objs :
   LET g == [f EXCEPT !.cs = <<f.cs[2], f.cs[1]>>] IN {Sel(f, Objs[i]), Sel(g, Objs[i])} \cap {"TypeError", "open"} = {} => Sel(f, Objs[i]) = Sel(g, Objs[i])
=============================================================================
