--------------------------------- MODULE Colls ---------------------------------
(* What the utilities on nested collections, dependency graphs, class lattices   *)
(* and texts compute.  Nothing they are given changes.                           *)
EXTENDS Values

CONSTANT Deep   \* add a level of nesting
VARIABLES idle,   \* nothing is kept from a call to the next
          act
vars == <<idle, act>>
Init == idle = TRUE /\ act = [op |-> "init"]

(*------------------------------ nested collections -----------------------------*)
D(s) == <<"d", s>>      \* sequence of <<key, value>>
L(s) == <<"l", s>>
P(k, v) == <<k, v>>
T1 == {I(1), None, L(<<>>), L(<<I(1), I(2)>>), D(<<>>), D(<<P("a", I(1))>>), D(<<P("b", I(2)), P("a", I(1))>>)}
T2 == {D(<<P("a", x), P("b", y)>>) : x, y \in T1} \cup {D(<<P("c", x)>>) : x \in T1}
      \cup {L(<<x, y>>) : x \in T1, y \in {I(3), D(<<P("a", I(1)), P("c", I(3))>>)}}
T2s == {D(<<P("a", D(<<P("b", I(2)), P("a", I(1))>>)), P("b", L(<<D(<<P("a", I(1))>>)>>))>>), L(<<D(<<P("b", I(2)), P("c", L(<<I(4)>>))>>), I(3)>>),
        D(<<P("a", L(<<I(5)>>)), P("b", D(<<P("c", I(1))>>))>>)}
T3 == {D(<<P("a", x), P("c", y)>>) : x \in T2s, y \in T2s \cup T1} \cup {L(<<x, y>>) : x, y \in T2s}
Trees == T1 \cup T2 \cup T3 \cup (IF Deep THEN {D(<<P("b", x), P("a", y)>>) : x \in T2, y \in T2s} ELSE {})

MapT(v) == v[1] = "d"
SeqT(v) == v[1] = "l"

(* keep the keys / keep all but the keys: at the first level, or in all the kept values *)
RECURSIVE Filt(_, _, _, _)
Filt(v, ks, keep, rec) ==
  IF MapT(v) THEN LET s == SelectSeq(v[2], LAMBDA p : (p[1] \in ks) = keep) IN
                  D([i \in DOMAIN s |-> <<s[i][1], IF rec THEN Filt(s[i][2], ks, keep, rec) ELSE s[i][2]>>])
  ELSE IF SeqT(v) THEN L([i \in DOMAIN v[2] |-> Filt(v[2][i], ks, keep, rec)])
  ELSE v
KeySets == {{}, {"a"}, {"b"}, {"a", "c"}}
Filter == \E t \in Trees, only, but \in KeySets, rec \in BOOLEAN :
  LET o == IF only = {} THEN t ELSE Filt(t, only, TRUE, rec)
      b == IF but = {} THEN o ELSE Filt(o, but, FALSE, rec) IN
  act' = [op |-> "filter", t |-> t, only |-> only, but |-> but, rec |-> rec, res |-> <<"ok", b>>]

(* the leaves of nested mappings with the path to them *)
RECURSIVE Flat(_, _)
RECURSIVE FlatS(_, _)
FlatS(s, sep) == IF s = <<>> THEN <<>> ELSE
  (IF MapT(s[1][2]) THEN LET f == Flat(s[1][2], sep) IN [i \in DOMAIN f |-> <<s[1][1] \o sep \o f[i][1], f[i][2]>>]
   ELSE <<s[1]>>) \o FlatS(Tail(s), sep)
Flat(v, sep) == FlatS(v[2], sep)
Flatten == \E t \in {x \in Trees : MapT(x)}, sep \in {".", "::", "default"} :
  act' = [op |-> "flatten", t |-> t, sep |-> sep, res |-> <<"ok", D(Flat(t, IF sep = "default" THEN "." ELSE sep))>>]

(* paths: names and indices; what is not there is None *)
K(k) == <<"k", k>>
X(i) == <<"x", i>>
Steps == {K("a"), K("b"), K("c"), X(0), X(1), X(-1)}
Paths == {<<x>> : x \in Steps} \cup {<<x, y>> : x, y \in Steps} \cup {<<x, y, z>> : x \in {K("a"), X(0)}, y, z \in Steps}
Child(v, st) ==
  IF st[1] = "k" THEN IF MapT(v) /\ \E i \in DOMAIN v[2] : v[2][i][1] = st[2] THEN v[2][CHOOSE i \in DOMAIN v[2] : v[2][i][1] = st[2]][2] ELSE None
  ELSE IF SeqT(v) /\ st[2] < Len(v[2]) /\ st[2] >= -Len(v[2]) THEN v[2][IF st[2] < 0 THEN Len(v[2]) + st[2] + 1 ELSE st[2] + 1] ELSE None
RECURSIVE Desc(_, _)
Desc(v, p) == IF p = <<>> THEN v ELSE IF v = None THEN None ELSE Desc(Child(v, p[1]), Tail(p))
RECURSIVE PathText(_, _)
PathText(p, first) == IF p = <<>> THEN "" ELSE
  (IF p[1][1] = "k" THEN (IF first THEN "" ELSE ".") \o p[1][2] ELSE "[" \o ToString(p[1][2]) \o "]") \o PathText(Tail(p), FALSE)
Descend == \E t \in Trees \ {None}, p \in Paths, how \in {"list", "text"} :
  act' = [op |-> "descend", t |-> t, p |-> IF how = "list" THEN p ELSE PathText(p, TRUE), how |-> how, res |-> <<"ok", Desc(t, p)>>]
Split == \E p \in Paths : act' = [op |-> "split", p |-> PathText(p, TRUE), res |-> <<"ok", [i \in DOMAIN p |-> p[i][2]]>>]

(* a function applied to each element, outside in; it may replace or remove what it is given *)
Fn(mode, v) == CASE mode = "none" -> v
               [] mode = "incr" -> IF v[1] = "i" THEN I(v[2] + 1) ELSE v
               [] mode = "wrap" -> IF v = I(1) THEN D(<<P("a", I(7))>>) ELSE v
               [] mode = "drop" -> v
Gone(mode, v) == mode = "drop" /\ v = I(1)
RECURSIVE Apply(_, _, _, _)
Apply(v, mode, rec, lev) ==
  LET sub(w) == IF rec THEN Apply(w, mode, rec, lev + 1) ELSE w IN
  IF MapT(v) THEN LET s == SelectSeq(v[2], LAMBDA p : ~Gone(mode, p[2])) IN D([i \in DOMAIN s |-> <<s[i][1], sub(Fn(mode, s[i][2]))>>])
  ELSE IF SeqT(v) THEN L([i \in DOMAIN v[2] |-> sub(Fn(mode, v[2][i]))])
  ELSE v
(* which (level, key) it was called with, in order *)
RECURSIVE Calls(_, _, _, _)
RECURSIVE CallsS(_, _, _, _)
CallsS(s, mode, rec, lev) == IF s = <<>> THEN <<>> ELSE
  <<<<lev, s[1][1]>>>> \o (IF rec /\ ~Gone(mode, s[1][2]) THEN Calls(Fn(mode, s[1][2]), mode, rec, lev + 1) ELSE <<>>) \o CallsS(Tail(s), mode, rec, lev)
Calls(v, mode, rec, lev) ==
  IF MapT(v) THEN CallsS(v[2], mode, rec, lev)
  ELSE IF SeqT(v) THEN CallsS([i \in DOMAIN v[2] |-> <<ToString(i - 1), v[2][i]>>], mode, rec, lev)
  ELSE <<>>
RECURSIVE HasSeq(_)
HasSeq(v) == SeqT(v) \/ (MapT(v) /\ \E i \in DOMAIN v[2] : HasSeq(v[2][i][2]))
Through == \E t \in {x \in Trees : MapT(x) \/ SeqT(x)}, mode \in {"none", "incr", "wrap", "drop"}, rec \in BOOLEAN :
  /\ (mode = "drop" => ~HasSeq(t))
  /\ act' = [op |-> "through", t |-> t, mode |-> mode, rec |-> rec, res |-> <<"ok", [t |-> Apply(t, mode, rec, 0), calls |-> Calls(t, mode, rec, 0)]>>]

(* one value or several as a list *)
Listed == \E v \in T1 \cup {<<"t", <<I(1), I(2)>>>>, S("ab")}, dflt \in {"none", "empty"} :
  act' = [op |-> "tolist", v |-> v, dflt |-> dflt,
          res |-> <<"ok", IF v = None THEN (IF dflt = "empty" THEN L(<<>>) ELSE None) ELSE IF v[1] \in {"l", "t"} THEN L(v[2]) ELSE L(<<v>>)>>]
RECURSIVE Cut(_, _)
Cut(s, n) == IF s = <<>> THEN <<>> ELSE IF Len(s) <= n THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Cut(SubSeq(s, n + 1, Len(s)), n)
Pages == \E n \in 1..3, len \in 0..7 : act' = [op |-> "pages", n |-> n, len |-> len, res |-> <<"ok", Cut([i \in 1..len |-> i], n)>>]

(*------------------------------ dependency graphs ------------------------------*)
Nodes == 1..4
RECURSIVE Levels(_, _)
Levels(left, deps) ==
  LET free == {n \in left : deps[n] \cap left = {}} IN
  IF free = {} THEN <<>> ELSE <<[set |-> free]>> \o Levels(left \ free, deps)
RECURSIVE Union_(_)
Union_(s) == IF s = <<>> THEN {} ELSE s[1].set \cup Union_(Tail(s))
Sort == \E d \in [1..3 -> SUBSET Nodes] :
  LET real == [n \in Nodes |-> IF n = 4 THEN {} ELSE d[n] \ {n}]
      all == {1, 2, 3} \cup UNION {real[n] : n \in 1..3}
      lv == Levels(all, real) IN
  act' = [op |-> "sort", d |-> d, res |-> <<"ok", [levels |-> lv, cyclic |-> Union_(lv) # all]>>]

(*-------------------------------- class lattices -------------------------------*)
Bases(i) == {<<>>} \cup {<<a>> : a \in 1..(i - 1)} \cup {s \in (1..(i - 1)) \X (1..(i - 1)) : s[1] # s[2]}
Tails(seqs) == UNION {{s[k] : k \in 2..Len(s)} : s \in Range(seqs)}
RECURSIVE Merge(_)
Merge(seqs) ==
  LET ne == SelectSeq(seqs, LAMBDA s : s # <<>>) IN
  IF ne = <<>> THEN <<>> ELSE
  LET good == {k \in DOMAIN ne : ne[k][1] \notin Tails(ne)} IN
  IF good = {} THEN <<-1>> ELSE
  LET c == ne[Min(good)][1] IN
  <<c>> \o Merge([k \in DOMAIN ne |-> IF ne[k][1] = c THEN Tail(ne[k]) ELSE ne[k]])
Bad(l) == -1 \in Range(l)
RECURSIVE Lin(_, _)
Lin(bs, i) == LET b == bs[i] IN
  IF b = <<>> THEN <<i, 0>> ELSE <<i>> \o Merge([k \in 1..(Len(b) + 1) |-> IF k <= Len(b) THEN Lin(bs, b[k]) ELSE b])
MroOf(bs, q) == Merge([k \in 1..(Len(q) + 1) |-> IF k <= Len(q) THEN Lin(bs, q[k]) ELSE q])
Lattices == {bs \in {<<a, b, c, d>> : a \in Bases(1), b \in Bases(2), c \in Bases(3), d \in Bases(4)} : \A i \in 1..4 : ~Bad(Lin(bs, i))}
Classes == \E bs \in Lattices, q \in {<<a>> : a \in 1..4} \cup {<<a, b>> : a, b \in 1..4} \cup {<<4, 3, 2>>, <<2, 4, 3>>, <<3, 2, 1>>} :
  LET ok == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
      m == MroOf(bs, q)
      l == Lin(bs, q[1])
      common == {k \in DOMAIN l : \A i \in DOMAIN q : l[k] \in Range(Lin(bs, q[i]))} IN
  /\ ok
  /\ act' = [op |-> "classes", bs |-> bs, q |-> q, res |-> <<"ok", [mro |-> IF Bad(m) THEN Err("TypeError") ELSE <<"ok", m>>, gcs |-> l[Min(common)]]>>]

(*------------------------------------ texts ------------------------------------*)
(* texts are sequences of characters *)
Chars == {"a", "b", " ", ",", "|", "."}
Texts == UNION {[1..n -> Chars] : n \in 0..3} \cup {<<"a", " ", ",", "b", " ">>, <<" ", "a", ".", "b", "|", "a">>, <<"a", "a", ",", ",", "b">>}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o Join(Tail(s))
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = " " THEN Strip(Tail(s)) ELSE IF s # <<>> /\ s[Len(s)] = " " THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Words(_, _, _)
Words(s, dl, cur) == IF s = <<>> THEN <<cur>> ELSE IF s[1] \in dl THEN <<cur>> \o Words(Tail(s), dl, <<>>) ELSE Words(Tail(s), dl, Append(cur, s[1]))
SplitText == \E s \in Texts, dl \in {{}, {" "}, {","}, {".", "|"}, {" ", ","}}, strip \in BOOLEAN :
  LET w == IF dl = {} THEN <<s>> ELSE Words(s, dl, <<>>) IN
  act' = [op |-> "splittext", s |-> Join(s), dl |-> dl, strip |-> strip,
          res |-> <<"ok", [i \in DOMAIN w |-> Join(IF strip /\ dl # {} THEN Strip(w[i]) ELSE w[i])]>>]
(* simultaneous replacements *)
Repl(c, r) == IF c \in DOMAIN r THEN r[c] ELSE c
Replace == \E s \in Texts, r \in {<<>>, [a |-> "b", b |-> "a"], ("." :> "a" @@ "a" :> ""), ("|" :> ".|" @@ "." :> "||")} :
  act' = [op |-> "replace", s |-> Join(s), r |-> {<<k, r[k]>> : k \in DOMAIN r}, res |-> <<"ok", Join([i \in DOMAIN s |-> Repl(s[i], r)])>>]

Next == UNCHANGED idle /\ (Filter \/ Flatten \/ Descend \/ Split \/ Through \/ Listed \/ Pages \/ Sort \/ Classes \/ SplitText \/ Replace)
Spec == Init /\ [][Next]_vars
St == [idle |-> idle]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> [idle |-> idle']]))
(* filtering twice is filtering once; an acyclic graph is sorted completely *)
Idem == act.op = "filter" => LET o == act.res[2] IN
          /\ (act.only # {} => Filt(o, act.only, TRUE, act.rec) = o) /\ (act.but # {} => Filt(o, act.but, FALSE, act.rec) = o)
Sorted == act.op = "sort" => \A i \in DOMAIN act.res[2].levels : \A n \in act.res[2].levels[i].set :
            n = 4 \/ act.d[n] \ {n} \subseteq UNION {act.res[2].levels[j].set : j \in 1..(i - 1)}
=============================================================================
