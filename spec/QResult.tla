------------------------------- MODULE QResult -------------------------------
(* The results of queries.  A query has a source (a sequence of objects) and  *)
(* flags: distinct, order, reversed.  Its result is a pure function of them;   *)
(* deriving, combining, evaluating or reading a query never changes it nor     *)
(* another one.  seen is the set of queries already evaluated (the code caches *)
(* their results).                                                           *)
EXTENDS Values

CONSTANTS Slots, MaxOps, Kinds
VARIABLES qs, seen, n, act
vars == <<qs, seen, n, act>>

(* objects 2 and 4 are equal, not the same *)
A == <<2, 1, 2, 1, 3>>
Bv == <<1, 1, 2, 1, 1>>
Eq(x, y) == A[x] = A[y] /\ Bv[x] = Bv[y]
All == <<1, 2, 3, 4, 5>>

\* (objects that are equal are given once)
RECURSIVE Dedupe(_, _)
Dedupe(s, acc) == IF s = <<>> THEN acc
                  ELSE Dedupe(Tail(s), IF \E i \in DOMAIN acc : Eq(acc[i], Head(s)) THEN acc ELSE Append(acc, Head(s)))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* stable insertion sort *)
Key(o, x) == IF o = "a" THEN A[x] ELSE Bv[x]
RECURSIVE Insert(_, _, _), Sort(_, _)
Insert(o, s, x) == IF s = <<>> THEN <<x>>
                   ELSE IF Key(o, x) < Key(o, Head(s)) THEN <<x>> \o s
                   ELSE <<Head(s)>> \o Insert(o, Tail(s), x)
Sort(o, s) == IF s = <<>> THEN <<>>
              ELSE LET m == Len(s) IN Insert(o, Sort(o, SubSeq(s, 1, m - 1)), s[m])
Result(q) ==
  LET d == IF q.dist THEN Dedupe(q.src, <<>>) ELSE q.src
      o == IF q.ord = "" THEN d ELSE Sort(q.ord, d)
  IN IF q.rev THEN Rev(o) ELSE o

(* criteria *)
Crits == {"a2", "b1", "a_ge2", "none", "all"}
Meets(c, x) == CASE c = "a2" -> A[x] = 2 [] c = "b1" -> Bv[x] = 1 [] c = "a_ge2" -> A[x] >= 2
                 [] c = "none" -> FALSE [] c = "all" -> TRUE
RECURSIVE Keep(_, _, _)
Keep(s, c, how) == IF s = <<>> THEN <<>>
                   ELSE (IF Meets(c, Head(s)) = how THEN <<Head(s)>> ELSE <<>>) \o Keep(Tail(s), c, how)

Nil == [src |-> <<>>, dist |-> FALSE, ord |-> "nil", rev |-> FALSE]
Live(i) == qs[i].ord # "nil"
Q(s, d, o, r) == [src |-> s, dist |-> d, ord |-> o, rev |-> r]

Init == qs = [i \in Slots |-> Nil] /\ seen = {} /\ n = 0 /\ act = [op |-> "init"]

Put(i, q, ev) == /\ qs' = [qs EXCEPT ![i] = q]
                 /\ seen' = (seen \union ev) \ {i}
                 /\ n' = n + 1
More == n < MaxOps

New == /\ More
       /\ \E i \in Slots, k \in Kinds, d \in BOOLEAN, o \in {"", "a"}, r \in BOOLEAN :
            /\ ~Live(i) /\ \A j \in Slots : j < i => Live(j)
            /\ Put(i, Q(All, d, o, r), {})
            /\ act' = [op |-> "new", i |-> i, k |-> k, d |-> d, o |-> o, r |-> r, res |-> Ok(None)]

(* flags not given are inherited *)
Derive == /\ More
          /\ \E i \in Slots, j \in Slots, c \in Crits \ {"all"}, how \in BOOLEAN,
                d \in {"", "yes"}, o \in {"", "a", "b"}, r \in {"", "yes", "no"} :
               /\ Live(i)
               /\ (j = i \/ ~Live(j) \/ n < 3)
               /\ (d # "" => o = "" /\ r = "")
               /\ (how \/ c \in {"b1", "none"})
               /\ LET q == qs[i] nd == q.dist \/ d = "yes"
                      k == Keep(q.src, c, how) IN
                  Put(j, Q(IF nd THEN Dedupe(k, <<>>) ELSE k, nd, IF o = "" THEN q.ord ELSE o,
                           IF r = "" THEN q.rev ELSE r = "yes"), {})
               /\ act' = [op |-> "derive", i |-> i, j |-> j, c |-> c, how |-> how, d |-> d, o |-> o, r |-> r, res |-> Ok(None)]

Order == /\ More
         /\ \E i \in Slots, j \in Slots, o \in {"a", "b"}, r \in BOOLEAN :
              /\ Live(i)
              /\ Put(j, Q(qs[i].src, qs[i].dist, o, r), {})
              /\ act' = [op |-> "order", i |-> i, j |-> j, o |-> o, r |-> r, res |-> Ok(None)]

Reverse == /\ More
           /\ \E i \in Slots, j \in Slots :
                /\ Live(i)
                /\ Put(j, Q(Rev(Result(qs[i])), qs[i].dist, "", FALSE), {i})
                /\ act' = [op |-> "reverse", i |-> i, j |-> j, res |-> Ok(None)]

RECURSIVE Without(_, _, _)
Without(s, t, how) == IF s = <<>> THEN <<>>
  ELSE (IF (\E k \in DOMAIN t : Eq(t[k], Head(s))) = how THEN <<Head(s)>> ELSE <<>>) \o Without(Tail(s), t, how)
(* with one other query, or two (l # 0) *)
SetOp == /\ More
         /\ \E i \in Slots, j \in Slots, k \in Slots, l \in Slots \union {0}, o \in {"union", "intersection", "difference"} :
              /\ Live(i) /\ Live(j) /\ (l # 0 => Live(l))
              /\ LET Ol == IF l = 0 THEN <<>> ELSE qs[l].src IN
                 o = "union" => Len(qs[i].src) + Len(qs[j].src) + Len(Ol) <= 10
              /\ LET a == Result(qs[i]) b == Result(qs[j])
                     c == IF l = 0 THEN <<>> ELSE Result(qs[l]) IN
                 Put(k, CASE o = "union" -> Q(a \o b \o c, qs[i].dist, qs[i].ord, qs[i].ord # "" /\ qs[i].rev)
                          [] o = "intersection" -> Q(IF l = 0 THEN Without(a, b, TRUE) ELSE Without(Without(a, b, TRUE), c, TRUE),
                                                     qs[i].dist, "", FALSE)
                          [] o = "difference" -> Q(Without(a, b \o c, FALSE), qs[i].dist, "", FALSE),
                     {i, j} \union (IF l = 0 THEN {} ELSE {l}))
              /\ act' = [op |-> "setop", i |-> i, j |-> j, l |-> l, k |-> k, o |-> o, res |-> Ok(None)]

Ids(s) == [x \in DOMAIN s |-> I(s[x])]
One(s) == IF s = <<>> THEN Ok(None) ELSE Ok(I(s[1]))
Looks == {"list", "twice", "len", "first", "last", "get0", "get1", "slice", "count", "empty", "in3", "in2", "all", "notin"}
Look == \E i \in Slots, w \in Looks :
          /\ Live(i)
          /\ LET s == Result(qs[i]) IN
             act' = [op |-> "look", i |-> i, w |-> w,
                res |-> CASE w \in {"list", "twice", "all"} -> <<"ok", <<"l", Ids(s)>>>>
                          [] w \in {"len", "count"} -> Ok(I(Len(s)))
                          [] w = "first" -> One(s)
                          [] w = "last" -> One(Rev(s))
                          [] w = "get0" -> IF s = <<>> THEN Err("IndexError") ELSE One(s)
                          [] w = "get1" -> IF Len(s) < 2 THEN Err("IndexError") ELSE One(Tail(s))
                          [] w = "slice" -> <<"ok", <<"l", Ids(IF s = <<>> THEN <<>> ELSE SubSeq(s, 2, IF Len(s) < 3 THEN Len(s) ELSE 3))>>>>
                          [] w = "empty" -> Ok(B(s = <<>>))
                          [] w = "in3" -> Ok(B(\E x \in DOMAIN s : Eq(3, s[x])))
                          [] w \in {"in2"} -> Ok(B(\E x \in DOMAIN s : Eq(2, s[x])))
                          [] w = "notin" -> Ok(B(FALSE))]
          /\ seen' = seen \union {i}
          /\ UNCHANGED <<qs, n>>

(* the one / the first object meeting a criterion, of the source *)
Pick == \E i \in Slots, c \in Crits, w \in {"get", "next"} :
          /\ Live(i)
          /\ LET k == Keep(qs[i].src, c, TRUE)
                 s == IF qs[i].dist THEN Dedupe(k, <<>>) ELSE k IN
             act' = [op |-> "pick", i |-> i, c |-> c, w |-> w,
                res |-> IF w = "get" THEN (IF Len(s) = 1 THEN One(s) ELSE Err("not one"))
                        ELSE IF s = <<>> THEN Err("StopIteration") ELSE One(s)]
          /\ UNCHANGED <<qs, seen, n>>

Next == New \/ Derive \/ Order \/ Reverse \/ SetOp \/ Look \/ Pick
Spec == Init /\ [][Next]_vars
St == [qs |-> qs, seen |-> seen, n |-> n]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
EmitS == PrintT(ToJson([l |-> TLCGet("level"), a |-> act, t |-> St]))

LooksArePure == [][act'.op \in {"look", "pick"} => qs' = qs]_vars
Others == [][act'.op = "derive" => \A k \in Slots \ {act'.j} : qs'[k] = qs[k]]_vars
Sorted == \A i \in Slots : Live(i) /\ qs[i].ord # "" =>
   LET s == Result(qs[i]) IN \A x \in 1..(Len(s) - 1) :
      IF qs[i].rev THEN Key(qs[i].ord, s[x]) >= Key(qs[i].ord, s[x + 1]) ELSE Key(qs[i].ord, s[x]) <= Key(qs[i].ord, s[x + 1])
Once == \A i \in Slots : Live(i) /\ qs[i].dist =>
   LET s == Result(qs[i]) IN \A x, y \in DOMAIN s : x # y => ~Eq(s[x], s[y])
=============================================================================
