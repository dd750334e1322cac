--------------------------------- MODULE Maps ---------------------------------
(* Layered maps (ReadOnlyChainMap, Context) over plain dictionaries and other   *)
(* layered maps.  They are views: whatever is asked reflects the current content *)
(* of the maps they are made of, the first map having a key giving its value.    *)
EXTENDS Values

CONSTANTS MaxChains, Keys, Ops
VARIABLES d,     \* dictionaries: sequences of [k, v]
          c,     \* layered maps: [kind, maps]; maps are references
          n, act
vars == <<d, c, n, act>>

(* references: <<"d", i>> a dictionary, <<"c", i>> a layered map, <<"l", v>> the local values: {} or {a: 9} *)
Ld(v) == <<"l", v>>
LocalOf(v) == IF v = 0 THEN <<>> ELSE <<[k |-> "a", v |-> 9]>>
Dicts == {1, 2}
Chains == DOMAIN c

HasKey(s, k) == \E i \in DOMAIN s : s[i].k = k
RECURSIVE Pairs(_), Merge(_, _)
(* content of a reference, in order of iteration *)
Merge(maps, acc) == IF maps = <<>> THEN acc
                    ELSE LET new == SelectSeq(Pairs(Head(maps)), LAMBDA p : ~HasKey(acc, p.k)) IN Merge(Tail(maps), acc \o new)
Pairs(r) == CASE r[1] = "d" -> d[r[2]] [] r[1] = "l" -> LocalOf(r[2]) [] r[1] = "c" -> Merge(c[r[2]].maps, <<>>)
RECURSIVE RevKeys(_), RevMerge(_, _), Flat(_), FlatAll(_), Below(_)
RevMerge(maps, acc) == IF maps = <<>> THEN acc
   ELSE LET m == maps[Len(maps)]
            new == SelectSeq(RevKeys(m), LAMBDA k : \A i \in DOMAIN acc : acc[i] # k)
        IN RevMerge(SubSeq(maps, 1, Len(maps) - 1), acc \o new)
RevKeys(r) == IF r[1] = "c" THEN RevMerge(c[r[2]].maps, <<>>) ELSE [i \in DOMAIN Pairs(r) |-> Pairs(r)[i].k]
FlatAll(maps) == IF maps = <<>> THEN <<>> ELSE Flat(Head(maps)) \o FlatAll(Tail(maps))
Flat(r) == IF r[1] = "c" THEN FlatAll(c[r[2]].maps) ELSE <<r>>
Below(r) == IF r[1] = "c" THEN {r[2]} \union UNION {Below(c[r[2]].maps[i]) : i \in DOMAIN c[r[2]].maps} ELSE {}

Init == /\ d \in {<<<<[k |-> "a", v |-> 1], [k |-> "b", v |-> 2]>>, <<[k |-> "b", v |-> 3], [k |-> "c", v |-> 4]>>>>}
        /\ c = <<>> /\ n = 0 /\ act = [op |-> "init"]

More == n < Ops /\ n' = n + 1
Set == /\ More
       /\ \E i \in Dicts, k \in Keys, v \in {5} :
            /\ d' = [d EXCEPT ![i] = IF HasKey(@, k) THEN [x \in DOMAIN @ |-> IF @[x].k = k THEN [k |-> k, v |-> v] ELSE @[x]]
                                     ELSE Append(@, [k |-> k, v |-> v])]
            /\ act' = [op |-> "set", i |-> i, k |-> k, v |-> v, res |-> Ok(None)]
       /\ UNCHANGED c
Del == /\ More
       /\ \E i \in Dicts, k \in Keys :
            /\ HasKey(d[i], k)
            /\ d' = [d EXCEPT ![i] = SelectSeq(@, LAMBDA p : p.k # k)]
            /\ act' = [op |-> "del", i |-> i, k |-> k, res |-> Ok(None)]
       /\ UNCHANGED c

Ref == {<<"d", i>> : i \in Dicts} \union {<<"c", j>> : j \in Chains}
New == /\ More /\ Len(c) < MaxChains
       /\ \E kind \in {"ctx", "ro"}, x \in Ref, y \in Ref \union {<<>>}, l \in {0, 1} :
            /\ x # y /\ (kind = "ro" => l = 0)
            /\ LET ms == <<x>> \o (IF y = <<>> THEN <<>> ELSE <<y>>) IN
               /\ c' = Append(c, [kind |-> kind, maps |-> IF kind = "ctx" THEN <<Ld(l)>> \o ms ELSE ms])
               /\ act' = [op |-> "new", kind |-> kind, maps |-> ms, l |-> l, res |-> Ok(None)]
       /\ UNCHANGED d
(* a child is made of the maps its parent is made of at that time *)
Child == /\ More /\ Len(c) < MaxChains
         /\ \E j \in Chains, x \in {<<"d", 1>>, <<"d", 2>>, <<>>}, l \in {0, 1} :
              LET ctx == c[j].kind = "ctx"
                  ps == IF x = <<>> THEN <<>> ELSE <<x>>
                  same == ctx /\ x = <<>> /\ l = 0 IN
              /\ c' = IF same THEN c
                      ELSE Append(c, [kind |-> c[j].kind,
                              maps |-> IF ctx THEN <<Ld(0)>> \o (IF l = 0 THEN <<>> ELSE <<Ld(l)>>) \o ps \o c[j].maps
                                       ELSE <<Ld(l)>> \o ps \o c[j].maps])
              /\ act' = [op |-> "child", j |-> j, maps |-> ps, l |-> l, res |-> Ok(B(same))]
         /\ UNCHANGED d
Extend == /\ More
          /\ \E j \in Chains, r \in Ref, how \in {"prepend", "append"} :
               /\ c[j].kind = "ctx" /\ j \notin Below(r) /\ Len(c[j].maps) < 5
               /\ c' = [c EXCEPT ![j].maps = IF how = "append" THEN Append(@, r) ELSE <<r>> \o @]
               /\ act' = [op |-> how, j |-> j, r |-> r, res |-> Ok(None)]
          /\ UNCHANGED d

(* dictionary 1 is of class A, dictionary 2 of its subclass B *)
Instances(j, cls, ex) == SelectSeq(c[j].maps, LAMBDA r : r[1] = "d" /\ (cls = "B" => r[2] = 2) /\ r[2] # ex)
Find(j, cls, ex, rev) == LET s == Instances(j, cls, ex) IN IF s = <<>> THEN 0 ELSE IF rev THEN s[Len(s)][2] ELSE s[1][2]
Observe(j) == LET p == Pairs(<<"c", j>>) IN
  [items |-> p, len |-> Len(p), merged |-> [set |-> Range(p)],
   rev |-> RevKeys(<<"c", j>>), flat |-> Flat(<<"c", j>>),
   missing |-> [set |-> {k \in {"a", "b", "c"} : ~HasKey(p, k)}],
   find |-> IF c[j].kind = "ctx" THEN <<Find(j, "A", 0, FALSE), Find(j, "B", 0, FALSE), Find(j, "A", 1, FALSE), Find(j, "A", 0, TRUE), Find(j, "B", 2, TRUE)>> ELSE <<>>]
Look == /\ n < Ops + 1
        /\ \E j \in Chains : act' = [op |-> "look", j |-> j, res |-> <<"ok", Observe(j)>>]
        /\ UNCHANGED <<d, c, n>>
(* two of them are found equal, or one has the hash of another, when they hold the same *)
Same == /\ \E i, j \in Chains :
             /\ i < j
             /\ Range(Pairs(<<"c", i>>)) = Range(Pairs(<<"c", j>>)) /\ c[i].kind = "ctx" /\ c[j].kind = "ctx"
             /\ act' = [op |-> "same", i |-> i, j |-> j, res |-> Ok(B(TRUE))]
        /\ UNCHANGED <<d, c, n>>

Next == Set \/ Del \/ New \/ Child \/ Extend \/ Look \/ Same
Spec == Init /\ [][Next]_vars
St == [d |-> d, c |-> c, n |-> n]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
EmitS == PrintT(ToJson([l |-> TLCGet("level"), a |-> act, t |-> St]))

(* each key once; the first map that has it decides *)
Once == \A j \in Chains : LET p == Pairs(<<"c", j>>) IN \A x, y \in DOMAIN p : x # y => p[x].k # p[y].k
SameKeys == \A j \in Chains : Range(RevKeys(<<"c", j>>)) = {p.k : p \in Range(Pairs(<<"c", j>>))}
FirstWins == \A j \in Chains : LET fl == Flat(<<"c", j>>) p == Pairs(<<"c", j>>) IN
   \A x \in DOMAIN p : \E i \in DOMAIN fl : p[x] \in Range(Pairs(fl[i])) /\ \A h \in 1..(i - 1) : ~HasKey(Pairs(fl[h]), p[x].k)
=============================================================================
