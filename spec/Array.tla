------------------------------- MODULE Array --------------------------------
(* An array property of an object, as a Python list of typed items.  Eager    *)
(* arrays convert and validate an item when it is given (and refuse it        *)
(* leaving the array as it was), lazy ones when it is read.                   *)
(* items: raw values; seen: positions whose value was read (cached).          *)
EXTENDS Values

CONSTANTS MaxLen, ItemVals, Full

VARIABLES obj, cfg, items, seen, act
vars == <<obj, cfg, items, seen, act>>

Vals == ItemVals
VQ == {I(0), S("2"), S("x")}
VT == {I(0), I(9), S("2"), S("x")}
Conv(v) == LET w == ConvInt(v) IN IF IsOk(w) /\ w[2][2] > 5 THEN Err("invalid") ELSE w
Good(v) == IsOk(Conv(v))
AllGood(s) == \A i \in DOMAIN s : Good(s[i])
Vl(s) == [i \in DOMAIN s |-> Conv(s[i])[2]]

(* an eager array stores converted items; a lazy one stores them on reading *)
Store(s) == IF cfg.lazy THEN s ELSE [i \in DOMAIN s |-> IF Good(s[i]) THEN Conv(s[i])[2] ELSE s[i]]

N == Len(items)
Idx(i) == IF i < 0 THEN i + N + 1 ELSE i + 1        \* Python index -> 1..N
InRange(i) == Idx(i) \in 1..N
InsPos(i) == LET j == IF i < 0 THEN i + N ELSE i IN (IF j < 0 THEN 0 ELSE IF j > N THEN N ELSE j) + 1

Ins(s, p, v) == [j \in 1..(Len(s) + 1) |-> IF j < p THEN s[j] ELSE IF j = p THEN v ELSE s[j - 1]]
Rem(s, p) == [j \in 1..(Len(s) - 1) |-> IF j < p THEN s[j] ELSE s[j + 1]]
ShiftIns(sn, p) == {IF j >= p THEN j + 1 ELSE j : j \in sn}
ShiftRem(sn, p) == {IF j > p THEN j - 1 ELSE j : j \in sn \ {p}}

Inits == {<<>>, <<I(0)>>, <<S("2"), I(0)>>, <<I(0), S("2"), I(0)>>}

-----------------------------------------------------------------------------
Init == /\ obj = "none"
        /\ cfg \in {[lazy |-> FALSE, owner |-> FALSE], [lazy |-> TRUE, owner |-> TRUE], [lazy |-> TRUE, owner |-> FALSE]}
        /\ items \in Inits
        /\ seen = {}
        /\ act = [op |-> "init"]

New == /\ obj = "none"
       /\ obj' = "live"
       /\ items' = Store(items)
       /\ seen' = {}
       /\ act' = [op |-> "new", cfg |-> cfg, v |-> items, res |-> Ok(None)]
       /\ UNCHANGED cfg

Idxs == -(MaxLen + 1)..MaxLen
Probes == {I(0), I(2), I(4)}

(* the first position >= from whose value is v; reading stops at an invalid item *)
RECURSIVE Find(_, _, _)
Find(s, v, from) == IF from > Len(s) THEN Err("ValueError")
                    ELSE IF ~Good(s[from]) THEN Err("invalid")
                    ELSE IF Conv(s[from])[2] = v THEN Ok(I(from - 1))
                    ELSE Find(s, v, from + 1)

Rd(a, sn) == act' = a /\ seen' = sn /\ items' = items

RECURSIVE From(_, _, _)
From(i, n, st) == IF i < 1 \/ i > n THEN <<>> ELSE <<i>> \o From(i + st, n, st)
Steps(n, st) == From(IF st > 0 THEN 1 ELSE n, n, st)

Read ==
  /\ obj = "live"
  /\ \/ \E i \in Idxs :
          Rd([op |-> "getitem", i |-> i,
              res |-> IF InRange(i) THEN Conv(items[Idx(i)]) ELSE Err("IndexError")],
             IF InRange(i) /\ Good(items[Idx(i)]) THEN seen \cup {Idx(i)} ELSE seen)
     \/ Rd([op |-> "len", res |-> Ok(I(N))], seen)
     \/ \E door \in {"list", "ser", "owner", "slice", "copy"} :
          Rd([op |-> "all", door |-> door,
              res |-> IF AllGood(items) THEN Ok(<<"l", Vl(items)>>) ELSE Err("invalid")],
             IF AllGood(items) THEN 1..N ELSE seen)
     \/ \E lo \in {0, 1}, hi \in {1, 2, 9} : lo <= hi /\
          LET e == IF hi > N THEN N ELSE hi
              sl == SubSeq(items, lo + 1, e) IN
          Rd([op |-> "slice", lo |-> lo, hi |-> hi,
              res |-> IF AllGood(sl) THEN Ok(<<"l", Vl(sl)>>) ELSE Err("invalid")],
             IF AllGood(sl) THEN seen \cup ((lo + 1)..e) ELSE seen)
     \* the items at given positions, forwards or backwards
     \/ \E st \in {2, 0 - 1, 0 - 2} :
          LET is == Steps(N, st)
              sl == [k \in DOMAIN is |-> items[is[k]]] IN
          Rd([op |-> "step", st |-> st, res |-> IF AllGood(sl) THEN Ok(<<"l", Vl(sl)>>) ELSE Err("invalid")],
             IF AllGood(sl) THEN seen \cup {is[k] : k \in DOMAIN is} ELSE seen)
     \/ \E v \in Probes : LET f == Find(items, v, 1) IN
          \/ Rd([op |-> "in", v |-> v, res |-> IF f = Err("ValueError") THEN Ok(B(FALSE)) ELSE IF IsOk(f) THEN Ok(B(TRUE)) ELSE f], seen)
          \/ Rd([op |-> "index", v |-> v, res |-> f], seen)
          \/ Rd([op |-> "count", v |-> v,
                 res |-> IF AllGood(items) THEN Ok(I(Cardinality({i \in 1..N : Vl(items)[i] = v}))) ELSE Err("invalid")],
                IF AllGood(items) THEN 1..N ELSE seen)
     \/ \E w \in {<<>>, <<I(0)>>, <<I(0), I(2)>>} : AllGood(items) /\
          Rd([op |-> "eq", w |-> w, res |-> Ok(B(Vl(items) = w))], seen)
  /\ UNCHANGED <<obj, cfg>>

(* an edit adding value v: refused by an eager array when it is not valid *)
Put(a, v, s, sn) ==
  /\ UNCHANGED <<obj, cfg>>
  /\ IF ~cfg.lazy /\ ~Good(v)
     THEN act' = [res |-> Err("invalid")] @@ a /\ UNCHANGED <<items, seen>>
     ELSE act' = [res |-> Ok(None)] @@ a /\ items' = Store(s) /\ seen' = sn

Ed(a, s, sn) == act' = a /\ items' = s /\ seen' = sn /\ UNCHANGED <<obj, cfg>>
Same(a) == act' = a /\ UNCHANGED <<obj, cfg, items, seen>>

Write ==
  /\ obj = "live"
  /\ \/ N < MaxLen /\ \E v \in Vals : Put([op |-> "append", v |-> v], v, Append(items, v), seen)
     \/ N < MaxLen /\ \E v \in Vals, i \in {-MaxLen - 2, -1, 0, 1, MaxLen + 3} :
          Put([op |-> "insert", i |-> i, v |-> v], v, Ins(items, InsPos(i), v), ShiftIns(seen, InsPos(i)))
     \/ \E v \in Vals, i \in Idxs :
          IF InRange(i)
          THEN Put([op |-> "setitem", i |-> i, v |-> v], v, [items EXCEPT ![Idx(i)] = v], seen \ {Idx(i)})
          ELSE Same([op |-> "setitem", i |-> i, v |-> v, res |-> Err("IndexError")])
     \/ N + 2 <= MaxLen /\ \E door \in {"extend", "iadd"} :
          Ed([op |-> "extend", door |-> door, w |-> <<I(0), S("2")>>, res |-> Ok(None)],
             items \o Store(<<I(0), S("2")>>), seen)
     \/ \E i \in {-MaxLen - 1, -1, 0, 1, MaxLen} :
          IF InRange(i)
          THEN IF Good(items[Idx(i)])
               THEN Ed([op |-> "pop", i |-> i, res |-> Conv(items[Idx(i)])], Rem(items, Idx(i)), ShiftRem(seen, Idx(i)))
               ELSE Same([op |-> "pop", i |-> i, res |-> Err("invalid")])
          ELSE Same([op |-> "pop", i |-> i, res |-> Err("IndexError")])
     \/ \E i \in Idxs :
          IF InRange(i)
          THEN Ed([op |-> "del", i |-> i, res |-> Ok(None)], Rem(items, Idx(i)), ShiftRem(seen, Idx(i)))
          ELSE Same([op |-> "del", i |-> i, res |-> Err("IndexError")])
     \/ \E v \in Probes : LET f == Find(items, v, 1) IN
          IF IsOk(f)
          THEN Ed([op |-> "remove", v |-> v, res |-> Ok(None)], Rem(items, f[2][2] + 1), ShiftRem(seen, f[2][2] + 1))
          ELSE Same([op |-> "remove", v |-> v, res |-> f])
     \/ AllGood(items) /\ Ed([op |-> "reverse", res |-> Ok(None)], [i \in 1..N |-> Conv(items[N + 1 - i])[2]], {})
     \/ AllGood(items) /\ Ed([op |-> "clear", res |-> Ok(None)], <<>>, {})
     \* the whole array: from sequences, scalars, nothing and split texts
     \/ \E k \in {"list", "tuple", "self"}, w \in {<<>>, <<I(0)>>, <<S("2"), I(0)>>} :
          Ed([op |-> "assign", from |-> k, w |-> w, res |-> Ok(None)], Store(w), {})
     \/ \E v \in {I(4), S("4")} : Ed([op |-> "assign", from |-> "scalar", w |-> <<v>>, res |-> Ok(None)], Store(<<v>>), {})
     \/ Ed([op |-> "assign", from |-> "split", w |-> <<S("2"), S("0")>>, res |-> Ok(None)], Store(<<S("2"), S("0")>>), {})
     \/ Ed([op |-> "assign", from |-> "none", w |-> <<>>, res |-> Ok(None)], <<>>, {})

Next == New \/ Read \/ Write
Spec == Init /\ [][Next]_vars

St == [obj |-> obj, cfg |-> cfg, items |-> items, seen |-> seen]
View == IF Full THEN St ELSE [St EXCEPT !.seen = {}]
EmitT == PrintT(ToJson([s |-> View, a |-> act', t |-> View']))

TypeOK == Len(items) <= MaxLen /\ seen \subseteq 1..N
(* an eager array never holds an invalid item; a refused edit changes nothing *)
EagerValid == (obj = "live" /\ ~cfg.lazy) => AllGood(items)
RefusedUnchanged == [][(act'.op \notin {"new"} /\ act'.res[1] = "err") => UNCHANGED <<items, obj, cfg>>]_vars
ReadsArePure == [][act'.op \in {"getitem", "len", "all", "slice", "in", "index", "count", "eq"} => UNCHANGED <<items, obj, cfg>>]_vars
CacheSound == \A i \in seen : Good(items[i])
=============================================================================
