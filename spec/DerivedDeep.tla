----------------------------- MODULE DerivedDeep -----------------------------
(* Derived properties whose inputs lie several levels down: arrays of arrays, *)
(* objects in objects, and plain lists and dictionaries held as additional    *)
(* properties.  As in ObjDerived a read is a pure function of what the inputs *)
(* hold now; seen enumerates what may have been cached.                       *)
EXTENDS Values

VARIABLES obj, cfg, raw, seen, act
vars == <<obj, cfg, raw, seen, act>>

(* raw: m, an array of arrays of integers; z, the property of an object in an *)
(* object; q, a plain list and d, a plain dictionary (of a list), additional. *)
Rows == {<<1>>, <<2>>, <<1, 2>>, <<2, 2>>}
Vals == 1..2
Mats == {<<a>> : a \in Rows} \cup {<<a, <<1>>>> : a \in Rows}
Raws == [m : Mats, z : Vals, q : {<<1>>, <<2>>, <<1, 2>>, <<2, 2>>}, d : Vals]

Derived == {"s", "t", "k", "c", "n", "e", "f"}

T(i) == DigitText[i]
RECURSIVE Join(_), Sum(_), Joins(_), Sums(_)
Join(l) == IF l = <<>> THEN "" ELSE T(Head(l)) \o "," \o Join(Tail(l))
Sum(l) == IF l = <<>> THEN 0 ELSE Head(l) + Sum(Tail(l))
Joins(m) == IF m = <<>> THEN "" ELSE Join(Head(m)) \o ";" \o Joins(Tail(m))
Sums(m) == IF m = <<>> THEN 0 ELSE Sum(Head(m)) + Sums(Tail(m))

Read(r, p) ==
  CASE p = "s" -> I(Sums(r.m))                 \* `sum(v for r in m for v in r)
    [] p = "t" -> S(Joins(r.m))                \* loops over rows and their items
    [] p = "k" -> S("z" \o T(r.z))             \* z{{c.b.z}}
    [] p = "c" -> I(r.z + Len(r.m[1]))         \* `c.b.z+len(m[0])
    [] p = "n" -> S(Join(r.q))                 \* loop over the plain list
    [] p = "e" -> S("d" \o T(r.d))             \* d{{d.w[0]}}
    [] p = "f" -> S(T(Sums(r.m)) \o Join(r.q)) \* {{s}}{{n}}

-----------------------------------------------------------------------------
Init == /\ obj = "none"
        /\ cfg \in [lo : BOOLEAN, la : BOOLEAN]
        /\ raw = [m |-> <<<<1>>, <<1>>>>, z |-> 1, q |-> <<1>>, d |-> 1]
        /\ seen = {}
        /\ act = [op |-> "init"]

New == /\ obj = "none"
       /\ obj' = "live"
       /\ seen' = {}
       /\ act' = [op |-> "new", cfg |-> cfg, raw |-> raw, res |-> Ok(None)]
       /\ UNCHANGED <<cfg, raw>>

Get == /\ obj = "live"
       /\ \E p \in Derived :
            /\ act' = [op |-> "get", p |-> p, res |-> Ok(Read(raw, p))]
            /\ seen' = {p}
            /\ UNCHANGED <<obj, cfg, raw>>

Do(a, r) == /\ act' = a
            /\ raw' = r
            /\ seen' = IF r = raw THEN seen ELSE {}
            /\ UNCHANGED <<obj, cfg>>

Row == raw.m[1]
PutRow(l) == [raw EXCEPT !.m = [raw.m EXCEPT ![1] = l]]

Edit == /\ obj = "live"
        \* rows: an item, a whole row, growing and shrinking, another row
        /\ \/ \E v \in Vals, door \in {"item", "path", "held", "row"} :
                Do([op |-> "mitem", v |-> v, door |-> door, res |-> Ok(None)], PutRow([Row EXCEPT ![1] = v]))
           \/ Len(Row) < 2 /\ Do([op |-> "mappend", res |-> Ok(None)], PutRow(Append(Row, 2)))
           \/ Len(Row) = 2 /\ \E door \in {"pop", "del"} :
                Do([op |-> "mpop", door |-> door, res |-> Ok(None)], PutRow(SubSeq(Row, 1, 1)))
           \/ Len(raw.m) < 2 /\ Do([op |-> "mgrow", res |-> Ok(None)], [raw EXCEPT !.m = Append(raw.m, <<1>>)])
           \/ Len(raw.m) = 2 /\ Do([op |-> "mshrink", res |-> Ok(None)], [raw EXCEPT !.m = SubSeq(raw.m, 1, 1)])
           \* the object in the object
           \/ \E v \in Vals, door \in {"attr", "path", "inner", "whole", "held"} :
                Do([op |-> "setz", v |-> v, door |-> door, res |-> Ok(None)], [raw EXCEPT !.z = v])
           \* the plain list and dictionary, changed in place or assigned again
           \/ \E v \in Vals, door \in {"item", "whole"} :
                Do([op |-> "qitem", v |-> v, door |-> door, res |-> Ok(None)], [raw EXCEPT !.q = [raw.q EXCEPT ![1] = v]])
           \/ Len(raw.q) < 2 /\ Do([op |-> "qappend", res |-> Ok(None)], [raw EXCEPT !.q = Append(raw.q, 2)])
           \/ Len(raw.q) = 2 /\ Do([op |-> "qpop", res |-> Ok(None)], [raw EXCEPT !.q = SubSeq(raw.q, 1, 1)])
           \/ \E v \in Vals, door \in {"deep", "key", "whole"} :
                Do([op |-> "setd", v |-> v, door |-> door, res |-> Ok(None)], [raw EXCEPT !.d = v])

Next == New \/ Get \/ Edit

Spec == Init /\ [][Next]_vars

St == [obj |-> obj, cfg |-> cfg, raw |-> raw, seen |-> seen]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

TypeOK == raw \in Raws /\ seen \subseteq Derived
ReadsArePure == [][act'.op = "get" => UNCHANGED <<obj, cfg, raw>>]_vars
=============================================================================
