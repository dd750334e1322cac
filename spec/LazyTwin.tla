------------------------------ MODULE LazyTwin ------------------------------
(* A nested object whose parts (the object, its child, the array, the items   *)
(* of the array) are each loaded lazily or eagerly.  No observation depends   *)
(* on that choice: cfg appears in no result.                                  *)
EXTENDS Values

CONSTANTS MaxLen

VARIABLES obj, cfg, raw, seen, act
vars == <<obj, cfg, raw, seen, act>>

NV == {I(1), S("3")}
XV == {I(2), S("4")}
ZV == {S("q"), I(7)}
AV == {I(0), S("5")}
Raws == [n : NV, x : XV, z : ZV, a : UNION {[1..k -> AV] : k \in 0..MaxLen}]

Int_(v) == ConvInt(v)[2]
Str_(v) == ConvStr(v)[2]
Txt(v) == S(DigitText[Int_(v)[2]])

(* everything there is to read *)
View_(r) == [n |-> Int_(r.n), s |-> Txt(r.n), u |-> I(Int_(r.x)[2] + Int_(r.n)[2]),
             \* two getters, the second gives nothing but for 3
             d |-> I(Int_(r.n)[2] + 10), e |-> IF Int_(r.n)[2] = 3 THEN I(33) ELSE None,
             x |-> Int_(r.x), y |-> I(Int_(r.x)[2] + 1), z |-> Str_(r.z), w |-> Str_(r.z),
             ax |-> <<"l", [i \in DOMAIN r.a |-> Int_(r.a[i])]>>,
             at |-> <<"l", [i \in DOMAIN r.a |-> Txt(r.a[i])]>>]
Dflt == [n |-> I(1), x |-> I(2), z |-> S("q"), a |-> <<>>]

Init == /\ obj = "none"
        /\ cfg \in [o : BOOLEAN, k : BOOLEAN, a : BOOLEAN, i : BOOLEAN]
        /\ raw \in {Dflt, [n |-> S("3"), x |-> S("4"), z |-> I(7), a |-> <<S("5"), I(0)>>]}
        /\ seen = FALSE
        /\ act = [op |-> "init"]

New == /\ obj = "none" /\ obj' = "live"
       /\ \E form \in {"dict", "kw", "typed", "partial"} :
            /\ form = "partial" => raw = Dflt
            /\ act' = [op |-> "new", cfg |-> cfg, form |-> form, r |-> raw, res |-> Ok(None)]
       /\ seen' = FALSE
       /\ UNCHANGED <<cfg, raw>>

Read ==
  /\ obj = "live"
  /\ \/ /\ act' = [op |-> "view", res |-> <<"ok", View_(raw)>>]
        /\ seen' = TRUE
     \/ \E p \in DOMAIN View_(raw) : act' = [op |-> "get", p |-> p, res |-> Ok(View_(raw)[p])] /\ UNCHANGED seen
     \/ /\ \E door \in {"ser", "json", "copy", "reload", "reloadall"} :
             act' = [op |-> "via", door |-> door, res |-> <<"ok", View_(raw)>>]
        /\ seen' = TRUE
     \* serializing without defaults keeps only what was given; derived values are never kept
     \/ LET kk == (IF Int_(raw.x) # I(2) THEN {"x"} ELSE {}) \cup (IF Str_(raw.z) # S("q") THEN {"g"} ELSE {}) IN
        /\ act' = [op |-> "keys",
                   res |-> <<"ok", [o |-> [set |-> (IF Int_(raw.n) # I(1) THEN {"n"} ELSE {}) \cup (IF kk = {} THEN {} ELSE {"k"})
                                                   \cup {"d"} \cup (IF Int_(raw.n)[2] = 3 THEN {"e"} ELSE {})
                                                   \cup (IF raw.a = <<>> THEN {} ELSE {"a"})],
                                   k |-> [set |-> kk], a |-> [set |-> IF raw.a = <<>> THEN {} ELSE {"x"}]]>>]
        /\ seen' = TRUE
     \* compared with another object holding r2, loaded another way
     \/ /\ \E r2 \in {Dflt, raw, [raw EXCEPT !.z = I(7)], [raw EXCEPT !.x = S("4")], [raw EXCEPT !.a = <<S("5")>>]}, c2 \in {cfg} :
             act' = [op |-> "eq", r |-> r2, res |-> Ok(B(View_(r2) = View_(raw)))]
        /\ seen' = TRUE
  /\ UNCHANGED <<obj, cfg, raw>>

Do(a, r) == act' = [res |-> Ok(None)] @@ a /\ raw' = r /\ seen' = FALSE /\ UNCHANGED <<obj, cfg>>
Write ==
  /\ obj = "live"
  /\ \/ \E v \in NV : Do([op |-> "n", v |-> v], [raw EXCEPT !.n = v])
     \/ \E v \in XV, door \in {"child", "path", "whole", "typed"} :
          Do([op |-> "x", v |-> v, door |-> door], [raw EXCEPT !.x = v, !.z = IF door = "whole" THEN S("q") ELSE @])
     \/ \E v \in ZV, door \in {"child", "path", "whole"} :
          Do([op |-> "z", v |-> v, door |-> door], [raw EXCEPT !.z = v])
     \/ Len(raw.a) < MaxLen /\ \E v \in AV : Do([op |-> "append", v |-> v], [raw EXCEPT !.a = Append(@, v)])
     \/ \E k \in DOMAIN raw.a, v \in AV, door \in {"child", "path", "whole"} :
          Do([op |-> "item", i |-> k - 1, v |-> v, door |-> door], [raw EXCEPT !.a[k] = v])
     \/ Len(raw.a) > 0 /\ Do([op |-> "pop", i |-> 0], [raw EXCEPT !.a = Tail(@)])
     \/ Do([op |-> "arr", v |-> <<S("5")>>], [raw EXCEPT !.a = <<S("5")>>])

Next == New \/ Read \/ Write
Spec == Init /\ [][Next]_vars
St == [obj |-> obj, cfg |-> cfg, raw |-> raw, seen |-> seen]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
TypeOK == raw \in Raws
ReadsArePure == [][act'.op \in {"view", "get", "via", "eq", "keys"} => UNCHANGED <<obj, cfg, raw>>]_vars
=============================================================================
