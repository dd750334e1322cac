-------------------------------- MODULE Docs --------------------------------
(* The store of documents and the resolution of identifiers in it.            *)
(* Documents are registered, replaced, amended in place and removed; an        *)
(* identifier (document uri, fragment) is resolved in what is registered then. *)
(* A fragment is a pointer, each of whose parts is encoded: Enc gives the      *)
(* spellings of a key.                                                         *)
EXTENDS Values

CONSTANTS Uris, Versions
VARIABLES store,   \* uri -> version, or 0
          act
vars == <<store, act>>

(* values: <<"o", <<key, value>>...>>, <<"l", value...>>, leaves <<"i", n>>, <<"s", t>>, <<"n">> *)
O(f) == <<"o", f>>
L(s) == <<"l", s>>
Keys(v) == {v[2][i][1] : i \in DOMAIN v[2]}
Field(v, k) == LET i == CHOOSE i \in DOMAIN v[2] : v[2][i][1] = k IN v[2][i][2]

(* the third version is empty *)
Doc(u, n) == IF n = 3 THEN O(<<>>) ELSE O(<< <<"id", I(10 * u + n)>>,
                  <<"a", O(<< <<"b/c", I(n)>>, <<"d~e", L(<<I(n), I(n + 1)>>)>>, <<"0", S("zero")>>,
                              <<"p%q", I(7)>>, <<"x y", I(8)>>, <<"~1", I(9)>>, <<"", O(<< <<"e", I(5)>>, <<"", I(6)>> >>)>>, <<"only" \o ToString(n), I(n)>> >>)>>,
                  <<"l", L(<<L(<<I(1), I(2 + n)>>), O(<< <<"k", I(3)>>, <<"$defs", O(<< <<"T", S("t")>> >>)>> >>)>>)>>,
                  <<"s", S("text")>>, <<"n", None>> >>)

(* key -> spellings in a fragment *)
Enc(k) == CASE k = "b/c" -> {"b~1c"} [] k = "d~e" -> {"d~0e"} [] k = "p%q" -> {"p%25q"}
            [] k = "x y" -> {"x%20y", "x y"} [] k = "~1" -> {"~01"} [] k = "$defs" -> {"$defs", "%24defs"}
            [] OTHER -> {k}
Index(k) == CASE k = "0" -> 1 [] k = "1" -> 2 [] k = "2" -> 3 [] OTHER -> 0

RECURSIVE At(_, _)
At(v, path) ==
  IF path = <<>> THEN <<"ok", v>>
  ELSE LET k == Head(path) IN
       CASE v[1] = "o" -> IF k \in Keys(v) THEN At(Field(v, k), Tail(path)) ELSE <<"err", "refused">>
         [] v[1] = "l" -> IF Index(k) \in DOMAIN v[2] THEN At(v[2][Index(k)], Tail(path)) ELSE <<"err", "refused">>
         [] OTHER -> <<"err", "refused">>

Paths == { <<>>, <<"id">>, <<"a", "b/c">>, <<"a", "d~e">>, <<"a", "d~e", "0">>, <<"a", "d~e", "1">>, <<"a", "d~e", "2">>,
           <<"a", "d~e", "-1">>, <<"a", "d~e", "x">>, <<"a", "0">>, <<"a", "p%q">>, <<"a", "x y">>, <<"a", "~1">>,
           <<"a", "only1">>, <<"a", "only2">>, <<"a", "">>, <<"a", "", "e">>, <<"a", "", "">>, <<"a", "e">>, <<"a", "b">>, <<"l", "0", "1">>, <<"l", "1", "k">>, <<"l", "1", "$defs", "T">>,
           <<"l", "k">>, <<"s">>, <<"s", "0">>, <<"n">>, <<"n", "x">>, <<"A">>, <<"zz">>, <<"zz", "a">> }
RECURSIVE Join(_)
Join(path) == IF path = <<>> THEN {""}
              ELSE {"/" \o e \o r : e \in Enc(Head(path)), r \in Join(Tail(path))}
Frags(path) == IF path = <<>> THEN {"", "#"} ELSE {"#" \o j : j \in Join(path)}

Get(u, path) == IF store[u] = 0 THEN <<"err", "refused">> ELSE At(Doc(u, store[u]), path)

Init == store = [u \in Uris |-> 0] /\ act = [op |-> "init"]

Register == \E u \in Uris, v \in Versions, door \in {"register", "load", "load#", "item", "file"}, sp \in {0, 1} :
              /\ (sp = 1 => door # "file")
              /\ store' = [store EXCEPT ![u] = v]
              /\ act' = [op |-> "register", u |-> u, sp |-> sp, door |-> door, doc |-> Doc(u, v), res |-> Ok(None)]
Amend == \E u \in Uris, v \in Versions : store[u] # 0 /\ store[u] # v
              /\ store' = [store EXCEPT ![u] = v]
              /\ act' = [op |-> "amend", u |-> u, doc |-> Doc(u, v), res |-> Ok(None)]
Unregister == \E u \in Uris, sp \in {0, 1, 2} :
              /\ store' = [store EXCEPT ![u] = 0]
              /\ act' = [op |-> "unregister", u |-> u, sp |-> sp, res |-> Ok(None)]
(* everything which can be resolved, through the spellings of the document uri *)
Look == \E door \in {"function", "type", "resolver", "given"}, sp \in {0, 1, 2} :
          /\ (door = "given" => sp = 0)
          /\ act' = [op |-> "look", door |-> door, sp |-> sp,
                     res |-> <<"ok", [u \in Uris |-> [here |-> store[u] # 0,
                        at |-> [set |-> UNION {{<<f, Get(u, p)>> : f \in Frags(p)} : p \in Paths}]]]>>]
          /\ UNCHANGED store
(* relative urls lead from the base to the target; a local identifier is scoped by the document of the base *)
Segs == {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", "c">>, <<"c", "a", "b">>, <<"a", "b", "a">>}
RECURSIVE Slash(_)
Slash(q) == IF q = <<>> THEN "" ELSE "/" \o Head(q) \o Slash(Tail(q))
Static == /\ store = [u \in Uris |-> 0]
          /\ \E b \in Segs \union {<<>>}, t \in Segs :
               act' = [op |-> "static", base |-> "http://vf.org" \o Slash(b), target |-> "http://vf.org" \o Slash(t),
                       res |-> <<"ok", <<"http://vf.org" \o Slash(t), "http://vf.org" \o Slash(b) \o "#/$defs/T",
                                         "http://vf.org" \o Slash(t) \o "#/$defs/T", "http://vf.org" \o Slash(t)>> >>]
          /\ UNCHANGED store
Next == Static \/ Register \/ Amend \/ Unregister \/ Look
Spec == Init /\ [][Next]_vars

(* a pointer to a pointed value is the value of the pointed value *)
Compose == \A u \in Uris, p, q \in Paths : LET r == Get(u, p) IN
   (r[1] = "ok" /\ q # <<>>) => Get(u, p \o q) = At(r[2], q)
Local == \A u \in Uris : store[u] \notin {0, 3} => Get(u, <<"id">>) = <<"ok", I(10 * u + store[u])>>

St == [store |-> store]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
=============================================================================
