------------------------------- MODULE Spaces -------------------------------
(* Namespaces: canonical names of definitions and their identifiers.          *)
(* Documents are at uris some of which start the same or are below another     *)
(* one; they may be registered or not, a manager of namespaces may give names  *)
(* to uris (or to a fragment of a document), inherit the names of a parent      *)
(* manager and have a current namespace.                                        *)
EXTENDS Values

CONSTANTS MaxNames, Given
VARIABLES docs,    \* set of the registered documents
          names,   \* function: name given in the manager -> uri
          pnames,  \* the same in its parent
          cur,     \* current namespace <<name, uri>>
          lbl
vars == <<docs, names, pnames, cur, lbl>>

(* uri -> path; canonical name *)
Uri == [a |-> "https://q-w.org/3/a", ab |-> "https://q-w.org/3/ab", sub |-> "https://q-w.org/3/a/b-c/1", ms |-> "https://numengo.org/@"]
Own == [a |-> "q_w_3.a", ab |-> "q_w_3.ab", sub |-> "q_w_3.a.b_c_1", ms |-> "@"]
Docs == DOMAIN Uri
Mod == "https://q-w.org/3/a#/$defs/mod"   \* a fragment which can be named as well

(* definitions: <<names, fragment>>; they are in the module mod too *)
Defs == { <<"T", "/$defs/T">>, <<"T.In", "/$defs/T/$defs/In">>, <<"Tt", "/$defs/Tt">>,
          <<"moda", "/$defs/moda">>,
          <<"mod", "/$defs/mod">>, <<"mod.V", "/$defs/mod/$defs/V">>, <<"mod.V.W", "/$defs/mod/$defs/V/$defs/W">> }
Props == { <<"T.p", "/$defs/T/properties/p">>, <<"T.p.q", "/$defs/T/properties/p/properties/q">> }
ModDefs == { <<"V", "/$defs/V">>, <<"V.W", "/$defs/V/$defs/W">> }

Uris == {Uri[d] : d \in Docs} \union {Mod}
AllNames == names @@ pnames
NamesOf(u) == {n \in DOMAIN AllNames : AllNames[n] = u}
Named(u) == NamesOf(u) # {}

(* canonical names a uri may have: those given, or its own *)
CNames(d) == IF Named(Uri[d]) THEN NamesOf(Uri[d]) ELSE {Own[d]}
Known(d) == d \in docs \/ Named(Uri[d])
Dot(n, x) == IF n = "" THEN x ELSE IF x = "" THEN n ELSE n \o "." \o x

(* what can be asked of a definition of a document: its name, and the way back *)
Frags(d) == {<<"", "">>} \union Defs \union (IF d \in docs THEN Props ELSE {})
(* a named fragment takes its definitions from its document *)
InMod(d, f) == d = "a" /\ Named(Mod) /\ f[1] \in {"mod", "mod.V", "mod.V.W"}
ModRest(f) == CASE f[1] = "mod" -> "" [] f[1] = "mod.V" -> "V" [] OTHER -> "V.W"
CnOf(d, f) == IF InMod(d, f) THEN {Dot(n, ModRest(f)) : n \in NamesOf(Mod)}
              ELSE {Dot(n, f[1]) : n \in CNames(d)}
(* a name is ambiguous when the name of another namespace can be read in it *)
Spaces == {Own[d] : d \in {d \in docs : TRUE}} \union DOMAIN AllNames

Init == docs = {} /\ names = <<>> /\ pnames = <<>> /\ cur = <<"", "#">> /\ lbl = [op |-> "init"]

Register == \E d \in Docs \ docs : docs' = docs \union {d} /\ UNCHANGED <<names, pnames, cur>>
              /\ lbl' = [op |-> "register", d |-> d]
Unregister == \E d \in docs : docs' = docs \ {d} /\ UNCHANGED <<names, pnames, cur>>
              /\ lbl' = [op |-> "unregister", d |-> d]
(* the name of a namespace is its own or a given one; a given name is not used twice *)
NameFor(u) == {n \in Given : n \notin DOMAIN AllNames}
Add == \E u \in Uris, where \in {"local", "parent"}, n \in Given \union {"own"}, sp \in {"", "#"} :
         /\ (u = Mod => sp = "" /\ n # "own")
         /\ Cardinality(DOMAIN AllNames) < MaxNames
         /\ n # "own" => n \notin DOMAIN AllNames
         /\ LET m == IF n # "own" THEN n ELSE Own[CHOOSE d \in Docs : Uri[d] = u] IN
            /\ m \notin DOMAIN AllNames
            /\ names' = IF where = "local" THEN (m :> u) @@ names ELSE names
            /\ pnames' = IF where = "parent" THEN (m :> u) @@ pnames ELSE pnames
            /\ lbl' = [op |-> "add", u |-> u \o sp, where |-> where, name |-> IF n = "own" THEN "" ELSE n]
         /\ UNCHANGED <<docs, cur>>
(* a fragment of the current document *)
AddFrag == /\ cur[2] = Uri["a"] /\ Cardinality(DOMAIN AllNames) < MaxNames
           /\ \E n \in Given \ DOMAIN AllNames :
                /\ names' = (n :> Mod) @@ names
                /\ lbl' = [op |-> "add", u |-> "#/$defs/mod", where |-> "local", name |-> n]
           /\ UNCHANGED <<docs, pnames, cur>>
SetCurrent == \E n \in DOMAIN AllNames : n # cur[1]
         /\ cur' = <<n, AllNames[n]>>
         /\ lbl' = [op |-> "current", name |-> n]
         /\ UNCHANGED <<docs, names, pnames>>
Next == Register \/ Unregister \/ Add \/ AddFrag \/ SetCurrent
Spec == Init /\ [][Next]_vars

(* what is seen then: for every definition of a known document the names it may have; the driver *)
(* checks that its name is one of them and that this name (and the relative one) leads back to it *)
Entry(d, f) == [id |-> Uri[d] \o (IF f[2] = "" THEN "" ELSE "#" \o f[2]), cn |-> [set |-> CnOf(d, f)]]
(* names by which a definition of a known namespace may be asked, beside its canonical name *)
Asked == {<<Dot(n, f[1]), AllNames[n] \o (IF f[2] = "" THEN "#" ELSE "#" \o f[2])>> :
            n \in {m \in DOMAIN AllNames : AllNames[m] # Mod}, f \in Defs \union {<<"", "">>}}
         \union (IF Named(Mod) THEN {<<Dot(n, f[1]), Mod \o f[2]>> : n \in NamesOf(Mod), f \in ModDefs} ELSE {})
         \union {<<Dot(Own[d], f[1]), Uri[d] \o "#" \o f[2]>> :
                   d \in {d \in docs : Own[d] \notin DOMAIN AllNames}, f \in Defs \union {<<"", "">>}}
(* in the current namespace, names relative to it *)
Local == IF cur[1] = "" \/ cur[2] = Mod THEN {}
         ELSE {<<f[1], cur[2] \o "#" \o f[2]>> : f \in Defs}
(* documents and names nothing leads to, though they start as others do *)
Unknown == {d \in {"a", "ab", "ms"} : ~Known(d)}
LookRes == [un |-> [set |-> {<<Own[d], Uri[d]>> : d \in Unknown}],
            cn |-> [set |-> UNION {{Entry(d, f) : f \in Frags(d)} : d \in {d \in Docs : Known(d)}}],
            asked |-> [set |-> Asked], local |-> [set |-> Local], cur |-> cur,
            spaces |-> [set |-> Spaces]]

act == lbl @@ [res |-> <<"ok", LookRes>>]

Unique == \A m, n \in DOMAIN AllNames : m \in DOMAIN names /\ n \in DOMAIN pnames => m # n
CurKnown == cur[1] = "" \/ (cur[1] \in DOMAIN AllNames /\ AllNames[cur[1]] = cur[2])
(* two definitions of known documents do not share a name *)
Injective == \A d, e \in {d \in Docs : Known(d)} : \A f \in Frags(d), g \in Frags(e) :
                (CnOf(d, f) \intersect CnOf(e, g)) # {} => <<d, f>> = <<e, g>>

Key(f) == {<<n, f[n]>> : n \in DOMAIN f}
St == [docs |-> [set |-> docs], names |-> [set |-> Key(names)], pnames |-> [set |-> Key(pnames)], cur |-> cur]
View == St
(* one document only *)
OnlyA == docs \subseteq {"a"} /\ \A n \in DOMAIN AllNames : AllNames[n] \in {Uri["a"], Mod}
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
=============================================================================
