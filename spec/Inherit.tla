------------------------------- MODULE Inherit -------------------------------
(* Classes composed by inheritance.  A history defines classes one after the *)
(* other (from python bases, from schemas they extend, or both; sometimes    *)
(* under a name used before) and observes any of them at any time.  What is  *)
(* observed of a class is the merge of the definitions it is made of,         *)
(* whatever was defined or used before or since.                             *)
EXTENDS Values

CONSTANTS MaxClasses

VARIABLES defs, used, act
vars == <<defs, used, act>>

PInt(d) == [t |-> "integer", d |-> d]
PStr(d) == [t |-> "string", d |-> d]
Empty == [k \in {} |-> None]
Body(props, req, ro, ns, al, ng, pat, attr) ==
  [props |-> props, req |-> req, ro |-> ro, ns |-> ns, al |-> al, ng |-> ng, pat |-> pat, attr |-> attr]

Bodies == <<
  Body(("x" :> PInt(I(1))) @@ ("m" :> PInt(None)), {"m"}, {}, {}, ("z" :> "x"), Empty, {}, Empty),
  Body(("x" :> PStr(S("n"))) @@ ("n" :> PInt(I(4))), {}, {"n"}, {"x"}, Empty, Empty, {}, Empty),
  Body(("x" :> PInt(I(7))), {}, {}, {}, Empty, Empty, {"q"}, Empty),
  Body(("o" :> PInt(None)), {}, {}, {"o"}, ("z" :> "o"), ("zn" :> "o"), {}, Empty),
  Body(("x-y" :> PInt(I(2))) @@ ("m" :> PStr(None)), {"x-y"}, {}, {}, Empty, Empty, {"p"}, Empty),
  Body(Empty, {"o"}, {"x"}, {}, ("zz" :> "m"), Empty, {}, Empty),
  Body(("o" :> PInt(I(3))), {}, {}, {}, Empty, Empty, {}, ("x" :> I(9)))
>>

RECURSIVE Merge(_)
Merge(fs) == IF fs = <<>> THEN Empty ELSE Head(fs) @@ Merge(Tail(fs))

RECURSIVE Props(_, _), SetOf(_, _, _), Fun(_, _, _), Sub(_, _, _)
(* earlier bases prevail over later ones, own definitions over all of them *)
BaseProps(ds, i) == Merge([k \in DOMAIN ds[i].bs |-> Props(ds, ds[i].bs[k])])
Props(ds, i) ==
  LET own == Bodies[ds[i].b].props @@ BaseProps(ds, i)
      attr == Bodies[ds[i].b].attr
  IN [k \in DOMAIN own |->
        IF k \in DOMAIN attr THEN [own[k] EXCEPT !.d = IF own[k].t = "integer" THEN attr[k] ELSE S(ToString(attr[k][2]))]
        ELSE own[k]]
SetOf(ds, i, f) == Bodies[ds[i].b][f] \union UNION {SetOf(ds, ds[i].bs[k], f) : k \in DOMAIN ds[i].bs}
Fun(ds, i, f) == Merge(<<Bodies[ds[i].b][f]>> \o [k \in DOMAIN ds[i].bs |-> Fun(ds, ds[i].bs[k], f)])
Sub(ds, i, j) == i = j \/ \E k \in DOMAIN ds[i].bs : Sub(ds, ds[i].bs[k], j)

(* is the class meaningful: names made required, read-only or given aliases exist *)
Sound(ds, i) == LET P == DOMAIN Props(ds, i) IN
            /\ SetOf(ds, i, "req") \subseteq P /\ SetOf(ds, i, "ro") \subseteq P
            /\ \A a \in DOMAIN Fun(ds, i, "al") : Fun(ds, i, "al")[a] \in P
            /\ DOMAIN Bodies[ds[i].b].attr \subseteq {k \in P : (Bodies[ds[i].b].props @@ BaseProps(ds, i))[k].t = "integer"}

(* every assignable property is set to the text 5 *)
After(ds, i) == LET P == Props(ds, i) ro == SetOf(ds, i, "ro") IN
            [k \in DOMAIN P |-> IF k \in ro THEN P[k].d ELSE IF P[k].t = "integer" THEN I(5) ELSE S("5")]
Ser(ds, i) == LET a == After(ds, i)
              shown == DOMAIN a \ SetOf(ds, i, "ns")
              al == Fun(ds, i, "al") ng == Fun(ds, i, "ng")
          IN [k \in shown |-> a[k]]
             @@ [k \in {x \in DOMAIN al : al[x] \in shown /\ a[al[x]] # None} |-> a[al[k]]]
             @@ [k \in {x \in DOMAIN ng : ng[x] \in shown /\ a[ng[x]] # None} |-> I(-5)]
Obs(ds, i) ==
  LET P == Props(ds, i) a == After(ds, i) al == Fun(ds, i, "al") ng == Fun(ds, i, "ng") IN
  [reads |-> [k \in DOMAIN P |-> P[k].d],
   after |-> a,
   ro |-> [k \in DOMAIN P |-> k \in SetOf(ds, i, "ro")],
   req |-> [k \in DOMAIN P |-> k \in SetOf(ds, i, "req")],
   ser |-> Ser(ds, i),
   al |-> [k \in {"z", "zz"} |-> IF k \in DOMAIN al THEN a[al[k]] ELSE None],
   zn |-> IF "zn" \in DOMAIN ng THEN I(-5) ELSE None,
   \* writing through the alias z
   z |-> IF "z" \notin DOMAIN al \/ al["z"] \in SetOf(ds, i, "ro") THEN None
         ELSE IF P[al["z"]].t = "integer" THEN I(6) ELSE S("6"),
   \* p_1 and q_1 are converted to integers, bounded by 5 and 6
   pat |-> [k \in {"p", "q"} |-> k \in SetOf(ds, i, "pat")],
   subs |-> [j \in DOMAIN ds |-> Sub(ds, i, j)]]

Init == defs = <<>> /\ used = {} /\ act = [op |-> "init"]

Fresh(i) == i \notin used
Via(n) == IF n = 0 THEN {"python"} ELSE IF n = 1 THEN {"python", "extends"} ELSE {"python", "extends", "both"}
Define ==
  /\ Len(defs) < MaxClasses
  /\ LET n == Len(defs) + 1 IN
     \E b \in DOMAIN Bodies,
        bs \in {<<>>} \union {<<i>> : i \in DOMAIN defs}
               \union {<<i, j>> : i \in DOMAIN defs, j \in DOMAIN defs} :
       /\ Len(bs) = 2 => \* unrelated bases without a common base
            \A k \in DOMAIN defs : ~(Sub(defs, bs[1], k) /\ Sub(defs, bs[2], k))
       /\ \E via \in Via(Len(bs)), renamed \in BOOLEAN :
            /\ (n > 2 /\ n = MaxClasses) => bs # <<>>
            /\ 1 \in Range(bs) => \A k \in DOMAIN defs : ~defs[k].ren   \* its name is another's
            /\ renamed => n = 2 /\ bs = <<>>       \* the name of the first class again
            /\ defs' = Append(defs, [b |-> b, bs |-> bs, ren |-> renamed])
            /\ Sound(Append(defs, [b |-> b, bs |-> bs, ren |-> renamed]), n)
            /\ act' = [op |-> "def", n |-> n, body |-> Bodies[b], bs |-> bs, via |-> via, renamed |-> renamed, res |-> Ok(None)]
  /\ UNCHANGED used

Observe == \E i \in DOMAIN defs :
             /\ act' = [op |-> "obs", i |-> i, res |-> <<"ok", Obs(defs, i)>>]
             /\ used' = used \union {i}
             /\ UNCHANGED defs

Next == Define \/ Observe
Spec == Init /\ [][Next]_vars

St == [defs |-> defs, used |-> used]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* defining a class does not change what is observed of the others *)
OthersKeep == [][Len(defs') > Len(defs) => \A i \in DOMAIN defs :
                   LET o == Obs(defs, i) n == Obs(defs', i) IN \A f \in DOMAIN o \ {"subs"} : o[f] = n[f]]_vars
(* the properties of a class include those of its bases *)
Grows == \A i \in DOMAIN defs : \A k \in DOMAIN defs[i].bs : DOMAIN Props(defs, defs[i].bs[k]) \subseteq DOMAIN Props(defs, i)
=============================================================================
