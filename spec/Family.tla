------------------------------- MODULE Family -------------------------------
(* Parents, roots, canonical names and their resolution.                      *)
(* Nodes are objects: named instances ("I", with a child k, an array of        *)
(* children ks and a plain child p) and plain objects ("P", with a child k).   *)
(* Objects may be built from literals or given as existing objects; an         *)
(* existing object keeps its identity and belongs to the object in which it is *)
(* placed, unless another one still holds it.                                  *)
EXTENDS Values, FiniteSets

CONSTANTS MaxN, Names, Lazy, Der, MaxKs
VARIABLES lazy,
          der,   \* the names are derived from another property
         
          nd,     \* sequence of nodes [t, name, par, k, ks, p]
          act
vars == <<lazy, der, nd, act>>

None0 == 0
Node(t, name, par) == [t |-> t, name |-> name, par |-> par, k |-> 0, ks |-> <<>>, p |-> 0]
N == DOMAIN nd
Kids(w, i) == {w[i].k, w[i].p} \union Range(w[i].ks)
Holds(w, i) == (Kids(w, i) \ {0})
RECURSIVE Below(_, _), Above(_, _)
Below(w, i) == {i} \union UNION {Below(w, j) : j \in Holds(w, i)}
Above(w, i) == {i} \union (IF w[i].par = 0 THEN {} ELSE Above(w, w[i].par))

(* o, which now holds x, adopts it *)
Adopt(w, o, x) == IF w[x].par # 0 /\ x \in Holds(w, w[x].par) THEN w
                  ELSE IF x \in Above(w, o) THEN w
                  ELSE [w EXCEPT ![x].par = o]
RECURSIVE AdoptAll(_, _, _)
AdoptAll(w, o, xs) == IF xs = <<>> THEN w ELSE AdoptAll(Adopt(w, o, Head(xs)), o, Tail(xs))
CanHold(o, x) == o \notin Below(nd, x) /\ x \notin Above(nd, o)

(* an object that does not hold anything it would adopt from: reading order does not matter *)
Room(m) == Len(nd) + m <= MaxN
Is(i, t) == nd[i].t = t
Ins == {i \in N : nd[i].t = "I"}
Pla == {i \in N : nd[i].t = "P"}

Attached(w, i) == \A j \in Above(w, i) : w[j].par = 0 \/ j \in Holds(w, w[j].par)
RECURSIVE PI(_, _), CN(_, _), Root(_, _)
PI(w, i) == LET q == w[i].par IN IF q = 0 \/ w[q].t = "I" THEN q ELSE PI(w, q)
CN(w, i) == LET q == PI(w, i) IN IF q = 0 THEN w[i].name ELSE CN(w, q) \o "." \o w[i].name
Root(w, i) == IF w[i].par = 0 THEN i ELSE Root(w, w[i].par)

(* instances reached from i by a path of names *)
IKids(w, i) == {j \in {w[i].k} \union Range(w[i].ks) : j # 0}
RECURSIVE Reach(_, _, _)
Reach(w, i, d) ==   \* set of [path, id]
  UNION {{[path |-> w[j].name, id |-> j]}
         \union (IF d = 0 THEN {} ELSE {[path |-> w[j].name \o "." \o e.path, id |-> e.id] : e \in Reach(w, j, d - 1)})
         : j \in IKids(w, i)}
Reached(w, i) == LET r == Reach(w, i, 3) IN
  [set |-> {[path |-> q, ids |-> [set |-> {e.id : e \in {e \in r : e.path = q}}]] : q \in {e.path : e \in r}}]
Missing(w, i) == [set |-> {n \in Names : \A j \in Below(w, i) \ {i} : w[j].t = "I" /\ w[j].name # n}]

Init == lazy \in Lazy /\ der \in Der /\ nd = <<>> /\ act = [op |-> "init"]

(* everything that can be seen afterwards *)
LookRes(w) == [i \in DOMAIN w |->
   [kids |-> <<w[i].k, w[i].ks, w[i].p>>, att |-> Attached(w, i)]
   @@ (IF Attached(w, i) THEN [par |-> w[i].par, root |-> Root(w, i)] ELSE <<>>)
   @@ (IF w[i].t # "I" THEN <<>>
       ELSE [reach |-> Reached(w, i), missing |-> Missing(w, i)]
            @@ (IF Attached(w, i) THEN [pi |-> PI(w, i), cn |-> CN(w, i)] ELSE <<>>))]
(* which one of several holders an object belongs to once its parent drops it is left open *)
Clear(w) == \A x \in DOMAIN w : (w[x].par # 0 /\ x \notin Holds(w, w[x].par)) =>
               \A j \in DOMAIN w : x \notin Holds(w, j)
Do(a, w) == Clear(w) /\ act' = a /\ nd' = w /\ UNCHANGED <<lazy, der>>
R(op) == [op |-> op, lazy |-> lazy, der |-> der]

New == /\ Room(1)
       /\ \/ \E n \in Names : Do(R("new") @@ [t |-> "I", name |-> n], Append(nd, Node("I", n, 0)))
          \/ Do(R("new") @@ [t |-> "P", name |-> ""], Append(nd, Node("P", "", 0)))
(* a whole tree at once: an instance with a child in k and one in ks *)
NewTree == /\ Room(3)
           /\ \E a, b, c \in Names :
                LET i == Len(nd) + 1 IN
                Do(R("newtree") @@ [names |-> <<a, b, c>>],
                   nd \o <<[Node("I", a, 0) EXCEPT !.k = i + 1, !.ks = <<i + 2>>], Node("I", b, i), Node("I", c, i)>>)
(* literals *)
DictK == /\ Room(1)
         /\ \E o \in N, n \in Names, door \in {"attr", "item"} :
              Do(R("dictk") @@ [o |-> o, name |-> n, door |-> door],
                 Append([nd EXCEPT ![o].k = Len(nd) + 1], Node("I", n, o)))
DictKs == /\ Room(2)
          /\ \E o \in Ins, n, m \in Names :
               Do(R("dictks") @@ [o |-> o, names |-> <<n, m>>],
                  [nd EXCEPT ![o].k = Len(nd) + 1]
                  \o <<[Node("I", n, o) EXCEPT !.ks = <<Len(nd) + 2>>], Node("I", m, Len(nd) + 1)>>)
DictP == /\ Room(2)
         /\ \E o \in Ins, n \in Names :
              Do(R("dictp") @@ [o |-> o, name |-> n],
                 [nd EXCEPT ![o].p = Len(nd) + 1]
                 \o <<[Node("P", "", o) EXCEPT !.k = Len(nd) + 2], Node("I", n, Len(nd) + 1)>>)
AppDict == /\ Room(1)
           /\ \E o \in Ins, n \in Names : Len(nd[o].ks) < MaxKs
              /\ Do(R("appdict") @@ [o |-> o, name |-> n],
                 Append([nd EXCEPT ![o].ks = Append(@, Len(nd) + 1)], Node("I", n, o)))
(* existing objects *)
ObjK == \E o \in N, x \in Ins : CanHold(o, x)
          /\ Do(R("objk") @@ [o |-> o, x |-> x], Adopt([nd EXCEPT ![o].k = x], o, x))
ObjP == \E o \in Ins, x \in Pla : CanHold(o, x)
          /\ Do(R("objp") @@ [o |-> o, x |-> x], Adopt([nd EXCEPT ![o].p = x], o, x))
App == \E o, x \in Ins, pos \in {"append", "front"} :
          /\ Len(nd[o].ks) < MaxKs /\ CanHold(o, x)
          /\ (pos = "front" => nd[o].ks # <<>>)
          /\ Do(R("app") @@ [o |-> o, x |-> x, pos |-> pos],
                Adopt([nd EXCEPT ![o].ks = IF pos = "front" THEN <<x>> \o @ ELSE Append(@, x)], o, x))
SetKs == \E o, x \in Ins : CanHold(o, x)
          /\ Do(R("setks") @@ [o |-> o, x |-> x], Adopt([nd EXCEPT ![o].ks = <<x>>], o, x))
SetItem == \E o, x \in Ins : \E i \in DOMAIN nd[o].ks : CanHold(o, x)
          /\ Do(R("setitem") @@ [o |-> o, x |-> x, i |-> i - 1], Adopt([nd EXCEPT ![o].ks[i] = x], o, x))
(* an instance built around an existing one *)
Around == /\ Room(1)
          /\ \E x \in Ins, n \in Names, slot \in {"k", "ks"} :
               LET i == Len(nd) + 1 IN
               Do(R("around") @@ [x |-> x, name |-> n, slot |-> slot],
                  Adopt(Append(nd, IF slot = "k" THEN [Node("I", n, 0) EXCEPT !.k = x]
                                   ELSE [Node("I", n, 0) EXCEPT !.ks = <<x>>]), i, x))
DelK == \E o \in N : nd[o].k # 0 /\ Do(R("delk") @@ [o |-> o], [nd EXCEPT ![o].k = 0])
Pop == \E o \in Ins : nd[o].ks # <<>> /\ Do(R("pop") @@ [o |-> o], [nd EXCEPT ![o].ks = Tail(@)])
Rename == \E i \in Ins, n \in Names : n # nd[i].name
            /\ Do(R("rename") @@ [i |-> i, name |-> n], [nd EXCEPT ![i].name = n])
Copy == /\ Room(1)
        /\ \E i \in Ins : nd[i].par = 0
             /\ Do(R("copy") @@ [i |-> i], Append(nd, [nd[i] EXCEPT !.par = 0]))

Next == New \/ NewTree \/ DictK \/ DictKs \/ DictP \/ AppDict \/ ObjK \/ ObjP \/ App \/ SetKs \/ SetItem
        \/ Around \/ DelK \/ Pop \/ Rename \/ Copy
Spec == Init /\ [][Next]_vars

(* what is held by an attached object is attached, and above what holds it *)
Acyclic == \A i \in N : i \notin UNION {Below(nd, j) : j \in Holds(nd, i)}
HeldHasParent == \A i \in N : \A j \in Holds(nd, i) : nd[j].par # 0
OneTree == \A i \in N : (Attached(nd, i) /\ nd[i].par # 0) => Attached(nd, nd[i].par) /\ Root(nd, i) = Root(nd, nd[i].par)
NameIsPath == \A i \in Ins : (Attached(nd, i) /\ PI(nd, i) # 0) =>
                CN(nd, i) = CN(nd, PI(nd, i)) \o "." \o nd[i].name

St == [lazy |-> lazy, der |-> der, nd |-> nd]
View == St
Final(h) == [h EXCEPT !.a = @ @@ [res |-> <<"ok", LookRes(h.t.nd)>>]]
EmitT == PrintT(ToJson([s |-> St] @@ Final([a |-> act', t |-> St'])))
=============================================================================
