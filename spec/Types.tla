-------------------------------- MODULE Types --------------------------------
(* Loading types from definitions which refer to each other.                  *)
(* A world is a network of definitions, in one or two documents; one of them   *)
(* may be missing until the document is completed. Types are loaded one by one *)
(* in any order, and used.                                                     *)
EXTENDS Values

CONSTANTS Depth, Picked
VARIABLES world,   \* 0, or the number of the world
          rw,      \* a random world (99)
          lazy, complete, loaded,
          part,    \* <<>>, or the definition and the field of it whose own type was loaded
          act
vars == <<world, rw, lazy, complete, loaded, part, act>>

(* a definition: kind, what it extends or is an alias of, fields (step -> target) *)
Def(k, to, f) == [k |-> k, to |-> to, f |-> f]
Obj(f) == Def("obj", "", f)
Ext(b, f) == Def("obj", b, f)
Sub(b, f) == Def("sub", b, f)
Alias(b) == Def("alias", b, <<>>)
Arr(b) == Def("arr", b, <<>>)
Whole == Def("int", "", <<>>)
Low(b) == Def("low", b, <<>>)    \* reference to an integer, with a maximum
None0 == <<>>

Worlds == <<
  \* itself, through every kind of field
  "A" :> Obj("r" :> "A" @@ "a" :> "A") @@ "B" :> Obj("i" :> "B" @@ "p" :> "B") @@ "C" :> Obj("m" :> "C"),
  \* rings
  "A" :> Obj("r" :> "B") @@ "B" :> Obj("a" :> "C") @@ "C" :> Obj("i" :> "A" @@ "r" :> "B"),
  \* a base which refers to what extends it
  "A" :> Obj("r" :> "B" @@ "a" :> "C") @@ "B" :> Ext("A", None0) @@ "C" :> Ext("B", "i" :> "A"),
  "A" :> Obj("a" :> "B") @@ "B" :> Ext("A", "a" :> "A" @@ "r" :> "C") @@ "C" :> Obj("r" :> "A"),
  \* aliases
  "A" :> Obj("r" :> "B" @@ "a" :> "C") @@ "B" :> Alias("A") @@ "C" :> Alias("B"),
  "A" :> Obj("m" :> "B") @@ "B" :> Alias("C") @@ "C" :> Obj("p" :> "B" @@ "r" :> "A"),
  \* references with more keywords
  "A" :> Obj("r" :> "B") @@ "B" :> Sub("A", "a" :> "A") @@ "C" :> Obj("r" :> "B" @@ "i" :> "A"),
  "A" :> Sub("B", "r" :> "C") @@ "B" :> Obj("i" :> "A") @@ "C" :> Ext("A", None0),
  \* arrays and scalars
  "A" :> Obj("r" :> "L" @@ "a" :> "L") @@ "L" :> Arr("A") @@ "I" :> Whole,
  "A" :> Obj("r" :> "I" @@ "a" :> "J" @@ "p" :> "J") @@ "I" :> Whole @@ "J" :> Low("I"),
  "A" :> Obj("m" :> "J" @@ "r" :> "L") @@ "L" :> Arr("J") @@ "I" :> Whole @@ "J" :> Low("I"),
  "L" :> Arr("M") @@ "M" :> Arr("A") @@ "A" :> Obj("r" :> "L"),
  \* two bases deep, fields redefined on the way
  "A" :> Obj("r" :> "A") @@ "B" :> Ext("A", "r" :> "B") @@ "C" :> Ext("B", "r" :> "A" @@ "i" :> "C"),
  \* a definition inside another one
  "A" :> Obj("r" :> "A.B") @@ "A.B" :> Obj("a" :> "A" @@ "i" :> "A.B") @@ "C" :> Ext("A.B", "r" :> "A"),
  "A" :> Obj("a" :> "A.B") @@ "A.B" :> Ext("A", "i" :> "C") @@ "C" :> Alias("A.B"),
  \* one of them is a neighbour named alike
  "A" :> Obj("r" :> "AA") @@ "AA" :> Ext("a", "a" :> "A") @@ "a" :> Obj("m" :> "AA")
>>
W == IF world = 99 THEN rw.defs ELSE Worlds[world]
Names == DOMAIN W
(* the one which may be missing: the last named by others *)
Missing(w) == CASE w = 99 -> rw.missing [] w \in {3, 7} -> "C" [] w \in {9, 10, 11} -> "I" [] w = 12 -> "A" [] w = 14 -> "C" [] w = 16 -> "a" [] OTHER -> "B"
(* in the second document *)
Second(w) == CASE w = 99 -> rw.second [] w \in {2, 5} -> {"B"} [] w \in {3, 6, 13} -> {"C"} [] w = 4 -> {"A"} [] w = 10 -> {"I"} [] w = 12 -> {"M"} [] OTHER -> {}

Direct(d) == {W[d].f[s] : s \in DOMAIN W[d].f} \union (IF W[d].to = "" THEN {} ELSE {W[d].to})
                \union (IF d = "A" /\ "A.B" \in Names THEN {"A.B"} ELSE {})
RECURSIVE Closure(_)
Closure(D) == LET N == D \union UNION {Direct(d) : d \in D} IN IF N = D THEN D ELSE Closure(N)
Reach(d) == Closure({d})
CanBuild(d) == complete \/ Missing(world) \notin Reach(d)

RECURSIVE Res(_)
Res(d) == IF W[d].k = "alias" THEN Res(W[d].to) ELSE d
IsObj(d) == W[Res(d)].k \in {"obj", "sub"}
(* the definitions an object one extends, itself first *)
RECURSIVE Line(_)
Line(d) == LET r == Res(d) IN IF W[r].to = "" THEN <<r>> ELSE <<r>> \o Line(W[r].to)
Steps(d) == IF IsObj(d) THEN UNION {DOMAIN W[Line(d)[i]].f : i \in DOMAIN Line(d)} \ (IF W[Res(d)].to # "" THEN {"m"} ELSE {})
            ELSE IF W[Res(d)].k = "arr" THEN {"n"} ELSE {}
Target(d, s) == IF s = "n" THEN W[Res(d)].to
                ELSE LET l == Line(d)
                         i == CHOOSE i \in DOMAIN l : s \in DOMAIN W[l[i]].f /\ \A j \in DOMAIN l : j < i => s \notin DOMAIN W[l[j]].f
                     IN W[l[i]].f[s]

RECURSIVE PathsOf(_, _)
PathsOf(d, n) == {<<>>} \union (IF n = 0 THEN {} ELSE UNION {{<<s>> \o q : q \in PathsOf(Target(d, s), n - 1)} : s \in Steps(d)})
RECURSIVE EndOf(_, _)
EndOf(d, path) == IF path = <<>> THEN Res(d) ELSE EndOf(Target(d, Head(path)), Tail(path))
(* what is on the way: the definition of each value *)
RECURSIVE Along(_, _)
Along(d, path) == <<Res(d)>> \o (IF path = <<>> THEN <<>> ELSE Along(Target(d, Head(path)), Tail(path)))

(* what the last value is: right, or wrong *)
Ends(e) == IF IsObj(e) THEN {<<"ok", "">>} \union {<<"bad", Line(e)[i]>> : i \in DOMAIN Line(e)}
                            \union (IF "m" \in Steps(e) THEN {} ELSE {<<"alien", "">>})
           ELSE CASE W[e].k = "int" -> {<<"ok", "3">>, <<"bad", "1">>, <<"bad", "x">>, <<"ok", "6">>}
                  [] W[e].k = "low" -> {<<"ok", "3">>, <<"bad", "1">>, <<"bad", "x">>, <<"bad", "6">>}
                  [] OTHER -> {<<"ok", "">>}

Init == world = 0 /\ rw = <<>> /\ lazy = FALSE /\ complete = TRUE /\ loaded = {} /\ part = <<>> /\ act = [op |-> "init"]
(* a world at random: names are aliases, extensions or arrays of later ones, fields have any target *)
Rn == <<"A", "b", "C", "AA">>
R(T) == RandomElement(T)
RandField(n) == [s \in {s \in {"r", "a", "i", "p", "m"} : R(1..100) <= n} |-> R(Range(Rn))]
RECURSIVE RandDefs(_, _)
(* from the last one *)
RandDefs(n, ds) ==
  IF n = 0 THEN ds
  ELSE LET later == DOMAIN ds
           k == R(1..10)
           t == IF later = {} THEN "" ELSE R(later)
           kt == IF t = "" THEN "" ELSE ds[t].res
           d == CASE t # "" /\ k <= 3 /\ kt = "obj" -> [k |-> "obj", to |-> t, f |-> RandField(30), res |-> "obj"]
                  [] t # "" /\ k = 4 /\ kt = "obj" -> [k |-> "sub", to |-> t, f |-> RandField(30), res |-> "obj"]
                  [] t # "" /\ k = 5 -> [k |-> "alias", to |-> t, f |-> <<>>, res |-> kt]
                  [] t # "" /\ k = 6 -> [k |-> "arr", to |-> t, f |-> <<>>, res |-> "arr"]
                  [] t # "" /\ k <= 8 /\ kt = "int" -> [k |-> "low", to |-> t, f |-> <<>>, res |-> "low"]
                  [] k = 9 -> [k |-> "int", to |-> "", f |-> <<>>, res |-> "int"]
                  [] OTHER -> [k |-> "obj", to |-> "", f |-> RandField(30), res |-> "obj"]
       IN RandDefs(n - 1, (Rn[n] :> d) @@ ds)
(* additional properties are not inherited: no field m in what is extended or extends *)
NoMap(ds) == [n \in DOMAIN ds |-> [ds[n] EXCEPT !.f = IF ds[n].to # "" \/ \E e \in DOMAIN ds : ds[e].to # "" /\ ds[e].k \in {"obj", "sub"}
                                                     THEN [s \in DOMAIN ds[n].f \ {"m"} |-> ds[n].f[s]] ELSE ds[n].f]]
RandWorld == LET ds == NoMap(RandDefs(4, <<>>)) IN
             [defs |-> ds, missing |-> R(DOMAIN ds), second |-> {n \in DOMAIN ds : R(1..4) = 1}]

DefsOf(w) == {<<n, w[n].k, w[n].to, [set |-> {<<s, w[n].f[s]>> : s \in DOMAIN w[n].f}]>> : n \in DOMAIN w}
Pick == /\ world = 0
        /\ \E w \in Picked, z \in BOOLEAN, c \in BOOLEAN :
             /\ world' = w /\ lazy' = z /\ complete' = c
             /\ rw' = IF w = 99 THEN RandWorld ELSE <<>>
             /\ act' = [op |-> "world", lazy |-> z, defs |-> [set |-> DefsOf(W')],
                        missing |-> IF c THEN "" ELSE Missing(w)', second |-> [set |-> Second(w)'], res |-> Ok(None)]
        /\ UNCHANGED <<loaded, part>>
Complete == /\ world # 0 /\ ~complete
            /\ complete' = TRUE
            /\ act' = [op |-> "complete", res |-> Ok(None)]
            /\ UNCHANGED <<world, rw, lazy, loaded, part>>
Built == Closure(loaded \union (IF part = <<>> THEN {} ELSE {W[part[1]].f[part[2]]}))
Load == /\ world # 0
        /\ \E d \in Names, door \in {"uri", "name", "class", "build"} :
             /\ d # Missing(world) \/ complete
             /\ door = "class" => W[d].k = "obj" /\ d \notin Built /\ ~(part # <<>> /\ part[1] = d)    \* a statement redefines what was built before it
             /\ IF CanBuild(d)
                THEN /\ loaded' = loaded \union {d}
                     /\ act' = [op |-> "load", d |-> d, door |-> door,
                                res |-> <<"ok", [is |-> Res(d),
                                   bases |-> [set |-> {Res(e) : e \in {e \in loaded : Res(e) \in {Line(d)[i] : i \in DOMAIN Line(d)} /\ IsObj(d)}}]]>>]
                ELSE /\ loaded' = loaded
                     /\ act' = [op |-> "load", d |-> d, door |-> door, res |-> Err("refused")]
        /\ UNCHANGED <<world, rw, lazy, complete, part>>
(* the type of a field by its own uri: it is the one that the objects have, whichever is loaded first *)
Part == /\ world # 0 /\ part = <<>>
        /\ \E d \in Names : \E s \in DOMAIN W[d].f :
             /\ d # Missing(world) \/ complete
             /\ LET x == W[d].f[s] IN
                IF CanBuild(x)
                THEN /\ part' = <<d, s>>
                     /\ act' = [op |-> "part", d |-> d, s |-> s, res |-> <<"ok", IF s \in {"i", "a"} THEN "own" ELSE Res(x)>>]
                ELSE /\ part' = <<>>
                     /\ act' = [op |-> "part", d |-> d, s |-> s, res |-> Err("refused")]
        /\ UNCHANGED <<world, rw, lazy, complete, loaded>>
(* every value of a small depth which can be made of a type *)
Use == /\ world # 0
       /\ \E d \in loaded :
            act' = [op |-> "use", d |-> d,
                    res |-> <<"ok", [set |-> UNION {{<<q, e, Along(d, q),
                                              LET l == Along(d, q) IN [i \in DOMAIN l |-> IF IsObj(l[i]) THEN Line(l[i]) ELSE <<>>]>> :
                                              e \in Ends(EndOf(d, q))} : q \in PathsOf(d, Depth)}]>>]
       /\ UNCHANGED <<world, rw, lazy, complete, loaded, part>>
Next == Pick \/ Complete \/ Load \/ Part \/ Use
Spec == Init /\ [][Next]_vars

LoadedOk == world # 0 => \A d \in loaded : CanBuild(d)

St == [world |-> world, rw |-> IF world = 99 THEN [set |-> DefsOf(rw.defs)] ELSE <<>>, lazy |-> lazy, complete |-> complete, loaded |-> [set |-> loaded], part |-> part]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
=============================================================================
