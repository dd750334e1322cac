------------------------------ MODULE ObjNames ------------------------------
(* One value, many names.  Every storage slot of an object can be reached by *)
(* its declared name, its aliases, a negated alias (which negates), the      *)
(* identifier-safe translation of its name, and by dotted paths through      *)
(* child objects and arrays.  A write through any name is seen, once,        *)
(* through all the others and disturbs no other slot.                        *)
EXTENDS Values

VARIABLES obj, cfg, slot, act
vars == <<obj, cfg, slot, act>>

Slots == {"i", "xy", "kx", "ky", "l1", "l10", "m"}
Vals == {1, 2}
NoV == 99                       \* a deleted property
CONSTANT MaxOff                 \* bound on the number of slots away from 1

(* how a slot is reached: <<access, name, slot, negated, writable>> *)
Doors == {
  <<"attr", "i", "i", FALSE>>, <<"item", "i", "i", FALSE>>, <<"get", "i", "i", FALSE>>,
  <<"attr", "al", "i", FALSE>>, <<"item", "al", "i", FALSE>>, <<"get", "al", "i", FALSE>>,
  <<"attr", "ng", "i", TRUE>>, <<"item", "ng", "i", TRUE>>, <<"get", "ng", "i", TRUE>>,
  <<"attr", "x_y", "xy", FALSE>>, <<"item", "x-y", "xy", FALSE>>, <<"item", "x_y", "xy", FALSE>>,
  <<"get", "x-y", "xy", FALSE>>, <<"get", "x_y", "xy", FALSE>>,
  <<"chain", "k.x", "kx", FALSE>>, <<"item", "k.x", "kx", FALSE>>, <<"item", ".k.x", "kx", FALSE>>,
  <<"chain", "k.kk.y", "ky", FALSE>>, <<"item", "k.kk.y", "ky", FALSE>>, <<"from_k", "kk.y", "ky", FALSE>>,
  <<"from_k", "kk..kk.y", "ky", FALSE>>, <<"from_k", "kk..x", "kx", FALSE>>,
  <<"chain", "l[10].x", "l10", FALSE>>, <<"item", "l[10].x", "l10", FALSE>>,
  <<"chain", "l[1].x", "l1", FALSE>>, <<"item", "l[1].x", "l1", FALSE>>,
  <<"chain", "m[1][0].x", "m", FALSE>>, <<"item", "m[1][0].x", "m", FALSE>> }

(* the names through which a property can be deleted *)
Dels == { <<"attr", "i", "i", FALSE>>, <<"item", "i", "i", FALSE>>, <<"pop", "i", "i", FALSE>>,
          <<"attr", "al", "i", FALSE>>, <<"item", "al", "i", FALSE>>, <<"pop", "al", "i", FALSE>>,
          <<"attr", "ng", "i", TRUE>>, <<"item", "ng", "i", TRUE>>, <<"pop", "ng", "i", TRUE>>,
          <<"attr", "x_y", "xy", FALSE>>, <<"item", "x_y", "xy", FALSE>>, <<"item", "x-y", "xy", FALSE>>,
          <<"pop", "x-y", "xy", FALSE>>, <<"pop", "x_y", "xy", FALSE>>,
          <<"chain", "k.x", "kx", FALSE>>, <<"item", "k.x", "kx", FALSE>>, <<"pop", "k.x", "kx", FALSE>>,
          <<"chain", "k.kk.y", "ky", FALSE>>, <<"item", "k.kk.y", "ky", FALSE>>, <<"from_k", "kk.y", "ky", FALSE>>,
          <<"item", "l[10].x", "l10", FALSE>>, <<"pop", "m[1][0].x", "m", FALSE>> }

Neg(d, n) == IF d[4] THEN 0 - n ELSE n

Init == /\ obj = "none"
        /\ cfg \in [inherited : BOOLEAN, lazy : BOOLEAN]
        /\ slot = [s \in Slots |-> 1]
        /\ act = [op |-> "init"]

(* names usable as constructor keys *)
New == /\ obj = "none" /\ obj' = "live"
       /\ \E ni \in {"i", "al", "ng"}, nx \in {"x-y", "x_y"}, how \in {"dict", "kwargs"}, v \in Vals :
            /\ slot' = [slot EXCEPT !["i"] = IF ni = "ng" THEN 0 - v ELSE v, !["xy"] = v]
            /\ act' = [op |-> "new", cfg |-> cfg, ni |-> ni, nx |-> nx, how |-> how, v |-> v, res |-> Ok(None)]
       /\ UNCHANGED cfg

Get == /\ obj = "live"
       /\ \E d \in Doors :
            act' = [op |-> "get", door |-> d[1], name |-> d[2],
                    res |-> IF slot[d[3]] # NoV THEN Ok(I(Neg(d, slot[d[3]])))
                            ELSE IF d[1] = "get" THEN Ok(None) ELSE Err("absent")]
       /\ UNCHANGED <<obj, cfg, slot>>

Set == /\ obj = "live"
       /\ \E d \in Doors, v \in Vals :
            /\ d[1] # "get"
            /\ slot' = [slot EXCEPT ![d[3]] = Neg(d, v)]
            /\ act' = [op |-> "set", door |-> d[1], name |-> d[2], v |-> v, res |-> Ok(None)]
       /\ UNCHANGED <<obj, cfg>>

(* a child replaced as a whole *)
SetChild == /\ obj = "live"
            /\ \E v \in Vals, door \in {"attr", "item"} :
                 /\ slot' = [slot EXCEPT !["kx"] = v, !["ky"] = v]
                 /\ act' = [op |-> "setk", door |-> door, v |-> v, res |-> Ok(None)]
            /\ UNCHANGED <<obj, cfg>>

Delete == /\ obj = "live"
          /\ \E d \in Dels :
               /\ slot[d[3]] # NoV
               /\ slot' = [slot EXCEPT ![d[3]] = NoV]
               /\ act' = [op |-> "del", door |-> d[1], name |-> d[2],
                          res |-> Ok(IF d[1] = "pop" THEN I(Neg(d, slot[d[3]])) ELSE None)]
          /\ UNCHANGED <<obj, cfg>>

Present(n) == CASE n \in {"i", "al", "ng"} -> slot["i"] # NoV
                [] n \in {"x-y", "x_y"} -> slot["xy"] # NoV
                [] n = "k.x" -> slot["kx"] # NoV
                [] n = "nope" -> FALSE
                [] OTHER -> TRUE

Contains == /\ obj = "live"
            /\ \E n \in {"i", "al", "ng", "x-y", "x_y", "k", "nope", "k.x"} :
                 act' = [op |-> "in", name |-> n, res |-> Ok(B(Present(n)))]
            /\ UNCHANGED <<obj, cfg, slot>>

Next == New \/ Get \/ Set \/ SetChild \/ Contains \/ Delete
Spec == Init /\ [][Next]_vars

St == [obj |-> obj, cfg |-> cfg, slot |-> slot]
View == St
Few == Cardinality({x \in Slots : slot[x] # 1}) <= MaxOff
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* a write through a name of one slot changes that slot only, and what is then
   read through a name equals what was written through it *)
OneSlot == [][act'.op \in {"set", "del"} =>
               \E s \in Slots : \A o \in Slots \ {s} : slot'[o] = slot[o]]_vars
ReadBack == [][act'.op = "set" =>
               \E d \in Doors : d[1] = act'.door /\ d[2] = act'.name /\ Neg(d, slot'[d[3]]) = act'.v]_vars
NegationAgrees == \A d, e \in Doors : d[3] = e[3] /\ d[4] # e[4] /\ slot[d[3]] # NoV => Neg(d, slot[d[3]]) = 0 - Neg(e, slot[e[3]])
=============================================================================
