------------------------------ MODULE ObjShape ------------------------------
(* The shape a schema declares is enforced at every door: constructor,       *)
(* attribute, item and mapping interfaces.  Slots:                           *)
(*   r   required integer            d  integer with default 4               *)
(*   ro  read-only, default 7        o  optional integer, no default         *)
(*   p_1 matches a pattern property (integer <= 5), if there is one (pat)    *)
(*   zz  additional property: allowed / forbidden / typed (integer <= 5)     *)
EXTENDS Values

VARIABLES obj, cfg, val, act
vars == <<obj, cfg, val, act>>

Slots == {"r", "d", "ro", "o", "p_1", "zz"}
Declared == {"r", "d", "ro", "o"}
Absent == <<"absent">>
Vals(s) == CASE s \in {"r", "d"} -> {I(1), S("x")}
             [] s \in {"ro", "o"} -> {S("2")}
             [] s = "p_1" -> {I(1), I(9)}
             [] s = "zz" -> {S("2"), S("x")}

Typed(s) == (s = "p_1" /\ cfg.pat) \/ (s \in {"p_1", "zz"} /\ cfg.add = "int")
Allowed(s) == s \in Declared \/ (s = "p_1" /\ cfg.pat) \/ cfg.add # "false"
(* value as it reads, from the raw value *)
Eval(s, v) ==
  IF v = None THEN Ok(None)
  ELSE IF s \notin Declared /\ ~Typed(s) THEN Ok(v)
  ELSE LET w == ConvInt(v) IN
       IF ~IsOk(w) THEN w
       ELSE IF s \notin Declared /\ w[2][2] > 5 THEN Err("invalid") ELSE w

Present == {s \in Slots : val[s] # Absent}

ReadAttr(s) == IF val[s] # Absent THEN Eval(s, val[s])
               ELSE IF s \in Declared THEN Err("absent")
               ELSE IF cfg.add = "false" THEN Err("AttributeError") ELSE Ok(None)
ReadItem(s) == IF val[s] # Absent THEN Eval(s, val[s]) ELSE Err("KeyError")
ReadGet(s) == IF val[s] = Absent THEN Ok(S("dflt"))
              ELSE LET w == Eval(s, val[s]) IN IF w = Ok(None) THEN Ok(S("dflt")) ELSE w

Init == /\ obj = "none"
        \* the declarations are the class's own, or those of its base, of the second of
        \* its bases, of the base of its base, of a schema it extends
        /\ cfg \in {c \in [add : {"true", "false", "int"}, lazy : BOOLEAN, pat : BOOLEAN,
                           from : {"own", "base", "second", "grand", "extends"}] :
                     \/ c.from = "own" /\ (c.add = "false" \/ c.lazy # c.pat)
                     \/ c.add = "false" /\ c.pat /\ c.lazy = (c.from \in {"base", "extends"})
                     \/ c.add = "int" /\ c.from = "second" /\ c.pat
                     \/ c.add = "true" /\ c.from = "grand" /\ ~c.pat}
        /\ val = [s \in Slots |-> Absent]
        /\ act = [op |-> "init"]

New == /\ obj = "none"
       /\ \E extra \in {"-", "d", "ro", "o", "p_1", "zz"}, v \in {I(1), S("2"), S("x"), I(9)} :
            LET w == [[s \in Slots |-> IF s = "r" THEN I(1) ELSE IF s = "d" THEN I(4) ELSE IF s = "ro" THEN I(7)
                                       ELSE IF s = "o" THEN None ELSE Absent]
                      EXCEPT ![IF extra = "-" THEN "r" ELSE extra] = IF extra = "-" THEN I(1) ELSE v]
                ok == /\ (extra # "-" => Allowed(extra))
                      /\ (cfg.lazy \/ extra = "-" \/ IsOk(Eval(extra, v)))
            IN /\ \* a lazy object given an invalid value: when it is noticed is left open
                  (cfg.lazy /\ extra # "-" => IsOk(Eval(extra, v)))
               /\ IF extra = "-" THEN v = I(1) ELSE v \in Vals(extra)
               /\ act' = [op |-> "new", cfg |-> cfg, extra |-> extra, v |-> v,
                          res |-> IF ok THEN Ok(None) ELSE Err("reject")]
               /\ IF ok THEN obj' = "live" /\ val' = w ELSE UNCHANGED <<obj, val>>
       /\ UNCHANGED cfg

Get == /\ obj = "live"
       /\ \E s \in Slots, door \in {"attr", "item", "get"} :
            act' = [op |-> "get", door |-> door, s |-> s,
                    res |-> CASE door = "attr" -> ReadAttr(s)
                              [] door = "item" -> ReadItem(s)
                              [] door = "get" -> ReadGet(s)]
       /\ UNCHANGED <<obj, cfg, val>>

Set == /\ obj = "live"
       /\ \E s \in Slots, v \in {I(1), S("2"), S("x"), I(9)}, door \in {"attr", "item", "update"} :
            LET res == IF s = "ro" THEN Err("AttributeError")
                       ELSE IF ~Allowed(s) THEN Err(IF door = "attr" THEN "AttributeError" ELSE "KeyError")
                       ELSE IF cfg.lazy \/ IsOk(Eval(s, v)) THEN Ok(None) ELSE Err("invalid")
            IN /\ v \in Vals(s)
               /\ act' = [op |-> "set", door |-> door, s |-> s, v |-> v, res |-> res]
               /\ val' = IF s = "ro" \/ ~Allowed(s) THEN val ELSE [val EXCEPT ![s] = v]
       /\ UNCHANGED <<obj, cfg>>

(* deletion; of a read-only property: left open, not explored *)
Del == /\ obj = "live"
       /\ \E s \in Slots \ {"ro"}, door \in {"attr", "item"} :
            /\ (door = "attr" => s \in Declared)
            /\ LET ok == s # "r" /\ val[s] # Absent IN
               /\ act' = [op |-> "del", door |-> door, s |-> s,
                          res |-> IF s = "r" THEN Err("AttributeError")
                                  ELSE IF ok THEN Ok(None) ELSE Err("absent")]
               /\ val' = IF ok THEN [val EXCEPT ![s] = Absent] ELSE val
       /\ UNCHANGED <<obj, cfg>>

In == /\ obj = "live"
      /\ \E s \in Slots :
           act' = [op |-> "in", s |-> s,
                   res |-> IF val[s] = Absent THEN Ok(B(FALSE))
                           ELSE IF IsErr(Eval(s, val[s])) THEN Open ELSE Ok(B(TRUE))]
      /\ UNCHANGED <<obj, cfg, val>>

Keys == /\ obj = "live"
        /\ act' = [op |-> "keys", res |-> <<"ok", Present, Cardinality(Present)>>]
        /\ UNCHANGED <<obj, cfg, val>>

Next == New \/ Get \/ Set \/ Del \/ In \/ Keys
Spec == Init /\ [][Next]_vars

St == [obj |-> obj, cfg |-> cfg, val |-> val]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

RequiredStays == obj = "live" => val["r"] # Absent
ReadOnlyStays == [][obj = "live" => val'["ro"] = val["ro"]]_vars
NothingForbidden == obj = "live" /\ cfg.add = "false" => val["zz"] = Absent
BoundedVals == \A s \in {"p_1", "zz"} : act.op = "get" /\ act.s = s /\ IsOk(act.res) /\ act.res[2][1] = "i"
                  /\ act.door = "item" /\ Typed(s) => act.res[2][2] <= 5
=============================================================================
