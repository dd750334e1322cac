----------------------------- MODULE ObjDerived -----------------------------
(* One object whose properties are given literally or derived from other     *)
(* properties by an expression, a template or a getter method.               *)
(*                                                                           *)
(* The abstract state is what the user assigned (raw).  A read is a pure     *)
(* function of raw: this is the property (no cache of the implementation is   *)
(* ever observable).  The variable seen is the set of properties whose last  *)
(* read is still current; the code keeps such values in a cache, so that     *)
(* exploring seen makes TLC enumerate every cache situation.                 *)
EXTENDS Values

CONSTANTS MaxSeen       \* bound on |seen| (state constraint)

VARIABLES obj,    \* "none" | "live"
          cfg,    \* [cls |-> index of Classes, lazy |-> BOOLEAN]
          raw,    \* property -> raw value
          seen,
          act     \* the last action with its result (hidden from VIEW)

vars == <<obj, cfg, raw, seen, act>>

(* Expressions: <<"x", form, args...>>
     inc p k    `int(p)+k        add p q   `int(p)+int(q)
     tpl p      {{p}}            dup p q   {{p}}-{{q}}     this p  `int(this.p)+0 *)
Inc(p, k) == <<"x", "inc", p, k>>
Add(p, q) == <<"x", "add", p, q>>
Tpl(p) == <<"x", "tpl", p>>
Dup(p, q) == <<"x", "dup", p, q>>

IntT(lo, hi) == [t |-> "integer", lo |-> lo, hi |-> hi]
StrT(mx) == [t |-> "string", lo |-> 0, hi |-> mx]

P(type, dflt, vals) == [type |-> type, dflt |-> dflt, vals |-> vals, get |-> <<>>]
G(type, expr) == [type |-> type, dflt |-> None, vals |-> {}, get |-> expr]

AVals == {I(0), I(1), S("2"), S("x"), I(7)}

Classes == <<
  \* a chain of expressions and templates
  [props |-> [a |-> P(IntT(0, 5), None, AVals),
              b |-> P(IntT(0, 3), Inc("a", 2), {I(3), I(9), Inc("a", 1)}),
              c |-> P(StrT(9), Tpl("b"), {S("z"), Tpl("a")}),
              d |-> P(IntT(0, 9), Add("a", "b"), {})],
   init |-> {"a"}],
  \* a derived property between two others, names that are prefixes of each other
  [props |-> [n  |-> P(IntT(0, 5), I(1), {I(0), I(4), S("x")}),
              n1 |-> P(IntT(0, 5), I(2), {I(0), S("5")}),
              t  |-> P(StrT(12), Dup("n", "n1"), {S("q"), S("much-too-long-text")}),
              u  |-> P(IntT(0, 8), Add("n1", "n"), {Inc("n", 0)})],
   init |-> {}],
  \* an input inside a child object
  [props |-> [k_x |-> P(IntT(0, 5), I(1), {I(0), I(3), S("4"), I(6)}),
              m |-> P(IntT(0, 6), Inc("k_x", 1), {I(2)}),
              s |-> P(StrT(9), Tpl("k_x"), {S("v")}),
              w |-> P(StrT(9), Tpl("m"), {})],
   init |-> {}],
  \* getters with declared dependencies
  [props |-> [a |-> P(IntT(0, 5), I(1), {I(0), I(2), S("3"), S("x")}),
              g |-> G(IntT(0, 9), Inc("a", 3)),
              h |-> G(IntT(0, 6), Inc("g", 1)),
              e |-> P(IntT(0, 20), Add("g", "a"), {I(4)})],
   init |-> {}],
  \* a read-only derived property, between its input and what depends on it, in a
  \* subclass of the class of its input
  [props |-> [a |-> P(IntT(0, 5), I(1), {I(0), I(3), S("2"), S("x")}),
              r |-> P(IntT(0, 9), Inc("a", 2), {}),
              g |-> G(IntT(0, 12), Inc("r", 1)),
              s |-> P(StrT(9), Tpl("r"), {S("v")}),
              b |-> P(IntT(0, 9), Add("r", "a"), {I(4)})],
   init |-> {"a"}]
>>

C == Classes[cfg.cls]
Props(c) == DOMAIN c.props

Inputs(e) == IF e[1] # "x" THEN {}
             ELSE CASE e[2] \in {"inc", "tpl"} -> {e[3]}
                    [] e[2] \in {"add", "dup"} -> {e[3], e[4]}

(* the definition a property is computed from *)
Defn(c, r, p) == IF c.props[p].get # <<>> THEN c.props[p].get ELSE r[p]

Bounded(ty, v) ==
  CASE ty.t = "integer" -> v[2] >= ty.lo /\ v[2] <= ty.hi
    [] ty.t = "string"  -> Len(v[2]) <= ty.hi

TextOf(v) == IF v[1] = "i" THEN DigitText[v[2]] ELSE v[2]

RECURSIVE Read(_, _, _)
Read(c, r, p) ==
  LET e == Defn(c, r, p)
      ty == c.props[p].type
      conv(v) == LET w == IF ty.t = "integer" THEN ConvInt(v) ELSE ConvStr(v)
                 IN IF IsOk(w) /\ ~Bounded(ty, w[2]) THEN Err("invalid") ELSE w
  IN IF e[1] # "x" THEN (IF e = None THEN Ok(None) ELSE conv(e))
     ELSE LET in == [q \in Inputs(e) |-> Read(c, r, q)]
          IN IF \E q \in Inputs(e) : ~IsOk(in[q]) \/ in[q] = Ok(None)
                 \* the value of an input is not defined: left open
                 THEN Open
             ELSE LET val(q) == in[q][2] IN
               CASE e[2] = "inc" -> LET n == ConvInt(val(e[3])) IN
                                      IF IsOk(n) THEN conv(I(n[2][2] + e[4])) ELSE Open
                 [] e[2] = "add" -> LET n == ConvInt(val(e[3]))
                                        m == ConvInt(val(e[4])) IN
                                      IF IsOk(n) /\ IsOk(m) THEN conv(I(n[2][2] + m[2][2])) ELSE Open
                 [] e[2] = "tpl" -> conv(S(TextOf(val(e[3]))))
                 [] e[2] = "dup" -> conv(S(TextOf(val(e[3])) \o "-" \o TextOf(val(e[4]))))

(* transitively *)
RECURSIVE Closure(_, _, _)
Closure(c, r, p) == {p} \cup UNION {Closure(c, r, q) : q \in Inputs(Defn(c, r, p))}

Dependents(c, r, p) == {q \in Props(c) : p \in Closure(c, r, q)}

(* (a property without values to assign is read-only) *)
Settable(c) == {p \in Props(c) : c.props[p].get = <<>> /\ ("r" \notin Props(c) \/ p # "r")}

Fresh(c, r, sn) == sn

-----------------------------------------------------------------------------
Init == /\ obj = "none"
        /\ cfg \in [cls : 1..Len(Classes), lazy : BOOLEAN]
        /\ raw = [p \in Props(Classes[cfg.cls]) |-> None]
        /\ seen = {}
        /\ act = [op |-> "init"]

Valid(c, r, p) == IsOk(Read(c, r, p))

New == /\ obj = "none"
       /\ \E p \in {q \in Settable(C) : q \in C.init \/ C.init = {}} :
          \E v \in {x \in C.props[p].vals : x[1] # "x"} :
            LET r == [q \in Props(C) |-> IF q = p THEN v ELSE C.props[q].dflt]
                bad == \E q \in Props(C) : IsErr(Read(C, r, q))
                any == \E q \in Props(C) : IsAny(Read(C, r, q))
            IN /\ \* an eager object with an undefined property: left open
                  (IF cfg.lazy \/ ~bad
                   THEN obj' = "live" /\ raw' = r
                   ELSE UNCHANGED <<obj, raw>>)
               /\ ~(~cfg.lazy /\ any /\ ~bad)
               \* declared dependencies are checked, hence read, on construction
               /\ (\E q \in Props(C) : C.props[q].get # <<>>) => ~bad /\ ~any
               /\ act' = [op |-> "new", cls |-> cfg.cls, lazy |-> cfg.lazy, p |-> p, v |-> v,
                          res |-> IF cfg.lazy \/ ~bad THEN Ok(None) ELSE Err("invalid")]
               /\ seen' = IF cfg.lazy \/ bad THEN {} ELSE Props(C)
               /\ UNCHANGED cfg

Get == /\ obj = "live"
       /\ \E p \in Props(C), door \in {"attr", "item", "get"} :
            LET res == Read(C, raw, p) IN
            /\ act' = [op |-> "get", door |-> door, p |-> p, res |-> res]
            /\ seen' = IF IsOk(res) THEN seen \cup Closure(C, raw, p) ELSE seen
            /\ UNCHANGED <<obj, cfg, raw>>

Set == /\ obj = "live"
       /\ \E p \in Settable(C), door \in {"attr", "item"} :
          \E v \in C.props[p].vals \cup (IF C.props[p].dflt[1] = "x" THEN {C.props[p].dflt} ELSE {}) :
            LET r == [raw EXCEPT ![p] = v]
                res == IF cfg.lazy THEN Ok(None)
                       ELSE IF IsErr(Read(C, r, p)) THEN Err("invalid")
                       ELSE IF IsAny(Read(C, r, p)) THEN Open
                       ELSE Ok(None)
            IN /\ act' = [op |-> "set", door |-> door, p |-> p, v |-> v, res |-> res]
               /\ raw' = r
               /\ seen' = (seen \ Dependents(C, r, p))
                          \cup (IF ~cfg.lazy /\ res = Ok(None) THEN Closure(C, r, p) ELSE {})
               /\ UNCHANGED <<obj, cfg>>

(* all items at once, as dict(o) / items() *)
Items == /\ obj = "live"
         /\ LET rs == [p \in Props(C) |-> Read(C, raw, p)] IN
            /\ act' = [op |-> "items",
                       res |-> IF \E p \in Props(C) : IsAny(rs[p]) THEN Open
                               ELSE IF \E p \in Props(C) : IsErr(rs[p]) THEN Err("invalid")
                               ELSE Ok([p \in Props(C) |-> rs[p][2]])]
            /\ seen' = IF \A p \in Props(C) : IsOk(rs[p]) THEN Props(C) ELSE seen
            /\ UNCHANGED <<obj, cfg, raw>>

Next == New \/ Get \/ Set \/ Items

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
St == [obj |-> obj, cfg |-> cfg, raw |-> raw, seen |-> seen]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
EmitS == PrintT(ToJson([l |-> TLCGet("level"), a |-> act, t |-> St]))

(* P: values read are of the declared type and within the declared bounds *)
TypedReads ==
  act.op = "get" /\ IsOk(act.res) /\ act.res[2] # None =>
     LET ty == C.props[act.p].type IN
       /\ act.res[2][1] = (IF ty.t = "integer" THEN "i" ELSE "s")
       /\ Bounded(ty, act.res[2])
(* reading never changes what is read: a read only touches seen *)
ReadsArePure == [][act'.op \in {"get", "items"} => UNCHANGED <<obj, cfg, raw>>]_vars
(* the order in which properties are read does not matter *)
SeenSound == \A p \in seen : obj = "live" => ~IsErr(Read(C, raw, p))
=============================================================================
