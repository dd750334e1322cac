-------------------------------- MODULE Decor --------------------------------
(* Functions and methods with decorated arguments: what the function itself     *)
(* receives (its own result is the list of what it got), how often it runs, and *)
(* what the caller gets.                                                        *)
EXTENDS Values

VARIABLES bag,   \* number of elements of the collection the methods are called on
          p,     \* a property of that collection some methods need
          runs,  \* how many times (at most 3) a decorated function was executed
          act
vars == <<bag, p, runs, act>>

L(s) == <<"l", s>>
Init == bag = 0 /\ p = None /\ runs = 0 /\ act = [op |-> "init"]
Bump(n) == IF runs + n > 3 THEN 3 ELSE runs + n
Ran(ok, n) == runs' = IF ok THEN n ELSE 0

(* x is an integer not under zero, y a text of at most one character *)
XVals == {I(2), S("3"), S("x"), I(-1), None}
YVals == {S("a"), I(7), S("ab"), None, <<"omit">>}
CX(v) == IF v = None THEN Ok(None) ELSE
         LET c == ConvInt(v) IN IF IsErr(c) THEN c ELSE IF c[2][2] < 0 THEN Err("invalid") ELSE c
CY(v) == IF v = None THEN Ok(None) ELSE IF v[1] = "omit" THEN Ok(S("def")) ELSE
         LET c == ConvStr(v) IN IF IsErr(c) THEN c ELSE IF v = S("ab") THEN Err("invalid") ELSE c

Forms == {"func", "method", "unbound", "class", "classinst", "static"}
Checked == \E x \in XVals, y \in YVals, form \in Forms, how \in {"pos", "named"} :
  LET good == IsOk(CX(x)) /\ IsOk(CY(y)) IN
  /\ Ran(good, 1)
  /\ act' = [op |-> "assert", x |-> x, y |-> y, form |-> form, how |-> how,
             res |-> IF good THEN Ok(L(<<CX(x)[2], CY(y)[2]>>)) ELSE Err("invalid")]
  /\ UNCHANGED <<bag, p>>
(* a flag of the call disables the check; a missing argument is the function's business *)
Flag == \E x \in XVals, form \in Forms, flag \in BOOLEAN :
  LET good == ~flag \/ IsOk(CX(x)) IN
  /\ Ran(good, 1)
  /\ act' = [op |-> "flag", x |-> x, form |-> form, flag |-> flag,
             res |-> IF ~flag THEN Ok(L(<<x>>)) ELSE IF good THEN Ok(L(<<CX(x)[2]>>)) ELSE Err("invalid")]
  /\ UNCHANGED <<bag, p>>
Missing == \E form \in Forms :
  /\ runs' = 0 /\ act' = [op |-> "missing", form |-> form, res |-> Err("TypeError")]
  /\ UNCHANGED <<bag, p>>

(* arrays *)
Seqs == {<<>>, <<1>>, <<1, 2>>, <<3, 1, 2>>}
As == {<<"i", 1>>} \cup {<<c, s>> : c \in {"list", "tuple"}, s \in Seqs}
Bs == {<<"omit">>, <<"i", 5>>} \cup {<<c, s>> : c \in {"list", "tuple"}, s \in {<<7>>, <<7, 8>>, <<7, 8, 9>>}}
SeqV(v) == v[1] \in {"list", "tuple"}
Plain(v) == IF v[1] = "omit" THEN I(10) ELSE IF SeqV(v) THEN L([i \in DOMAIN v[2] |-> I(v[2][i])]) ELSE v
Arrays == \E a \in As, b \in Bs, form \in {"func", "method"} :
  LET n == IF SeqV(a) THEN Len(a[2]) ELSE 1
      bad == SeqV(a) /\ SeqV(b) /\ Len(b[2]) # 1 /\ Len(b[2]) # n
      one(i) == L(<<I(a[2][i]), IF SeqV(b) THEN I(b[2][IF Len(b[2]) = 1 THEN 1 ELSE i]) ELSE Plain(b)>>) IN
  /\ Ran(~bad, n)
  /\ act' = [op |-> "arrays", a |-> a, b |-> b, form |-> form,
             res |-> IF bad THEN Err("invalid")
                     ELSE IF SeqV(a) THEN Ok(L([i \in 1..n |-> one(i)]))
                     ELSE Ok(L(<<a, Plain(b)>>))]
  /\ UNCHANGED <<bag, p>>
(* the function gives <<v, v+10>> for one value: the lists of an array are flattened *)
RECURSIVE FlatF(_)
FlatF(s) == IF s = <<>> THEN <<>> ELSE <<I(s[1]), I(s[1] + 10)>> \o FlatF(Tail(s))
Flatten == \E a \in As :
  /\ Ran(TRUE, IF SeqV(a) THEN Len(a[2]) ELSE 1)
  /\ act' = [op |-> "flatten", a |-> a, res |-> Ok(L(IF SeqV(a) THEN FlatF(a[2]) ELSE FlatF(<<a[2]>>)))]
  /\ UNCHANGED <<bag, p>>

(* logging changes nothing but the log: an error is logged once and raised again *)
Logged == \E x \in {I(2), S("boom"), <<"omit">>}, form \in {"func", "method", "init"}, how \in {"pos", "named"} :
  LET v == IF x[1] = "omit" THEN I(10) ELSE x IN
  /\ Ran(TRUE, 1)
  /\ act' = [op |-> "logged", x |-> x, form |-> form, how |-> how,
             res |-> IF v = S("boom") THEN Err("ZeroDivisionError") ELSE Ok(L(<<v>>)),
             errors |-> IF form # "func" /\ v = S("boom") THEN 1 ELSE 0]
  /\ UNCHANGED <<bag, p>>

Need == \E x \in {I(2), S("3"), S("x")} :
  LET ok == p # None /\ IsOk(CX(x)) IN
  /\ Ran(ok, 1)
  /\ act' = [op |-> "need", x |-> x, res |-> IF p = None THEN Err("AttributeError")
                                             ELSE IF ok THEN Ok(L(<<CX(x)[2], p>>)) ELSE Err("invalid")]
  /\ UNCHANGED <<bag, p>>
SetP == \E v \in {None, I(0), S("")} : p' = v /\ runs' = 0 /\ act' = [op |-> "setp", v |-> v, res |-> Ok(None)] /\ UNCHANGED bag
Fill == \E n \in {0, 2} : bag' = n /\ runs' = 0 /\ act' = [op |-> "fill", n |-> n, res |-> Ok(None)] /\ UNCHANGED p
(* they keep their name and their documentation *)
Names == \E f \in {"f", "g", "arr", "flat", "logged"} :
  /\ runs' = 0 /\ act' = [op |-> "names", f |-> f, res |-> Ok(L(<<S(f), B(TRUE)>>))] /\ UNCHANGED <<bag, p>>

Next == Checked \/ Flag \/ Missing \/ Arrays \/ Flatten \/ Logged \/ Need \/ SetP \/ Fill \/ Names
Spec == Init /\ [][Next]_vars
St == [bag |-> bag, p |-> p]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act' @@ [runs |-> runs'], t |-> [bag |-> bag', p |-> p']]))
(* a rejected argument never reaches the function *)
NotCalled == (act.op \in {"assert", "flag", "arrays", "need"} /\ IsErr(act.res)) => runs = 0
=============================================================================
