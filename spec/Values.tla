------------------------------- MODULE Values -------------------------------
(* The value universe shared by the specifications.  A Python value is a     *)
(* tagged tuple; the tag comes first so that values of different kinds can   *)
(* be compared safely.                                                       *)
(*   <<"n">> None   <<"i",n>> int   <<"s",txt>> str   <<"b",TRUE>> bool       *)
(*   <<"x",kind,..>> an expression / template, see the using module           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

None == <<"n">>
I(n) == <<"i", n>>
S(s) == <<"s", s>>
B(b) == <<"b", b>>

Ok(v)   == <<"ok", v>>
Err(k)  == <<"err", k>>
Open    == <<"any">>
IsOk(r)  == r[1] = "ok"
IsErr(r) == r[1] = "err"
IsAny(r) == r[1] = "any"

Range(s) == {s[i] : i \in DOMAIN s}

(* decimal text of small integers, and back *)
DigitText == [n \in -20..40 |-> ToString(n)]
IntTexts == {DigitText[n] : n \in DOMAIN DigitText}
TextToInt == [t \in IntTexts |-> CHOOSE n \in DOMAIN DigitText : DigitText[n] = t]
IsIntText(t) == t \in IntTexts

(* what a declared integer / string property makes of a plain value *)
ConvInt(v) == IF v[1] = "i" THEN Ok(v)
              ELSE IF v[1] = "s" /\ IsIntText(v[2]) THEN Ok(I(TextToInt[v[2]]))
              ELSE Err("invalid")
ConvStr(v) == IF v[1] = "s" THEN Ok(v)
              ELSE IF v[1] = "i" THEN Ok(S(DigitText[v[2]]))
              ELSE Err("invalid")

Max(S_) == CHOOSE x \in S_ : \A y \in S_ : y <= x
Min(S_) == CHOOSE x \in S_ : \A y \in S_ : x <= y
=============================================================================
