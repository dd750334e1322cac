-------------------------------- MODULE KeyDicts --------------------------------
(* Dictionaries whose keys have several spellings: a case insensitive one and    *)
(* one of uris.  All spellings of a key are that key.                            *)
EXTENDS Values

VARIABLES kind, m, act
vars == <<kind, m, act>>

(* spellings of the keys, the first is the canonical one *)
Sp(k) == IF kind = "case" THEN <<<<"ab", "AB", "aB">>, <<"c d", "C D">>, <<"">>>>[k]
         ELSE <<<<"http://x.y/a", "HTTP://x.y/A", "http://X.Y/a#", "http://x.y/a?">>,
                <<"http://x.y/a#/b", "Http://x.y/A#/B">>, <<"a/b", "A/b", "a/b#">>>>[k]
KeysN == 1..3
Has(k) == \E i \in DOMAIN m : m[i].k = k
ValOf(k) == LET i == CHOOSE i \in DOMAIN m : m[i].k = k IN m[i].v
PutIn(s, k, v) == IF \E i \in DOMAIN s : s[i].k = k THEN [i \in DOMAIN s |-> IF s[i].k = k THEN [k |-> k, v |-> v] ELSE s[i]]
                  ELSE Append(s, [k |-> k, v |-> v])
Init == kind \in {"case", "uri"} /\ m = <<>> /\ act = [op |-> "init"]
Spell(k) == Range(Sp(k))

Make == /\ m = <<>>
        /\ \E k1, k2 \in KeysN : \E s1 \in Spell(k1), s2 \in Spell(k2), how \in {"dict", "pairs"} :
             /\ s1 # s2
             /\ m' = PutIn(PutIn(<<>>, k1, 1), k2, 2)
             /\ act' = [op |-> "make", s |-> <<s1, s2>>, how |-> how, kind |-> kind, res |-> Ok(None)]
        /\ UNCHANGED kind
Set == \E k \in KeysN, v \in {1, 2} : \E s \in Spell(k), how \in {"item", "update", "setdefault"} :
         LET old == Has(k) /\ how = "setdefault" IN
         /\ m' = IF old THEN m ELSE PutIn(m, k, v)
         /\ act' = [op |-> "set", s |-> s, v |-> v, how |-> how, kind |-> kind, res |-> IF how = "setdefault" THEN Ok(I(IF old THEN ValOf(k) ELSE v)) ELSE Ok(None)]
         /\ UNCHANGED kind
Del == \E k \in KeysN : \E s \in Spell(k), how \in {"del", "pop", "popdef"} :
         /\ m' = SelectSeq(m, LAMBDA p : p.k # k)
         /\ act' = [op |-> "del", s |-> s, how |-> how, kind |-> kind,
                    res |-> IF Has(k) THEN (IF how = "del" THEN Ok(None) ELSE Ok(I(ValOf(k))))
                            ELSE IF how = "popdef" THEN Ok(I(7)) ELSE Err("KeyError")]
         /\ UNCHANGED kind
Look == /\ \E k \in KeysN : \E s \in Spell(k) :
             act' = [op |-> "get", s |-> s, kind |-> kind,
                     res |-> <<"ok", [get |-> IF Has(k) THEN ValOf(k) ELSE 7, in |-> Has(k), item |-> IF Has(k) THEN Ok(I(ValOf(k))) ELSE Err("KeyError")]>>]
        /\ UNCHANGED <<kind, m>>
All == /\ act' = [op |-> "all", kind |-> kind, res |-> <<"ok", [items |-> [i \in DOMAIN m |-> [k |-> Sp(m[i].k)[1], v |-> m[i].v]], len |-> Len(m)]>>]
       /\ UNCHANGED <<kind, m>>
Next == Make \/ Set \/ Del \/ Look \/ All
Spec == Init /\ [][Next]_vars
St == [kind |-> kind, m |-> m]
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
Unique == \A x, y \in DOMAIN m : x # y => m[x].k # m[y].k
=============================================================================
