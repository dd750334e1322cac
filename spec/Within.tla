-------------------------------- MODULE Within --------------------------------
(* Nested context managers: an instance seen as one of its parent classes, a     *)
(* working directory.  Whatever happens inside, leaving one restores what was.   *)
EXTENDS Values

CONSTANT MaxDepth
VARIABLES stack,  \* what the open contexts restore, innermost last
          cls,    \* class of the instance: 3 derives from 2, 2 from 1; 4 is unrelated
          dir,    \* current directory
          cnt,    \* last number given by each of the counters
          act
vars == <<stack, cls, dir, cnt, act>>
Init == stack = <<>> /\ cls = 3 /\ dir = "root" /\ cnt = <<0, 9>> /\ act = [op |-> "init"]
St == [stack |-> stack, cls |-> cls, dir |-> dir, cnt |-> cnt]

Room == Len(stack) < MaxDepth
Cast == /\ Room
        /\ \E c \in 1..4 :
             LET ok == c <= cls /\ c # 4 IN
             /\ stack' = IF ok THEN Append(stack, <<"cls", cls>>) ELSE stack
             /\ cls' = IF ok THEN c ELSE cls
             /\ act' = [op |-> "cast", c |-> c, res |-> IF ok THEN Ok(None) ELSE Err("AttributeError")]
        /\ UNCHANGED <<dir, cnt>>
Enter == /\ Room
         /\ \E d \in {"root", "one", "two", "missing"}, how \in {"text", "path"} :
              LET ok == d # "missing" IN
              /\ stack' = IF ok THEN Append(stack, <<"dir", dir>>) ELSE stack
              /\ dir' = IF ok THEN d ELSE dir
              /\ act' = [op |-> "enter", d |-> d, how |-> how, res |-> IF ok THEN Ok(None) ELSE Err("FileNotFoundError")]
         /\ UNCHANGED <<cls, cnt>>
(* normally, with an error (it goes through), or after having changed things inside *)
Leave == /\ stack # <<>>
         /\ \E how \in {"normal", "error"} :
              LET t == stack[Len(stack)] IN
              /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
              /\ cls' = IF t[1] = "cls" THEN t[2] ELSE cls
              /\ dir' = IF t[1] = "dir" THEN t[2] ELSE dir
              /\ act' = [op |-> "leave", how |-> how, res |-> IF how = "error" THEN Err("ZeroDivisionError") ELSE Ok(None)]
         /\ UNCHANGED cnt
Wander == /\ stack # <<>> /\ stack[Len(stack)][1] = "dir"
          /\ \E d \in {"one", "two"} : dir' = d /\ act' = [op |-> "wander", d |-> d, res |-> Ok(None)]
          /\ UNCHANGED <<stack, cls, cnt>>
(* counters give each number once, whatever thread asks; they are independent *)
Count == \E c \in 1..2, threads \in {0, 3} :
           LET n == IF threads = 0 THEN 1 ELSE threads IN
           /\ cnt[c] + n <= IF c = 1 THEN 4 ELSE 13
           /\ cnt' = [cnt EXCEPT ![c] = @ + n]
           /\ act' = [op |-> "count", c |-> c, threads |-> threads, res |-> <<"ok", [i \in 1..n |-> cnt[c] + i]>>]
           /\ UNCHANGED <<stack, cls, dir>>
Next == Cast \/ Enter \/ Leave \/ Wander \/ Count
Spec == Init /\ [][Next]_vars
View == St
EmitT == PrintT(ToJson([s |-> St, a |-> act', t |-> [stack |-> stack', cls |-> cls', dir |-> dir', cnt |-> cnt']]))
Home == stack = <<>> => cls = 3 /\ dir = "root"
=============================================================================
