----------------------------- MODULE PathMachine -----------------------------
(* Path lines put together from parts and taken apart again.                 *)
EXTENDS PathLines, TLC
VARIABLES side, path, quoted, sep, stamp, tail, line, at
vars == <<side, path, quoted, sep, stamp, tail, line, at>>

Paths == {<<97>>, <<97, 47, 98>>, <<34, 97>>, <<97, 32, 98>>, <<45, 45, 45>>, <<57>>}
Digits4(c) == IF c = "D" THEN 49 ELSE IF c = "U" THEN 77 ELSE IF c = "L" THEN 97 ELSE IF c = "S" THEN 43
              ELSE IF c = "-" THEN 45 ELSE IF c = " " THEN 32 ELSE IF c = ":" THEN 58 ELSE 46
Stamps == {<<>>} \cup {[n \in 1..Len(f) |-> Digits4(f[n])] : f \in Formats}
Init == /\ side \in {"before", "after"} /\ path \in Paths /\ quoted \in BOOLEAN
        /\ sep \in {<<32>>, <<9>>, <<32, 9>>} /\ stamp \in Stamps
        /\ tail \in {<<>>, <<10>>, <<13, 10>>, <<32, 120, 10>>}
        /\ quoted => 34 \notin Items(path)
        /\ ~quoted => 32 \notin Items(path)
        /\ line = <<>> /\ at = "parts"
Compose == /\ at = "parts" /\ at' = "line"
           /\ line' = [n \in 1..3 |-> Mark(side)] \o <<32>>
                      \o (IF quoted THEN <<34>> \o path \o <<34>> ELSE path)
                      \o sep \o stamp \o tail
           /\ UNCHANGED <<side, path, quoted, sep, stamp, tail>>
Break == /\ at = "line" /\ at' = "broken"       \* one character of the time stamp
         /\ stamp # <<>>
         /\ \E n \in 1..Len(stamp) :
              line' = [line EXCEPT ![n + 4 + Len(path) + (IF quoted THEN 2 ELSE 0) + Len(sep)] = 95]
         /\ UNCHANGED <<side, path, quoted, sep, stamp, tail>>
Next == Compose \/ Break
Spec == Init /\ [][Next]_vars
Other == IF side = "before" THEN "after" ELSE "before"
Recognised == at = "line" => PathLine(side, line) = <<path, stamp>>
OtherSideIsNot == at = "line" => PathLine(Other, line) = <<>>
BrokenHasNoStamp == at = "broken" => PathLine(side, line) = <<path, <<>>>>
=============================================================================
