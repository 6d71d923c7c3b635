-------------------------------- MODULE Reader --------------------------------
(* Reading text into lines from a reader that delivers it in pieces.         *)
(* The state r: lines done, the line being read (part), the state of the     *)
(* UTF-8 automaton, and how it is going.                                     *)
EXTENDS Base

(* UTF-8: states are sets of what may come next                              *)
Utf8(q, y) ==
    CASE q = "ok"  -> (CASE y < 128 -> "ok"
                         [] y \in 194..223 -> "t1"
                         [] y = 224 -> "e0" [] y = 237 -> "ed"
                         [] y \in 225..239 -> "t2"
                         [] y = 240 -> "f0" [] y \in 241..243 -> "t3" [] y = 244 -> "f4"
                         [] OTHER -> "bad")
      [] q = "t1"  -> IF y \in 128..191 THEN "ok" ELSE "bad"
      [] q = "t2"  -> IF y \in 128..191 THEN "t1" ELSE "bad"
      [] q = "t3"  -> IF y \in 128..191 THEN "t2" ELSE "bad"
      [] q = "e0"  -> IF y \in 160..191 THEN "t1" ELSE "bad"
      [] q = "ed"  -> IF y \in 128..159 THEN "t1" ELSE "bad"
      [] q = "f0"  -> IF y \in 144..191 THEN "t2" ELSE "bad"
      [] q = "f4"  -> IF y \in 128..143 THEN "t2" ELSE "bad"
      [] OTHER -> "bad"

Utf8Run(q, ys) == FoldLeft(Utf8, q, ys)
IsText(ys) == Utf8Run("ok", ys) = "ok"

VARIABLE r
ReadStart == [lines |-> <<>>, part |-> <<>>, q |-> "ok", at |-> "reading"]

(* the lines of ys after the unfinished line part                            *)
Cuts(lines, part, ys) ==
    LET ends == SelectSeq([m \in 1..Len(ys) |-> m], LAMBDA m : ys[m] = 10)
        n == Len(ends)
    IN IF n = 0 THEN <<lines, part \o ys>>
       ELSE <<(lines \o <<part \o SubSeq(ys, 1, ends[1])>>)
                 \o [m \in 1..(n - 1) |-> SubSeq(ys, ends[m] + 1, ends[m + 1])],
              SubSeq(ys, ends[n] + 1, Len(ys))>>

Deliver(ys) ==
    /\ r.at = "reading" /\ ys # <<>>
    /\ LET x == Cuts(r.lines, r.part, ys) IN
       r' = [r EXCEPT !.lines = x[1], !.part = x[2], !.q = Utf8Run(r.q, ys)]
Interrupt == r.at = "reading" /\ UNCHANGED r
Failure == r.at = "reading" /\ r' = [r EXCEPT !.at = "failed"]
EndOfInput ==
    /\ r.at = "reading"
    /\ r' = [r EXCEPT !.at = "done", !.part = <<>>,
                      !.lines = IF r.part = <<>> THEN @ ELSE Append(@, r.part)]

(* what reading text and reading bytes give                                  *)
TextResult  == IF r.at = "failed" \/ r.q # "ok" THEN "error" ELSE "lines"
BytesResult == IF r.at = "failed" THEN "error" ELSE "bytes"
=============================================================================
