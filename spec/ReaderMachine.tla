---------------------------- MODULE ReaderMachine ----------------------------
(* Design model of reading: all texts over a few bytes in all pieces, with   *)
(* interruptions and failures.                                               *)
EXTENDS Reader, TLC
CONSTANTS BYTES, MAXLEN, MAXPIECE
VARIABLES text, left
vars == <<text, left, r>>

Init == text \in SeqsUpTo(BYTES, MAXLEN) /\ left = text /\ r = ReadStart
Piece == \E n \in 1..MinOf(MAXPIECE, Len(left)) :
            Deliver(SubSeq(left, 1, n)) /\ left' = SubSeq(left, n + 1, Len(left)) /\ UNCHANGED text
Next == \/ Piece
        \/ Failure /\ UNCHANGED <<text, left>>
        \/ left = <<>> /\ EndOfInput /\ UNCHANGED <<text, left>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Piece \/ (left = <<>> /\ EndOfInput /\ UNCHANGED <<text, left>>))

NothingLost == r.at # "failed" => Flatten(r.lines) \o r.part \o left = text
OnlyNewlineIsLast == \A n \in 1..Len(r.lines) :
    LET l == r.lines[n] IN
    /\ l # <<>> /\ \A m \in 1..(Len(l) - 1) : l[m] # 10
    /\ (l[Len(l)] # 10) => n = Len(r.lines) /\ r.at = "done"
WholeLines == r.at = "done" => r.part = <<>>
(* how it was delivered does not matter                                      *)
PiecesDontMatter == r.at = "done" =>
    LET x == Cuts(<<>>, <<>>, text) IN
    /\ r.lines = IF x[2] = <<>> THEN x[1] ELSE Append(x[1], x[2])
    /\ (TextResult = "lines") <=> IsText(text)
Ends == <>(r.at \in {"done", "failed"})
=============================================================================
