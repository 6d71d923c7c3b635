--------------------------- MODULE ClassifyMachine ---------------------------
(* Every combination of two files, which may appear, vanish and change       *)
(* between two diffs: the kind follows from what is there, and exactly one   *)
(* kind does.                                                                *)
EXTENDS Classify, TLC
VARIABLES fb, fa
vars == <<fb, fa, r>>
Files == {"absent", "dangling", "dir", "loop", "empty", "text", "other"}
OfFile(f) == f \in {"empty", "text", "other"}
OfText(f) == f \in {"empty", "text"}
K(x, y) == Kind(x, y, OfFile, OfText, Absent)
Init == fb \in Files /\ fa \in Files /\ r = ReadStart
Next == \/ fb' \in Files /\ UNCHANGED <<fa, r>>
        \/ fa' \in Files /\ UNCHANGED <<fb, r>>
Spec == Init /\ [][Next]_vars
Mirror == [x \in {"TextChange", "ByteChange", "error", "notfound"} |-> x] @@
          ("TextAdd" :> "TextRemove" @@ "TextRemove" :> "TextAdd" @@
           "ByteAdd" :> "ByteRemove" @@ "ByteRemove" :> "ByteAdd")
ExchangedFiles == K(fa, fb) = Mirror[K(fb, fa)]
TextOnlyIfAllText == K(fb, fa) \in {"TextChange", "TextAdd", "TextRemove"} => "other" \notin {fb, fa}
NotFoundIffNothing == K(fb, fa) = "notfound" <=> Absent(fb) /\ Absent(fa)
ChangeIffBoth == K(fb, fa) \in {"TextChange", "ByteChange"} <=> OfFile(fb) /\ OfFile(fa)
=============================================================================
