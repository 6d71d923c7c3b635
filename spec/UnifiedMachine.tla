---------------------------- MODULE UnifiedMachine ----------------------------
(* Design model for C18 and C19: the clumps of the diff of every two small   *)
(* texts are written, with the old or the new lines of a replacement first,  *)
(* perhaps damaged in one line, and parsed line by line.                     *)
EXTENDS Unified, TLC
CONSTANTS MAXLEN, CONTEXTS
LINES == {"x\n", "y\n", "x"}
D == INSTANCE Clumps
VARIABLES b, a, cl,     \* the texts, the clumps with their changes
          k,            \* the clump being dealt with
          doc, d,       \* its body as written; what was done to it
          bl, al,       \* the lengths its header states
          p, n, at
vars == <<b, a, cl, k, doc, d, bl, al, p, n, at>>

(* texts: only the last line may lack its end of line                        *)
Texts == {t \in SeqsUpTo(LINES, MAXLEN) : \A m \in 1..(Len(t) - 1) : EndsEol(t[m])}

Init == /\ b \in Texts /\ a \in Texts
        /\ \E c \in CONTEXTS : LET ch == D!SomeChanges(b, a) IN
             cl = [m \in 1..Len(D!ClumpsOf(ch, c)) |->
                     LET x == D!ClumpsOf(ch, c)[m] IN
                     [x |-> x, ch |-> SubSeq(ch, x.f, x.l)]]
        /\ k = 1 /\ doc = <<>> /\ d = "" /\ bl = 0 /\ al = 0 /\ p = ParseStart /\ n = 0 /\ at = "write"

Old(c) == MarkedAll("-", Rng(b, c.bs, c.be))
New(c) == MarkedAll("+", Rng(a, c.as, c.ae))
BodyOf(y, first) ==
    MarkedAll(" ", Rng(b, y.x.bs, y.x.bs + y.x.c0))
    \o Flatten([m \in 1..Len(y.ch) |->
          LET c == y.ch[m] IN
          IF c.t = "N" THEN MarkedAll(" ", Rng(b, c.bs, c.be))
          ELSE IF first = "old" THEN Old(c) \o New(c) ELSE New(c) \o Old(c)])
    \o MarkedAll(" ", Rng(b, y.x.be - y.x.c1, y.x.be))

WriteClump == /\ at = "write" /\ k <= Len(cl)
         /\ \E first \in {"old", "new"} : doc' = BodyOf(cl[k], first)
         /\ bl' = cl[k].x.be - cl[k].x.bs /\ al' = cl[k].x.ae - cl[k].x.as
         /\ at' = "written" /\ d' = "none" /\ p' = ParseStart /\ n' = 0
         /\ UNCHANGED <<b, a, cl, k>>
Damage == /\ at = "written" /\ d = "none"
          /\ \/ \E m \in 1..Len(doc) : ~IsMarker(doc[m]) /\ doc' = RemoveAt(doc, m) /\ d' = "line lost"
             \/ \E m \in 1..Len(doc) : doc' = [doc EXCEPT ![m] = "@@ -1 +1 @@\n"] /\ d' = "foreign line"
             \/ \E m \in 1..(Len(doc) - 1) :
                  /\ ~IsMarker(doc[m]) /\ ~IsMarker(doc[m + 1]) /\ First(doc[m]) # " "
                  /\ doc' = InsertAt(doc, m, " x\n") /\ d' = "line added"
          /\ UNCHANGED <<b, a, cl, k, bl, al, p, n, at>>
Begin == at = "written" /\ at' = "parse" /\ UNCHANGED <<b, a, cl, k, doc, d, bl, al, p, n>>
TakeLine == /\ at = "parse" /\ ~Full(p, bl, al) /\ ~Over(p, bl, al) /\ p.at = "body" /\ n < Len(doc)
            /\ p' = Take(p, doc[n + 1]) /\ n' = n + 1
            /\ UNCHANGED <<b, a, cl, k, doc, d, bl, al, at>>
TakeMarker == /\ at = "parse" /\ Full(p, bl, al) /\ ~Over(p, bl, al) /\ n < Len(doc) /\ n > 0 /\ IsMarker(doc[n + 1])
              /\ p' = NoNewline(p) /\ n' = n + 1 /\ at' = "parsed"
              /\ UNCHANGED <<b, a, cl, k, doc, d, bl, al>>
Complete == /\ at = "parse" /\ Full(p, bl, al) /\ ~Over(p, bl, al)
            /\ ~(n < Len(doc) /\ IsMarker(doc[n + 1]))
            /\ at' = "parsed" /\ UNCHANGED <<b, a, cl, k, doc, d, bl, al, p, n>>
Refuse == /\ at = "parse"
          /\ p.at = "error" \/ Over(p, bl, al) \/ (~Full(p, bl, al) /\ n = Len(doc))
          /\ at' = "refused" /\ UNCHANGED <<b, a, cl, k, doc, d, bl, al, p, n>>
NextClump == /\ at = "parsed" /\ d = "none" /\ k' = k + 1 /\ at' = "write"
             /\ doc' = <<>> /\ d' = "" /\ bl' = 0 /\ al' = 0 /\ p' = ParseStart /\ n' = 0
             /\ UNCHANGED <<b, a, cl>>
Next == WriteClump \/ Damage \/ Begin \/ TakeLine \/ TakeMarker \/ Complete \/ Refuse \/ NextClump
Spec == Init /\ [][Next]_vars

ParsedIsWritten == at = "parsed" /\ d = "none" =>
    LET x == cl[k].x IN
    /\ p.b = Rng(b, x.bs, x.be) /\ p.a = Rng(a, x.as, x.ae)
    /\ p.c0 = x.c0 /\ p.c1 = x.c1 /\ n = Len(doc)
WrittenIsNotRefused == at = "refused" => d # "none"
(* damage is refused, or lines are left over that are not part of the clump *)
DamagedIsRefused == at = "parsed" => (d = "none" \/ n < Len(doc))
StepsAgree == at \in {"parsed", "refused"} =>
    LET q == ParseBody(ParseStart, doc, bl, al) IN
    /\ (q.at = "error") = (at = "refused")
    /\ at = "parsed" => q = p
=============================================================================
