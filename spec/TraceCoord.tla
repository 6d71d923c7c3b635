----------------------------- MODULE TraceCoord -----------------------------
(* C21: recorded coordinates of real objects, and reverse applications       *)
(* against applications of the exchanged diff. A record has objects os:      *)
(* [t: kind, raw or h (header), qs: [rev, x, y, v]], common runs ss, sides  *)
(* sn, and [r, f] results of applying in reverse and exchanged.              *)
EXTENDS Coordinates, TLC, Json, IOUtils
VARIABLES i, o, q
vars == <<i, o, q>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
O == R.os[o]
Raw == IF O.t = "unified" THEN FromHeader(O.h) ELSE O.raw

Init == i \in 1..Len(Recs) /\ o = 1 /\ q = 1

(* one question and its answers *)
Asked ==
    LET Q == O.qs[q]
        e == Reports(Raw, Q.rev, Q.x, Q.y)
        A(s, g) == /\ g.start = s.start /\ g.end = s.end /\ g.len = s.len
                   /\ g.range = s.range /\ g.mine = s.mine
    IN /\ A(e.old, Q.old) /\ A(e.new, Q.new)
       /\ "adj" \in DOMAIN Q =>
            LET d == Q.d
                ao == Adjusted(OldSide(Raw, Q.rev), d, Q.x, Q.y)
                an == Adjusted(NewSide(Raw, Q.rev), d, Q.x, Q.y)
            IN Q.adj = <<ao.start, ao.len, an.start, an.len>>
       /\ "lines" \in DOMAIN Q =>
            /\ Q.lines[1] = Rng(IF Q.rev THEN O.a ELSE O.b, e.old.mine[1], e.old.mine[2])
            /\ Q.lines[2] = Rng(IF Q.rev THEN O.b ELSE O.a, e.new.mine[1], e.new.mine[2])

Ask == o <= Len(R.os) /\ q <= Len(O.qs) /\ Asked /\ q' = q + 1 /\ UNCHANGED <<i, o>>
Both == "se" \in DOMAIN O =>
    \A n \in 1..2 : O.se[n] = <<Raw.bs, Raw.be, Raw.as, Raw.ae>>
NextObject == o <= Len(R.os) /\ q = Len(O.qs) + 1 /\ Both /\ o' = o + 1 /\ q' = 1 /\ UNCHANGED i

Runs ==
    \A n \in 1..Len(R.ss) : LET S == R.ss[n] IN
        /\ S.b = <<S.r[1], S.r[1] + S.r[3]>> /\ S.a = <<S.r[2], S.r[2] + S.r[3]>>
        /\ S.bs = S.r[1] /\ S.be = S.r[1] + S.r[3] /\ S.as = S.r[2] /\ S.ae = S.r[2] + S.r[3]
        /\ S.et = EndsTrimmed(S.r, S.n) /\ S.st = StartsTrimmed(S.r, S.n) /\ S.sp = Split(S.r, S.n)

(* what stored sides say of themselves, and write                            *)
Side(s, items, Q, S) ==
    LET e == About(s, Q.x, Q.y) IN
    /\ S.mine = e.mine /\ S.len = e.mine[2] - e.mine[1] /\ S.n = S.len /\ S.all = e.len
    /\ S.at = <<>> \/ S.at = <<Adjusted(s, Q.d, Q.x, Q.y).start>>
    /\ S.w = Rng(items, e.mine[1], e.mine[2])
Sides == \A n \in 1..Len(R.sn) : LET O2 == R.sn[n] IN
    \A m \in 1..Len(O2.qs) : LET Q == O2.qs[m] IN
        /\ Side(OldSide(O2.raw, FALSE), O2.b, Q, Q.s[1]) = TRUE
        /\ Side(NewSide(O2.raw, FALSE), O2.a, Q, Q.s[2]) = TRUE

Finish == /\ o = Len(R.os) + 1 /\ Runs /\ Sides /\ R.r = R.f
        /\ PrintT(<<"ACC", i>>) /\ o' = o + 1 /\ UNCHANGED <<i, q>>
Next == Ask \/ NextObject \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
