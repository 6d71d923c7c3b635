----------------------------- MODULE Coordinates -----------------------------
(* What a change, clump or stored clump reports about its two sides.         *)
(* raw: [bs, be, as, ae], what it holds; rev: whether it is asked in         *)
(* reverse; x, y: ignored leading and trailing context.                      *)
EXTENDS Base

OldSide(raw, rev) == IF rev THEN <<raw.as, raw.ae>> ELSE <<raw.bs, raw.be>>
NewSide(raw, rev) == OldSide(raw, ~rev)
Exchanged(raw) == [bs |-> raw.as, be |-> raw.ae, as |-> raw.bs, ae |-> raw.be]

About(side, x, y) ==
    [start |-> side[1], end |-> side[2], len |-> side[2] - side[1],
     range |-> <<side[1] + x, side[2] - y>>,                \* within the file
     mine  |-> <<x, side[2] - side[1] - y>>]                \* within the clump
Reports(raw, rev, x, y) ==
    [old |-> About(OldSide(raw, rev), x, y), new |-> About(NewSide(raw, rev), x, y)]

(* with displacement d *)
Adjusted(side, d, x, y) == [start |-> side[1] + d + x, len |-> side[2] - side[1] - x - y]

(* common runs <<i, j, n>> and their parts *)
EndsTrimmed(r, n)   == <<r[1], r[2], MinOf(n, r[3])>>
StartsTrimmed(r, n) == LET m == MinOf(n, r[3]) IN <<r[1] + r[3] - m, r[2] + r[3] - m, m>>
Split(r, n) == IF r[3] >= 2 * n THEN <<EndsTrimmed(r, n), StartsTrimmed(r, n)>> ELSE <<>>

(* what a unified clump's one-based header holds: a side without lines names *)
(* the line before                                                           *)
FromHeader(h) ==
    LET S(st, n) == IF n = 0 THEN st ELSE MaxOf(st - 1, 0) IN
    [bs |-> S(h[1], h[2]), be |-> S(h[1], h[2]) + h[2],
     as |-> S(h[3], h[4]), ae |-> S(h[3], h[4]) + h[4]]
=============================================================================
