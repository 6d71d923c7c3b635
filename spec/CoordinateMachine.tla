-------------------------- MODULE CoordinateMachine --------------------------
(* All clumps within small bounds, asked in both directions with all         *)
(* admissible ignored context; reversing an application twice.               *)
EXTENDS Coordinates, TLC
CONSTANTS N
VARIABLES raw, rev, x, y
vars == <<raw, rev, x, y>>
Init == /\ raw \in [bs : 0..N, be : 0..N, as : 0..N, ae : 0..N]
        /\ raw.bs <= raw.be /\ raw.as <= raw.ae
        /\ rev = FALSE /\ x = 0 /\ y = 0
Least == MinOf(raw.be - raw.bs, raw.ae - raw.as)
TurnAround == rev' = ~rev /\ UNCHANGED <<raw, x, y>>
Exchange == raw' = Exchanged(raw) /\ UNCHANGED <<rev, x, y>>
IgnoreMore == \/ x + y < Least /\ x' = x + 1 /\ UNCHANGED <<raw, rev, y>>
              \/ x + y < Least /\ y' = y + 1 /\ UNCHANGED <<raw, rev, x>>
Next == TurnAround \/ Exchange \/ IgnoreMore
Spec == Init /\ [][Next]_vars

R == Reports(raw, rev, x, y)
Dual == /\ R.old = Reports(raw, ~rev, x, y).new
        /\ R = Reports(Exchanged(raw), ~rev, x, y)
        /\ Exchanged(Exchanged(raw)) = raw
Consistent == \A s \in {R.old, R.new} :
    /\ s.len = s.end - s.start /\ s.range[2] - s.range[1] = s.len - x - y
    /\ s.mine[2] - s.mine[1] = s.len - x - y /\ s.mine[1] >= 0 /\ s.mine[2] <= s.len
    /\ s.range[1] = s.start + s.mine[1] /\ s.range[2] = s.start + s.mine[2]
SwitchesSides == [][TurnAround => Reports(raw', rev', x', y').old = R.new]_vars
BothIsNothing == [][Exchange => Reports(raw', ~rev', x', y') = R]_vars
=============================================================================
