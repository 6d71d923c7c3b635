---------------------------- MODULE ConsumeMachine ----------------------------
(* Design model of Consume; with HIST it also collects the histories that    *)
(* are replayed into the implementation (h).                                 *)
EXTENDS Consume, TLC, Json, IOUtils
CONSTANTS MAXLEN, DEPTH
VARIABLES h
vars == <<d, c, w, skip, h>>
Init == d \in {[n \in 1..m |-> n] : m \in 0..MAXLEN} /\ c = 0 /\ w = <<>> /\ skip = {} /\ h = <<>>
Op(o, n) == h' = Append(h, [o |-> o, n |-> n])
Next == /\ Len(h) < DEPTH
        /\ \/ \E n \in 0..Len(d) : WriteUpto(n) /\ Op("w", n)
           \/ \E n \in 1..(Len(d) - c) : Skip(n) /\ Op("s", n)
           \/ WriteRemainder /\ Op("r", 0)
Spec == Init /\ [][Next]_vars

InOrder == \A n \in 1..(Len(w) - 1) : w[n] < w[n + 1]
ExactlyTheSkipped == w = SelectSeq(Rng(d, 0, c), LAMBDA x : x - 1 \notin skip)
NeverBack == [][c' >= c /\ IsPrefixOf(w, w')]_vars
AllAfterRemainder == (h # <<>> /\ h[Len(h)].o = "r") => c = Len(d)
PastWritesNothing == [][(h' # h /\ h'[Len(h')].o = "w" /\ h'[Len(h')].n <= c) => w' = w /\ c' = c]_vars
EmptyAtEnd == Present(<<>>, Len(d)) /\ ~Present(<<>>, Len(d) + 1)

(* every complete history is printed for replay                              *)
Emit == Len(h) = DEPTH => PrintT("H " \o ToString(Len(d)) \o " " \o ToJson(h))
=============================================================================
