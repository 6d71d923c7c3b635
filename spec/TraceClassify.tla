---------------------------- MODULE TraceClassify ----------------------------
(* C15: recorded diffs of two paths nb and na leading to  *)
(* lb and la, which hold fb and fa; the directory holds `left` afterwards.   *)
EXTENDS Classify, TLC, Json, IOUtils
VARIABLES i, at
vars == <<i, at, r>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
V == R.v
Init == i \in 1..Len(Recs) /\ at = "two paths" /\ r = ReadStart

F(n) == IF n = "b" THEN [t |-> R.tb, d |-> R.fb] ELSE [t |-> R.ta, d |-> R.fa]
FileIs(n)   == F(n).t = "file"
TextIs(n)   == F(n).t = "file" /\ IsText(F(n).d)
AbsentIs(n) == F(n).t \in {"absent", "dangling"}
K == Kind("b", "a", FileIs, TextIs, AbsentIs)

(* a clump's old items are in the first file and its new ones in the second  *)
BytesOf(n) == F(n).d
InPlace == \A n \in 1..Len(V.cl) : LET x == V.cl[n] IN
              Match(BytesOf("b"), x.bs, x.b) /\ Match(BytesOf("a"), x.as, x.a)
Names == V.bp = R.nb /\ V.ap = R.na

Fails == K \in {"error", "notfound"} /\ V.kind = "error" /\ (K = "notfound" => V.notfound)
NothingIfSame == (V.cl = <<>>) <=> (BytesOf("b") = BytesOf("a"))
TextChange == K = "TextChange" /\ V.kind = K /\ Names /\ NothingIfSame
ByteChange == K = "ByteChange" /\ V.kind = K /\ Names /\ NothingIfSame /\ InPlace = TRUE
Addition == K \in {"TextAdd", "ByteAdd"} /\ V.kind = K /\ V.path = R.nb /\ V.content = BytesOf("a")
Removal == K \in {"TextRemove", "ByteRemove"} /\ V.kind = K /\ V.path = R.nb /\ V.content = BytesOf("b")

Unmodified ==
    LET Is(n) == \E m \in 1..Len(R.left) :
          R.left[m].n = (IF n = "b" THEN R.lb ELSE R.la)
          /\ IF F(n).t = "file" THEN R.left[m].d = F(n).d ELSE R.left[m].d = F(n).t
        There == {n \in {"b", "a"} : F(n).t # "absent"}
    IN /\ \A n \in There : Is(n)
       /\ Len(R.left) = Cardinality({IF n = "b" THEN R.lb ELSE R.la : n \in There})

Classified ==
    /\ at = "two paths" /\ (Fails \/ TextChange \/ ByteChange \/ Addition \/ Removal) /\ Unmodified = TRUE
    /\ PrintT(<<"ACC", i>>) /\ at' = "diff" /\ UNCHANGED <<i, r>>
Next == Classified
Spec == Init /\ [][Next]_vars
=============================================================================
