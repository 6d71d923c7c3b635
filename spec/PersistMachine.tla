---------------------------- MODULE PersistMachine ----------------------------
(* Small diffs of every kind are stored, damaged in one place in every way   *)
(* that takes a tree out of the documents, and loaded.                       *)
EXTENDS Document, TLC
(* (TLC compares records by the field it met first, which has to be t)       *)
T0 == [t |-> "x"]
VARIABLES d, doc, at, ok
vars == <<d, doc, at, ok>>

Lines == {<<>>, <<"x">>, <<"x", "y">>}
Bytes == {<<>>, <<0>>, <<255, 0>>}
Clumps(C) == {x \in [bs : {0, 7}, b : C, as : {0, 7}, a : C, c0 : {0, 1}, c1 : {0, 1}] :
                x.c0 + x.c1 <= Len(x.a) /\ x.c0 + x.c1 <= Len(x.b)}
OneOrNone(S) == {<<>>} \cup {<<x>> : x \in S}
Diffs == [kind : {"TextChange"}, bp : {"p", ""}, ap : {"q"}, cl : OneOrNone(Clumps(Lines))]
   \cup  [kind : {"ByteChange"}, bp : {"p"}, ap : {"q", ""}, cl : OneOrNone(Clumps(Bytes))]
   \cup  [kind : {"TextAdd", "TextRemove"}, path : {"p", ""}, content : Lines]
   \cup  [kind : {"ByteAdd", "ByteRemove"}, path : {"p", ""}, content : Bytes]

Init == d \in Diffs /\ doc = <<>> /\ at = "diff" /\ ok = TRUE

Store == at = "diff" /\ doc' = Stored(d) /\ at' = "stored" /\ UNCHANGED <<d, ok>>

(* one damage to the object at the end of a path of keys and indices         *)
Drop(o) == {Obj(RemoveAt(o.v, n)) : n \in 1..Len(o.v)}
Twice(o) == {Obj(Append(o.v, o.v[n])) : n \in 1..Len(o.v)}
Rename(o) == {Obj([o.v EXCEPT ![n][1] = "other"]) : n \in 1..Len(o.v)}
RECURSIVE Damaged(_)
Damaged(x) ==
    CASE x.t = "o" -> Drop(x) \cup Twice(x) \cup Rename(x) \cup {Str("s")}
                      \cup UNION {{Obj([x.v EXCEPT ![n][2] = y]) : y \in Damaged(x.v[n][2])} : n \in 1..Len(x.v)}
      [] x.t = "a" -> {Str("s"), Bool(TRUE)}
                      \cup UNION {{Arr([x.v EXCEPT ![n] = y]) : y \in Damaged(x.v[n])} : n \in 1..Len(x.v)}
      [] x.t = "n" -> {Str("s"), [t |-> "x"]}
      [] OTHER     -> {Num(3), [t |-> "x"], Arr(<<>>)}

Damage == /\ at = "stored" /\ \E y \in Damaged(doc) : doc' = y
          /\ ok' = FALSE /\ at' = "damaged" /\ UNCHANGED d
(* more context than there are lines                                         *)
Widen == /\ at = "stored" /\ d.kind \in {"TextChange", "ByteChange"} /\ d.cl # <<>>
         /\ LET x == d.cl[1] IN \E n \in 0..Min({Len(x.a), Len(x.b)}) :
              doc' = Stored([d EXCEPT !.cl[1].c0 = n, !.cl[1].c1 = Min({Len(x.a), Len(x.b)}) + 1 - n])
         /\ ok' = FALSE /\ at' = "damaged" /\ UNCHANGED d
Load == /\ at \in {"stored", "damaged"}
        /\ at' = IF WellFormed(doc) THEN "loaded" ELSE "refused"
        /\ d' = IF WellFormed(doc) THEN Loaded(doc) ELSE d
        /\ UNCHANGED <<doc, ok>>
Next == Store \/ Damage \/ Widen \/ Load
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OriginalsAreAccepted == at = "refused" => ~ok
DamagedIsRefused == at = "loaded" => ok
LoadedIsStored == [][Load /\ at' = "loaded" => d' = d /\ Stored(d') = doc]_vars
=============================================================================
