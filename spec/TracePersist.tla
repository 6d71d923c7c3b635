---------------------------- MODULE TracePersist ----------------------------
(* C14: recorded storing and loading. Records of k = "new" hold the diff v,  *)
(* the loaded one v2, whether it is stored as the same document again, and   *)
(* what applying both comes to; records of k = "load" a document with the    *)
(* damage done to it: dm = "cut", "junk", "twice", "utf8" (not a complete    *)
(* document any more), "ws" (white space added), "tree" (the tree it is), and*)
(* v what was loaded, w what the undamaged one is.                           *)
EXTENDS Document, TLC, Json, IOUtils
VARIABLES i, at
vars == <<i, at>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
Init == i \in 1..Len(Recs) /\ at = "stored"

LoadDiff == /\ at = "stored" /\ R.k = "new" /\ at' = "loaded" /\ UNCHANGED i
            /\ IF R.v.kind = "error" THEN "v2" \notin DOMAIN R
               ELSE /\ R.v2 = R.v /\ R.same
                    /\ R.ap2 = R.ap
Refuse == /\ at = "stored" /\ R.k = "load"
          /\ \/ R.dm \in {"cut", "junk", "twice", "utf8"}
             \/ R.dm = "tree" /\ ~WellFormed(R.tree)
          /\ R.v.kind = "refused"
          /\ at' = "loaded" /\ UNCHANGED i
Plain == /\ at = "stored" /\ R.k = "load" /\ R.dm \in {"ws", "none"} /\ R.v = R.w
         /\ at' = "loaded" /\ UNCHANGED i

LoadTree == /\ at = "stored" /\ R.k = "load" /\ R.dm = "tree" /\ WellFormed(R.tree)
            /\ Same(R.v, Loaded(R.tree))
            /\ at' = "loaded" /\ UNCHANGED i
(* fields nobody knows, or structures given as lists: loaded or refused      *)
Unspecified == /\ at = "stored" /\ R.k = "load" /\ R.dm = "any"
               /\ at' = "loaded" /\ UNCHANGED i
Accept == at = "loaded" /\ PrintT(<<"ACC", i>>) /\ at' = "end" /\ UNCHANGED i
Next == LoadDiff \/ Refuse \/ Plain \/ LoadTree \/ Unspecified \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
