-------------------------------- MODULE Kinds --------------------------------
(* The kind of diff that two paths yield                                     *)
EXTENDS Integers, Sequences

Kind(fb, fa, isFile(_), isText(_), isAbsent(_)) ==
    IF isAbsent(fb) /\ isAbsent(fa) THEN "notfound"
    ELSE IF \E f \in {fb, fa} : ~isAbsent(f) /\ ~isFile(f) THEN "error"
    ELSE LET word == IF \A f \in {fb, fa} : isAbsent(f) \/ isText(f) THEN "Text" ELSE "Byte"
         IN word \o (IF isAbsent(fb) THEN "Add" ELSE IF isAbsent(fa) THEN "Remove" ELSE "Change")
=============================================================================
