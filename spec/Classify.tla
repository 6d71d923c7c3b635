------------------------------- MODULE Classify -------------------------------
(* Which kind of diff two paths yield. A file is "absent", "dangling" (a     *)
(* link to nothing), "dir", "loop" (a link to itself) or a list of bytes.    *)
EXTENDS Reader, Kinds

Absent(f)  == f \in {"absent", "dangling"}
Content(f) == f \notin {"absent", "dangling", "dir", "loop"}
=============================================================================
