-------------------------------- MODULE FsOps --------------------------------
(* What single file operations do. Names refer to nodes, which have data d   *)
(* and a mode m; open files are nodes with a position.                       *)
EXTENDS Base
VARIABLE os     \* [name: names -> node or 0, node: sequence of [d, m], fd: fd -> [o, pos, app]]

Fd(n) == os.fd[n]
IsOpen(n) == n \in DOMAIN os.fd
With(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Without(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]

(* open for writing or reading; o has fd, n, cr(eate), tr(uncate), app(end), m: mode of new files *)
Open(o) ==
    IF os.name[o.n] = 0
    THEN /\ o.cr
         /\ os' = [os EXCEPT !.node = Append(@, [d |-> <<>>, m |-> o.m]),
                             !.name[o.n] = Len(os.node) + 1,
                             !.fd = With(@, o.fd, [o |-> Len(os.node) + 1, pos |-> 0, app |-> o.app])]
    ELSE os' = [os EXCEPT !.fd = With(@, o.fd, [o |-> os.name[o.n], pos |-> 0, app |-> o.app]),
                          !.node = IF o.tr THEN [@ EXCEPT ![os.name[o.n]].d = <<>>] ELSE @]
Written(d, pos, x) ==
    LET old == IF Len(d) < pos THEN d \o [n \in 1..(pos - Len(d)) |-> 0] ELSE d IN
    SubSeq(old, 1, pos) \o x \o SubSeq(old, pos + Len(x) + 1, Len(old))
Write(o) ==
    LET f == Fd(o.fd)
        pos == IF f.app THEN Len(os.node[f.o].d) ELSE f.pos
    IN os' = [os EXCEPT !.node[f.o].d = Written(@, pos, o.d), !.fd[o.fd].pos = pos + Len(o.d)]
Seek(o) == os' = [os EXCEPT !.fd[o.fd].pos = o.k]
Truncate(o) ==
    os' = [os EXCEPT !.node[Fd(o.fd).o].d =
        IF Len(@) >= o.k THEN SubSeq(@, 1, o.k) ELSE @ \o [n \in 1..(o.k - Len(@)) |-> 0]]
Close(o) == os' = [os EXCEPT !.fd = Without(@, o.fd)]
Rename(o) == os' = [os EXCEPT !.name[o.n2] = os.name[o.n], !.name[o.n] = IF o.n = o.n2 THEN @ ELSE 0]
Link(o)   == os' = [os EXCEPT !.name[o.n2] = os.name[o.n]]
Unlink(o) == os' = [os EXCEPT !.name[o.n] = 0]
Chmod(o)  == os' = [os EXCEPT !.node[os.name[o.n]].m = o.m]
Fchmod(o) == os' = [os EXCEPT !.node[Fd(o.fd).o].m = o.m]

Does(o) ==
    CASE o.o = "open" -> Open(o)         [] o.o = "write" -> Write(o)   [] o.o = "seek" -> Seek(o)
      [] o.o = "truncate" -> Truncate(o) [] o.o = "close" -> Close(o)   [] o.o = "rename" -> Rename(o)
      [] o.o = "link" -> Link(o)         [] o.o = "unlink" -> Unlink(o) [] o.o = "chmod" -> Chmod(o)
      [] o.o = "fchmod" -> Fchmod(o)
=============================================================================
