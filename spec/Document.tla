------------------------------- MODULE Document -------------------------------
(* Stored diffs: documents that are trees of objects, lists, strings,        *)
(* numbers and truth values. A tree is a record with                         *)
(*   t = "o": v a list of <<key, tree>>      t = "a": v a list of trees      *)
(*   t = "s": v a string                     t = "b": v a truth value        *)
(*   t = "n": v a natural number (big: TRUE if it is larger than TLC's)      *)
(*   t = "x": anything else (null, negative or fractional numbers)           *)
(* and a diff is what Diff views of it are: [kind, ...].                     *)
EXTENDS Base

Str(x) == [t |-> "s", v |-> x]
Num(x) == [t |-> "n", v |-> x, big |-> FALSE]
Bool(x) == [t |-> "b", v |-> x]
Arr(x) == [t |-> "a", v |-> x]
Obj(x) == [t |-> "o", v |-> x]
Map(f(_), ls) == [n \in 1..Len(ls) |-> f(ls[n])]

----------------------------------------------------------------------------
(* What is stored for a diff                                                 *)
StoredSnippet(item(_), start, ls) ==
    Obj(<< <<"start", Num(start)>>, <<"items", Arr(Map(item, ls))>> >>)
StoredClump(item(_), x) ==
    Obj(<< <<"context_lengths", Arr(<<Num(x.c0), Num(x.c1)>>)>>,
           <<"before", StoredSnippet(item, x.bs, x.b)>>,
           <<"after", StoredSnippet(item, x.as, x.a)>> >>)
Stored(d) ==
    Obj(<< <<d.kind,
      CASE d.kind = "TextChange" ->
             Obj(<< <<"before_path", Str(d.bp)>>, <<"after_path", Str(d.ap)>>,
                    <<"clumps", Arr(Map(LAMBDA x : StoredClump(Str, x), d.cl))>> >>)
        [] d.kind = "ByteChange" ->
             Obj(<< <<"before_path", Str(d.bp)>>, <<"after_path", Str(d.ap)>>,
                    <<"compressed", Bool(FALSE)>>,
                    <<"clumps", Arr(Map(LAMBDA x : StoredClump(Num, x), d.cl))>> >>)
        [] d.kind \in {"TextAdd", "TextRemove"} ->
             Obj(<< <<"path", Str(d.path)>>, <<"lines", Arr(Map(Str, d.content))>> >>)
        [] OTHER ->
             Obj(<< <<"path", Str(d.path)>>, <<"compressed", Bool(FALSE)>>,
                    <<"bytes", Arr(Map(Num, d.content))>> >>) >> >>)

----------------------------------------------------------------------------
(* Which trees are documents                                                 *)
Keys(o) == {o.v[n][1] : n \in 1..Len(o.v)}
Get(o, k) == o.v[SelectInSeq(o.v, LAMBDA kv : kv[1] = k)][2]
(* an object with each of the fields fs once, and perhaps others             *)
HasFields(o, fs) ==
    /\ o.t = "o"
    /\ fs \subseteq Keys(o)
    /\ \A k \in fs : Cardinality({n \in 1..Len(o.v) : o.v[n][1] = k}) = 1

IsStr(x)    == x.t = "s"
IsNat(x)    == x.t = "n"
IsByte(x)   == x.t = "n" /\ ~x.big /\ x.v <= 255
IsBool(x)   == x.t = "b"
IsArr(Item(_), x) == x.t = "a" /\ \A n \in 1..Len(x.v) : Item(x.v[n])
IsContext(x) == IsArr(IsByte, x) /\ Len(x.v) = 2
IsSnippet(Item(_), x) ==
    /\ HasFields(x, {"start", "items"})
    /\ IsNat(Get(x, "start")) /\ IsArr(Item, Get(x, "items"))
IsClump(Item(_), x) ==
    /\ HasFields(x, {"context_lengths", "before", "after"})
    /\ IsContext(Get(x, "context_lengths"))
    /\ IsSnippet(Item, Get(x, "before")) /\ IsSnippet(Item, Get(x, "after"))
    (* both are part of the lines or bytes of each side                      *)
    /\ LET c == Get(x, "context_lengths").v
           Room(side) == c[1].v + c[2].v <= Len(Get(Get(x, side), "items").v)
       IN Room("before") /\ Room("after")
IsTextClump(x) == IsClump(IsStr, x)
IsByteClump(x) == IsClump(IsByte, x)

Kinds == {"TextChange", "ByteChange", "TextAdd", "TextRemove", "ByteAdd", "ByteRemove"}
IsBody(kind, x) ==
    CASE kind = "TextChange" ->
           /\ HasFields(x, {"before_path", "after_path", "clumps"})
           /\ IsStr(Get(x, "before_path")) /\ IsStr(Get(x, "after_path"))
           /\ IsArr(IsTextClump, Get(x, "clumps"))
      [] kind = "ByteChange" ->
           /\ HasFields(x, {"before_path", "after_path", "compressed", "clumps"})
           /\ IsStr(Get(x, "before_path")) /\ IsStr(Get(x, "after_path"))
           /\ IsBool(Get(x, "compressed"))
           /\ IsArr(IsByteClump, Get(x, "clumps"))
      [] kind \in {"TextAdd", "TextRemove"} ->
           /\ HasFields(x, {"path", "lines"})
           /\ IsStr(Get(x, "path")) /\ IsArr(IsStr, Get(x, "lines"))
      [] OTHER ->
           /\ HasFields(x, {"path", "compressed", "bytes"})
           /\ IsStr(Get(x, "path")) /\ IsBool(Get(x, "compressed"))
           /\ IsArr(IsByte, Get(x, "bytes"))
WellFormed(tree) ==
    /\ tree.t = "o" /\ Len(tree.v) = 1
    /\ tree.v[1][1] \in Kinds
    /\ IsBody(tree.v[1][1], tree.v[1][2])

(* the diff a well formed document is                                        *)
Val(x) == x.v
SnippetItems(x) == Map(Val, Get(x, "items").v)
Loaded(tree) ==
    LET kind == tree.v[1][1]
        o == tree.v[1][2]
        Clump(x) == LET b == Get(x, "before")
                        a == Get(x, "after")
                        c == Get(x, "context_lengths").v
                    IN [bs |-> Get(b, "start").v, b |-> SnippetItems(b),
                        as |-> Get(a, "start").v, a |-> SnippetItems(a),
                        c0 |-> c[1].v, c1 |-> c[2].v]
    IN CASE kind \in {"TextChange", "ByteChange"} ->
              [kind |-> kind, bp |-> Get(o, "before_path").v, ap |-> Get(o, "after_path").v,
               cl |-> Map(Clump, Get(o, "clumps").v)]
         [] kind \in {"TextAdd", "TextRemove"} ->
              [kind |-> kind, path |-> Get(o, "path").v, content |-> Map(Val, Get(o, "lines").v)]
         [] OTHER ->
              [kind |-> kind, path |-> Get(o, "path").v, content |-> Map(Val, Get(o, "bytes").v)]

(* views do not show the context lengths of byte clumps, nor how content is  *)
(* divided into lines                                                        *)
Same(v, e) ==
    /\ v.kind = e.kind
    /\ CASE v.kind = "TextChange" -> v = e
         [] v.kind = "ByteChange" ->
              /\ v.bp = e.bp /\ v.ap = e.ap /\ Len(v.cl) = Len(e.cl)
              /\ (\A n \in 1..Len(v.cl) : \A f \in {"bs", "b", "as", "a"} : v.cl[n][f] = e.cl[n][f]) = TRUE
         [] v.kind \in {"TextAdd", "TextRemove"} -> v.path = e.path
         [] OTHER -> v.path = e.path /\ v.content = e.content
=============================================================================
