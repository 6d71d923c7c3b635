------------------------------- MODULE Unified -------------------------------
(* Unified diff clumps: the header, the body and what they state.            *)
(* Header lines are lists of character codes; body lines are strings in the  *)
(* executors' encoding, in which a backslash is \5c;                         *)
EXTENDS Base

----------------------------------------------------------------------------
(* Characters *)
White(x) == x \in (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Digit(x) == x \in 48..57

(* position after the longest run of characters from n on that are C         *)
After(cs, n, C(_)) ==
    LET m == IF n > Len(cs) THEN 0 ELSE SelectInSeq(SubSeq(cs, n, Len(cs)), LAMBDA x : ~C(x))
    IN  IF m = 0 THEN MaxOf(n, Len(cs) + 1) ELSE n + m - 1
Char(cs, n, x) == n <= Len(cs) /\ cs[n] = x

(* numbers are lists of digits without leading zeros                         *)
RECURSIVE Digits(_)
Digits(cs) == IF Len(cs) > 1 /\ cs[1] = 48 THEN Digits(Tail(cs)) ELSE [n \in 1..Len(cs) |-> cs[n] - 48]
RECURSIVE Value(_)
Value(ds) == IF ds = <<>> THEN 0 ELSE 10 * Value(Front(ds)) + Last(ds)
Small(ds) == Len(ds) <= 9
Largest == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
RECURSIVE DigitsLeq(_, _)
DigitsLeq(x, y) == IF x = <<>> THEN TRUE
                   ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE DigitsLeq(Tail(x), Tail(y))
Fits(ds) == Len(ds) < 20 \/ (Len(ds) = 20 /\ DigitsLeq(ds, Largest))
RECURSIVE DigitsOf(_)
DigitsOf(v) == IF v < 10 THEN <<v>> ELSE Append(DigitsOf(v \div 10), v % 10)

(* start and optional length from n on: <<position after, start, length>>    *)
StartAndLength(cs, n) ==
    LET m == After(cs, n, Digit) IN
    IF m = n THEN <<>>
    ELSE IF Char(cs, m, 44)
    THEN LET k == After(cs, m + 1, Digit) IN
         IF k = m + 1 THEN <<>> ELSE <<k, Digits(SubSeq(cs, n, m - 1)), Digits(SubSeq(cs, m + 1, k - 1))>>
    ELSE <<m, Digits(SubSeq(cs, n, m - 1)), <<1>>>>

(* <<>> if the line is not a clump header, else <<bs, bl, as, al>>           *)
Header(cs) ==
    LET n1 == After(cs, 3, White) IN
    IF ~(Char(cs, 1, 64) /\ Char(cs, 2, 64)) \/ n1 = 3 \/ ~Char(cs, n1, 45) THEN <<>>
    ELSE LET b == StartAndLength(cs, n1 + 1) IN
    IF b = <<>> THEN <<>>
    ELSE LET n2 == After(cs, b[1], White) IN
    IF n2 = b[1] \/ ~Char(cs, n2, 43) THEN <<>>
    ELSE LET a == StartAndLength(cs, n2 + 1) IN
    IF a = <<>> THEN <<>>
    ELSE LET n3 == After(cs, a[1], White) IN
    IF n3 = a[1] \/ ~(Char(cs, n3, 64) /\ Char(cs, n3 + 1, 64)) THEN <<>>
    ELSE <<b[2], b[3], a[2], a[3]>>

(* the zero-based place of n lines said to start at (one-based) st           *)
Place(st, n) == IF n = 0 THEN st ELSE st - 1

----------------------------------------------------------------------------
(* The body, line by line. The state of a parse p has                        *)
(*   b, a   old and new lines so far        c0, c1  context before and after *)
(*   front  no change seen yet              last    marker of the last line  *)
(*   n      body lines taken                at      "body", "error"          *)
First(l) == IF Len(l) = 0 THEN "" ELSE SubSeq(l, 1, 1)
IsMarker(l) == Len(l) >= 4 /\ SubSeq(l, 1, 4) = "\\5c;"
Body(l) == SubSeq(l, 2, Len(l))
NoEol(l) == IF EndsEol(l) THEN SubSeq(l, 1, Len(l) - 1) ELSE l
CutLast(ls) == IF ls = <<>> THEN ls ELSE Append(Front(ls), NoEol(Last(ls)))

ParseStart == [b |-> <<>>, a |-> <<>>, c0 |-> 0, c1 |-> 0, front |-> TRUE, last |-> "", n |-> 0, at |-> "body"]
Error(p) == [p EXCEPT !.at = "error"]

Removed(p, l) == [p EXCEPT !.b = Append(@, Body(l)), !.c1 = 0, !.front = FALSE, !.last = "-", !.n = @ + 1]
Added(p, l)   == [p EXCEPT !.a = Append(@, Body(l)), !.c1 = 0, !.front = FALSE, !.last = "+", !.n = @ + 1]
Context(p, l) == [p EXCEPT !.b = Append(@, Body(l)), !.a = Append(@, Body(l)),
                           !.c0 = IF p.front THEN @ + 1 ELSE @, !.c1 = IF p.front THEN @ ELSE @ + 1,
                           !.last = " ", !.n = @ + 1]
NoNewline(p)  == [p EXCEPT !.b = IF p.last \in {"-", " "} THEN CutLast(@) ELSE @,
                           !.a = IF p.last \in {"+", " "} THEN CutLast(@) ELSE @, !.n = @ + 1]

Take(p, l) ==
    CASE First(l) = "-" -> Removed(p, l)
      [] First(l) = "+" -> Added(p, l)
      [] First(l) = " " -> Context(p, l)
      [] IsMarker(l) /\ p.n > 0 -> NoNewline(p)
      [] OTHER -> Error(p)

(* h as small numbers *)
Full(p, bl, al) == Len(p.b) >= bl /\ Len(p.a) >= al
Over(p, bl, al) == Len(p.b) > bl \/ Len(p.a) > al

RECURSIVE ParseBody(_, _, _, _)
ParseBody(p, ls, bl, al) ==
    IF p.at = "error" \/ Over(p, bl, al) THEN Error(p)
    ELSE IF Full(p, bl, al) THEN IF ls # <<>> /\ IsMarker(ls[1]) /\ p.n > 0 THEN NoNewline(p) ELSE p
    ELSE IF ls = <<>> THEN Error(p)
    ELSE ParseBody(Take(p, ls[1]), Tail(ls), bl, al)

----------------------------------------------------------------------------
(* Writing the body for lines with their marks                               *)
Marked(m, l) == IF EndsEol(l) THEN <<m \o l>> ELSE <<m \o l \o "\n", "\\5c; No newline at end of file\n">>
MarkedAll(m, ls) == Flatten([n \in 1..Len(ls) |-> Marked(m, ls[n])])
=============================================================================
