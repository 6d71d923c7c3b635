------------------------------ MODULE PathLines ------------------------------
(* The before (---) and after (+++) lines of unified diffs, as lists of      *)
(* character codes.                                                          *)
EXTENDS Unified

Upper(x) == x \in 65..90
Lower(x) == x \in 97..122
Sign(x)  == x \in {43, 45}

(* formats of time stamps: D digit, U capital, L small letter, S sign,       *)
(* anything else itself                                                      *)
Plain    == <<"D","D","D","D","-","D","D","-","D","D"," ","D","D",":","D","D",":","D","D">>
Fraction == <<".","D","D","D","D","D","D","D","D","D">>
Zone     == <<" ","S","D","D","D","D">>
Formats  == {Plain \o Zone, Plain \o Fraction \o Zone,
             <<"U","L","L"," ","U","L","L"," ","D","D"," ","D","D",":","D","D",":","D","D"," ",
               "D","D","D","D">> \o Zone}
Is(f, x) ==
    CASE f = "D" -> Digit(x) [] f = "U" -> Upper(x) [] f = "L" -> Lower(x) [] f = "S" -> Sign(x)
      [] f = "-" -> x = 45 [] f = " " -> x = 32 [] f = ":" -> x = 58 [] f = "." -> x = 46

StampAt(cs, n) ==
    LET ok == {f \in Formats : n + Len(f) - 1 <= Len(cs) /\ \A m \in 1..Len(f) : Is(f[m], cs[n + m - 1])}
    IN IF ok = {} THEN <<>> ELSE SubSeq(cs, n, n + Len(CHOOSE f \in ok : TRUE) - 1)

NotWhite(x) == ~White(x)
NotQuote(x) == x # 34

(* the path from n on: <<position after, path>>                              *)
PathAt(cs, n) ==
    LET q == After(cs, n + 1, NotQuote)
        w == After(cs, n, NotWhite)
    IN IF Char(cs, n, 34) /\ q > n + 1 /\ Char(cs, q, 34) /\ q < Len(cs) /\ White(cs[q + 1])
       THEN <<q + 1, SubSeq(cs, n + 1, q - 1)>>
       ELSE IF w > n THEN <<w, SubSeq(cs, n, w - 1)>> ELSE <<>>

Mark(side) == IF side = "before" THEN 45 ELSE 43
(* <<>> or <<path, time stamp>>, which is <<>> if there is none              *)
PathLine(side, cs) ==
    IF ~(\A m \in 1..3 : Char(cs, m, Mark(side))) \/ ~Char(cs, 4, 32) THEN <<>>
    ELSE LET f == PathAt(cs, 5) IN
    IF f = <<>> THEN <<>>
    ELSE LET n == After(cs, f[1], White) IN
    IF n = f[1] THEN <<>> ELSE <<f[2], StampAt(cs, n)>>
=============================================================================
