------------------------------ MODULE TraceParse ------------------------------
(* C18: recorded parses. A record has the lines ls from the one parsed at on *)
(* (hc: the characters of the first), and what came out: res "none", "error" *)
(* or "clump" with b, a, c0, c1, n lines consumed, s the digits of the       *)
(* header's numbers and z the zero-based places [old start, old end, new     *)
(* start, new end].                                                          *)
EXTENDS Unified, TLC, Json, IOUtils
VARIABLES i, at, p, n
vars == <<i, at, p, n>>
Recs == ndJsonDeserialize(IOEnv.RECS)
R == Recs[i]
H == Header(R.hc)
Bl == Value(H[2])
Al == Value(H[4])

Init == i \in 1..Len(Recs) /\ at = "start" /\ p = ParseStart /\ n = 1
To(x) == at' = x /\ UNCHANGED i

NoLine == at = "start" /\ R.ls = <<>> /\ R.res = "none" /\ To("end") /\ UNCHANGED <<p, n>>
NoHeader == at = "start" /\ R.ls # <<>> /\ H = <<>> /\ R.res = "none" /\ To("end") /\ UNCHANGED <<p, n>>
TooLarge == /\ at = "start" /\ R.ls # <<>> /\ H # <<>>
            /\ \E m \in 1..4 : ~Fits(H[m])
            /\ R.res = "error" /\ To("end") /\ UNCHANGED <<p, n>>
Endless ==  \* more lines stated than any text has
            /\ at = "start" /\ R.ls # <<>> /\ H # <<>>
            /\ \A m \in 1..4 : Fits(H[m])
            /\ ~Small(H[2]) \/ ~Small(H[4])
            /\ R.res = "error" /\ To("end") /\ UNCHANGED <<p, n>>
Begin == /\ at = "start" /\ R.ls # <<>> /\ H # <<>>
         /\ \A m \in 1..4 : Fits(H[m])
         /\ Small(H[2]) /\ Small(H[4])
         /\ To("body") /\ UNCHANGED <<p, n>>
TakeLine == /\ at = "body" /\ ~Full(p, Bl, Al) /\ ~Over(p, Bl, Al) /\ p.at = "body" /\ n < Len(R.ls)
            /\ p' = Take(p, R.ls[n + 1]) /\ n' = n + 1 /\ UNCHANGED <<i, at>>
Marks == n < Len(R.ls) /\ IsMarker(R.ls[n + 1]) /\ p.n > 0
TakeMarker == /\ at = "body" /\ Full(p, Bl, Al) /\ ~Over(p, Bl, Al) /\ Marks
              /\ p' = NoNewline(p) /\ n' = n + 1 /\ To("complete")
Complete == /\ at = "body" /\ Full(p, Bl, Al) /\ ~Over(p, Bl, Al) /\ ~Marks
            /\ To("complete") /\ UNCHANGED <<p, n>>
Refuse == /\ at = "body"
          /\ p.at = "error" \/ Over(p, Bl, Al) \/ (~Full(p, Bl, Al) /\ n = Len(R.ls))
          /\ R.res = "error" /\ To("end") /\ UNCHANGED <<p, n>>

Cap(x) == MinOf(x, 255)
Placed(m) ==    \* m = 1 for the old side, 3 for the new
    IF ~Small(H[m]) THEN TRUE
    ELSE IF Value(H[m]) = 0 /\ Value(H[m + 1]) > 0 THEN TRUE
    ELSE LET z == Place(Value(H[m]), Value(H[m + 1])) IN
         R.z[m] = z /\ R.z[m + 1] = z + Value(H[m + 1])
Yields == /\ at = "complete" /\ R.res = "clump"
          /\ R.b = p.b /\ R.a = p.a /\ R.n = n /\ R.s = H
          /\ p.front \/ (R.c0 = Cap(p.c0) /\ R.c1 = Cap(p.c1))
          /\ Placed(1) /\ Placed(3)
          /\ To("end") /\ UNCHANGED <<p, n>>
Accept == at = "end" /\ PrintT(<<"ACC", i>>) /\ To("accepted") /\ UNCHANGED <<p, n>>
Next == NoLine \/ NoHeader \/ TooLarge \/ Endless \/ Begin \/ TakeLine \/ TakeMarker \/ Complete
        \/ Refuse \/ Yields \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
