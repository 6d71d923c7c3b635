------------------------------ MODULE AnyMachine ------------------------------
(* C24: design model of applying clumps that need not come from any two      *)
(* files: any positions, contents and lengths of context, in any order.      *)
EXTENDS ApplyMachine
CONSTANTS STARTS, SIDE, MANY

Sides == Files(SIDE)
AnyClumps == {x \in [bs : STARTS, b : Sides, as : STARTS, a : Sides, c0 : 0..1, c1 : 0..1] :
                 x.c0 + x.c1 <= MinOf(Len(x.b), Len(x.a))}
(* the first is any, a second comes from few                                 *)
FewClumps == {x \in AnyClumps : x.as = 0 /\ Len(x.a) < 2}
AnyInit == /\ P \in Files(MAXFILE)
           /\ \/ ~MANY /\ \E x \in AnyClumps : cs = <<x>>
              \/ MANY /\ \E x \in AnyClumps, y \in FewClumps : cs = <<x, y>>
           /\ s = Start
AnySpec == AnyInit /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
