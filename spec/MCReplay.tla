------------------------------ MODULE MCReplay ------------------------------
(***************************************************************************)
(* The exhaustive exploration of MCGroup, its transitions emitted for      *)
(* replay: the shortest history to a state, one step more, and then what   *)
(* every member shows of itself and reads of the others.  In full that is  *)
(* every step of the small model; Rate thins it out.                       *)
(***************************************************************************)
EXTENDS MCGroup, Rounds

CONSTANTS Rate, Salt

Shown(s) ==
  Bind(ProbeAll(s, SetSeq(Active(s))),
       LAMBDA s1 : FoldLeft(LAMBDA t, c : Bind(GApp(t, c), LAMBDA u : DAppAll(u, SetSeq(Active(u) \ {c}), Len(u.apps))),
                            s1, SetSeq(Active(s))))
Emitted == Draw(Rate) => Emit(Shown(w').hist)

RInit == SeedDraw(Salt) /\ MCInit
RSpec == RInit /\ [][MCNext]_w
=============================================================================
