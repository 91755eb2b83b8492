-------------------------------- MODULE Long --------------------------------
(***************************************************************************)
(* Epochs in which much is said.  A member creates many application        *)
(* messages, or many Welcomes, in a row; some of the messages reach the    *)
(* others, in any order and across bursts.  The members' own counters are  *)
(* the model: sent[c] application messages so far in the epoch, each with  *)
(* the next generation, starting anew with each epoch.                     *)
(***************************************************************************)
EXTENDS Rounds

CONSTANTS Depth, Bursts, Handshakes,
          First   \* messages one member has sent to begin with

\* The messages of a burst worth keeping: its ends, and those around the
\* powers of two a counter might be cut off at.
Edges(n) == {i \in {1, 2, n - 1, n} \cup {255, 256, 257, 258} \cup {65535, 65536, 65537, 65538} : i >= 1 /\ i <= n}
Burst(s, c, n) ==
  LET keep == SetToSortSeq(Edges(n), <)
  IN Log([s EXCEPT !.apps = @ \o [i \in 1..Len(keep) |-> [from |-> s.mem[c].at, leaf |-> s.mem[c].leaf]]],
         [a |-> "burst", c |-> c, kind |-> "app", n |-> n, keep |-> keep, id |-> Len(s.apps) + 1])
Crowd(s, c, n) ==
  Log(s, [a |-> "burst", c |-> c, kind |-> "hs", n |-> n, keep |-> <<>>, id |-> 0,
          tree |-> AddLeaf(Tree(s, s.mem[c].at), LeafNd(0, 0)).tree])

Talk == \E c \in Pick(Active(w)), n \in Pick(Bursts) : w' = Burst(w, c, n)
Invite == \E c \in Pick(Active(w)), n \in Pick(Handshakes) : w' = Crowd(w, c, n)
Hear ==
  LET can == {x \in Active(w) \X (1..Len(w.apps)) : w.apps[x[2]].from = w.mem[x[1]].at /\ w.apps[x[2]].leaf # w.mem[x[1]].leaf}
  IN IF can = {} THEN UNCHANGED w
     ELSE \E S \in RandSub(8, can) : \E q \in Shuffles(SetSeq(S)) :
            w' = FoldLeft(LAMBDA t, x : DeliverApp(t, x[1], x[2]), w, q)
\* The epoch ends, for all.
Turn ==
  LET e == w.mem[CHOOSE c \in Active(w) : TRUE].at
  IN \E path \in Pick(BOOLEAN), by \in Pick(VLeaves(w, e)) :
     \E new \in RandSub(1, Fresh(w)) :
       IF new = {} THEN UNCHANGED w
       ELSE w' = Finish(w, e, by, AddsOf(SetSeq(new), by), path, "priv", Here(w, e), {})
Do(k) == CASE k <= 3 -> Talk [] k = 4 -> Invite [] k <= 7 -> Hear [] k = 8 -> Turn

Start == Bind(VCommit(InitWorld, 1, 0, AddsOf(<<1, 12, 2, 13, 3>>, 0), TRUE, "pub"), LAMBDA s : JoinAll(s, <<1, 2, 3>>, 1))
Init == \E s \in {Start} : w = IF First = 0 THEN s ELSE Burst(s, 1, First)
Flush == Emit(ProbeAll(w, SetSeq(Active(w))).hist) /\ UNCHANGED w
Next == IF TLCGet("level") < Depth THEN \E k \in Pick(1..8) : Do(k) ELSE Flush
Spec == Init /\ [][Next]_w
=============================================================================
