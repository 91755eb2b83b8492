------------------------------- MODULE Weave --------------------------------
(***************************************************************************)
(* Free interleavings of MLSGroup's steps.  Where MLSSim moves in whole    *)
(* rounds, here every transition is a single step of one client: proposals *)
(* arrive one by one, Welcomes and application messages are created at any *)
(* time and mostly never used, several commits compete for an epoch, and   *)
(* members lag behind each other.                                          *)
(***************************************************************************)
EXTENDS Rounds

CONSTANTS Depth, MaxLeaves

Room(e) == Cardinality(Leaves(Tree(w, e))) < MaxLeaves
Authored == {e \in Live(w) : Known(e) /\ VLeaves(w, e) # {}}
PropsOf(e) == {i \in 1..Len(w.props) : w.props[i].from = e}
CmsOf(e) == {i \in 1..Len(w.cms) : w.cms[i].m.from = e}

\* Someone sends a proposal.
Offer ==
  \E e \in Pick({x \in Live(w) : Known(x)}), k \in Pick(1..5), wire \in Pick(Wires) :
    \E snd \in Pick(Leaves(Tree(w, e))), l \in Pick(Leaves(Tree(w, e))) :
      IF k <= 2 /\ Fresh(w) # {} /\ Room(e)
      THEN \E c \in Pick(Fresh(w)) : w' = Propose(w, e, Prop("add", c, 0, 0, snd, 0, 0), wire)
      ELSE IF k = 3 /\ VLeaves(w, e) # {}
      THEN \E v \in Pick(VLeaves(w, e)) :
             w' = Propose(w, e, Prop("upd", Nd(Tree(w, e), 2*v).c, w.nv, v, v, 0, 0), wire)
      ELSE w' = Propose(w, e, Prop("rem", 0, 0, l, snd, 0, 0), wire)

\* One member receives one proposal, usually of its epoch.
Hear ==
  \E c \in Pick(Active(w)), any \in Pick(1..8) :
    LET mine == PropsOf(w.mem[c].at)
    IN \E i \in Pick(IF any = 1 \/ mine = {} THEN 1..Len(w.props) ELSE mine) : w' = DeliverProp(w, c, i)

\* An instance invites someone; whether anyone will ever use it is open.
Invite ==
  \E c \in Pick(Active(w)), k \in Pick(1..3) :
    IF ~Room(w.mem[c].at) THEN UNCHANGED w
    ELSE \E S \in RandSub(Min2(2, k), Fresh(w)) : \E q \in Shuffles(SetSeq(S)) : w' = GWelcome(w, c, q)

\* The longest list that stays valid, taken greedily from the proposals q.
Greedy(T, by, q) ==
  FoldLeft(LAMBDA ps, i : IF ListError(T, Append(ps, w.props[i].p), by) = "ok" THEN Append(ps, w.props[i].p) ELSE ps,
           <<>>, q)
\* Half the commits use only what some member has received.
Commit ==
  \E e \in Pick(Authored), wire \in Pick(Wires), n \in Pick(1..4), forced \in Pick(BOOLEAN), heard \in Pick(BOOLEAN) :
    \E by \in Pick(VLeaves(w, e)), c \in Pick(InEpoch(w, e)) :
    \E S \in RandSub(n, IF heard THEN w.mem[c].pend ELSE PropsOf(e)) :
    \E q \in Shuffles(SetSeq(S)) :
      LET ps == Greedy(Tree(w, e), by, q)
      IN w' = VCommit(w, e, by, ps, forced \/ NeedsPath(ps), wire)

\* One member receives one commit, usually of its epoch.
Follow ==
  \E c \in Pick(Active(w)), any \in Pick(1..8) :
    LET mine == CmsOf(w.mem[c].at)
    IN \E i \in Pick(IF any = 1 \/ mine = {} THEN 1..Len(w.cms) ELSE mine) : w' = DeliverCommit(w, c, i)

Named == {x \in G \X (1..Len(w.cms)) : CanJoin(w, x[1], x[2]) /\ Names(w.cms[x[2]].m, x[1])}
Enter == \E x \in Pick(Named) : w' = Join(w, x[1], x[2])

Say ==
  \E c \in Pick(Active(w)), v \in Pick(BOOLEAN), gen \in Pick(0..3) :
    LET e == w.mem[c].at
    IN IF v /\ e \in Authored THEN \E i \in Pick(VLeaves(w, e)) : w' = VApp(w, e, i, gen)
       ELSE w' = GApp(w, c)
\* A member is not shown what it sent itself.
Read ==
  \E c \in Pick(Active(w)), any \in Pick(1..5) :
    LET readable == {i \in 1..Len(w.apps) : w.apps[i].leaf # w.mem[c].leaf}
        mine == {i \in readable : w.apps[i].from = w.mem[c].at}
        from == IF any = 1 \/ mine = {} THEN readable ELSE mine
    IN IF from = {} THEN UNCHANGED w ELSE \E i \in Pick(from) : w' = DeliverApp(w, c, i)

Look == \E c \in Pick(Active(w)) : w' = Probe(w, c)

Draws == UNION {{<<i, n>> : n \in 1..<<5, 8, 3, 3, 9, 5, 2, 3, 2>>[i]} : i \in 1..9}
Can(k) == CASE k = 1 -> \E e \in Live(w) : Known(e)
            [] k = 2 -> w.props # <<>>
            [] k = 3 -> Fresh(w) # {}
            [] k = 4 -> Authored # {}
            [] k = 5 -> w.cms # <<>>
            [] k = 6 -> Named # {}
            [] k = 8 -> w.apps # <<>>
            [] OTHER -> TRUE
Do(k) == CASE k = 1 -> Offer [] k = 2 -> Hear [] k = 3 -> Invite [] k = 4 -> Commit [] k = 5 -> Follow
           [] k = 6 -> Enter [] k = 7 -> Say [] k = 8 -> Read [] k = 9 -> Look

Start(S) ==
  Bind(VCommit(InitWorld, 1, 0, AddsOf(S, 0), FALSE, "pub"), LAMBDA s1 : JoinAll(s1, NewG(s1, 1), 1))
Init == IF Founder \in G THEN w = InitWorld
        ELSE \E a \in RandSub(3, G), b \in RandSub(3, V \ {Founder}) :
             \E q \in Shuffles(SetSeq(a \cup b)) : w = Start(q)

\* Whoever is in some epoch at the end can still do everything.
Last3 == Bind(ProbeAll(w, SetSeq(Active(w))),
              LAMBDA s1 : FoldLeft(LAMBDA t, c : Bind(GApp(t, c), LAMBDA u : DAppAll(u, SetSeq(Active(u) \ {c}), Len(u.apps))),
                                   s1, SetSeq(Active(w))))
Flush == Emit(Last3.hist) /\ UNCHANGED w
Next == IF TLCGet("level") < Depth THEN \E d \in Pick(Draws) : IF Can(d[1]) THEN Do(d[1]) ELSE UNCHANGED w
        ELSE Flush
Spec == Init /\ [][Next]_w
=============================================================================
