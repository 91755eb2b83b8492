------------------------------- MODULE MLSSim -------------------------------
(***************************************************************************)
(* Random behaviours of MLSGroup for replay.  One transition is a whole    *)
(* round (proposals, commit, deliveries, joins) so that a short behaviour  *)
(* reaches deep groups: trees up to 16 leaves with blanks and unmerged     *)
(* leaves, forks, stale traffic, removed members.                          *)
(* Every random choice is bound by \E x \in {RandomElement(S)} so that it  *)
(* is made once.                                                           *)
(***************************************************************************)
EXTENDS Rounds

CONSTANTS Depth,    \* rounds per behaviour
          MaxLeaves, \* do not grow beyond
          Profile   \* which rounds are drawn how often, see Weights

Growth(s, e) == MaxLeaves - Cardinality(Leaves(Tree(s, e)))

\* A live epoch known to the reference peer with a V leaf to author from.
Authored(s) == {e \in Live(s) : Known(e) /\ VLeaves(s, e) # {}}

Round ==
  \E c0 \in Pick({c \in Active(w) : w.mem[c].at \in Authored(w)}) :
     LET e == w.mem[c0].at
         T == Tree(w, e)
         g == Growth(w, e)
     IN \E by \in Pick(VLeaves(w, e)), nA \in Pick(1..6), nR \in Pick(1..6), nU \in Pick(1..5) :
        \E adds \in RandSub(Max2(0, Min2(<<0, 0, 1, 2, 3, 5>>[nA], g)), Fresh(w)),
           rems \in RandSub(<<0, 0, 1, 1, 2, 3>>[nR], Leaves(T) \ {by}) :
        \E upds \in RandSub(<<0, 0, 1, 1, 2>>[nU], VLeaves(w, e) \ ({by} \cup rems)), snd \in Pick(Leaves(T)),
           refs \in Pick(1..3), wire \in Pick(Wires), pw \in Pick(Wires), forced \in Pick(BOOLEAN),
           keep \in Pick(1..9), mi \in Pick(1..10) :
        LET miss == IF mi = 1 THEN c0 ELSE 0
            items == [j \in 1..Cardinality(adds) |->
                        LET c == SetSeq(adds)[j] br == (refs = 1 \/ (refs = 2 /\ j % 2 = 0))
                        IN Item(Prop("add", c, 0, 0, IF br THEN snd ELSE by, 0, 0), br, pw, miss)]
                     \o [j \in 1..Cardinality(rems) |->
                        LET l == SetSeq(rems)[j] br == (refs = 1 \/ (refs = 2 /\ j % 2 = 1)) /\ l # snd
                        IN Item(Prop("rem", 0, 0, l, IF br THEN snd ELSE by, 0, 0), br, pw, miss)]
                     \o [j \in 1..Cardinality(upds) |->
                        LET l == SetSeq(upds)[j]
                        IN Item(Prop("upd", Nd(T, 2*l).c, 0, l, l, 0, 0), TRUE, pw, miss)]
        IN \E its \in Shuffles(items), qs \in Shuffles(Here(w, e)), lateOne \in Pick(BOOLEAN) :
           \E b \in {BuildPs(w, e, its, qs)} :
           LET path == forced \/ NeedsPath(b.ps)
               q == IF keep = 1 THEN Tail(qs) ELSE qs
           IN w' = Finish(b.s, e, by, b.ps, path, wire, q,
                          IF lateOne /\ Profile = "forks" THEN adds \cap G ELSE {})

\* CreateWelcome at an instance; everyone there, the creator included, follows.
GRound ==
  \E c \in Pick(Active(w)) :
    LET e == w.mem[c].at g == Growth(w, e)
    IN \E k \in Pick(1..4) : \E adds \in RandSub(IF k > g THEN g ELSE k, Fresh(w)) :
          \E q \in Shuffles(SetSeq(adds)), qs \in Shuffles(Here(w, e)) :
          \E s1 \in {GWelcome(w, c, q)} :
            LET i == Len(s1.cms)
            IN w' = JoinAll(DCommitAll(s1, qs, i), NewG(s1, i), i)

\* Two competing commits: the members split.
Fork ==
  \E c0 \in Pick({c \in Active(w) : w.mem[c].at \in Authored(w)}) :
     LET e == w.mem[c0].at
         here == InEpoch(w, e)
         g == Growth(w, e)
     IN \E by1 \in Pick(VLeaves(w, e)), by2 \in Pick(VLeaves(w, e)), side \in RandSub(Cardinality(here) \div 2, here),
           gw \in Pick(BOOLEAN), wire \in Pick(Wires), wire2 \in Pick(Wires), p2 \in Pick(BOOLEAN),
           new \in RandSub(IF g > 1 THEN 1 ELSE 0, Fresh(w)), rem \in RandSub(1, Leaves(Tree(w, e))) :
        LET adds == AddsOf(SetSeq(new), by1)
            rm == [j \in 1..Cardinality(rem \ {by2}) |-> Prop("rem", 0, 0, SetSeq(rem \ {by2})[j], by2, 0, 0)]
            i1 == Len(w.cms) + 1
            i2 == Len(w.cms) + 2
        IN \E s1 \in {IF gw /\ new # {} THEN GWelcome(w, c0, SetSeq(new))
                      ELSE VCommit(w, e, by1, adds, NeedsPath(adds) \/ p2, wire)} :
           \E s2 \in {VCommit(s1, e, by2, rm, TRUE, wire2)} :
           \E s3 \in {DCommitAll(s2, SetSeq(side), i1)} :
           \E s4 \in {DCommitAll(s3, SetSeq(here \ side), i2)} :
           \E s5 \in {JoinAll(s4, NewG(s2, i1), i1)} :
           \* each side is then shown the other's commit
           \E s6 \in {DCommitAll(s5, SetSeq(here \ side), i1)} :
              w' = DCommitAll(s6, SetSeq(side), i2)

\* Old or foreign traffic.
Stale ==
  \E c \in Pick(Active(w)) :
  \E x \in Pick({<<1, i>> : i \in 1..Len(w.cms)} \cup {<<2, i>> : i \in 1..Len(w.props)}
               \cup {<<3, i>> : i \in {j \in 1..Len(w.apps) : ~(w.apps[j].from = w.mem[c].at /\ w.apps[j].leaf = w.mem[c].leaf)}}) :
  \E s1 \in {CASE x[1] = 1 -> DeliverCommit(w, c, x[2])
              [] x[1] = 2 -> DeliverProp(w, c, x[2])
              [] x[1] = 3 -> DeliverApp(w, c, x[2])} : w' = Probe(s1, c)

\* A Welcome shown to a client it does not name.
Uninvited ==
  \E c \in Pick({c \in G : w.mem[c].at = 0}),
     i \in Pick({i \in 1..Len(w.cms) : w.cms[i].m.err = "ok" /\ w.cms[i].m.added # <<>>}) :
    w' = Join(w, c, i)

\* Application messages: from an instance or from the reference peer, read by
\* everyone there (out of order and repeatedly), refused elsewhere.
Apps ==
  \E c \in Pick(Active(w)), k \in Pick(1..3), gx \in Pick(1..7), v \in Pick(BOOLEAN) :
    LET gen == <<0, 0, 1, 2, 3, 7, 20>>[gx]
        e == w.mem[c].at
        n0 == Len(w.apps)
        fromV == v /\ Known(e) /\ VLeaves(w, e) # {}
    IN \E i \in Pick(IF fromV THEN VLeaves(w, e) ELSE {0}) :
       LET oth == SetSeq(IF fromV THEN Active(w) ELSE Active(w) \ {c})
       IN \E order \in Shuffles([j \in 1..k |-> n0 + j]) :
          \E s1 \in {FoldLeft(LAMBDA t, j : IF fromV THEN VApp(t, e, i, gen + j) ELSE GApp(t, c), w, [j \in 1..k |-> j])} :
            w' = FoldLeft(LAMBDA t, j : DAppAll(t, oth, j), s1, order)

Observe == \E q \in Shuffles(SetSeq(Active(w))) : w' = ProbeAll(w, q)

\* Arbitrary proposal lists: mostly ones breaking a rule; a list that breaks
\* none is an ordinary commit.
ListRound ==
  \E c0 \in Pick({c \in Active(w) : w.mem[c].at \in Authored(w)}) :
     LET e == w.mem[c0].at
         T == Tree(w, e)
         vl == VLeaves(w, e)
         mem == Members(T)
         fresh == IF Growth(w, e) > 1 THEN Fresh(w) ELSE {}
     IN \E by \in Pick(vl) :
        \E U \in {   {Item(Prop("rem", 0, 0, l, by, 0, 0), b, "pub", 0) : l \in 0..NLeaves(T)-1, b \in BOOLEAN}
                \cup {Item(Prop("upd", Nd(T, 2*l).c, 0, l, l, 0, 0), TRUE, "priv", 0) : l \in vl}
                \cup {Item(Prop("upd", Nd(T, 2*by).c, 0, by, by, 0, 0), FALSE, "priv", 0)}
                \cup {Item(Prop("add", c, 0, 0, by, 0, 0), b, "priv", 0) : c \in (mem \cup fresh) \ {0}, b \in BOOLEAN}
                \cup {Item(Prop(k, 0, 0, 0, by, 0, x), b, "pub", 0) : k \in {"psk", "gce", "reinit", "extinit"}, x \in 1..2, b \in BOOLEAN} } :
        \E n \in Pick(1..4) :
        \E r1 \in Pick(U), r2 \in Pick(U), r3 \in Pick(U), r4 \in Pick(U), path \in Pick(BOOLEAN), wire \in Pick(Wires) :
        \E b \in {BuildPs(w, e, SubSeq(<<r1, r2, r3, r4>>, 1, n), Here(w, e))} :
           LET qs == Here(w, e)
               err == MkCommit(b.s, e, by, b.ps, path).err
               special == \E j \in 1..Len(b.ps) : b.ps[j].k \in {"psk", "gce", "reinit"}
           IN IF special /\ err = "ok" THEN UNCHANGED w
              ELSE \E s1 \in {Finish(b.s, e, by, b.ps, path, wire, qs, {})} : w' = ProbeAll(s1, SetSeq(InEpoch(w, e)))

\* A commit that refers to proposals of other epochs and branches, or to ones
\* only some members have received.
OldRef ==
  \E c0 \in Pick({c \in Active(w) : w.mem[c].at \in Authored(w)}) :
     LET e == w.mem[c0].at
         qs == Here(w, e)
     IN \E i \in Pick(1..Len(w.props)), by \in Pick(VLeaves(w, e)), wire \in Pick(Wires), pw \in Pick(Wires),
           l \in Pick(Leaves(Tree(w, e)) \ {w.mem[c0].leaf}), mi \in Pick(1..3), two \in Pick(BOOLEAN) :
        LET miss == IF mi = 1 THEN c0 ELSE 0
            it == Item(Prop("rem", 0, 0, l, w.mem[c0].leaf, 0, 0), TRUE, pw, miss)
        IN \E b \in {IF two /\ l # by THEN BuildPs(w, e, <<it>>, qs) ELSE [s |-> w, ps |-> <<>>]} :
           \E s1 \in {Finish(b.s, e, by, b.ps \o <<[w.props[i].p EXCEPT !.r = i]>>, TRUE, wire, qs, {})} :
              w' = ProbeAll(s1, SetSeq(InEpoch(s1, e)))

----------------------------------------------------------------------------
\* A group founded by the reference peer starts by admitting clients.
Start(S) ==
  Bind(VCommit(InitWorld, 1, 0, AddsOf(S, 0), FALSE, "pub"), LAMBDA s1 : JoinAll(s1, NewG(s1, 1), 1))
Init == IF Founder \in G THEN w = InitWorld
        ELSE \E a \in RandSub(2, G), b \in RandSub(3, V \ {Founder}) :
             \E x \in Pick(G) : \E q \in Shuffles(SetSeq(a \cup b \cup {x})) : w = Start(q)
\* One kind of round is drawn per transition, by the profile's weights; if it
\* cannot happen nothing does.
Weights == CASE Profile = "mix"   -> <<4, 2, 2, 1, 2, 2, 1, 1, 1>>
             [] Profile = "trees" -> <<8, 2, 0, 0, 0, 0, 0, 3, 0>>
             [] Profile = "lists" -> <<2, 1, 0, 0, 0, 8, 0, 0, 0>>
             [] Profile = "forks" -> <<2, 1, 1, 2, 6, 0, 1, 1, 0>>
             [] Profile = "apps"  -> <<2, 1, 7, 2, 1, 0, 0, 0, 0>>
             [] Profile = "join"  -> <<5, 4, 1, 0, 1, 0, 3, 2, 0>>
             [] Profile = "refs"  -> <<5, 1, 0, 1, 2, 0, 0, 0, 5>>
             [] Profile = "stale" -> <<4, 2, 2, 6, 3, 0, 1, 0, 1>>
Draws == UNION {{<<i, n>> : n \in 1..Weights[i]} : i \in 1..9}
Can(k) == CASE k \in {1, 5, 6} -> \E c \in Active(w) : w.mem[c].at \in Authored(w)
            [] k = 2 -> Fresh(w) # {} /\ \A e \in Live(w) : Growth(w, e) > 0
            [] k = 9 -> w.props # <<>> /\ \E c \in Active(w) : w.mem[c].at \in Authored(w)
            [] k = 4 -> w.cms # <<>>
            [] k = 7 -> /\ \E c \in G : w.mem[c].at = 0
                        /\ \E i \in 1..Len(w.cms) : w.cms[i].m.err = "ok" /\ w.cms[i].m.added # <<>>
            [] OTHER -> Active(w) # {}
Do(k) == CASE k = 1 -> Round [] k = 2 -> GRound [] k = 3 -> Apps [] k = 4 -> Stale
           [] k = 5 -> Fork [] k = 6 -> ListRound [] k = 7 -> Uninvited [] k = 8 -> Observe [] k = 9 -> OldRef

Flush == Emit(w.hist) /\ UNCHANGED w
Next == IF TLCGet("level") < Depth THEN \E d \in Pick(Draws) : IF Can(d[1]) THEN Do(d[1]) ELSE UNCHANGED w
        ELSE Flush

Spec == Init /\ [][Next]_w
=============================================================================
