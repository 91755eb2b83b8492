-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Large groups.  One commit adds most of N members at once, instances of  *)
(* the implementation sitting at the places where the shape of the tree or *)
(* the size of a number changes; then members all over the tree commit,    *)
(* update, leave and arrive in numbers, and everyone talks to everyone.    *)
(***************************************************************************)
EXTENDS Rounds

CONSTANTS Depth, Sizes
Crowd == 11..420

\* Where the instances sit in a tree of n leaves.
Corners(n) == {i \in {n - 1, n - 2, n \div 2} \cup {7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256} : i >= 1 /\ i < n}
Refp(i) == 12 + i  \* the reference peer's clients, in order; 11 is the founder
Seating(q, n) == \* q: leaves of the instances, in the order of their names
  [i \in 1..(n - 1) |-> IF \E c \in 1..Len(q) : q[c] = i THEN CHOOSE c \in 1..Len(q) : q[c] = i ELSE Refp(i)]

Begin(n) ==
  \E q \in {SubSeq(Shuf(SetSeq(Corners(n))), 1, Min2(Cardinality(Corners(n)), Cardinality(G) - 2))} :
  \E path \in Pick(BOOLEAN), wire \in Pick(Wires) :
  \E s \in {VCommit(InitWorld, 1, 0, AddsOf(Seating(q, n), 0), path, wire)} :
    w' = JoinAll(s, [i \in 1..Len(q) |-> i], 1)

Cur == w.mem[CHOOSE c \in Active(w) : TRUE].at
Everyone == Here(w, Cur)
Rem(i, by) == Prop("rem", 0, 0, i, by, 0, 0)
Upd(i) == Prop("upd", Nd(Tree(w, Cur), 2*i).c, 0, i, i, 0, 0)
AddP(c, by) == Prop("add", c, 0, 0, by, 0, 0)

\* A commit by the reference peer: some updates by reference, some removals,
\* some newcomers.
Change(by, U, R, N, path, wire) ==
  \E a \in {BuildPs(w, Cur, [i \in 1..Len(U) |-> Item(Upd(U[i]), TRUE, wire, 0)]
                            \o [i \in 1..Len(R) |-> Item(Rem(R[i], by), FALSE, wire, 0)]
                            \o [i \in 1..Len(N) |-> Item(AddP(N[i], by), FALSE, wire, 0)], Everyone)} :
    w' = Finish(a.s, Cur, by, a.ps, path, wire, Everyone, {})
Some(k, S) == SubSeq(Shuf(SetSeq(S)), 1, Min2(k, Cardinality(S)))
Newcomers(k) == Some(k, Fresh(w) \cap V) \o Some(k % 2, Fresh(w) \cap G)

Paths == \E by \in Pick(VLeaves(w, Cur)), wire \in Pick(Wires) : Change(by, <<>>, <<>>, <<>>, TRUE, wire)
Updates == \E by \in Pick(VLeaves(w, Cur)), k \in Pick({1, 3, 9}) :
             \E U \in {Some(k, VLeaves(w, Cur) \ {by})} : Change(by, U, <<>>, <<>>, TRUE, "priv")
\* Some leave; or all of the far half of the tree that the reference peer holds.
Leave == \E by \in Pick({i \in VLeaves(w, Cur) : i < 8}), far \in Pick(BOOLEAN), k \in Pick({1, 4, 20}) :
           LET L == VLeaves(w, Cur) \ {by}
               n == NLeaves(Tree(w, Cur)) \div 2
           IN \E R \in {IF far THEN SetSeq({i \in L : i >= n}) ELSE Some(k, L)} :
                Change(by, <<>>, R, <<>>, TRUE, "pub")
Quit == \E by \in Pick(VLeaves(w, Cur)), c \in Pick(Active(w)) : \* an instance is removed
          IF Cardinality(Active(w)) < 3 THEN UNCHANGED w
          ELSE \E s \in {VCommit(w, Cur, by, <<Rem(w.mem[c].leaf, by)>>, TRUE, "priv")} :
                 w' = [DCommitAll(s, Everyone, Len(s.cms)) EXCEPT !.mem[c] = Out]
Arrive == \E by \in Pick(VLeaves(w, Cur)), k \in Pick({1, 5, 40}), path \in Pick(BOOLEAN) :
            \E N \in {Shuf(Newcomers(k))} : IF N = <<>> THEN UNCHANGED w ELSE Change(by, <<>>, <<>>, N, path, "pub")
Invite == \E c \in Pick(Active(w)), k \in Pick({1, 3, 30}) :
            \E N \in {Shuf(Newcomers(k))} :
              IF N = <<>> THEN UNCHANGED w
              ELSE \E s \in {GWelcome(w, c, N)} :
                     w' = JoinAll(DCommitAll(s, Everyone, Len(s.cms)), NewG(s, Len(s.cms)), Len(s.cms))
\* Many leave, the blanked paths are filled again, and many take the empty
\* places: nodes with long lists of unmerged leaves.
Change1(s, by, R, N, path) ==
  LET e == Len(s.eps)
      q == Here(s, e)
  IN Bind(BuildPs(s, e, [i \in 1..Len(R) |-> Item(Rem(R[i], by), FALSE, "pub", 0)]
                        \o [i \in 1..Len(N) |-> Item(AddP(N[i], by), FALSE, "pub", 0)], q),
          LAMBDA a : Finish(a.s, e, by, a.ps, path, "pub", q, {}))
Tide == \E L \in {Shuf(SetSeq(VLeaves(w, Cur)))} : \E k \in {Len(L) \div 2} :
        IF Cur # Len(w.eps) \/ Len(L) < 10 THEN UNCHANGED w
        ELSE \E R \in {SubSeq(L, k + 1, Len(L))} : \E s1 \in {Change1(w, L[1], R, <<>>, TRUE)} :
             \E s2 \in {FoldLeft(LAMBDA t, i : Change1(t, L[i], <<>>, <<>>, TRUE), s1, [i \in 1..4 |-> i])} :
             \E N \in {Shuf(Some(Len(L) - k, Fresh(s2) \cap V) \o Some(1, Fresh(s2) \cap G))} :
               w' = Change1(s2, L[2], <<>>, N, FALSE)
Talk == \E c \in Pick(Active(w)), by \in Pick(VLeaves(w, Cur)), gen \in Pick({0, 1, 17}) :
          \E s \in {VApp(GApp(w, c), Cur, by, gen)} :
            w' = DAppAll(DAppAll(s, SelectSeq(Everyone, LAMBDA x : x # c), Len(s.apps) - 1), Everyone, Len(s.apps))
Look == \E c \in Pick(Active(w)) : w' = Probe(w, c)

Do(k) == CASE k <= 2 -> Paths [] k = 3 -> Updates [] k = 4 -> Leave [] k = 5 -> Quit [] k = 6 -> Arrive
           [] k = 7 -> Invite [] k <= 9 -> Talk [] k = 10 -> Look [] k = 11 -> Tide

Init == w = InitWorld
Flush == Emit(ProbeAll(w, SetSeq(Active(w))).hist) /\ UNCHANGED w
Next == IF w.cms = <<>> THEN \E n \in Pick(Sizes) : Begin(n)
        ELSE IF TLCGet("level") < Depth THEN \E k \in Pick(1..11) : Do(k) ELSE Flush
Spec == Init /\ [][Next]_w
=============================================================================
