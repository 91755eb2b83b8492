----------------------------- MODULE MCShapes ------------------------------
(***************************************************************************)
(* Every shape of tree reachable within MaxLeaf leaves, and every commit   *)
(* of at most MaxProps proposals on it, explored breadth first.  Two       *)
(* worlds are the same when their current trees have the same shape; a     *)
(* world carries the (shortest) history that led there, and each explored  *)
(* commit is emitted for replay: history, the commit, what everyone holds  *)
(* afterwards, and two more path commits that need the keys just learnt.   *)
(***************************************************************************)
EXTENDS Rounds

CONSTANTS MaxLeaf, MaxProps, MaxAdds,
          Rate,     \* emit one in Rate transitions
          Salt,     \* which ones
          MaxDepth  \* commits in a history

Cur(s) == Len(s.eps)
Now(s) == Tree(s, Cur(s))
Shape(T) == [j \in 1..Len(T) |-> <<T[j].t, T[j].u>>]
shapes == Shape(Now(w))

\* Instances first, then reference clients; the founder is one of the latter.
RECURSIVE FirstN(_, _)
FirstN(S, n) == IF n = 0 THEN <<>> ELSE <<MinOf(S)>> \o FirstN(S \ {MinOf(S)}, n - 1)

\* Everyone at the current epoch follows, newcomers join.
Follow(s, by, ps, path, wire) == Finish(s, Cur(s), by, ps, path, wire, Here(s, Cur(s)), {})

\* An author that does not cost an observer, if there is one.
Spare(s, L) ==
  LET T == Now(s)
      free == {i \in L : ~\E c \in G : s.mem[c].at = Cur(s) /\ s.mem[c].leaf = i}
  IN IF free # {} THEN MaxOf(free) ELSE MaxOf(L)
Again(s) == IF Cardinality(Leaves(Now(s))) < 2 THEN s
            ELSE Follow(s, Spare(s, Leaves(Now(s))), <<>>, TRUE, "pub")
Tested(s) == Bind(ProbeAll(s, Here(s, Cur(s))),
                  LAMBDA s1 : Bind(Again(s1), LAMBDA s2 : Bind(Again(s2), LAMBDA s3 : ProbeAll(s3, Here(s3, Cur(s3))))))

Ups(T, S, v) == [j \in 1..Cardinality(S) |-> LET l == SetSeq(S)[j] IN Item(Prop("upd", Nd(T, 2*l).c, v + j, l, l, 0, 0), TRUE, "pub", 0)]
Rems(S, by) == [j \in 1..Cardinality(S) |-> Item(Prop("rem", 0, 0, SetSeq(S)[j], by, 0, 0), FALSE, "pub", 0)]
Adds(q, by) == [j \in 1..Len(q) |-> Item(Prop("add", q[j], 0, 0, by, 0, 0), FALSE, "priv", 0)]

Commit(s, by, R, U, n, path) ==
  Bind(BuildPs(s, Cur(s), Ups(Now(s), U, s.nv) \o Rems(R, by) \o Adds(FirstN(Fresh(s), n), by), Here(s, Cur(s))),
       LAMBDA b : Follow(b.s, by, b.ps, path, "priv"))

Next ==
  /\ Len(w.cms) < MaxDepth
  /\ LET T == Now(w) L == Leaves(T) IN
     \E by \in L : \E R \in SUBSET (L \ {by}), n \in 0..MaxAdds :
     \E U \in SUBSET (L \ ({by} \cup R)), path \in BOOLEAN :
       /\ Cardinality(R) + Cardinality(U) + n <= MaxProps
       /\ path \/ (R \cup U = {} /\ n > 0)
       /\ Cardinality(L) - Cardinality(R) + n <= MaxLeaf
       /\ Cardinality(Fresh(w)) > n
       /\ \E s1 \in {Commit(w, by, R, U, n, path)} :
            /\ NLeaves(Now(s1)) <= MaxLeaf
            /\ (Draw(Rate) => \E s2 \in {Tested(s1)} : Emit(s2.hist))
            /\ w' = s1

\* Start with two members so that something can be observed.
Init == SeedDraw(Salt) /\ w = Bind(VCommit(InitWorld, 1, 0, AddsOf(<<MinOf(G)>>, 0), FALSE, "pub"), LAMBDA s1 : JoinAll(s1, NewG(s1, 1), 1))
Spec == Init /\ [][Next]_w

\* What MLSGroup promises, here for every transition explored.
Good == TreeOK(Now(w)) /\ LeafOK /\ PrivOK /\ w.cms[Len(w.cms)].m.err = "ok"
=============================================================================
