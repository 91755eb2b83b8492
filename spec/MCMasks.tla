------------------------------ MODULE MCMasks ------------------------------
(***************************************************************************)
(* Wide trees: N leaves filled in one of several ways, then one commit     *)
(* removing any subset of the members by any author, with or without new   *)
(* members; emitted for replay like MCShapes does.                         *)
(***************************************************************************)
EXTENDS MCShapes

CONSTANTS Sizes, Fills, Seats

Inst(i) == MinOf({c \in G : Cardinality({d \in G : d < c}) = i})
Refp(i) == MinOf({c \in V : Cardinality({d \in V : d < c}) = i})
\* Who sits at leaf i: instances on odd, on even or on high leaves.
Seat(p, i) == IF i = 0 THEN Founder
              ELSE IF CASE p = "odd" -> i % 2 = 1 [] p = "even" -> i % 2 = 0 [] p = "high" -> i >= 3
                   THEN Inst(i - 1) ELSE Refp(i)
Grow(s, p, from, to, path) ==
  Follow(s, 0, AddsOf([j \in 1..(to - from) |-> Seat(p, from + j - 1)], 0), path, "pub")
\* Path commits by every leaf held by the reference peer.
FillBy(s, L) == FoldLeft(LAMBDA t, i : IF i \in VLeaves(t, Cur(t)) THEN Follow(t, i, <<>>, TRUE, "priv") ELSE t, s, L)
Upto(n) == [i \in 1..n |-> i - 1]

Base(n, f, p) ==
  CASE f = "bare" -> Grow(InitWorld, p, 1, n, FALSE)           \* no parent filled
    [] f = "path" -> Grow(InitWorld, p, 1, n, TRUE)            \* one path
    [] f = "full" -> FillBy(Grow(InitWorld, p, 1, n, FALSE), Upto(n))
    [] f = "late" -> Bind(FillBy(Grow(InitWorld, p, 1, n \div 2 + 1, FALSE), Upto(n \div 2 + 1)),
                          LAMBDA s : IF n > n \div 2 + 1 THEN Grow(s, p, n \div 2 + 1, n, FALSE) ELSE s) \* unmerged leaves

MInit == SeedDraw(Salt) /\ \E n \in Sizes, f \in Fills, p \in Seats : \E s \in {Base(n, f, p)} : w = s
MNext ==
  /\ LET L == Leaves(Now(w)) IN
     \E by \in L : \E R \in SUBSET (L \ {by}), n \in 0..MaxAdds, path \in BOOLEAN :
       /\ path \/ (R = {} /\ n > 0)
       \* commits that leave few members, and so shrink the tree, more often
       /\ Draw(IF Cardinality(L \ R) <= 2 THEN (Rate \div 12) + 1 ELSE Rate)
       /\ \E s1 \in {Commit(w, by, R, {}, n, path)} :
          \E s2 \in {Tested(s1)} : Emit(s2.hist)
  /\ UNCHANGED w
MSpec == MInit /\ [][MNext]_w
=============================================================================
