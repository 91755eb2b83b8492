---------------------------- MODULE RatchetTree ----------------------------
(***************************************************************************)
(* The public ratchet tree of RFC 9420 section 7: leaves and parents that  *)
(* are blank or filled, unmerged leaves, resolution, filtered direct path, *)
(* and the effect of Add, Update, Remove and UpdatePath.                   *)
(* Keys are symbolic: leaf keys are <<1, client, version>> and parent keys *)
(* are <<2, id, 0>>; two nodes share a key iff the tuples are equal.       *)
(***************************************************************************)
EXTENDS TreeMath

Blank == [t |-> "b", c |-> 0, v |-> 0, k |-> 0, u |-> <<>>]
LeafNd(c, v) == [t |-> "l", c |-> c, v |-> v, k |-> 0, u |-> <<>>]
ParentNd(k, u) == [t |-> "p", c |-> 0, v |-> 0, k |-> k, u |-> u]

NoKey == <<0, 0, 0>>
KeyOf(nd) == IF nd.t = "l" THEN <<1, nd.c, nd.v>> ELSE <<2, nd.k, 0>>

\* A tree is a sequence; node x is at position x+1.
Nd(T, x) == T[x + 1]
NLeaves(T) == (Len(T) + 1) \div 2
Blanks(n) == [i \in 1..n |-> Blank]
Leaves(T) == {i \in 0..NLeaves(T)-1 : Nd(T, 2*i).t = "l"}
Members(T) == {Nd(T, 2*i).c : i \in Leaves(T)}
LeafOf(T, c) == CHOOSE i \in Leaves(T) : Nd(T, 2*i).c = c
DP(T, x) == DirectPath(NLeaves(T), x)

RECURSIVE Resolve(_, _)
Resolve(T, x) ==
  LET nd == Nd(T, x)
  IN IF nd.t = "b"
     THEN IF IsLeafNode(x) THEN <<>> ELSE Resolve(T, Left(x)) \o Resolve(T, Right(x))
     ELSE <<x>> \o [i \in 1..Len(nd.u) |-> 2 * nd.u[i]]

RECURSIVE InsertSorted(_, _)
InsertSorted(s, i) == IF s = <<>> THEN <<i>>
                      ELSE IF i < Head(s) THEN <<i>> \o s
                      ELSE IF i = Head(s) THEN s
                      ELSE <<Head(s)>> \o InsertSorted(Tail(s), i)

\* Section 7.7: leftmost blank leaf, else double the tree; the new leaf is
\* unmerged at every non-blank ancestor.
AddLeaf(T, nd) ==
  LET free == {i \in 0..NLeaves(T)-1 : Nd(T, 2*i).t = "b"}
      i    == IF free = {} THEN NLeaves(T) ELSE MinOf(free)
      T1   == IF free = {} THEN T \o Blanks(Len(T) + 1) ELSE T
      anc  == Range(DP(T1, 2*i))
  IN [leaf |-> i,
      tree |-> [j \in 1..Len(T1) |->
                 IF j - 1 = 2*i THEN nd
                 ELSE IF (j - 1) \in anc /\ T1[j].t = "p"
                      THEN ParentNd(T1[j].k, InsertSorted(T1[j].u, i))
                      ELSE T1[j]]]

BlankPath(T, x) ==
  LET dp == Range(DP(T, x))
  IN [j \in 1..Len(T) |-> IF (j - 1) \in dp THEN Blank ELSE T[j]]

UpdateLeaf(T, i, nd) == [BlankPath(T, 2*i) EXCEPT ![2*i + 1] = nd]

RECURSIVE Truncate(_)
Truncate(T) ==
  LET n == NLeaves(T)
  IN IF n = 1 THEN T
     ELSE IF \A i \in (n \div 2)..(n - 1) : Nd(T, 2*i).t = "b"
          THEN Truncate(SubSeq(T, 1, n - 1))
          ELSE T

RemoveLeaf(T, i) == Truncate([BlankPath(T, 2*i) EXCEPT ![2*i + 1] = Blank])

\* Nodes of the direct path of leaf node x whose copath child has a
\* non-empty resolution, leaf to root.
FilteredDP(T, x) ==
  LET dp == DP(T, x)
      child(p) == IF Covers(Left(p), x) THEN Right(p) ELSE Left(p)
  IN SelectSeq(dp, LAMBDA p : Resolve(T, child(p)) # <<>>)
CopathChild(p, x) == IF Covers(Left(p), x) THEN Right(p) ELSE Left(p)

\* Section 7.5: blank the direct path, then fill the filtered direct path
\* with fresh keys k0, k0+1, ... and install the new leaf.
MergePath(T, i, nd, k0) ==
  LET T0  == BlankPath(T, 2*i)
      fdp == FilteredDP(T0, 2*i)
  IN [j \in 1..Len(T0) |->
       IF j - 1 = 2*i THEN nd
       ELSE IF \E h \in 1..Len(fdp) : fdp[h] = j - 1
            THEN ParentNd(k0 + (CHOOSE h \in 1..Len(fdp) : fdp[h] = j - 1) - 1, <<>>)
            ELSE T0[j]]

----------------------------------------------------------------------------
\* Proposals in a commit, already resolved. Fields: k kind, c client,
\* v leaf version, l target leaf, s sender leaf, r proposal reference (0 = inline),
\* x a discriminator for the kinds that carry no tree operation.
Prop(k, c, v, l, s, r, x) ==
  [k |-> k, c |-> c, v |-> v, l |-> l, s |-> s, r |-> r, x |-> x]

InTree(T, i) == i \in 0..NLeaves(T)-1

RECURSIVE ApplyUpdates(_, _)
ApplyUpdates(T, ps) ==
  IF ps = <<>> THEN T
  ELSE LET p == Head(ps)
       IN ApplyUpdates(IF p.k = "upd" /\ InTree(T, p.s) THEN UpdateLeaf(T, p.s, LeafNd(p.c, p.v)) ELSE T,
                       Tail(ps))
RECURSIVE ApplyRemoves(_, _)
ApplyRemoves(T, ps) ==
  IF ps = <<>> THEN T
  ELSE LET p == Head(ps)
       IN ApplyRemoves(IF p.k = "rem" /\ InTree(T, p.l) THEN RemoveLeaf(T, p.l) ELSE T, Tail(ps))
RECURSIVE ApplyAdds(_, _, _)
ApplyAdds(T, ps, added) ==
  IF ps = <<>> THEN [tree |-> T, added |-> added]
  ELSE LET p == Head(ps)
       IN IF p.k = "add"
          THEN LET r == AddLeaf(T, LeafNd(p.c, p.v))
               IN ApplyAdds(r.tree, Tail(ps), Append(added, [c |-> p.c, leaf |-> r.leaf]))
          ELSE ApplyAdds(T, Tail(ps), added)

\* Section 12.3: updates, then removes, then adds in list order.
ApplyProps(T, ps) == ApplyAdds(ApplyRemoves(ApplyUpdates(T, ps), ps), ps, <<>>)

\* Section 12.2 for a regular commit by leaf `by' on tree T.
Dup(ps, K, f(_)) == \E i, j \in 1..Len(ps) :
                      i < j /\ ps[i].k \in K /\ ps[j].k \in K /\ f(ps[i]) = f(ps[j])
Target(p) == IF p.k = "upd" THEN p.s ELSE p.l
RemovedLeaves(ps) == {ps[i].l : i \in {j \in 1..Len(ps) : ps[j].k = "rem"}}
\* The commits of this model bring no pre-shared key into the new epoch and
\* leave the group's extensions as they are (none): those claiming otherwise lie.
LeftOut(ps) == \E i \in 1..Len(ps) : ps[i].k = "psk" \/ (ps[i].k = "gce" /\ ps[i].x = 2)
ListError(T, ps, by) ==
  IF \E i \in 1..Len(ps) : ps[i].k = "extinit" THEN "extinit"
  ELSE IF \E i \in 1..Len(ps) : ps[i].k = "upd" /\ ps[i].s = by THEN "update-by-committer"
  ELSE IF \E i \in 1..Len(ps) : ps[i].k = "rem" /\ ps[i].l = by THEN "remove-committer"
  \* (x = 1: a leaf far outside of the tree, of which the committer makes leaf l)
  ELSE IF \E i \in 1..Len(ps) : ps[i].k = "rem" /\ (ps[i].l \notin Leaves(T) \/ ps[i].x = 1) THEN "remove-nonmember"
  ELSE IF Dup(ps, {"upd", "rem"}, Target) THEN "same-leaf-twice"
  ELSE IF Dup(ps, {"add"}, LAMBDA p : p.c) THEN "add-twice"
  ELSE IF \E i \in 1..Len(ps) : /\ ps[i].k = "add"
                                /\ \E l \in Leaves(T) \ RemovedLeaves(ps) : Nd(T, 2*l).c = ps[i].c
       THEN "add-member"
  ELSE IF Dup(ps, {"psk"}, LAMBDA p : p.x) THEN "psk-twice"
  ELSE IF Dup(ps, {"gce"}, LAMBDA p : 0) THEN "gce-twice"
  ELSE IF Len(ps) > 1 /\ \E i \in 1..Len(ps) : ps[i].k = "reinit" THEN "reinit-not-alone"
  ELSE IF LeftOut(ps) THEN "left-out"
  ELSE "ok"
NeedsPath(ps) == ps = <<>> \/ \E i \in 1..Len(ps) : ps[i].k \in {"upd", "rem", "extinit", "gce"}

----------------------------------------------------------------------------
\* Invariants of any tree reached by a group.
UnmergedOK(T) ==
  \A x \in 0..Len(T)-1 : Nd(T, x).t = "p" =>
    LET u == Nd(T, x).u
    IN /\ \A i \in 1..Len(u)-1 : u[i] < u[i+1]
       /\ \A i \in 1..Len(u) :
            /\ Covers(x, 2*u[i]) /\ u[i] \in Leaves(T)
            /\ \A y \in Range(DP(T, 2*u[i])) :
                 (Covers(x, y) /\ y # x /\ Nd(T, y).t = "p") => u[i] \in Range(Nd(T, y).u)
KindsOK(T) == \A x \in 0..Len(T)-1 : Nd(T, x).t \in (IF IsLeafNode(x) THEN {"b", "l"} ELSE {"b", "p"})
ShapeOK(T) == \E k \in 0..8 : Len(T) = Width(2^k)
TruncOK(T) == Truncate(T) = T
KeysUnique(T) == \A x, y \in 0..Len(T)-1 :
                   (x # y /\ Nd(T, x).t # "b" /\ Nd(T, y).t # "b") => KeyOf(Nd(T, x)) # KeyOf(Nd(T, y))
TreeOK(T) == KindsOK(T) /\ ShapeOK(T) /\ TruncOK(T) /\ UnmergedOK(T) /\ KeysUnique(T)

\* Every member other than leaf i and outside `new' is reached by exactly one
\* ciphertext of a path from leaf i: the node in the resolution it holds.
CoverageOK(T, i, new) ==
  LET fdp == FilteredDP(T, 2*i)
  IN \A m \in Leaves(T) \ ({i} \cup new) :
       LET a == CommonAncestor(2*i, 2*m)
           cp == CopathChild(a, 2*i)
           res == SelectSeq(Resolve(T, cp), LAMBDA x : ~(IsLeafNode(x) /\ (x \div 2) \in new))
           holds == {j \in 1..Len(res) :
                       /\ Covers(res[j], 2*m)
                       /\ (~IsLeafNode(res[j]) => m \notin Range(Nd(T, res[j]).u))}
       IN a \in Range(fdp) /\ Cardinality(holds) = 1
=============================================================================
