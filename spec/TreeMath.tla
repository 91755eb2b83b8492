------------------------------ MODULE TreeMath ------------------------------
(***************************************************************************)
(* Array-based complete binary trees (RFC 9420, appendix C), defined by    *)
(* the structure they stand for rather than by bit manipulation.           *)
(* Nodes are 0 .. 2n-2 where n, the number of leaves, is a power of two.   *)
(* Leaf i is node 2i.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Level(_)
Level(x) == IF x % 2 = 0 THEN 0 ELSE 1 + Level((x - 1) \div 2)

IsLeafNode(x) == x % 2 = 0
Left(x)  == x - 2^(Level(x) - 1)
Right(x) == x + 2^(Level(x) - 1)
Width(n) == 2 * n - 1
RootOf(n) == n - 1

\* The nodes of the subtree under x are an interval centred on x.
Lo(x) == x - (2^Level(x) - 1)
Hi(x) == x + (2^Level(x) - 1)
Covers(x, y) == Lo(x) <= y /\ y <= Hi(x)

ParentOf(x) == LET l == Level(x)
               IN IF (x \div 2^(l + 1)) % 2 = 0 THEN x + 2^l ELSE x - 2^l
SiblingOf(x) == LET p == ParentOf(x) IN IF x < p THEN Right(p) ELSE Left(p)

\* Direct path of x, from its parent up to the root, in a tree with n leaves.
RECURSIVE DirectPath(_, _)
DirectPath(n, x) ==
  IF x = RootOf(n) THEN <<>> ELSE <<ParentOf(x)>> \o DirectPath(n, ParentOf(x))

\* Lowest node covering both x and y.
RECURSIVE CommonAncestor(_, _)
CommonAncestor(x, y) == IF Covers(x, y) THEN x
                        ELSE IF Covers(y, x) THEN y
                        ELSE CommonAncestor(ParentOf(x), y)

Range(s) == {s[i] : i \in 1..Len(s)}
MinOf(S) == CHOOSE m \in S : \A k \in S : m <= k
MaxOf(S) == CHOOSE m \in S : \A k \in S : m >= k

\* Structural facts every other module relies on (checked by TLC at start-up).
TreeMathOK(n) ==
  /\ \A x \in 0..Width(n)-1 :
       /\ ~IsLeafNode(x) => /\ ParentOf(Left(x)) = x
                            /\ ParentOf(Right(x)) = x
                            /\ SiblingOf(Left(x)) = Right(x)
                            /\ Lo(x) = Lo(Left(x)) /\ Hi(x) = Hi(Right(x))
                            /\ Hi(Left(x)) = x - 1 /\ Lo(Right(x)) = x + 1
       /\ x # RootOf(n) => ParentOf(x) \in 0..Width(n)-1
  /\ Lo(RootOf(n)) = 0 /\ Hi(RootOf(n)) = Width(n) - 1
  /\ \A x, y \in 0..Width(n)-1 :
       LET a == CommonAncestor(x, y)
       IN /\ Covers(a, x) /\ Covers(a, y)
          /\ \A b \in 0..Width(n)-1 : (Covers(b, x) /\ Covers(b, y)) => Covers(b, a)
=============================================================================
