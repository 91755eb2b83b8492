------------------------------- MODULE Halls --------------------------------
(***************************************************************************)
(* Arrivals in hollow trees.  An aligned block of the tree loses its right *)
(* half and part of its left half; a member of what remains commits, with  *)
(* a path, the arrival of clients that sit next to it, so that blank nodes *)
(* lie on the newcomers' way up between nodes that have just been given    *)
(* new keys; then members elsewhere commit, using every one of these keys. *)
(***************************************************************************)
EXTENDS Big

Block(a, s) == a..(a + s - 1)
LeftOf(a, s) == a..(a + (s \div 2) - 1)
Aligned(n) == {b \in {<<0, 4>>, <<4, 4>>, <<8, 4>>, <<12, 4>>, <<16, 4>>, <<0, 8>>, <<8, 8>>, <<16, 8>>, <<0, 16>>, <<16, 16>>} : b[1] + b[2] <= n}
Kept(b) == {K \in SUBSET LeftOf(b[1], b[2]) : K # {} /\ K # LeftOf(b[1], b[2]) /\ Cardinality(K) <= 3}
Enough(S) == Cardinality(S) >= 3

Arrivals(n) ==
  \E b \in Pick({x \in Aligned(n) : Enough((0..(n - 1)) \ Block(x[1], x[2]))}) :
  \E K \in Pick(Kept(b)) :
    LET R == Block(b[1], b[2]) \ K
        far == (0..(n - 1)) \ Block(b[1], b[2])
    IN \E c \in Pick(K), r \in Pick(far), d \in Pick(far) :
       \E q \in {Some(3, ((1..(n - 1)) \ R) \ {c, r, d})} :
       \E s0 \in {VCommit(InitWorld, 1, 0, AddsOf(Seating(q, n), 0), FALSE, "pub")} :
       \E s1 \in {Change1(JoinAll(s0, [i \in 1..Len(q) |-> i], 1), r, SetSeq(R), <<>>, TRUE)} :
       \E fill \in Pick(BOOLEAN) : \E s2 \in {IF fill THEN Change1(s1, d, <<>>, <<>>, TRUE) ELSE s1} :
       \E k \in Pick(1..(Cardinality(LeftOf(b[1], b[2]) \ K) + 1)) :
       \E N \in {SubSeq(Shuf(Some(2, Fresh(s2) \cap G) \o Some(k, Fresh(s2) \cap V)), 1, k)} :
       \E s3 \in {Change1(s2, c, <<>>, N, TRUE)} :
       \E more \in Pick({0, 0, 1, 2, 5}) :
       \E s4 \in {IF more = 0 THEN s3 ELSE Change1(s3, r, <<>>, Shuf(Some(more, Fresh(s3) \cap V) \o Some(1, Fresh(s3) \cap G)), FALSE)} :
         w' = Change1(s4, d, <<>>, <<>>, TRUE)

\* The tree fills up by adds without a path, one or two at a time, and beyond
\* its size; then a member of the new half commits, using the old root's key.
RECURSIVE Fill(_, _)
Fill(s, m) ==
  IF Cardinality(Leaves(Tree(s, Len(s.eps)))) > m THEN s
  ELSE Bind(RandomElement({1, 2, 3}), LAMBDA k :
       Bind(RandomElement(VLeaves(s, Len(s.eps))), LAMBDA by :
       Bind(SubSeq(Shuf(Some(2, Fresh(s) \cap V) \o Some(1, Fresh(s) \cap G)), 1, (k \div 3) + 1), LAMBDA N :
       Bind(Change1(s, by, <<>>, N, FALSE), LAMBDA t : Fill(t, m)))))
Outgrow(m) == \* m: a power of two
  \E n \in Pick({m - 2, m - 1, m}) :
  \E q \in {Some(3, 1..(n - 1))}, first \in Pick(BOOLEAN), again \in Pick(BOOLEAN) :
  \E s0 \in {VCommit(InitWorld, 1, 0, AddsOf(Seating(q, n), 0), first, "pub")} :
  \E s1 \in {JoinAll(s0, [i \in 1..Len(q) |-> i], 1)} :
  \E by \in Pick(VLeaves(s1, Len(s1.eps))) :
  \E s2 \in {IF first /\ ~again THEN s1 ELSE Change1(s1, by, <<>>, <<>>, TRUE)} :
  \E s3 \in {Fill(s2, m + 1)} :
  \E d \in Pick(LET new == {i \in VLeaves(s3, Len(s3.eps)) : i >= m} IN IF new = {} THEN VLeaves(s3, Len(s3.eps)) ELSE new) :
    w' = Change1(s3, d, <<>>, <<>>, TRUE)

HNext == IF w.cms = <<>> THEN \E n \in Pick(Sizes), g \in Pick(1..3) : IF g = 1 THEN Outgrow(IF n <= 12 THEN 4 ELSE IF n <= 24 THEN 8 ELSE 16) ELSE Arrivals(n)
         ELSE IF TLCGet("level") < Depth THEN \E k \in Pick({1, 1, 3, 6, 7, 8, 10}) : Do(k) ELSE Flush
HSpec == Init /\ [][HNext]_w
=============================================================================
