----------------------------- MODULE ParentHash -----------------------------
(***************************************************************************)
(* Which ratchet trees a newcomer may believe (RFC 9420, section 7.9).     *)
(*                                                                         *)
(* A node's parent hash names an ancestor: pt is the ancestor whose        *)
(* parent hash it holds now, 0 if it holds none, -1 if it holds a hash     *)
(* that is no longer (or never was) right.  The trees reached here are     *)
(* those of honest groups under paths, adds, removes and updates;          *)
(* HonestOK says all of them are valid.  Every reached tree, and the trees *)
(* one or two alterations away from it, is put in a Welcome, and the       *)
(* newcomer must join iff the tree is valid by the definition below.       *)
(***************************************************************************)
EXTENDS RatchetTree, TLC, IOUtils, Json, SequencesExt, Functions

CONSTANTS N,       \* leaves
          Rate, Salt,
          Steps,   \* 0: explore every tree; otherwise, length of one random walk
          Twice    \* second alterations per first one

VARIABLES T, left

Draw(n) == /\ TLCSet(1, (TLCGet(1) * 171 + 7) % 30269)
           /\ TLCGet(1) % n = 0
SeedDraw(k) == TLCSet(1, (k * 7919 + 13) % 30269)
Rnd(n) == IF TLCSet(1, (TLCGet(1) * 171 + 7) % 30269) THEN (TLCGet(1) \div 3) % n ELSE 0
OneOf(S) == LET q == SetToSeq(S) IN q[1 + Rnd(Len(q))]
Emit(h) == LET r == Serialize(ToJson(h) \o "\n", IOEnv.VERIF_OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
           IN Assert(r.exitValue = 0, r)

----------------------------------------------------------------------------
NoNode == [t |-> "b", u |-> <<>>, pt |-> 0]
LeafN(pt) == [t |-> "l", u |-> <<>>, pt |-> pt]
ParN(u, pt) == [t |-> "p", u |-> u, pt |-> pt]
All == 0..Width(N)-1
Pars(X) == {x \in All : Nd(X, x).t = "p"}
Above(x) == {y \in All : y # x /\ Covers(y, x)}

\* Hashes naming a node that was replaced are wrong from then on.
Stale(X, S, keep) == [j \in 1..Len(X) |-> IF X[j].pt \in S /\ X[j].pt > 0 /\ (j - 1) \notin keep THEN [X[j] EXCEPT !.pt = -1] ELSE X[j]]
Wipe(X, i) == LET A == Above(2*i)
                  B == [j \in 1..Len(X) |-> IF (j - 1) \in A THEN NoNode ELSE X[j]]
              IN Stale(B, A, {})
Put(X, i) == [j \in 1..Len(X) |-> IF j - 1 = 2*i THEN LeafN(0)
                                  ELSE IF X[j].t = "p" /\ Covers(j - 1, 2*i) THEN ParN(InsertSorted(X[j].u, i), X[j].pt)
                                  ELSE X[j]]
Drop(X, i) == [Wipe(X, i) EXCEPT ![2*i + 1] = NoNode]
Renew(X, i) == [Wipe(X, i) EXCEPT ![2*i + 1] = LeafN(0)]
Lay(X, i) ==
  LET B == Wipe(X, i)
      f == FilteredDP(B, 2*i)
      at(x) == CHOOSE h \in 1..Len(f) : f[h] = x
      up(h) == IF h < Len(f) THEN f[h + 1] ELSE 0
  IN [j \in 1..Len(B) |-> IF j - 1 = 2*i THEN LeafN(IF f = <<>> THEN 0 ELSE f[1])
                          ELSE IF (j - 1) \in Range(f) THEN ParN(<<>>, up(at(j - 1)))
                          ELSE B[j]]

Present(X) == {i \in 0..N-1 : Nd(X, 2*i).t = "l"}
Tall(X) == N = 1 \/ \E i \in (N \div 2)..(N - 1) : i \in Present(X)
Ops(X) == {<<"lay", i>> : i \in Present(X)}
          \cup {<<"put", i>> : i \in (0..N-1) \ Present(X)}
          \cup {<<o, i>> : o \in {"drop", "renew"}, i \in Present(X)}
Apply(X, o) == CASE o[1] = "lay" -> Lay(X, o[2]) [] o[1] = "put" -> Put(X, o[2])
                 [] o[1] = "drop" -> Drop(X, o[2]) [] o[1] = "renew" -> Renew(X, o[2])

----------------------------------------------------------------------------
\* Validity (sections 7.9.2 and 12.4.3.1).
Link(X, P, D) ==
  LET C == IF Covers(Left(P), D) THEN Left(P) ELSE Right(P)
      res == Range(Resolve(X, C))
  IN /\ Nd(X, D).pt = P
     /\ D \in res
     /\ {2*Nd(X, P).u[h] : h \in 1..Len(Nd(X, P).u)} \cap (Lo(C)..Hi(C)) = res \ {D}
Chained(X, P) == Cardinality({D \in All : D # P /\ Covers(P, D) /\ Link(X, P, D)}) = 1
Increasing(u) == \A h \in 1..Len(u)-1 : u[h] < u[h + 1]
Lists(X) == \A P \in Pars(X) : \A h \in 1..Len(Nd(X, P).u) :
              LET i == Nd(X, P).u[h]
              IN /\ i \in Present(X) /\ Covers(P, 2*i)
                 /\ \A y \in Above(2*i) : (Covers(P, y) /\ y # P /\ Nd(X, y).t = "p") => i \in Range(Nd(X, y).u)
Valid(X) == CASE ~(\A P \in Pars(X) : Increasing(Nd(X, P).u)) -> "unsorted"
              [] ~Lists(X) -> "unmerged"
              [] ~(\A P \in Pars(X) : Chained(X, P)) -> "chain"
              [] OTHER -> "ok"
HonestOK == Valid(T) = "ok"

----------------------------------------------------------------------------
\* Trees a hash can be computed for: no parent is named from both sides.
OneSided(X) == \A P \in Pars(X) :
  ~(\E D, E \in All : Nd(X, D).pt = P /\ Nd(X, E).pt = P /\ Covers(Left(P), D) /\ Covers(Right(P), E))
RECURSIVE Without(_, _)
Without(s, i) == IF s = <<>> THEN <<>> ELSE IF Head(s) = i THEN Without(Tail(s), i) ELSE <<Head(s)>> \o Without(Tail(s), i)
Toggle(u, i) == IF i \in Range(u) THEN Without(u, i) ELSE InsertSorted(u, i)
Fill(X, x, k) == [X EXCEPT ![x + 1] = ParN(k, 0)]
Under(X, x) == SetToSortSeq({i \in Present(X) : Covers(x, 2*i)}, <)

\* Alterations, keeping leaves S as they are.
Alter(X, S) ==
  {[X EXCEPT ![x + 1].u = Toggle(@, i)] : x \in Pars(X), i \in 0..N}
  \cup {[X EXCEPT ![x + 1].u = Reverse(@)] : x \in {y \in Pars(X) : Len(Nd(X, y).u) > 1}}
  \cup {[X EXCEPT ![x + 1].u = <<Head(@)>> \o @] : x \in {y \in Pars(X) : Len(Nd(X, y).u) > 0}}
  \cup UNION {{[X EXCEPT ![d + 1].pt = a] : a \in (Above(d) \cap Pars(X)) \cup {0, -1}}
              : d \in {y \in All : Nd(X, y).t # "b" /\ y \notin S}}
  \cup {Stale([X EXCEPT ![x + 1] = NoNode], {x}, {}) : x \in Pars(X)}
  \cup {Fill(X, x, <<>>) : x \in {y \in All : ~IsLeafNode(y) /\ Nd(X, y).t = "b"}}
  \cup {Fill(X, x, Under(X, x)) : x \in {y \in All : ~IsLeafNode(y) /\ Nd(X, y).t = "b"}}
  \cup {[X EXCEPT ![2*i + 1] = NoNode] : i \in {k \in Present(X) : 2*k \notin S}}
  \cup {Put(X, i) : i \in (0..N-1) \ Present(X)}
Fit(X) == Tall(X) /\ OneSided(X)

Welcome(X, j, by) ==
  LET v == Valid(X)
  IN [a |-> "stree", c |-> 1, leaf |-> j, by |-> by, ok |-> IF v = "ok" THEN 1 ELSE 0, why |-> v,
      tree |-> [i \in 1..Len(X) |-> [t |-> X[i].t, c |-> IF X[i].t # "l" THEN 0 ELSE IF i - 1 = 2*j THEN 1 ELSE 11 + ((i - 1) \div 2),
                                     v |-> 0, k |-> i, u |-> X[i].u, pt |-> X[i].pt]]]
\* The same tree, node x having the key of node y.
Sharing(X, j, by, x, y) ==
  [Welcome(X, j, by) EXCEPT !.ok = 0, !.why = "shared-key", !.tree[x + 1].k = y + 1]
Shared(X) == {<<x, y>> \in Pars(X) \X {z \in All : Nd(X, z).t # "b"} : x # y}
Found == [a |-> "found", c |-> 11]

\* A newcomer and the one who invites it; the newcomer's leaf is as in its key package.
Show(X) ==
  LET new == {i \in Present(X) : Nd(X, 2*i).pt = 0}
  IN (Tall(X) /\ Cardinality(Present(X)) > 1 /\ new # {}) =>
     \E j \in {OneOf(new)} : \E by \in {OneOf(Present(X) \ {j})} :
     \E once \in {{Y \in Alter(X, {2*j, 2*by}) : Fit(Y) /\ Y # X}} :
     \E some \in {{Y \in once : Draw(Rate)}} :
     \E twice \in {UNION {{OneOf(Alter(Y, {2*j, 2*by})) : h \in 1..Twice} : Y \in some}} :
     LET all == SetToSeq({X} \cup some \cup {Y \in twice : Fit(Y)})
         dup == SetToSeq({p \in Shared(X) : Draw(2)})
     IN Emit(<<Found>> \o [h \in 1..Len(all) |-> Welcome(all[h], j, by)]
                       \o [h \in 1..Len(dup) |-> Sharing(X, j, by, dup[h][1], dup[h][2])])

Start == [j \in 1..Width(N) |-> IF j = 1 THEN LeafN(0) ELSE NoNode]
Init == SeedDraw(Salt) /\ T = Start /\ left = Steps
Next == /\ \/ Steps = 0 /\ UNCHANGED left /\ \E o \in Ops(T) : T' = Apply(T, o)
           \/ left > 0 /\ left' = left - 1 /\ \E o \in {OneOf(Ops(T))} : T' = Apply(T, o)
        /\ Present(T') # {}
        /\ Show(T')
Spec == Init /\ [][Next]_<<T, left>>
=============================================================================
