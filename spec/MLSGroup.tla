------------------------------ MODULE MLSGroup ------------------------------
(***************************************************************************)
(* A group of MLS clients exchanging proposals, commits, Welcomes and      *)
(* application messages over a network that may delay, reorder, duplicate  *)
(* or drop anything.                                                       *)
(*                                                                         *)
(* G: clients backed by an instance of the implementation under test.      *)
(* V: clients played by the reference peer (they author path commits,      *)
(*    updates and anything else the implementation's API cannot author).   *)
(*                                                                         *)
(* An epoch is created by authoring a commit; competing commits on the     *)
(* same epoch create branches.  A G client is in exactly one epoch; it     *)
(* moves only by accepting a commit made from that epoch.                  *)
(*                                                                         *)
(* The linearisation point of every step is the return of one public call  *)
(* (CreateGroup, GroupFromWelcome, CreateWelcome, CreateApplicationMessage,*)
(* UnmarshalAndProcessMessage), or an act of the reference peer.           *)
(*                                                                         *)
(* Named deviations of the implementation from RFC 9420 that the model     *)
(* follows: a client cannot follow its own path commit (it never authors   *)
(* one, so only V clients do); messages may be accepted more than once     *)
(* within their epoch; PSK, GroupContextExtensions and ReInit commits are  *)
(* either rejected or processed per the RFC ("any" verdict).               *)
(***************************************************************************)
EXTENDS RatchetTree, TLC

CONSTANTS G, V, Founder

\* The whole world is one record so that steps compose:
\*   eps    epochs: Seq([num, tree, par, cm])
\*   mem    [G -> [at, leaf, pend, priv]]; at = 0: not in a group
\*   props  proposals authored: Seq([from, p])  (p as in RatchetTree!Prop)
\*   cms    commits authored: Seq([m, to])
\*   apps   application messages authored: Seq([from, leaf])
\*   nk, nv next parent key id, next leaf version
\*   used   clients ever named in a group
\*   hist   what happened, for replay
VARIABLE w

Out == [at |-> 0, leaf |-> 0, pend |-> {}, priv |-> <<>>]
Log(s, step) == [s EXCEPT !.hist = Append(@, step)]
view == [w EXCEPT !.hist = <<>>]

Tree(s, e) == s.eps[e].tree
Known(e) == ~(e = 1 /\ Founder \in G)  \* the reference peer knows the secrets
Fresh(s) == (G \cup V) \ s.used
InEpoch(s, e) == {c \in G : s.mem[c].at = e}
Active(s) == {c \in G : s.mem[c].at # 0}
Live(s) == {s.mem[c].at : c \in Active(s)}
VLeaves(s, e) == {i \in Leaves(Tree(s, e)) : Nd(Tree(s, e), 2*i).c \in V}

InitWorld ==
  [eps |-> <<[num |-> 0, tree |-> <<LeafNd(Founder, 0)>>, par |-> 0, cm |-> 0]>>,
   mem |-> [c \in G |-> IF c = Founder
                        THEN [at |-> 1, leaf |-> 0, pend |-> {}, priv |-> <<KeyOf(LeafNd(c, 0))>>]
                        ELSE Out],
   props |-> <<>>, cms |-> <<>>, apps |-> <<>>, nk |-> 1, nv |-> 1, used |-> {Founder},
   hist |-> <<[a |-> "found", c |-> Founder, v |-> IF Founder \in V THEN 1 ELSE 0]>>]

----------------------------------------------------------------------------
\* The commit record made from epoch e by leaf `by', with proposal list ps,
\* with a path (installing leaf version ver) or without.
PathNodes(T, i, added, k0) ==
  LET fdp == FilteredDP(T, 2*i)
      new == {added[j].leaf : j \in 1..Len(added)}
  IN [h \in 1..Len(fdp) |->
       LET cp == CopathChild(fdp[h], 2*i)
       IN [n |-> fdp[h], k |-> k0 + h - 1, cp |-> cp,
           enc |-> SelectSeq(Resolve(T, cp),
                             LAMBDA x : ~(IsLeafNode(x) /\ (x \div 2) \in new))]]

MkCommit(s, e, by, ps, path) ==
  LET T  == Tree(s, e)
      ap == ApplyProps(T, ps)
      c  == Nd(T, 2*by).c
      canPath == path /\ InTree(ap.tree, by)
      T2 == IF canPath THEN MergePath(ap.tree, by, LeafNd(c, s.nv), s.nk) ELSE ap.tree
      \* copath resolutions are those of the tree the path is laid over
      pn == IF canPath THEN PathNodes(BlankPath(ap.tree, 2*by), by, ap.added, s.nk) ELSE <<>>
      err == ListError(T, ps, by)
  IN [from |-> e, by |-> by, c |-> c, ps |-> ps, path |-> canPath, ver |-> s.nv,
      tree |-> T2, pn |-> pn,
      added |-> [j \in 1..Len(ap.added) |->
                   [c |-> ap.added[j].c, leaf |-> ap.added[j].leaf,
                    anc |-> CommonAncestor(2*by, 2*ap.added[j].leaf)]],
      err |-> IF err # "ok" THEN err ELSE IF NeedsPath(ps) /\ ~path THEN "no-path" ELSE "ok",
      refs |-> {ps[i].r : i \in {j \in 1..Len(ps) : ps[j].r # 0}}]

\* What a member holding `priv' at leaf `me' knows after the commit.
NewPriv(priv, me, m) ==
  LET T == m.tree
      base == [j \in 1..Len(T) |-> IF j <= Len(priv) THEN priv[j] ELSE NoKey]
      a == CommonAncestor(2*m.by, 2*me)
      hs == {h \in 1..Len(m.pn) : m.pn[h].n = a}
      enc == m.pn[CHOOSE h \in hs : TRUE].enc
      js == {j \in 1..Len(enc) : base[enc[j] + 1] # NoKey}
      j0 == MinOf(js)
  IN IF ~m.path THEN [ok |-> TRUE, priv |-> base]
     ELSE IF hs = {} THEN [ok |-> FALSE, priv |-> base]
     ELSE IF js = {} THEN [ok |-> FALSE, priv |-> base]
     ELSE IF base[enc[j0] + 1] # KeyOf(Nd(T, enc[j0])) THEN [ok |-> FALSE, priv |-> base]
     ELSE [ok |-> TRUE,
           priv |-> [j \in 1..Len(T) |->
                      IF \E h \in 1..Len(m.pn) : m.pn[h].n = j - 1 /\ Level(m.pn[h].n) >= Level(a)
                      THEN KeyOf(T[j]) ELSE base[j]]]

JoinPriv(m, ad) ==
  [j \in 1..Len(m.tree) |->
    IF j - 1 = 2*ad.leaf THEN KeyOf(m.tree[j])
    ELSE IF \E h \in 1..Len(m.pn) : m.pn[h].n = j - 1 /\ Covers(m.pn[h].n, 2*ad.leaf)
         THEN KeyOf(m.tree[j]) ELSE NoKey]

StillMember(s, c, m) == /\ InTree(m.tree, s.mem[c].leaf)
                        /\ Nd(m.tree, 2*s.mem[c].leaf).c = c

\* The verdict of UnmarshalAndProcessMessage at c for commit m.
Accepts(s, c, m) ==
  /\ s.mem[c].at = m.from
  /\ m.err = "ok"
  /\ m.refs \subseteq s.mem[c].pend
  /\ StillMember(s, c, m)
  /\ ~(m.path /\ m.by = s.mem[c].leaf)
  /\ NewPriv(s.mem[c].priv, s.mem[c].leaf, m).ok

\* Why a message of epoch e is not for a client in epoch f.
Away(s, e, f) == IF s.eps[e].num = s.eps[f].num THEN "branch" ELSE "epoch"

Why(s, c, m) ==
  IF s.mem[c].at # m.from THEN Away(s, m.from, s.mem[c].at)
  ELSE IF m.err # "ok" THEN m.err
  ELSE IF ~(m.refs \subseteq s.mem[c].pend) THEN "missing-ref"
  ELSE IF ~StillMember(s, c, m) THEN "removed"
  ELSE IF m.path /\ m.by = s.mem[c].leaf THEN "own-path"
  ELSE IF ~NewPriv(s.mem[c].priv, s.mem[c].leaf, m).ok THEN "no-key"
  ELSE "ok"

After(s, c, m, to) == [at |-> to, leaf |-> s.mem[c].leaf, pend |-> {},
                       priv |-> NewPriv(s.mem[c].priv, s.mem[c].leaf, m).priv]

Names(m, c) == \E j \in 1..Len(m.added) : m.added[j].c = c
Joined(c, m, to) ==
  LET ad == m.added[CHOOSE j \in 1..Len(m.added) : m.added[j].c = c]
  IN [at |-> to, leaf |-> ad.leaf, pend |-> {}, priv |-> JoinPriv(m, ad)]

AddsOf(S, by) == \* adds of the sequence S of clients, by leaf `by'
  [i \in 1..Len(S) |-> Prop("add", S[i], 0, 0, by, 0, 0)]

Bit(b) == IF b THEN 1 ELSE 0

----------------------------------------------------------------------------
\* Steps.  Each is a function from world to world and logs what happened.
AuthorAs(s, kind, m, wire) ==
  Log([s EXCEPT !.cms = Append(@, [m |-> m, to |-> Len(s.eps) + 1]),
                !.eps = Append(@, [num |-> s.eps[m.from].num + 1, tree |-> m.tree,
                                   par |-> m.from, cm |-> Len(s.cms) + 1]),
                !.nk = @ + Len(m.pn),
                !.nv = IF m.path THEN @ + 1 ELSE @,
                !.used = @ \cup {m.added[j].c : j \in 1..Len(m.added)}],
      [a |-> kind, id |-> Len(s.cms) + 1, from |-> m.from, to |-> Len(s.eps) + 1, by |-> m.by,
       c |-> m.c, v |-> m.ver, ps |-> m.ps, path |-> Bit(m.path), pn |-> m.pn, tree |-> m.tree,
       added |-> m.added, wire |-> wire, err |-> m.err])

\* CreateWelcome on the instance of c for the sequence S of clients: the
\* creator stays where it is.
CanGWelcome(s, c) == c \in G /\ s.mem[c].at # 0
GWelcome(s, c, S) ==
  AuthorAs(s, "gwelcome",
           MkCommit(s, s.mem[c].at, s.mem[c].leaf, AddsOf(S, s.mem[c].leaf), FALSE), "priv")

\* A commit authored by the reference peer for leaf `by' of epoch e.
CanVCommit(s, e, by) == Known(e) /\ by \in Leaves(Tree(s, e))
VCommit(s, e, by, ps, path, wire) == AuthorAs(s, "vcommit", MkCommit(s, e, by, ps, path), wire)

\* A proposal message authored by the reference peer for leaf p.s.
Propose(s, e, p, wire) ==
  LET id == Len(s.props) + 1
  IN Log([s EXCEPT !.props = Append(@, [from |-> e, p |-> [p EXCEPT !.r = id]]),
                   !.nv = IF p.k = "upd" THEN @ + 1 ELSE @,
                   !.used = IF p.k = "add" THEN @ \cup {p.c} ELSE @],
         [a |-> "prop", id |-> id, from |-> e, p |-> p, wire |-> wire])

DeliverProp(s, c, i) ==
  LET ok == s.mem[c].at = s.props[i].from
  IN Log(IF ok THEN [s EXCEPT !.mem[c].pend = @ \cup {i}] ELSE s,
         [a |-> "dprop", c |-> c, id |-> i, ok |-> Bit(ok),
          why |-> IF ok THEN "ok" ELSE Away(s, s.props[i].from, s.mem[c].at)])

DeliverCommit(s, c, i) ==
  LET m == s.cms[i].m
      ok == Accepts(s, c, m)
  IN Log(IF ok THEN [s EXCEPT !.mem[c] = After(s, c, m, s.cms[i].to)] ELSE s,
         [a |-> "dcommit", c |-> c, id |-> i, ok |-> Bit(ok), why |-> Why(s, c, m)])

\* GroupFromWelcome at c with the Welcome that goes with commit i.
CanJoin(s, c, i) == c \in G /\ s.mem[c].at = 0 /\ s.cms[i].m.err = "ok" /\ s.cms[i].m.added # <<>>
Join(s, c, i) ==
  LET m == s.cms[i].m
      ok == Names(m, c)
  IN Log(IF ok THEN [s EXCEPT !.mem[c] = Joined(c, m, s.cms[i].to)] ELSE s,
         [a |-> "join", c |-> c, id |-> i, ok |-> Bit(ok), why |-> IF ok THEN "ok" ELSE "unnamed"])

\* Application messages: from a G client's instance or from the reference peer.
GApp(s, c) ==
  Log([s EXCEPT !.apps = Append(@, [from |-> s.mem[c].at, leaf |-> s.mem[c].leaf])],
      [a |-> "gapp", id |-> Len(s.apps) + 1, c |-> c])
VApp(s, e, i, gen) ==
  Log([s EXCEPT !.apps = Append(@, [from |-> e, leaf |-> i])],
      [a |-> "vapp", id |-> Len(s.apps) + 1, e |-> e, by |-> i, gen |-> gen])
DeliverApp(s, c, i) ==
  LET ok == s.mem[c].at = s.apps[i].from
  IN Log(s, [a |-> "dapp", c |-> c, id |-> i, ok |-> Bit(ok),
             why |-> IF ok THEN "ok" ELSE Away(s, s.apps[i].from, s.mem[c].at)])

\* Observation: the whole public state of c's instance, read off what it would
\* send to a newcomer (the tree it would have after adding one).
Probe(s, c) ==
  Log(s, [a |-> "probe", c |-> c, e |-> s.mem[c].at,
          tree |-> AddLeaf(Tree(s, s.mem[c].at), LeafNd(0, 0)).tree])

----------------------------------------------------------------------------
\* Design-level invariants.
TypeOK == \A c \in G : w.mem[c].at \in 0..Len(w.eps)

TreesOK == \A e \in 1..Len(w.eps) :
             (e = 1 \/ w.cms[w.eps[e].cm].m.err = "ok") => TreeOK(Tree(w, e))

\* A member's view of its own leaf is the epoch's: it is never in an epoch
\* whose tree does not contain it.
LeafOK == \A c \in Active(w) :
            /\ InTree(Tree(w, w.mem[c].at), w.mem[c].leaf)
            /\ Nd(Tree(w, w.mem[c].at), 2*w.mem[c].leaf).c = c

\* A member knows the private key of exactly the filled ancestors it is
\* merged into, and of no other filled node of the tree.
PrivOK == \A c \in Active(w) :
  LET T == Tree(w, w.mem[c].at)
  IN /\ Len(w.mem[c].priv) = Len(T)
     /\ \A x \in 0..Len(T)-1 :
          Nd(T, x).t # "b" =>
            IF /\ Covers(x, 2*w.mem[c].leaf)
               /\ w.mem[c].leaf \notin Range(Nd(T, x).u)
            THEN w.mem[c].priv[x + 1] = KeyOf(Nd(T, x))
            ELSE w.mem[c].priv[x + 1] = NoKey

\* Any well-formed commit is processable by every member that has its
\* proposals and is neither removed by it nor its path author.
Processable == \A i \in 1..Len(w.cms) : \A c \in G :
  LET m == w.cms[i].m
  IN (/\ w.mem[c].at = m.from /\ m.err = "ok" /\ m.refs \subseteq w.mem[c].pend
      /\ ~(m.path /\ m.by = w.mem[c].leaf)
      /\ w.mem[c].leaf \notin RemovedLeaves(m.ps)) => Accepts(w, c, m)

\* The reason given for a verdict agrees with the verdict.
WhyOK == \A i \in 1..Len(w.cms) : \A c \in Active(w) :
  (Why(w, c, w.cms[i].m) = "ok") <=> Accepts(w, c, w.cms[i].m)

\* A removed member never accepts the commit that removes it.
LockedOut == \A i \in 1..Len(w.cms) : \A c \in G :
  LET m == w.cms[i].m
  IN (w.mem[c].at = m.from /\ w.mem[c].leaf \in RemovedLeaves(m.ps)) => ~Accepts(w, c, m)

\* Every path reaches every remaining old member exactly once, and no one new.
Covered == \A i \in 1..Len(w.cms) :
  LET m == w.cms[i].m
  IN (m.err = "ok" /\ m.path) =>
       CoverageOK(BlankPath(ApplyProps(Tree(w, m.from), m.ps).tree, 2*m.by), m.by,
                  {m.added[j].leaf : j \in 1..Len(m.added)})
=============================================================================
