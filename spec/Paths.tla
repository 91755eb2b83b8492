------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Commits that do not prove the epoch they lead to.  A path is a chain of *)
(* secrets, each giving a published key and the next secret, each secret   *)
(* encrypted once to every node of a resolution; the committer's leaf is   *)
(* bound to the path by parent hashes; the tag confirms what comes of it.  *)
(* A receiver sees the chain from its common ancestor with the committer   *)
(* upwards and must refuse what it can see is wrong.                       *)
(***************************************************************************)
EXTENDS Deviant

CONSTANTS Part  \* which tree

Mangles == {"flip", "flip0", "flipz", "empty", "trunc", "half", "one", "long", "zero"}
TagFields ==
  Fld("tag", Mangles \cup {"prevkey", "prevhash", "interim", "membkey", "old", "random"})
  \cup Fld("th", {"old"}) \cup Fld("newgid", {"1"}) \cup Fld("cs", {"zero", "init"}) \cup Fld("opt", {"two"})
PathFields ==
  Fld("psec", {"broken"})
  \cup Fld("pkey", {"mismatch", "mismatchtop", "dupleaf", "garbage", "empty", "zero", "flip", "flip0", "flipz", "trunc", "half", "long", "duptwo",
                   "duptwo0", "dupleaf0", "dupnew0", "dupparent0", "dupold0"})
  \cup Fld("phash", {"flip", "empty", "trunc", "zero"}) \cup Fld("pek", {"node"})
  \cup Fld("pctx", {"old", "epoch", "tree"}) \cup Fld("plabel", {"other"})
  \cup Fld("pct", {"wrongsecret", "shortsecret", "longsecret", "missing", "extra", "none", "flip", "kemflip", "kemempty",
                   "ctempty", "kemzero", "shift"})
  \cup Fld("pn", {"extra", "missing", "missingfirst", "none", "swap"})
RefFields == Fld("ref", {"flip", "flip0", "empty", "trunc", "long", "zero"})
HasRef(m) == \E i \in 1..Len(m.ps) : m.ps[i].r # 0
Universe(m) == TagFields \cup (IF m.path = 1 THEN PathFields ELSE {}) \cup (IF HasRef(m) THEN RefFields ELSE {})

\* The verdict at leaf `me' on commit m (as logged) deviating by D.
Verdict(m, me, D) ==
  LET N == Len(m.pn)
      a == CommonAncestor(2*m.by, 2*me)
      mine == CHOOSE h \in 1..N : m.pn[h].n = a     \* where the receiver enters the chain
      v == FirstFail(<<
        <<Set(D, {"opt"}), "encoding">>,
        <<Set(D, {"ref"}), "missing-ref">>,
        <<Set(D, {"tag", "newgid", "th"}), "confirmation">>,
        <<Of(D, "cs") = "init" \/ (Of(D, "cs") = "zero" /\ m.path = 1), "confirmation">>,
        <<Set(D, {"phash"}), "parent-hash">>,
        <<Set(D, {"pek"}) \/ In(D, "pkey", {"dupleaf", "garbage", "empty", "zero", "flip", "flip0", "flipz", "trunc", "half", "long"}), "path-key">>,
        <<In(D, "pkey", {"duptwo", "duptwo0"}) /\ N > 1, "path-key">>,
        <<In(D, "pkey", {"dupleaf0", "dupnew0", "dupparent0", "dupold0"}), "path-key">>,   \* where there is one
        <<Of(D, "pkey") = "mismatchtop" \/ (Of(D, "pkey") = "mismatch" /\ mine = 1), "path-key">>,
        <<Of(D, "psec") = "broken" /\ mine < N, "path-key">>,
        <<Set(D, {"pctx", "plabel", "pct"}), "path-secret">>,
        <<In(D, "pn", {"extra", "missing", "missingfirst", "none"}) \/ (Of(D, "pn") = "swap" /\ N > 1), "path-length">> >>)
      \* what this receiver cannot see may pass
      unseen == (Of(D, "psec") = "broken" /\ N > 1) \/ Of(D, "pkey") = "mismatch"
  IN IF v.ok = 1 /\ unseen THEN Open ELSE v

----------------------------------------------------------------------------
\* Trees.  Instances at leaves 1, 3 and 6; all paths laid by 0, then 5.
V8 == <<1, 12, 2, 13, 14, 3, 15>>
Start == LET a == VCommit(InitWorld, 1, 0, AddsOf(V8, 0), TRUE, "pub") IN JoinAll(a, <<1, 2, 3>>, 1)
Rem(l) == Prop("rem", 0, 0, l, 0, 0, 0)
Q == <<1, 2, 3>>
Filled(s) == Finish(s, 2, 5, <<>>, TRUE, "pub", Q, {})
World ==
  CASE Part = "full" -> Bind(Start, Filled)
    [] Part = "holes" -> Bind(Bind(Start, Filled), LAMBDA s : Finish(s, 3, 5, <<Rem(4), Rem(2)>>, TRUE, "priv", Q, {}))
    [] Part = "late" ->   \* freed leaves taken again: unmerged at filled nodes
         Bind(Bind(Bind(Start, Filled), LAMBDA s : Finish(s, 3, 0, <<Rem(4), Rem(2)>>, TRUE, "priv", Q, {})),
              LAMBDA s : Finish(s, 4, 5, <<Prop("add", 16, 0, 0, 5, 0, 0), Prop("add", 17, 0, 0, 5, 0, 0)>>, FALSE, "pub", Q, {}))
    [] Part = "wide" ->   \* a right half with one member
         Bind(Bind(Start, Filled), LAMBDA s : Finish(s, 3, 0, <<Prop("add", 16, 0, 0, 0, 0, 0)>>, FALSE, "pub", Q, {}))
E0 == Len(w.eps)
Bys == VLeaves(w, E0)

\* A proposal by reference first, delivered to all.
P0(s) == CHOOSE i \in VLeaves(s, E0) : \A j \in VLeaves(s, E0) : j <= i
WithRef(s) == DPropAll(Propose(s, E0, Prop("add", 18, 0, 0, P0(s), 0, 0), "pub"), Q, Len(s.props) + 1)

Lists(by) ==
  {<<<<>>, TRUE>>, <<<<Prop("add", 19, 0, 0, by, 0, 0)>>, TRUE>>,
   <<<<Prop("add", 19, 0, 0, by, 0, 0), Prop("add", 20, 0, 0, by, 0, 0)>>, FALSE>>,
   <<<<Prop("rem", 0, 0, MinOf(Bys \ {by}), by, 0, 0), [Prop("add", 18, 0, 0, P0(w), 0, 0) EXCEPT !.r = 1]>>, TRUE>>}

\* Afterwards: the receiver is looked at, and follows a path from elsewhere
\* in the tree, for which it needs the keys it had.
Rest(c, s, k) ==
  LET q == SetSeq(VLeaves(s, E0))
      go(t) == Finish(t, E0, q[(k % Len(q)) + 1], <<>>, TRUE, "pub", <<c>>, {})
  IN Bind(Bind(Probe(s, c), go), LAMBDA t : Probe(t, c))

EmitAll(s, by, l, wire, c) ==
  \E m \in {LastStep(VCommit(s, E0, by, l[1], l[2], wire))} :
  m.err = "ok" /\ StillMember(s, c, [tree |-> m.tree]) =>
  \E C \in {Sampled(Proper(Combos(Universe(m))))} :
  LET fl(D) == Flaw(c, "commit", D, Verdict(m, s.mem[c].leaf, D), 1, E0, by)
  IN \E q \in {[i \in 1..Cardinality(C) |-> fl(SetToSeq(C)[i])]} :
     \E quiet \in {Cut(SelectSeq(q, LAMBDA f : f.ok = 0))}, alone \in {SelectSeq(q, LAMBDA f : f.ok # 0)} :
       /\ \A i \in 1..Len(quiet) : Emit(Rest(c, [s EXCEPT !.hist = @ \o <<Tmpl(1, m)>> \o quiet[i]], i + by).hist)
       /\ \A i \in 1..Len(alone) : Emit(s.hist \o <<Tmpl(1, m), alone[i]>>)

Init == SeedDraw(Salt) /\ \E s \in {World} : w = s
Next == /\ \E s \in {WithRef(w)} :
             \A by \in Bys : \A l \in Lists(by), wire \in Wires, c \in {1, 2, 3} : EmitAll(s, by, l, wire, c)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_w

\* A single deviation is refused unless it is one a receiver cannot see or
\* one that changes nothing.
ModelOK == \A by \in Bys : \A l \in Lists(by), c \in {1, 2, 3} :
  \E s \in {WithRef(w)} :
  \E m \in {LastStep(VCommit(s, E0, by, l[1], l[2], "pub"))} :
    (m.err = "ok" /\ StillMember(s, c, [tree |-> m.tree])) =>
      /\ Verdict(m, s.mem[c].leaf, {}).ok = 1
      /\ \A d \in Universe(m) :
           Verdict(m, s.mem[c].leaf, {d}).ok = 0
           \/ d \in {<<"psec", "broken">>, <<"pkey", "mismatch">>, <<"cs", "zero">>}
           \/ (Len(m.pn) < 2 /\ d \in {<<"pn", "swap">>, <<"pkey", "duptwo">>, <<"pkey", "duptwo0">>})
=============================================================================
