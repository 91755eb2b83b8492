------------------------------- MODULE Leaves -------------------------------
(***************************************************************************)
(* Leaf nodes and key packages a group may take in.  A leaf is modelled by *)
(* its source, lifetime, credential, extensions, keys, and by whose key    *)
(* signed which leaf for which place; a key package adds an init key,      *)
(* suite, version and its own signature.  Leaves enter through adds (k.),  *)
(* updates (u.) and the path of a commit (p.).                             *)
(***************************************************************************)
EXTENDS Deviant

CONSTANTS Part  \* how the leaf enters

Mangles == {"flip", "flip0", "flipz", "empty", "trunc", "half", "one", "long", "zero"}
LeafFields(p) ==
  Fld(p \o "src", {"kp", "upd", "commit"})
  \cup Fld(p \o "cred", {"x509", "selfless"}) \cup Fld(p \o "ext", {"unlisted", "unlisted2", "listed", "caps"})
  \cup Fld(p \o "ek", {"dupleaf", "dupparent", "c18", "empty", "garbage", "zero"})
  \cup Fld(p \o "sk", {"dup", "new", "othersuite", "c18", "empty"})
  \cup Fld(p \o "lbind", {"gid", "idx", "label", "unbound"})
  \cup Fld(p \o "lkey", {"other"}) \cup Fld(p \o "lsig", Mangles)
LifeFields(p) == Fld(p \o "life", {"expired", "justexpired", "future", "justfuture", "long", "longpast", "okmax",
                                   "inverted", "zero", "forever", "huge"})
PackFields ==
  Fld("k.src", {"updby", "commitby"}) \* bound to the place of the member who brings it in
  \cup Fld("k.init", {"enc", "garbage", "empty"}) \cup Fld("k.suite", {"other", "unknown"}) \cup Fld("k.ver", {"2", "0"})
  \cup Fld("k.kkey", {"other"}) \cup Fld("k.over", {"init", "ext", "label"}) \cup Fld("k.ksig", Mangles)
Universe(p) == LeafFields(p) \cup (IF p = "k." THEN LifeFields(p) \cup PackFields ELSE {<<p \o "ek", "same">>})

Honest(p) == CASE p = "k." -> "kp" [] p = "u." -> "upd" [] p = "p." -> "commit"

\* The verdict on a leaf entering as p for the place that followers of leaf
\* `at' in tree T see; m is the commit that brings it in.  gone: leaves it
\* removes; dupk: position of the key a duplicate would copy.
Verdict(T, m, p, at, D) ==
  LET f(n) == Of(D, p \o n)
      src == IF f("src") = "" THEN Honest(p) ELSE f("src")
      bound == src # "kp"
      n == NLeaves(T)
      other == LET d == MinOf({k \in 1..n : ((at + k) % n) \in Leaves(T)}) IN (at + d) % n
      stays(l) == Nd(m.tree, 2*l) = Nd(T, 2*l)
      odd == {x \in 0..Len(T)-1 : Nd(T, x).t = "p"}
      odd2 == {x \in 0..Len(m.tree)-1 : Nd(m.tree, x).t = "p"}
      x == IF p = "p." THEN MaxOf(odd2) ELSE MaxOf(odd)
      parentStays == p = "p." \/ (x < Len(m.tree) /\ KeyOf(Nd(m.tree, x)) = KeyOf(Nd(T, x)))
      adds18 == \E j \in 1..Len(m.added) : m.added[j].c = 18
      twice == Cardinality({j \in 1..Len(m.added) : TRUE}) > 1
      \* another new leaf has client 18's keys
      copies == IF p = "k." THEN adds18 /\ twice ELSE adds18
      v == FirstFail(<<
        <<src # Honest(p), "source">>,
        <<p = "k." /\ f("life") \notin {"", "okmax"}, "lifetime">>,
        <<f("cred") # "", "credential">>,
        <<f("ext") \in {"unlisted", "unlisted2"}, "extension">>,
        <<f("ek") = "dupleaf" /\ stays(other), "duplicate-key">>,
        <<f("ek") = "dupparent" /\ parentStays, "duplicate-key">>,
        <<f("ek") \in {"c18"} /\ copies, "duplicate-key">>,
        <<f("ek") = "same", "unchanged-key">>,
        <<f("sk") = "dup" /\ (stays(other) \/ (other \in Leaves(m.tree) /\ Nd(m.tree, 2*other).c = Nd(T, 2*other).c)), "duplicate-key">>,
        <<f("sk") = "c18" /\ copies, "duplicate-key">>,
        <<f("sk") \in {"othersuite", "empty"}, "signature">>,
        <<f("lsig") # "" \/ f("lbind") = "label" \/ (f("lkey") = "other" /\ f("lbind") # "unbound")
          \/ (bound /\ f("lbind") # ""), "signature">>,
        <<p = "k." /\ Of(D, "k.init") = "enc", "init-key">>,
        <<Set(D, {"k.suite"}), "suite">>, <<Set(D, {"k.ver"}), "version">>,
        <<Set(D, {"k.kkey", "k.over", "k.ksig"}), "signature">> >>)
      \* keys nobody can use are not looked at before they are needed
      unclear == f("ek") \in {"empty", "garbage", "zero"} \/ Of(D, "k.init") \in {"garbage", "empty"}
                 \/ (f("ek") = "dupparent" /\ ~parentStays) \/ (f("ek") = "dupleaf" /\ ~stays(other))
                 \/ (p = "p." /\ f("ek") = "c18")
  IN IF v.ok = 1 /\ unclear THEN Open ELSE v

----------------------------------------------------------------------------
\* Eight leaves, 2 and 4 blank; instances at 1, 3 and 6.
V8 == <<1, 12, 2, 13, 14, 3, 15>>
Q == <<1, 2, 3>>
Rem(l) == Prop("rem", 0, 0, l, 0, 0, 0)
Add(c, by) == Prop("add", c, 0, 0, by, 0, 0)
World ==
  LET a == Bind(VCommit(InitWorld, 1, 0, AddsOf(V8, 0), TRUE, "pub"), LAMBDA s : JoinAll(s, Q, 1))
      b == Bind(a, LAMBDA s : Finish(s, 2, 5, <<>>, TRUE, "pub", Q, {}))
  IN Bind(b, LAMBDA s : Finish(s, 3, 5, <<Rem(4), Rem(2)>>, TRUE, "priv", Q, {}))
E0 == 4

Rest(c, s, k) ==
  LET go(t) == Finish(t, E0, <<0, 5, 7>>[(k % 3) + 1], <<>>, TRUE, "pub", <<c>>, {})
  IN Bind(Bind(Probe(s, c), go), LAMBDA t : Probe(t, c))

\* Commits that bring a leaf in directly.
Lists(by) ==
  IF Part = "add"
  THEN {<<<<Add(18, by)>>, FALSE>>, <<<<Add(18, by), Add(19, by)>>, TRUE>>,
        <<<<Rem(3), Add(18, by)>>, TRUE>>, <<<<Add(18, by), Rem(7)>>, TRUE>>}
  ELSE {<<<<>>, TRUE>>, <<<<Add(18, by)>>, TRUE>>, <<<<Rem((by + 1) % 8)>>, TRUE>>}

Bys == IF Part = "add" THEN {5} ELSE {0, 5}
Pre == CASE Part \in {"add", "addref", "create"} -> "k." [] Part = "updref" -> "u." [] Part = "path" -> "p."
At(by) == IF Part = "path" THEN by ELSE 2

\* A valid leaf goes in: everybody follows, and a newcomer finds a valid tree.
Invite(s) == LET e == Len(s.eps) IN
  Bind(Finish(s, e, 0, <<Add(4, 0)>>, TRUE, "pub", SetSeq(InEpoch(s, e)), {}), LAMBDA t : ProbeAll(t, <<4, 1, 2, 3>>))
Taken(s, by, l, wire, dev) ==
  \E s1 \in {VCommit(s, E0, by, l[1], l[2], wire)} :
  \E s2 \in {[s1 EXCEPT !.hist[Len(s1.hist)] = @ @@ [dev |-> dev]]} :
  \E s3 \in {DCommitAll(s2, Q, Len(s2.cms))} : Emit(Invite(s3).hist)

Direct(s, by, l, wire, c) ==
  \E m \in {LastStep(VCommit(s, E0, by, l[1], l[2], wire))} :
  m.err = "ok" /\ StillMember(s, c, [tree |-> m.tree]) =>
  \E C \in {Sampled(Proper(Combos(Universe(Pre))))} :
  LET fl(D) == Flaw(c, "commit", D, Verdict(Tree(s, E0), m, Pre, At(by), D), 1, E0, by)
  IN \E q \in {[i \in 1..Cardinality(C) |-> fl(SetToSeq(C)[i])]} :
     \E quiet \in {Cut(SelectSeq(q, LAMBDA f : f.ok = 0))}, alone \in {SelectSeq(q, LAMBDA f : f.ok # 0)} :
       /\ \A i \in 1..Len(quiet) : Emit(Rest(c, [s EXCEPT !.hist = @ \o <<Tmpl(1, m)>> \o quiet[i]], i + by).hist)
       /\ \A i \in 1..Len(alone) :
            IF alone[i].ok = 1 THEN Taken(s, by, l, wire, alone[i].dev) ELSE Emit(s.hist \o <<Tmpl(1, m), alone[i]>>)

\* Proposals: the message may already be refused; the commit that refers to
\* it must be.
ByRef(s, p, by, rest, wire, c, D) ==
  \E s1 \in {Propose(s, E0, p, wire)} :
  LET n == Len(s1.hist)
      ps == <<[p EXCEPT !.r = 1]>> \o rest
      s2 == [s1 EXCEPT !.hist[n] = @ @@ [dev |-> DevOf(D)]]
  IN \E s3 \in {VCommit(s2, E0, by, ps, TRUE, "pub")} :
     LET m == LastStep(s3)
         v == Verdict(Tree(s, E0), m, Pre, IF p.k = "upd" THEN p.s ELSE 2, D)
         dp == [a |-> "dprop", c |-> c, id |-> 1, ok |-> IF v.ok = 1 THEN 1 ELSE 2, why |-> "ok"]
         dc == [a |-> "dcommit", c |-> c, id |-> Len(s3.cms), ok |-> v.ok, why |-> v.why]
         h == SubSeq(s3.hist, 1, n) \o <<dp, m, dc>>
     IN (m.err = "ok" /\ StillMember(s, c, [tree |-> m.tree])) =>
          CASE v.ok = 0 -> Emit(Rest(c, [s3 EXCEPT !.hist = h], by).hist)
            [] v.ok = 2 -> Emit(h)
            [] OTHER -> \E s4 \in {DPropAll(s2, Q, 1)} : \E s5 \in {VCommit(s4, E0, by, ps, TRUE, "pub")} :
                          \E s6 \in {DCommitAll(s5, Q, Len(s5.cms))} : Emit(Invite(s6).hist)

AllRefs(s) ==
  LET adds == {<<Add(18, 7), <<>>>>, <<Add(19, 7), <<Add(18, 5)>>>>}
      upds == {<<Prop("upd", 15, s.nv, 7, 7, 0, 0), <<>>>>, <<Prop("upd", 15, s.nv, 7, 7, 0, 0), <<Add(18, 5)>>>>}
  IN \A x \in (IF Part = "addref" THEN adds ELSE upds), wire \in Wires, c \in {1, 3} :
       \A D \in Sampled(Proper(Combos(Universe(Pre)))) :
         (wire = "pub" \/ Draw(3)) => ByRef(s, x[1], 5, x[2], wire, c, D)

\* CreateWelcome asked to invite the client.
Creating(s, c) ==
  \E m \in {LastStep(VCommit(s, E0, s.mem[c].leaf, <<Add(18, s.mem[c].leaf)>>, FALSE, "pub"))} :
  \E C \in {Sampled(Proper(Combos(Universe("k."))))} :
  LET fl(D) == Flaw(c, "create", D, Verdict(Tree(s, E0), m, "k.", 2, D), 0, E0, s.mem[c].leaf) @@ [p |-> Add(18, 0)]
  IN \E q \in {Cut([i \in 1..Cardinality(C) |-> fl(SetToSeq(C)[i])])} :
       \A i \in 1..Len(q) : Emit(Rest(c, [s EXCEPT !.hist = @ \o q[i]], i).hist)

Init == SeedDraw(Salt) /\ \E s \in {World} : w = s
Next == /\ CASE Part \in {"add", "path"} ->
                  \A by \in Bys : \A l \in Lists(by), wire \in Wires, c \in {1, 2, 3} : Direct(w, by, l, wire, c)
             [] Part \in {"addref", "updref"} -> AllRefs(w)
             [] Part = "create" -> \A c \in {1, 2, 3} : Creating(w, c)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_w
=============================================================================
