------------------------------ MODULE Welcomes ------------------------------
(***************************************************************************)
(* What a Welcome must consist of for a client to join.  Modelled by its   *)
(* layers: entries (reference, key it is sealed to, what it is bound to,   *)
(* the secrets inside), the group info (context, signer, tag, signature),  *)
(* the ratchet tree in it, and the client's own key package.  Layers that  *)
(* are altered but recomputed consistently above are marked t. and x.      *)
(***************************************************************************)
EXTENDS Deviant

CONSTANTS Part  \* which tree

Mangles == {"flip", "flip0", "flipz", "empty", "trunc", "half", "one", "long", "zero"}
TreeFields ==
  Fld("t.hash", {"flip", "empty", "trunc", "zero"})
  \cup Fld("t.leaf", {"sigflip", "signersig", "sigempty", "identity", "enckey", "idx", "gid", "life", "dupenc", "dupsig",
                      "dupparent", "ext", "cred", "credcaps", "swap"})
  \cup Fld("t.own", {"blank", "enckey", "sigkey", "identity"})
  \cup Fld("t.par", {"hashlow", "hashtop", "keylow", "keytop", "rekeylow", "rekeytop", "rekeyflip", "blanklow", "extra", "dupkeys", "leafhash", "unmoob",
                     "unmhuge", "unmalias", "unmblank", "unmoutside", "unmdup", "unmmiss", "unmauthor"})
ContextFields == Fld("x.suite", {"other", "unknown"}) \cup Fld("x.ver", {"2", "0"})
InfoFields ==
  Fld("i.tree", {"none", "garbage", "trailing", "empty", "noext", "blanktail", "even", "allblank", "leafodd", "parenteven"})
  \cup Fld("i.exts", {"unknown", "after"}) \cup Fld("i.signer", {"other", "blank", "oob", "max", "alias"})
  \cup Fld("i.key", {"other", "outsider"}) \cup Fld("i.tag", Mangles \cup {"prevkey"})
  \cup Fld("i.over", {"tag", "epoch", "gid", "confirmed", "exts"}) \cup Fld("i.sig", Mangles)
  \cup Fld("i.tail", {"extra", "trunc", "nosig", "nosigvec"})
SecretFields ==
  Fld("s.path", {"wrong", "next", "empty", "half", "long", "extra"})
  \cup Fld("s.joiner", {"random", "flip", "empty", "half", "tail"}) \cup Fld("s.psk", {"one"}) \cup Fld("s.tail", {"extra", "trunc"})
EntryFields ==
  Fld("e.ctx", {"flip", "empty"}) \cup Fld("e.key", {"enc", "other"}) \cup Fld("e.label", {"other"})
  \cup Fld("e.ref", {"flip", "flip0", "flipz", "trunc", "empty", "long", "zero"})
  \cup Fld("e.ct", {"flip", "flipz", "trunc", "empty", "long", "one"})
  \cup Fld("e.kem", {"flip", "trunc", "empty", "long", "one", "zero"})
OuterFields ==
  Fld("w.info", {"flip", "flipz", "trunc", "long", "empty", "one"})
  \cup Fld("w.entries", {"none", "drop", "swap", "reverse", "decoy", "foreign"})
  \cup Fld("w.suite", {"other", "unknown", "zero", "unsupported"}) \cup Fld("w.tail", {"extra", "trunc"})
ClientFields == Fld("c.init", {"wrong", "enc", "other", "empty", "trunc"}) \cup Fld("c.pub", {"other"})
Universe == TreeFields \cup ContextFields \cup InfoFields \cup SecretFields \cup EntryFields \cup OuterFields \cup ClientFields

\* A member other than `by' that is not new: the one the deviations touch.
Bound(nd) == nd.v # 0   \* update and commit leaves are signed for their place

\* The verdict of client c on the Welcome of commit m deviating by D.
Verdict(m, c, D) ==
  LET T == m.tree
      n == NLeaves(T)
      N == Len(m.pn)
      new == {m.added[j].leaf : j \in 1..Len(m.added)}
      pos == CHOOSE j \in 1..Len(m.added) : m.added[j].c = c
      olds == {k \in 1..n-1 : ((m.by + k) % n) \in Leaves(T) \ new}
      other == (m.by + MinOf(IF olds # {} THEN olds ELSE {k \in 1..n-1 : ((m.by + k) % n) \in Leaves(T)})) % n
      parents == {x \in 0..Len(T)-1 : Nd(T, x).t = "p"}
      low == m.pn[1].n
      top == m.pn[N].n
      leafBad == CASE Of(D, "t.leaf") = "" -> FALSE
                   [] In(D, "t.leaf", {"idx", "gid"}) -> Bound(Nd(T, 2*m.by))
                   [] Of(D, "t.leaf") = "life" -> ~Bound(Nd(T, 2*other))
                   [] Of(D, "t.leaf") = "dupparent" -> parents # {}
                   [] Of(D, "t.leaf") = "swap" -> Bound(Nd(T, 2*m.by)) \/ Bound(Nd(T, 2*other))
                   [] OTHER -> TRUE
      parBad == CASE Of(D, "t.par") = "" \/ N = 0 -> FALSE
                  [] Of(D, "t.par") = "blanklow" -> N > 1
                  [] Of(D, "t.par") = "dupkeys" -> N > 1
                  [] In(D, "t.par", {"rekeylow", "rekeytop", "rekeyflip"}) -> FALSE  \* a consistent tree
                  [] Of(D, "t.par") = "extra" -> \E x \in 0..Len(T)-1 : ~IsLeafNode(x) /\ Nd(T, x).t = "b"
                  [] Of(D, "t.par") = "unmblank" -> \E i \in 0..n-1 : Nd(T, 2*i).t = "b" /\ Covers(top, 2*i)
                  [] Of(D, "t.par") = "unmoutside" -> \E i \in Leaves(T) : ~Covers(low, 2*i)
                  [] OTHER -> TRUE
      v == FirstFail(<<
        <<Set(D, {"w.tail", "i.tail", "s.tail"}), "encoding">>,
        <<Set(D, {"w.suite"}), "suite">>,
        <<Of(D, "c.pub") = "other" /\ Len(m.added) > 0, "unnamed">>,
        <<Of(D, "w.entries") = "none" \/ (Of(D, "w.entries") = "drop" /\ pos = 1) \/ Set(D, {"e.ref"}), "unnamed">>,
        <<Of(D, "w.entries") = "foreign" /\ Of(D, "i.exts") # "after", "moved">>,
        <<Of(D, "w.entries") = "swap" /\ Len(m.added) > 1 /\ pos <= 2, "moved">>,
        <<Set(D, {"e.label", "e.ct", "e.kem", "e.ctx"})
          \/ (Set(D, {"e.key", "c.init"}) /\ ~(Of(D, "e.key") = "enc" /\ Of(D, "c.init") = "enc")), "entry">>,
        <<Set(D, {"s.joiner", "s.psk", "w.info"}), "secrets">>,
        <<Set(D, {"x.suite", "x.ver"}), "context">>,
        <<Set(D, {"i.tree"}), "tree">>,
        <<In(D, "i.signer", {"blank", "oob", "max", "alias"}), "signer">>,
        <<(Of(D, "i.signer") = "other") # (Of(D, "i.key") = "other") \/ Of(D, "i.key") = "outsider"
          \/ Set(D, {"i.sig", "i.over"}), "signature">>,
        <<Set(D, {"i.tag"}), "confirmation">>,
        <<Set(D, {"t.hash"}), "tree-hash">>,
        <<leafBad, "leaf">>,
        <<parBad, "parents">>,
        <<Set(D, {"t.own"}) /\ pos = 1, "own-leaf">>,
        <<In(D, "s.path", {"wrong", "empty", "extra", "long"}) \/ (In(D, "s.path", {"next", "half"}) /\ m.path = 1)
          \/ (m.path = 1 /\ (In(D, "t.par", {"rekeytop", "rekeyflip"})
                             \/ (Of(D, "t.par") = "rekeylow" /\ Covers(low, 2*m.added[pos].leaf)))), "path-secret">> >>)
      unclear == \/ Of(D, "w.entries") = "foreign"
                 \/ Set(D, {"t.own"}) /\ pos # 1
                 \/ Of(D, "t.par") = "blanklow" /\ N = 1
                 \/ In(D, "t.leaf", {"idx", "gid", "swap", "dupparent"}) /\ ~leafBad
                 \/ In(D, "t.par", {"rekeylow", "rekeytop", "rekeyflip"})
                 \/ Of(D, "i.signer") = "other" /\ m.path = 1
      resigned == In(D, "t.par", {"rekeylow", "rekeytop", "rekeyflip"}) /\ Set(D, {"t.leaf"})
  IN IF (v.ok = 1 /\ unclear) \/ resigned THEN Open ELSE v

----------------------------------------------------------------------------
Rem(l) == Prop("rem", 0, 0, l, 0, 0, 0)
Add(c, by) == Prop("add", c, 0, 0, by, 0, 0)
Q == <<4>>
Five == LET a == VCommit(InitWorld, 1, 0, AddsOf(<<12, 13, 4, 14, 15, 16>>, 0), TRUE, "pub") IN JoinAll(a, Q, 1)
World ==
  CASE Part = "pair" -> LET a == VCommit(InitWorld, 1, 0, AddsOf(<<12, 4>>, 0), FALSE, "pub") IN JoinAll(a, Q, 1)
    [] Part = "fresh" -> Five
    [] Part = "holes" -> Bind(Five, LAMBDA s : Finish(s, 2, 5, <<Rem(1), Rem(4)>>, TRUE, "pub", Q, {}))
    [] Part = "late" ->
         Bind(Bind(Five, LAMBDA s : Finish(s, 2, 5, <<Rem(1), Rem(4)>>, TRUE, "pub", Q, {})),
              LAMBDA s : Finish(s, 3, 2, <<Add(17, 2)>>, FALSE, "priv", Q, {}))
E0 == Len(w.eps)
Bys == CASE Part = "pair" -> {0, 1} [] Part = "fresh" -> {0, 6} [] OTHER -> {0, 5}
Lists(by) == {<<Add(1, by)>>, <<Add(1, by), Add(18, by), Add(2, by)>>, <<Add(19, by), Add(1, by)>>}

EmitAll(s, by, ps, path, c) ==
  \E s1 \in {VCommit(s, E0, by, ps, path, "pub")} :
  LET m == LastStep(s1)
  IN (m.err = "ok" /\ \E j \in 1..Len(m.added) : m.added[j].c = c) =>
     \E C \in {Sampled(Proper(Combos(Universe)))} :
     LET fl(D) == Flaw(c, "join", D, Verdict(m, c, D), 1, E0, by)
         rest(h) == Bind(Bind([s1 EXCEPT !.hist = h], LAMBDA t : DCommitAll(t, Q, Len(s1.cms))),
                         LAMBDA t : Bind(JoinAll(t, <<c>>, Len(s1.cms)), LAMBDA u : ProbeAll(u, <<c, 4>>)))
     IN \E q \in {Cut([i \in 1..Cardinality(C) |-> fl(SetToSeq(C)[i])])} :
          \A i \in 1..Len(q) : Emit(rest(s.hist \o <<Tmpl(1, m)>> \o q[i] \o <<m>>).hist)

Init == SeedDraw(Salt) /\ \E s \in {World} : w = s
Next == /\ \A by \in Bys, path \in {TRUE, FALSE} : \A ps \in Lists(by), c \in {1, 2} : EmitAll(w, by, ps, path, c)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_w

\* The honest Welcome is accepted.
ModelOK == \A by \in Bys, path \in {TRUE, FALSE} : \A ps \in Lists(by) :
  Verdict(LastStep(VCommit(w, E0, by, ps, path, "pub")), 1, {}).ok = 1
=============================================================================
