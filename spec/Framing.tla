------------------------------ MODULE Framing -------------------------------
(***************************************************************************)
(* Who made a message, for whom, and over what.  The parts of a message    *)
(* are modelled by what they were computed from: the sender it names, the  *)
(* key and content of its signature, key and content of its membership     *)
(* tag, the leaf and generation of its encryption key, what its sender     *)
(* data say.  A receiver accepts iff all of them agree with each other and *)
(* with its epoch.                                                         *)
(***************************************************************************)
EXTENDS Deviant

CONSTANTS Part  \* which kinds of message

Mangles == {"flip", "flip0", "flipz", "empty", "trunc", "half", "one", "long", "zero"}
Cts == {"flip", "flip0", "flipz", "empty", "trunc", "one", "long"}

Common ==
  Fld("gid", {"other", "empty", "prefix"}) \cup Fld("ep", {"prev", "next", "wrap"})
  \cup Fld("styp", {"external", "newprop", "newcommit"})
  \cup Fld("leaf", {"other", "blank", "oob", "oob2", "max", "alias"})
  \cup Fld("key", {"other", "outsider", "old"})
  \cup Fld("over", {"body", "ad", "leaf", "ep", "gid", "ctype", "wf", "label", "noctx", "prevctx",
                    "branchctx", "treectx", "suitectx"})
  \cup Fld("sig", Mangles) \cup Fld("tail", {"extra", "trunc"}) \cup Fld("ad", {"some", "long"})
PubOnly ==
  Fld("mtag", Mangles \cup {"prevkey", "confirmkey", "overbody", "oversig", "overtag", "overctx", "absent"})
PrivOnly ==
  Fld("gen", {"1", "5", "300"}) \cup Fld("pad", {"zeros", "many", "nonzero"})
  \cup Fld("sd", {"leaf", "leafonly", "gen", "oob", "huge", "alias", "blank", "short", "long", "maxgen"})
  \cup Fld("outer", {"ad", "ctype"}) \cup Fld("ratchet", {"other"}) \cup Fld("eskey", {"prev"})
  \cup Fld("plain", {"empty", "garbage", "notag"}) \cup Fld("ct", Cts) \cup Fld("esd", Cts)
  \cup Fld("post", {"ad", "ep", "epback", "gid", "ctype"})
Universe(wire) == Common \cup (IF wire = "pub" THEN PubOnly ELSE PrivOnly)

\* The member whose leaf follows `by', as seen cyclically from it.
OtherLeaf(T, by) ==
  LET n == NLeaves(T)
      d == MinOf({k \in 1..n : ((by + k) % n) \in Leaves(T)})
  IN (by + d) % n

\* Positions: a member's leaf, or one of the places where nobody is.
Nobody == {-1, -2, -3}
Place(v, by, oth) == CASE v = "" -> by [] v = "other" -> oth [] OTHER -> -1

\* Leaves whose signature key is not their first.
Rekeyed == {2}

\* The verdict on a message of kind `kind' (prop, app, commit; path says
\* whether a commit has a path) by leaf `by' deviating by D, at leaf `me'.
Verdict(T, kind, path, wire, by, me, D) ==
  LET oth == OtherLeaf(T, by)
      named == Place(Of(D, "leaf"), by, oth)     \* sender in the content
      signer == IF Of(D, "key") = "" THEN by ELSE IF Of(D, "key") = "other" THEN oth
                ELSE IF Of(D, "key") = "old" /\ by \notin Rekeyed THEN by ELSE -2
      signedLeaf == IF Of(D, "over") = "leaf" THEN oth ELSE named
      \* private messages: the receiver learns the sender from the sender data
      sdLeaf == CASE In(D, "sd", {"leaf", "leafonly"}) -> oth
                  [] In(D, "sd", {"oob", "huge", "alias", "blank"}) -> -1
                  [] OTHER -> named
      keyLeaf == CASE In(D, "sd", {"leaf"}) -> oth
                   [] In(D, "sd", {"oob", "huge", "alias"}) -> by
                   [] In(D, "sd", {"blank"}) -> -1
                   [] In(D, "leaf", {"max", "oob", "oob2", "alias"}) -> by
                   [] OTHER -> named
      sender == IF wire = "pub" THEN named ELSE sdLeaf
      contentSame == Of(D, "over") = "" \/ (Of(D, "over") = "leaf" /\ signedLeaf = sender)
      v == FirstFail(<<
        <<Set(D, {"gid"}) \/ In(D, "post", {"gid"}), "group">>,
        <<Set(D, {"ep"}) \/ In(D, "post", {"ep", "epback"}), "epoch">>,
        <<Set(D, {"styp"}), "sender-type">>,
        <<Set(D, {"tail"}), "encoding">>,
        <<sender \notin Leaves(T), "sender">>,
        <<wire = "pub" /\ kind = "app", "not-encrypted">>,
        <<wire = "pub" /\ Set(D, {"mtag"}) /\ ~(Of(D, "mtag") = "overtag" /\ kind # "commit"), "membership">>,
        <<wire = "priv" /\ (Set(D, {"ct", "esd", "eskey", "ratchet", "post"})
                            \/ In(D, "sd", {"gen", "short", "long", "maxgen"})
                            \/ keyLeaf # sender), "decryption">>,
        <<In(D, "plain", {"empty", "garbage"}) \/ (Of(D, "plain") = "notag" /\ kind = "commit"), "content">>,
        <<Of(D, "pad") = "nonzero" /\ Of(D, "plain") = "", "padding">>,
        <<Set(D, {"outer"}), "signature">>,
        <<Set(D, {"sig"}) \/ signer # sender \/ signedLeaf # sender \/ ~contentSame, "signature">>,
        <<kind = "commit" /\ path /\ sender # by, "path">> >>)
  IN \* a body that happens to parse as another kind may be signed as such
     IF Of(D, "over") = "ctype" /\ Of(D, "outer") = "ctype" THEN Open
     \* a member may refuse what claims to come from itself
     ELSE IF v.ok = 1 /\ sender = me THEN Open
     ELSE v

----------------------------------------------------------------------------
\* The world: eight leaves, 3, 6 and 7 blank; the client at leaf 2 has a new
\* signature key; instances at leaves 1 and 4.
World0 == LET a == VCommit(InitWorld, 1, 0, AddsOf(<<1, 12, 13, 2, 14>>, 0), TRUE, "pub")
          IN JoinAll(a, <<1, 2>>, 1)
NewSig(s) == \* leaf 2 changes its signature key
  LET p == Prop("upd", 12, s.nv, 2, 2, 0, 0)
      s1 == Propose(s, 2, p, "pub")
      s2 == [s1 EXCEPT !.hist[Len(s1.hist)] = @ @@ [dev |-> DevOf({<<"u.sk", "new">>})]]
      s3 == DPropAll(s2, <<1, 2>>, 1)
  IN Finish(s3, 2, 0, <<[p EXCEPT !.r = 1], Prop("rem", 0, 0, 3, 0, 0, 0)>>, TRUE, "priv", <<1, 2>>, {})
World1 == Bind(Bind(World0, LAMBDA s : NewSig(s)), LAMBDA s : Finish(s, 3, 5, <<>>, TRUE, "pub", <<1, 2>>, {}))
E0 == 4

\* After the deviating messages: look at the receiver, then let the group go on.
Rest(c, s) ==
  LET go(t) == Finish(t, E0, 0, <<Prop("rem", 0, 0, 5, 0, 0, 0)>>, TRUE, "pub", <<1, 2>>, {})
  IN Bind(Bind(Probe(s, c), LAMBDA t : go(t)), LAMBDA t : Probe(t, c))

\* The messages: kind, by whom, the honest message as a template.
Msgs(s) ==
  LET T == Tree(s, E0)
      com(by, ps, path, wire) == LastStep(VCommit(s, E0, by, ps, path, wire))
      pro(p, wire) == LastStep(Propose(s, E0, p, wire))
      add(by) == Prop("add", 15, 0, 0, by, 0, 0)
      rem(by, l) == Prop("rem", 0, 0, l, by, 0, 0)
  IN CASE Part = "prop" -> {<<"prop", FALSE, w_, by, pro(p, w_)>> : w_ \in Wires, by \in {2}, p \in {add(2), rem(2, 5)}}
                           \cup {<<"prop", FALSE, w_, 0, pro(rem(0, 5), w_)>> : w_ \in Wires}
       [] Part = "app" -> {<<"app", FALSE, "priv", by, <<>>>> : by \in {0, 2, 5}} \cup {<<"appwire", FALSE, "pub", 2, <<>>>>}
       [] Part = "path" -> {<<"commit", TRUE, w_, by, com(by, ps, TRUE, w_)>> : w_ \in Wires, by \in {2}, ps \in {<<>>, <<rem(2, 5)>>}}
       [] Part = "nopath" -> {<<"commit", FALSE, w_, by, com(by, <<add(by)>>, FALSE, w_)>> : w_ \in Wires, by \in {0, 2}}
       [] OTHER -> {}

VerdictOf(s, x, c, D) ==
  Verdict(Tree(s, E0), IF x[1] = "appwire" THEN "app" ELSE x[1], x[2], x[3], x[4], s.mem[c].leaf, D)

\* One behaviour per chunk of messages without effect; one each for the
\* commits that are accepted.
EmitAll(s, x, c) ==
  \E C \in {Sampled(Proper(Combos(Universe(x[3]))))} :
  LET tm == IF x[5] = <<>> THEN <<>> ELSE <<Tmpl(1, x[5])>>
      fl(D) == Flaw(c, x[1], D, VerdictOf(s, x, c, D), IF x[5] = <<>> THEN 0 ELSE 1, E0, x[4])
      moves(f) == f.ok # 0 /\ x[1] = "commit"
  IN \E q \in {[i \in 1..Cardinality(C) |-> fl(SetToSeq(C)[i])]} :
     \E quiet \in {Cut(SelectSeq(q, LAMBDA f : ~moves(f)))}, alone \in {SelectSeq(q, moves)} :
       /\ \A i \in 1..Len(quiet) : Emit(Rest(c, [s EXCEPT !.hist = @ \o tm \o quiet[i]]).hist)
       /\ \A i \in 1..Len(alone) : Emit(s.hist \o tm \o <<alone[i]>>)

\* A refused proposal is not there for a commit to refer to.
Unref(s, c, by, p, wire, D) ==
  \E v \in {Verdict(Tree(s, E0), "prop", FALSE, wire, by, s.mem[c].leaf, D)} :
  v.ok = 0 =>
  \E s1 \in {Propose(s, E0, p, wire)} :
  LET id == Len(s1.props)
      n == Len(s1.hist)
      f == Flaw(c, "prop", D, v, 1, E0, by) @@ [id |-> id]
      s2 == [s1 EXCEPT !.hist = SubSeq(@, 1, n - 1) \o <<Tmpl(1, @[n]), f>>]
      go(t) == Finish(t, E0, 0, <<[p EXCEPT !.r = id]>>, TRUE, "pub", <<c>>, {})
  IN \E s3 \in {Bind(Bind(s2, go), LAMBDA t : Probe(t, c))} :
       /\ Assert(s3.mem[c].at = E0, "refused proposal counted")
       /\ Emit(s3.hist)

UnrefAll(s) ==
  \A wire \in Wires, c \in {1, 2}, p \in {Prop("add", 15, 0, 0, 2, 0, 0), Prop("rem", 0, 0, 5, 2, 0, 0)} :
    \A D \in Sampled({{d} : d \in Universe(wire)}) : Unref(s, c, 2, p, wire, D)

Init == SeedDraw(Salt) /\ \E s \in {World1} : w = s
Next == /\ Part = "unref" => UnrefAll(w)
        /\ \A x \in Msgs(w), c \in {1, 2} : EmitAll(w, x, c)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_w

\* Design-level facts about the model itself: an honest message is accepted,
\* a single altered part that the model does not call harmless is not.
Harmless == {<<"ad", "some">>, <<"ad", "long">>, <<"pad", "zeros">>, <<"pad", "many">>, <<"plain", "notag">>,
             <<"mtag", "overtag">>} \cup Fld("gen", {"1", "5", "300"})
ModelOK == \A x \in Msgs(w) :
  LET T == Tree(w, E0) k == IF x[1] = "appwire" THEN "app" ELSE x[1] IN
  /\ x[1] # "appwire" => Verdict(T, k, x[2], x[3], x[4], 99, {}).ok = 1
  /\ \A d \in Universe(x[3]) \ (Harmless \cup (IF x[4] \in Rekeyed THEN {} ELSE {<<"key", "old">>})) : Verdict(T, k, x[2], x[3], x[4], 99, {d}).ok = 0
=============================================================================
