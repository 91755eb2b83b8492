-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* Commits that refer to proposals.  Six proposals, of several kinds and   *)
(* senders, are received in one of several orders, some twice; then come   *)
(* commits that take any one, two or three of them, whose references are   *)
(* altered in some way although everything else in the commit is what it   *)
(* would be had the references been right.  All must be refused, whatever  *)
(* else is pending, and the true commit must then be followed.             *)
(***************************************************************************)
EXTENDS Deviant

Bytewise == {"flip", "flip0", "flipz", "empty", "trunc", "half", "one", "long", "zero"}
Elsewise == {"wf", "nosig", "unsigned", "body", "label", "sum", "twice"}
Devs == {{<<"ref", v>>} : v \in Bytewise \cup Elsewise}
        \cup {{<<"ref", v>>, <<"refat", p>>} : v \in Bytewise \cup Elsewise \cup {"next"}, p \in {"first", "last"}}

Q == <<1, 2, 3>>
Start == Bind(VCommit(InitWorld, 1, 0, AddsOf(<<1, 12, 2, 13, 14, 3, 15>>, 0), TRUE, "pub"),
              LAMBDA s : JoinAll(s, Q, 1))
E0 == 2
Offers == << Prop("add", 16, 0, 0, 0, 0, 0), Prop("rem", 0, 0, 4, 2, 0, 0), Prop("upd", 14, 0, 5, 5, 0, 0),
             Prop("add", 17, 0, 0, 1, 0, 0), Prop("rem", 0, 0, 7, 3, 0, 0), Prop("upd", 12, 0, 2, 2, 0, 0) >>
Offer(s, i) == LET p == Offers[i]
               IN Propose(s, E0, IF p.k = "upd" THEN [p EXCEPT !.v = s.nv] ELSE p, IF i % 2 = 0 THEN "pub" ELSE "priv")
Offered(s) == FoldLeft(Offer, s, <<1, 2, 3, 4, 5, 6>>)
Orders == { <<1, 2, 3, 4, 5, 6>>, <<6, 5, 4, 3, 2, 1>>, <<4, 1, 4, 2, 6, 3, 5>> }
Hearing(s, c, o) == FoldLeft(LAMBDA t, i : DeliverProp(t, c, i), s, o)

Taken(s, q, by) == [j \in 1..Len(q) |-> s.props[q[j]].p]
Lists == {q \in UNION {[1..n -> 1..6] : n \in 1..3} : \A i, j \in 1..Len(q) : q[i] = q[j] => i = j}
Committers == {0, 5}

\* References altered, then the commit as it should be, then a later one.
Rest(s, c, by, ps, wire) ==
  Bind(Finish(s, E0, by, ps, TRUE, wire, <<c>>, {}),
       LAMBDA t : Bind(Probe(t, c), LAMBDA u : Finish(u, Len(u.eps), 0, <<>>, TRUE, "pub", <<c>>, {})))

EmitOne(s, by, q, wire, c) ==
  \E ps \in {Taken(s, q, by)} :
  \E m \in {LastStep(VCommit(s, E0, by, ps, TRUE, wire))} :
  m.err = "ok" =>
    LET fl(D) == Flaw(c, "commit", D, Refuse("missing-ref"), 1, E0, by)
        ds == SetToSeq({D \in Devs : Len(q) > 1 \/ Cardinality(D) = 1})
    IN Emit(Rest([s EXCEPT !.hist = @ \o <<Tmpl(1, m)>> \o [i \in 1..Len(ds) |-> fl(ds[i])]], c, by, ps, wire).hist)

Init == SeedDraw(Salt) /\ \E s \in {Start} : w = s
Next == /\ \E s0 \in {Offered(w)} :
             \A c \in {1, 2, 3} : \A o \in Orders : \E s \in {Hearing(s0, c, o)} :
               \A by \in Committers, q \in Lists, wire \in Wires :
                 Draw(Rate) => EmitOne(s, by, q, wire, c)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_w
=============================================================================
