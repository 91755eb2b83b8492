--------------------------- MODULE NestedWelcome ----------------------------
(***************************************************************************)
(* As Nested, inside a Welcome: its frame, the group secrets, the group    *)
(* info and the ratchet tree, everything else recomputed around them.      *)
(***************************************************************************)
EXTENDS Welcomes

CONSTANTS Sites
W == INSTANCE Wire

Hows == {"len2", "len4", "len8", "up", "down", "huge", "crumb", "p2", "p255", "zero", "max"}
AtPlace(i, h) == ToString(i) \o ":" \o h
Gram == [a |-> "grammar", g |-> W!Grammar]

NestAll(s, by, ps, path, c) ==
  \E s1 \in {VCommit(s, E0, by, ps, path, "pub")} :
  LET m == LastStep(s1)
  IN (m.err = "ok" /\ \E j \in 1..Len(m.added) : m.added[j].c = c) =>
     \E q \in {SetToSeq({D \in {{<<f, AtPlace(i, h)>>} : f \in {"n.welcome", "n.secrets", "n.info", "n.tree"}, i \in 0..Sites, h \in Hows} : Draw(Rate)})} :
     LET fl(D) == Flaw(c, "join", D, Refuse("encoding"), 1, E0, by)
         rest(h) == Bind(Bind([s1 EXCEPT !.hist = h], LAMBDA t : DCommitAll(t, Q, Len(s1.cms))),
                         LAMBDA t : Bind(JoinAll(t, <<c>>, Len(s1.cms)), LAMBDA u : ProbeAll(u, <<c>>)))
     IN \E cut \in {Cut([i \in 1..Len(q) |-> fl(q[i])])} :
          \A i \in 1..Len(cut) : Emit(rest(s.hist \o <<Gram, Tmpl(1, m)>> \o cut[i] \o <<m>>).hist)

NestNext == /\ \A by \in Bys, path \in {TRUE, FALSE} : \A ps \in Lists(by) : NestAll(w, by, ps, path, 1)
            /\ UNCHANGED w
NestSpec == Init /\ [][NestNext]_w
=============================================================================
