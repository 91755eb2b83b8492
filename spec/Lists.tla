------------------------------- MODULE Lists --------------------------------
(***************************************************************************)
(* Every proposal list of one or two proposals, and many of three, out of  *)
(* a universe with each kind, target, sender and way of being carried, by  *)
(* every committer, with and without a path.  Lists that RFC 9420 forbids  *)
(* must be refused by all members; a list it allows ends the behaviour by  *)
(* being followed.                                                         *)
(***************************************************************************)
EXTENDS Deviant

CONSTANTS Part  \* which tree

Q == <<1, 2, 3>>
Start == Bind(VCommit(InitWorld, 1, 0, AddsOf(<<1, 12, 2, 13, 14, 3>>, 0), TRUE, "pub"),
              LAMBDA s : JoinAll(s, Q, 1))
\* Leaf 4 empty in the middle, leaf 7 never taken.
World == CASE Part = "hole" -> Bind(Start, LAMBDA s : Finish(s, 2, 0, <<Prop("rem", 0, 0, 4, 0, 0, 0)>>, TRUE, "pub", Q, {}))
           [] Part = "full" -> Start
E0 == Len(w.eps)
T0 == Tree(w, E0)

\* What can be proposed; sender -1 stands for the committer.
Kinds ==    {Prop("rem", 0, 0, l, -1, 0, 0) : l \in 0..8}
       \cup {Prop("rem", 0, 0, l, -1, 0, 1) : l \in {3, 6}}
       \cup {Prop("add", c, 0, 0, -1, 0, 0) : c \in {16, 17} \cup {2, 12}}
       \cup {Prop(k, 0, 0, 0, -1, 0, x) : k \in {"psk", "gce", "reinit", "extinit"}, x \in 1..2}
       \cup {Prop("upd", Nd(T0, 2*l).c, 0, l, l, 0, 0) : l \in VLeaves(w, E0)}
Carried == {<<p, r>> : p \in Kinds, r \in BOOLEAN}

\* References: each kind is proposed once, updates by their leaf, others by a
\* member that need not be the committer.
RefKinds == {p \in Kinds : p.x < 2}
Voice(p) == IF p.k = "upd" THEN p.s ELSE IF p.k = "rem" /\ p.l = 1 THEN 2 ELSE 1
AsSent(s, p) == [p EXCEPT !.s = Voice(p), !.v = IF p.k = "upd" THEN s.nv ELSE 0]
Sent == FoldLeft(LAMBDA s, p : DPropAll(Propose(s, E0, AsSent(s, p), IF Len(s.props) % 2 = 0 THEN "pub" ELSE "priv"),
                                        Q, Len(s.props) + 1),
                 w, SetToSeq(RefKinds))
Told(s, p) == {i \in 1..Len(s.props) : LET q == s.props[i].p IN q.k = p.k /\ q.c = p.c /\ q.l = p.l /\ q.x = p.x}
\* An item of the list; inline updates can only be the committer's own.
Usable(s, it, by) == IF it[2] THEN Told(s, it[1]) # {} ELSE it[1].k # "upd" \/ it[1].s = by
Listed(s, it, by) == IF it[2] THEN s.props[CHOOSE i \in Told(s, it[1]) : TRUE].p
                     ELSE [it[1] EXCEPT !.s = by, !.v = IF it[1].k = "upd" THEN s.nv ELSE 0]

Special(ps) == \E j \in 1..Len(ps) : ps[j].k \in {"psk", "gce", "reinit"}
\* Lists of one and two in full, of three by lot.
Chosen(s, by) ==
  LET U == {it \in Carried : Usable(s, it, by)}
      one == {<<a>> : a \in U}
      two == {q \in U \X U : Draw(Rate)}
      three == {q \in U \X U \X U : Draw(Rate * 60)}
  IN {[j \in 1..Len(q) |-> Listed(s, q[j], by)] : q \in one \cup two \cup three}

Attempts(s, by) == {x \in Chosen(s, by) \X BOOLEAN : \E err \in {MkCommit(s, E0, by, x[1], x[2]).err} :
                                                       ~(Special(x[1]) /\ err = "ok")}
Bad(s, by, x) == MkCommit(s, E0, by, x[1], x[2]).err # "ok"

Try(s, by, x, i) == Bind(VCommit(s, E0, by, x[1], x[2], IF i % 2 = 0 THEN "pub" ELSE "priv"),
                         LAMBDA t : DCommitAll(t, Q, Len(t.cms)))
TryAll(s, by, q) == FoldLeft(LAMBDA t, i : Try(t, by, q[i], i), s, [i \in 1..Len(q) |-> i])
\* Everyone is as before: looked at, and following a commit.
Rest(s, by) == Bind(ProbeAll(s, Q), LAMBDA t : Finish(t, E0, by, <<>>, TRUE, "pub", Q, {}))

Init == SeedDraw(Salt) /\ \E s \in {World} : w = s
Next == /\ \E s \in {Sent} : \A by \in {0, 5} :
             \E A \in {Attempts(s, by)} :
             \E bad \in {Cut(SetToSeq({x \in A : Bad(s, by, x)}))}, good \in {SetToSeq({x \in A : ~Bad(s, by, x)})} :
               /\ \A i \in 1..Len(bad) : Emit(Rest(TryAll(s, by, bad[i]), by).hist)
               /\ \A i \in 1..Len(good) : Emit(ProbeAll(Finish(s, E0, by, good[i][1], good[i][2], "pub", Q, {}), Q).hist)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_w
=============================================================================
