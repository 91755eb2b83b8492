------------------------------- MODULE Rounds -------------------------------
(***************************************************************************)
(* Building blocks for generating behaviours: random choice, composite     *)
(* rounds of steps, and writing a behaviour out for replay.                *)
(***************************************************************************)
EXTENDS MLSGroup, Json, IOUtils, SequencesExt

Pick(S) == {RandomElement(S)}
Wires == {"pub", "priv"}

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

\* A random ordering.
RECURSIVE Shuf(_)
PickAt(q, i) == <<q[i]>> \o Shuf(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
Shuf(q) == IF Len(q) <= 1 THEN q ELSE PickAt(q, RandomElement(1..Len(q)))
Shuffles(q) == {Shuf(q)}

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RandSub(k, S) == {Range(SubSeq(Shuf(SetSeq(S)), 1, Min2(k, Cardinality(S))))}

----------------------------------------------------------------------------
\* TLC re-evaluates operator arguments wherever they are used; binding through
\* a singleton set evaluates them once.
Bind(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE

DCommitAll(s, q, i) == FoldLeft(LAMBDA t, c : DeliverCommit(t, c, i), s, q)
DPropAll(s, q, i) == FoldLeft(LAMBDA t, c : DeliverProp(t, c, i), s, q)
DAppAll(s, q, i) == FoldLeft(LAMBDA t, c : DeliverApp(t, c, i), s, q)
ProbeAll(s, q) == FoldLeft(LAMBDA t, c : IF t.mem[c].at # 0 THEN Probe(t, c) ELSE t, s, q)
JoinAll(s, q, i) == FoldLeft(LAMBDA t, c : IF CanJoin(t, c, i) THEN Join(t, c, i) ELSE t, s, q)

\* Items of a list under construction: a proposal and whether it goes by
\* reference (then its message is delivered to the clients q).
Item(p, byref, wire, miss) == [p |-> p, byref |-> byref, wire |-> wire, miss |-> miss]
AddItem(a, e, it, q) == \* a = [s, ps]
  LET p == IF it.p.k = "upd" THEN [it.p EXCEPT !.v = a.s.nv] ELSE it.p
      id == Len(a.s.props) + 1
  IN IF it.byref
     THEN [s |-> DPropAll(Propose(a.s, e, p, it.wire), SelectSeq(q, LAMBDA c : c # it.miss), id),
           ps |-> Append(a.ps, [p EXCEPT !.r = id])]
     ELSE [s |-> IF p.k = "upd" THEN [a.s EXCEPT !.nv = @ + 1] ELSE a.s, ps |-> Append(a.ps, p)]
BuildPs(s, e, items, q) == FoldLeft(LAMBDA a, it : AddItem(a, e, it, q), [s |-> s, ps |-> <<>>], items)

NewG(s, i) == SelectSeq([j \in 1..Len(s.cms[i].m.added) |-> s.cms[i].m.added[j].c], LAMBDA c : c \in G)

\* Members of epoch e kept in the main line, as a sequence.
Here(s, e) == SetSeq(InEpoch(s, e))

\* The commit, its delivery to q, and the joins.
Finish(s, e, by, ps, path, wire, q, late) ==
  Bind(VCommit(s, e, by, ps, path, wire),
       LAMBDA s1 : LET i == Len(s1.cms)
                   IN IF s1.cms[i].m.err = "ok"
                      THEN JoinAll(DCommitAll(s1, q, i), SelectSeq(NewG(s1, i), LAMBDA c : c \notin late), i)
                      ELSE DCommitAll(s1, q, i))

\* Deterministic sampling in breadth-first exploration with one worker: TRUE
\* about once in n calls.  Register 1 holds the state of a small generator.
Draw(n) == /\ TLCSet(1, (TLCGet(1) * 171 + 7) % 30269)
           /\ TLCGet(1) % n = 0
SeedDraw(k) == TLCSet(1, (k * 7919 + 13) % 30269)

\* Append one behaviour to the output file.
Emit(h) == LET r == Serialize(ToJson(h) \o "\n", IOEnv.VERIF_OUT,
                     [format |-> "TXT", charset |-> "UTF-8",
                      openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
           IN Assert(r.exitValue = 0, r)
=============================================================================
