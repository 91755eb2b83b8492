------------------------------ MODULE Deviant -------------------------------
(***************************************************************************)
(* Messages that deviate from honest ones.  A deviation sets one field of  *)
(* the model of a message to a value it would not honestly have; a message *)
(* with a set D of deviations (at most two here) is honest in every other  *)
(* field.  The modules that extend this one say what a receiver must make  *)
(* of the result.                                                          *)
(***************************************************************************)
EXTENDS Rounds

CONSTANTS Rate, Salt,
          Chunk,   \* deviating messages per behaviour
          Two      \* also every pair of deviations

\* <<field, value>> for each value
Fld(f, S) == {<<f, v>> : v \in S}
Of(D, f) == IF \E d \in D : d[1] = f THEN (CHOOSE d \in D : d[1] = f)[2] ELSE ""
In(D, f, S) == Of(D, f) \in S
Set(D, F) == \E d \in D : d[1] \in F
Combos(U) == {{d} : d \in U} \cup (IF Two THEN {{d, e} : d \in U, e \in U} ELSE {})
Proper(C) == {D \in C : \A d, e \in D : d[1] = e[1] => d = e}
DevOf(D) == [f \in {d[1] : d \in D} |-> Of(D, f)]

\* Verdicts: 0 refuse, 1 accept, 2 left open.
Refuse(why) == [ok |-> 0, why |-> why]
Accept == [ok |-> 1, why |-> "ok"]
Open == [ok |-> 2, why |-> "open"]

\* The first failing condition of a sequence <<cond, why>>, else Accept.
RECURSIVE FirstFail(_)
FirstFail(q) == IF q = <<>> THEN Accept ELSE IF Head(q)[1] THEN Refuse(Head(q)[2]) ELSE FirstFail(Tail(q))

Flaw(c, kind, D, v, mt, e, by) ==
  [a |-> "flaw", c |-> c, kind |-> kind, dev |-> DevOf(D), ok |-> v.ok, why |-> v.why, mt |-> mt, e |-> e, by |-> by]
Tmpl(id, m) == [a |-> "tmpl", id |-> id, m |-> m]
\* All single deviations, one pair in Rate.
Sampled(C) == {D \in C : Cardinality(D) = 1 \/ Draw(Rate)}
\* The step last logged.
LastStep(s) == s.hist[Len(s.hist)]

Cut(q) == LET n == (Len(q) + Chunk - 1) \div Chunk
          IN [i \in 1..n |-> SubSeq(q, (i - 1)*Chunk + 1, Min2(i*Chunk, Len(q)))]

=============================================================================
