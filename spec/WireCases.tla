----------------------------- MODULE WireCases ------------------------------
(***************************************************************************)
(* Byte strings for the decoders, each with the verdict Wire gives it:     *)
(* encodings deviating in one place, or two, or byte by byte.              *)
(***************************************************************************)
EXTENDS Wire

CONSTANTS Part, Rate, Salt, Chunk,
          Mod, Res   \* only the bases whose number is Res modulo Mod

VARIABLES todo

Draw(n) == /\ TLCSet(1, (TLCGet(1) * 171 + 7) % 30269)
           /\ TLCGet(1) % n = 0
Emit(h) == LET r == Serialize(ToJson(h) \o "\n", IOEnv.VERIF_OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
           IN Assert(r.exitValue = 0, r)

Small == [op |-> 2, vec |-> 1, opt |-> 1]
AllBases ==
  CASE Part = "kp" -> {[wf |-> 5, ct |-> c, src |-> s] @@ [op |-> o, vec |-> v, opt |-> 1]
                       : c \in {1, 2}, s \in {1, 2, 3}, o \in {0, 2}, v \in {0, 1}}
                      \cup {[wf |-> 5, ct |-> 1, src |-> 1, op |-> 64, vec |-> 2, opt |-> 1]}
    [] Part = "welcome" -> {[wf |-> 3] @@ [op |-> o, vec |-> v, opt |-> 1] : o \in {0, 1, 32}, v \in {0, 1, 2, 3}}
    [] Part = "group" -> {[wf |-> 1, ctype |-> c, stype |-> s, ptype |-> p] @@ Small
                          : c \in {2, 3}, s \in {1, 4}, p \in {1, 2, 3, 4, 5, 6, 7}}
                         \cup {[wf |-> 1, ctype |-> 1, stype |-> s] @@ Small : s \in {1, 2, 3, 4}}
                         \cup {[wf |-> w, ctype |-> c] @@ Small : w \in {2, 4}, c \in {1, 2, 3}}
    [] Part = "long" -> {[wf |-> 5, ct |-> 1, src |-> 3, op |-> n, vec |-> 1, opt |-> 1] : n \in {63, 64}}
                        \cup {[wf |-> 3, op |-> n, vec |-> 1, opt |-> 1] : n \in {63, 64, 5462, 16383, 16384}}

Bases == LET q == SetToSeq(AllBases) IN {q[i] : i \in {j \in 1..Len(q) : j % Mod = Res}}

Enc(base, D) == Build("MLSMessage", "", base, D, 1, Env0)
Places(base) == Enc(base, {}).i - 1
\* The kind of place p: what a deviation there does to it tells.
KindAt(base, p) == Enc(base, {[at |-> p, how |-> "?"]}).env.kind

\* Deviations by place (a deviation of another kind of field changes nothing).
Single(base) == UNION {{Enc(base, {[at |-> p, how |-> h]}).b : h \in HowsOf(KindAt(base, p))} : p \in 1..Places(base)}
Double(base) == {Enc(base, {[at |-> p, how |-> h], [at |-> q, how |-> g]}).b
                 : p \in {x \in 1..Places(base) : Draw(Rate)}, q \in {x \in 1..Places(base) : Draw(Rate)},
                   h \in {x \in AllHows : Draw(Rate)}, g \in {x \in AllHows : Draw(Rate)}}
Xor(x, m) == IF (x \div m) % 2 = 0 THEN x + m ELSE x - m
Flat(b) ==
  LET r == IF Part = "group" THEN 8 ELSE 1
      P == {p \in 1..Len(b) : Draw(r)}
  IN {SubSeq(b, 1, p - 1) : p \in P}
     \cup {Append(b, x) : x \in {0, 1, 255}}
     \cup {SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b)) : p \in P}
     \cup {SubSeq(b, 1, p) \o <<b[p]>> \o SubSeq(b, p + 1, Len(b)) : p \in P}
     \cup {[b EXCEPT ![p] = Xor(@, m)] : p \in P, m \in {1, 2, 64, 128}}
     \cup {[b EXCEPT ![p] = x] : p \in P, x \in {0, 255}}

Case(b) == LET ok == IsA("MLSMessage", b)
           IN [b |-> b, kp |-> IF ok /\ Num(b, 3, 2) = 5 THEN 1 ELSE 0, we |-> IF ok /\ Num(b, 3, 2) = 3 THEN 1 ELSE 0]
Step(q) == <<[a |-> "found", c |-> 1], [a |-> "wire", cases |-> q]>>
Chunks(S) == LET q == SetToSeq(S) n == (Len(q) + Chunk - 1) \div Chunk
             IN [i \in 1..n |-> SubSeq(q, (i - 1)*Chunk + 1, IF i*Chunk < Len(q) THEN i*Chunk ELSE Len(q))]

Show(base) ==
  \E b \in {Enc(base, {}).b} :
  \E S \in {{b} \cup Single(base) \cup (IF Len(b) < 400 THEN Flat(b) \cup Double(base) ELSE {})} :
  \E q \in {Chunks(S)} : \A i \in 1..Len(q) : Emit(Step([j \in 1..Len(q[i]) |-> Case(q[i][j])]))

\* Undeviating encodings are encodings.
BuildOK == \A x \in Bases : Assert(IsA("MLSMessage", Enc(x, {}).b), x)
Init == TLCSet(1, (Salt * 7919 + 13) % 30269) /\ todo = Bases /\ BuildOK
Next == todo # {} /\ \E x \in {CHOOSE y \in todo : TRUE} : Show(x) /\ todo' = todo \ {x}
Spec == Init /\ [][Next]_todo

=============================================================================
