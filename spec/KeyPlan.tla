------------------------------ MODULE KeyPlan -------------------------------
(***************************************************************************)
(* What a client program may do with key packages: generate them, one at a *)
(* time or several at once, for one credential or many, use them in groups *)
(* and dispose of them, in any order.  Random behaviours of this machine   *)
(* are run against the library; every package generated is described in a  *)
(* log that the module KeyLog judges.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json

CONSTANTS Depth

Suites == {1, 2, 3, 7}
Unsupported == {0, 4, 5, 6, 8, 2570, 65535}
Ids == {0, 1, 63, 64, 255, 16383, 16384, 70000}
Creds == {"new", "same", "shared"}

VARIABLES pool, \* suites of the packages generated so far, in order
          hist
vars == <<pool, hist>>

Op(kind, suite, id, cred, n, x, y) ==
  [a |-> "kgen", kind |-> kind, from |-> suite, size |-> id, wire |-> cred, gen |-> n, c |-> x, e |-> y]
\* A random choice, made once.
Pick(S) == {RandomElement(S)}
Mates(x) == {y \in 1..Len(pool) : y # x /\ pool[y] = pool[x]}
Log(o) == hist' = Append(hist, o)

Gen == \E s \in Pick(Suites), i \in Pick(Ids), c \in Pick(Creds) :
         /\ Log(Op("gen", s, i, c, 1, 0, 0))
         /\ pool' = Append(pool, s)
\* Several at once.
Par == \E s \in Pick(Suites), n \in Pick({2, 5, 16}), c \in Pick(Creds) :
         /\ Log(Op("par", s, 5, c, n, 0, 0))
         /\ pool' = pool \o [k \in 1..n |-> s]
Bad == \E s \in Pick(Unsupported), i \in Pick({1, 64}) :
         /\ Log(Op("bad", s, i, "new", 1, 0, 0))
         /\ UNCHANGED pool
\* x founds a group and invites y.
Use == \E x \in Pick(1..Len(pool)) :
         IF Mates(x) = {} THEN Gen
         ELSE \E y \in Pick(Mates(x)) : Log(Op("use", pool[x], 0, "new", 1, x, y)) /\ UNCHANGED pool
\* The owner wipes the private keys and what it passed in.
Wipe == \E x \in Pick(1..Len(pool)) :
         /\ Log(Op("wipe", pool[x], 0, "new", 1, x, 0))
         /\ UNCHANGED pool

Emit(h) == LET r == Serialize(ToJson(h) \o "\n", IOEnv.VERIF_OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
           IN Assert(r.exitValue = 0, r)
Init == pool = <<>> /\ hist = <<>>
Next ==
  \/ /\ Len(hist) < Depth
     /\ \E k \in Pick(1..8) :
          \/ (k <= 3 \/ (k >= 6 /\ pool = <<>>)) /\ Gen
          \/ k = 4 /\ Par
          \/ k = 5 /\ Bad
          \/ k \in {6, 7} /\ pool # <<>> /\ Use
          \/ k = 8 /\ pool # <<>> /\ Wipe
  \/ Len(hist) = Depth /\ Emit(hist) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
