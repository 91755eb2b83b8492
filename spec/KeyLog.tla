------------------------------- MODULE KeyLog -------------------------------
(***************************************************************************)
(* The log of an implementation that generates key packages, judged.  Each *)
(* entry describes one call as an outside observer found it.  Keys and     *)
(* references are numbered in the order they first appear in the log, so   *)
(* one is new exactly if its number is one more than how many were seen.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.VERIF_LOG)

Supported == {1, 2, 3, 7}

VARIABLES i,                         \* entries read
          inits, encs, sigs, refs    \* how many different ones
vars == <<i, inits, encs, sigs, refs>>

\* What RFC 9420 sections 7.3 and 10.1 ask of a key package, and what the
\* caller asked for.
Faults(e) ==
  <<<<e.parse = 1,      "encoding">>,
    <<e.version = 1,    "version">>,
    <<e.suite = e.asked, "suite">>,
    <<e.source = 1,     "source">>,
    <<e.credtype = 1 /\ e.identity = 1, "credential">>,
    <<e.begun = 1,      "not-begun">>,
    <<e.lasts = 1,      "expired">>,
    <<e.capversion = 1, "capabilities">>,
    <<e.capsuite = 1,   "capabilities">>,
    <<e.capcred = 1,    "capabilities">>,
    <<e.exts = 1,       "extensions">>,
    <<e.apart = 1,      "same-keys">>,
    <<e.leafsig = 1,    "leaf-signature">>,
    <<e.kpsig = 1,      "signature">>,
    <<e.privinit = 1,   "init-key-pair">>,
    <<e.privenc = 1,    "encryption-key-pair">>,
    <<e.privsig = 1,    "signature-key-pair">>,
    <<e.samebytes = 1,  "unstable">>,
    <<e.sameref = 1,    "reference">>>>
Fresh(e) ==
  <<<<e.init = inits + 1, "init-key-reused">>,
    <<e.enc = encs + 1,   "encryption-key-reused">>,
    <<e.sig = sigs + 1,   "signature-key-reused">>,
    <<e.ref = refs + 1,   "reference-reused">>>>

Failing(q) == {q[k][2] : k \in {j \in DOMAIN q : ~q[j][1]}}
Verdict(e) ==
  IF e.asked \notin Supported
  THEN IF e.err = 1 THEN {} ELSE {"unsupported-accepted"}
  ELSE IF e.err = 1 THEN {"refused"}
  ELSE Failing(Faults(e)) \cup Failing(Fresh(e))

Max(a, b) == IF a > b THEN a ELSE b
Emit(h) == LET r == Serialize(ToJson(h) \o "\n", IOEnv.VERIF_OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
           IN Assert(r.exitValue = 0, r)

Init == i = 0 /\ inits = 0 /\ encs = 0 /\ sigs = 0 /\ refs = 0
Next ==
  /\ i < Len(Log)
  /\ i' = i + 1
  /\ LET e == Log[i + 1] IN
       /\ inits' = Max(inits, e.init) /\ encs' = Max(encs, e.enc)
       /\ sigs' = Max(sigs, e.sig) /\ refs' = Max(refs, e.ref)
       /\ \A why \in Verdict(e) : Emit([n |-> i + 1, why |-> why])
Spec == Init /\ [][Next]_vars
=============================================================================
