------------------------------- MODULE Suites -------------------------------
(***************************************************************************)
(* Cipher suites do not mix.  Suites are named relative to that of the     *)
(* group: "o1", "o2", "o3" are the other supported ones, numbers those     *)
(* that are not supported.  Whatever belongs to one suite is refused where *)
(* another is in use, has no effect there, and each suite works by itself. *)
(***************************************************************************)
EXTENDS Deviant

Others == {"o1", "o2", "o3"}
Unsupported == {"0", "4", "5", "6", "8", "2570", "65535"}

Mix(kind, c, suite, ok) == [a |-> "mix", kind |-> kind, c |-> c, dev |-> [suite |-> suite], ok |-> IF ok THEN 1 ELSE 0, why |-> "suite"]

Q == <<1, 4>>
World == LET a == VCommit(InitWorld, 1, 0, AddsOf(<<1, 12, 4>>, 0), TRUE, "pub") IN JoinAll(a, Q, 1)
E0 == 2
Add(c, by) == Prop("add", c, 0, 0, by, 0, 0)
Foreign(s, o, path, wire) ==
  LET m == LastStep(VCommit(s, E0, 0, <<Add(15, 0)>>, path, wire))
  IN <<Tmpl(1, m), Flaw(1, "commit", {<<"k.foreign", o>>}, Refuse("suite"), 1, E0, 0),
       Flaw(4, "commit", {<<"k.foreign", o>>}, Refuse("suite"), 1, E0, 0)>>
\* A member lets in a client of another suite; that client's part.
Admit(s, o, path, wire) ==
  LET m == LastStep(VCommit(s, E0, 0, <<Add(3, 0)>>, path, wire))
  IN <<Tmpl(1, m), Flaw(3, "join", {<<"admit", o>>}, Refuse("suite"), 1, E0, 0)>>
\* The group goes on, and a newcomer of its own suite gets in.
Rest(s) == Bind(Bind(ProbeAll(s, Q), LAMBDA t : Finish(t, E0, 0, <<Add(2, 0)>>, TRUE, "priv", Q, {})), LAMBDA t : ProbeAll(t, <<1, 2, 4>>))
With(s, h) == Emit(Rest([s EXCEPT !.hist = @ \o h]).hist)

Show(s) ==
  /\ \A o \in Others :
       /\ With(s, <<Mix("gen", 1, o, TRUE), Mix("group", 1, o, TRUE)>>)
       /\ With(s, <<Mix("create", 1, o, FALSE), Mix("create", 4, o, FALSE)>>)
       /\ With(s, <<Mix("create2", 1, o, FALSE), Mix("create2", 4, o, FALSE)>>)
       /\ With(s, <<Mix("join", 1, o, FALSE), Mix("joinpair", 1, o, FALSE)>>)
       /\ With(s, <<Mix("commit", 1, o, FALSE), Mix("app", 1, o, FALSE), Mix("commit", 4, o, FALSE), Mix("app", 4, o, FALSE)>>)
       /\ \A path \in BOOLEAN, wire \in {"pub", "priv"} : With(s, Foreign(s, o, path, wire)) /\ With(s, Admit(s, o, path, wire))
  /\ \A u \in Unsupported : With(s, <<Mix("gen", 1, u, FALSE)>>)
  /\ With(s, <<Mix("supported", 1, "0", TRUE)>>)

Init == SeedDraw(Salt) /\ \E s \in {World} : w = s
Next == Show(w) /\ UNCHANGED w
Spec == Init /\ [][Next]_w
=============================================================================
