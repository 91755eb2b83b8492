------------------------------ MODULE Members -------------------------------
(***************************************************************************)
(* Which members get along.  A leaf has a credential type and lists the    *)
(* types it supports, in any order and possibly more than once.  A group   *)
(* takes in a set of leaves iff every type in use is listed by every       *)
(* member, judged on the members there are after the whole list of         *)
(* proposals and the path have been applied.                               *)
(* Random histories: leaves enter by adds, updates and paths; commits that *)
(* break the rule are shown to every member and newcomer, who refuse them. *)
(***************************************************************************)
EXTENDS Deviant

CONSTANTS Depth

VARIABLE cr  \* [epoch -> [leaf -> [t, l]]]: type and list of each member
vars == <<w, cr>>

Lists == {"1", "11", "12", "21", "112", "2", "22", "-"}
Base == <<"1", "12", "11", "211">>
Has(l, t) == CASE l = "-" -> FALSE
               [] l \in {"1", "11"} -> t = "1"
               [] l \in {"2", "22"} -> t = "2"
               [] OTHER -> TRUE
Agree(r) == \A i, j \in DOMAIN r : Has(r[j].l, r[i].t)
\* Mostly entries that fit r, so that groups go on.
Entries(r) == LET all == {[t |-> t, l |-> l] : t \in {"1", "2"}, l \in Lists}
                  fit == {x \in all : (\A i \in DOMAIN r : Has(x.l, r[i].t) /\ Has(r[i].l, x.t)) /\ Has(x.l, x.t)}
              IN Pick(IF fit = {} \/ RandomElement(1..3) = 1 THEN all ELSE fit)
Dev(p, x) == (p \o "ctype" :> x.t) @@ (p \o "creds" :> x.l)

Lib(i) == [t |-> "1", l |-> Base[i]]

Founded(i) ==
  \E s \in {InitWorld} :
  \E s1 \in {[s EXCEPT !.hist = <<[a |-> "caps", wire |-> Base[i]]>> \o @]} :
  \E s2 \in {VCommit(s1, 1, 0, AddsOf(<<1, 12, 2, 13>>, 0), TRUE, "pub")} :
    /\ w = JoinAll(s2, <<1, 2>>, 1)
    /\ cr = [base |-> i, at |-> <<[x \in {0} |-> Lib(i)], [x \in 0..4 |-> Lib(i)]>>]

\* The members after commit m: a new leaf is the one added, updated or of the path.
Then(r, T, m, k, u, p) ==
  [l \in Leaves(m.tree) |->
     IF m.path /\ l = m.by THEN p
     ELSE IF \E j \in 1..Len(m.added) : m.added[j].leaf = l
          THEN (IF Nd(m.tree, 2*l).c \in G THEN Lib(cr.base) ELSE k)
     ELSE IF Nd(m.tree, 2*l) # Nd(T, 2*l) THEN u
     ELSE r[l]]

Add(c, by) == Prop("add", c, 0, 0, by, 0, 0)
Rem(l, by) == Prop("rem", 0, 0, l, by, 0, 0)
Mark(s, d) == IF DOMAIN d = {} THEN s ELSE [s EXCEPT !.hist[Len(s.hist)] = @ @@ [dev |-> d]]
Spoil(s, n) == \* the verdicts logged after n become refusals, the members stay
  [s EXCEPT !.hist = [i \in 1..Len(@) |-> IF i > n THEN [@[i] EXCEPT !.ok = 0, !.why = "credential"] ELSE @[i]]]

Round ==
  \E c0 \in Pick(Active(w)) :
  LET e == w.mem[c0].at
      T == Tree(w, e)
      r == cr.at[e]
      vs == VLeaves(w, e)
      q == SetSeq(InEpoch(w, e))
      freshV == V \ w.used
      freshG == {c \in G : w.mem[c].at = 0}
      n == Cardinality(Leaves(T))
  IN \E by \in Pick(vs), nA \in Pick(1..3), nL \in Pick(1..4), nR \in Pick(1..3), nU \in Pick(1..3),
        wire \in Pick(Wires), forced \in Pick(BOOLEAN), order \in Pick(BOOLEAN) :
     \E av \in RandSub(IF nA > 1 /\ n < 8 THEN 1 ELSE 0, freshV),
        ag \in RandSub(IF nL > 1 THEN 1 ELSE 0, freshG),
        rm \in RandSub(IF nR = 1 \/ n > 6 THEN 1 ELSE 0, vs \ {by}) :
     \E up \in RandSub(IF nU = 1 THEN 1 ELSE 0, vs \ ({by} \cup rm)) :
     \E stay \in {[l \in DOMAIN r \ (rm \cup up) |-> r[l]]} :
     \E k \in Entries(stay), u \in Entries(stay) :
     \E p \in Entries([l \in DOMAIN stay \ {by} |-> r[l]]) :
     LET adds == [j \in 1..Cardinality(av) |-> Add(SetSeq(av)[j], by)] \o [j \in 1..Cardinality(ag) |-> Add(SetSeq(ag)[j], by)]
         rems == [j \in 1..Cardinality(rm) |-> Rem(SetSeq(rm)[j], by)]
         ul == IF up = {} THEN 0 ELSE CHOOSE l \in up : TRUE
         upd == Prop("upd", Nd(T, 2*ul).c, w.nv, ul, ul, 0, 0)
     IN \E s1 \in {IF up = {} THEN w ELSE Mark(Propose(w, e, upd, wire), Dev("u.", u))} :
        \E s2 \in {IF up = {} THEN s1 ELSE DPropAll(s1, q, Len(s1.props))} :
        LET ups == IF up = {} THEN <<>> ELSE <<[upd EXCEPT !.r = Len(s1.props)]>>
            ps == IF order THEN adds \o ups \o rems ELSE ups \o rems \o adds
            path == forced \/ NeedsPath(ps)
        IN \E s3 \in {Mark(VCommit(s2, e, by, ps, path, wire), (IF av # {} THEN Dev("k.", k) ELSE <<>>) @@ (IF path THEN Dev("p.", p) ELSE <<>>))} :
           \E m \in {s3.cms[Len(s3.cms)].m}, i \in {Len(s3.cms)} :
           \E r2 \in {Then(r, T, m, k, u, p)} :
           \* the list alone
           \E r1 \in {[l \in DOMAIN r2 |-> IF l = by THEN r[l] ELSE r2[l]]} :
             LET s4 == DCommitAll(s3, q, i)
                 s5 == JoinAll(s4, SetSeq(ag), i)
             IN \* proposals that only the path makes acceptable are left open
                IF m.err # "ok" \/ (Agree(r2) /\ ~Agree(r1)) THEN UNCHANGED vars
                ELSE /\ cr' = [cr EXCEPT !.at = Append(@, r2)]
                     /\ IF Agree(r2) THEN \E t \in {s5} : w' = ProbeAll(t, q)
                        ELSE \E t \in {Spoil(s5, Len(s3.hist))} : w' = [t EXCEPT !.mem = s3.mem]

\* An instance asked to invite a client.
Creating ==
  \E c \in Pick(Active(w)) : \E x \in Pick(V \ w.used) :
  LET e == w.mem[c].at IN
  \E k \in Entries(cr.at[e]) :
  \E l \in {AddLeaf(Tree(w, e), LeafNd(x, 0)).leaf} :
  LET D == {<<"k.ctype", k.t>>, <<"k.creds", k.l>>}
      v == IF Agree((l :> k) @@ cr.at[e]) THEN Accept ELSE Refuse("credential")
  IN /\ w' = Log(w, Flaw(c, "create", D, v, 0, e, 0) @@ [p |-> Add(x, 0)])
     /\ UNCHANGED cr

Init == \E i \in Pick(1..4) : Founded(i)
Next == \/ /\ TLCGet("level") < Depth
           /\ \E k \in Pick(1..5) : IF k = 1 THEN Creating ELSE Round
        \/ /\ TLCGet("level") = Depth /\ Emit(w.hist) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* Every epoch a member is in is one whose members agree.
AgreeOK == \A c \in Active(w) : Agree(cr.at[w.mem[c].at])
=============================================================================
