------------------------------ MODULE MCGroup ------------------------------
(* Exhaustive exploration of MLSGroup within small bounds. *)
EXTENDS MLSGroup
CONSTANTS MaxCommits, MaxProps, MaxList, MaxTree

ASSUME TreeMathOK(1) /\ TreeMathOK(2) /\ TreeMathOK(4) /\ TreeMathOK(8) /\ TreeMathOK(16)

LowFresh == (IF Fresh(w) \cap G = {} THEN {} ELSE {MinOf(Fresh(w) \cap G)})
            \cup (IF Fresh(w) \cap V = {} THEN {} ELSE {MinOf(Fresh(w) \cap V)})

Items(e, by) ==
  {Prop("add", c, 0, 0, by, 0, 0) : c \in LowFresh}
  \cup {Prop("rem", 0, 0, l, by, 0, 0) : l \in Leaves(Tree(w, e)) \ {by}}
  \cup {w.props[i].p : i \in {j \in 1..Len(w.props) : w.props[j].from = e}}
Lists(e, by) == UNION {[1..n -> Items(e, by)] : n \in 0..MaxList}
GoodLists(e, by) == {ps \in Lists(e, by) : ListError(Tree(w, e), ps, by) = "ok"}
More == Len(w.cms) < MaxCommits

MCGWelcome == More /\ \E c \in Active(w) : \E d \in LowFresh : w' = GWelcome(w, c, <<d>>)
MCVCommit == More /\ \E e \in Live(w) : \E by \in VLeaves(w, e) : \E ps \in GoodLists(e, by) :
               \E path \in {TRUE, FALSE} :
                 /\ CanVCommit(w, e, by) /\ (path \/ ~NeedsPath(ps))
                 /\ w' = VCommit(w, e, by, ps, path, "pub")
MCPropose ==
  /\ More /\ Len(w.props) < MaxProps
  /\ \E e \in Live(w) : Known(e) /\ \E s \in Leaves(Tree(w, e)) :
       \/ \E c \in LowFresh : w' = Propose(w, e, Prop("add", c, 0, 0, s, 0, 0), "pub")
       \/ \E l \in Leaves(Tree(w, e)) : w' = Propose(w, e, Prop("rem", 0, 0, l, s, 0, 0), "pub")
       \/ /\ s \in VLeaves(w, e)
          /\ w' = Propose(w, e, Prop("upd", Nd(Tree(w, e), 2*s).c, w.nv, 0, s, 0, 0), "pub")
MCDeliverProp == \E c \in Active(w) : \E i \in 1..Len(w.props) :
                   i \notin w.mem[c].pend /\ w' = DeliverProp(w, c, i)
MCDeliverCommit == \E c \in Active(w) : \E i \in 1..Len(w.cms) : w' = DeliverCommit(w, c, i)
MCJoin == \E c \in G : \E i \in 1..Len(w.cms) : CanJoin(w, c, i) /\ w' = Join(w, c, i)

MCInit == w = InitWorld
MCNext == MCGWelcome \/ MCVCommit \/ MCPropose \/ MCDeliverProp \/ MCDeliverCommit \/ MCJoin
TreeBound == \A e \in 1..Len(w.eps) : Len(Tree(w, e)) <= 2*MaxTree - 1
MCSpec == MCInit /\ [][MCNext]_w
=============================================================================
