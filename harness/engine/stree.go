package engine

import (
	"fmt"

	"verif/harness/ref"
)

// stree makes a Welcome around a tree given node by node and has a client
// join with it. Everything but the tree is as it should be.
func (w *World) stree(st *Step) {
	s := w.S
	cl := w.client(st.C)
	tree := w.linked(st.Tree)
	ctx := &ref.GroupContext{Version: 1, Suite: s.ID, GroupID: w.GID, Epoch: 5,
		TreeHash: tree.RootHash(s), Confirmed: ref.Random(s.Nh)}
	joiner := ref.Random(s.Nh)
	sec := s.Expanded(s.EpochSecret(joiner, ctx))
	b := &build{ep: &epoch{id: 2, num: 5, tree: tree, ctx: ctx, sec: sec, joiner: joiner, tag: s.MAC(sec.Confirm, ctx.Confirmed)}}
	m := &Step{By: st.By, To: 2, Added: []Added{{C: st.C, Leaf: st.Leaf}}}
	raw := w.buildWelcome(m, b, nil)
	twin, queue := cl.twin, cl.queue
	defer func() { cl.twin, cl.queue = twin, queue }()
	w.stats.Add("flaws:tree", 1)
	w.tags = fmt.Sprintf("kind:tree leaves:%d", (len(tree)+1)/2)
	defer func() { w.tags = "" }()
	g, err, pan := w.joinWith(cl, raw)
	if pan || !w.verdict("flaw", st, err, "") {
		return
	}
	if err == nil {
		f := *st
		f.M = m
		w.tryJoined(&f, cl, g, b)
	}
}

// linked builds the tree of a specification whose nodes name the ancestors
// their parent hashes stand for.
func (w *World) linked(spec []SNode) ref.Tree {
	s := w.S
	t := make(ref.Tree, len(spec))
	for i, n := range spec {
		switch n.T {
		case "l":
			t[i] = &ref.Node{Leaf: w.client(n.C).kp.Leaf.Clone()}
		case "p":
			p := &ref.Parent{Key: w.poolKey(n.K)}
			if n.K%2 == 1 { // that of a leaf
				p.Key = clone(w.client(spec[n.K-1].C).kp.Leaf.EncKey)
			}
			for _, u := range n.U {
				p.Unmerged = append(p.Unmerged, uint32(u))
			}
			t[i] = &ref.Node{Parent: p}
		}
	}
	done := make([]int, len(t))
	var fix func(x int)
	fixAll := func(x int) {
		r := reach(x)
		for y := x - r; y <= x+r; y++ {
			fix(y)
		}
	}
	fix = func(x int) {
		if done[x] == 2 || t[x] == nil {
			return
		}
		if done[x] == 1 {
			panic("harness: circular parent hashes")
		}
		done[x] = 1
		var hash []byte
		switch pt := spec[x].PT; {
		case pt < 0:
			hash = ref.Random(s.Nh)
		case pt > 0:
			fix(pt)
			half := (reach(pt) + 1) / 2
			sib := pt - half
			if x < pt {
				sib = pt + half
			}
			fixAll(sib)
			excl := map[uint32]bool{}
			for _, u := range spec[pt].U {
				excl[uint32(u)] = true
			}
			hash = ref.ParentHash(s, t[pt].Parent, t.Hash(s, sib, excl))
		}
		if l := t[x].Leaf; l == nil {
			t[x].Parent.Hash = hash
		} else if spec[x].PT != 0 {
			l.Source, l.ParentHash = ref.SrcCommit, hash
			l.Sign(s, w.client(spec[x].C).sig, w.GID, uint32(x/2))
		}
		done[x] = 2
	}
	for x := range t {
		fix(x)
	}
	return t
}

// reach is the distance from a node to the ends of its subtree.
func reach(x int) int {
	r := 0
	for ; x%2 == 1; x /= 2 {
		r = 2*r + 1
	}
	return r
}

// poolKey is a public key nobody holds the private part of.
func (w *World) poolKey(k int) []byte {
	if w.pool == nil {
		w.pool = map[int][]byte{}
	}
	if w.pool[k] == nil {
		w.pool[k], _ = w.S.GenHPKE()
	}
	return w.pool[k]
}
