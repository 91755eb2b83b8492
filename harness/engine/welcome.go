package engine

import (
	"bytes"

	"verif/harness/ref"
)

const (
	extRatchetTree = 2
	extRequired    = 3
	extSenders     = 5
)

// buildWelcome makes the Welcome that goes with the commit b of step st.
func (w *World) buildWelcome(st *Step, b *build, dev Dev) []byte {
	s := w.S
	ctx := *b.ep.ctx
	tree := b.ep.tree
	joiner, tag := b.ep.joiner, b.ep.tag
	signer := st.By
	if hasPrefix(dev, "t.") || hasPrefix(dev, "x.") {
		// everything derived from the deviating tree or context is recomputed
		tree = w.treeDev(tree.Clone(), st, dev, ctx.GroupID)
		ctx.TreeHash = safeRootHash(s, tree)
		switch dev["t.hash"] {
		case "flip", "empty", "trunc", "zero":
			ctx.TreeHash = mangle(dev["t.hash"], ctx.TreeHash)
		}
		switch dev["x.suite"] {
		case "other":
			ctx.Suite = ctx.Suite%3 + 1
		case "unknown":
			ctx.Suite = 0x7a7a
		}
		switch dev["x.ver"] {
		case "2":
			ctx.Version = 2
		case "0":
			ctx.Version = 0
		}
		sec := s.Expanded(s.EpochSecret(joiner, &ctx))
		tag = s.MAC(sec.Confirm, ctx.Confirmed)
	}
	gi := &ref.GroupInfo{Ctx: &ctx, Tag: tag, Signer: uint32(signer)}
	raw := w.reenc(dev, "n.tree", "RatchetTree", treeBytes(tree), nil)
	switch dev["i.tree"] {
	case "none":
	case "garbage":
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: []byte{1, 2, 3}}}
	case "trailing":
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: append(clone(raw), 0)}}
	case "empty":
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: []byte{0}}}
	case "noext":
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: nil}}
	case "blanktail":
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: rawTree(append(tree.Clone(), nil, nil))}}
	case "even":
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: rawTree(append(trim(tree), nil))}}
	case "allblank":
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: rawTree(ref.Tree{nil})}}
	case "leafodd":
		t := tree.Clone()
		t[1] = t[0]
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: rawTree(trim(t))}}
	case "parenteven":
		t := tree.Clone()
		pub, _ := s.GenHPKE()
		t[2] = &ref.Node{Parent: &ref.Parent{Key: pub}}
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: rawTree(trim(t))}}
	default:
		gi.Exts = []ref.Ext{{Type: extRatchetTree, Data: raw}}
	}
	if dev["i.exts"] == "unknown" {
		gi.Exts = append([]ref.Ext{{Type: 0xff77, Data: []byte("hello")}}, gi.Exts...)
	} else if dev["i.exts"] == "after" {
		gi.Exts = append(gi.Exts, ref.Ext{Type: 0xff77, Data: []byte("hello")})
	}
	ol := w.otherIn(tree, signer, st.Added)
	switch dev["i.signer"] {
	case "other":
		gi.Signer = uint32(ol)
	case "blank":
		gi.Signer = uint32(blankIn(tree))
	case "oob":
		gi.Signer = uint32((len(tree) + 1) / 2)
	case "max":
		gi.Signer = 0xffffffff
	case "alias":
		gi.Signer = uint32(signer) + 1<<31
	}
	key := w.sigKeyFor(tree[2*signer].Leaf)
	switch dev["i.key"] {
	case "other":
		key = w.sigKeyFor(tree[2*ol].Leaf)
	case "outsider":
		_, key = s.GenSig()
	}
	switch dev["i.tag"] {
	case "prevkey":
		if e := w.epochs[st.From]; e != nil && e.sec != nil {
			gi.Tag = s.MAC(e.sec.Confirm, ctx.Confirmed)
		}
	default:
		gi.Tag = mangle(dev["i.tag"], gi.Tag)
	}
	gi.Sign(s, key)
	switch dev["i.over"] { // altered after signing
	case "tag":
		gi.Tag = flip(gi.Tag)
	case "epoch":
		gi.Ctx.Epoch++
	case "gid":
		gi.Ctx.GroupID = append(clone(gi.Ctx.GroupID), 'x')
	case "confirmed":
		gi.Ctx.Confirmed = flip(gi.Ctx.Confirmed)
	case "exts":
		gi.Exts = append(gi.Exts, ref.Ext{Type: 0xff78, Data: nil})
	}
	gi.Sig = mangle(dev["i.sig"], gi.Sig)
	info := w.reenc(dev, "n.info", "GroupInfo", gi.Bytes(), nil)
	switch dev["i.tail"] {
	case "extra":
		info = append(info, 0)
	case "trunc":
		info = info[:len(info)-1]
	case "nosig":
		info = info[:len(info)-len(gi.Sig)-2]
	case "nosigvec":
		info = info[:len(info)-len(gi.Sig)]
	}
	wl := &ref.Welcome{Suite: s.ID}
	wl.Info = s.SealGroupInfo(joiner, info)
	switch dev["w.info"] {
	case "flip", "flipz", "trunc", "long", "empty", "one":
		wl.Info = mangle(dev["w.info"], wl.Info)
	}
	encInfo := wl.Info
	switch dev["e.ctx"] {
	case "flip", "empty":
		encInfo = mangle(dev["e.ctx"], encInfo)
	}
	for _, ad := range st.Added {
		cl := w.client(ad.C)
		kp := cl.kp
		gs := &ref.GroupSecrets{Joiner: joiner}
		if st.Path == 1 {
			gs.HasPath, gs.Path = true, b.secrets[w.kidAt(st, ad.Anc)]
		}
		switch dev["s.path"] {
		case "wrong":
			gs.HasPath, gs.Path = true, ref.Random(s.Nh)
		case "next":
			if gs.HasPath {
				gs.Path = s.DeriveSecret(gs.Path, "path")
			}
		case "empty":
			gs.HasPath, gs.Path = true, []byte{}
		case "half":
			if gs.HasPath {
				gs.Path = gs.Path[:s.Nh/2]
			}
		case "long":
			gs.HasPath, gs.Path = true, append(clone(gs.Path), 0)
		case "extra":
			gs.HasPath, gs.Path = true, ref.Random(s.Nh)
		}
		switch dev["s.joiner"] {
		case "random":
			gs.Joiner = ref.Random(s.Nh)
		case "flip", "empty", "half":
			gs.Joiner = mangle(dev["s.joiner"], gs.Joiner)
		case "tail": // HMAC pads its keys with zeros, so not a zero
			gs.Joiner = append(clone(gs.Joiner), 1)
		}
		if dev["s.psk"] == "one" {
			gs.PSKs = [][]byte{new(ref.W).U8(1).Vec([]byte("id")).Vec(make([]byte, s.Nh)).B}
		}
		pub := kp.InitKey
		if dev["e.key"] == "enc" {
			pub = kp.Leaf.EncKey
		} else if dev["e.key"] == "other" {
			pub, _ = s.GenHPKE()
		}
		label := "Welcome"
		if dev["e.label"] == "other" {
			label = "UpdatePathNode"
		}
		plain := w.reenc(dev, "n.secrets", "GroupSecrets", gs.Bytes(), nil)
		switch dev["s.tail"] {
		case "extra":
			plain = append(plain, 0)
		case "trunc":
			plain = plain[:len(plain)-1]
		}
		kem, ct := s.Seal(pub, label, encInfo, plain)
		ent := ref.WelcomeEntry{Ref: kp.Ref(s), Enc: ref.HPKECiphertext{KEM: kem, CT: ct}}
		switch dev["e.ref"] {
		case "flip", "flip0", "flipz", "trunc", "empty", "long", "zero":
			ent.Ref = mangle(dev["e.ref"], ent.Ref)
		}
		switch dev["e.ct"] {
		case "flip", "flipz", "trunc", "empty", "long", "one":
			ent.Enc.CT = mangle(dev["e.ct"], ent.Enc.CT)
		}
		switch dev["e.kem"] {
		case "flip", "trunc", "empty", "long", "one", "zero":
			ent.Enc.KEM = mangle(dev["e.kem"], ent.Enc.KEM)
		}
		wl.Entries = append(wl.Entries, ent)
	}
	switch dev["w.entries"] {
	case "none":
		wl.Entries = nil
	case "drop":
		wl.Entries = wl.Entries[1:]
	case "swap": // each newcomer's secrets filed under the other's reference
		if len(wl.Entries) > 1 {
			wl.Entries[0].Enc, wl.Entries[1].Enc = wl.Entries[1].Enc, wl.Entries[0].Enc
		}
	case "reverse":
		for i, j := 0, len(wl.Entries)-1; i < j; i, j = i+1, j-1 {
			wl.Entries[i], wl.Entries[j] = wl.Entries[j], wl.Entries[i]
		}
	case "decoy": // an unrelated entry first
		d := wl.Entries[0]
		d.Ref = ref.Random(len(d.Ref))
		d.Enc.CT = flip(d.Enc.CT)
		wl.Entries = append([]ref.WelcomeEntry{d}, wl.Entries...)
	case "foreign": // the entries of another Welcome of the same commit
		inner := Dev{}
		for k, v := range dev {
			if k != "w.entries" && k != "w.tail" {
				inner[k] = v
			}
		}
		inner["i.exts"] = "after"
		x, err := ref.ParseWelcomeMsg(w.buildWelcome(st, b, inner))
		if err != nil {
			panic(err)
		}
		wl.Entries = x.Entries
	}
	switch dev["w.suite"] {
	case "other":
		wl.Suite = wl.Suite%3 + 1
	case "unknown":
		wl.Suite = 0x7a7a
	case "zero":
		wl.Suite = 0
	case "unsupported":
		wl.Suite = 5
	}
	out := w.reenc(dev, "n.welcome", "MLSMessage", ref.Msg(ref.WFWelcome, wl.Bytes()), nil)
	switch dev["w.tail"] {
	case "extra":
		out = append(out, 0)
	case "trunc":
		out = out[:len(out)-1]
	}
	return out
}

func (w *World) kidAt(st *Step, node int) int {
	for _, pn := range st.PN {
		if pn.N == node {
			return pn.K
		}
	}
	return 0
}

func treeBytes(t ref.Tree) []byte { return rawTree(trim(t)) }

// trim drops trailing blanks, as the encoding requires.
func trim(t ref.Tree) ref.Tree {
	n := len(t)
	for n > 0 && t[n-1] == nil {
		n--
	}
	return append(ref.Tree{}, t[:n]...)
}

func rawTree(t ref.Tree) []byte {
	return new(ref.W).Sub(func(w *ref.W) {
		for _, n := range t {
			ref.WriteOptNode(w, n)
		}
	}).B
}

func safeRootHash(s *ref.Suite, t ref.Tree) (h []byte) {
	defer func() {
		if recover() != nil {
			h = ref.Random(s.Nh)
		}
	}()
	return t.RootHash(s)
}

func blankIn(t ref.Tree) int {
	for i := 0; 2*i < len(t); i++ {
		if t[2*i] == nil {
			return i
		}
	}
	return (len(t) + 1) / 2
}

// otherIn finds a member other than leaf i, preferably not a newcomer.
func (w *World) otherIn(t ref.Tree, i int, added []Added) int {
	isNew := func(j int) bool {
		for _, a := range added {
			if a.Leaf == j {
				return true
			}
		}
		return false
	}
	n := (len(t) + 1) / 2
	for d := 1; d < n; d++ {
		j := (i + d) % n
		if t[2*j] != nil && !isNew(j) {
			return j
		}
	}
	for d := 1; d < n; d++ {
		j := (i + d) % n
		if t[2*j] != nil {
			return j
		}
	}
	return i
}

// resign re-signs leaf j of the tree with its client's key.
func (w *World) resign(t ref.Tree, j int, gid []byte, idx int) {
	l := t[2*j].Leaf
	l.Sign(w.S, w.sigKeyFor(l), gid, uint32(idx))
}

// treeDev alters the tree a joiner is shown.
func (w *World) treeDev(t ref.Tree, st *Step, dev Dev, gid []byte) ref.Tree {
	s := w.S
	for i, n := range t { // deep copy
		if n == nil {
			continue
		}
		c := &ref.Node{}
		if n.Leaf != nil {
			c.Leaf = n.Leaf.Clone()
		} else {
			p := *n.Parent
			p.Unmerged = append([]uint32{}, p.Unmerged...)
			c.Parent = &p
		}
		t[i] = c
	}
	own := st.Added[0].Leaf
	other := w.otherIn(t, st.By, st.Added)
	switch dev["t.leaf"] {
	case "sigflip":
		t[2*other].Leaf.Sig = flip(t[2*other].Leaf.Sig)
	case "signersig":
		t[2*st.By].Leaf.Sig = flip(t[2*st.By].Leaf.Sig)
	case "sigempty":
		t[2*other].Leaf.Sig = nil
	case "identity": // altered without re-signing
		t[2*other].Leaf.Identity = []byte("mallory")
	case "enckey":
		t[2*other].Leaf.EncKey, _ = s.GenHPKE()
	case "idx": // a committed leaf signed for another position
		w.resign(t, st.By, gid, st.By+1)
	case "gid":
		w.resign(t, st.By, append(clone(gid), 'x'), st.By)
	case "life":
		l := t[2*other].Leaf
		if l.Source == ref.SrcKeyPackage {
			l.NotBefore, l.NotAfter = 0, 0xffffffffffffffff
			w.resign(t, other, gid, other)
		}
	case "dupenc":
		t[2*other].Leaf.EncKey = clone(t[2*st.By].Leaf.EncKey)
		w.resign(t, other, gid, other)
	case "dupsig":
		k := w.sigKeyFor(t[2*st.By].Leaf)
		t[2*other].Leaf.SigKey = clone(t[2*st.By].Leaf.SigKey)
		t[2*other].Leaf.Sign(s, k, gid, uint32(other))
	case "dupparent":
		for i := 1; i < len(t); i += 2 {
			if t[i] != nil {
				t[2*other].Leaf.EncKey = clone(t[i].Parent.Key)
			}
		}
		w.resign(t, other, gid, other)
	case "ext":
		t[2*other].Leaf.Exts = []ref.Ext{{Type: 0xff01, Data: []byte{1}}}
		w.resign(t, other, gid, other)
	case "cred":
		l := t[2*other].Leaf
		l.CredType, l.Certs, l.Creds = 2, [][]byte{{1}}, []uint16{1, 2}
		w.resign(t, other, gid, other)
	case "credcaps":
		t[2*other].Leaf.Creds = []uint16{2}
		w.resign(t, other, gid, other)
	case "swap": // two members exchanged
		a, b := 2*other, 2*st.By
		t[a], t[b] = t[b], t[a]
	}
	switch dev["t.own"] {
	case "blank":
		t[2*own] = nil
	case "enckey":
		t[2*own].Leaf.EncKey, _ = s.GenHPKE()
		w.resign(t, own, gid, own)
	case "sigkey":
		pub, priv := s.GenSig()
		t[2*own].Leaf.SigKey = pub
		t[2*own].Leaf.Sign(s, priv, gid, uint32(own))
	case "identity":
		t[2*own].Leaf.Identity = []byte("somebody else")
		w.resign(t, own, gid, own)
	}
	// the parents on the committer's path
	var ps []int
	for _, pn := range st.PN {
		ps = append(ps, pn.N)
	}
	if len(ps) > 0 {
		low, top := ps[0], ps[len(ps)-1]
		inSub := func(x, leaf int) bool {
			k := ref.Level(x)
			lo, hi := x-(1<<k)+1, x+(1<<k)-1
			return 2*leaf >= lo && 2*leaf <= hi
		}
		switch dev["t.par"] {
		case "hashlow":
			t[low].Parent.Hash = append(clone(t[low].Parent.Hash), 1)
		case "hashtop":
			t[top].Parent.Hash = []byte{1}
		case "keylow":
			t[low].Parent.Key, _ = s.GenHPKE()
		case "keytop":
			t[top].Parent.Key, _ = s.GenHPKE()
		case "rekeylow", "rekeytop", "rekeyflip": // a key of the tree's own, which everything above vouches for
			x := low
			if dev["t.par"] != "rekeylow" {
				x = top
			}
			if dev["t.par"] == "rekeyflip" {
				t[x].Parent.Key = mangle("flipz", t[x].Parent.Key)
			} else {
				t[x].Parent.Key, _ = s.GenHPKE()
			}
			w.rehash(t, st, gid)
		case "blanklow":
			t[low] = nil
		case "extra": // a parent nobody vouches for
			for i := 1; i < len(t); i += 2 {
				if t[i] == nil {
					pub, _ := s.GenHPKE()
					t[i] = &ref.Node{Parent: &ref.Parent{Key: pub}}
					break
				}
			}
		case "dupkeys":
			if low != top {
				t[top].Parent.Key = clone(t[low].Parent.Key)
				w.rehash(t, st, gid)
			}
		case "leafhash":
			l := t[2*st.By].Leaf
			l.ParentHash = flip(l.ParentHash)
			w.resign(t, st.By, gid, st.By)
		case "unmoob":
			t[top].Parent.Unmerged = append(t[top].Parent.Unmerged, uint32((len(t)+1)/2))
		case "unmhuge":
			t[top].Parent.Unmerged = append(t[top].Parent.Unmerged, 0x7fffffff)
		case "unmalias":
			t[top].Parent.Unmerged = append(t[top].Parent.Unmerged, uint32(own)+1<<31)
		case "unmblank":
			for i := 0; 2*i < len(t); i++ {
				if t[2*i] == nil && inSub(top, i) {
					t[top].Parent.Unmerged = insert(t[top].Parent.Unmerged, uint32(i))
					break
				}
			}
		case "unmoutside":
			for i := 0; 2*i < len(t); i++ {
				if t[2*i] != nil && !inSub(low, i) {
					t[low].Parent.Unmerged = insert(t[low].Parent.Unmerged, uint32(i))
					break
				}
			}
		case "unmdup":
			for i := 0; 2*i < len(t); i++ {
				if t[2*i] != nil && inSub(top, i) && i != st.By {
					t[top].Parent.Unmerged = []uint32{uint32(i), uint32(i)}
					break
				}
			}
		case "unmmiss": // unmerged at the top but not below
			for i := 0; 2*i < len(t); i++ {
				if t[2*i] != nil && inSub(low, i) && i != st.By {
					t[top].Parent.Unmerged = insert(t[top].Parent.Unmerged, uint32(i))
					break
				}
			}
		case "unmauthor":
			t[top].Parent.Unmerged = insert(t[top].Parent.Unmerged, uint32(st.By))
		}
	}
	return t
}

func insert(u []uint32, v uint32) []uint32 {
	var out []uint32
	done := false
	for _, x := range u {
		if x == v {
			done = true
		}
		if !done && x > v {
			out = append(out, v)
			done = true
		}
		out = append(out, x)
	}
	if !done {
		out = append(out, v)
	}
	return out
}

// rehash recomputes the parent hashes of the commit's path and re-signs.
func (w *World) rehash(t ref.Tree, st *Step, gid []byte) {
	var ph []byte
	for h := len(st.PN) - 1; h >= 0; h-- {
		pn := st.PN[h]
		t[pn.N].Parent.Hash = ph
		ph = ref.ParentHash(w.S, t[pn.N].Parent, t.Hash(w.S, pn.CP, nil))
	}
	t[2*st.By].Leaf.ParentHash = ph
	w.resign(t, st.By, gid, st.By)
}

// checkWelcome compares what CreateWelcome returned at cl (in epoch e, secrets
// possibly unknown) with what the specification says, and returns the epoch
// it creates.
func (w *World) checkWelcome(cl *client, e *epoch, names []int, kps []*ref.KeyPackage, inits [][]byte, spec []SNode, rawW, rawC []byte, tag string) *epoch {
	s := w.S
	bad := func(what, f string, a ...any) *epoch {
		w.fatal("gwelcome", tag+" "+what, f, a...)
		return nil
	}
	wl, err := ref.ParseWelcomeMsg(rawW)
	if err != nil {
		return bad("malformed", "Welcome does not parse: %v", err)
	}
	if wl.Suite != s.ID {
		return bad("suite", "Welcome suite %d, want %d", wl.Suite, s.ID)
	}
	if len(wl.Entries) != len(kps) {
		return bad("entries", "Welcome has %d entries for %d newcomers", len(wl.Entries), len(kps))
	}
	var joiner []byte
	for i, kp := range kps {
		r := kp.Ref(s)
		found := 0
		for _, ent := range wl.Entries {
			if !bytes.Equal(ent.Ref, r) {
				continue
			}
			found++
			gs, err := s.OpenSecrets(inits[i], wl.Info, ent.Enc)
			if err != nil {
				return bad("secrets", "newcomer %d cannot open its entry: %v", names[i], err)
			}
			if gs.HasPath || len(gs.PSKs) > 0 {
				return bad("secrets", "newcomer %d is given a path secret or PSKs by a commit without path", names[i])
			}
			if joiner != nil && !bytes.Equal(joiner, gs.Joiner) {
				return bad("secrets", "newcomers are given different joiner secrets")
			}
			joiner = gs.Joiner
		}
		if found != 1 {
			return bad("entries", "newcomer %d is named %d times", names[i], found)
		}
	}
	info, err := s.OpenGroupInfo(joiner, wl.Info)
	if err != nil {
		return bad("info", "group info does not open: %v", err)
	}
	gi, err := ref.ParseGroupInfo(info)
	if err != nil {
		return bad("info", "group info does not parse: %v", err)
	}
	tree := w.concrete(spec)
	ctx := gi.Ctx
	num := e.num + 1
	if !bytes.Equal(ctx.GroupID, w.GID) || ctx.Epoch != num || ctx.Suite != s.ID || ctx.Version != 1 || !sameExts(ctx.Exts, e.exts()) {
		return bad("context", "group info context %q epoch %d, want %q epoch %d", ctx.GroupID, ctx.Epoch, w.GID, num)
	}
	if !bytes.Equal(ctx.TreeHash, tree.RootHash(s)) {
		got, gerr := ref.ParseTree(gi.Ext(extRatchetTree))
		return bad("tree", "tree hash in group info is not that of the specified tree %s (tree given: %s %v)", describe(tree), describe(got), gerr)
	}
	if !bytes.Equal(gi.Ext(extRatchetTree), treeBytes(tree)) {
		got, gerr := ref.ParseTree(gi.Ext(extRatchetTree))
		return bad("tree", "tree given to newcomers %s (%v) is not the specified one %s", describe(got), gerr, describe(tree))
	}
	if int(gi.Signer) != cl.leaf || !gi.VerifySig(s, tree[2*cl.leaf].Leaf.SigKey) {
		return bad("info", "group info not properly signed by leaf %d (signer %d)", cl.leaf, gi.Signer)
	}
	ne := &epoch{num: num, parent: e.id, tree: tree, ctx: ctx, joiner: joiner, tag: gi.Tag}
	ne.sec = s.Expanded(s.EpochSecret(joiner, ctx))
	ne.interim = s.InterimHash(ctx.Confirmed, gi.Tag)
	if !bytes.Equal(gi.Tag, s.MAC(ne.sec.Confirm, ctx.Confirmed)) {
		return bad("tag", "confirmation tag in group info is wrong")
	}
	if e.sec == nil {
		return ne
	}
	pm, err := ref.ParsePrivate(rawC)
	if err != nil {
		return bad("commit", "commit does not parse as a private message: %v", err)
	}
	if !bytes.Equal(pm.GroupID, w.GID) || pm.Epoch != e.num || pm.Type != ref.CTCommit {
		return bad("commit", "commit is for group %q epoch %d type %d", pm.GroupID, pm.Epoch, pm.Type)
	}
	if _, gen, guard, err := e.sec.OpenSenderData(pm); err == nil {
		w.useGen(cl, e.id, "handshake", gen, guard)
	}
	o, err := e.sec.OpenPrivate(pm, e.leaves())
	if err != nil {
		return bad("commit-unreadable", "commit cannot be opened with the epoch's secrets: %v", err)
	}
	if int(o.Leaf) != cl.leaf {
		return bad("commit", "commit sender is leaf %d, want %d", o.Leaf, cl.leaf)
	}
	if !s.Verify(e.tree[2*cl.leaf].Leaf.SigKey, "FramedContentTBS", ref.TBS(ref.WFPrivate, &o.Content, e.ctx.Bytes()), o.Sig) {
		return bad("commit", "commit signature is invalid")
	}
	if o.Commit.Path != nil || len(o.Commit.Props) != len(kps) {
		return bad("commit", "commit carries %d proposals for %d newcomers (path %v)", len(o.Commit.Props), len(kps), o.Commit.Path != nil)
	}
	for i, kp := range kps {
		p := o.Commit.Props[i].Prop
		if p == nil || p.Type != ref.PAdd || !bytes.Equal(p.Body, kp.Bytes()) {
			return bad("commit", "proposal %d is not the addition of newcomer %d", i, names[i])
		}
	}
	conf := s.ConfirmedHash(e.interim, ref.WFPrivate, &o.Content, o.Sig)
	if !bytes.Equal(conf, ctx.Confirmed) {
		return bad("transcript", "confirmed transcript hash in group info does not follow from the commit")
	}
	if !bytes.Equal(joiner, s.Joiner(e.sec.Init, make([]byte, s.Nh), ctx)) {
		return bad("secrets", "joiner secret does not follow from the previous epoch")
	}
	if !bytes.Equal(o.Tag, gi.Tag) {
		return bad("tag", "confirmation tag in the commit is wrong")
	}
	return ne
}

func describe(t ref.Tree) string {
	var b bytes.Buffer
	for i, n := range t {
		if i > 0 {
			b.WriteByte(' ')
		}
		switch {
		case n == nil:
			b.WriteByte('_')
		case n.Leaf != nil:
			b.WriteString(string(n.Leaf.Identity))
		default:
			b.WriteString("P")
			for _, u := range n.Parent.Unmerged {
				b.WriteString("+")
				b.WriteString(itoa(int(u)))
			}
		}
	}
	return "[" + b.String() + "]"
}

// exts are the group's extensions: those it was founded with.
func (e *epoch) exts() []ref.Ext {
	if e.ctx != nil {
		return e.ctx.Exts
	}
	return nil
}

func sameExts(a, b []ref.Ext) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Type != b[i].Type || !bytes.Equal(a[i].Data, b[i].Data) {
			return false
		}
	}
	return true
}
