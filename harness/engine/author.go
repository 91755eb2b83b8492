package engine

import (
	"bytes"
	"fmt"
	"time"

	"verif/harness/ref"
)

// newLeaf makes a leaf for client c: same identity, fresh encryption key.
func (w *World) newLeaf(base *ref.LeafNode, source uint8) (*ref.LeafNode, []byte) {
	pub, priv := w.S.GenHPKE()
	l := base.Clone()
	l.EncKey = pub
	l.Source = source
	l.ParentHash = nil
	return l, priv
}

// build is what authoring a commit produced.
type build struct {
	content *ref.Content
	wf      uint16
	sig     []byte
	tag     []byte
	raw     []byte
	ep      *epoch // the new epoch
	secrets map[int][]byte
	commit  *ref.Commit
	welcome []byte
}

func flip(b []byte) []byte {
	c := clone(b)
	if len(c) > 0 {
		c[len(c)/2] ^= 1
	}
	return c
}

// mangle applies the generic byte-level deviations.
func mangle(how string, b []byte) []byte {
	switch how {
	case "flip":
		return flip(b)
	case "flip0":
		c := clone(b)
		c[0] ^= 0x80
		return c
	case "flipz":
		c := clone(b)
		c[len(c)-1] ^= 1
		return c
	case "empty":
		return []byte{}
	case "trunc":
		return clone(b[:len(b)-1])
	case "half":
		return clone(b[:len(b)/2])
	case "one":
		return clone(b[:1])
	case "long":
		return append(clone(b), 0)
	case "zero":
		return make([]byte, len(b))
	}
	return b
}

// frame signs, tags and encodes a content as the sender at leaf `by' of e.
// tagFor computes the confirmation tag (nil for other content) once the
// signature is known.
func (w *World) frame(e *epoch, by int, ctype uint8, body []byte, wire string, dev Dev, tagFor func(c *ref.Content, wf uint16, sig []byte) []byte) (raw []byte, c *ref.Content, wf uint16, sig, tag []byte) {
	s := w.S
	c = &ref.Content{GroupID: e.ctx.GroupID, Epoch: e.ctx.Epoch, SenderType: 1, Leaf: uint32(by), Type: ctype, Body: body}
	if dev["ad"] == "some" {
		c.AuthData = []byte("authenticated data")
	} else if dev["ad"] == "long" {
		c.AuthData = make([]byte, 300)
	} else {
		c.AuthData = []byte(dev["ad"])
	}
	switch dev["gid"] {
	case "other":
		c.GroupID = append(clone(c.GroupID), 'x')
	case "empty":
		c.GroupID = []byte{}
	case "prefix":
		c.GroupID = clone(c.GroupID[:len(c.GroupID)-1])
	}
	switch dev["ep"] {
	case "prev":
		c.Epoch--
	case "next":
		c.Epoch++
	case "wrap":
		c.Epoch += 1 << 32
	}
	switch dev["styp"] {
	case "external":
		c.SenderType = 2
	case "newprop":
		c.SenderType = 3
	case "newcommit":
		c.SenderType = 4
	}
	me := w.leafAt(e, by)
	other := w.otherMember(e, by)
	switch dev["leaf"] {
	case "other":
		c.Leaf = uint32(other)
	case "blank":
		c.Leaf = uint32(w.blankLeaf(e))
	case "oob":
		c.Leaf = uint32(e.leaves())
	case "oob2":
		c.Leaf = uint32(e.leaves() * 4)
	case "max":
		c.Leaf = 0xffffffff
	case "alias":
		c.Leaf = uint32(by) + 1<<31
	}
	wf = ref.WFPublic
	if wire == "priv" {
		wf = ref.WFPrivate
	}
	var key []byte
	if me != nil {
		key = w.sigKeyFor(me)
	} else {
		_, key = s.GenSig()
	}
	switch dev["key"] {
	case "other":
		key = w.sigKeyFor(w.leafAt(e, other))
	case "outsider":
		_, key = s.GenSig()
	case "old":
		// the key of the client's first leaf, which it has changed since
		for _, cl := range w.clients {
			if me != nil && bytes.Equal(cl.kp.Leaf.Identity, me.Identity) {
				key = cl.sig
			}
		}
	}
	// what is signed
	sc := *c
	swf, sctx, label := wf, e.ctx.Bytes(), "FramedContentTBS"
	switch dev["over"] {
	case "body":
		sc.Body = append(clone(sc.Body), 0)
	case "ad":
		sc.AuthData = append(clone(sc.AuthData), 'y')
	case "leaf":
		sc.Leaf = uint32(other)
	case "ep":
		sc.Epoch++
	case "gid":
		sc.GroupID = append(clone(sc.GroupID), 'z')
	case "ctype":
		sc.Type = sc.Type%3 + 1
	case "wf":
		swf = 3 - swf
	case "label":
		label = "LeafNodeTBS"
	case "noctx":
		sctx = nil
	case "prevctx":
		x := *e.ctx
		if p := w.epochs[e.parent]; p != nil && p.ctx != nil {
			x = *p.ctx
		} else {
			x.Epoch--
		}
		sctx = x.Bytes()
	case "branchctx":
		x := *e.ctx
		x.Confirmed = flip(x.Confirmed)
		sctx = x.Bytes()
	case "treectx":
		x := *e.ctx
		x.TreeHash = flip(x.TreeHash)
		sctx = x.Bytes()
	case "suitectx":
		x := *e.ctx
		x.Suite ^= 2
		sctx = x.Bytes()
	}
	sig = s.Sign(key, label, ref.TBS(swf, &sc, sctx))
	sig = mangle(dev["sig"], sig)
	if tagFor != nil {
		tag = tagFor(c, wf, sig)
	}
	tail := func(b []byte) []byte {
		switch dev["tail"] {
		case "extra":
			return append(b, 0)
		case "trunc":
			return b[:len(b)-1]
		}
		return b
	}
	if wire != "priv" {
		sec := e.sec
		tctx := e.ctx.Bytes()
		var mtag []byte
		switch dev["mtag"] {
		case "prevkey":
			sec = w.otherSecrets(e)
			mtag = sec.MembershipTag(c, sig, tag, tctx)
		case "confirmkey":
			s2 := *sec
			s2.Membr = sec.Confirm
			mtag = s2.MembershipTag(c, sig, tag, tctx)
		case "overbody":
			c2 := *c
			c2.Body = append(clone(c.Body), 0)
			mtag = sec.MembershipTag(&c2, sig, tag, tctx)
		case "oversig":
			mtag = sec.MembershipTag(c, flip(sig), tag, tctx)
		case "overtag":
			mtag = sec.MembershipTag(c, sig, flip(tag), tctx)
		case "overctx":
			x := *e.ctx
			x.Confirmed = flip(x.Confirmed)
			mtag = sec.MembershipTag(c, sig, tag, x.Bytes())
		case "absent":
			b := new(ref.W).Raw(c.Bytes()).Vec(sig)
			if ctype == ref.CTCommit {
				b.Vec(tag)
			}
			return tail(ref.Msg(ref.WFPublic, b.B)), c, wf, sig, tag
		default:
			mtag = mangle(dev["mtag"], sec.MembershipTag(c, sig, tag, tctx))
		}
		return tail(w.reenc(dev, "n.pub", "MLSMessage", ref.Msg(ref.WFPublic, ref.PublicBytes(c, sig, tag, mtag)), nil)), c, wf, sig, tag
	}
	o := ref.PrivateOpts{}
	if g := dev["gen"]; g != "" {
		fmt.Sscan(g, &o.Gen)
	} else if len(dev) == 0 {
		o.Gen = uint32(w.rng.Intn(3))
	}
	switch dev["pad"] {
	case "zeros":
		o.Padding = 37
	case "many":
		o.Padding = 20000
	case "nonzero":
		o.Padding, o.PadByte = 9, 1
	}
	ol := uint32(other)
	switch dev["sd"] {
	case "leaf": // claims another member, encrypted with that member's key
		o.SDLeaf, o.KeyLeaf = &ol, &ol
	case "leafonly": // claims another member, own key
		o.SDLeaf = &ol
	case "gen":
		g := o.Gen + 1
		o.SDGen = &g
	case "oob":
		x := uint32(e.leaves())
		o.SDLeaf, o.KeyLeaf = &x, &c.Leaf
		k := uint32(by)
		o.KeyLeaf = &k
	case "huge":
		x := uint32(0x7fffffff)
		k := uint32(by)
		o.SDLeaf, o.KeyLeaf = &x, &k
	case "alias":
		x := uint32(by) + 1<<31
		k := uint32(by)
		o.SDLeaf, o.KeyLeaf = &x, &k
	case "blank":
		x := uint32(w.blankLeaf(e))
		o.SDLeaf, o.KeyLeaf = &x, &x
	case "short":
		o.SDRaw = []byte{0, 0, 0, 0, 0, 0, 0, 0, 1}
	case "long":
		o.SDRaw = append(new(ref.W).U32(uint32(by)).U32(o.Gen).Raw([]byte{1, 2, 3, 4}).B, 0)
		o.Guard = []byte{1, 2, 3, 4}
	case "maxgen":
		g := uint32(0xffffffff)
		o.SDGen = &g
	}
	if dev["leaf"] != "" && o.KeyLeaf == nil { // keep it encryptable
		k := uint32(by)
		if int(c.Leaf) < e.leaves() {
			k = c.Leaf
		}
		o.KeyLeaf = &k
	}
	switch dev["outer"] {
	case "ad":
		o.HasOuter, o.OuterAD = true, append(clone(c.AuthData), 'q')
	case "ctype": // the outer content type differs from what is inside
		o.Type = c.Type%3 + 1
	}
	switch dev["ratchet"] {
	case "other":
		if ctype == ref.CTApplication {
			o.RatchetT = ref.CTCommit
		} else {
			o.RatchetT = ref.CTApplication
		}
	}
	sec := e.sec
	if dev["eskey"] == "prev" {
		sec = w.otherSecrets(e)
	}
	switch dev["plain"] {
	case "empty":
		o.Raw = []byte{}
	case "garbage":
		o.Raw = []byte{0xff, 0xff, 0xff}
	case "notag":
		o.Raw = new(ref.W).Raw(c.Body).Vec(sig).B
	}
	if dev["n.content"] != "" {
		b := new(ref.W).Raw(c.Body).Vec(sig)
		if ctype == ref.CTCommit {
			b.Vec(tag)
		}
		o.Raw = w.reenc(dev, "n.content", "PrivateContent", b.B, map[string]int{"ctype": int(ctype)})
	}
	m := sec.SealPrivate(e.leaves(), c, sig, tag, o)
	switch dev["ct"] {
	case "flip", "trunc", "long", "empty", "one", "flip0", "flipz":
		m.Ciphertext = mangle(dev["ct"], m.Ciphertext)
	}
	switch dev["esd"] {
	case "flip", "trunc", "long", "empty", "one", "flip0", "flipz":
		m.EncSenderData = mangle(dev["esd"], m.EncSenderData)
	}
	switch dev["post"] { // altered in transit
	case "ad":
		m.AuthData = append(clone(m.AuthData), 'q')
	case "ep":
		m.Epoch++
	case "epback":
		m.Epoch--
	case "gid":
		m.GroupID = append(clone(m.GroupID), 'q')
	case "ctype":
		m.Type = m.Type%3 + 1
	}
	return tail(w.reenc(dev, "n.priv", "MLSMessage", ref.Msg(ref.WFPrivate, m.Bytes()), nil)), c, wf, sig, tag
}

// otherSecrets returns secrets of another epoch: the parent if known.
func (w *World) otherSecrets(e *epoch) *ref.Secrets {
	if p := w.epochs[e.parent]; p != nil && p.sec != nil {
		return p.sec
	}
	return w.S.Expanded(ref.Random(w.S.Nh))
}

func (w *World) otherMember(e *epoch, by int) int {
	for d := 1; d < e.leaves(); d++ {
		i := (by + d) % e.leaves()
		if e.tree[2*i] != nil {
			return i
		}
	}
	return by
}

// blankLeaf finds a blank leaf in range; failing that, one just out of range.
func (w *World) blankLeaf(e *epoch) int {
	for i := 0; i < e.leaves(); i++ {
		if e.tree[2*i] == nil {
			return i
		}
	}
	return e.leaves()
}

// leafDev applies leaf-level deviations before signing and signs.
func (w *World) leafDev(l *ref.LeafNode, enc []byte, e *epoch, t ref.Tree, at int, key []byte, dev Dev, pre string) (*ref.LeafNode, []byte, []byte) {
	s := w.S
	now := uint64(time.Now().Unix())
	day := uint64(24 * 3600)
	d := func(k string) string { return dev[pre+k] }
	switch d("src") {
	case "kp":
		l.Source, l.NotBefore, l.NotAfter = ref.SrcKeyPackage, now-60, now+10*day
	case "upd", "updby":
		l.Source = ref.SrcUpdate
	case "commit", "commitby":
		l.Source = ref.SrcCommit
		if l.ParentHash == nil {
			l.ParentHash = ref.Random(s.Nh)
		}
	}
	switch d("life") {
	case "expired":
		l.NotBefore, l.NotAfter = now-3*day, now-2*3600
	case "justexpired":
		l.NotBefore, l.NotAfter = now-day, now-2
	case "future":
		l.NotBefore, l.NotAfter = now+2*3600, now+3*day
	case "justfuture":
		l.NotBefore, l.NotAfter = now+300, now+day
	case "long":
		l.NotBefore, l.NotAfter = now-day, now+200*day
	case "longpast":
		l.NotBefore, l.NotAfter = now-89*day, now+2*day
	case "okmax":
		l.NotBefore, l.NotAfter = now-40*day, now+49*day
	case "inverted":
		l.NotBefore, l.NotAfter = now+3*day, now-3*day
	case "zero":
		l.NotBefore, l.NotAfter = 0, 0
	case "forever":
		l.NotBefore, l.NotAfter = 0, 0xffffffffffffffff
	case "huge":
		l.NotBefore, l.NotAfter = now-60, 1<<63-1
	}
	switch d("cred") {
	case "x509": // supported by the leaf itself but not by the others
		l.CredType, l.Certs = 2, [][]byte{{1, 2, 3}}
		l.Creds = []uint16{1, 2}
	case "selfless": // does not list its own (and everyone else's) type
		l.Creds = []uint16{2}
	}
	if d("ctype") == "2" {
		l.CredType, l.Certs = 2, [][]byte{{1, 2, 3}}
	} else if d("ctype") == "1" {
		l.CredType, l.Certs = 1, nil
	}
	if d("creds") != "" {
		l.Creds = credList(d("creds"))
	}
	switch d("ext") {
	case "unlisted":
		l.Exts = []ref.Ext{{Type: 0xff01, Data: []byte("x")}}
	case "unlisted2":
		l.CExts = append(append([]uint16{}, l.CExts...), 0xff01)
		l.Exts = []ref.Ext{{Type: 0xff01, Data: []byte("x")}, {Type: 0xff02, Data: nil}}
	case "listed":
		l.CExts = append(append([]uint16{}, l.CExts...), 0xff01)
		l.Exts = []ref.Ext{{Type: 0xff01, Data: []byte("x")}}
	case "caps": // unknown capabilities only
		l.CExts = append(append([]uint16{}, l.CExts...), 0x0a0a, 0xff33)
		l.Props = append(append([]uint16{}, l.Props...), 0x1a1a)
		l.Creds = append(append([]uint16{}, l.Creds...), 0x2a2a)
		l.Suites = append(append([]uint16{}, l.Suites...), 0x3a3a)
		l.Versions = append(append([]uint16{}, l.Versions...), 0x4a4a)
	}
	switch d("ek") { // encryption key
	case "dupleaf":
		o := w.otherMember(e, at)
		l.EncKey = clone(e.tree[2*o].Leaf.EncKey)
	case "dupparent":
		for i := 1; i < len(t); i += 2 {
			if t[i] != nil {
				l.EncKey = clone(t[i].Parent.Key)
			}
		}
	case "same":
		if n := e.tree[2*at]; n != nil {
			l.EncKey = clone(n.Leaf.EncKey)
		}
	case "c18":
		l.EncKey = clone(w.client(18).kp.Leaf.EncKey)
	case "garbage":
		l.EncKey = []byte{1, 2, 3}
	case "empty", "zero":
		l.EncKey = mangle(d("ek"), l.EncKey)
	}
	switch d("sk") { // signature key
	case "dup":
		o := w.otherMember(e, at)
		key = w.sigKeyFor(e.tree[2*o].Leaf)
		l.SigKey = clone(e.tree[2*o].Leaf.SigKey)
	case "new":
		l.SigKey, key = s.GenSig()
	case "othersuite":
		l.SigKey = []byte{1, 2, 3}
	case "empty":
		l.SigKey = []byte{}
	case "c18":
		l.SigKey, key = clone(w.client(18).kp.Leaf.SigKey), w.client(18).sig
	}
	gid, idx, label := e.ctx.GroupID, uint32(at), "LeafNodeTBS"
	if d("src") == "updby" || d("src") == "commitby" { // as if for the place of who brings it in
		idx = uint32(w.adder)
	}
	switch d("lbind") {
	case "gid":
		gid = append(clone(gid), 'x')
	case "idx":
		idx++
	case "label":
		label = "KeyPackageTBS"
	case "unbound":
		w2 := new(ref.W)
		w2.Raw(l.TBS(gid, idx))
		tb := w2.B
		if l.Source != ref.SrcKeyPackage {
			tb = tb[:len(tb)-len(new(ref.W).Vec(gid).B)-4]
		}
		l.Sig = s.Sign(key, label, tb)
	}
	signKey := key
	if d("lkey") == "other" {
		_, signKey = s.GenSig()
	}
	if d("lbind") != "unbound" {
		l.Sig = s.Sign(signKey, label, l.TBS(gid, idx))
	}
	l.Sig = mangle(d("lsig"), l.Sig)
	return l, enc, key
}

// keyPackageDev makes the key package of a client, possibly deviating.
func (w *World) keyPackageFor(c int, e *epoch, at int, dev Dev) (*ref.KeyPackage, []byte) {
	cl := w.client(c)
	if !hasPrefix(dev, "k.") || !cl.isV {
		return cl.kp, cl.sig
	}
	s := w.S
	if o := dev["k.foreign"]; o != "" { // a proper key package of another suite
		k, err, _ := w.generate(w.suiteOf(o))
		if err != nil {
			panic(noPlace{})
		}
		kp, err := ref.ParseKeyPackageMsg(k.Public.Bytes())
		if err != nil {
			panic(noPlace{})
		}
		return kp, k.Private.SignatureKey
	}
	kp := cl.kp.Clone()
	key := cl.sig
	l, _, key2 := w.leafDev(kp.Leaf.Clone(), cl.enc, e, e.tree, at, key, dev, "k.")
	kp.Leaf = l
	key = key2
	leafKey := key2
	switch dev["k.init"] {
	case "enc":
		kp.InitKey = clone(l.EncKey)
	case "garbage":
		kp.InitKey = []byte{1}
	case "empty":
		kp.InitKey = []byte{}
	}
	switch dev["k.suite"] {
	case "other":
		kp.Suite = kp.Suite%3 + 1
	case "unknown":
		kp.Suite = 0x7a7a
	}
	switch dev["k.ver"] {
	case "2":
		kp.Version = 2
	case "0":
		kp.Version = 0
	}
	switch dev["k.kkey"] {
	case "other":
		_, key = s.GenSig()
	}
	kp.Sign(s, key)
	switch dev["k.over"] {
	case "init":
		kp.InitKey, _ = s.GenHPKE()
	case "ext":
		kp.Exts = []ref.Ext{{Type: 0xff05, Data: []byte{1}}}
	case "label":
		kp.Sig = s.Sign(key, "LeafNodeTBS", kp.TBS())
	}
	kp.Sig = mangle(dev["k.ksig"], kp.Sig)
	return kp, leafKey
}

func hasPrefix(d Dev, p string) bool {
	for k := range d {
		if len(k) >= len(p) && k[:len(p)] == p {
			return true
		}
	}
	return false
}

// concreteProp makes the concrete proposal for a specification proposal.
func (w *World) concreteProp(p Prop, e *epoch, dev Dev) *ref.Proposal {
	switch p.K {
	case "add":
		w.adder = p.S
		kp, key := w.keyPackageFor(p.C, e, w.blankLeaf(e), dev)
		if p.X == 1 { // the same client's key package again, as a second one
			kp = kp.Clone()
			ip, _ := w.S.GenHPKE()
			ep, _ := w.S.GenHPKE()
			kp.InitKey, kp.Leaf.EncKey = ip, ep
			kp.Leaf.Sign(w.S, w.client(p.C).sig, nil, 0)
			kp.Sign(w.S, w.client(p.C).sig)
		}
		if hasPrefix(dev, "k.") {
			w.leaves[[2]int{p.C, p.V}] = &leafRec{leaf: kp.Leaf, enc: w.client(p.C).enc, sig: key}
		}
		return ref.AddProp(kp)
	case "upd":
		if r := w.leafVer(p.C, p.V); r != nil {
			return ref.UpdateProp(r.leaf)
		}
		cur := w.leafAt(e, p.S)
		var base *ref.LeafNode
		if cur != nil {
			base = cur
		} else {
			base = w.client(p.C).kp.Leaf
		}
		l, enc := w.newLeaf(base, ref.SrcUpdate)
		key := w.sigKeyFor(base)
		l, enc, key = w.leafDev(l, enc, e, e.tree, p.S, key, dev, "u.")
		w.leaves[[2]int{p.C, p.V}] = &leafRec{leaf: l, enc: enc, sig: key}
		return ref.UpdateProp(l)
	case "rem":
		switch dev["rm"] {
		case "oob":
			return ref.RemoveProp(uint32(e.leaves()))
		case "huge":
			return ref.RemoveProp(0x7fffffff)
		case "max":
			return ref.RemoveProp(0xffffffff)
		case "alias":
			return ref.RemoveProp(uint32(p.L) + 1<<31)
		}
		if p.X == 1 { // a number that becomes the leaf's when doubled
			return ref.RemoveProp(uint32(p.L) + 1<<31)
		}
		return ref.RemoveProp(uint32(p.L))
	case "psk":
		return ref.PSKProp([]byte(fmt.Sprintf("psk-%d", p.X)), make([]byte, w.S.Nh))
	case "gce":
		if p.X == 2 {
			return ref.GCEProp([]ref.Ext{{Type: 0xff05, Data: []byte("x")}})
		}
		return ref.GCEProp(e.ctx.Exts)
	case "reinit":
		return ref.ReInitProp([]byte("new group"), w.S.ID)
	case "extinit":
		return ref.ExtInitProp(ref.Random(32))
	}
	panic("harness: unknown proposal kind " + p.K)
}

// dupLow gives the lowest node of a path, which most receivers know only as
// published, the key of some other node, or an old key.
func (w *World) dupLow(st *Step, how string) {
	low := w.kids[st.PN[0].K]
	path, added := map[int]bool{}, map[int]bool{}
	for _, pn := range st.PN {
		path[pn.N] = true
	}
	for _, a := range st.Added {
		added[a.Leaf] = true
	}
	switch how {
	case "duptwo0":
		if len(st.PN) > 1 {
			low.pub = w.kids[st.PN[1].K].pub
		}
	case "dupleaf0", "dupnew0":
		for i, n := range st.Tree {
			if n.T == "l" && i != 2*st.By && added[i/2] == (how == "dupnew0") {
				w.client(n.C)
				low.pub = clone(w.leafVer(n.C, n.V).leaf.EncKey)
				return
			}
		}
		panic(noPlace{})
	case "dupparent0":
		for i, n := range st.Tree {
			if n.T == "p" && !path[i] {
				low.pub = clone(w.kids[n.K].pub)
				return
			}
		}
		panic(noPlace{})
	case "dupold0": // the key the node has had
		for _, p := range st.PS {
			if p.K == "rem" || p.K == "upd" {
				panic(noPlace{})
			}
		}
		if t, n := w.epochs[st.From].tree, st.PN[0].N; n < len(t) && t[n] != nil {
			low.pub = clone(t[n].Parent.Key)
			return
		}
		panic(noPlace{})
	}
}

// refDev is the reference of proposal id, deviating.
func (w *World) refDev(how string, id int) []byte {
	p, label := w.props[id], "MLS 1.0 Proposal Reference"
	switch how {
	case "next": // that of another proposal
		return clone(w.props[id%len(w.props)+1].ref)
	case "wf":
		return w.S.ProposalRef(3-p.wf, p.c, p.sig)
	case "nosig":
		return w.S.ProposalRef(p.wf, p.c, nil)
	case "unsigned":
		return w.S.RefHash(label, p.c.Bytes())
	case "body":
		return w.S.RefHash(label, p.c.Body)
	case "label":
		return w.S.RefHash("MLS 1.0 KeyPackage Reference", new(ref.W).U16(p.wf).Raw(p.c.Bytes()).Vec(p.sig).B)
	case "sum":
		return w.S.Sum(new(ref.W).U16(p.wf).Raw(p.c.Bytes()).Vec(p.sig).B)
	}
	return mangle(how, p.ref)
}

// buildCommit authors the commit of step st from epoch e.
func (w *World) buildCommit(st *Step, dev Dev) *build {
	s := w.S
	e := w.epochs[st.From]
	b := &build{secrets: map[int][]byte{}}
	cm := &ref.Commit{}
	var refs []int // where the list has references
	for i, p := range st.PS {
		if p.R != 0 {
			refs = append(refs, i)
		}
	}
	for i, p := range st.PS {
		if p.R != 0 {
			at := dev["refat"]
			here := at == "" || at == "first" && i == refs[0] || at == "last" && i == refs[len(refs)-1]
			r := clone(w.props[p.R].ref)
			if here {
				r = w.refDev(dev["ref"], p.R)
			}
			cm.Props = append(cm.Props, ref.PropOrRef{Ref: r})
			if here && dev["ref"] == "twice" {
				cm.Props = append(cm.Props, ref.PropOrRef{Ref: r})
			}
		} else {
			cm.Props = append(cm.Props, ref.PropOrRef{Prop: w.concreteProp(p, e, dev)})
		}
	}
	provisional := *e.ctx
	provisional.Epoch++
	commitSecret := make([]byte, s.Nh)
	var tree ref.Tree
	if st.Path == 1 {
		// path secrets from the bottom up
		ps := ref.Random(s.Nh)
		for h, pn := range st.PN {
			if h > 0 {
				ps = s.DeriveSecret(ps, "path")
			}
			if dev["psec"] == "broken" && h > 0 && h == len(st.PN)-1 {
				ps = ref.Random(s.Nh) // does not follow from the one below
			}
			pub, priv := s.DeriveHPKE(s.DeriveSecret(ps, "node"))
			if (dev["pkey"] == "mismatch" && h == 0) || (dev["pkey"] == "mismatchtop" && h == len(st.PN)-1) {
				pub, priv = s.GenHPKE()
			}
			if dev["pkey"] == "dupleaf" && h == len(st.PN)-1 {
				pub = clone(w.leafAt(e, w.otherMember(e, st.By)).EncKey)
			}
			if h == len(st.PN)-1 {
				switch dev["pkey"] {
				case "garbage":
					pub = []byte{1, 2, 3}
				case "empty", "zero", "flip", "flip0", "flipz", "trunc", "half", "long":
					pub = mangle(dev["pkey"], pub)
				}
			}
			b.secrets[pn.K] = ps
			w.kids[pn.K] = &keyRec{pub: pub, priv: priv}
		}
		if dev["pkey"] == "duptwo" && len(st.PN) > 1 {
			w.kids[st.PN[len(st.PN)-1].K].pub = w.kids[st.PN[0].K].pub
		}
		if len(st.PN) > 0 {
			w.dupLow(st, dev["pkey"])
		}
		if len(st.PN) > 0 {
			commitSecret = s.DeriveSecret(ps, "path")
		} else {
			commitSecret = s.DeriveSecret(ps, "path")
			b.secrets[0] = ps
		}
		// the leaf; its parent hash needs the tree, whose other parts exist
		cur := w.leafAt(e, st.By)
		l, enc := w.newLeaf(cur, ref.SrcCommit)
		w.leaves[[2]int{st.C, st.V}] = &leafRec{leaf: l, enc: enc, sig: w.sigKeyFor(cur)}
		tree = w.concrete(st.Tree)
		// parent hashes from the top down
		var ph []byte
		for h := len(st.PN) - 1; h >= 0; h-- {
			pn := st.PN[h]
			w.kids[pn.K].hash = ph
			tree[pn.N].Parent.Hash = ph
			ph = ref.ParentHash(s, tree[pn.N].Parent, tree.Hash(s, pn.CP, nil))
		}
		if ph == nil {
			ph = []byte{}
		}
		l.ParentHash = ph
		switch dev["phash"] {
		case "flip", "empty", "trunc", "zero":
			l.ParentHash = mangle(dev["phash"], ph)
		}
		if dev["pek"] == "node" && len(st.PN) > 0 {
			l.EncKey = clone(w.kids[st.PN[0].K].pub)
		}
		l2, enc2, key2 := w.leafDev(l, enc, e, tree, st.By, w.sigKeyFor(cur), dev, "p.")
		*l = *l2
		w.leaves[[2]int{st.C, st.V}] = &leafRec{leaf: l, enc: enc2, sig: key2}
		tree = w.concrete(st.Tree)
		provisional.TreeHash = tree.RootHash(s)
		pctx := provisional
		if dev["pctx"] == "old" {
			pctx = *e.ctx
		} else if dev["pctx"] == "epoch" {
			pctx.Epoch--
		} else if dev["pctx"] == "tree" {
			pctx.TreeHash = e.ctx.TreeHash
		}
		up := &ref.UpdatePath{Leaf: l}
		for _, pn := range st.PN {
			n := ref.PathNode{Key: w.kids[pn.K].pub}
			ps := b.secrets[pn.K]
			switch dev["pct"] {
			case "wrongsecret":
				ps = ref.Random(s.Nh)
			case "shortsecret":
				ps = ps[:s.Nh/2]
			case "longsecret":
				ps = append(clone(ps), 0)
			}
			for _, x := range pn.Enc {
				k, ct := s.Seal(tree[x].EncKey(), pathLabel(dev), pctx.Bytes(), ps)
				n.Enc = append(n.Enc, ref.HPKECiphertext{KEM: k, CT: ct})
			}
			switch dev["pct"] {
			case "missing":
				if len(n.Enc) > 0 {
					n.Enc = n.Enc[:len(n.Enc)-1]
				}
			case "extra":
				k, ct := s.Seal(n0(tree), "UpdatePathNode", pctx.Bytes(), ps)
				n.Enc = append(n.Enc, ref.HPKECiphertext{KEM: k, CT: ct})
			case "none":
				n.Enc = nil
			case "flip":
				for j := range n.Enc {
					n.Enc[j].CT = flip(n.Enc[j].CT)
				}
			case "kemflip":
				for j := range n.Enc {
					n.Enc[j].KEM = flip(n.Enc[j].KEM)
				}
			case "kemempty":
				for j := range n.Enc {
					n.Enc[j].KEM = nil
				}
			case "ctempty":
				for j := range n.Enc {
					n.Enc[j].CT = nil
				}
			case "kemzero":
				for j := range n.Enc {
					n.Enc[j].KEM = make([]byte, len(n.Enc[j].KEM))
				}
			case "shift":
				if len(n.Enc) > 1 {
					n.Enc = append(n.Enc[1:], n.Enc[0])
				} else {
					n.Enc = append(n.Enc, n.Enc...)
				}
			}
			up.Nodes = append(up.Nodes, n)
		}
		switch dev["pn"] {
		case "extra":
			pub, _ := s.GenHPKE()
			up.Nodes = append(up.Nodes, ref.PathNode{Key: pub})
		case "missing":
			if len(up.Nodes) > 0 {
				up.Nodes = up.Nodes[:len(up.Nodes)-1]
			}
		case "missingfirst":
			if len(up.Nodes) > 0 {
				up.Nodes = up.Nodes[1:]
			}
		case "none":
			up.Nodes = nil
		case "swap":
			if n := len(up.Nodes); n > 1 {
				up.Nodes[0], up.Nodes[n-1] = up.Nodes[n-1], up.Nodes[0]
			}
		}
		cm.Path = up
	} else {
		tree = w.concrete(st.Tree)
		if len(tree) == 0 {
			tree = ref.Tree{nil}
		}
		provisional.TreeHash = tree.RootHash(s)
	}
	if dev["th"] == "old" { // confirms a group whose tree did not change
		provisional.TreeHash = e.ctx.TreeHash
	}
	switch dev["opt"] {
	case "two":
		cm.PathRaw = []byte{2}
	}
	b.commit = cm
	ne := &epoch{id: st.To, num: e.num + 1, parent: st.From, tree: tree}
	tagFor := func(c *ref.Content, wf uint16, sig []byte) []byte {
		ctx := provisional
		if dev["newgid"] == "1" {
			ctx.GroupID = append(clone(ctx.GroupID), 'x')
		}
		ctx.Confirmed = s.ConfirmedHash(e.interim, wf, c, sig)
		init := e.sec.Init
		switch dev["cs"] { // commit secret mixing
		case "zero":
			commitSecret = make([]byte, s.Nh)
		case "init":
			init = make([]byte, s.Nh)
		}
		ne.joiner = s.Joiner(init, commitSecret, &ctx)
		ne.ctx = &ctx
		ne.sec = s.Expanded(s.EpochSecret(ne.joiner, &ctx))
		ne.tag = s.MAC(ne.sec.Confirm, ctx.Confirmed)
		ne.interim = s.InterimHash(ctx.Confirmed, ne.tag)
		switch dev["tag"] {
		case "":
			return ne.tag
		case "prevkey":
			return s.MAC(e.sec.Confirm, ctx.Confirmed)
		case "prevhash":
			return s.MAC(ne.sec.Confirm, e.ctx.Confirmed)
		case "interim":
			return s.MAC(ne.sec.Confirm, ne.interim)
		case "membkey":
			return s.MAC(ne.sec.Membr, ctx.Confirmed)
		case "old":
			return e.tag
		case "random":
			return ref.Random(s.Nh)
		}
		return mangle(dev["tag"], ne.tag)
	}
	b.raw, b.content, b.wf, b.sig, b.tag = w.frame(e, st.By, ref.CTCommit, cm.Bytes(), st.Wire, dev, tagFor)
	b.ep = ne
	return b
}

func pathLabel(dev Dev) string {
	if dev["plabel"] == "other" {
		return "Welcome"
	}
	return "UpdatePathNode"
}

func n0(t ref.Tree) []byte {
	for _, n := range t {
		if n != nil {
			return n.EncKey()
		}
	}
	return nil
}
