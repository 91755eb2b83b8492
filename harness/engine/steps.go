package engine

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"

	mls "github.com/emersion/go-mls"

	"verif/harness/ref"
)

func itoa(i int) string { return strconv.Itoa(i) }

// useGen records the key generation a message of cl was encrypted under.
func (w *World) useGen(cl *client, ep int, kind string, gen uint32, guard []byte) {
	k := fmt.Sprintf("%d/%s", ep, kind)
	next := cl.next[k]
	if gen < next {
		w.report("generation-reused", kind, "client %d used %s generation %d again in epoch %d", cl.id, kind, gen, ep)
	} else if gen > next {
		w.report("generation-gap", kind, "client %d used %s generation %d in epoch %d, want %d", cl.id, kind, gen, ep, next)
	}
	if gen >= next {
		cl.next[k] = gen + 1
	}
	w.stats.Add("generations", 1)
	if gen > 0 {
		w.stats.Add("generations>0", 1)
	}
}

func (w *World) step(st *Step) {
	w.stats.Add("steps", 1)
	w.stats.Add("step:"+st.A, 1)
	w.tags = ""
	switch st.A {
	case "found":
		w.found(st)
	case "gwelcome":
		w.gwelcome(st)
	case "vcommit":
		b := w.buildCommit(st, st.Dev)
		w.register(st, b)
	case "prop":
		w.prop(st)
	case "dprop":
		p := w.props[st.ID]
		cl := w.client(st.C)
		_, err, pan := w.deliver(cl, p.raw)
		if pan {
			return
		}
		if w.verdict("prop", st, err, "") && err == nil && cl.twin != nil {
			cl.queue = append(cl.queue, p.raw)
		}
	case "dcommit":
		w.dcommit(st)
	case "join":
		w.join(st)
	case "gapp":
		w.gapp(st)
	case "burst":
		w.burst(st)
	case "vapp":
		w.vapp(st)
	case "dapp":
		w.dapp(st)
	case "probe":
		w.probe(st)
	case "tmpl":
		w.tmpl[st.ID] = st.M
	case "flaw":
		if st.MT != 0 {
			f := *st
			f.M = w.tmpl[st.MT]
			st = &f
		}
		w.flaw(st)
	case "grammar":
		w.gram = st.G
	case "wire":
		w.wire(st)
	case "caps":
		w.caps = st.Wire
	case "kgen":
		w.keygen(st)
	case "mix":
		w.mix(st)
	case "stree":
		w.stree(st)
	default:
		panic("harness: unknown step " + st.A)
	}
}

// verdict compares acceptance with the specification's. Returns whether they agree.
func (w *World) verdict(kind string, st *Step, err error, tags string) bool {
	why := st.Why
	if st.OK == 2 { // the specification leaves it open
		return true
	}
	if (err == nil) == (st.OK == 1) {
		if st.OK == 1 {
			w.stats.Add(kind+"-accepted", 1)
		} else {
			w.stats.Add(kind+"-refused", 1)
		}
		return true
	}
	if err == nil {
		w.fatal(kind+"-wrongly-accepted", why+" "+tags, "client %d accepted %s %d although: %s", st.C, kind, st.ID, why)
	} else {
		w.fatal(kind+"-wrongly-refused", why+" "+tags, "client %d refused %s %d: %v", st.C, kind, st.ID, err)
	}
	return false
}

func (w *World) deliver(cl *client, raw []byte) (data []byte, err error, panicked bool) {
	var d []byte
	in := w.in(raw)
	orig := clone(raw)
	err, panicked = w.call("UnmarshalAndProcessMessage", func() (err error) {
		d, err = cl.group.UnmarshalAndProcessMessage(in)
		return
	})
	if !bytes.Equal(in, orig) {
		w.report("input-modified", "", "UnmarshalAndProcessMessage modified its input")
	}
	if err != nil && len(d) > 0 {
		w.report("data-with-error", "", "UnmarshalAndProcessMessage returned data together with an error")
	}
	return w.taken(d), err, panicked
}

func (w *World) found(st *Step) {
	cl := w.client(st.C)
	e := &epoch{id: 1, num: 0, tree: ref.Tree{{Leaf: cl.kp.Leaf}}}
	w.epochs[1] = e
	cl.leaf = 0
	if cl.isV {
		s := w.S
		e.num = w.base
		e.ctx = &ref.GroupContext{Version: 1, Suite: s.ID, GroupID: w.GID, Epoch: e.num, TreeHash: e.tree.RootHash(s), Exts: w.exts}
		e.sec = s.Expanded(ref.Random(s.Nh))
		e.tag = s.MAC(e.sec.Confirm, nil)
		e.interim = s.InterimHash(nil, e.tag)
		return
	}
	var g *mls.Group
	gid := w.in(w.GID)
	kpp, done := w.keyPair(cl)
	err, pan := w.call("CreateGroup", func() (err error) {
		g, err = mls.CreateGroup(mls.GroupID(gid), kpp)
		return
	})
	if pan {
		return
	}
	done()
	if err != nil {
		w.fatal("create-failed", "", "CreateGroup: %v", err)
		return
	}
	cl.group, cl.at = g, 1
}

func (w *World) gwelcome(st *Step) {
	cl := w.client(st.C)
	e := w.epochs[st.From]
	var pub []mls.KeyPackage
	var kps []*ref.KeyPackage
	var inits [][]byte
	var names []int
	for _, p := range st.PS {
		n := w.client(p.C)
		kp := n.kpp.Public
		if p.C%2 == 0 {
			var k *mls.KeyPackage
			raw := w.in(n.kp2msg())
			err, pan := w.call("UnmarshalKeyPackage", func() (err error) {
				k, err = mls.UnmarshalKeyPackage(raw)
				return
			})
			if pan {
				return
			}
			if err != nil {
				w.fatal("keypackage-refused", "", "UnmarshalKeyPackage of a generated key package: %v", err)
				return
			}
			kp = *k
		}
		pub = append(pub, kp)
		kps = append(kps, n.kp)
		inits = append(inits, n.init)
		names = append(names, p.C)
	}
	rawW, rawC, err, pan := w.createWelcome(cl, pub)
	if pan {
		return
	}
	if err != nil {
		w.fatal("gwelcome-failed", "", "CreateWelcome: %v", err)
		return
	}
	w.checkNewMembers(rawW, kps)
	ne := w.checkWelcome(cl, e, names, kps, inits, st.Tree, rawW, rawC, "authored")
	if ne == nil {
		return
	}
	ne.id = st.To
	w.epochs[st.To] = ne
	w.cms[st.ID] = &commitMsg{raw: rawC, welcome: rawW, from: st.From, to: st.To, step: *st}
}

func (c *client) kp2msg() []byte { return ref.Msg(ref.WFKeyPackage, c.kp.Bytes()) }

func (w *World) createWelcome(cl *client, pub []mls.KeyPackage) (rawW, rawC []byte, err error, pan bool) {
	var wl *mls.Welcome
	err, pan = w.call("CreateWelcome", func() (err error) {
		wl, rawC, err = cl.group.CreateWelcome(pub)
		return
	})
	if err != nil || pan {
		return
	}
	rawC = w.taken(rawC)
	if w.Scribble {
		for i := range pub {
			pub[i] = mls.KeyPackage{}
		}
	}
	_, pan = w.call("Welcome.Bytes", func() error { rawW = wl.Bytes(); return nil })
	rawW = w.taken(rawW)
	return
}

// checkNewMembers: NewMembers names exactly the newcomers.
func (w *World) checkNewMembers(rawW []byte, kps []*ref.KeyPackage) {
	var wl *mls.Welcome
	in := w.in(rawW)
	err, pan := w.call("UnmarshalWelcome", func() (err error) { wl, err = mls.UnmarshalWelcome(in); return })
	if pan {
		return
	}
	if err != nil {
		w.fatal("welcome-refused", "unmarshal", "UnmarshalWelcome: %v", err)
		return
	}
	var got []string
	_, pan = w.call("NewMembers", func() error {
		for _, r := range wl.NewMembers() {
			got = append(got, string(r))
		}
		return nil
	})
	if pan {
		return
	}
	var want []string
	for _, kp := range kps {
		want = append(want, string(kp.Ref(w.S)))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		w.report("new-members", "", "NewMembers does not name the %d newcomers in order (%d named)", len(want), len(got))
	}
}

func (w *World) register(st *Step, b *build) {
	w.epochs[st.To] = b.ep
	cm := &commitMsg{raw: b.raw, from: st.From, to: st.To, secrets: b.secrets, step: *st}
	if len(st.Added) > 0 && st.Err == "ok" {
		cm.welcome = w.buildWelcome(st, b, st.Dev)
	}
	w.cms[st.ID] = cm
}

func (w *World) buildProp(st *Step, dev Dev) *propMsg {
	e := w.epochs[st.From]
	p := w.concreteProp(st.P, e, dev)
	raw, c, wf, sig, _ := w.frame(e, st.P.S, ref.CTProposal, p.Bytes(), st.Wire, dev, nil)
	return &propMsg{raw: raw, prop: p, from: st.From, ref: w.S.ProposalRef(wf, c, sig), c: c, wf: wf, sig: sig}
}

// prop authors a proposal. Equal proposals have equal references, so one that
// repeats another is told apart by its authenticated data.
func (w *World) prop(st *Step) {
	p := w.buildProp(st, st.Dev)
	for _, q := range w.props {
		if bytes.Equal(p.ref, q.ref) {
			dev := Dev{"ad": "again-" + itoa(st.ID)}
			for k, v := range st.Dev {
				dev[k] = v
			}
			p = w.buildProp(st, dev)
			break
		}
	}
	w.props[st.ID] = p
}

func (w *World) dcommit(st *Step) {
	cm := w.cms[st.ID]
	cl := w.client(st.C)
	data, err, pan := w.deliver(cl, cm.raw)
	if pan {
		return
	}
	tags := commitTags(&cm.step)
	if cm.step.By == cl.leaf && cm.from == cl.at {
		tags += " own"
	}
	if !w.verdict("commit", st, err, tags) {
		return
	}
	if len(data) > 0 {
		w.report("commit-data", "", "processing a commit returned application data")
	}
	if err == nil {
		cl.at = cm.to
		if cl.twin != nil {
			cl.queue = append(cl.queue, cm.raw)
		}
		w.stats.Add("epoch-moves", 1)
	}
}

func commitTags(st *Step) string {
	t := "nopath"
	if st.Path == 1 {
		t = "path"
	}
	kinds := map[string]bool{}
	for _, p := range st.PS {
		kinds["p:"+p.K] = true
		if p.R != 0 {
			kinds["byref"] = true
		}
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t += " " + k
	}
	if st.A == "gwelcome" {
		t += " gauthored"
	}
	t += " wire:" + st.Wire
	return t
}

func (w *World) joinWith(cl *client, raw []byte) (g *mls.Group, err error, pan bool) {
	var wl *mls.Welcome
	in := w.in(raw)
	err, pan = w.call("UnmarshalWelcome", func() (err error) { wl, err = mls.UnmarshalWelcome(in); return })
	if pan || err != nil {
		return
	}
	if x, perr := ref.ParseWelcomeMsg(raw); perr == nil {
		var got, want []string
		for _, e := range x.Entries {
			want = append(want, string(e.Ref))
		}
		_, pan = w.call("NewMembers", func() error {
			for _, r := range wl.NewMembers() {
				got = append(got, string(r))
			}
			return nil
		})
		if pan {
			return
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.report("new-members", "read", "NewMembers names %d clients of a Welcome for %d, or others", len(got), len(want))
		}
	}
	if w.Scribble {
		_, pan = w.call("NewMembers", func() error {
			for _, r := range wl.NewMembers() {
				w.scrap = append(w.scrap, r)
			}
			w.scrap = append(w.scrap, wl.Bytes())
			return nil
		})
		if pan {
			return
		}
	}
	kpp, done := w.keyPair(cl)
	err, pan = w.call("GroupFromWelcome", func() (err error) { g, err = mls.GroupFromWelcome(wl, kpp); return })
	if err == nil && !pan && w.Scribble { // the same Welcome and key pair again
		if cl.twin, err, pan = w.again(wl, kpp); err != nil || pan {
			return
		}
		cl.queue = nil
	}
	done()
	return
}

func (w *World) again(wl *mls.Welcome, kpp *mls.KeyPairPackage) (g *mls.Group, err error, pan bool) {
	err, pan = w.call("GroupFromWelcome", func() (err error) { g, err = mls.GroupFromWelcome(wl, kpp); return })
	return
}

// finalTwins lets the second instances catch up and checks them.
func (w *World) finalTwins(ids []int) {
	w.tags = "final twin"
	for _, id := range ids {
		cl := w.clients[id]
		if cl.twin == nil {
			continue
		}
		w.stats.Add("twins", 1)
		t := *cl
		t.group, t.next = cl.twin, map[string]uint32{}
		for _, raw := range cl.queue {
			if _, err, pan := w.deliver(&t, raw); pan {
				return
			} else if err != nil {
				w.fatal("commit-wrongly-refused", "twin", "second instance of client %d refused what the first accepted: %v", id, err)
				return
			}
		}
		if _, ok := w.gappMsg(&t, w.payload()); !ok {
			return
		}
	}
}

func (w *World) join(st *Step) {
	cm := w.cms[st.ID]
	cl := w.client(st.C)
	g, err, pan := w.joinWith(cl, cm.welcome)
	if pan {
		return
	}
	tags := commitTags(&cm.step)
	if !w.verdict("join", st, err, tags) {
		return
	}
	if err == nil && st.OK == 1 {
		cl.group, cl.at = g, cm.to
		cl.next = map[string]uint32{}
		for _, ad := range cm.step.Added {
			if ad.C == cl.id {
				cl.leaf = ad.Leaf
			}
		}
	}
}

var sizes = []int{0, 1, 2, 15, 16, 31, 32, 63, 64, 65, 100, 255, 256, 1000, 16383, 16384, 16385, 70000}

func (w *World) payload() []byte {
	n := sizes[w.rng.Intn(len(sizes))]
	if w.rng.Intn(3) > 0 {
		n = w.rng.Intn(120)
	}
	b := make([]byte, n)
	w.rng.Read(b)
	if n > 0 && w.rng.Intn(4) == 0 { // zeros at the end must survive padding removal
		b[n-1] = 0
	}
	return b
}

// gappMsg has cl's instance author an application message and checks it.
func (w *World) gappMsg(cl *client, data []byte) (raw []byte, ok bool) {
	in := w.in(data)
	err, pan := w.call("CreateApplicationMessage", func() (err error) {
		raw, err = cl.group.CreateApplicationMessage(in)
		return
	})
	if pan {
		return nil, false
	}
	if err != nil {
		w.fatal("app-create-failed", "", "CreateApplicationMessage: %v", err)
		return nil, false
	}
	raw = w.taken(raw)
	e := w.epochs[cl.at]
	if e.sec == nil {
		return raw, true
	}
	pm, err := ref.ParsePrivate(raw)
	if err != nil {
		w.fatal("app-malformed", "", "application message does not parse as a private message: %v", err)
		return nil, false
	}
	if !bytes.Equal(pm.GroupID, w.GID) || pm.Epoch != e.num || pm.Type != ref.CTApplication {
		w.fatal("app-malformed", "header", "application message is for group %q epoch %d type %d, want epoch %d", pm.GroupID, pm.Epoch, pm.Type, e.num)
		return nil, false
	}
	if _, gen, guard, err := e.sec.OpenSenderData(pm); err == nil {
		w.useGen(cl, cl.at, "application", gen, guard)
	}
	if w.light {
		return raw, true
	}
	o, err := e.sec.OpenPrivate(pm, e.leaves())
	if err != nil {
		w.fatal("app-unreadable", "", "application message of client %d cannot be opened with the secrets of its epoch %d: %v", cl.id, cl.at, err)
		return nil, false
	}
	if int(o.Leaf) != cl.leaf {
		w.fatal("app-sender", "", "application message sender is leaf %d, want %d", o.Leaf, cl.leaf)
		return nil, false
	}
	if !bytes.Equal(o.Data, data) {
		w.fatal("app-data", "authored", "application message carries other data than was given")
		return nil, false
	}
	if !w.S.Verify(e.tree[2*cl.leaf].Leaf.SigKey, "FramedContentTBS", ref.TBS(ref.WFPrivate, &o.Content, e.ctx.Bytes()), o.Sig) {
		w.fatal("app-signature", "", "application message signature is invalid")
		return nil, false
	}
	return raw, true
}

func (w *World) gapp(st *Step) {
	cl := w.client(st.C)
	data := w.payload()
	if raw, ok := w.gappMsg(cl, data); ok {
		w.apps[st.ID] = &appMsg{raw: raw, data: data, from: cl.at, c: cl.id}
	}
}

// burst has a client author many application messages in a row, or, of kind
// "hs", many Welcomes. The messages at the places kept are looked into and can
// be delivered later; of the others only the generation is read.
func (w *World) burst(st *Step) {
	cl := w.client(st.C)
	if st.Kind == "hs" {
		for i := 0; i < st.N && !w.dead; i++ {
			if !w.probeWelcome(cl, w.epochs[cl.at], st.Tree) {
				return
			}
		}
		return
	}
	at := map[int]int{}
	for i, k := range st.Keep {
		at[k] = st.ID + i
	}
	defer func() { w.light = false }()
	n := len(w.out)
	for i := 1; i <= st.N; i++ {
		if len(w.out) > n { // once is enough
			w.dead = true
			return
		}
		id := at[i]
		w.light = id == 0
		data := []byte("one of many")
		if id != 0 {
			data = w.payload()
		}
		raw, ok := w.gappMsg(cl, data)
		if !ok {
			return
		}
		if id != 0 {
			w.apps[id] = &appMsg{raw: raw, data: data, from: cl.at, c: cl.id}
		}
	}
}

func (w *World) vappMsg(e *epoch, by int, data []byte, dev Dev) []byte {
	raw, _, _, _, _ := w.frame(e, by, ref.CTApplication, ref.AppBody(data), "priv", dev, nil)
	return raw
}

func (w *World) vapp(st *Step) {
	e := w.epochs[st.E]
	data := w.payload()
	dev := Dev{"gen": itoa(st.Gen)}
	for k, v := range st.Dev {
		dev[k] = v
	}
	w.apps[st.ID] = &appMsg{raw: w.vappMsg(e, st.By, data, dev), data: data, from: st.E}
}

func (w *World) dapp(st *Step) {
	a := w.apps[st.ID]
	cl := w.client(st.C)
	data, err, pan := w.deliver(cl, a.raw)
	if pan {
		return
	}
	if !w.verdict("app", st, err, "") {
		return
	}
	if err == nil && st.OK == 1 && !bytes.Equal(data, a.data) {
		w.fatal("app-data", "received", "client %d received %d bytes, sent %d", cl.id, len(data), len(a.data))
	}
}

// probe observes the whole public state of an instance.
func (w *World) probe(st *Step) {
	cl := w.client(st.C)
	w.probeState(cl, st.Tree, st.Kind == "app")
}

func (w *World) probeState(cl *client, spec []SNode, appOnly bool) {
	e := w.epochs[cl.at]
	if !appOnly && !w.probeWelcome(cl, e, spec) {
		return
	}
	// what it sends
	if _, ok := w.gappMsg(cl, w.payload()); !ok {
		return
	}
	// what it can read
	if e.sec == nil {
		return
	}
	by := w.otherMember(e, cl.leaf)
	if by == cl.leaf { // nobody else there
		return
	}
	data := w.payload()
	got, err, pan := w.deliver(cl, w.vappMsg(e, by, data, Dev{"gen": itoa(w.rng.Intn(4))}))
	if pan {
		return
	}
	if err != nil {
		w.fatal("app-wrongly-refused", "ok probe", "client %d cannot read a message of its own epoch: %v", cl.id, err)
	} else if !bytes.Equal(got, data) {
		w.fatal("app-data", "probe received", "client %d received other data than was sent", cl.id)
	}
}

func (w *World) probeWelcome(cl *client, e *epoch, spec []SNode) bool {
	// what it would tell a newcomer
	cred := mls.NewBasicCredential([]byte("dummy"))
	kpp, err, pan := w.newPair(cred)
	if pan || err != nil {
		if !pan {
			w.fatal("keypackage-failed", "", "GenerateKeyPairPackage: %v", err)
		}
		return false
	}
	kp, err := ref.ParseKeyPackageMsg(kpp.Public.Bytes())
	if err != nil {
		w.fatal("keypackage-malformed", "", "%v", err)
		return false
	}
	w.leaves[[2]int{0, 0}] = &leafRec{leaf: kp.Leaf, enc: kpp.Private.EncryptionKey, sig: kpp.Private.SignatureKey}
	rawW, rawC, err, pan := w.createWelcome(cl, []mls.KeyPackage{kpp.Public})
	if pan {
		return false
	}
	if err != nil {
		w.fatal("gwelcome-failed", "probe", "CreateWelcome: %v", err)
		return false
	}
	w.stats.Add("probes", 1)
	if w.checkWelcome(cl, e, []int{0}, []*ref.KeyPackage{kp}, [][]byte{kpp.Private.InitKey}, spec, rawW, rawC, "probe") == nil {
		return false
	}
	return true
}

// final lets every pair of instances exchange a message: it is read iff they
// are in the same epoch.
func (w *World) final() {
	w.tags = "final"
	var ids []int
	for id, c := range w.clients {
		if c.group != nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, a := range ids {
		ca := w.clients[a]
		data := w.payload()
		raw, ok := w.gappMsg(ca, data)
		if !ok {
			return
		}
		for _, b := range ids {
			if a == b {
				continue
			}
			cb := w.clients[b]
			got, err, pan := w.deliver(cb, raw)
			if pan {
				return
			}
			if cb.at != ca.at {
				if err == nil {
					w.fatal("app-wrongly-accepted", why(w.epochs[ca.at], w.epochs[cb.at]), "client %d in epoch %d accepted a message of client %d in epoch %d", b, cb.at, a, ca.at)
					return
				}
				w.stats.Add("app-refused", 1)
				continue
			}
			if err != nil {
				w.fatal("app-wrongly-refused", "ok", "client %d refused a message of client %d in the same epoch %d: %v", b, a, ca.at, err)
				return
			}
			if !bytes.Equal(got, data) {
				w.fatal("app-data", "received", "client %d received other data than client %d sent", b, a)
				return
			}
			w.stats.Add("app-accepted", 1)
		}
	}
	w.finalTwins(ids)
}

func why(a, b *epoch) string {
	if a.num == b.num {
		return "branch"
	}
	return "epoch"
}
