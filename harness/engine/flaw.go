package engine

import (
	"bytes"
	"sort"
	"strings"

	mls "github.com/emersion/go-mls"

	"verif/harness/ref"
)

func devTags(kind string, dev Dev) string {
	var ks []string
	for k, v := range dev {
		ks = append(ks, "f:"+k, "f:"+k+"="+v)
	}
	sort.Strings(ks)
	return "kind:" + kind + " " + strings.Join(ks, " ")
}

// flaw has a deviating message authored and delivered; it is not registered
// unless it is a commit that was rightly accepted.
func (w *World) flaw(st *Step) {
	cl := w.client(st.C)
	if st.M != nil {
		for _, p := range append(append([]Prop{}, st.M.PS...), st.M.P) {
			if p.K == "add" {
				w.client(p.C)
			}
		}
	}
	leaves, kids := w.leaves, w.kids
	w.leaves, w.kids = map[[2]int]*leafRec{}, map[int]*keyRec{}
	for k, v := range leaves {
		w.leaves[k] = v
	}
	for k, v := range kids {
		w.kids[k] = v
	}
	keep := false
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(noPlace); !ok {
				panic(r)
			}
			w.stats.Add("flaws:none", 1)
		}
		if !keep {
			w.leaves, w.kids = leaves, kids
		}
	}()
	tags := devTags(st.Kind, st.Dev)
	if st.M != nil {
		tags += " " + commitTags(st.M)
	}
	w.tags = tags
	defer func() { w.tags = "" }()
	w.stats.Add("flaws:"+st.Kind, 1)
	switch st.Kind {
	case "commit":
		b := w.buildCommit(st.M, st.Dev)
		_, err, pan := w.deliver(cl, b.raw)
		if !pan && w.verdict("flaw", st, err, "") && err == nil {
			// a harmless variation: the client is in the new epoch
			keep = true
			w.epochs[st.M.To] = b.ep
			cl.at = st.M.To
		}
	case "prop":
		p := w.buildProp(st.M, st.Dev)
		if st.ID != 0 {
			w.props[st.ID] = p
		}
		_, err, pan := w.deliver(cl, p.raw)
		if !pan {
			w.verdict("flaw", st, err, "")
		}
	case "app":
		e := w.epochs[st.E]
		data := w.payload()
		got, err, pan := w.deliver(cl, w.vappMsg(e, st.By, data, st.Dev))
		if pan || !w.verdict("flaw", st, err, "") {
			return
		}
		if err == nil && st.OK == 1 && !bytes.Equal(got, data) {
			w.fatal("app-data", "received", "client %d received other data than was sent", cl.id)
		}
	case "appwire": // application data in a public message
		e := w.epochs[st.E]
		raw, _, _, _, _ := w.frame(e, st.By, ref.CTApplication, ref.AppBody(w.payload()), "pub", st.Dev, nil)
		_, err, pan := w.deliver(cl, raw)
		if !pan {
			w.verdict("flaw", st, err, "")
		}
	case "join":
		if o := st.Dev["admit"]; o != "" { // the newcomer's key package is of another suite
			k, err, pan := w.generate(w.suiteOf(o))
			if pan {
				return
			}
			if err != nil {
				panic(noPlace{})
			}
			kp, err := ref.ParseKeyPackageMsg(k.Public.Bytes())
			if err != nil {
				panic(noPlace{})
			}
			own := *cl
			defer func() { *cl = own }()
			cl.kpp, cl.kp, cl.init, cl.enc, cl.sig = k, kp, k.Private.InitKey, k.Private.EncryptionKey, k.Private.SignatureKey
			w.leaves[[2]int{cl.id, 0}] = &leafRec{leaf: kp.Leaf, enc: cl.enc, sig: cl.sig}
		}
		b := w.buildCommit(st.M, nil)
		raw := w.buildWelcome(st.M, b, st.Dev)
		twin, queue := cl.twin, cl.queue
		defer func() { cl.twin, cl.queue = twin, queue }()
		g, err, pan := w.joinAs(cl, raw, st.Dev)
		if pan || !w.verdict("flaw", st, err, "") {
			return
		}
		if err == nil && st.OK == 1 {
			w.tryJoined(st, cl, g, b)
		}
	case "create": // CreateWelcome asked to admit a deviating key package
		e := w.epochs[cl.at]
		w.adder = st.By
		kp, _ := w.keyPackageFor(st.P.C, e, w.blankLeaf(e), st.Dev)
		var k *mls.KeyPackage
		err, pan := w.call("UnmarshalKeyPackage", func() (err error) {
			k, err = mls.UnmarshalKeyPackage(ref.Msg(ref.WFKeyPackage, kp.Bytes()))
			return
		})
		if pan {
			return
		}
		if err == nil {
			var rawC []byte
			_, rawC, err, pan = w.createWelcome(cl, []mls.KeyPackage{*k})
			if pan {
				return
			}
			if err == nil {
				w.countCommit(cl, e, rawC)
			}
		}
		w.verdict("flaw", st, err, "")
	default:
		panic("harness: unknown flaw kind " + st.Kind)
	}
}

// joinAs joins with a key pair that may not be the client's.
func (w *World) joinAs(cl *client, raw []byte, dev Dev) (*mls.Group, error, bool) {
	if !hasPrefix(dev, "c.") {
		return w.joinWith(cl, raw)
	}
	own, kpp := *cl, *cl.kpp
	cl, own.kpp = &own, &kpp
	other := w.client(97).kpp
	switch dev["c.init"] {
	case "wrong":
		_, cl.kpp.Private.InitKey = w.S.GenHPKE()
	case "enc":
		cl.kpp.Private.InitKey = kpp.Private.EncryptionKey
	case "other":
		cl.kpp.Private.InitKey = other.Private.InitKey
	case "empty":
		cl.kpp.Private.InitKey = nil
	case "trunc":
		cl.kpp.Private.InitKey = kpp.Private.InitKey[:len(kpp.Private.InitKey)-1]
	}
	if dev["c.pub"] == "other" {
		cl.kpp.Public = other.Public
	}
	return w.joinWith(cl, raw)
}

// tryJoined checks that an instance made from a benign variation works.
func (w *World) tryJoined(st *Step, cl *client, g *mls.Group, b *build) {
	old := *cl
	defer func() { *cl = old }()
	cl.group, cl.at, cl.next = g, st.M.To, map[string]uint32{}
	for _, ad := range st.M.Added {
		if ad.C == cl.id {
			cl.leaf = ad.Leaf
		}
	}
	oe := w.epochs[st.M.To]
	w.epochs[st.M.To] = b.ep
	w.gappMsg(cl, w.payload())
	if oe == nil {
		delete(w.epochs, st.M.To)
	} else {
		w.epochs[st.M.To] = oe
	}
}

// countCommit records the generation of a created commit that is not looked
// at otherwise.
func (w *World) countCommit(cl *client, e *epoch, raw []byte) {
	pm, err := ref.ParsePrivate(raw)
	if err != nil {
		return
	}
	if o, err := e.sec.OpenPrivate(pm, e.leaves()); err == nil {
		w.useGen(cl, e.id, "handshake", o.Gen, o.Guard)
	}
}
