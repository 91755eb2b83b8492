package engine

import (
	"strconv"

	mls "github.com/emersion/go-mls"

	"verif/harness/ref"
)

// suiteOf resolves a suite named relative to that of the group.
func (w *World) suiteOf(name string) mls.CipherSuite {
	all := []uint16{1, 2, 3, 7}
	if name != "" && name[0] == 'o' {
		k, _ := strconv.Atoi(name[1:])
		for i, id := range all {
			if id == w.S.ID {
				return mls.CipherSuite(all[(i+k)%len(all)])
			}
		}
	}
	n, err := strconv.Atoi(name)
	if err != nil {
		panic("harness: suite " + name)
	}
	return mls.CipherSuite(n)
}

func (w *World) generate(cs mls.CipherSuite) (k *mls.KeyPairPackage, err error, pan bool) {
	cred := mls.NewBasicCredential(w.in([]byte("another suite's client")))
	err, pan = w.call("GenerateKeyPairPackage", func() (err error) { k, err = mls.GenerateKeyPairPackage(cs, cred); return })
	return
}

// mix brings material of another suite into the group.
func (w *World) mix(st *Step) {
	cs := w.suiteOf(st.Dev["suite"])
	cl := w.client(st.C)
	w.tags = "kind:mix mix:" + st.Kind
	defer func() { w.tags = "" }()
	w.stats.Add("mix:"+st.Kind, 1)
	if st.Kind == "supported" {
		for id := 0; id < 1<<16; id++ {
			want := id == 1 || id == 2 || id == 3 || id == 7
			var got bool
			if _, pan := w.call("Supported", func() error { got = mls.CipherSuite(id).Supported(); return nil }); pan {
				return
			}
			if got != want {
				w.fatal("suite-supported", "", "suite %d reported as supported: %v", id, got)
				return
			}
		}
		return
	}
	k, err, pan := w.generate(cs)
	if pan {
		return
	}
	if st.Kind == "gen" {
		if !w.verdict("flaw", st, err, "") || err != nil {
			return
		}
		kp, perr := ref.ParseKeyPackageMsg(k.Public.Bytes())
		if perr != nil || kp.Suite != uint16(cs) {
			w.fatal("keypackage-malformed", "suite", "key package for suite %d: %v", cs, perr)
		}
		return
	}
	if err != nil {
		w.fatal("keypackage-failed", "", "GenerateKeyPairPackage(%d): %v", cs, err)
		return
	}
	own := w.client(6).kpp.Public // a newcomer of the group's suite
	switch st.Kind {
	case "group":
		err, pan = w.call("CreateGroup", func() error { _, err := mls.CreateGroup(mls.GroupID(w.in(w.GID)), k); return err })
	case "create", "create2":
		kps := []mls.KeyPackage{k.Public}
		if st.Kind == "create2" {
			kps = []mls.KeyPackage{own, k.Public}
		}
		var raw []byte
		_, raw, err, pan = w.createWelcome(cl, kps)
		if !pan && err == nil {
			w.countCommit(cl, w.epochs[cl.at], raw)
		}
	case "join", "joinpair": // a Welcome of the group given to another suite's client
		x := w.client(2)
		if st.Kind == "joinpair" {
			k = &mls.KeyPairPackage{Public: k.Public, Private: x.kpp.Private}
		}
		var rawW, rawC []byte
		rawW, rawC, err, pan = w.createWelcome(cl, []mls.KeyPackage{x.kpp.Public})
		if pan {
			return
		}
		if err != nil {
			w.fatal("gwelcome-failed", "", "CreateWelcome: %v", err)
			return
		}
		w.countCommit(cl, w.epochs[cl.at], rawC)
		var wl *mls.Welcome
		err, pan = w.call("UnmarshalWelcome", func() (err error) { wl, err = mls.UnmarshalWelcome(rawW); return })
		if pan {
			return
		}
		if err != nil {
			w.fatal("welcome-refused", "unmarshal", "UnmarshalWelcome: %v", err)
			return
		}
		err, pan = w.call("GroupFromWelcome", func() error { _, err := mls.GroupFromWelcome(wl, k); return err })
	case "commit", "app": // messages of a group of the same name in the other suite
		k2, err2, pan2 := w.generate(cs)
		if pan2 || err2 != nil {
			return
		}
		var g *mls.Group
		err, pan = w.call("CreateGroup", func() (err error) { g, err = mls.CreateGroup(mls.GroupID(w.in(w.GID)), k); return })
		if pan || err != nil {
			w.fatal("create-failed", "", "CreateGroup: %v", err)
			return
		}
		var raw []byte
		if st.Kind == "commit" {
			err, pan = w.call("CreateWelcome", func() (err error) { _, raw, err = g.CreateWelcome([]mls.KeyPackage{k2.Public}); return })
		} else {
			err, pan = w.call("CreateApplicationMessage", func() (err error) { raw, err = g.CreateApplicationMessage([]byte("hello")); return })
		}
		if pan || err != nil {
			w.fatal("app-create-failed", "", "in suite %d: %v", cs, err)
			return
		}
		_, err, pan = w.deliver(cl, raw)
	default:
		panic("harness: unknown mix " + st.Kind)
	}
	if !pan {
		w.verdict("flaw", st, err, "")
	}
}
