package engine

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sync"
	"time"

	mls "github.com/emersion/go-mls"

	"verif/harness/ref"
)

// Fact describes one call of GenerateKeyPairPackage as an observer found it.
type Fact struct {
	Trace      string `json:"trace"`
	Step       int    `json:"step"`
	Asked      int    `json:"asked"`
	Err        int    `json:"err"`
	Parse      int    `json:"parse"`
	Version    int    `json:"version"`
	Suite      int    `json:"suite"`
	Source     int    `json:"source"`
	CredType   int    `json:"credtype"`
	Identity   int    `json:"identity"`
	Begun      int    `json:"begun"`
	Lasts      int    `json:"lasts"`
	CapVersion int    `json:"capversion"`
	CapSuite   int    `json:"capsuite"`
	CapCred    int    `json:"capcred"`
	Exts       int    `json:"exts"`
	Apart      int    `json:"apart"`
	LeafSig    int    `json:"leafsig"`
	KPSig      int    `json:"kpsig"`
	PrivInit   int    `json:"privinit"`
	PrivEnc    int    `json:"privenc"`
	PrivSig    int    `json:"privsig"`
	SameBytes  int    `json:"samebytes"`
	SameRef    int    `json:"sameref"`
	Init       string `json:"init"` // digests, numbered when the log is judged
	Enc        string `json:"enc"`
	Sig        string `json:"sig"`
	Ref        string `json:"ref"`
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:12])
}

func contains(l []uint16, v uint16) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// pairs tells whether an HPKE private key opens what is sealed to the public one.
func pairs(s *ref.Suite, pub, priv []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if p, err := s.HPKEPub(priv); err != nil || !bytes.Equal(p, pub) {
		return false
	}
	k, ct := s.Seal(pub, "test", []byte("ctx"), []byte("secret"))
	pt, err := s.Open(priv, "test", []byte("ctx"), k, ct)
	return err == nil && string(pt) == "secret"
}

func signs(s *ref.Suite, pub, priv []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return s.Verify(pub, "test", []byte("text"), s.Sign(priv, "test", []byte("text")))
}

func factOf(cs uint16, id []byte, k *mls.KeyPairPackage, err error, t time.Time) Fact {
	f := Fact{Asked: int(cs), Err: bit(err != nil)}
	s := ref.SuiteByID(cs)
	if err != nil || s == nil {
		return f
	}
	raw := k.Public.Bytes()
	kp, perr := ref.ParseKeyPackageMsg(raw)
	if perr != nil {
		return f
	}
	l := kp.Leaf
	f.Parse, f.Version, f.Suite, f.Source, f.CredType = 1, int(kp.Version), int(kp.Suite), int(l.Source), int(l.CredType)
	f.Identity = bit(bytes.Equal(l.Identity, id))
	f.Begun, f.Lasts = bit(l.NotBefore <= uint64(t.Unix())), bit(l.NotAfter > uint64(t.Unix()))
	f.CapVersion, f.CapSuite = bit(contains(l.Versions, 1)), bit(contains(l.Suites, cs))
	f.CapCred = bit(contains(l.Creds, l.CredType))
	f.Exts = 1
	for _, e := range append(append([]ref.Ext{}, l.Exts...), kp.Exts...) {
		if e.Type > 5 && !contains(l.CExts, e.Type) {
			f.Exts = 0
		}
	}
	f.Apart = bit(!bytes.Equal(kp.InitKey, l.EncKey))
	f.LeafSig, f.KPSig = bit(l.VerifySig(s, nil, 0)), bit(kp.VerifySig(s))
	f.PrivInit = bit(pairs(s, kp.InitKey, k.Private.InitKey))
	f.PrivEnc = bit(pairs(s, l.EncKey, k.Private.EncryptionKey))
	f.PrivSig = bit(signs(s, l.SigKey, k.Private.SignatureKey))
	u, uerr := mls.UnmarshalKeyPackage(raw)
	f.SameBytes = bit(uerr == nil && bytes.Equal(u.Bytes(), raw) && bytes.Equal(k.Public.Bytes(), raw))
	if uerr == nil {
		r1, e1 := k.Public.GenerateRef()
		r2, e2 := u.GenerateRef()
		f.SameRef = bit(e1 == nil && e2 == nil && r1.Equal(r2) && bytes.Equal(r1, kp.Ref(s)))
	}
	f.Init, f.Enc, f.Sig, f.Ref = digest(kp.InitKey), digest(l.EncKey), digest(l.SigKey), digest(kp.Ref(s))
	return f
}

// keygen runs one step of a KeyPlan behaviour.
func (w *World) keygen(st *Step) {
	w.tags = "kind:kgen op:" + st.Kind
	defer func() { w.tags = "" }()
	switch st.Kind {
	case "gen", "bad", "par":
		ids := make([][]byte, st.Gen)
		creds := make([]*mls.Credential, st.Gen)
		for i := range ids {
			if st.Wire == "new" || w.cred == nil || st.Wire == "shared" && i == 0 {
				id := bytes.Repeat([]byte{byte(len(w.kpps)), byte(i), 'x'}, st.Size/3+1)[:st.Size]
				w.cred, w.credID = mls.NewBasicCredential(w.in(id)), id
			}
			ids[i], creds[i] = w.credID, w.cred
		}
		out := make([]*mls.KeyPairPackage, st.Gen)
		facts := make([]Fact, st.Gen)
		_, pan := w.call("GenerateKeyPairPackage", func() error {
			var wg sync.WaitGroup
			var mu sync.Mutex
			var crash any
			for i := range ids {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							crash = r
							mu.Unlock()
						}
					}()
					k, err := mls.GenerateKeyPairPackage(mls.CipherSuite(st.From), creds[i])
					out[i], facts[i] = k, factOf(uint16(st.From), ids[i], k, err, time.Now())
				}()
			}
			wg.Wait()
			if crash != nil {
				panic(crash)
			}
			return nil
		})
		if pan {
			return
		}
		for i, f := range facts {
			f.Trace, f.Step = w.tr.ID, w.i
			w.stats.fact(f)
			if st.Kind != "bad" {
				w.kpps = append(w.kpps, out[i])
			}
		}
		w.stats.Add("packages", len(facts))
	case "use":
		x, y := w.kpps[st.C-1], w.kpps[st.E-1]
		if x == nil || y == nil || w.wiped[st.C-1] || w.wiped[st.E-1] {
			return
		}
		w.stats.Add("used", 1)
		err, pan := w.call("CreateGroup", func() error {
			g, err := mls.CreateGroup(mls.GroupID(w.in(w.GID)), x)
			if err != nil {
				return fmt.Errorf("CreateGroup: %v", err)
			}
			wl, raw, err := g.CreateWelcome([]mls.KeyPackage{y.Public})
			if err != nil {
				return fmt.Errorf("CreateWelcome: %v", err)
			}
			if _, err := g.UnmarshalAndProcessMessage(raw); err != nil {
				return fmt.Errorf("own commit: %v", err)
			}
			if _, err := mls.GroupFromWelcome(wl, y); err != nil {
				return fmt.Errorf("GroupFromWelcome: %v", err)
			}
			return nil
		})
		if !pan && err != nil {
			w.fatal("keypackage-unusable", "", "%v", err)
		}
	case "wipe":
		k := w.kpps[st.C-1]
		if k == nil {
			return
		}
		if w.wiped == nil {
			w.wiped = map[int]bool{}
		}
		w.wiped[st.C-1] = true
		clear(k.Private.InitKey)
		clear(k.Private.EncryptionKey)
		clear(k.Private.SignatureKey)
	default:
		panic("harness: unknown kgen " + st.Kind)
	}
}
