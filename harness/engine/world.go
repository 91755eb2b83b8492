// Package engine replays behaviours of the specification into the library
// under test and compares what it observes with what the specification says.
package engine

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync"
	"time"

	mls "github.com/emersion/go-mls"

	"verif/harness/ref"
)

// Steps as emitted by the specification.
type SNode struct {
	T string `json:"t"`
	C int    `json:"c"`
	V int    `json:"v"`
	K int    `json:"k"`
	U []int  `json:"u"`

	PT int `json:"pt"` // ancestor whose hash the node holds (0 none, -1 a wrong one)
}
type Prop struct {
	K string `json:"k"`
	C int    `json:"c"`
	V int    `json:"v"`
	L int    `json:"l"`
	S int    `json:"s"`
	R int    `json:"r"`
	X int    `json:"x"`
}
type PN struct {
	N   int   `json:"n"`
	K   int   `json:"k"`
	CP  int   `json:"cp"`
	Enc []int `json:"enc"`
}
type Added struct {
	C    int `json:"c"`
	Leaf int `json:"leaf"`
	Anc  int `json:"anc"`
}
type Dev map[string]string

type Step struct {
	A     string  `json:"a"`
	ID    int     `json:"id"`
	From  int     `json:"from"`
	To    int     `json:"to"`
	By    int     `json:"by"`
	C     int     `json:"c"`
	Leaf  int     `json:"leaf"`
	V     int     `json:"v"`
	E     int     `json:"e"`
	Gen   int     `json:"gen"`
	OK    int     `json:"ok"`
	Path  int     `json:"path"`
	PS    []Prop  `json:"ps"`
	P     Prop    `json:"p"`
	PN    []PN    `json:"pn"`
	Tree  []SNode `json:"tree"`
	Added []Added `json:"added"`
	Wire  string  `json:"wire"`
	Err   string  `json:"err"`
	Why   string  `json:"why"`
	Kind  string  `json:"kind"`
	Dev   Dev     `json:"dev"`
	Size  int     `json:"size"`
	N     int     `json:"n"`    // of a "burst": how many
	Keep  []int   `json:"keep"` // of a "burst": which ones can be delivered
	M     *Step   `json:"m"`
	MT    int     `json:"mt"` // a flaw's message, registered by a "tmpl" step

	G     ref.Grammar `json:"g"`     // of a "grammar" step
	Cases []WireCase  `json:"cases"` // of a "wire" step
}

// Trace is one behaviour.
type Trace struct {
	ID    string `json:"id"`
	Suite int    `json:"suite"`
	V     []int  `json:"v"` // clients played by the reference peer
	Steps []Step `json:"steps"`
}

// Mismatch is a disagreement between the library and the specification.
type Mismatch struct {
	Trace string `json:"trace"`
	Step  int    `json:"step"`
	Kind  string `json:"kind"` // what disagreed
	Tags  string `json:"tags"` // space-separated circumstances
	Msg   string `json:"msg"`
}

func (m Mismatch) Has(tag string) bool {
	for _, t := range strings.Fields(m.Tags) {
		if t == tag {
			return true
		}
	}
	return false
}

// Stats counts what was exercised.
type Stats struct {
	mu    sync.Mutex
	N     map[string]int
	Facts []Fact
}

func (s *Stats) fact(f Fact) {
	s.mu.Lock()
	s.Facts = append(s.Facts, f)
	s.mu.Unlock()
}

func (s *Stats) Add(k string, n int) {
	s.mu.Lock()
	s.N[k] += n
	s.mu.Unlock()
}

type client struct {
	id    int
	isV   bool
	kpp   *mls.KeyPairPackage
	kp    *ref.KeyPackage
	init  []byte
	enc   []byte
	sig   []byte
	group *mls.Group
	at    int
	leaf  int
	twin  *mls.Group        // another instance made from the same objects (Scribble)
	queue [][]byte          // what the twin has yet to process
	next  map[string]uint32 // "epoch/kind" -> next generation of this instance
}

type leafRec struct {
	leaf *ref.LeafNode
	enc  []byte // private
	sig  []byte
}
type keyRec struct{ pub, priv, hash []byte }

type epoch struct {
	id      int
	num     uint64
	parent  int
	tree    ref.Tree
	ctx     *ref.GroupContext
	sec     *ref.Secrets
	tag     []byte
	interim []byte
	joiner  []byte
}

func (e *epoch) leaves() int { return (len(e.tree) + 1) / 2 }

type propMsg struct {
	raw  []byte
	ref  []byte
	prop *ref.Proposal
	from int
	c    *ref.Content
	wf   uint16
	sig  []byte
}
type commitMsg struct {
	raw     []byte
	welcome []byte
	from    int
	to      int
	secrets map[int][]byte // kid -> path secret
	step    Step
}
type appMsg struct {
	raw  []byte
	data []byte
	from int
	c    int
}

// World is the concrete counterpart of the specification's state.
type World struct {
	tr       *Trace
	S        *ref.Suite
	GID      []byte
	base     uint64 // number of the first epoch, where ours to choose
	pool     map[int][]byte
	gram     ref.Grammar
	caps     string // credential types clients list, if not the library's choice
	size     int    // of the input of the call being made
	Alloc    bool   // alone in the process: watch what calls allocate
	clients  map[int]*client
	epochs   map[int]*epoch
	exts     []ref.Ext // of the group, if the library did not found it
	adder    int       // leaf of the proposer of an add being made
	leaves   map[[2]int]*leafRec
	kids     map[int]*keyRec
	props    map[int]*propMsg
	cms      map[int]*commitMsg
	apps     map[int]*appMsg
	tmpl     map[int]*Step
	rng      *rand.Rand
	stats    *Stats
	out      []Mismatch
	i        int
	dead     bool
	light    bool     // only the generation of messages is of interest
	Scribble bool     // overwrite caller and result buffers after each call
	scrap    [][]byte // to be overwritten before the next call
	fresh    [][]byte // handed to the call about to be made
	LeafIdx  map[[2]int]int
	tags     string
	kpps     []*mls.KeyPairPackage // of a KeyPlan behaviour
	wiped    map[int]bool
	cred     *mls.Credential
	credID   []byte
}

var devLog = os.Getenv("VERIF_DEBUG") != ""

func NewWorld(tr *Trace, seed int64, st *Stats) *World {
	suite := tr.Suite
	if suite == 0 {
		suite = 1
	}
	h := int64(0)
	for _, c := range tr.ID {
		h = h*131 + int64(c)
	}
	w := &World{tr: tr, S: ref.SuiteByID(uint16(suite)), clients: map[int]*client{}, epochs: map[int]*epoch{},
		leaves: map[[2]int]*leafRec{}, kids: map[int]*keyRec{}, props: map[int]*propMsg{}, cms: map[int]*commitMsg{},
		apps: map[int]*appMsg{}, tmpl: map[int]*Step{}, rng: rand.New(rand.NewSource(seed*7919 + h)), stats: st, LeafIdx: map[[2]int]int{}}
	w.GID = []byte(fmt.Sprintf("group-%s-%d", tr.ID, w.rng.Int63()))
	plain := true
	for _, st := range tr.Steps {
		switch st.A {
		case "tmpl", "flaw", "grammar", "wire", "mix", "stree":
			plain = false // alters identifiers, which must be long enough
		}
	}
	if n := idSizes[w.rng.Intn(len(idSizes))]; plain && n >= 0 {
		w.GID = append(w.GID, make([]byte, n)...)[:n]
		w.rng.Read(w.GID)
	}
	w.base = firstEpochs[w.rng.Intn(len(firstEpochs))]
	if plain {
		w.exts = groupExts[w.rng.Intn(len(groupExts))]
	}
	return w
}

// Sizes of group identifiers; -1 for a readable one.
var idSizes = []int{-1, -1, -1, -1, -1, 0, 1, 16, 63, 64, 255, 256, 16384}

// Numbers of the first epoch of groups the library did not found.
var firstEpochs = []uint64{0, 0, 0, 0, 0, 1, 0x7e, 0xfe, 0xfffd, 1<<31 - 2, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<48 - 1, 1<<63 - 2, 1<<64 - 1000}

// Extensions of groups the library did not found; of the kinds every client
// supports, asking nothing of its members.
var groupExts = [][]ref.Ext{nil, nil, nil,
	{{Type: extRequired, Data: []byte{0, 0, 0}}},
	{{Type: extSenders, Data: new(ref.W).Sub(func(w *ref.W) { w.Vec(make([]byte, 32)).U16(1).Vec([]byte("observer")) }).B}},
	{{Type: extSenders, Data: []byte{0}}, {Type: extRequired, Data: []byte{0, 0, 0}}},
}

func (w *World) report(kind, tags, f string, a ...any) {
	if w.tags != "" {
		tags = strings.TrimSpace(tags + " " + w.tags)
	}
	w.out = append(w.out, Mismatch{Trace: w.tr.ID, Step: w.i, Kind: kind, Tags: tags, Msg: fmt.Sprintf(f, a...)})
}

// fatal reports and stops the trace: later steps would be meaningless.
func (w *World) fatal(kind, tags, f string, a ...any) {
	w.report(kind, tags, f, a...)
	w.dead = true
}

// call runs a public call of the library; a panic becomes a mismatch.
func (w *World) call(name string, f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			err, panicked = fmt.Errorf("panic: %v", r), true
			w.fatal("panic", name, "%s: panic: %v\n%s", name, r, firstFrames(string(buf[:n])))
		}
	}()
	w.stats.Add("calls", 1)
	if w.Scribble { // nothing handed over or returned before may matter any more
		w.scribble()
	}
	begin, heap := time.Now(), heapSize()
	var m runtime.MemStats
	if w.Alloc {
		runtime.ReadMemStats(&m)
	}
	err = f()
	if d := time.Since(begin); d > slowCall {
		w.fatal("hang", name, "%s took %v", name, d)
	}
	if h := heapSize(); h > heap+bigHeap {
		w.fatal("memory", name, "%s made the heap grow from %d to %d MB", name, heap>>20, h>>20)
	}
	if w.Alloc {
		before := m.TotalAlloc
		runtime.ReadMemStats(&m)
		if n := m.TotalAlloc - before; n > 1<<20+64*uint64(w.size) && strings.HasPrefix(name, "Unmarshal") && w.size > 0 {
			w.fatal("memory", name, "%s allocated %d bytes for an input of %d bytes", name, n, w.size)
		}
	}
	w.scrap, w.fresh = append(w.scrap, w.fresh...), nil
	return err, false
}

// A call that takes longer than this does not return promptly; none of the
// inputs is longer than a few hundred kilobytes.
const slowCall = 20 * time.Second

// Heap growth during one call that no input here justifies.
const bigHeap = 256 << 20

func heapSize() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/free:bytes"}, {Name: "/memory/classes/heap/objects:bytes"},
		{Name: "/memory/classes/heap/released:bytes"}, {Name: "/memory/classes/heap/unused:bytes"}}
	metrics.Read(s)
	var n uint64
	for _, x := range s {
		n += x.Value.Uint64()
	}
	return n
}

func firstFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-mls") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// in hands a private copy of a buffer to the library, scribbled later.
func (w *World) in(b []byte) []byte {
	c := clone(b)
	if w.Scribble {
		w.fresh = append(w.fresh, c)
	}
	return c
}

// taken takes a private copy of a returned buffer and schedules the original
// for scribbling.
func (w *World) taken(b []byte) []byte {
	c := clone(b)
	if w.Scribble {
		w.scrap = append(w.scrap, b)
	}
	return c
}

func (w *World) scribble() {
	for _, b := range w.scrap {
		b = b[:cap(b)]
		for i := range b {
			b[i] = 0xa5 ^ byte(i)
		}
	}
	w.scrap = nil
}

// keyPair is the key pair package of cl as handed to a call; in Scribble mode
// it is a copy that is overwritten afterwards.
func (w *World) keyPair(cl *client) (*mls.KeyPairPackage, func()) {
	if !w.Scribble {
		return cl.kpp, func() {}
	}
	k := new(mls.KeyPairPackage)
	k.Public = cl.kpp.Public
	k.Private.InitKey = clone(cl.kpp.Private.InitKey)
	k.Private.EncryptionKey = clone(cl.kpp.Private.EncryptionKey)
	k.Private.SignatureKey = clone(cl.kpp.Private.SignatureKey)
	return k, func() {
		w.scrap = append(w.scrap, k.Private.InitKey, k.Private.EncryptionKey, k.Private.SignatureKey)
		w.scribble()
		*k = mls.KeyPairPackage{}
	}
}

func (w *World) isV(c int) bool {
	for _, v := range w.tr.V {
		if v == c {
			return true
		}
	}
	return false
}

func (w *World) client(id int) *client {
	if c := w.clients[id]; c != nil {
		return c
	}
	c := &client{id: id, isV: w.isV(id), next: map[string]uint32{}}
	cred := mls.NewBasicCredential(w.in([]byte(fmt.Sprintf("client-%d", id))))
	kpp, err, _ := w.newPair(cred)
	if err != nil || kpp == nil {
		w.fatal("keypackage-failed", "", "GenerateKeyPairPackage: %v", err)
		panic(stop{})
	}
	c.kpp = kpp
	var raw []byte
	if _, pan := w.call("KeyPackage.Bytes", func() error { raw = kpp.Public.Bytes(); return nil }); pan {
		panic(stop{})
	}
	kp, err := ref.ParseKeyPackageMsg(raw)
	if err != nil {
		w.fatal("keypackage-malformed", "", "generated key package does not parse: %v", err)
		panic(stop{})
	}
	c.kp = kp
	if w.Scribble { // the returned encodings are the caller's
		pub := kpp.Public
		b1, r1 := pub.Bytes(), []byte(nil)
		if ref, err := pub.GenerateRef(); err == nil {
			r1 = ref
		}
		w1, w2 := clone(b1), clone(r1)
		w.scrap = append(w.scrap, b1, r1)
		w.scribble()
		r2, _ := pub.GenerateRef()
		if !bytes.Equal(pub.Bytes(), w1) || !bytes.Equal(r2, w2) {
			w.fatal("keypackage-malformed", "aliased", "key package changes when its returned encoding is overwritten")
			panic(stop{})
		}
	}
	c.init, c.enc, c.sig = clone(kpp.Private.InitKey), clone(kpp.Private.EncryptionKey), clone(kpp.Private.SignatureKey)
	w.clients[id] = c
	w.leaves[[2]int{id, 0}] = &leafRec{leaf: kp.Leaf, enc: c.enc, sig: c.sig}
	return c
}

// newPair has the library generate a key package; if the world says so, its
// owner then lists other credential types.
func (w *World) newPair(cred *mls.Credential) (kpp *mls.KeyPairPackage, err error, pan bool) {
	err, pan = w.call("GenerateKeyPairPackage", func() (err error) {
		kpp, err = mls.GenerateKeyPairPackage(mls.CipherSuite(w.S.ID), cred)
		return
	})
	if err != nil || pan || kpp == nil || w.caps == "" {
		return
	}
	kp, perr := ref.ParseKeyPackageMsg(kpp.Public.Bytes())
	if perr != nil {
		return
	}
	kp.Leaf.Creds = credList(w.caps)
	kp.Leaf.Sign(w.S, kpp.Private.SignatureKey, nil, 0)
	kp.Sign(w.S, kpp.Private.SignatureKey)
	pub, err := mls.UnmarshalKeyPackage(ref.Msg(ref.WFKeyPackage, kp.Bytes()))
	if err == nil {
		kpp.Public = *pub
	}
	return
}

func credList(s string) (l []uint16) {
	for _, c := range s {
		if c != '-' {
			l = append(l, uint16(c-'0'))
		}
	}
	return
}

// stop unwinds a trace that cannot go on.
type stop struct{}

// leafVer returns the leaf record of a client at a version, if made.
func (w *World) leafVer(c, v int) *leafRec { return w.leaves[[2]int{c, v}] }

// sigOf returns the signature key in force for leaf i of epoch e.
func (w *World) leafAt(e *epoch, i int) *ref.LeafNode {
	if n := e.tree[2*i]; n != nil {
		return n.Leaf
	}
	return nil
}

func (w *World) sigKeyFor(l *ref.LeafNode) []byte {
	for _, r := range w.leaves {
		if bytes.Equal(r.leaf.SigKey, l.SigKey) {
			return r.sig
		}
	}
	panic("no signature key")
}

// concrete builds the concrete tree for a specification tree.
func (w *World) concrete(spec []SNode) ref.Tree {
	t := make(ref.Tree, len(spec))
	for i, n := range spec {
		switch n.T {
		case "l":
			lr := w.leafVer(n.C, n.V)
			if lr == nil {
				w.client(n.C)
				lr = w.leafVer(n.C, n.V)
			}
			if lr == nil {
				panic(fmt.Sprintf("harness: no leaf for client %d version %d", n.C, n.V))
			}
			t[i] = &ref.Node{Leaf: lr.leaf}
		case "p":
			k := w.kids[n.K]
			if k == nil {
				panic(fmt.Sprintf("harness: no key %d", n.K))
			}
			p := &ref.Parent{Key: k.pub, Hash: k.hash}
			for _, u := range n.U {
				p.Unmerged = append(p.Unmerged, uint32(u))
			}
			t[i] = &ref.Node{Parent: p}
		}
	}
	return t
}

// Run replays the trace.
func (w *World) Run() (out []Mismatch) {
	defer func() {
		if r := recover(); r != nil {
			// After a disagreement the rest of the trace may not make sense.
			if _, ok := r.(stop); !ok && len(w.out) == 0 {
				panic(r)
			}
		}
		out = w.out
	}()
	for i := range w.tr.Steps {
		w.i = i
		w.step(&w.tr.Steps[i])
		if w.dead {
			return w.out
		}
	}
	w.i = len(w.tr.Steps)
	w.final()
	return w.out
}
