package ref

import (
	"bytes"
	"errors"
)

// W writes TLS presentation language with RFC 9420 variable-size vectors.
type W struct{ B []byte }

func (w *W) U8(v uint8) *W   { w.B = append(w.B, v); return w }
func (w *W) U16(v uint16) *W { w.B = append(w.B, byte(v>>8), byte(v)); return w }
func (w *W) U32(v uint32) *W {
	return w.U16(uint16(v >> 16)).U16(uint16(v))
}
func (w *W) U64(v uint64) *W { return w.U32(uint32(v >> 32)).U32(uint32(v)) }
func (w *W) Raw(b []byte) *W { w.B = append(w.B, b...); return w }
func (w *W) Varint(n int) *W {
	switch {
	case n < 1<<6:
		return w.U8(uint8(n))
	case n < 1<<14:
		return w.U16(1<<14 | uint16(n))
	case n < 1<<30:
		return w.U32(2<<30 | uint32(n))
	}
	panic("vector too long")
}
func (w *W) Vec(b []byte) *W { return w.Varint(len(b)).Raw(b) }
func (w *W) Sub(f func(*W)) *W {
	var c W
	f(&c)
	return w.Vec(c.B)
}
func (w *W) U16s(v []uint16) *W {
	return w.Sub(func(w *W) {
		for _, x := range v {
			w.U16(x)
		}
	})
}

// R reads; the first failure sticks.
type R struct {
	B   []byte
	Err error
}

var errShort = errors.New("ref: malformed input")

func (r *R) take(n int) []byte {
	if r.Err != nil || n > len(r.B) {
		r.Err = errShort
		return make([]byte, 0)
	}
	b := r.B[:n]
	r.B = r.B[n:]
	return b
}
func (r *R) uint(n int) (v uint64) {
	b := r.take(n)
	if r.Err != nil {
		return 0
	}
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}
func (r *R) U8() uint8   { return uint8(r.uint(1)) }
func (r *R) U16() uint16 { return uint16(r.uint(2)) }
func (r *R) U32() uint32 { return uint32(r.uint(4)) }
func (r *R) U64() uint64 { return r.uint(8) }
func (r *R) Varint() int {
	b := r.U8()
	v := int(b & 0x3f)
	switch b >> 6 {
	case 0:
		return v
	case 1:
		v = v<<8 | int(r.U8())
		if v < 1<<6 {
			r.Err = errShort
		}
	case 2:
		v = v<<24 | int(r.uint(3))
		if v < 1<<14 {
			r.Err = errShort
		}
	default:
		r.Err = errShort
	}
	return v
}
func (r *R) Vec() []byte {
	n := r.Varint()
	return append([]byte{}, r.take(n)...)
}
func (r *R) Each(f func(*R)) {
	s := &R{B: r.Vec(), Err: r.Err}
	for s.Err == nil && len(s.B) > 0 {
		f(s)
	}
	r.Err = s.Err
}
func (r *R) U16s() (v []uint16) {
	r.Each(func(r *R) { v = append(v, r.U16()) })
	return
}
func (r *R) Done() error {
	if r.Err == nil && len(r.B) > 0 {
		return errors.New("ref: trailing bytes")
	}
	return r.Err
}

type Ext struct {
	Type uint16
	Data []byte
}

func wExts(w *W, exts []Ext) {
	w.Sub(func(w *W) {
		for _, e := range exts {
			w.U16(e.Type).Vec(e.Data)
		}
	})
}
func rExts(r *R) (exts []Ext) {
	r.Each(func(r *R) { exts = append(exts, Ext{r.U16(), r.Vec()}) })
	return
}

const (
	SrcKeyPackage = 1
	SrcUpdate     = 2
	SrcCommit     = 3
)

type LeafNode struct {
	EncKey, SigKey                        []byte
	CredType                              uint16
	Identity                              []byte
	Certs                                 [][]byte
	Versions, Suites, CExts, Props, Creds []uint16
	Source                                uint8
	NotBefore, NotAfter                   uint64
	ParentHash                            []byte
	Exts                                  []Ext
	Sig                                   []byte
}

func (l *LeafNode) base(w *W) {
	w.Vec(l.EncKey).Vec(l.SigKey).U16(l.CredType)
	if l.CredType == 2 {
		w.Sub(func(w *W) {
			for _, c := range l.Certs {
				w.Vec(c)
			}
		})
	} else {
		w.Vec(l.Identity)
	}
	w.U16s(l.Versions).U16s(l.Suites).U16s(l.CExts).U16s(l.Props).U16s(l.Creds)
	w.U8(l.Source)
	switch l.Source {
	case SrcKeyPackage:
		w.U64(l.NotBefore).U64(l.NotAfter)
	case SrcCommit:
		w.Vec(l.ParentHash)
	}
	wExts(w, l.Exts)
}
func (l *LeafNode) Write(w *W) { l.base(w); w.Vec(l.Sig) }
func (l *LeafNode) Bytes() []byte {
	w := new(W)
	l.Write(w)
	return w.B
}
func ReadLeaf(r *R) *LeafNode {
	l := new(LeafNode)
	l.EncKey, l.SigKey, l.CredType = r.Vec(), r.Vec(), r.U16()
	switch l.CredType {
	case 1:
		l.Identity = r.Vec()
	case 2:
		r.Each(func(r *R) { l.Certs = append(l.Certs, r.Vec()) })
	default:
		r.Err = errShort
	}
	l.Versions, l.Suites, l.CExts, l.Props, l.Creds = r.U16s(), r.U16s(), r.U16s(), r.U16s(), r.U16s()
	l.Source = r.U8()
	switch l.Source {
	case SrcKeyPackage:
		l.NotBefore, l.NotAfter = r.U64(), r.U64()
	case SrcUpdate:
	case SrcCommit:
		l.ParentHash = r.Vec()
	default:
		r.Err = errShort
	}
	l.Exts = rExts(r)
	l.Sig = r.Vec()
	return l
}
func (l *LeafNode) TBS(gid []byte, leaf uint32) []byte {
	w := new(W)
	l.base(w)
	if l.Source == SrcUpdate || l.Source == SrcCommit {
		w.Vec(gid).U32(leaf)
	}
	return w.B
}
func (l *LeafNode) Sign(s *Suite, priv, gid []byte, leaf uint32) {
	l.Sig = s.Sign(priv, "LeafNodeTBS", l.TBS(gid, leaf))
}
func (l *LeafNode) VerifySig(s *Suite, gid []byte, leaf uint32) bool {
	return s.Verify(l.SigKey, "LeafNodeTBS", l.TBS(gid, leaf), l.Sig)
}
func (l *LeafNode) Clone() *LeafNode { c := *l; return &c }

type KeyPackage struct {
	Version, Suite uint16
	InitKey        []byte
	Leaf           *LeafNode
	Exts           []Ext
	Sig            []byte
}

func (k *KeyPackage) TBS() []byte {
	w := new(W)
	w.U16(k.Version).U16(k.Suite).Vec(k.InitKey)
	k.Leaf.Write(w)
	wExts(w, k.Exts)
	return w.B
}
func (k *KeyPackage) Bytes() []byte {
	w := &W{B: k.TBS()}
	return w.Vec(k.Sig).B
}
func (k *KeyPackage) Sign(s *Suite, priv []byte) { k.Sig = s.Sign(priv, "KeyPackageTBS", k.TBS()) }
func (k *KeyPackage) VerifySig(s *Suite) bool {
	return s.Verify(k.Leaf.SigKey, "KeyPackageTBS", k.TBS(), k.Sig)
}
func (k *KeyPackage) Ref(s *Suite) []byte {
	return s.RefHash("MLS 1.0 KeyPackage Reference", k.Bytes())
}
func ReadKeyPackage(r *R) *KeyPackage {
	k := new(KeyPackage)
	k.Version, k.Suite, k.InitKey = r.U16(), r.U16(), r.Vec()
	k.Leaf = ReadLeaf(r)
	k.Exts = rExts(r)
	k.Sig = r.Vec()
	return k
}
func (k *KeyPackage) Clone() *KeyPackage { c := *k; c.Leaf = k.Leaf.Clone(); return &c }

const (
	WFPublic     = 1
	WFPrivate    = 2
	WFWelcome    = 3
	WFGroupInfo  = 4
	WFKeyPackage = 5
)

// Msg wraps a body into an MLSMessage.
func Msg(wf uint16, body []byte) []byte {
	w := new(W)
	return w.U16(1).U16(wf).Raw(body).B
}

// Unmsg checks the MLSMessage header and returns the body.
func Unmsg(wf uint16, raw []byte) *R {
	r := &R{B: raw}
	if r.U16() != 1 || r.U16() != wf {
		r.Err = errShort
	}
	return r
}

func ParseKeyPackageMsg(raw []byte) (*KeyPackage, error) {
	r := Unmsg(WFKeyPackage, raw)
	k := ReadKeyPackage(r)
	return k, r.Done()
}

// Tree nodes.
type Parent struct {
	Key, Hash []byte
	Unmerged  []uint32
}
type Node struct {
	Leaf   *LeafNode
	Parent *Parent
}
type Tree []*Node

func (p *Parent) write(w *W) {
	w.Vec(p.Key).Vec(p.Hash).Sub(func(w *W) {
		for _, u := range p.Unmerged {
			w.U32(u)
		}
	})
}

func (n *Node) EncKey() []byte {
	if n.Leaf != nil {
		return n.Leaf.EncKey
	}
	return n.Parent.Key
}

func (t Tree) Bytes() []byte {
	end := len(t)
	for end > 0 && t[end-1] == nil {
		end--
	}
	w := new(W)
	w.Sub(func(w *W) {
		for _, n := range t[:end] {
			WriteOptNode(w, n)
		}
	})
	return w.B
}

func WriteOptNode(w *W, n *Node) {
	switch {
	case n == nil:
		w.U8(0)
	case n.Leaf != nil:
		w.U8(1).U8(1)
		n.Leaf.Write(w)
	default:
		w.U8(1).U8(2)
		n.Parent.write(w)
	}
}

func ParseTree(raw []byte) (Tree, error) {
	var t Tree
	r := &R{B: raw}
	r.Each(func(r *R) {
		if r.U8() == 0 {
			t = append(t, nil)
			return
		}
		switch r.U8() {
		case 1:
			t = append(t, &Node{Leaf: ReadLeaf(r)})
		case 2:
			p := &Parent{Key: r.Vec(), Hash: r.Vec()}
			r.Each(func(r *R) { p.Unmerged = append(p.Unmerged, r.U32()) })
			t = append(t, &Node{Parent: p})
		default:
			r.Err = errShort
		}
	})
	if err := r.Done(); err != nil {
		return nil, err
	}
	n := 1
	for n < len(t) {
		n = 2*n + 1
	}
	for len(t) < n {
		t = append(t, nil)
	}
	return t, nil
}

func (t Tree) Clone() Tree {
	c := make(Tree, len(t))
	for i, n := range t {
		if n == nil {
			continue
		}
		m := new(Node)
		if n.Leaf != nil {
			m.Leaf = n.Leaf.Clone()
		} else {
			p := *n.Parent
			p.Unmerged = append([]uint32{}, p.Unmerged...)
			m.Parent = &p
		}
		c[i] = m
	}
	return c
}

// levels and children by the midpoint rule: a node x at level l has children
// at distance 2^(l-1).
func Level(x int) int {
	l := 0
	for x&1 == 1 {
		x >>= 1
		l++
	}
	return l
}
func Children(x int) (int, int) {
	d := 1 << (Level(x) - 1)
	return x - d, x + d
}

// Hash is the tree hash of the subtree at x, as if the leaves in excl were
// not there.
func (t Tree) Hash(s *Suite, x int, excl map[uint32]bool) []byte {
	w := new(W)
	n := t[x]
	if x%2 == 0 {
		w.U8(1).U32(uint32(x / 2))
		if n == nil || excl[uint32(x/2)] {
			w.U8(0)
		} else {
			w.U8(1)
			n.Leaf.Write(w)
		}
		return s.Sum(w.B)
	}
	l, r := Children(x)
	lh, rh := t.Hash(s, l, excl), t.Hash(s, r, excl)
	w.U8(2)
	if n == nil {
		w.U8(0)
	} else {
		w.U8(1)
		p := *n.Parent
		p.Unmerged = nil
		for _, u := range n.Parent.Unmerged {
			if !excl[u] {
				p.Unmerged = append(p.Unmerged, u)
			}
		}
		p.write(w)
	}
	w.Vec(lh).Vec(rh)
	return s.Sum(w.B)
}
func (t Tree) RootHash(s *Suite) []byte { return t.Hash(s, len(t)/2, nil) }

func ParentHash(s *Suite, p *Parent, siblingHash []byte) []byte {
	w := new(W)
	w.Vec(p.Key).Vec(p.Hash).Vec(siblingHash)
	return s.Sum(w.B)
}

type GroupContext struct {
	Version, Suite      uint16
	GroupID             []byte
	Epoch               uint64
	TreeHash, Confirmed []byte
	Exts                []Ext
}

func (c *GroupContext) Bytes() []byte {
	w := new(W)
	w.U16(c.Version).U16(c.Suite).Vec(c.GroupID).U64(c.Epoch).Vec(c.TreeHash).Vec(c.Confirmed)
	wExts(w, c.Exts)
	return w.B
}
func readContext(r *R) *GroupContext {
	c := &GroupContext{Version: r.U16(), Suite: r.U16(), GroupID: r.Vec(), Epoch: r.U64(), TreeHash: r.Vec(), Confirmed: r.Vec()}
	c.Exts = rExts(r)
	return c
}

type HPKECiphertext struct{ KEM, CT []byte }

type PathNode struct {
	Key []byte
	Enc []HPKECiphertext
}
type UpdatePath struct {
	Leaf  *LeafNode
	Nodes []PathNode
}

func (p *UpdatePath) write(w *W) {
	p.Leaf.Write(w)
	w.Sub(func(w *W) {
		for _, n := range p.Nodes {
			w.Vec(n.Key).Sub(func(w *W) {
				for _, c := range n.Enc {
					w.Vec(c.KEM).Vec(c.CT)
				}
			})
		}
	})
}

const (
	PAdd     = 1
	PUpdate  = 2
	PRemove  = 3
	PPSK     = 4
	PReInit  = 5
	PExtInit = 6
	PGCE     = 7
)

// Proposal holds its type and encoded body.
type Proposal struct {
	Type uint16
	Body []byte
}

func AddProp(kp *KeyPackage) *Proposal    { return &Proposal{PAdd, kp.Bytes()} }
func UpdateProp(l *LeafNode) *Proposal    { return &Proposal{PUpdate, l.Bytes()} }
func RemoveProp(leaf uint32) *Proposal    { return &Proposal{PRemove, new(W).U32(leaf).B} }
func ExtInitProp(kemOut []byte) *Proposal { return &Proposal{PExtInit, new(W).Vec(kemOut).B} }
func PSKProp(id, nonce []byte) *Proposal  { return &Proposal{PPSK, new(W).U8(1).Vec(id).Vec(nonce).B} }
func GCEProp(exts []Ext) *Proposal        { w := new(W); wExts(w, exts); return &Proposal{PGCE, w.B} }
func ReInitProp(gid []byte, cs uint16) *Proposal {
	w := new(W)
	w.Vec(gid).U16(1).U16(cs)
	wExts(w, nil)
	return &Proposal{PReInit, w.B}
}
func (p *Proposal) Bytes() []byte { return new(W).U16(p.Type).Raw(p.Body).B }

func readProposal(r *R) *Proposal {
	p := &Proposal{Type: r.U16()}
	start := r.B
	switch p.Type {
	case PAdd:
		ReadKeyPackage(r)
	case PUpdate:
		ReadLeaf(r)
	case PRemove:
		r.U32()
	case PPSK:
		if r.U8() == 1 {
			r.Vec()
		} else {
			r.U8()
			r.Vec()
			r.U64()
		}
		r.Vec()
	case PReInit:
		r.Vec()
		r.U16()
		r.U16()
		rExts(r)
	case PExtInit:
		r.Vec()
	case PGCE:
		rExts(r)
	default:
		r.Err = errShort
	}
	p.Body = append([]byte{}, start[:len(start)-len(r.B)]...)
	return p
}

type PropOrRef struct {
	Prop *Proposal
	Ref  []byte
}
type Commit struct {
	Props []PropOrRef
	Path  *UpdatePath
	// PathRaw, when set, is written instead of Path.
	PathRaw []byte
}

func (c *Commit) Bytes() []byte {
	w := new(W)
	w.Sub(func(w *W) {
		for _, p := range c.Props {
			if p.Prop != nil {
				w.U8(1).Raw(p.Prop.Bytes())
			} else {
				w.U8(2).Vec(p.Ref)
			}
		}
	})
	switch {
	case c.PathRaw != nil:
		w.Raw(c.PathRaw)
	case c.Path != nil:
		w.U8(1)
		c.Path.write(w)
	default:
		w.U8(0)
	}
	return w.B
}
func readCommit(r *R) *Commit {
	c := new(Commit)
	r.Each(func(r *R) {
		switch r.U8() {
		case 1:
			c.Props = append(c.Props, PropOrRef{Prop: readProposal(r)})
		case 2:
			c.Props = append(c.Props, PropOrRef{Ref: r.Vec()})
		default:
			r.Err = errShort
		}
	})
	switch r.U8() {
	case 0:
	case 1:
		p := &UpdatePath{Leaf: ReadLeaf(r)}
		r.Each(func(r *R) {
			n := PathNode{Key: r.Vec()}
			r.Each(func(r *R) { n.Enc = append(n.Enc, HPKECiphertext{r.Vec(), r.Vec()}) })
			p.Nodes = append(p.Nodes, n)
		})
		c.Path = p
	default:
		r.Err = errShort
	}
	return c
}

const (
	CTApplication = 1
	CTProposal    = 2
	CTCommit      = 3
)

// Content is FramedContent.  Body is the encoded application data vector,
// proposal or commit.
type Content struct {
	GroupID    []byte
	Epoch      uint64
	SenderType uint8
	Leaf       uint32
	AuthData   []byte
	Type       uint8
	Body       []byte
}

func (c *Content) Bytes() []byte {
	w := new(W)
	w.Vec(c.GroupID).U64(c.Epoch).U8(c.SenderType)
	if c.SenderType == 1 || c.SenderType == 2 {
		w.U32(c.Leaf)
	}
	return w.Vec(c.AuthData).U8(c.Type).Raw(c.Body).B
}

func TBS(wf uint16, c *Content, ctx []byte) []byte {
	w := new(W)
	w.U16(1).U16(wf).Raw(c.Bytes())
	if c.SenderType == 1 || c.SenderType == 4 {
		w.Raw(ctx)
	}
	return w.B
}

func AppBody(data []byte) []byte { return new(W).Vec(data).B }

func Equal(a, b []byte) bool { return bytes.Equal(a, b) }
