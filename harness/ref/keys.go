package ref

import "fmt"

// Secrets of one epoch.
type Secrets struct {
	S                                                   *Suite
	Epoch, Init, SenderData, Encryption, Confirm, Membr []byte

	reached map[string]*rung // how far each ratchet has been followed
}

// rung is a ratchet secret and its generation.
type rung struct {
	gen    uint32
	secret []byte
}

func (s *Suite) Joiner(prevInit, commitSecret []byte, ctx *GroupContext) []byte {
	return s.ExpandWithLabel(s.Extract(prevInit, commitSecret), "joiner", ctx.Bytes(), s.Nh)
}

func (s *Suite) WelcomeSecret(joiner []byte) []byte {
	return s.DeriveSecret(s.Extract(joiner, make([]byte, s.Nh)), "welcome")
}

func (s *Suite) EpochSecret(joiner []byte, ctx *GroupContext) []byte {
	return s.ExpandWithLabel(s.Extract(joiner, make([]byte, s.Nh)), "epoch", ctx.Bytes(), s.Nh)
}

func (s *Suite) Expanded(epoch []byte) *Secrets {
	return &Secrets{S: s, Epoch: epoch,
		Init:       s.DeriveSecret(epoch, "init"),
		SenderData: s.DeriveSecret(epoch, "sender data"),
		Encryption: s.DeriveSecret(epoch, "encryption"),
		Confirm:    s.DeriveSecret(epoch, "confirm"),
		Membr:      s.DeriveSecret(epoch, "membership"),
	}
}

func (s *Suite) ConfirmedHash(interim []byte, wf uint16, c *Content, sig []byte) []byte {
	w := new(W)
	w.Raw(interim).U16(wf).Raw(c.Bytes()).Vec(sig)
	return s.Sum(w.B)
}

func (s *Suite) InterimHash(confirmed, tag []byte) []byte {
	return s.Sum(new(W).Raw(confirmed).Vec(tag).B)
}

// leafSecret walks down the secret tree of the given number of leaves.
func (sec *Secrets) leafSecret(leaves int, leaf uint32) []byte {
	s := sec.S
	x := leaves - 1 // root of a complete tree with that many leaves
	secret := sec.Encryption
	for x != 2*int(leaf) {
		l, r := Children(x)
		side := "left"
		next := l
		if 2*int(leaf) > x {
			side, next = "right", r
		}
		secret = s.ExpandWithLabel(secret, "tree", []byte(side), s.Nh)
		x = next
	}
	return secret
}

// MessageKey returns key and nonce of a generation.
func (sec *Secrets) MessageKey(leaves int, leaf uint32, ctype uint8, gen uint32) (key, nonce []byte) {
	s := sec.S
	label := "handshake"
	if ctype == CTApplication {
		label = "application"
	}
	where := fmt.Sprint(label, leaf, "/", leaves)
	var r []byte
	g := uint32(0)
	if at := sec.reached[where]; at != nil && at.gen <= gen {
		g, r = at.gen, at.secret
	} else {
		r = s.ExpandWithLabel(sec.leafSecret(leaves, leaf), label, nil, s.Nh)
	}
	for ; g != gen; g++ {
		r = s.ExpandWithLabel(r, "secret", new(W).U32(g).B, s.Nh)
	}
	if sec.reached == nil {
		sec.reached = map[string]*rung{}
	}
	if at := sec.reached[where]; at == nil || at.gen < gen {
		sec.reached[where] = &rung{g, r}
	}
	ctx := new(W).U32(g).B
	return s.ExpandWithLabel(r, "key", ctx, s.Nk), s.ExpandWithLabel(r, "nonce", ctx, s.Nn)
}

func (sec *Secrets) senderDataKey(ct []byte) (key, nonce []byte) {
	s := sec.S
	sample := ct
	if len(sample) > s.Nh {
		sample = sample[:s.Nh]
	}
	return s.ExpandWithLabel(sec.SenderData, "key", sample, s.Nk), s.ExpandWithLabel(sec.SenderData, "nonce", sample, s.Nn)
}

type PrivateMessage struct {
	GroupID       []byte
	Epoch         uint64
	Type          uint8
	AuthData      []byte
	EncSenderData []byte
	Ciphertext    []byte
}

func (m *PrivateMessage) Bytes() []byte {
	w := new(W)
	return w.Vec(m.GroupID).U64(m.Epoch).U8(m.Type).Vec(m.AuthData).Vec(m.EncSenderData).Vec(m.Ciphertext).B
}

func ParsePrivate(raw []byte) (*PrivateMessage, error) {
	r := Unmsg(WFPrivate, raw)
	m := &PrivateMessage{GroupID: r.Vec(), Epoch: r.U64(), Type: r.U8(), AuthData: r.Vec(), EncSenderData: r.Vec(), Ciphertext: r.Vec()}
	return m, r.Done()
}

func sdAAD(gid []byte, epoch uint64, t uint8) []byte {
	return new(W).Vec(gid).U64(epoch).U8(t).B
}
func contentAAD(gid []byte, epoch uint64, t uint8, ad []byte) []byte {
	return new(W).Vec(gid).U64(epoch).U8(t).Vec(ad).B
}

// Opened is a private message opened with the epoch's secrets.
type Opened struct {
	Leaf, Gen uint32
	Guard     []byte
	Content   Content
	Data      []byte // application data
	Commit    *Commit
	Prop      *Proposal
	Sig, Tag  []byte
	Padding   int
}

func (sec *Secrets) OpenSenderData(m *PrivateMessage) (leaf, gen uint32, guard []byte, err error) {
	key, nonce := sec.senderDataKey(m.Ciphertext)
	sd, err := sec.S.AEADOpen(key, nonce, m.EncSenderData, sdAAD(m.GroupID, m.Epoch, m.Type))
	if err != nil {
		return
	}
	r := &R{B: sd}
	leaf, gen, guard = r.U32(), r.U32(), append([]byte{}, r.take(4)...)
	return leaf, gen, guard, r.Done()
}

func (sec *Secrets) OpenPrivate(m *PrivateMessage, leaves int) (*Opened, error) {
	leaf, gen, guard, err := sec.OpenSenderData(m)
	if err != nil {
		return nil, err
	}
	if int(leaf) >= leaves || gen > 1<<18 {
		return nil, errShort
	}
	key, nonce := sec.MessageKey(leaves, leaf, m.Type, gen)
	for i := range guard {
		nonce[i] ^= guard[i]
	}
	pt, err := sec.S.AEADOpen(key, nonce, m.Ciphertext, contentAAD(m.GroupID, m.Epoch, m.Type, m.AuthData))
	if err != nil {
		return nil, err
	}
	o := &Opened{Leaf: leaf, Gen: gen, Guard: guard}
	r := &R{B: pt}
	switch m.Type {
	case CTApplication:
		o.Data = r.Vec()
	case CTProposal:
		o.Prop = readProposal(r)
	case CTCommit:
		o.Commit = readCommit(r)
	}
	o.Content = Content{GroupID: m.GroupID, Epoch: m.Epoch, SenderType: 1, Leaf: leaf, AuthData: m.AuthData, Type: m.Type,
		Body: append([]byte{}, pt[:len(pt)-len(r.B)]...)}
	o.Sig = r.Vec()
	if m.Type == CTCommit {
		o.Tag = r.Vec()
	}
	if r.Err != nil {
		return nil, r.Err
	}
	for _, b := range r.B {
		if b != 0 {
			return nil, errShort
		}
	}
	o.Padding = len(r.B)
	return o, nil
}

// PrivateOpts lets deviations be authored.
type PrivateOpts struct {
	Gen     uint32
	Padding int
	PadByte byte
	Guard   []byte
	// overrides, nil / -1 when unused
	SDLeaf   *uint32
	SDGen    *uint32
	KeyLeaf  *uint32
	OuterAD  []byte // authenticated data outside, if different
	HasOuter bool
	Type     uint8  // outer content type, if nonzero
	GroupID  []byte // outer group ID
	Epoch    *uint64
	SDRaw    []byte // raw sender data plaintext
	Raw      []byte // raw content plaintext instead of the framed one
	RatchetT uint8  // content type used to pick the ratchet
}

func (sec *Secrets) SealPrivate(leaves int, c *Content, sig, tag []byte, o PrivateOpts) *PrivateMessage {
	w := new(W)
	w.Raw(c.Body).Vec(sig)
	if c.Type == CTCommit {
		w.Vec(tag)
	}
	for i := 0; i < o.Padding; i++ {
		w.U8(0)
	}
	if o.Padding > 0 {
		w.B[len(w.B)-1-o.Padding/2] = o.PadByte
	}
	if o.Raw != nil {
		w.B = o.Raw
	}
	m := &PrivateMessage{GroupID: c.GroupID, Epoch: c.Epoch, Type: c.Type, AuthData: c.AuthData}
	if o.HasOuter {
		m.AuthData = o.OuterAD
	}
	if o.Type != 0 {
		m.Type = o.Type
	}
	if o.GroupID != nil {
		m.GroupID = o.GroupID
	}
	if o.Epoch != nil {
		m.Epoch = *o.Epoch
	}
	guard := o.Guard
	if guard == nil {
		guard = Random(4)
	}
	keyLeaf := c.Leaf
	if o.KeyLeaf != nil {
		keyLeaf = *o.KeyLeaf
	}
	rt := m.Type
	if o.RatchetT != 0 {
		rt = o.RatchetT
	}
	key, nonce := sec.MessageKey(leaves, keyLeaf, rt, o.Gen)
	for i := range guard {
		nonce[i] ^= guard[i]
	}
	m.Ciphertext = sec.S.AEADSeal(key, nonce, w.B, contentAAD(m.GroupID, m.Epoch, m.Type, m.AuthData))
	sdLeaf, sdGen := c.Leaf, o.Gen
	if o.SDLeaf != nil {
		sdLeaf = *o.SDLeaf
	}
	if o.SDGen != nil {
		sdGen = *o.SDGen
	}
	sd := new(W).U32(sdLeaf).U32(sdGen).Raw(guard).B
	if o.SDRaw != nil {
		sd = o.SDRaw
	}
	k, n := sec.senderDataKey(m.Ciphertext)
	m.EncSenderData = sec.S.AEADSeal(k, n, sd, sdAAD(m.GroupID, m.Epoch, m.Type))
	return m
}

// PublicBytes encodes a PublicMessage body.
func PublicBytes(c *Content, sig, tag, mtag []byte) []byte {
	w := new(W)
	w.Raw(c.Bytes()).Vec(sig)
	if c.Type == CTCommit {
		w.Vec(tag)
	}
	if c.SenderType == 1 {
		w.Vec(mtag)
	}
	return w.B
}

func (sec *Secrets) MembershipTag(c *Content, sig, tag, ctx []byte) []byte {
	w := new(W)
	w.Raw(TBS(WFPublic, c, ctx)).Vec(sig)
	if c.Type == CTCommit {
		w.Vec(tag)
	}
	return sec.S.MAC(sec.Membr, w.B)
}

// ProposalRef of an authenticated proposal.
func (s *Suite) ProposalRef(wf uint16, c *Content, sig []byte) []byte {
	return s.RefHash("MLS 1.0 Proposal Reference", new(W).U16(wf).Raw(c.Bytes()).Vec(sig).B)
}

// Welcome and group info.
type GroupInfo struct {
	Ctx    *GroupContext
	Exts   []Ext
	Tag    []byte
	Signer uint32
	Sig    []byte
}

func (g *GroupInfo) tbs() []byte {
	w := &W{B: g.Ctx.Bytes()}
	wExts(w, g.Exts)
	return w.Vec(g.Tag).U32(g.Signer).B
}
func (g *GroupInfo) Bytes() []byte { return (&W{B: g.tbs()}).Vec(g.Sig).B }
func (g *GroupInfo) Sign(s *Suite, priv []byte) {
	g.Sig = s.Sign(priv, "GroupInfoTBS", g.tbs())
}
func (g *GroupInfo) VerifySig(s *Suite, pub []byte) bool {
	return s.Verify(pub, "GroupInfoTBS", g.tbs(), g.Sig)
}
func ParseGroupInfo(raw []byte) (*GroupInfo, error) {
	r := &R{B: raw}
	g := &GroupInfo{Ctx: readContext(r)}
	g.Exts = rExts(r)
	g.Tag, g.Signer, g.Sig = r.Vec(), r.U32(), r.Vec()
	return g, r.Done()
}
func (g *GroupInfo) Ext(t uint16) []byte {
	for _, e := range g.Exts {
		if e.Type == t {
			return e.Data
		}
	}
	return nil
}

type GroupSecrets struct {
	Joiner, Path []byte
	HasPath      bool
	PSKs         [][]byte // encoded ids
}

func (g *GroupSecrets) Bytes() []byte {
	w := new(W)
	w.Vec(g.Joiner)
	if g.HasPath {
		w.U8(1).Vec(g.Path)
	} else {
		w.U8(0)
	}
	return w.Sub(func(w *W) {
		for _, p := range g.PSKs {
			w.Raw(p)
		}
	}).B
}
func ParseGroupSecrets(raw []byte) (*GroupSecrets, error) {
	r := &R{B: raw}
	g := &GroupSecrets{Joiner: r.Vec()}
	switch r.U8() {
	case 0:
	case 1:
		g.HasPath, g.Path = true, r.Vec()
	default:
		r.Err = errShort
	}
	if len(r.Vec()) > 0 {
		r.Err = errShort
	}
	return g, r.Done()
}

type WelcomeEntry struct {
	Ref []byte
	Enc HPKECiphertext
}
type Welcome struct {
	Suite   uint16
	Entries []WelcomeEntry
	Info    []byte
}

func (wl *Welcome) Bytes() []byte {
	w := new(W)
	w.U16(wl.Suite).Sub(func(w *W) {
		for _, e := range wl.Entries {
			w.Vec(e.Ref).Vec(e.Enc.KEM).Vec(e.Enc.CT)
		}
	})
	return w.Vec(wl.Info).B
}
func (wl *Welcome) Clone() *Welcome {
	c := *wl
	c.Entries = append([]WelcomeEntry{}, wl.Entries...)
	c.Info = append([]byte{}, wl.Info...)
	return &c
}
func ParseWelcomeMsg(raw []byte) (*Welcome, error) {
	r := Unmsg(WFWelcome, raw)
	wl := &Welcome{Suite: r.U16()}
	r.Each(func(r *R) {
		wl.Entries = append(wl.Entries, WelcomeEntry{r.Vec(), HPKECiphertext{r.Vec(), r.Vec()}})
	})
	wl.Info = r.Vec()
	return wl, r.Done()
}

func (s *Suite) welcomeKey(joiner []byte) (key, nonce []byte) {
	ws := s.WelcomeSecret(joiner)
	return s.ExpandWithLabel(ws, "key", nil, s.Nk), s.ExpandWithLabel(ws, "nonce", nil, s.Nn)
}
func (s *Suite) SealGroupInfo(joiner, info []byte) []byte {
	k, n := s.welcomeKey(joiner)
	return s.AEADSeal(k, n, info, nil)
}
func (s *Suite) OpenGroupInfo(joiner, ct []byte) ([]byte, error) {
	k, n := s.welcomeKey(joiner)
	return s.AEADOpen(k, n, ct, nil)
}
func (s *Suite) SealSecrets(initPub, encInfo []byte, gs *GroupSecrets) HPKECiphertext {
	k, c := s.Seal(initPub, "Welcome", encInfo, gs.Bytes())
	return HPKECiphertext{k, c}
}
func (s *Suite) OpenSecrets(initPriv, encInfo []byte, e HPKECiphertext) (*GroupSecrets, error) {
	b, err := s.Open(initPriv, "Welcome", encInfo, e.KEM, e.CT)
	if err != nil {
		return nil, err
	}
	return ParseGroupSecrets(b)
}
