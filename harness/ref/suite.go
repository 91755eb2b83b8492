// Package ref is an independent implementation of the parts of RFC 9420 that
// the checks need to play peers of the library under test and to open what it
// sends.  It shares no code with it; only primitive cryptography is common.
package ref

import (
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"fmt"
	"math/big"

	"github.com/cloudflare/circl/hpke"
	"github.com/cloudflare/circl/kem"
	"github.com/cloudflare/circl/sign/ed448"
)

type Suite struct {
	ID         uint16
	Hash       crypto.Hash
	KEM        hpke.KEM
	KDF        hpke.KDF
	AEAD       hpke.AEAD
	Nh, Nk, Nn int
	sig        string
}

var suites = map[uint16]*Suite{
	1: {1, crypto.SHA256, hpke.KEM_X25519_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_AES128GCM, 32, 16, 12, "ed25519"},
	2: {2, crypto.SHA256, hpke.KEM_P256_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_AES128GCM, 32, 16, 12, "p256"},
	3: {3, crypto.SHA256, hpke.KEM_X25519_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_ChaCha20Poly1305, 32, 32, 12, "ed25519"},
	4: {4, crypto.SHA512, hpke.KEM_X448_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_AES256GCM, 64, 32, 12, "ed448"},
	5: {5, crypto.SHA512, hpke.KEM_P521_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_AES256GCM, 64, 32, 12, "p521"},
	6: {6, crypto.SHA512, hpke.KEM_X448_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_ChaCha20Poly1305, 64, 32, 12, "ed448"},
	7: {7, crypto.SHA384, hpke.KEM_P384_HKDF_SHA384, hpke.KDF_HKDF_SHA384, hpke.AEAD_AES256GCM, 48, 32, 12, "p384"},
}

func SuiteByID(id uint16) *Suite { return suites[id] }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (s *Suite) Sum(b []byte) []byte {
	h := s.Hash.New()
	h.Write(b)
	return h.Sum(nil)
}

func (s *Suite) MAC(key, msg []byte) []byte {
	m := hmac.New(s.Hash.New, key)
	m.Write(msg)
	return m.Sum(nil)
}

// hkdf written out here rather than taken from the library's dependency
func (s *Suite) Extract(salt, ikm []byte) []byte { return s.MAC(salt, ikm) }

func (s *Suite) Expand(prk, info []byte, n int) []byte {
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		in := append(append(append([]byte{}, t...), info...), i)
		t = s.MAC(prk, in)
		out = append(out, t...)
	}
	return out[:n]
}

func (s *Suite) ExpandWithLabel(secret []byte, label string, ctx []byte, n int) []byte {
	w := new(W)
	w.U16(uint16(n)).Vec([]byte("MLS 1.0 " + label)).Vec(ctx)
	return s.Expand(secret, w.B, n)
}

func (s *Suite) DeriveSecret(secret []byte, label string) []byte {
	return s.ExpandWithLabel(secret, label, nil, s.Nh)
}

func (s *Suite) RefHash(label string, value []byte) []byte {
	w := new(W)
	w.Vec([]byte(label)).Vec(value)
	return s.Sum(w.B)
}

func labelled(label string, content []byte) []byte {
	w := new(W)
	w.Vec([]byte("MLS 1.0 " + label)).Vec(content)
	return w.B
}

func (s *Suite) curve() elliptic.Curve {
	switch s.sig {
	case "p256":
		return elliptic.P256()
	case "p384":
		return elliptic.P384()
	case "p521":
		return elliptic.P521()
	}
	return nil
}

func (s *Suite) sigHash(b []byte) []byte { return s.Sum(b) }

func (s *Suite) GenSig() (pub, priv []byte) {
	switch s.sig {
	case "ed25519":
		p, q, err := ed25519.GenerateKey(rand.Reader)
		must(err)
		return p, q.Seed()
	case "ed448":
		p, q, err := ed448.GenerateKey(rand.Reader)
		must(err)
		return p, q.Seed()
	}
	k, err := ecdsa.GenerateKey(s.curve(), rand.Reader)
	must(err)
	return elliptic.Marshal(s.curve(), k.X, k.Y), k.D.FillBytes(make([]byte, (s.curve().Params().BitSize+7)/8))
}

// SigPub computes the public key of a signature private key.
func (s *Suite) SigPub(priv []byte) []byte {
	switch s.sig {
	case "ed25519":
		return ed25519.NewKeyFromSeed(priv).Public().(ed25519.PublicKey)
	case "ed448":
		return ed448.NewKeyFromSeed(priv).Public().(ed448.PublicKey)
	}
	x, y := s.curve().ScalarBaseMult(priv)
	return elliptic.Marshal(s.curve(), x, y)
}

func (s *Suite) Sign(priv []byte, label string, content []byte) []byte {
	msg := labelled(label, content)
	switch s.sig {
	case "ed25519":
		return ed25519.Sign(ed25519.NewKeyFromSeed(priv), msg)
	case "ed448":
		return ed448.Sign(ed448.NewKeyFromSeed(priv), msg, "")
	}
	x, y := s.curve().ScalarBaseMult(priv)
	k := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: s.curve(), X: x, Y: y}, D: new(big.Int).SetBytes(priv)}
	sig, err := ecdsa.SignASN1(rand.Reader, k, s.sigHash(msg))
	must(err)
	return sig
}

func (s *Suite) Verify(pub []byte, label string, content, sig []byte) bool {
	msg := labelled(label, content)
	switch s.sig {
	case "ed25519":
		return len(pub) == ed25519.PublicKeySize && ed25519.Verify(pub, msg, sig)
	case "ed448":
		return len(pub) == ed448.PublicKeySize && ed448.Verify(pub, msg, sig, "")
	}
	x, y := elliptic.Unmarshal(s.curve(), pub)
	if x == nil {
		return false
	}
	return ecdsa.VerifyASN1(&ecdsa.PublicKey{Curve: s.curve(), X: x, Y: y}, s.sigHash(msg), sig)
}

func (s *Suite) suite() hpke.Suite { return hpke.NewSuite(s.KEM, s.KDF, s.AEAD) }

func rawPair(pub kem.PublicKey, priv kem.PrivateKey) (p, q []byte) {
	p, err := pub.MarshalBinary()
	must(err)
	q, err = priv.MarshalBinary()
	must(err)
	return p, q
}

func (s *Suite) GenHPKE() (pub, priv []byte) {
	p, q, err := s.KEM.Scheme().GenerateKeyPair()
	must(err)
	return rawPair(p, q)
}

// DeriveHPKE is DeriveKeyPair of RFC 9180 applied to a node secret.
func (s *Suite) DeriveHPKE(secret []byte) (pub, priv []byte) {
	if s.KEM.Scheme().SeedSize() != len(secret) {
		// unsupported suites: any key will do
		return s.GenHPKE()
	}
	p, q := s.KEM.Scheme().DeriveKeyPair(secret)
	return rawPair(p, q)
}

// HPKEPub computes the public key of an HPKE private key.
func (s *Suite) HPKEPub(priv []byte) (pub []byte, err error) {
	q, err := s.KEM.Scheme().UnmarshalBinaryPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	return q.Public().MarshalBinary()
}

func (s *Suite) Seal(pub []byte, label string, ctx, pt []byte) (kemOut, ct []byte) {
	k, err := s.KEM.Scheme().UnmarshalBinaryPublicKey(pub)
	if err != nil { // nobody can decrypt it
		return Random(32), Random(len(pt) + 16)
	}
	snd, err := s.suite().NewSender(k, labelled(label, ctx))
	must(err)
	kemOut, sealer, err := snd.Setup(rand.Reader)
	if err != nil {
		return Random(32), Random(len(pt) + 16)
	}
	ct, err = sealer.Seal(pt, nil)
	must(err)
	return kemOut, ct
}

func (s *Suite) Open(priv []byte, label string, ctx, kemOut, ct []byte) ([]byte, error) {
	k, err := s.KEM.Scheme().UnmarshalBinaryPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	rcv, err := s.suite().NewReceiver(k, labelled(label, ctx))
	if err != nil {
		return nil, err
	}
	o, err := rcv.Setup(kemOut)
	if err != nil {
		return nil, err
	}
	return o.Open(ct, nil)
}

func (s *Suite) AEADSeal(key, nonce, pt, aad []byte) []byte {
	c, err := s.AEAD.New(key)
	must(err)
	return c.Seal(nil, nonce, pt, aad)
}

func (s *Suite) AEADOpen(key, nonce, ct, aad []byte) ([]byte, error) {
	c, err := s.AEAD.New(key)
	if err != nil {
		return nil, err
	}
	return c.Open(nil, nonce, ct, aad)
}

func Random(n int) []byte {
	b := make([]byte, n)
	_, err := rand.Read(b)
	must(err)
	return b
}

var _ = ecdh.X25519
var _ = fmt.Sprintf
