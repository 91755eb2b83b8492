package engine

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/harness/ref"
)

// WireCase is a byte string with the specification's verdict on it.
type WireCase struct {
	B  []int `json:"b"`
	KP int   `json:"kp"` // is a key package message
	We int   `json:"we"` // is a Welcome message
}

// noPlace is thrown when a message has no such place to deviate at.
type noPlace struct{}

// reenc re-encodes raw, deviating at the place dev[key] says.
func (w *World) reenc(dev Dev, key, typ string, raw []byte, env map[string]int) []byte {
	d := dev[key]
	if d == "" {
		return raw
	}
	var at int
	var how string
	if n, _ := fmt.Sscanf(d, "%d:%s", &at, &how); n != 2 || w.gram == nil {
		panic("harness: bad place " + d)
	}
	out, ok := w.gram.Rewrite(typ, raw, env, at, how)
	if !ok || w.gram.IsA(typ, out, env) { // by chance still an encoding, of something else
		panic(noPlace{})
	}
	return out
}

// wire gives byte strings to everything that reads them.
func (w *World) wire(st *Step) {
	cl := w.client(1)
	for i, c := range st.Cases {
		raw := make([]byte, len(c.B))
		for j, x := range c.B {
			raw[j] = byte(x)
		}
		w.stats.Add("wire-cases", 1)
		w.stats.Add(fmt.Sprintf("wire-kp%d-we%d", c.KP, c.We), 1)
		w.size = len(raw)
		w.wireCase(i, raw, c, cl)
		w.size = 0
		if len(w.out) > 0 {
			return
		}
	}
}

func (w *World) wireVerdict(i int, what string, raw []byte, want int, err error) bool {
	switch {
	case err == nil && want == 0:
		w.fatal("wire-wrongly-accepted", what, "case %d: %s accepted %x", i, what, raw)
	case err != nil && want == 1:
		w.fatal("wire-wrongly-refused", what, "case %d: %s refused %x: %v", i, what, raw, err)
	default:
		return true
	}
	return false
}

func (w *World) wireCase(i int, raw []byte, c WireCase, cl *client) {
	var k *mls.KeyPackage
	in := w.in(raw)
	err, pan := w.call("UnmarshalKeyPackage", func() (err error) { k, err = mls.UnmarshalKeyPackage(in); return })
	if pan || !w.wireVerdict(i, "UnmarshalKeyPackage", raw, c.KP, err) {
		return
	}
	if err == nil {
		var out, r, r2 []byte
		_, pan = w.call("KeyPackage.Bytes", func() error { out = k.Bytes(); return nil })
		if pan {
			return
		}
		if !bytes.Equal(out, raw) {
			w.fatal("wire-roundtrip", "key-package", "case %d: %x written back as %x", i, raw, out)
			return
		}
		err, pan = w.call("GenerateRef", func() (err error) { x, err := k.GenerateRef(); r = x; return })
		if pan {
			return
		}
		if s := ref.SuiteByID(uint16(raw[6])<<8 | uint16(raw[7])); s != nil {
			r2 = s.RefHash("MLS 1.0 KeyPackage Reference", raw[4:])
			if err != nil || !bytes.Equal(r, r2) {
				w.fatal("wire-ref", "", "case %d: reference of %x is %x (%v), want %x", i, raw, r, err, r2)
				return
			}
			w.stats.Add("wire-refs", 1)
		}
	}
	var wl *mls.Welcome
	in = w.in(raw)
	err, pan = w.call("UnmarshalWelcome", func() (err error) { wl, err = mls.UnmarshalWelcome(in); return })
	if pan || !w.wireVerdict(i, "UnmarshalWelcome", raw, c.We, err) {
		return
	}
	if err == nil {
		var out []byte
		var got, want []string
		_, pan = w.call("Welcome.Bytes", func() error { out = wl.Bytes(); return nil })
		if pan {
			return
		}
		if !bytes.Equal(out, raw) {
			w.fatal("wire-roundtrip", "welcome", "case %d: %x written back as %x", i, raw, out)
			return
		}
		_, pan = w.call("NewMembers", func() error {
			for _, r := range wl.NewMembers() {
				got = append(got, string(r))
			}
			return nil
		})
		if pan {
			return
		}
		x, perr := ref.ParseWelcomeMsg(raw)
		if perr != nil {
			panic(perr)
		}
		for _, e := range x.Entries {
			want = append(want, string(e.Ref))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.fatal("new-members", "wire", "case %d: NewMembers of %x is %q", i, raw, got)
			return
		}
		_, err, pan = w.joinWith(cl, raw)
		if pan || !w.wireVerdict(i, "GroupFromWelcome", raw, 0, err) {
			return
		}
	}
	if cl.group != nil {
		w.size = 0
		_, err, pan = w.deliver(cl, raw)
		if !pan {
			w.wireVerdict(i, "UnmarshalAndProcessMessage", raw, 0, err)
		}
	}
}
