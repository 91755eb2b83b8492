package ref

import (
	"encoding/json"
	"fmt"
)

// Grammar is the message grammar of the specification (module Wire).
type Grammar map[string]*gdef

type gdef struct {
	K  string            `json:"k"`
	N  int               `json:"n"`
	S  []int             `json:"s"`
	T  string            `json:"t"`
	F  [][2]string       `json:"f"`
	On string            `json:"on"`
	C  []json.RawMessage `json:"c"`
}

func (d *gdef) pick(v int) (string, bool) {
	for _, c := range d.C {
		var pair [2]json.RawMessage
		var n int
		var t string
		if json.Unmarshal(c, &pair) != nil || json.Unmarshal(pair[0], &n) != nil || json.Unmarshal(pair[1], &t) != nil {
			panic("malformed grammar")
		}
		if n == v {
			return t, true
		}
	}
	return "", false
}

// rewriter copies an encoding, changing it at one place.
type rewriter struct {
	g    Grammar
	in   []byte
	env  map[string]int
	at   int // place to change
	n    int // places seen
	how  string
	done bool

	strict bool // refuse what is not in the grammar
}

var errEnd = fmt.Errorf("not an encoding")

// Rewrite changes the encoding in (of type t) at place number at. The second
// result is false if there is no such place, or the change does not apply.
func (g Grammar) Rewrite(t string, in []byte, env map[string]int, at int, how string) ([]byte, bool) {
	r := &rewriter{g: g, in: in, env: map[string]int{}, at: at, how: how}
	for k, v := range env {
		r.env[k] = v
	}
	out, err := r.typ(t)
	if err != nil {
		panic(fmt.Sprintf("harness: %s: %v", t, err))
	}
	return append(out, r.in...), r.done
}

// IsA tells whether in is an encoding of t, perhaps followed by zeros.
func (g Grammar) IsA(t string, in []byte, env map[string]int) bool {
	r := &rewriter{g: g, in: in, env: map[string]int{}, at: -1, strict: true}
	for k, v := range env {
		r.env[k] = v
	}
	if _, err := r.typ(t); err != nil {
		return false
	}
	for _, b := range r.in {
		if b != 0 {
			return false
		}
	}
	return true
}

func (r *rewriter) take(n int) ([]byte, error) {
	if n > len(r.in) {
		return nil, errEnd
	}
	b := r.in[:n]
	r.in = r.in[n:]
	return b, nil
}

func (r *rewriter) length() (int, error) {
	rd := R{B: r.in}
	n := rd.Varint()
	if rd.Err != nil {
		return 0, rd.Err
	}
	r.in = rd.B
	return n, nil
}

func (r *rewriter) here() string {
	r.n++
	if r.n-1 == r.at {
		return r.how
	}
	return ""
}

func (r *rewriter) typ(t string) ([]byte, error) {
	d := r.g[t]
	if d == nil {
		return nil, fmt.Errorf("unknown type %q", t)
	}
	switch d.K {
	case "u":
		return r.take(d.N)
	case "enum":
		how := r.here()
		b, err := r.take(d.N)
		if r.strict && err == nil && len(d.S) > 0 {
			v, ok := 0, false
			for _, c := range b {
				v = v<<8 + int(c)
			}
			for _, x := range d.S {
				ok = ok || x == v
			}
			if !ok {
				return nil, errEnd
			}
		}
		if err == nil && (how == "zero" || how == "max") {
			r.done = true
			b = make([]byte, d.N)
			for i := range b {
				if how == "max" {
					b[i] = 255
				}
			}
		}
		return b, err
	case "op", "vec":
		how := r.here()
		n, err := r.length()
		if err != nil {
			return nil, err
		}
		b, err := r.take(n)
		if err != nil {
			return nil, err
		}
		var c []byte
		if d.K == "op" {
			c = append(c, b...)
		} else {
			rest := r.in
			r.in = b
			for len(r.in) > 0 {
				x, err := r.typ(d.T)
				if err != nil {
					return nil, err
				}
				c = append(c, x...)
			}
			r.in = rest
		}
		return append(r.prefix(how, &c, d.K == "vec"), c...), nil
	case "opt":
		how := r.here()
		b, err := r.take(1)
		if err != nil {
			return nil, err
		}
		if r.strict && b[0] > 1 {
			return nil, errEnd
		}
		out := []byte{b[0]}
		switch how {
		case "p2", "p255":
			r.done = true
			out[0] = 2
			if how == "p255" {
				out[0] = 255
			}
		}
		if b[0] == 1 {
			x, err := r.typ(d.T)
			if err != nil {
				return nil, err
			}
			out = append(out, x...)
		}
		return out, nil
	case "str":
		var out []byte
		for _, f := range d.F {
			before := r.in
			x, err := r.typ(f[1])
			if err != nil {
				return nil, err
			}
			if e := r.g[f[1]]; e.K == "enum" {
				v := 0
				for _, c := range before[:e.N] {
					v = v<<8 + int(c)
				}
				r.env[f[0]] = v
			}
			out = append(out, x...)
		}
		return out, nil
	case "sel":
		t, ok := d.pick(r.env[d.On])
		if !ok {
			return nil, fmt.Errorf("no case for %s = %d", d.On, r.env[d.On])
		}
		return r.typ(t)
	}
	return nil, fmt.Errorf("unknown kind %q", d.K)
}

// prefix is the length prefix of content c, possibly a wrong one.
func (r *rewriter) prefix(how string, c *[]byte, vec bool) []byte {
	n := len(*c)
	w := new(W)
	switch how {
	case "len2":
		if n < 64 {
			r.done = true
			return []byte{64, byte(n)}
		}
	case "len4":
		if n < 1<<14 {
			r.done = true
			return []byte{128, 0, byte(n >> 8), byte(n)}
		}
	case "len8":
		r.done = true
		return []byte{192, 0, 0, 0, 0, 0, byte(n >> 8), byte(n)}
	case "up":
		r.done = true
		n++
	case "down":
		if n > 0 {
			r.done = true
			n--
		}
	case "huge":
		r.done = true
		return []byte{191, 255, 255, 255}
	case "crumb":
		if vec {
			r.done = true
			*c = append(*c, 0)
			n++
		}
	}
	w.Varint(n)
	return w.B
}
