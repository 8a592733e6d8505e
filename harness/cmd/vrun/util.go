package main

import (
	"bytes"
	"sync"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func pv(v byte) mqttp.ProtocolVersion { return mqttp.ProtocolVersion(v) }

// build or fail
func (t *T) build(p *ref.Pkt) mqttp.IFace {
	m, err := adapt.Build(t.R, p)
	if err != nil {
		t.Fatalf("building a conforming %s v%d through the API failed: %v", ref.TypeName[p.T], p.V, err)
	}
	return m
}

// encode into an exactly sized zeroed buffer or fail
func (t *T) encode(m mqttp.IFace) []byte {
	if t.R.Bool() {
		b, err := sizeless(m)
		if err != nil {
			t.Fatalf("Encode of %s v%d without asking for the size: %v", m.Type().Name(), m.Version(), err)
		}
		if n, err := m.Size(); err != nil || n != len(b) {
			t.Fatalf("%s v%d: Encode wrote %d, Size says %d (%v) afterwards", m.Type().Name(), m.Version(), len(b), n, err)
		}
		t.Input(b)
		return b
	}
	n, err := m.Size()
	if err != nil {
		t.Fatalf("Size of %s v%d: %v", m.Type().Name(), m.Version(), err)
	}
	b := make([]byte, n)
	k, err := m.Encode(b)
	if err != nil {
		t.Fatalf("Encode of %s v%d: %v", m.Type().Name(), m.Version(), err)
	}
	if k != n {
		t.Fatalf("%s v%d: Size says %d, Encode wrote %d", m.Type().Name(), m.Version(), n, k)
	}
	t.Input(b)
	return b
}

var scratch = sync.Pool{New: func() interface{} {
	b := bytes.Repeat([]byte{0xD5}, 70000)
	return &b
}}

// sizeless encodes into a used buffer that is large enough for nearly everything,
// without asking for the size first
func sizeless(m mqttp.IFace) ([]byte, error) {
	buf := scratch.Get().(*[]byte)
	defer scratch.Put(buf)
	k, err := m.Encode(*buf)
	if err == mqttp.ErrInsufficientBufferSize {
		b := make([]byte, k)
		k, err = m.Encode(b)
		return b[:min(k, len(b))], err
	}
	if err != nil {
		return nil, err
	}
	return append([]byte(nil), (*buf)[:k]...), nil
}

// decode with the totality contract checked
func (t *T) decode(v byte, b []byte) (mqttp.IFace, int, error) {
	t.Input(b)
	m, n, err := mqttp.Decode(pv(v), b)
	if (m == nil) == (err == nil) {
		t.Fatalf("Decode(v%d) returned message %v with error %v", v, m, err)
	}
	return m, n, err
}

// layout gives a copy of b in one of the shapes a receive buffer has: without a
// spare byte, or followed by bytes that are not part of the input
func (t *T) layout(b []byte) []byte {
	n := len(b)
	var tail []byte
	switch t.R.N(4) {
	case 0:
		x := make([]byte, n)
		copy(x, b)
		return x[:n:n]
	case 1:
		tail = make([]byte, 64)
	case 2:
		tail = b
		if n > 4096 {
			tail = b[n-4096:]
		}
	case 3:
		tail = t.R.Bytes(1 + t.R.N(80))
	}
	x := make([]byte, 0, n+len(tail))
	x = append(append(x, b...), tail...)
	return x[:n]
}

func (t *T) extract(m mqttp.IFace) *ref.Pkt {
	p, err := adapt.Extract(m)
	if err != nil {
		t.Fatalf("reading %s v%d: %v", m.Type().Name(), m.Version(), err)
	}
	return p
}

// refAccept demands that the reference decoder accepts b with content w
func (t *T) refAccept(w *ref.Pkt, b []byte) {
	r := ref.Decode(w.V, b)
	if r.Verdict == ref.Reject {
		t.Fatalf("emitted %s v%d is not a well-formed packet: %s", ref.TypeName[w.T], w.V, r.Class)
	}
	if d := ref.Diff(w, r.Pkt); d != "" {
		t.Fatalf("emitted %s v%d differs from what was set: %s", ref.TypeName[w.T], w.V, d)
	}
}

func (t *T) same(what string, w, g *ref.Pkt) {
	if d := ref.Diff(adapt.Norm(w), g); d != "" {
		t.Fatalf("%s of %s v%d: %s", what, ref.TypeName[w.T], w.V, d)
	}
}

func (t *T) tag(p *ref.Pkt) { t.Count(ref.TypeName[p.T] + ".v" + string('0'+p.V)) }

// firsts are the legal first bytes under v
func firsts(v byte) []byte {
	var r []byte
	for _, ty := range gen.TypesFor(v) {
		if ty == ref.PUBLISH {
			for f := byte(0); f < 16; f++ {
				r = append(r, ty<<4|f)
			}
			continue
		}
		r = append(r, ty<<4|ref.Flags(ty))
	}
	return r
}

var tokens = []byte{0, 1, 2, 3, 4, 5, 0x0b, 0x11, 0x1f, 0x21, 0x23, 0x26, 0x80, 0x81, 0x82, 0x92, 0xff, '+', '#', '/', 'a', 0xc2}

// shortPackets calls f for complete packets with short bodies: every body of up
// to two bytes behind every legal first byte, every body of up to one byte
// behind every first byte, and bodies of length 3..maxTok over a token alphabet.
func (c *C) shortPackets(section string, maxTok int, f func(t *T, v byte, b []byte)) {
	type job struct {
		v, first byte
		legal    bool
	}
	var jobs []job
	for v := byte(3); v <= 5; v++ {
		l := firsts(v)
		for x := 0; x < 256; x++ {
			jobs = append(jobs, job{v, byte(x), bytes.IndexByte(l, byte(x)) >= 0})
		}
	}
	c.Each(section, len(jobs), func(t *T) {
		j := jobs[t.I]
		f(t, j.v, []byte{j.first, 0})
		for x := 0; x < 256; x++ {
			f(t, j.v, []byte{j.first, 1, byte(x)})
		}
		if !j.legal {
			return
		}
		step := 1
		if c.Smoke {
			step = 7
		}
		for x := 0; x < 65536; x += step {
			f(t, j.v, []byte{j.first, 2, byte(x >> 8), byte(x)})
		}
		t.Step()
		for n := 3; n <= maxTok; n++ {
			b := make([]byte, 2+n)
			idx := make([]int, n)
			for {
				b[0], b[1] = j.first, byte(n)
				for k := range idx {
					b[2+k] = tokens[idx[k]]
				}
				f(t, j.v, b)
				k := 0
				for ; k < n; k++ {
					if idx[k]++; idx[k] < len(tokens) {
						break
					}
					idx[k] = 0
				}
				if k == n {
					break
				}
			}
			t.Step()
		}
	})
	c.Exhausted("packets of versions 3-5: all bodies of 0-1 bytes behind all first bytes, all bodies of 2 bytes behind legal first bytes, token-alphabet bodies beyond")
}

// hostile makes an arbitrary input: a conforming packet, a mutation of one, or noise
func hostile(r *gen.R) (v byte, b []byte) {
	switch r.N(10) {
	case 0:
		b = r.Bytes(r.N(40))
		v = byte(3 + r.N(3))
		if len(b) > 2 && r.Bool() {
			l := firsts(v)
			b[0] = l[r.N(len(l))]
			b = gen.Refit(b)
		}
		return v, b
	case 1, 2:
		p := r.Any()
		return p.V, p.Encode(ref.Form(r.N(3)))
	}
	p := r.Any()
	b = r.Mutate(p.Encode(ref.Form(r.N(3))))
	v = p.V
	if r.P(1, 6) {
		v = byte(3 + r.N(3))
	}
	return v, b
}

func pairs(n int, v, k string) []mqttp.StringPair {
	r := make([]mqttp.StringPair, n)
	for i := range r {
		r[i] = mqttp.StringPair{K: k, V: v}
	}
	return r
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
