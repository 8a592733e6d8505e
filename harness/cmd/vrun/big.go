package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/gen"
	"verif/ref"
)

// Conforming packets of a megabyte and more, up to the largest MQTT allows, along each dimension a
// packet can be long in. (The random generators stop at some ten thousand bytes.)

type bigShape struct {
	name string
	max  int // largest size in the quick tier
	make func(r *gen.R, n int) *ref.Pkt
}

const maxBody = 268435455

func noise(r *gen.R, n int) string {
	b := r.Bytes(min(n, 65521)) // a prime, so that no power of two is a period
	var s strings.Builder
	s.Grow(n)
	for s.Len() < n {
		s.Write(b[:min(len(b), n-s.Len())])
	}
	return s.String()
}

func bigPairs(r *gen.R, n int) []ref.Prop {
	var ps []ref.Prop
	for left := n; left > 5; {
		k := min(left-5, 60000+60000)
		a := k / 2
		ps = append(ps, ref.Prop{ID: 0x26, K: fmt.Sprintf("%06d", len(ps)) + strings.Repeat("k", max(a-6, 0)), S: strings.Repeat(string(rune('a'+len(ps)%26)), k-a)})
		left -= k + 5
	}
	return ps
}

func bigSubs(r *gen.R, n int) []ref.Sub {
	var l []ref.Sub
	for left := n; left > 0; {
		k := 1 + r.N(60000)
		s := fmt.Sprintf("%d/", len(l)) + strings.Repeat("l/", k/2) + "#"
		l = append(l, ref.Sub{F: s, Ops: byte(len(l) % 3)})
		left -= len(s) + 3
	}
	return l
}

var bigShapes = []bigShape{
	{"payload", maxBody, func(r *gen.R, n int) *ref.Pkt {
		p := &ref.Pkt{V: byte(3 + r.N(3)), T: ref.PUBLISH, Topic: "big/" + strings.Repeat("t", r.N(100)), QoS: byte(r.N(3)), Retain: r.Bool()}
		if p.QoS > 0 {
			p.HasID, p.ID, p.Dup = true, uint16(1+r.N(65535)), r.Bool()
		}
		if p.V == 5 {
			p.Props = []ref.Prop{{ID: 0x26, K: "a", S: "b"}, {ID: 0x03, S: "text"}}
		}
		p.Payload = noise(r, n-len(p.Body(ref.Full)))
		return p
	}},
	{"user properties", 1 << 25, func(r *gen.R, n int) *ref.Pkt {
		t := []byte{ref.PUBLISH, ref.CONNACK, ref.PUBACK, ref.SUBACK, ref.DISCONNECT, ref.SUBSCRIBE}[r.N(6)]
		p := &ref.Pkt{V: 5, T: t}
		switch t {
		case ref.PUBLISH:
			p.Topic, p.Payload = "t", "p"
		case ref.PUBACK:
			p.HasID, p.ID = true, 7
		case ref.SUBACK:
			p.HasID, p.ID, p.Codes = true, 7, []byte{1}
		case ref.SUBSCRIBE:
			p.HasID, p.ID, p.Subs = true, 7, []ref.Sub{{F: "a", Ops: 1}}
		}
		p.Props = bigPairs(r, n-len(p.Body(ref.Full))-3)
		return p
	}},
	{"will properties", 1 << 23, func(r *gen.R, n int) *ref.Pkt {
		return &ref.Pkt{V: 5, T: ref.CONNECT, Clean: true, ClientID: "c", HasUser: true, User: "u",
			Will: &ref.Will{Topic: "w", Payload: "p", QoS: 1, Props: bigPairs(r, n-60)}}
	}},
	{"filters", 1 << 22, func(r *gen.R, n int) *ref.Pkt {
		v := byte(3 + r.N(3))
		return &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 9, Subs: bigSubs(r, n-70000)}
	}},
	{"filters taken back", 1 << 22, func(r *gen.R, n int) *ref.Pkt {
		v := byte(3 + r.N(3))
		p := &ref.Pkt{V: v, T: ref.UNSUBSCRIBE, HasID: true, ID: 9, Subs: bigSubs(r, n-70000)}
		for i := range p.Subs {
			p.Subs[i].Ops = 0
		}
		return p
	}},
	{"short user properties", 1 << 20, func(r *gen.R, n int) *ref.Pkt {
		p := &ref.Pkt{V: 5, T: []byte{ref.PUBLISH, ref.CONNACK, ref.DISCONNECT}[r.N(3)]}
		if p.T == ref.PUBLISH {
			p.Topic = "t"
		}
		for left := n - 20; left > 5; left -= 5 + len(p.Props[len(p.Props)-1].K) {
			p.Props = append(p.Props, ref.Prop{ID: 0x26, K: fmt.Sprintf("%x", len(p.Props))})
		}
		return p
	}},
	{"subscription identifiers", 1 << 20, func(r *gen.R, n int) *ref.Pkt {
		p := &ref.Pkt{V: 5, T: ref.PUBLISH, Topic: "t", Payload: "p"}
		for left := n - 20; left > 5; left -= 1 + len(ref.VarInt(p.Props[len(p.Props)-1].U)) {
			p.Props = append(p.Props, ref.Prop{ID: 0x0b, U: r.VarInt()})
		}
		return p
	}},
	// some 80,000: building the list may take the square of its length
	{"short filters", 1 << 20, func(r *gen.R, n int) *ref.Pkt {
		p := &ref.Pkt{V: byte(3 + r.N(3)), T: ref.SUBSCRIBE, HasID: true, ID: 9}
		for left := min(n, 640000); left > 10; left -= 3 + len(p.Subs[len(p.Subs)-1].F) {
			p.Subs = append(p.Subs, ref.Sub{F: fmt.Sprintf("%x", len(p.Subs)), Ops: byte(r.N(3))})
		}
		return p
	}},
	{"codes", 1 << 22, func(r *gen.R, n int) *ref.Pkt {
		p := &ref.Pkt{V: byte(3 + r.N(3)), T: ref.SUBACK, HasID: true, ID: 9}
		if r.Bool() {
			p.V, p.T = 5, ref.UNSUBACK
		}
		p.Codes = make([]byte, n-10)
		for i := range p.Codes {
			p.Codes[i] = []byte{0, 1, 2, 0x80}[uint32(i)*2654435761>>30]
			if p.T == ref.UNSUBACK {
				p.Codes[i] = []byte{0, 0x11, 0x80, 0x87}[uint32(i)*2654435761>>30]
			} else if p.V == 3 {
				p.Codes[i] &= 3
			}
		}
		return p
	}},
}

// big runs f on big packets; top is the largest size wanted
func (c *C) big(top int, f func(t *T, p *ref.Pkt)) { c.bigOf(bigShapes, top, f) }

func (c *C) bigOf(shapes []bigShape, top int, f func(t *T, p *ref.Pkt)) {
	type job struct {
		s bigShape
		n int
	}
	if bits.UintSize == 32 {
		top = min(top, 1<<23)
	} else if c.Smoke {
		top = min(top, 1<<25)
	}
	var jobs []job
	for _, s := range shapes {
		lim := min(top, s.max)
		if c.Thorough {
			lim = min(top, s.max*2)
		}
		for _, n := range []int{1 << 20, 1<<21 - 1, 1 << 21, 1<<21 + 300, 1<<22 - 1, 1<<23 + 1, 1 << 24, 1 << 25, 1<<26 - 1, 1<<27 + 1, maxBody} {
			if n <= lim {
				jobs = append(jobs, job{s, n})
			}
		}
	}
	c.EachN("big", len(jobs), 2, func(t *T) {
		j := jobs[t.I]
		p := j.s.make(t.R, j.n)
		f(t, p)
		t.Count("packets of a megabyte and more: " + j.s.name)
		if j.n == maxBody {
			t.Count("packets of the largest size there is")
		}
		t.Distinct("big", j.s.name, j.n)
	})
}

// framed cuts a big packet and appends to it
func (t *T) framed(p *ref.Pkt) {
	b := p.Encode(ref.Full)
	m, n, err := t.decode(p.V, b)
	if err != nil || n != len(b) {
		t.Fatalf("complete %s v%d of %d bytes: total %d, %v", ref.TypeName[p.T], p.V, len(b), n, err)
	}
	if rl := m.(lengther).RemainingLength(); int(rl) != len(p.Body(ref.Full)) {
		t.Fatalf("packet of %d bytes: RemainingLength %d", len(b), rl)
	}
	for _, k := range []int{5, len(b) / 2, len(b) - 1, 1 + t.R.N(len(b)-1)} {
		_, n, err := t.decode(p.V, b[:k])
		if err != mqttp.ErrInsufficientDataSize || k >= 5 && n != len(b) {
			t.Fatalf("%d of %d bytes: total %d, %v", k, len(b), n, err)
		}
		t.Eval()
	}
	if m, _, err := t.decode(p.V, append(b, 0)); err == nil || err == mqttp.ErrInsufficientDataSize {
		t.Fatalf("%d bytes and a further one: %v, %v", len(b), m, err)
	}
	t.Eval()
}

// bigCopies: a big PUBLISH and its clones own what they hold
func (c *C) bigCopies(top int) {
	shapes := append(bigShapes[:2:2], bigShapes[5])
	c.bigOf(shapes, top, func(t *T, p *ref.Pkt) {
		if p.T != ref.PUBLISH {
			p = &ref.Pkt{V: 5, T: ref.PUBLISH, Topic: "t", Props: p.Props}
		}
		b := p.Encode(ref.Full)
		x, _, err := t.decode(p.V, b)
		if err != nil {
			t.Fatalf("conforming PUBLISH of %d bytes: %v", len(b), err)
		}
		m := x.(*mqttp.Publish)
		q, err := m.Clone(pv(p.V))
		if err != nil {
			t.Fatalf("Clone: %v", err)
		}
		for i := range b {
			b[i] ^= 0x5a
		}
		t.same("content after the receive buffer was overwritten", p, t.extract(m))
		w := *p
		w.HasID, w.ID, w.Dup = false, 0, false
		q.SetPacketID(3)
		g := t.extract(q)
		g.HasID, g.ID = false, 0
		t.same("content of the clone", &w, g)
		q.SetPayload([]byte("other"))
		if !bytes.Equal(m.Payload(), []byte(p.Payload)) {
			t.Fatalf("payload of the original follows the clone")
		}
		t.Eval()
	})
}

// bigFaults: one fault, mostly far into a packet of a megabyte and more
func bigFaults(c *C) {
	c.bigOf(bigShapes[1:], 1<<21, func(t *T, p *ref.Pkt) {
		for k := 0; k < 4; k++ {
			q := p.Clone()
			at := func(n int) int {
				switch t.R.N(3) {
				case 0:
					return n - 1
				case 1:
					return n - 1 - t.R.N((n+1)/2)
				}
				return t.R.N(n)
			}
			what := ""
			prop := func(ps []ref.Prop) {
				i := at(len(ps))
				if ps[i].ID == 0x0b {
					ps[i].U = 0
				} else if t.R.Bool() {
					ps[i].K += "\x00"
				} else {
					ps[i].S = "\xc0\xaf"
				}
				what = fmt.Sprintf("property %d of %d", i, len(ps))
			}
			switch {
			case q.Will != nil:
				prop(q.Will.Props)
			case len(q.Subs) > 1:
				i := at(len(q.Subs))
				if q.T == ref.SUBSCRIBE && t.R.Bool() {
					q.Subs[i].Ops = t.R.Pick([]byte{3, 0x40, 0x80, 0xff})
				} else {
					f := q.Subs[i].F
					q.Subs[i].F = []string{"", "a#", "+b", "\xff", "x\x00", "#/a"}[t.R.N(6)]
					switch t.R.N(4) { // and behind much else
					case 0, 1:
						q.Subs[i].F = f[:len(f)-1] + "x" + q.Subs[i].F
						if q.Subs[i].F == f[:len(f)-1]+"x" {
							q.Subs[i].F = f + "#"
						}
					case 2:
						q.Subs[i].F = []string{"$share//", "$share/+/", "$share/#/"}[t.R.N(3)] + f
					}
				}
				what = fmt.Sprintf("filter %d of %d", i, len(q.Subs))
			case len(q.Codes) > 1:
				i := at(len(q.Codes))
				q.Codes[i] = t.R.Pick([]byte{3, 0x7f, 0x99, 0xff})
				what = fmt.Sprintf("code %d of %d", i, len(q.Codes))
			default:
				prop(q.Props)
			}
			b := q.Encode(ref.Full)
			if t.R.P(1, 4) { // cut off in the midst, or something behind
				bd := p.Body(ref.Full)
				if t.R.Bool() {
					bd = bd[:1+at(len(bd)-1)]
				} else {
					bd = append(bd, t.R.Bytes(1+t.R.N(3))...)
				}
				b, what = ref.Frame(p.First(), bd), fmt.Sprintf("%d bytes of %d", len(bd), len(b))
			}
			r := ref.Decode(p.V, b)
			if r.Verdict != ref.Reject {
				continue
			}
			if m, _, err := t.decode(p.V, b); err == nil {
				t.Fatalf("%s v%d of %d bytes, malformed in %s (%s), accepted as %s", ref.TypeName[p.T], p.V, len(b), what, r.Class, m.Type().Name())
			}
			t.Eval()
			t.Count("big packets with a fault far inside")
			t.Distinct("fault", t.I, k)
		}
	})
}
