package main

import (
	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

// Crowds: tens of thousands of packets alive at the same time. Everything else holds a handful, so
// that a pool, arena, table or counter inside the library which runs full or comes round shows here only.

type member struct {
	p    *ref.Pkt
	m    mqttp.IFace
	from *mqttp.Publish // original of a clone
}

// crowd makes n packets with mk, then looks at all of them in random order
func crowd(t *T, n int, mk func(p *ref.Pkt) mqttp.IFace, look func(x member)) {
	all := make([]member, 0, n)
	for len(all) < n {
		p := t.R.Any()
		if size(p) > 1500 {
			continue
		}
		m := mk(p)
		if m == nil {
			continue
		}
		all = append(all, member{p: p, m: m})
	}
	t.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, x := range all {
		look(x)
		t.Eval()
		t.tag(x.p)
	}
	t.CountN("packets alive at the same time", len(all))
	t.Distinct("crowd", n, t.I)
	t.Sample("a crowd of %d packets", n)
}

func size(p *ref.Pkt) int { return len(p.Encode(ref.Full)) }

// crowdBuilt: all are built, then all are encoded
func crowdBuilt(c *C) {
	c.Each("crowd", c.Scale(3, 30), func(t *T) {
		crowd(t, c.Scale(24000, 80000), func(p *ref.Pkt) mqttp.IFace { return t.build(p) }, func(x member) {
			t.same("content of one of many", x.p, t.extract(x.m))
			t.refAccept(x.p, t.encode(x.m))
		})
	})
}

// crowdDecoded: all are decoded, then all are read
func crowdDecoded(c *C) {
	c.Each("crowd", c.Scale(3, 30), func(t *T) {
		crowd(t, c.Scale(24000, 80000), func(p *ref.Pkt) mqttp.IFace {
			b := p.Encode(ref.Full)
			m, _, err := t.decode(p.V, b)
			if err != nil {
				t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[p.T], p.V, err)
			}
			return m
		}, func(x member) { t.same("content of one of many", x.p, t.extract(x.m)) })
	})
}

// crowdIDs: more packets than there are identifiers, each knows its own
func crowdIDs(c *C) {
	c.Each("crowd", c.Scale(8, 80), func(t *T) {
		n := c.Scale(72000, 140000)
		ty := idTypes[t.R.N(len(idTypes))]
		mixed := t.R.Bool()
		how := t.R.N(3)
		all := make([]mqttp.IFace, n)
		ids := make([]uint16, n)
		first := t.R.U16()
		for i := range all {
			if mixed {
				ty = idTypes[t.R.N(len(idTypes))]
				how = t.R.N(3)
			}
			id := first + uint16(i)
			if mixed {
				id = t.R.U16()
			}
			v := byte(3 + t.R.N(3))
			if how == 0 {
				p := crowdPkt(t.R, v, ty)
				p.ID = id | 1 // 0 is left open on the wire
				id |= 1
				m, _, err := t.decode(v, p.Encode(ref.Full))
				if err != nil {
					t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[ty], v, err)
				}
				all[i] = m
			} else {
				all[i] = adapt.Fresh(t.R, pv(v), ty)
				all[i].(adapt.Setter).SetPacketID(mqttp.IDType(id))
			}
			ids[i] = id
		}
		for i, m := range all {
			if id, err := m.ID(); err != nil || uint16(id) != ids[i] {
				t.Fatalf("%s number %d of %d alive: identifier %d (%v), was given %d", m.Type().Name(), i, n, id, err, ids[i])
			}
			t.Eval()
		}
		t.CountN("packets with identifiers alive at the same time", n)
		t.Distinct("crowd", t.I)
	})
}

// crowdPkt is a small packet with an identifier
func crowdPkt(r *gen.R, v, ty byte) *ref.Pkt {
	p := &ref.Pkt{V: v, T: ty, HasID: true, ID: 1}
	switch ty {
	case ref.PUBLISH:
		p.Topic, p.QoS = "a", byte(1+r.N(2))
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.Subs = []ref.Sub{{F: "a"}}
	case ref.SUBACK:
		p.Codes = []byte{0}
	case ref.UNSUBACK:
		if v == 5 {
			p.Codes = []byte{0}
		}
	}
	return p
}

// crowdClones: clones of many packets, each keeps what its original had
func crowdClones(c *C) {
	c.Each("crowd", c.Scale(1, 20), func(t *T) {
		n := c.Scale(20000, 60000)
		var all []member
		for len(all) < n {
			p := t.R.Pkt(5, ref.PUBLISH)
			if size(p) > 1500 || p.Topic == "" {
				continue
			}
			x := t.build(p).(*mqttp.Publish)
			y, err := x.Clone(5)
			if err != nil {
				t.Fatalf("clone: %v", err)
			}
			all = append(all, member{p: p, m: y, from: x})
		}
		t.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		for _, x := range all {
			g := t.extract(x.m)
			if g.Topic != x.p.Topic || g.Payload != x.p.Payload || g.QoS != x.p.QoS || g.Retain != x.p.Retain {
				t.Fatalf("clone number of %d alive: %q %q QoS %d retain %v, original %q %q QoS %d retain %v", n, g.Topic, head(g.Payload, 60), g.QoS, g.Retain, x.p.Topic, head(x.p.Payload, 60), x.p.QoS, x.p.Retain)
			}
			var want []ref.Prop
			for _, q := range x.p.Props {
				switch q.ID {
				case 0x01, 0x03, 0x08, 0x09, 0x26:
					want = append(want, q)
				}
			}
			if d := ref.Diff(&ref.Pkt{V: 5, T: ref.PUBLISH, Props: want}, &ref.Pkt{V: 5, T: ref.PUBLISH, Props: g.Props}); d != "" {
				t.Fatalf("clone among %d alive: %s", n, d)
			}
			t.same("original of a clone among many", x.p, t.extract(x.from))
			t.Eval()
		}
		t.CountN("clones alive at the same time", n)
		t.Distinct("crowd", t.I)
	})
}
