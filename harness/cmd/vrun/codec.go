package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"strings"
	"syscall"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

const ruleGen = "conforming packets of all 15 types and 3 versions from a seeded generator with boundary bias (lengths around 127/128, 16383/16384, 2097151/2, 65535; repeated properties; long lists); non-trivial = distinct by full content, counted by hash"

func init() {
	checks["C35"] = &Check{Run: c35, Rule: "refused inputs: conforming packets cut, extended and corrupted at every position, random mutations, enumerated short bodies, every CONNECT flag byte and protocol level; non-trivial = distinct refused inputs", Note: "errors that are not reason codes, and the codes of MQTT 3 packets other than success, are left open"}
	checks["C01"] = &Check{Run: c01, Rule: ruleGen, Note: "oracle: content read through accessors after the wire equals what was set"}
	checks["C02"] = &Check{Run: c02, Rule: ruleGen, Note: "oracle: independent strict decoder"}
	checks["C03"] = &Check{Run: c03, Rule: ruleGen + "; wire images come from the reference encoder in all optional short forms and property orders", Note: "oracle: reference encoder content equals accessor content"}
	checks["C04"] = &Check{Run: c04, Rule: "inputs the reference decoder rejects: targeted malformations per class, mutations of conforming packets, exhaustive short packets; non-trivial = distinct bytes and rejected by the reference", Note: "oracle: the reference decoder"}
	checks["C05"] = &Check{Run: c05, Rule: "arbitrary bytes: noise, mutations, exhaustive short inputs, every version byte; non-trivial = distinct (version, bytes)", Note: "oracle: (message, error) exclusivity, unchanged input, same outcome on repetition in another order"}
	checks["C06"] = &Check{Run: c06, Rule: "inputs Decode accepted, from conforming packets, mutations and exhaustive short packets; non-trivial = distinct accepted bytes", Note: "oracle: second generation equals first, through accessors and through the reference decoder"}
	checks["C07"] = &Check{Run: c07, Rule: "conforming packets x every cut point x surplus; all remaining-length encodings; packet streams in random chunks; non-trivial = distinct (packet, cut)", Note: "oracle: the frame length computed by the reference"}
	checks["C08"] = &Check{Run: c08, Rule: ruleGen + "; each encoded into dirty, oversized, reused and every too-short buffer", Note: "oracle: canaries around the output, reference decoder on the output"}
	checks["C09"] = &Check{Run: c09, Rule: "packets whose remaining length lies at, below and above 268435455 up to beyond 2^32, through payload, properties, topic and code lists; non-trivial = distinct (type, version, size)", Workers: 2, Note: "oracle: arithmetic on the content lengths"}
}

// boundaryPkts are packets whose property length or remaining length sits at a
// varint boundary
func boundaryPkts(r *gen.R, i int) *ref.Pkt {
	bounds := []int{127, 128, 129, 16383, 16384, 16385, 2097151, 2097152}
	n := bounds[r.N(len(bounds))]
	if n > 20000 && r.P(4, 5) {
		n = bounds[r.N(6)]
	}
	v := byte(3 + r.N(3))
	if r.Bool() {
		v = 5
	}
	ts := gen.TypesFor(v)
	p := r.Pkt(v, ts[i%len(ts)])
	if v == 5 && ref.HasProps(p.T) && r.Bool() {
		// exact property length n out of user properties (5 bytes overhead each)
		p.Props = nil
		left := n
		for left > 0 {
			k := left
			if k > 60000 {
				k = 60000
				if left-k < 5 {
					k -= 5
				}
			}
			a := r.N(min(k-5, 65000) + 1)
			p.Props = append(p.Props, ref.Prop{ID: 0x26, K: r.Text(a), S: r.Text(k - 5 - a)})
			left -= k
		}
		if p.T == ref.PUBLISH && p.Topic == "" {
			p.Topic = "a" // its alias is gone
		}
		return p
	}
	body := len(p.Body(ref.Shortest))
	grow := n - body
	if grow <= 0 {
		return p
	}
	switch p.T {
	case ref.PUBLISH:
		p.Payload += string(r.Bytes(grow))
	case ref.SUBACK, ref.UNSUBACK:
		if p.T == ref.SUBACK || v == 5 {
			p.Codes = append(p.Codes, bytes.Repeat([]byte{0}, grow)...)
		}
	case ref.CONNECT:
		if p.Will != nil && len(p.Will.Payload)+grow <= 65535 {
			p.Will.Payload += string(r.Bytes(grow))
		}
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		o := 2
		if p.T == ref.SUBSCRIBE {
			o = 3
		}
		for grow > o {
			k := min(grow-o, 65535)
			if rest := grow - o - k; rest > 0 && rest <= o {
				k -= o + 1
			}
			s := ref.Sub{F: strings.Repeat("t", k)}
			if p.T == ref.SUBSCRIBE {
				s.Ops = r.SubOps(v, false)
			}
			p.Subs = append(p.Subs, s)
			grow -= o + k
		}
	}
	return p
}

func (c *C) packets(section string, quick, thorough int, f func(t *T, p *ref.Pkt)) {
	c.Each(section, c.Scale(quick, thorough), func(t *T) { f(t, t.R.Any()) })
	c.Each(section+"-boundary", c.Scale(quick/40, thorough/40), func(t *T) { f(t, boundaryPkts(t.R, t.I)) })
	stride := 1
	if quick < 50000 && !c.Thorough { // the expensive checks take a share
		stride = 16
	}
	c.sweep(section, stride, 1<<30, f)
}

// sweep runs every stride-th packet of the three sweeps that is no longer than maxLen
func (c *C) sweep(section string, stride, maxLen int, f func(t *T, p *ref.Pkt)) {
	for _, x := range []struct {
		name string
		l    []func(*gen.R) *ref.Pkt
	}{{"-lengths", gen.Fields}, {"-counts", gen.Counts}, {"-numbers", gen.Numbers}} {
		l := x.l
		c.Each(section+x.name, c.Scale(len(l)/stride, len(l)), func(t *T) {
			k := stride
			if c.Thorough {
				k = 1
			}
			i := t.I * k
			if k > 1 {
				i += t.R.N(k)
			}
			p := l[i](t.R)
			if len(p.Payload) > maxLen {
				return
			}
			t.Count("sweep" + x.name)
			f(t, p)
		})
	}
}

func c01(c *C) {
	c.big(1<<27+1, func(t *T, p *ref.Pkt) {
		m := t.build(p)
		b := t.encode(m)
		g, n, err := t.decode(p.V, b)
		if err != nil || n != len(b) {
			t.Fatalf("decoding our own %s v%d of %d bytes: %d, %v", ref.TypeName[p.T], p.V, len(b), n, err)
		}
		t.same("content after the wire", p, t.extract(g))
		t.Eval()
	})
	crowdBuilt(c)
	c.packets("roundtrip", 120000, 3000000, func(t *T, p *ref.Pkt) {
		m := t.build(p)
		t.same("content read back before encoding", p, t.extract(m))
		b := t.encode(m)
		v := p.V
		if p.T == ref.CONNECT {
			v = byte(3 + t.R.N(3))
		}
		g, n, err := t.decode(v, b)
		if err != nil {
			t.Fatalf("decoding our own %s v%d: %v", ref.TypeName[p.T], p.V, err)
		}
		if n != len(b) {
			t.Fatalf("decoded %d of %d bytes", n, len(b))
		}
		t.same("content after the wire", p, t.extract(g))
		t.cleanWill(g)
		t.same("content of the sender after encoding", p, t.extract(m))
		t.Eval()
		t.tag(p)
		t.Distinct(b, p.V)
		t.Sample("%s v%d %x", ref.TypeName[p.T], p.V, b[:min(len(b), 40)])
	})
}

func c02(c *C) {
	c.big(maxBody, func(t *T, p *ref.Pkt) {
		t.refAccept(p, t.encode(t.build(p)))
		t.Eval()
	})
	willChanged(c)
	c.packets("emit", 150000, 4000000, func(t *T, p *ref.Pkt) {
		m := t.build(p)
		b := t.encode(m)
		t.refAccept(p, b)
		b2, err := mqttp.Encode(m)
		if err != nil {
			t.Fatalf("Encode helper: %v", err)
		}
		t.refAccept(p, b2)
		t.EvalN(2)
		t.tag(p)
		t.Distinct(b, p.V)
		t.Sample("%s v%d %x", ref.TypeName[p.T], p.V, b[:min(len(b), 40)])
	})
}

func (t *T) acceptFaithfully(p *ref.Pkt, b []byte) {
	v := p.V
	if p.T == ref.CONNECT {
		v = []byte{3, 4, 5, 0, 6, 255, 5, 4}[t.R.N(8)]
	}
	m, n, err := t.decode(v, b)
	if err != nil {
		if r := ref.Decode(p.V, b); r.Known != "" {
			t.KnownFinding(r.Known, "conforming %s v%d refused: %v", ref.TypeName[p.T], p.V, err)
			return
		}
		t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[p.T], p.V, err)
	}
	if n != len(b) {
		t.Fatalf("Decode reports %d bytes for a packet of %d", n, len(b))
	}
	t.same("decoded content", p, t.extract(m))
	t.cleanWill(m)
	t.Eval()
	t.tag(p)
}

// sameOpen compares a packet that may be accepted or refused and has been accepted
func (t *T) sameOpen(r ref.Result, m mqttp.IFace) {
	t.same("decoded content of a packet left open ("+r.Class+")", r.Pkt, t.extract(m))
	t.Count("left open and accepted")
	t.Eval()
}

// cleanWill checks that a decoded will message is not marked as a delivery
func (t *T) cleanWill(m mqttp.IFace) {
	if x, ok := m.(*mqttp.Connect); ok && x.Will() != nil {
		if x.Will().Dup() {
			t.Fatalf("decoded will message has the duplicate flag set")
		}
		if _, err := x.Will().ID(); err != mqttp.ErrNotSet {
			t.Fatalf("decoded will message has a packet identifier")
		}
	}
}

// relatives walks from a conforming packet through closely related ones
func (t *T) relatives(f func(p *ref.Pkt, b []byte, r ref.Result)) {
	p := t.R.Any()
	for k := 0; k < 5; k++ {
		q := p
		if k > 0 {
			q = t.R.Twist(p)
		}
		b := q.Encode(ref.Form(t.R.N(3)))
		r := ref.Decode(q.V, b)
		f(q, b, r)
		if r.Verdict == ref.Accept && t.R.Bool() {
			p = q
		}
	}
}

// emptyFields sometimes makes fields of a CONNECT present but empty: accessors cannot tell
// that from absent, but the wire can
func (t *T) emptyFields(p *ref.Pkt) {
	if p.T != ref.CONNECT || !t.R.P(1, 6) {
		return
	}
	if p.HasUser && t.R.Bool() {
		p.User = ""
	}
	if p.HasPass && t.R.Bool() {
		p.Pass = ""
	}
	if p.Will != nil && t.R.Bool() {
		p.Will.Payload = ""
	}
	t.Count("CONNECT with fields that are present but empty")
}

func c03(c *C) {
	c.big(maxBody, func(t *T, p *ref.Pkt) { t.acceptFaithfully(p, p.Encode(ref.Full)) })
	crowdDecoded(c)
	c.packets("wire", 150000, 4000000, func(t *T, p *ref.Pkt) {
		t.emptyFields(p)
		b := p.Encode(ref.Form(t.R.N(3)))
		if r := ref.Decode(p.V, b); r.Verdict == ref.Reject {
			panic(fmt.Sprintf("harness: reference rejects its own packet: %s %x", r.Class, b))
		} else if r.Verdict == ref.Either {
			t.Count("left open by the specification: " + r.Class)
			if m, _, err := t.decode(p.V, b); err == nil {
				t.sameOpen(r, m)
			}
			return
		}
		t.acceptFaithfully(p, b)
		t.Distinct(b, p.V)
		t.Sample("%s v%d %x", ref.TypeName[p.T], p.V, b[:min(len(b), 40)])
	})
	// a packet and its close relatives one after the other
	c.Each("relatives", c.Scale(40000, 1000000), func(t *T) {
		t.relatives(func(p *ref.Pkt, b []byte, r ref.Result) {
			switch r.Verdict {
			case ref.Accept:
				q := p
				if r.Pkt != nil {
					q = r.Pkt
				}
				t.acceptFaithfully(q, b)
				t.Distinct(b, p.V)
			case ref.Reject:
				t.decode(p.V, b) // only disturbs
			default:
				if m, _, err := t.decode(p.V, b); err == nil {
					t.sameOpen(r, m)
				}
			}
		})
	})
	// every reason code in every form
	var all []*ref.Pkt
	for v := byte(3); v <= 5; v++ {
		for _, ty := range gen.TypesFor(v) {
			for _, code := range ref.CodesOf(v, ty) {
				p := &ref.Pkt{V: v, T: ty}
				switch ty {
				case ref.CONNACK, ref.DISCONNECT, ref.AUTH:
					p.Code = code
				case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
					p.Code, p.HasID, p.ID = code, true, 7
				case ref.SUBACK:
					p.HasID, p.ID, p.Codes = true, 7, []byte{code, 0, code}
				case ref.UNSUBACK:
					if p.HasID, p.ID = true, 7; v == 5 {
						p.Codes = []byte{code, 0, code}
					}
				case ref.PINGREQ, ref.PINGRESP:
				default:
					continue
				}
				all = append(all, p)
				if v == 5 && ref.HasProps(ty) {
					q := p.Clone()
					q.Props = []ref.Prop{{ID: 0x26, K: "k", S: "v"}}
					all = append(all, q)
				}
			}
		}
	}
	c.Each("codes-and-forms", len(all), func(t *T) {
		for f := ref.Shortest; f <= ref.NoProps; f++ {
			b := all[t.I].Encode(f)
			if ref.Decode(all[t.I].V, b).Verdict != ref.Accept {
				continue
			}
			t.acceptFaithfully(all[t.I], b)
			t.Distinct(b, all[t.I].V)
		}
	})
	c.Exhausted("every reason code of every packet type and version in every optional short form")
	// each single property, at boundary values, in each packet type, alone and after another
	type pc struct {
		t  byte
		id uint32
	}
	var pcs []pc
	for _, id := range ref.PropIDs {
		for ty := byte(0); ty <= ref.AUTH; ty++ {
			if ref.Allowed(id, ty) {
				pcs = append(pcs, pc{ty, id})
			}
		}
	}
	c.Each("single-properties", len(pcs)*c.Scale(40, 800), func(t *T) {
		x := pcs[t.I%len(pcs)]
		ty := x.t
		if ty == ref.WILL {
			ty = ref.CONNECT
		}
		p := t.R.Pkt(5, ty)
		ps := []ref.Prop{t.R.PropFor(x.id)}
		if t.R.Bool() {
			u := ref.Prop{ID: 0x26, K: "k", S: "v"}
			if t.R.Bool() {
				ps = append(ps, u)
			} else {
				ps = append([]ref.Prop{u}, ps...)
			}
		}
		if x.t == ref.WILL {
			p.Will = &ref.Will{Topic: "w", Payload: "x", Props: ps}
		} else {
			p.Props = ps
		}
		if p.T == ref.PUBLISH && p.Topic == "" {
			p.Topic = "a"
		}
		b := p.Encode(ref.Full)
		if ref.Decode(5, b).Verdict != ref.Accept {
			return
		}
		t.acceptFaithfully(p, b)
		t.Distinct(b)
	})
	// CONNECT: all flag combinations that are legal
	c.Each("connect-flags", 256*3, func(t *T) {
		b := connectWithFlags(byte(3+t.I/256), byte(t.I))
		r := ref.Decode(5, b)
		if r.Verdict == ref.Accept {
			t.acceptFaithfully(r.Pkt, b)
			t.Distinct(b)
		}
	})
	c.shortPackets("short", c.Scale(3, 5), func(t *T, v byte, b []byte) {
		r := ref.Decode(v, b)
		if r.Verdict == ref.Reject {
			return
		}
		m, n, err := t.decode(v, b)
		if r.Verdict == ref.Either {
			if err == nil {
				t.sameOpen(r, m)
			}
			return
		}
		t.Distinct(b, v)
		if err != nil {
			if r.Known != "" {
				t.KnownFinding(r.Known, "%v", err)
				return
			}
			t.Fatalf("conforming packet %x v%d refused: %v", b, v, err)
		}
		if n != len(b) {
			t.Fatalf("%x: total %d", b, n)
		}
		t.same("decoded content", r.Pkt, t.extract(m))
		t.Eval()
	})
}

// connectWithFlags has exactly the fields the flags announce
func connectWithFlags(v, fl byte) []byte {
	b := append(ref.LP(ref.ProtoName(v)), v, fl, 0, 60)
	if v == 5 {
		b = append(b, 0)
	}
	b = append(b, ref.LP("cid")...)
	if fl&4 != 0 {
		if v == 5 {
			b = append(b, 0)
		}
		b = append(b, ref.LP("will/t")...)
		b = append(b, ref.LP("wp")...)
	}
	if fl&0x80 != 0 {
		b = append(b, ref.LP("usr")...)
	}
	if fl&0x40 != 0 {
		b = append(b, ref.LP("pwd")...)
	}
	return ref.Frame(0x10, b)
}

func (t *T) mustReject(v byte, b []byte, r ref.Result) {
	m, _, err := t.decode(v, t.layout(b))
	if err == nil {
		t.Fatalf("malformed packet (%s) accepted under v%d as %s: %x", r.Class, v, m.Type().Name(), b[:min(len(b), 200)])
	}
	t.Eval()
	cl := r.Class
	t.Count("class " + cl)
}

func c04(c *C) {
	bigFaults(c)
	c.Each("mutations", c.Scale(400000, 12000000), func(t *T) {
		v, b := hostile(t.R)
		r := ref.Decode(v, b)
		if r.Verdict == ref.Reject {
			t.mustReject(v, b, r)
			t.Distinct(b, v)
			t.Sample("v%d %s %x", v, r.Class, b[:min(len(b), 40)])
		}
	})
	c.shortPackets("short", c.Scale(3, 5), func(t *T, v byte, b []byte) {
		r := ref.Decode(v, b)
		if r.Verdict == ref.Reject {
			t.Distinct(b, v)
			m, _, err := t.decode(v, b)
			if err == nil {
				t.Fatalf("malformed packet (%s) accepted under v%d as %s: %x", r.Class, v, m.Type().Name(), b)
			}
			t.Eval()
		}
	})
	c.Each("connect-flags", 256*3, func(t *T) {
		b := connectWithFlags(byte(3+t.I/256), byte(t.I))
		for v := byte(3); v <= 5; v++ {
			if r := ref.Decode(v, b); r.Verdict == ref.Reject {
				t.mustReject(v, b, r)
				t.Distinct(b)
			}
		}
	})
	// every first byte on top of a conforming body
	c.Each("first-byte", c.Scale(3000, 60000), func(t *T) {
		p := t.R.Any()
		b := p.Encode(ref.Full)
		for x := 0; x < 256; x++ {
			b[0] = byte(x)
			if r := ref.Decode(p.V, b); r.Verdict == ref.Reject {
				t.mustReject(p.V, b, r)
				t.Distinct(b, p.V)
			}
		}
	})
	// every truncation, with the remaining length refitted, and every one byte surplus
	c.Each("cut-and-surplus", c.Scale(20000, 400000), func(t *T) {
		p := t.R.Any()
		body := p.Body(ref.Form(t.R.N(3)))
		try := func(bd []byte) {
			b := ref.Frame(p.First(), bd)
			if r := ref.Decode(p.V, b); r.Verdict == ref.Reject {
				t.mustReject(p.V, b, r)
				t.Distinct(b, p.V)
			}
		}
		st := 1 + len(body)/300
		for k := 0; k < len(body); k += st {
			try(body[:k])
		}
		for _, x := range []byte{0, 1, 0x80, 0xff} {
			try(append(body[:len(body):len(body)], x))
		}
	})
	// properties: unknown, misplaced, repeated, mis-sized
	c.Each("properties", c.Scale(60000, 1500000), func(t *T) {
		p := t.R.Pkt(5, propTypes[t.R.N(len(propTypes))])
		will := p.T == ref.CONNECT && p.Will != nil && t.R.Bool()
		sect := p.T
		ps := &p.Props
		if will {
			sect, ps = ref.WILL, &p.Will.Props
		}
		raw := func(section []byte) []byte { return withRawProps(p, will, section) }
		for _, x := range *ps {
			if len(x.S) > 300 {
				*ps = nil
				break
			}
		}
		var enc []byte
		for _, x := range *ps {
			enc = append(enc, ref.EncProp(x)...)
		}
		var section []byte
		switch t.R.N(8) {
		case 0: // unknown id
			id := uint32(t.R.N(300))
			if t.R.Bool() {
				id = uint32(t.R.N(16384))
			}
			x := append(ref.VarInt(id), t.R.Bytes(t.R.N(6))...)
			if t.R.Bool() {
				enc = append(x, enc...)
			} else {
				enc = append(enc, x...)
			}
			section = append(ref.VarInt(uint32(len(enc))), enc...)
		case 1: // any defined property, wherever
			x := t.R.PropFor(ref.PropIDs[t.R.N(len(ref.PropIDs))])
			enc = append(enc, ref.EncProp(x)...)
			section = append(ref.VarInt(uint32(len(enc))), enc...)
		case 2: // repeat one
			var cand []uint32
			for _, id := range ref.PropIDs {
				if ref.Allowed(id, sect) && !ref.MayRepeat(id, sect) {
					cand = append(cand, id)
				}
			}
			if len(cand) == 0 {
				return
			}
			id := cand[t.R.N(len(cand))]
			a, b := t.R.PropFor(id), t.R.PropFor(id)
			if t.R.Bool() {
				b = a
			}
			enc = append(append(ref.EncProp(a), enc...), ref.EncProp(b)...)
			section = append(ref.VarInt(uint32(len(enc))), enc...)
		case 3, 4: // declared length off by a little or a lot
			n := len(enc) + []int{-3, -2, -1, 1, 2, 3, 127, 1 << 20, 268435455}[t.R.N(9)]
			if n < 0 || n > 268435455 {
				return
			}
			section = append(ref.VarInt(uint32(n)), enc...)
		case 5: // non-minimal lengths and ids
			n := ref.VarInt(uint32(len(enc)))
			n[len(n)-1] |= 0x80
			n = append(n, []byte{0, 0x80, 1}[t.R.N(3)])
			if n[len(n)-1] == 0x80 {
				n = append(n, 0)
			}
			section = append(n, enc...)
		case 6:
			if len(*ps) == 0 {
				return
			}
			x := (*ps)[t.R.N(len(*ps))]
			y := append([]byte{byte(x.ID) | 0x80, 0}, ref.EncProp(x)[1:]...)
			enc = y
			section = append(ref.VarInt(uint32(len(enc))), enc...)
		case 7: // one byte of the section damaged
			section = append(ref.VarInt(uint32(len(enc))), enc...)
			section[t.R.N(len(section))] ^= 1 << uint(t.R.N(8))
		}
		b := raw(section)
		if r := ref.Decode(5, b); r.Verdict == ref.Reject {
			t.mustReject(5, b, r)
			t.Distinct(b)
		}
	})
	// conforming packets followed by malformed relatives
	c.Each("relatives", c.Scale(40000, 1000000), func(t *T) {
		t.relatives(func(p *ref.Pkt, b []byte, r ref.Result) {
			if r.Verdict == ref.Reject {
				t.mustReject(p.V, b, r)
				t.Distinct(b, p.V)
			} else {
				t.decode(p.V, b)
			}
		})
	})
	// over-long and non-minimal remaining lengths
	c.Each("remaining-length", c.Scale(20000, 300000), func(t *T) {
		p := t.R.Any()
		body := p.Body(ref.Full)
		if len(body) > 200000 {
			return
		}
		l := ref.VarInt(uint32(len(body)))
		for k := len(l); k < 7; k++ {
			l[len(l)-1] |= 0x80
			l = append(l, 0)
			b := append(append([]byte{p.First()}, l...), body...)
			t.mustReject(p.V, b, ref.Decode(p.V, b))
			t.Distinct(b, p.V)
		}
	})
	// text fields and options
	c.Each("grammar", c.Scale(60000, 1000000), func(t *T) {
		p := badGrammar(t.R)
		if p == nil {
			return
		}
		b := p.Encode(ref.Full)
		if r := ref.Decode(p.V, b); r.Verdict == ref.Reject {
			t.mustReject(p.V, b, r)
			t.Distinct(b, p.V)
		}
	})
	// reason codes: all 256 in all types
	c.Each("reason-codes", 256*3, func(t *T) {
		code, v := byte(t.I), byte(3+t.I/256)
		for _, ty := range gen.TypesFor(v) {
			for _, b := range codePackets(v, ty, code) {
				if r := ref.Decode(v, b); r.Verdict == ref.Reject {
					t.mustReject(v, b, r)
					t.Distinct(b, v)
				}
			}
		}
	})
	c.Exhausted("reason codes 0-255 in every packet type and version; CONNECT flags 0-255 in every version")
}

var propTypes = []byte{ref.CONNECT, ref.CONNACK, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH}

// withRawProps replaces the encoded property section of a v5 packet by raw bytes
func withRawProps(p *ref.Pkt, will bool, section []byte) []byte {
	q := p.Clone()
	mark := ref.Prop{ID: 0x26, K: "\x00MARK\x00", S: "\x00MARK\x00"}
	if will {
		q.Will.Props = []ref.Prop{mark}
	} else {
		q.Props = []ref.Prop{mark}
	}
	body := q.Body(ref.Full)
	old := ref.EncProps([]ref.Prop{mark})
	i := bytes.Index(body, old)
	nb := append([]byte(nil), body[:i]...)
	nb = append(nb, section...)
	nb = append(nb, body[i+len(old):]...)
	return ref.Frame(p.First(), nb)
}

var badTexts = []string{"\x80", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf",
	"\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xfe", "\xc2", "\xe1\x80", "\xf1\x80\x80", "\xc2\x20", "\xe1\x80\x20", "\xf1\x80\x80\x20", "\xed\xa0\x80\xed\xb0\x80"}

var badCtl = []string{"\x00", "\x01", "\x09", "\x0a", "\x0d", "\x1b", "\x1f", "\x7f", "\u0080", "\u0085", "\u009f"}

// badGrammar makes a packet with one field outside its grammar
func badGrammar(r *gen.R) *ref.Pkt {
	v := byte(3 + r.N(3))
	bad := badTexts[r.N(len(badTexts))]
	if r.Bool() {
		bad = badCtl[r.N(len(badCtl))]
	}
	place := func(s string) string {
		switch r.N(3) {
		case 0:
			return bad + s
		case 1:
			return s + bad
		}
		return s + bad + s
	}
	switch r.N(7) {
	case 0, 1:
		p := r.Pkt(v, ref.PUBLISH)
		p.Topic = place("a/b")
		if r.Bool() {
			p.Topic = []string{"+", "#", "a/+", "a/#", "a+b", "#a", "a/b#", "/+/"}[r.N(8)]
		} else if r.P(1, 4) {
			p.Topic = ""
		}
		return p
	case 2, 3:
		t := byte(ref.SUBSCRIBE)
		if r.Bool() {
			t = ref.UNSUBSCRIBE
		}
		p := r.Pkt(v, t)
		i := r.N(len(p.Subs))
		switch r.N(3) {
		case 0:
			p.Subs[i].F = place("a/b")
		case 1:
			p.Subs[i].F = []string{"", "a+", "+a", "a/b+", "#/", "#/a", "a#", "a/#/b", "##", "++", "+#", "$share", "$share/", "$share/a", "$share/a/", "$share//a",
				"$share/+/a", "$share/#/a", "$share/a+/a", "$share/a/a#", "$share/a/#/b", "$share/a/+b", "$share/a\x01/b"}[r.N(23)]
		case 2:
			p.Subs[i].Ops = r.Byte()
		}
		return p
	case 4:
		p := r.Pkt(v, ref.CONNECT)
		p.ClientID = place("cid")
		if odd := []rune("é#+$&*!@%\"':;<>=?[]{}()\\^`~中"); r.Bool() {
			p.ClientID = "c" + string(odd[r.N(len(odd))])
		} else if v != 5 && r.Bool() {
			p.ClientID, p.Clean = "", false
		}
		return p
	case 5:
		p := r.Pkt(v, ref.CONNECT)
		p.Will = &ref.Will{Topic: place("w"), Payload: "x"}
		if r.Bool() {
			p.Will.Topic = []string{"+", "#", "w/+", "w/#", "w#"}[r.N(5)]
		} else if v != 5 && r.P(1, 3) {
			p.Will.Topic = ""
		}
		return p
	}
	p := r.Pkt(v, ref.CONNECT)
	p.HasUser, p.User = true, place("u")
	return p
}

// codePackets carry code where packet type ty has a reason code
func codePackets(v, ty, code byte) (r [][]byte) {
	add := func(b ...byte) { r = append(r, ref.Frame(ty<<4|ref.Flags(ty), b)) }
	switch ty {
	case ref.CONNACK:
		if v == 5 {
			add(0, code, 0)
		} else {
			add(0, code)
		}
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		add(0, 9, code)
		add(0, 9, code, 0)
	case ref.SUBACK, ref.UNSUBACK:
		if v == 5 {
			add(0, 9, 0, code)
			add(0, 9, 0, 0, code)
			add(0, 9, 0, 0, code, 0)
		} else {
			add(0, 9, code)
			add(0, 9, 0, code)
			add(0, 9, 0, code, 0)
		}
	case ref.DISCONNECT, ref.AUTH:
		add(code)
		add(code, 0)
	}
	return
}

type digest struct {
	err   string
	total int
	p     *ref.Pkt
}

func (t *T) outcomeOf(v byte, b []byte) digest {
	m, n, err := t.decode(v, b)
	if err == mqttp.ErrPanicDetected {
		t.Fatalf("Decode panicked inside (and recovered) on %x under v%d", b[:min(len(b), 100)], v)
	}
	if err != nil {
		return digest{err: fmt.Sprintf("%T %v", err, err), total: n}
	}
	p, e := adapt.Extract(m)
	if e != nil {
		return digest{err: "extract: " + e.Error(), total: n, p: p}
	}
	return digest{total: n, p: p}
}

func c05(c *C) {
	c05alike(c)
	c.Each("pure", c.Scale(40000, 1200000), func(t *T) {
		const k = 8
		var vs [k]byte
		var bs, orig [k][]byte
		var ds [k]digest
		for i := 0; i < k; i++ {
			vs[i], bs[i] = hostile(t.R)
			if t.R.P(1, 8) {
				vs[i] = t.R.Byte()
			}
			orig[i] = append([]byte(nil), bs[i]...)
		}
		for i := 0; i < k; i++ {
			ds[i] = t.outcomeOf(vs[i], bs[i])
			if !bytes.Equal(bs[i], orig[i]) {
				t.Fatalf("Decode modified its input %x", orig[i])
			}
			t.Distinct(bs[i], vs[i])
			if ds[i].err != "" {
				t.Count("refused")
			} else {
				t.Count("accepted")
			}
		}
		for n := 0; n < k; n++ {
			i := t.R.N(k)
			in := t.layout(bs[i])
			whole := append([]byte(nil), in[:cap(in)]...)
			d := t.outcomeOf(vs[i], in)
			if !bytes.Equal(in[:cap(in)], whole) {
				t.Fatalf("Decode modified its input %x or what follows it in the buffer", orig[i])
			}
			if d.err != ds[i].err || d.total != ds[i].total || (d.p == nil) != (ds[i].p == nil) || d.p != nil && ref.Diff(ds[i].p, d.p) != "" {
				t.Fatalf("decoding %x under v%d again gives another outcome: %+v then %+v", bs[i][:min(len(bs[i]), 100)], vs[i], ds[i], d)
			}
		}
		t.EvalN(2 * k)
		t.Sample("v%d %x", vs[0], bs[0][:min(len(bs[0]), 40)])
	})
	// a packet and its close relatives, decoded in different orders
	c.Each("history", c.Scale(30000, 900000), func(t *T) {
		fam := []*ref.Pkt{t.R.Any()}
		for len(fam) < 6 {
			fam = append(fam, t.R.Twist(fam[t.R.N(len(fam))]))
		}
		t.R.Shuffle(len(fam), func(i, j int) { fam[i], fam[j] = fam[j], fam[i] })
		var bs [6][]byte
		var ds [6]digest
		f := ref.Form(t.R.N(3))
		for i, p := range fam {
			bs[i] = p.Encode(f)
			ds[i] = t.outcomeOf(p.V, bs[i])
			t.Distinct(bs[i], p.V)
		}
		last := -1
		for n := 0; n < 24; n++ {
			i := t.R.N(len(fam))
			if n < len(fam) {
				i = len(fam) - 1 - n
			}
			d := t.outcomeOf(fam[i].V, bs[i])
			if d.err != ds[i].err || d.total != ds[i].total || d.p != nil && ds[i].p != nil && ref.Diff(ds[i].p, d.p) != "" {
				x := "nothing"
				if last >= 0 {
					x = fmt.Sprintf("%x", bs[last][:min(len(bs[last]), 100)])
				}
				t.Fatalf("decoding %x under v%d gives %+v the first time and %+v after %s", bs[i][:min(len(bs[i]), 100)], fam[i].V, ds[i], d, x)
			}
			last = i
			if d.err != "" {
				t.Count("related: refused")
			} else {
				t.Count("related: accepted")
			}
		}
		t.EvalN(30)
	})
	c.shortPackets("short", c.Scale(3, 5), func(t *T, v byte, b []byte) {
		var o [16]byte
		n := copy(o[:], b)
		if _, _, err := t.decode(v, b); err == mqttp.ErrPanicDetected {
			t.Fatalf("Decode panicked inside (and recovered) on %x under v%d", b, v)
		}
		if !bytes.Equal(o[:n], b) {
			t.Fatalf("Decode modified its input %x", o[:n])
		}
		t.Distinct(b, v)
		t.Eval()
	})
	// all strings of up to two bytes under every version byte
	c.Each("tiny", 256, func(t *T) {
		v := byte(t.I)
		t.decode(v, nil)
		t.decode(v, []byte{})
		for x := 0; x < 256; x++ {
			t.decode(v, []byte{byte(x)})
			for y := 0; y < 256; y++ {
				t.decode(v, []byte{byte(x), byte(y)})
			}
		}
		t.EvalN(65536 + 258)
	})
	c.Exhausted("all byte strings of length 0-2 under all 256 version values")
	// pathological shapes
	c.Each("deep", c.Scale(300, 3000), func(t *T) {
		n := 1000 + t.R.N(200000)
		var b []byte
		switch t.R.N(6) {
		case 0: // filter with very many levels
			s := strings.Repeat([]string{"/", "+/", "a/"}[t.R.N(3)], min(n, 65000)/2)
			b = ref.Frame(0x82, append(append([]byte{0, 1}, ref.LP(s+"#")...), 0))
		case 1: // many tiny topics
			x := []byte{0, 1}
			for len(x) < n {
				x = append(x, 0, 1, 'a', 0)
			}
			b = ref.Frame(0x82, x)
		case 2: // many user properties
			var ps []byte
			for len(ps) < n {
				ps = append(ps, 0x26, 0, 0, 0, 0)
			}
			x := append([]byte{0, 1, 'a'}, ref.VarInt(uint32(len(ps)))...)
			b = ref.Frame(0x30, append(x, ps...))
		case 3: // noise body
			b = ref.Frame([]byte{0x30, 0x32, 0x82, 0xa2, 0x90, 0x10}[t.R.N(6)], t.R.Bytes(n))
		case 4: // zeros
			b = ref.Frame(byte(1+t.R.N(15))<<4, make([]byte, n))
		case 5:
			b = bytes.Repeat([]byte{0xff}, n)
		}
		for v := byte(3); v <= 5; v++ {
			t.decode(v, b)
		}
		t.EvalN(3)
		t.Distinct(b)
	})
}

func (t *T) reencode(v byte, b []byte) bool {
	m, _, err := t.decode(v, b)
	if err != nil {
		return false
	}
	w := t.extract(m)
	sz, err := m.Size()
	if err != nil {
		t.Fatalf("Size of an accepted %s: %v", m.Type().Name(), err)
	}
	o := make([]byte, sz)
	n, err := m.Encode(o)
	if err != nil {
		t.Fatalf("accepted %s v%d cannot be encoded: %v", m.Type().Name(), m.Version(), err)
	}
	if n != sz {
		t.Fatalf("%s: Size %d but %d bytes encoded", m.Type().Name(), sz, n)
	}
	m2, _, err := mqttp.Decode(pv(v), o)
	if err != nil {
		t.Fatalf("re-encoded %s v%d is refused: %v (%x)", m.Type().Name(), m.Version(), err, o[:min(len(o), 200)])
	}
	if d := ref.Diff(w, t.extract(m2)); d != "" {
		t.Fatalf("re-encoding %s v%d changes it: %s", m.Type().Name(), m.Version(), d)
	}
	// independent view: nothing the wire carried may be lost
	r1, r2 := ref.Decode(v, b), ref.Decode(v, o)
	if r1.Verdict != ref.Reject {
		if r2.Verdict == ref.Reject {
			t.Fatalf("re-encoded %s v%d is malformed: %s", m.Type().Name(), m.Version(), r2.Class)
		}
		if d := ref.Diff(r1.Pkt, r2.Pkt); d != "" {
			t.Fatalf("re-encoding %s v%d changes the wire content: %s", m.Type().Name(), m.Version(), d)
		}
		t.tag(r1.Pkt)
	}
	t.Eval()
	return true
}

func c06(c *C) {
	c.big(1<<26, func(t *T, p *ref.Pkt) { t.reencode(p.V, p.Encode(ref.Full)) })
	c.packets("conforming", 100000, 3000000, func(t *T, p *ref.Pkt) {
		t.emptyFields(p)
		b := p.Encode(ref.Form(t.R.N(3)))
		if t.reencode(p.V, b) {
			t.Distinct(b, p.V)
			t.Sample("%s v%d %x", ref.TypeName[p.T], p.V, b[:min(len(b), 40)])
		}
	})
	c.Each("mutations", c.Scale(300000, 8000000), func(t *T) {
		v, b := hostile(t.R)
		if t.reencode(v, b) {
			t.Distinct(b, v)
		}
	})
	c.shortPackets("short", c.Scale(3, 5), func(t *T, v byte, b []byte) {
		if t.reencode(v, b) {
			t.Distinct(b, v)
		}
	})
}

type lengther interface{ RemainingLength() int32 }

func c07(c *C) {
	c.big(maxBody, func(t *T, p *ref.Pkt) { t.framed(p) })
	insufficient := func(err error) bool { return err == mqttp.ErrInsufficientDataSize }
	c.Each("cut", c.Scale(25000, 600000), func(t *T) {
		p := t.R.Any()
		if t.R.P(1, 6) {
			p = boundaryPkts(t.R, t.I)
		}
		b := p.Encode(ref.Form(t.R.N(3)))
		if ref.Decode(p.V, b).Known != "" {
			return
		}
		_, hl := ref.ReadVarInt(b[1:])
		hl++
		m, n, err := t.decode(p.V, b)
		if err != nil {
			t.Fatalf("complete %s v%d: %v", ref.TypeName[p.T], p.V, err)
		}
		if n != len(b) || m == nil {
			t.Fatalf("complete packet of %d bytes: total %d", len(b), n)
		}
		if rl := m.(lengther).RemainingLength(); int(rl) != len(b)-hl {
			t.Fatalf("packet with %d bytes after the length field: RemainingLength %d", len(b)-hl, rl)
		}
		cut := func(k int) {
			in := b[:k]
			if k&1 == t.I&1 { // without the missing bytes in the spare capacity
				in = b[:k:k]
			}
			_, n, err := t.decode(p.V, in)
			switch {
			case err == nil:
				t.Fatalf("%d of %d bytes accepted", k, len(b))
			case k == 0:
				if err != mqttp.ErrInsufficientBufferSize && !insufficient(err) {
					t.Fatalf("no bytes: %v", err)
				}
			case !insufficient(err):
				t.Fatalf("%d of %d bytes: want insufficient data, got %v", k, len(b), err)
			case k >= hl && n != len(b):
				t.Fatalf("%d of %d bytes: reported total %d", k, len(b), n)
			}
			t.Eval()
			t.Distinct(b, k)
		}
		if len(b) < 400 {
			for k := 0; k < len(b); k++ {
				cut(k)
			}
		} else {
			for k := 0; k < 12; k++ {
				cut(k)
			}
			for i := 0; i < 40; i++ {
				cut(t.R.N(len(b)))
			}
			cut(len(b) - 1)
		}
		// surplus: noise, a further packet, a single byte
		for i := 0; i < 4; i++ {
			var tail []byte
			switch i {
			case 0:
				tail = []byte{0}
			case 1:
				tail = b
			case 2:
				tail = t.R.Bytes(1 + t.R.N(300))
			case 3:
				tail = t.R.Any().Encode(ref.Full)
			}
			if len(tail) > 100000 {
				continue
			}
			m, n, err := t.decode(p.V, append(b[:len(b):len(b)], tail...))
			if err == nil {
				t.Fatalf("packet followed by %d bytes accepted as %s", len(tail), m.Type().Name())
			}
			if insufficient(err) {
				t.Fatalf("packet followed by %d bytes reported as incomplete", len(tail))
			}
			if n != len(b) {
				t.Fatalf("packet of %d bytes followed by %d more: reported length %d", len(b), len(tail), n)
			}
			t.Eval()
		}
		t.tag(p)
		t.Sample("%s v%d %d bytes", ref.TypeName[p.T], p.V, len(b))
	})
	// all shapes of the length field itself
	vals := []uint32{0, 1, 2, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 2097150, 2097151, 2097152, 2097153, 16777216, 134217728, 268435454, 268435455}
	c.Each("length-field", c.Scale(40000, 800000), func(t *T) {
		v := byte(3 + t.R.N(3))
		l := firsts(v)
		first := l[t.R.N(len(l))]
		if first>>4 == 3 && (first>>1&3 == 3 || first&0xe == 8) {
			return
		}
		rl := vals[t.I%len(vals)]
		if t.I >= 2*len(vals) {
			rl = uint32(t.R.U64()) >> uint(4+t.R.N(20))
		}
		enc := ref.VarInt(rl)
		have := t.R.N(min(int(rl), 300) + 1)
		if have == int(rl) {
			if rl == 0 {
				return
			}
			have--
		}
		b := append(append([]byte{first}, enc...), t.R.Bytes(have)...)
		_, n, err := t.decode(v, b)
		if !insufficient(err) || n != 1+len(enc)+int(rl) {
			t.Fatalf("remaining length %d with %d bytes present: total %d, error %v", rl, have, n, err)
		}
		// header alone cut inside the length field
		for k := 1; k < len(enc)+1; k++ {
			if _, _, err := t.decode(v, b[:k:k]); !insufficient(err) {
				t.Fatalf("header cut at %d: %v", k, err)
			}
		}
		t.Eval()
		t.Distinct(b)
		// longer than four bytes: malformed, whatever follows
		k := 5 + t.R.N(4)
		o := []byte{first}
		for i := 0; i < k; i++ {
			o = append(o, 0x80|t.R.Byte())
		}
		if t.R.Bool() {
			o[len(o)-1] &= 0x7f
		}
		if t.R.Bool() {
			o = append(o, t.R.Bytes(t.R.N(20))...)
		}
		if _, _, err := t.decode(v, o); err != mqttp.CodeMalformedPacket {
			t.Fatalf("remaining length of more than four bytes %x: %v", o, err)
		}
		t.Eval()
	})
	// complete packets, however malformed, are never "incomplete"
	c.Each("complete", c.Scale(200000, 5000000), func(t *T) {
		v, b := hostile(t.R)
		if t.R.P(1, 2) && len(b) > 2 {
			// cut a field short inside a complete frame
			k := 2 + t.R.N(len(b)-2)
			b = gen.Refit(b[:k:k])
		}
		if len(b) < 2 {
			return
		}
		x, n := ref.ReadVarInt(b[1:])
		if n <= 0 || int(x) != len(b)-1-n {
			return
		}
		_, _, err := t.decode(v, b)
		if insufficient(err) {
			t.Fatalf("complete packet %x reported as incomplete", b[:min(len(b), 100)])
		}
		t.Eval()
		t.Distinct(b, v)
	})
	c.shortPackets("short-complete", 3, func(t *T, v byte, b []byte) {
		if _, _, err := t.decode(v, b); insufficient(err) {
			t.Fatalf("complete packet %x reported as incomplete", b)
		}
		t.Eval()
	})
	// a reader that relies on the reports alone
	c.Each("stream", c.Scale(3000, 60000), func(t *T) {
		v := byte(3 + t.R.N(3))
		var want []*ref.Pkt
		var stream []byte
		for k := 2 + t.R.N(12); k > 0; k-- {
			ts := gen.TypesFor(v)
			p := t.R.Pkt(v, ts[t.R.N(len(ts))])
			if t.R.P(1, 4) {
				p = t.R.Pkt(v, ref.PUBLISH)
			}
			b := p.Encode(ref.Full)
			if len(b) > 50000 || ref.Decode(v, b).Verdict != ref.Accept {
				continue
			}
			want = append(want, p)
			stream = append(stream, b...)
		}
		var got []*ref.Pkt
		have := 0 // bytes received
		win := func(lo, hi int) []byte { return stream[lo:hi:hi] }
		if t.R.Bool() { // the rest of the buffer is there, but not received yet
			win = func(lo, hi int) []byte { return stream[lo:hi] }
		}
		pos := 0
		for pos < len(stream) {
			if have < len(stream) {
				have = min(len(stream), have+1+t.R.N(1+t.R.N(200)))
			}
			for pos < have {
				m, n, err := t.decode(v, win(pos, have))
				if insufficient(err) {
					if have == len(stream) && n > 0 && pos+n <= have {
						t.Fatalf("reader stalls: all %d bytes present, %d wanted", have-pos, n)
					}
					if have == len(stream) {
						t.Fatalf("reader stalls at the end of the stream, total %d", n)
					}
					break
				}
				if err != nil { // surplus: cut at the reported length and decode again
					if n <= 0 || pos+n >= have {
						t.Fatalf("no usable length reported: %d of %d, %v", n, have-pos, err)
					}
					m, n, err = t.decode(v, win(pos, pos+n))
					if err != nil {
						t.Fatalf("packet %d cut at its reported length: %v", len(got), err)
					}
				}
				got = append(got, t.extract(m))
				pos += n
				t.Count("packets reassembled")
			}
		}
		if len(got) != len(want) {
			t.Fatalf("%d packets sent, %d reassembled", len(want), len(got))
		}
		for i := range want {
			t.same("reassembled packet", want[i], got[i])
		}
		t.EvalN(len(got))
		t.Distinct(stream)
	})
}

func c08(c *C) {
	one := func(t *T, p *ref.Pkt) {
		m := t.build(p)
		if t.R.P(1, 4) { // decoded packets too
			b := p.Encode(ref.Full)
			if d, _, err := t.decode(p.V, b); err == nil {
				m = d
			}
		}
		n, err := m.Size()
		if err != nil {
			t.Fatalf("Size: %v", err)
		}
		pad := t.R.N(40)
		var dirt [2]byte
		dirt[0] = t.R.Byte()
		dirt[1] = ^dirt[0]
		for i, x := range dirt {
			buf := bytes.Repeat([]byte{x}, n+pad)
			if i == 1 && t.R.Bool() { // a buffer that held another packet
				copy(buf, t.R.Bytes(min(n, 4096)))
			}
			tail := append([]byte(nil), buf[n:]...)
			k, err := m.Encode(buf)
			if err != nil {
				t.Fatalf("Encode into %d bytes: %v", n+pad, err)
			}
			if k != n {
				t.Fatalf("%s v%d: Size %d, Encode %d", ref.TypeName[p.T], p.V, n, k)
			}
			t.Input(buf)
			if !bytes.Equal(buf[n:], tail) {
				t.Fatalf("%s v%d: Encode wrote beyond the %d bytes it reported", ref.TypeName[p.T], p.V, n)
			}
			t.refAccept(p, buf[:n])
			if l, _ := ref.ReadVarInt(buf[1:n]); int64(l) != int64(m.(lengther).RemainingLength()) {
				t.Fatalf("%s v%d encoded with the length field %d, RemainingLength %d", ref.TypeName[p.T], p.V, l, m.(lengther).RemainingLength())
			}
			if s, err := m.Size(); err != nil || s != n {
				t.Fatalf("Size changed from %d to %d (%v) by encoding", n, s, err)
			}
			t.Eval()
		}
		h, err := mqttp.Encode(m)
		if err != nil || len(h) != n {
			t.Fatalf("Encode helper: %d bytes, %v", len(h), err)
		}
		short := func(k int) {
			buf := bytes.Repeat([]byte{0xA5}, k)
			if k > 0 && t.R.Bool() {
				// spare capacity is not the caller's promise
				buf = append(make([]byte, 0, n+8), buf...)
			}
			g, err := m.Encode(buf)
			if err != mqttp.ErrInsufficientBufferSize {
				t.Fatalf("Encode of %d bytes into %d: error %v", n, k, err)
			}
			if g != n {
				t.Fatalf("Encode of %d bytes into %d reports %d needed", n, k, g)
			}
			for _, x := range buf {
				if x != 0xA5 {
					t.Fatalf("refused Encode touched the buffer")
				}
			}
			full := buf[:cap(buf)]
			for _, x := range full[k:] {
				if x != 0 {
					t.Fatalf("refused Encode wrote beyond the buffer")
				}
			}
			t.Eval()
		}
		if n < 60 {
			for k := 0; k < n; k++ {
				short(k)
			}
		} else {
			for _, k := range []int{0, 1, 2, n / 2, n - 2, n - 1} {
				short(k)
			}
		}
		if k, err := m.Encode(nil); err != mqttp.ErrInsufficientBufferSize || k != n {
			t.Fatalf("Encode(nil): %d, %v", k, err)
		}
		t.same("content after encoding", p, t.extract(m))
		t.tag(p)
		t.Distinct(h, p.V)
		t.Sample("%s v%d size %d", ref.TypeName[p.T], p.V, n)
	}
	c.big(1<<24, one)
	c.packets("buffers", 60000, 1500000, one)
	refilled(c)
	// shared buffer across a sequence of packets
	c.Each("reuse", c.Scale(3000, 60000), func(t *T) {
		buf := t.R.Bytes(70000)
		for k := 0; k < 12; k++ {
			p := t.R.Any()
			m := t.build(p)
			n, err := m.Size()
			if err != nil || n > len(buf) {
				continue
			}
			if g, err := m.Encode(buf); err != nil || g != n {
				t.Fatalf("Encode into a reused buffer: %d, %v", g, err)
			}
			t.refAccept(p, buf[:n])
			t.Eval()
			t.Distinct(buf[:n])
		}
	})
}

// refilled: a packet that was encoded and then changed is encoded as what it is now,
// whether or not its size is asked for in between
func refilled(c *C) {
	c.Each("refilled", c.Scale(40000, 800000), func(t *T) {
		v := byte(3 + t.I%3)
		tys := gen.TypesFor(v)
		ty := tys[t.R.N(len(tys))]
		p := t.R.Pkt(v, ty)
		m := t.build(p)
		hist := "built"
		for k := 1 + t.R.N(4); k > 0; k-- {
			switch t.R.N(5) {
			case 0:
				_, _ = m.Size()
				hist += " Size"
			case 1:
				_, _ = m.Encode(nil)
				hist += " Encode(nil)"
			case 2:
				_, _ = mqttp.Encode(m)
				hist += " mqttp.Encode"
			default:
				_, _ = sizeless(m)
				hist += " Encode"
			}
			if t.R.P(1, 4) {
				m.PropertiesDiscard()
				hist += " discard"
			}
			if err := adapt.Fill(t.R, m, t.R.Pkt(v, ty)); err != nil {
				t.Fatalf("%s v%d, %s: changing the packet: %v", ref.TypeName[ty], v, hist, err)
			}
			hist += " change"
			w := t.extract(m)
			if w.Topic == "" && ty == ref.PUBLISH && !hasProp(w.Props, 0x23) {
				return // not a packet any more
			}
			if ty == ref.PUBLISH && w.QoS == 0 {
				w.HasID, w.ID, w.Dup = false, 0, false
				m.(*mqttp.Publish).SetDup(false)
			}
			b, err := sizeless(m)
			if err != nil {
				t.Fatalf("%s v%d, %s: Encode: %v", ref.TypeName[ty], v, hist, err)
			}
			t.Input(b)
			x := ref.Decode(v, b)
			if x.Verdict == ref.Reject {
				t.Fatalf("%s v%d, %s: emitted packet is malformed: %s", ref.TypeName[ty], v, hist, x.Class)
			}
			if d := ref.Diff(w, x.Pkt); d != "" {
				t.Fatalf("%s v%d, %s: emitted packet differs from the packet: %s", ref.TypeName[ty], v, hist, d)
			}
			if n, err := m.Size(); err != nil || n != len(b) {
				t.Fatalf("%s v%d, %s: Size %d (%v), Encode wrote %d", ref.TypeName[ty], v, hist, n, err, len(b))
			}
			t.Eval()
			t.Distinct(b, v)
		}
		t.Sample("%s v%d %s", ref.TypeName[ty], v, hist)
	})
}

var zeroMap []byte

// zeroBytes of address space are at hand: 6 GiB, or 1 GiB where int has 32 bits
const zeroBytes = int(1 << 30 * (1 + 5*(^uint(0)>>63)))

// zeroes are n read-only zero bytes that take no memory until they are read
func zeroes(n int) []byte {
	return zeroMap[:n:n]
}

func c09(c *C) {
	var err error
	if zeroMap, err = syscall.Mmap(-1, 0, zeroBytes, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE); err != nil {
		panic(err)
	}
	const lim = 268435455
	type job struct {
		name string
		f    func() (mqttp.IFace, int64) // packet and its exact remaining length
		enc  bool                        // also encode fully when legal
	}
	var jobs []job
	add := func(name string, enc bool, f func() (mqttp.IFace, int64)) { jobs = append(jobs, job{name, f, enc}) }
	sizes := []int{lim - 1, lim, lim + 1, lim + 2, lim + 3, lim + 127, lim + 128, 1 << 29}
	for _, n := range []int64{1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 5000, 3 << 30, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1<<32 + 300, 1<<32 + lim, 5 << 30} {
		if n <= int64(zeroBytes) {
			sizes = append(sizes, int(n))
		}
	}
	for _, v := range []byte{3, 4, 5} {
		v := v
		for _, q := range []byte{0, 1} {
			q := q
			for _, s := range sizes {
				s := s
				add(fmt.Sprintf("PUBLISH v%d qos%d payload remlen %d", v, q, s), q == 1 || v == 4, func() (mqttp.IFace, int64) {
					m := mqttp.NewPublish(pv(v))
					over := 2 + 3
					if q > 0 {
						over += 2
						m.SetPacketID(5)
					}
					if v == 5 {
						over++
					}
					_ = m.Set("a/b", zeroes(s-over), mqttp.QosType(q), false, false)
					return m, int64(s)
				})
			}
		}
	}
	// user properties, n pairs of 65535+65535
	big := strings.Repeat("p", 65535)
	for i, ty := range propTypes {
		ty := ty
		for _, n := range []int{16400, 32800, 40000} {
			n := n
			// each pair is looked at several times: the largest ones only for some of the types
			if n > 20000 && i%4 != 0 && c.Scale(0, 1) == 0 {
				continue
			}
			add(fmt.Sprintf("%s %d user properties", ref.TypeName[ty], n), false, func() (mqttp.IFace, int64) {
				m := baseV5(ty)
				_ = m.PropertySet(mqttp.PropertyUserProperty, pairs(n, big, big))
				return m, int64(n) * 131075
			})
		}
	}
	add("CONNECT will with 32800 user properties", false, func() (mqttp.IFace, int64) {
		m := mqttp.NewConnect(5)
		w := mqttp.NewPublish(5)
		_ = w.Set("w", []byte("x"), 0, false, false)
		_ = w.PropertySet(mqttp.PropertyUserProperty, pairs(32800, big, big))
		_ = m.SetWill(w)
		return m, 32800 * 131075
	})
	// lists
	for _, n := range []int{4097, 32770, 65600, 70000} {
		n := n
		for _, v := range []byte{4, 5} {
			v := v
			add(fmt.Sprintf("SUBSCRIBE v%d %d topics", v, n), false, func() (mqttp.IFace, int64) {
				m := mqttp.NewSubscribe(pv(v))
				m.SetPacketID(1)
				tp, _ := mqttp.NewSubscribeTopic([]byte(big), 0)
				for i := 0; i < n; i++ {
					_ = m.AddTopic(tp)
				}
				return m, int64(n) * 65538
			})
			add(fmt.Sprintf("UNSUBSCRIBE v%d %d topics", v, n), false, func() (mqttp.IFace, int64) {
				m := mqttp.NewUnSubscribe(pv(v))
				m.SetPacketID(1)
				tp, _ := mqttp.NewTopic([]byte(big))
				for i := 0; i < n; i++ {
					_ = m.AddTopic(tp)
				}
				return m, int64(n) * 65537
			})
		}
	}
	add("SUBACK v4 codes beyond the limit", false, func() (mqttp.IFace, int64) {
		m := mqttp.NewSubAck(4)
		m.SetPacketID(1)
		_ = m.AddReturnCodes(make([]mqttp.ReasonCode, lim-1))
		return m, lim + 1
	})
	add("SUBACK v4 codes at the limit", true, func() (mqttp.IFace, int64) {
		m := mqttp.NewSubAck(4)
		m.SetPacketID(1)
		_ = m.AddReturnCodes(make([]mqttp.ReasonCode, lim-2))
		return m, lim
	})
	// exactly at the limit and one beyond it, for everything that can get there
	for _, d := range []int{0, 1} {
		d := d
		for _, ty := range propTypes {
			ty := ty
			add(fmt.Sprintf("%s user properties, limit%+d", ref.TypeName[ty], d), false, func() (mqttp.IFace, int64) {
				m := baseV5(ty)
				must(m.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "k", V: "v"}))
				n, err := m.Size()
				must(err)
				rest := lim + d - (n - 2 - 1 - 7) - 4 // for the properties
				l := pairs(rest/131075, big, big)
				rest = rest%131075 - 5
				l = append(l, mqttp.StringPair{K: big[:rest/2], V: big[:rest-rest/2]})
				must(m.PropertySet(mqttp.PropertyUserProperty, l))
				return m, int64(lim + d)
			})
		}
		for _, v := range []byte{3, 4, 5} {
			v := v
			add(fmt.Sprintf("SUBSCRIBE v%d topics, limit%+d", v, d), false, func() (mqttp.IFace, int64) {
				m := mqttp.NewSubscribe(pv(v))
				m.SetPacketID(1)
				rest := lim + d - 2
				if v == 5 {
					rest--
				}
				tp, err := mqttp.NewSubscribeTopic([]byte(big), 0)
				must(err)
				for ; rest > 65538; rest -= 65538 {
					must(m.AddTopic(tp))
				}
				tp, err = mqttp.NewSubscribeTopic([]byte(big[:rest-3]), 0)
				must(err)
				must(m.AddTopic(tp))
				return m, int64(lim + d)
			})
			add(fmt.Sprintf("UNSUBSCRIBE v%d topics, limit%+d", v, d), false, func() (mqttp.IFace, int64) {
				m := mqttp.NewUnSubscribe(pv(v))
				m.SetPacketID(1)
				rest := lim + d - 2
				if v == 5 {
					rest--
				}
				tp, err := mqttp.NewTopic([]byte(big))
				must(err)
				for ; rest > 65537; rest -= 65537 {
					must(m.AddTopic(tp))
				}
				tp, err = mqttp.NewTopic([]byte(big[:rest-2]))
				must(err)
				must(m.AddTopic(tp))
				return m, int64(lim + d)
			})
		}
		// properties and the list together: limit%+d in all
		for _, ty := range []byte{ref.SUBACK, ref.UNSUBACK, ref.SUBSCRIBE, ref.UNSUBSCRIBE} {
			ty := ty
			add(fmt.Sprintf("%s v5 properties and list, limit%+d", ref.TypeName[ty], d), false, func() (mqttp.IFace, int64) {
				m := baseV5(ty)
				const k = 60000
				list := 0
				switch x := m.(type) {
				case *mqttp.SubAck:
					must(x.AddReturnCodes(make([]mqttp.ReasonCode, k-1)))
					list = k
				case *mqttp.UnSubAck:
					must(x.AddReturnCodes(make([]mqttp.ReasonCode, k-1)))
					list = k
				case *mqttp.Subscribe:
					tp, err := mqttp.NewSubscribeTopic([]byte(big[:k]), 0)
					must(err)
					must(x.AddTopic(tp))
					list = 4 + k + 3
				case *mqttp.UnSubscribe:
					tp, err := mqttp.NewTopic([]byte(big[:k]))
					must(err)
					must(x.AddTopic(tp))
					list = 3 + k + 2
				}
				rest := lim + d - 2 - list - 4
				l := pairs(rest/131075, big, big)
				rest = rest%131075 - 5
				l = append(l, mqttp.StringPair{K: big[:rest/2], V: big[:rest-rest/2]})
				must(m.PropertySet(mqttp.PropertyUserProperty, l))
				return m, int64(lim + d)
			})
		}
		add(fmt.Sprintf("CONNECT, properties of its own and of the will, limit%+d", d), false, func() (mqttp.IFace, int64) {
			m := mqttp.NewConnect(5)
			w := mqttp.NewPublish(5)
			must(w.Set("w", []byte("x"), 0, false, false))
			must(w.PropertySet(mqttp.PropertyUserProperty, pairs(1000, big, big)))
			must(m.SetWill(w))
			// MQTT, level, flags, keep alive; length of properties; client id; will: length of properties, topic, payload
			rest := lim + d - (6 + 1 + 1 + 2) - 4 - 2 - 4 - 1000*131075 - 3 - 3
			l := pairs(rest/131075, big, big)
			rest = rest%131075 - 5
			l = append(l, mqttp.StringPair{K: big[:rest/2], V: big[:rest-rest/2]})
			must(m.PropertySet(mqttp.PropertyUserProperty, l))
			return m, int64(lim + d)
		})
	}
	// around every varint boundary
	for _, s := range []int{126, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153, 1 << 24, 1<<27 + 1} {
		s := s
		for _, v := range []byte{3, 5} {
			v := v
			add(fmt.Sprintf("PUBLISH v%d remlen %d", v, s), true, func() (mqttp.IFace, int64) {
				m := mqttp.NewPublish(pv(v))
				over := 3
				if v == 5 {
					over++
				}
				_ = m.Set("t", zeroes(s-over), 0, false, false)
				return m, int64(s)
			})
		}
	}
	workers := c.Workers
	if bits.UintSize == 32 { // little address space
		workers = 2
	}
	c.EachN("sizes", len(jobs), workers, func(t *T) {
		j := jobs[t.I]
		m, rl := j.f()
		sz, err := m.Size()
		t.Eval()
		t.Distinct(j.name)
		if rl > lim {
			if err == nil {
				t.Fatalf("%s: remaining length %d exceeds the limit, Size returns %d", j.name, rl, sz)
			}
			t.Count("refused")
			for _, k := range []int{0, 64, 4096} {
				buf := make([]byte, k)
				if n, e := m.Encode(buf); e == nil {
					t.Fatalf("%s: remaining length %d encoded into %d bytes as %d", j.name, rl, k, n)
				}
				for _, x := range buf {
					if x != 0 {
						t.Fatalf("%s: refused packet was partly emitted", j.name)
					}
				}
			}
			if b, e := mqttp.Encode(m); e == nil {
				t.Fatalf("%s: Encode helper emitted %d bytes for remaining length %d", j.name, len(b), rl)
			}
			t.Sample("%s refused", j.name)
			// what is taken out of it again does not count
			m.PropertiesDiscard()
			if x, ok := m.(*mqttp.Publish); ok {
				x.SetPayload([]byte("x"))
			}
			if x, ok := m.(*mqttp.Connect); ok {
				x.ResetWill()
			}
			if strings.Contains(j.name, "topics") || strings.Contains(j.name, "codes") {
				return // cannot be taken out
			}
			b, e := sizeless(m)
			if e != nil {
				t.Fatalf("%s: refused to the end, though its content is gone: %v", j.name, e)
			}
			if x := ref.Decode(byte(m.Version()), b); x.Verdict == ref.Reject {
				t.Fatalf("%s: content taken out, encoding is malformed: %s", j.name, x.Class)
			}
			if n, e := m.Size(); e != nil || n != len(b) {
				t.Fatalf("%s: content taken out, Size %d (%v), encoding of %d bytes", j.name, n, e, len(b))
			}
			return
		}
		hl := len(ref.VarInt(uint32(rl)))
		if err != nil || int64(sz) != int64(1+hl)+rl {
			t.Fatalf("%s: remaining length %d within the limit: Size %d, %v", j.name, rl, sz, err)
		}
		t.Count("accepted")
		if !j.enc {
			return
		}
		b, err := mqttp.Encode(m)
		if err != nil || len(b) != sz {
			t.Fatalf("%s: Encode: %d bytes of %d, %v", j.name, len(b), sz, err)
		}
		x, n := ref.ReadVarInt(b[1:])
		if n != hl || int64(x) != rl {
			t.Fatalf("%s: length field says %d in %d bytes, content is %d", j.name, x, n, rl)
		}
		t.Count("encoded at or below the limit")
		t.Sample("%s encoded", j.name)
	})
}

// baseV5 is a minimal legal packet
func baseV5(ty byte) mqttp.IFace {
	m := adapt.Direct(5, ty)
	if s, ok := m.(adapt.Setter); ok {
		s.SetPacketID(1)
	}
	switch x := m.(type) {
	case *mqttp.Publish:
		_ = x.SetTopic("a")
	case *mqttp.Subscribe:
		tp, _ := mqttp.NewSubscribeTopic([]byte("a"), 0)
		_ = x.AddTopic(tp)
	case *mqttp.UnSubscribe:
		tp, _ := mqttp.NewTopic([]byte("a"))
		_ = x.AddTopic(tp)
	case *mqttp.SubAck:
		_ = x.AddReturnCode(0)
	case *mqttp.UnSubAck:
		_ = x.AddReturnCode(0)
	}
	return m
}

// mqtt5 tells whether b is an MQTT 5 packet when read under v: a CONNECT names
// its own version
func mqtt5(v byte, b []byte) bool {
	if len(b) == 0 || b[0]>>4 == 0 {
		return false
	}
	if b[0]>>4 != ref.CONNECT {
		return v == 5
	}
	if b[0]&15 != 0 && v != 5 {
		return false // broken before it could name it
	}
	_, n := ref.ReadVarInt(b[1:])
	return n > 0 && bytes.HasPrefix(b[1+n:], []byte("\x00\x04MQTT\x05"))
}

// refusal demands that err, the error of Decode under v, does not read as
// acceptance and that its reason code can be sent to the peer
func (t *T) refusal(v byte, b []byte, err error) {
	code, ok := err.(mqttp.ReasonCode)
	if !ok {
		t.Count("errors that are not reason codes")
		return
	}
	if code == 0 {
		t.Fatalf("%x under v%d is refused with the success code", b[:min(len(b), 100)], v)
	}
	if !mqtt5(v, b) {
		t.Count("reason codes of older versions")
		return
	}
	carrier := byte(ref.DISCONNECT)
	if b[0]>>4 == ref.CONNECT {
		carrier = ref.CONNACK
	}
	if code < 0x80 || ref.CodeSender(carrier, byte(code)) == ref.Nobody {
		t.Fatalf("MQTT 5 packet %x is refused with reason code %#x, which %s cannot carry as an error", b[:min(len(b), 100)], byte(code), ref.TypeName[carrier])
	}
	t.Count(fmt.Sprintf("%s code %#x", ref.TypeName[carrier], byte(code)))
}

func c35(c *C) {
	try := func(t *T, v byte, b []byte) {
		m, _, err := t.decode(v, b)
		if err != nil {
			t.refusal(v, b, err)
			t.Distinct(b, v)
			t.Eval()
		} else if m == nil {
			t.Fatalf("neither message nor error")
		}
	}
	// cut everywhere, with the length field saying so
	c.packets("cut", 12000, 400000, func(t *T, p *ref.Pkt) {
		if len(p.Payload) > 200 {
			p.Payload = p.Payload[:200]
		}
		b := p.Encode(ref.Form(t.R.N(3)))
		if len(b) > 2000 {
			b = gen.Refit(b[:2000])
		}
		_, hl := ref.ReadVarInt(b[1:])
		hl++
		step := 1 + len(b)/150
		for k := hl; k < len(b); k += step {
			try(t, p.V, gen.Refit(append([]byte(nil), b[:k]...)))
		}
		for i := 0; i < 60; i++ { // one byte changed, and everything from there on cut
			at := t.R.N(len(b))
			x := append([]byte(nil), b...)
			x[at] = t.R.Byte()
			try(t, p.V, x)
			if at >= hl {
				try(t, p.V, gen.Refit(x[:at+1]))
				if at+1 < len(b) {
					try(t, p.V, gen.Refit(x[:at+1+t.R.N(len(b)-at-1)]))
				}
			}
		}
		try(t, p.V, gen.Refit(append(append([]byte(nil), b...), t.R.Bytes(1+t.R.N(3))...)))
		t.tag(p)
		t.Sample("%s v%d", ref.TypeName[p.T], p.V)
	})
	c.Each("mutations", c.Scale(200000, 6000000), func(t *T) {
		v, b := hostile(t.R)
		try(t, v, b)
	})
	c.shortPackets("short", c.Scale(2, 4), try)
	// every CONNECT flag byte and level, cut at every place
	c.Each("connect", 256, func(t *T) {
		for v := byte(3); v <= 5; v++ {
			b := connectWithFlags(v, byte(t.I))
			for k := 2; k <= len(b); k++ {
				try(t, v, gen.Refit(append([]byte(nil), b[:k]...)))
			}
			x := append([]byte(nil), b...)
			x[4+len(ref.ProtoName(v))] = byte(t.I) // the level
			for w := byte(3); w <= 5; w++ {
				try(t, w, x)
				try(t, w, gen.Refit(append([]byte(nil), x[:5+len(ref.ProtoName(v))]...)))
			}
		}
	})
	// every reason code value in every packet that has one
	c.Each("codes", 256*16, func(t *T) {
		ty, code := byte(t.I/256), byte(t.I)
		for v := byte(3); v <= 5; v++ {
			f := ty<<4 | ref.Flags(ty)
			for _, body := range [][]byte{{code}, {code, 0}, {0, code}, {0, 7, code}, {0, 7, code, 0}, {0, 7, 0, code}, {0, 1, 'a', code}, {0, 7, 0, 1, 'a', code}, {0, 7, 0, 0, 1, 'a', code}} {
				try(t, v, ref.Frame(f, body))
				try(t, v, ref.Frame(f|code&15, body))
			}
		}
	})
	c.Exhausted("all CONNECT flag bytes and protocol levels cut at every place; all code bytes in short bodies of every packet type")
}
