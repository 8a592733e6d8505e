package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/ref"
)

func init() {
	checks["C37"] = &Check{Run: c37, Rule: "random histories of setter, list, property, encoding and reading calls on every packet type other than CONNECT and PUBLISH, fresh and decoded, two packets at a time sharing topics, code lists and values; non-trivial = distinct histories", Note: "oracle: a model holding the last accepted values, compared through accessors after every call and through the reference decoder after every encoding"}
}

var ackTypes = []byte{ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH, ref.PINGREQ, ref.PINGRESP}

type ackModel struct {
	m    mqttp.IFace
	p    *ref.Pkt
	hist string
}

// ackPool is what several packets share
type ackPool struct {
	topics []*mqttp.Topic
	subs   []ref.Sub
	codes  [][]mqttp.ReasonCode
	was    []string
}

func (a *ackPool) intact(t *T, hist string) {
	for i, s := range a.subs {
		x := a.topics[i]
		if x.Full() != s.F || byte(x.Ops()) != s.Ops {
			t.Fatalf("after%s: a topic given to packets changed: %q %#x -> %q %#x", hist, s.F, s.Ops, x.Full(), x.Ops())
		}
	}
	for i, s := range a.codes {
		if g := fmt.Sprint(s[:cap(s)]); g != a.was[i] {
			t.Fatalf("after%s: a code list given to packets was written to: %s -> %s", hist, a.was[i], g)
		}
	}
}

func legalCode(v, ty, c byte) bool { return strings.IndexByte(string(ref.CodesOf(v, ty)), c) >= 0 }

var errStop = errors.New("stop")

func (a *ackModel) step(t *T, pool *ackPool) {
	r, p, m := t.R, a.p, a.m
	log := func(f string, x ...interface{}) { a.hist += " " + head(fmt.Sprintf(f, x...), 60) }
	bad := func(f string, x ...interface{}) {
		t.Fatalf("%s v%d after%s: %s", ref.TypeName[p.T], p.V, a.hist, fmt.Sprintf(f, x...))
	}
	code := func() (byte, bool) {
		v := p.V
		if v < 5 {
			switch p.T { // nothing of it goes on the wire, callers give the MQTT 5 code
			case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT:
				v = 5
			}
		}
		l := ref.CodesOf(v, p.T)
		if r.P(1, 4) {
			c := r.Byte()
			return c, legalCode(v, p.T, c)
		}
		return r.Pick(l), true
	}
	switch k := r.N(12); {
	case k <= 1 && ref.HasID(p.T):
		id := r.U16()
		if id == 0 {
			id = 1
		}
		log("SetPacketID(%d)", id)
		m.(adapt.Setter).SetPacketID(mqttp.IDType(id))
		p.HasID, p.ID = true, id
	case k == 2: // properties
		if p.V != 5 || !ref.HasProps(p.T) {
			log("PropertySet(older)")
			if m.PropertySet(0x26, mqttp.StringPair{K: "k", V: "v"}) == nil {
				bad("property accepted")
			}
			return
		}
		if r.P(1, 5) {
			log("PropertiesDiscard")
			m.PropertiesDiscard()
			p.Props = nil
			return
		}
		var ids []uint32
		for _, id := range ref.PropIDs {
			if ref.Allowed(id, p.T) {
				ids = append(ids, id)
			}
		}
		id := ids[r.N(len(ids))]
		l := []ref.Prop{r.PropFor(id)}
		for ref.MayRepeat(id, p.T) && r.Bool() {
			l = append(l, r.PropFor(id))
		}
		log("PropertySet(%#x x%d)", id, len(l))
		if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(r, l)); err != nil {
			bad("%v", err)
		}
		p.Props = append(without(p.Props, id), l...)
	case k == 3: // refused property
		if p.V != 5 {
			return
		}
		var id uint32
		for id = ref.PropIDs[r.N(len(ref.PropIDs))]; ref.Allowed(id, p.T); id = uint32(r.N(300)) {
		}
		log("PropertySet(%#x)", id)
		if m.PropertySet(mqttp.PropertyID(id), uint32(1)) == nil {
			bad("foreign property accepted")
		}
	case k <= 5: // look at everything
		log("look")
		switch r.N(6) {
		case 0:
			_, _ = m.Size()
		case 1: // too short a buffer
			if n, err := m.Size(); err == nil && n > 0 {
				if _, err = m.Encode(make([]byte, r.N(n))); err == nil {
					bad("encoded into too short a buffer")
				}
			}
		case 2:
			n := 0
			if e, ok := m.(interface {
				ForEachTopic(func(*mqttp.Topic) error) error
			}); ok {
				err := e.ForEachTopic(func(*mqttp.Topic) error {
					if n++; n > 1 {
						return errStop
					}
					return nil
				})
				if (err != nil) != (len(p.Subs) > 1) || err != nil && err != errStop {
					bad("iteration over %d topics stopped at the second returns %v", len(p.Subs), err)
				}
			}
		case 3:
			if p.V == 5 {
				_ = m.PropertyForEach(func(id mqttp.PropertyID, x mqttp.PropertyToType) { _, _ = x.AsString() })
			}
			_ = m.PropertyGet(0x26)
		case 4:
			if m.Type() != mqttp.Type(p.T) || byte(m.Version()) != p.V || m.Type().Name() != ref.TypeName[p.T] {
				bad("type %v, version %d", m.Type(), m.Version())
			}
			if x, ok := m.(interface{ Flags() byte }); ok && x.Flags() != ref.Flags(p.T) {
				bad("flags %#x", x.Flags())
			}
		case 5:
			id, err := m.ID()
			if (err == nil) != p.HasID || uint16(id) != p.ID {
				bad("ID %d, %v", id, err)
			}
		}
	case k <= 7:
		a.wire(t)
	default:
		switch x := m.(type) {
		case *mqttp.ConnAck:
			if r.Bool() {
				s := r.Bool()
				log("SetSessionPresent(%v)", s)
				x.SetSessionPresent(s)
				p.SessionPresent = s
				return
			}
			c, ok := code()
			log("SetReturnCode(%#x)", c)
			err := x.SetReturnCode(mqttp.ReasonCode(c))
			if ok && err != nil {
				bad("%v", err)
			}
			if err == nil {
				if !legalCode(4, p.T, c) && !legalCode(5, p.T, c) {
					bad("code accepted")
				}
				p.Code = c
			}
		case *mqttp.Ack:
			c, ok := code()
			log("SetReason(%#x)", c)
			x.SetReason(mqttp.ReasonCode(c))
			if g := byte(x.Reason()); g != c && (g != p.Code || ok && p.V == 5) {
				bad("the reason was %#x and is %#x now", p.Code, g)
			}
			p.Code = byte(x.Reason())
		case *mqttp.Disconnect:
			c, ok := code()
			log("SetReasonCode(%#x)", c)
			x.SetReasonCode(mqttp.ReasonCode(c))
			if g := byte(x.ReasonCode()); g != c && (g != p.Code || ok && p.V == 5) {
				bad("the reason was %#x and is %#x now", p.Code, g)
			}
			p.Code = byte(x.ReasonCode())
		case *mqttp.Auth:
			c, ok := code()
			log("SetReasonCode(%#x)", c)
			if err := x.SetReasonCode(mqttp.ReasonCode(c)); (err == nil) != ok {
				bad("%v", err)
			}
			if ok {
				p.Code = c
			}
		case *mqttp.Subscribe, *mqttp.UnSubscribe:
			i := r.N(len(pool.topics))
			log("AddTopic(%d)", i)
			s := pool.subs[i]
			if p.T == ref.UNSUBSCRIBE {
				if err := m.(*mqttp.UnSubscribe).AddTopic(pool.topics[i]); err != nil {
					bad("%v", err)
				}
			} else if err := m.(*mqttp.Subscribe).AddTopic(pool.topics[i]); err != nil {
				bad("%v", err)
			}
			p.Subs = append(p.Subs, s)
		case *mqttp.SubAck, *mqttp.UnSubAck:
			if p.T == ref.UNSUBACK && p.V < 5 {
				return
			}
			y := m.(interface {
				AddReturnCodes([]mqttp.ReasonCode) error
				AddReturnCode(mqttp.ReasonCode) error
			})
			if r.P(1, 3) {
				c, ok := code()
				log("AddReturnCode(%#x)", c)
				if err := y.AddReturnCode(mqttp.ReasonCode(c)); (err == nil) != ok {
					bad("%v", err)
				}
				if ok {
					p.Codes = append(p.Codes, c)
				}
				return
			}
			i := r.N(len(pool.codes))
			ok := true
			for _, c := range pool.codes[i] {
				ok = ok && legalCode(p.V, p.T, byte(c))
			}
			log("AddReturnCodes(list %d of %d)", i, len(pool.codes[i]))
			if err := y.AddReturnCodes(pool.codes[i]); (err == nil) != ok {
				bad("%v", err)
			}
			if ok {
				for _, c := range pool.codes[i] {
					p.Codes = append(p.Codes, byte(c))
				}
			} else {
				t.Count("refused lists")
			}
		}
	}
}

// view compares the accessors with the model
func (a *ackModel) view(t *T) {
	t.same("after"+a.hist+": content", a.p, t.extract(a.m))
	t.Eval()
}

// wire encodes the packet and has the reference read it
func (a *ackModel) wire(t *T) {
	a.hist += " encode"
	p := a.p.Clone()
	legal := legalCode(p.V, p.T, p.Code) && !(p.SessionPresent && p.Code != 0)
	if p.V < 5 {
		switch p.T {
		case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT:
			legal, p.Code = legalCode(5, p.T, p.Code), 0
		}
	}
	if ref.HasID(p.T) && !p.HasID {
		legal = false
	}
	if len(p.Subs) == 0 && (p.T == ref.SUBSCRIBE || p.T == ref.UNSUBSCRIBE) {
		legal = false
	}
	if len(p.Codes) == 0 && p.T == ref.SUBACK {
		legal = false
	}
	for _, s := range p.Subs {
		if s.Ops&4 != 0 && strings.HasPrefix(s.F, "$share/") {
			legal = false
		}
	}
	if legal {
		t.refAccept(p, t.encode(a.m))
		t.Count("encodings")
		t.Eval()
		return
	}
	b, err := sizeless(a.m)
	if err != nil {
		t.Count("encodings refused")
		return
	}
	t.refAccept(p, b)
	t.Count("encodings left open")
}

func c37(c *C) {
	c.Each("histories", c.Scale(60000, 1500000), func(t *T) {
		r := t.R
		v := byte(3 + r.N(3))
		if r.Bool() {
			v = 5
		}
		ty := ackTypes[t.I%len(ackTypes)]
		if ty == ref.AUTH {
			v = 5
		}
		if ty == ref.PINGREQ || ty == ref.PINGRESP {
			if r.P(2, 3) {
				ty = []byte{ref.SUBACK, ref.SUBSCRIBE, ref.DISCONNECT}[r.N(3)]
			}
		}
		pool := &ackPool{}
		for k := 1 + r.N(5); k > 0; k-- {
			s := ref.Sub{F: r.FilterStr()}
			if r.P(1, 30) {
				s.F = strings.Repeat("f", []int{255, 256, 1000, 65535}[r.N(4)])
			}
			var x *mqttp.Topic
			var err error
			if ty == ref.SUBSCRIBE {
				s.Ops = r.SubOps(v, strings.HasPrefix(s.F, "$share/"))
				x, err = mqttp.NewSubscribeTopic([]byte(s.F), mqttp.SubscriptionOptions(s.Ops))
			} else {
				x, err = mqttp.NewTopic([]byte(s.F))
			}
			if err != nil {
				t.Fatalf("topic %q: %v", s.F, err)
			}
			pool.topics, pool.subs = append(pool.topics, x), append(pool.subs, s)
		}
		for k := 1 + r.N(5); k > 0; k-- {
			n := r.N(6)
			if r.P(1, 20) {
				n = 100 + r.N(200)
			} else if r.P(1, 4000) {
				n = []int{4097, 65535, 65536, 65537, 70000 + r.N(70000)}[r.N(5)]
				t.Count("lists of thousands of codes")
			}
			l := make([]mqttp.ReasonCode, n, n+r.N(5))
			for i := range l {
				l[i] = mqttp.ReasonCode(r.Pick(ref.CodesOf(v, ty)))
			}
			if n > 0 && r.P(1, 5) || n > 1000 && r.Bool() { // one that is not legal, anywhere
				l[[]int{0, n - 1, r.N(n)}[r.N(3)]] = mqttp.ReasonCode(r.Byte())
			}
			pool.codes, pool.was = append(pool.codes, l), append(pool.was, fmt.Sprint(l[:cap(l)]))
		}
		var two []*ackModel
		for k := 0; k < 2; k++ {
			a := &ackModel{hist: " new"}
			switch r.N(3) {
			case 0: // decoded
				p := r.Pkt(v, ty)
				b := p.Encode(ref.Form(r.N(3)))
				if x := ref.Decode(v, b); x.Verdict != ref.Accept || x.Known != "" {
					b = p.Encode(ref.Full)
				}
				x, _, err := t.decode(v, append([]byte(nil), b...))
				if err != nil {
					t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[ty], v, err)
				}
				a.m, a.p, a.hist = x, p, " decoded"
			case 1:
				a.p = r.Pkt(v, ty)
				a.m, a.hist = t.build(a.p), " built"
			default:
				a.m = adapt.Fresh(t.R, pv(v), ty)
				a.p = &ref.Pkt{V: v, T: ty}
			}
			a.view(t)
			two = append(two, a)
		}
		for k := r.Steps(4, 24); k > 0; k-- {
			a := two[r.N(2)]
			a.step(t, pool)
			a.view(t)
			t.Count("calls")
			if r.P(1, 5) {
				for _, a := range two {
					a.view(t)
				}
			}
		}
		for _, a := range two {
			a.view(t)
			a.wire(t)
			a.view(t)
			pool.intact(t, a.hist)
			t.Distinct(a.hist, int(ty), int(v))
			t.tag(a.p)
		}
		t.Sample("%s v%d:%s", ref.TypeName[ty], v, head(two[0].hist, 200))
	})
	c.EachN("long lists", c.Scale(24, 400), 4, func(t *T) {
		v, ty := byte(3+t.I/4%3), []byte{ref.SUBACK, ref.UNSUBACK, ref.SUBSCRIBE, ref.UNSUBSCRIBE}[t.I%4]
		if ty == ref.UNSUBACK {
			v = 5
		}
		p := conformingFor(t.R, v, ty)
		p.Subs, p.Codes = nil, nil
		a := &ackModel{m: adapt.Fresh(t.R, pv(v), ty), hist: " new", p: p}
		if err := adapt.SetProps(t.R, a.m, p.Props); err != nil {
			t.Fatalf("%v", err)
		}
		a.m.(adapt.Setter).SetPacketID(mqttp.IDType(p.ID))
		legal := ref.CodesOf(v, ty)
		total := []int{66000, 132000, 70000 + t.R.N(130000)}[t.R.N(3)]
		if ty == ref.SUBSCRIBE || ty == ref.UNSUBSCRIBE { // added one by one, which may take the square
			total = 65600
		}
		check := 1 + t.R.N(total)
		for len(p.Codes)+len(p.Subs) < total {
			n := 1 + t.R.N([]int{3, 300, 30000, 90000}[t.R.N(4)])
			var err error
			switch x := a.m.(type) {
			case *mqttp.SubAck, *mqttp.UnSubAck:
				l := make([]mqttp.ReasonCode, n)
				for i := range l {
					l[i] = mqttp.ReasonCode(legal[t.R.N(len(legal))])
					p.Codes = append(p.Codes, byte(l[i]))
				}
				if y, ok := x.(*mqttp.SubAck); ok {
					err = y.AddReturnCodes(l)
				} else {
					err = x.(*mqttp.UnSubAck).AddReturnCodes(l)
				}
			default:
				for n = min(n, total-len(p.Subs)); n > 0 && err == nil; n-- {
					s := ref.Sub{F: fmt.Sprintf("%x/+", len(p.Subs))}
					var tp *mqttp.Topic
					if y, ok := x.(*mqttp.Subscribe); ok {
						s.Ops = byte(len(p.Subs) % 3)
						if tp, err = mqttp.NewSubscribeTopic([]byte(s.F), mqttp.SubscriptionOptions(s.Ops)); err == nil {
							err = y.AddTopic(tp)
						}
					} else if tp, err = mqttp.NewTopic([]byte(s.F)); err == nil {
						err = x.(*mqttp.UnSubscribe).AddTopic(tp)
					}
					p.Subs = append(p.Subs, s)
				}
			}
			if err != nil {
				t.Fatalf("%s v%d: adding to %d entries: %v", ref.TypeName[ty], v, len(p.Codes)+len(p.Subs), err)
			}
			a.hist = fmt.Sprintf(" grown to %d entries", len(p.Codes)+len(p.Subs))
			if len(p.Codes)+len(p.Subs) >= check {
				a.view(t)
				check += 1 + t.R.N(total)
			}
		}
		a.view(t)
		a.wire(t)
		a.view(t)
		t.Eval()
		t.Count("lists grown beyond 65,536 entries")
		t.Distinct("long", t.I, total)
	})
	// packets have nothing in common, whichever way they came about, packets without content included
	c.Each("others", c.Scale(3000, 60000), func(t *T) {
		ty := byte(1 + t.R.N(15))
		var all []mqttp.IFace
		var ps []*ref.Pkt
		var enc [][]byte
		b := map[byte][]byte{}
		one := map[byte]*ref.Pkt{}
		for v := byte(3); v <= 5; v++ {
			if ty != ref.AUTH || v == 5 {
				one[v] = conformingFor(t.R, v, ty)
				b[v] = one[v].Encode(ref.Full)
			}
		}
		for k := 0; k < 8; k++ {
			v := byte(3 + t.R.N(3))
			if one[v] == nil {
				v = 5
			}
			p := one[v]
			var m mqttp.IFace
			var err error
			switch t.R.N(3) {
			case 0:
				if m, _, err = t.decode(v, b[v]); err != nil {
					t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[ty], v, err)
				}
			case 1:
				m = t.build(p)
			default:
				m = adapt.Fresh(t.R, pv(v), ty)
				if err := adapt.Fill(t.R, m, p); err != nil {
					t.Fatalf("%s v%d: %v", ref.TypeName[ty], v, err)
				}
			}
			all, ps, enc = append(all, m), append(ps, p), append(enc, t.encode(m))
		}
		touched := map[int]bool{}
		for k := 0; k < 4; k++ {
			i := t.R.N(len(all))
			touched[i] = true
			what := ""
			switch t.R.N(4) {
			case 0, 1:
				v := pv(byte(3 + t.R.N(3)))
				all[i].SetVersion(v)
				what = fmt.Sprintf("SetVersion(%d)", v)
			case 2:
				all[i].PropertiesDiscard()
				what = "PropertiesDiscard"
			default:
				_ = all[i].PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "other", V: "packet"})
				if s, ok := all[i].(adapt.Setter); ok {
					s.SetPacketID(mqttp.IDType(t.R.U16()))
				}
				what = "new content"
			}
			for j, m := range all {
				if touched[j] {
					continue
				}
				if byte(m.Version()) != ps[j].V || byte(m.Type()) != ty {
					t.Fatalf("%s v%d: %s on another packet made it version %d, type %d", ref.TypeName[ty], ps[j].V, what, m.Version(), m.Type())
				}
				t.same(what+" on another packet", ps[j], t.extract(m))
				if g := t.encode(m); !bytes.Equal(g, enc[j]) && ref.Diff(ps[j], ref.Decode(ps[j].V, g).Pkt) != "" {
					t.Fatalf("%s v%d: %s on another packet changed its encoding: %x, was %x", ref.TypeName[ty], ps[j].V, what, head(string(g), 200), head(string(enc[j]), 200))
				}
			}
		}
		t.Eval()
		t.Count("packets next to others")
		t.Distinct(int(ty), fmt.Sprintf("%x", enc))
	})
	// every code against every other: a refused one leaves the former
	type job struct{ v, t, c byte }
	var jobs []job
	for v := byte(3); v <= 5; v++ {
		for _, ty := range []byte{ref.CONNACK, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.DISCONNECT, ref.AUTH} {
			if ty == ref.AUTH && v < 5 || ty == ref.UNSUBACK && v < 5 {
				continue
			}
			for _, c := range ref.CodesOf(v, ty) {
				jobs = append(jobs, job{v, ty, c})
			}
		}
	}
	c.Each("code-after-code", len(jobs), func(t *T) {
		j := jobs[t.I]
		for x := 0; x < 256; x++ {
			p := conformingFor(t.R, j.v, j.t)
			p.Code, p.Codes, p.SessionPresent = 0, nil, false
			if j.t == ref.SUBACK || j.t == ref.UNSUBACK {
				p.Codes = []byte{j.c}
			} else {
				p.Code = j.c
			}
			m := t.build(p)
			ok := legalCode(j.v, j.t, byte(x))
			var err error
			set := func(c byte) {
				rc := mqttp.ReasonCode(c)
				switch y := m.(type) {
				case *mqttp.ConnAck:
					err = y.SetReturnCode(rc)
				case *mqttp.Ack:
					y.SetReason(rc)
				case *mqttp.SubAck:
					err = y.AddReturnCodes([]mqttp.ReasonCode{mqttp.ReasonCode(j.c), rc, mqttp.ReasonCode(j.c)})
				case *mqttp.UnSubAck:
					err = y.AddReturnCodes([]mqttp.ReasonCode{mqttp.ReasonCode(j.c), rc, mqttp.ReasonCode(j.c)})
				case *mqttp.Disconnect:
					y.SetReasonCode(rc)
				case *mqttp.Auth:
					err = y.SetReasonCode(rc)
				}
			}
			set(byte(x))
			if ok && err != nil {
				t.Fatalf("%s v%d: code %#x after %#x refused: %v", ref.TypeName[j.t], j.v, x, j.c, err)
			}
			t.EvalN(1)
			unchecked := j.t == ref.DISCONNECT || j.t >= ref.PUBACK && j.t <= ref.PUBCOMP
			if unchecked && j.v < 5 {
				t.refAccept(&ref.Pkt{V: j.v, T: j.t, HasID: p.HasID, ID: p.ID}, t.encode(m))
				continue
			}
			switch {
			case p.Codes != nil && err == nil && ok:
				p.Codes = append(p.Codes, j.c, byte(x), j.c)
			case p.Codes == nil && ok:
				p.Code = byte(x)
			case unchecked: // undefined code: Encode decides; a defined one afterwards is fine again
				if b, err := sizeless(m); err == nil && ref.Decode(j.v, b).Verdict == ref.Reject {
					t.Fatalf("%s v%d with code %#x is emitted", ref.TypeName[j.t], j.v, x)
				}
				set(j.c)
			case err == nil && !(j.t == ref.CONNACK && (legalCode(5, j.t, byte(x)) || legalCode(4, j.t, byte(x)))):
				t.Fatalf("%s v%d: code %#x accepted", ref.TypeName[j.t], j.v, x)
			case err == nil:
				continue // a CONNACK code of another version
			}
			t.same(fmt.Sprintf("code %#x after %#x: content", x, j.c), p, t.extract(m))
			t.refAccept(p, t.encode(m))
			t.Distinct("code", int(j.v), int(j.t), int(j.c), x)
		}
	})
	c.Exhausted("every defined reason code of every packet type and version followed by each of the 256 codes")
}
