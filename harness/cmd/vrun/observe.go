package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

var errHalt = errors.New("stop")

type visitPanic struct{}

// visit runs f, which may panic with visitPanic in a callback
func visit(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(visitPanic); !ok {
				panic(x)
			}
		}
	}()
	f()
}

// readProp asks for a value as every type there is
func readAs(g mqttp.PropertyToType) {
	_ = g.Type()
	_, _ = g.AsByte()
	_, _ = g.AsShort()
	_, _ = g.AsInt()
	_, _ = g.AsInts()
	_, _ = g.AsString()
	_, _ = g.AsStringPair()
	_, _ = g.AsStringPairs()
	_, _ = g.AsBinary()
}

// read does one reading operation on m and says which
func read(r *gen.R, m mqttp.IFace) string { return readIn(r, m, 0) }

// readIn is read inside of depth visits of the same packet
func readIn(r *gen.R, m mqttp.IFace, depth int) string {
	within := func() {
		if depth < 2 && r.P(1, 6) {
			readIn(r, m, depth+1)
		}
	}
	switch r.N(11) {
	case 0:
		_, _, _ = m.Type(), m.Type().Name(), m.Type().Desc()
		_, _, _ = m.Version(), flags(m), remLen(m)
		return "header"
	case 1:
		_, _ = m.ID()
		return "ID"
	case 2:
		_, _ = m.Size()
		return "Size"
	case 3:
		n, err := m.Size()
		if err == nil {
			k := []int{0, 1, 2, 3, n / 2, n - 1, n, n + 1, n + 100}[r.N(9)]
			if k < 0 {
				k = 0
			}
			_, _ = m.Encode(make([]byte, k))
			return fmt.Sprintf("Encode(%d of %d)", k, n)
		}
		_, _ = m.Encode(make([]byte, 100))
		return "Encode(100)"
	case 4:
		_, _ = mqttp.Encode(m)
		return "mqttp.Encode"
	case 5:
		id := mqttp.PropertyID(r.N(48))
		if r.P(1, 8) {
			id = mqttp.PropertyID(r.U32())
		}
		if g := m.PropertyGet(id); g != nil {
			readAs(g)
			readAs(g)
		}
		return fmt.Sprintf("PropertyGet(%#x)", id)
	case 6:
		stop, n := r.N(6), 0
		visit(func() {
			_ = m.PropertyForEach(func(id mqttp.PropertyID, g mqttp.PropertyToType) {
				if n++; n == stop {
					panic(visitPanic{})
				}
				readAs(g)
				if r.P(1, 4) {
					_ = m.PropertyGet(id)
				}
				within()
			})
		})
		return fmt.Sprintf("PropertyForEach(panic at %d)", stop)
	}
	how, at := r.N(3), r.N(5)
	n := 0
	each := func(tp *mqttp.Topic) error {
		_, _, _, _, _ = tp.Full(), tp.Filter(), tp.Ops(), tp.DollarPrefix(), tp.ShareName()
		within()
		if n++; n > at {
			switch how {
			case 0:
				return errHalt
			case 1:
				panic(visitPanic{})
			}
		}
		return nil
	}
	switch x := m.(type) {
	case *mqttp.Connect:
		switch r.N(3) {
		case 0:
			_, _, _ = x.ClientID(), x.IsClean(), x.KeepAlive()
			return "CONNECT accessors"
		case 1:
			_, _ = x.Credentials()
			return "Credentials"
		}
		if w := x.Will(); w != nil {
			return "will: " + readIn(r, w, depth)
		}
		return "Will"
	case *mqttp.Publish:
		switch r.N(3) {
		case 0:
			_, _, _ = x.Topic(), x.Payload(), x.QoS()
			_, _, _ = x.Retain(), x.Dup(), x.PublishID()
			return "PUBLISH accessors"
		case 1:
			_, _, _ = x.Expired()
			return "Expired"
		}
		v := pv(byte(3 + r.N(3)))
		if c, err := x.Clone(v); err == nil { // what is done to a copy stays with the copy
			c.SetDup(!c.Dup())
			c.SetRetain(!c.Retain())
			_ = c.SetQoS(mqttp.QosType(r.N(3)))
			c.SetPacketID(mqttp.IDType(1 + r.N(65535)))
			_ = c.SetTopic("copy")
			c.SetPayload([]byte("copy"))
			c.SetVersion(pv(byte(3 + r.N(3))))
			_ = c.PropertySet(mqttp.PropertyContentType, "copy")
			_, _ = mqttp.Encode(c)
			if r.Bool() {
				c.PropertiesDiscard()
			}
		}
		return fmt.Sprintf("Clone(v%d)", v)
	case *mqttp.Subscribe:
		visit(func() { _ = x.ForEachTopic(each) })
		return fmt.Sprintf("ForEachTopic(%d after %d)", how, at)
	case *mqttp.UnSubscribe:
		visit(func() { _ = x.ForEachTopic(each) })
		return fmt.Sprintf("ForEachTopic(%d after %d)", how, at)
	case *mqttp.SubAck:
		_ = x.ReturnCodes()
	case *mqttp.UnSubAck:
		_ = x.ReturnCodes()
	case *mqttp.ConnAck:
		_, _ = x.ReturnCode(), x.SessionPresent()
	case *mqttp.Ack:
		_ = x.Reason()
	case *mqttp.Disconnect:
		_ = x.ReasonCode()
	case *mqttp.Auth:
		_ = x.ReasonCode()
	}
	return "accessors"
}

func c41(c *C) {
	received(c)
	one := func(t *T, p *ref.Pkt) {
		var m mqttp.IFace
		if t.R.Bool() {
			m = t.build(p)
		} else {
			b := p.Encode(ref.Full)
			var err error
			if m, _, err = t.decode(p.V, b); err != nil {
				t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[p.T], p.V, err)
			}
		}
		// what a packet holds besides the content on the wire
		x, pub := m.(*mqttp.Publish)
		if pub && t.R.Bool() {
			if p.QoS == 0 {
				x.SetPacketID(mqttp.IDType(t.R.U16()))
			}
			x.SetPublishID(uintptr(t.R.U32()))
		}
		wid, wderr := m.ID()
		var pubID uintptr
		if pub {
			pubID = x.PublishID()
		}
		hist := ""
		k := t.R.Steps(1, 12)
		fl := flags(m)
		for i := 0; i < k; i++ {
			h := read(t.R, m)
			hist += " " + h + ";"
			t.Eval()
			t.Count("reads")
			if i == k-1 || t.R.P(1, 4) {
				if flags(m) != fl || byte(m.Type()) != p.T || byte(m.Version()) != p.V {
					t.Fatalf("%s v%d after reading only (%s): type %d, flags %#x, version %d", ref.TypeName[p.T], p.V, hist, m.Type(), flags(m), m.Version())
				}
				if id, err := m.ID(); id != wid || err != wderr || pub && x.PublishID() != pubID {
					t.Fatalf("%s v%d after reading only (%s): id %d (%v), was %d (%v)", ref.TypeName[p.T], p.V, hist, id, err, wid, wderr)
				}
				g := t.extract(m)
				if pub && p.QoS == 0 {
					g.HasID, g.ID = false, 0
				}
				t.same("content after reading only ("+hist+")", p, g)
				t.refAccept(p, t.encode(m))
			}
		}
		t.tag(p)
		t.Distinct(p.Encode(ref.Full), p.V, hist)
		t.Sample("%s v%d:%s", ref.TypeName[p.T], p.V, hist)
	}
	c.bigOf(bigShapes[:3], 1<<22, one) // lists are visited from within visits, which takes the square of their length
	c.Each("reading", c.Scale(60000, 2000000), func(t *T) {
		p := t.R.Any()
		if t.R.P(1, 3) { // longer lists
			p = t.R.Pkt(p.V, []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.PUBLISH, ref.CONNECT}[t.R.N(4)])
		}
		one(t, p)
	})
	// visits inside of visits each see everything, in order
	c.Each("nested visits", c.Scale(4000, 200000), func(t *T) {
		v := byte(3 + t.R.N(3))
		p := t.R.Pkt(v, []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE}[t.R.N(2)])
		if t.R.P(1, 3) {
			p = t.R.Pkt(5, propTypes[t.R.N(len(propTypes))])
		}
		m := t.build(p)
		var want []string
		for _, s := range p.Subs {
			want = append(want, s.F)
		}
		wantIDs := 0
		if p.V == 5 {
			ids, _ := adapt.Vals(p.Props)
			wantIDs = len(ids)
		}
		visits := 0
		var topics func(depth int)
		var properties func(depth int)
		other := func(depth int) {
			if depth >= 3 || visits > 100 || !t.R.P(1, 3) {
				return
			}
			if t.R.Bool() {
				topics(depth + 1)
			} else {
				properties(depth + 1)
			}
		}
		topics = func(depth int) {
			i := 0
			end := t.R.N(len(want)*3 + 1)
			f := func(tp *mqttp.Topic) error {
				if i >= len(want) || tp.Full() != want[i] {
					t.Fatalf("visit of topics at depth %d of %v: %q at %d", depth, p, tp.Full(), i)
				}
				if i == end {
					return errHalt
				}
				i++
				other(depth)
				return nil
			}
			var err error
			switch x := m.(type) {
			case *mqttp.Subscribe:
				err = x.ForEachTopic(f)
			case *mqttp.UnSubscribe:
				err = x.ForEachTopic(f)
			default:
				return
			}
			visits++
			if end < len(want) && (err != errHalt || i != end) || end >= len(want) && (err != nil || i != len(want)) {
				t.Fatalf("visit of %d topics at depth %d, to end at %d: ended at %d with %v", len(want), depth, end, i, err)
			}
		}
		properties = func(depth int) {
			seen := map[mqttp.PropertyID]bool{}
			err := m.PropertyForEach(func(id mqttp.PropertyID, g mqttp.PropertyToType) {
				if seen[id] {
					t.Fatalf("visit of properties at depth %d of %v: %#x twice", depth, p, id)
				}
				seen[id] = true
				other(depth)
			})
			visits++
			if p.V == 5 && (err != nil || len(seen) != wantIDs) {
				t.Fatalf("visit of properties at depth %d of %v: %d of %d ids, %v", depth, p, len(seen), wantIDs, err)
			}
		}
		topics(0)
		properties(0)
		t.EvalN(visits)
		t.CountN("visits inside of and around others", visits)
		t.Distinct(p.Encode(ref.Full), p.V, visits)
		t.refAccept(p, t.encode(m))
	})
	c.Each("handed in", c.Scale(24000, 800000), func(t *T) {
		v := byte(3 + t.R.N(3))
		var names []string
		var checks []func() string
		hold := func(what string, b []byte) []byte {
			// in the middle of a larger array, so that growth in place shows
			arr := t.R.Bytes(len(b) + 40)
			copy(arr[20:], b)
			was := append([]byte(nil), arr...)
			checks = append(checks, func() string {
				for i := range arr {
					if arr[i] != was[i] {
						return fmt.Sprintf("the bytes given as %s changed at %d", what, i-20)
					}
				}
				return ""
			})
			return arr[20 : 20+len(b)]
		}
		val := func(id uint32, l []ref.Prop) interface{} {
			g := adapt.GoValue(t.R, l)
			switch x := g.(type) {
			case []byte:
				return hold("binary property", x)
			case []uint32:
				was := append([]uint32(nil), x...)
				checks = append(checks, func() string {
					for i := range x {
						if x[i] != was[i] {
							return "the list of numbers given as property changed"
						}
					}
					return ""
				})
			case []mqttp.StringPair:
				was := append([]mqttp.StringPair(nil), x...)
				checks = append(checks, func() string {
					for i := range x {
						if x[i] != was[i] {
							return "the list of pairs given as property changed"
						}
					}
					return ""
				})
			}
			return g
		}
		props := func(m mqttp.IFace, ps []ref.Prop) {
			ids, vs := adapt.Vals(ps)
			for _, id := range ids {
				if err := m.PropertySet(mqttp.PropertyID(id), val(id, vs[id])); err != nil {
					t.Fatalf("property %#x on %s: %v", id, m.Type().Name(), err)
				}
			}
		}
		// the objects that go into packets
		wp := t.R.Pkt(v, ref.CONNECT)
		for wp.Will == nil || wp.Will.Payload == "" {
			wp = t.R.Pkt(v, ref.CONNECT)
		}
		w := mqttp.NewPublish(pv(v))
		if err := w.Set(wp.Will.Topic, hold("will payload", []byte(wp.Will.Payload)), mqttp.QosType(wp.Will.QoS), wp.Will.Retain, t.R.Bool()); err != nil {
			t.Fatalf("will: %v", err)
		}
		if t.R.Bool() {
			w.SetPacketID(mqttp.IDType(1 + t.R.N(65535)))
		}
		var exp time.Time
		if t.R.P(1, 3) {
			exp = time.Now().Add(time.Hour)
			w.SetExpireAt(exp)
		}
		w.SetPublishID(uintptr(t.R.N(1000)))
		props(w, wp.Will.Props)
		wid, wderr := w.ID()
		wasW, wpub := t.extract(w), w.PublishID()
		sameWill := func(when string) {
			g := t.extract(w)
			if d := ref.Diff(wasW, g); d != "" {
				t.Fatalf("the will object changed %s: %s", when, d)
			}
			if id, err := w.ID(); id != wid || err != wderr || w.PublishID() != wpub || w.Version() != pv(v) {
				t.Fatalf("the will object changed %s: id %d (%v), publish id %d, version %d", when, id, err, w.PublishID(), w.Version())
			}
		}
		var tops []*mqttp.Topic
		var subs []ref.Sub
		for i := 1 + t.R.N(5); i > 0; i-- {
			s := t.R.FilterStr()
			ops := byte(t.R.N(3))
			tp, err := mqttp.NewSubscribeTopic(hold("filter", []byte(s)), mqttp.SubscriptionOptions(ops))
			if err != nil {
				t.Fatalf("filter %q: %v", s, err)
			}
			tops, subs = append(tops, tp), append(subs, ref.Sub{F: s, Ops: ops})
		}
		codes := make([]mqttp.ReasonCode, 12)
		for i := range codes {
			codes[i] = mqttp.ReasonCode(t.R.N(3))
		}
		wasCodes := append([]mqttp.ReasonCode(nil), codes...)
		// several packets that use them, used in turn
		var ms []mqttp.IFace
		var ps []*ref.Pkt
		for i := 2 + t.R.N(3); i > 0; i-- {
			var p *ref.Pkt
			var m mqttp.IFace
			switch t.R.N(6) {
			case 0, 1:
				// the will may have been made for another version
				cv := v
				if t.R.Bool() {
					cv = byte(3 + t.R.N(3))
				}
				p = t.R.Pkt(cv, ref.CONNECT)
				wl := *wp.Will
				if p.Will = &wl; cv < 5 {
					wl.Props = nil
				}
				x := mqttp.NewConnect(pv(cv))
				x.SetClean(p.Clean)
				x.SetKeepAlive(p.KeepAlive)
				if err := x.SetClientID(hold("client id", []byte(p.ClientID))); err != nil {
					t.Fatalf("client id %q: %v", p.ClientID, err)
				}
				if p.HasUser && p.User == "" || p.HasPass && p.Pass == "" {
					p.HasUser, p.HasPass, p.User, p.Pass = true, false, "u", ""
				}
				if p.HasUser || p.HasPass {
					if err := x.SetCredentials(hold("user name", []byte(p.User)), hold("password", []byte(p.Pass))); err != nil {
						t.Fatalf("credentials: %v", err)
					}
				}
				if err := x.SetWill(w); err != nil {
					t.Fatalf("SetWill: %v", err)
				}
				m = x
				names = append(names, "CONNECT")
			case 2:
				p = conformingFor(t.R, v, ref.SUBSCRIBE)
				p.Subs = subs
				x := mqttp.NewSubscribe(pv(v))
				x.SetPacketID(mqttp.IDType(p.ID))
				for _, tp := range tops {
					if err := x.AddTopic(tp); err != nil {
						t.Fatalf("AddTopic: %v", err)
					}
				}
				m = x
				names = append(names, "SUBSCRIBE")
			case 3:
				p = conformingFor(t.R, v, ref.UNSUBSCRIBE)
				p.Subs = nil
				for _, s := range subs {
					p.Subs = append(p.Subs, ref.Sub{F: s.F})
				}
				x := mqttp.NewUnSubscribe(pv(v))
				x.SetPacketID(mqttp.IDType(p.ID))
				for _, tp := range tops {
					if err := x.AddTopic(tp); err != nil {
						t.Fatalf("AddTopic: %v", err)
					}
				}
				m = x
				names = append(names, "UNSUBSCRIBE")
			case 4:
				p = conformingFor(t.R, v, ref.SUBACK)
				p.Codes = nil
				from, n := t.R.N(6), 1+t.R.N(6)
				x := mqttp.NewSubAck(pv(v))
				x.SetPacketID(mqttp.IDType(p.ID))
				for k := 0; k < 2; k++ {
					if err := x.AddReturnCodes(codes[from : from+n]); err != nil {
						t.Fatalf("AddReturnCodes: %v", err)
					}
					for _, cd := range codes[from : from+n] {
						p.Codes = append(p.Codes, byte(cd))
					}
				}
				m = x
				names = append(names, "SUBACK")
			case 5:
				p = conformingFor(t.R, v, ref.PUBLISH)
				x := mqttp.NewPublish(pv(v))
				if p.HasID {
					x.SetPacketID(mqttp.IDType(p.ID))
				}
				if err := x.Set(p.Topic, hold("payload", []byte(p.Payload)), mqttp.QosType(p.QoS), p.Retain, p.Dup); err != nil {
					t.Fatalf("Set: %v", err)
				}
				m = x
				names = append(names, "PUBLISH")
			}
			if p.V == 5 {
				props(m, p.Props)
			}
			ms, ps = append(ms, m), append(ps, p)
		}
		for k := 0; k < 2*len(ms); k++ {
			i := t.R.N(len(ms))
			if t.R.Bool() {
				_ = read(t.R, ms[i])
			}
			t.refAccept(ps[i], t.encode(ms[i]))
			t.Eval()
			sameWill("when a CONNECT or another packet was encoded")
			for j, tp := range tops {
				if s := tp.Full(); s != subs[j].F || byte(tp.Ops()) != subs[j].Ops {
					t.Fatalf("topic object %q with options %#x changed into %q, %#x", subs[j].F, subs[j].Ops, s, tp.Ops())
				}
			}
			for j := range codes {
				if codes[j] != wasCodes[j] {
					t.Fatalf("the code list handed in changed at %d", j)
				}
			}
			for _, f := range checks {
				if d := f(); d != "" {
					t.Fatalf("%v: %s", names, d)
				}
			}
		}
		// replacing and removing leaves them alone as well
		for i, m := range ms {
			if x, ok := m.(*mqttp.Connect); ok {
				x.ResetWill()
				sameWill("when a CONNECT let go of it")
				_ = x.SetClientID([]byte("other"))
				_ = x.SetCredentials([]byte("a"), []byte("b"))
			}
			if ps[i].V == 5 {
				for _, pr := range ps[i].Props {
					q := t.R.PropFor(pr.ID)
					_ = m.PropertySet(mqttp.PropertyID(pr.ID), adapt.GoValue(t.R, []ref.Prop{q}))
				}
				if t.R.Bool() {
					m.PropertiesDiscard()
				}
			}
			m.SetVersion(pv(byte(3 + t.R.N(3))))
			_, _ = mqttp.Encode(m)
		}
		sameWill("when its CONNECT switched version")
		for _, f := range checks {
			if d := f(); d != "" {
				t.Fatalf("%v: %s after values were replaced", names, d)
			}
		}
		t.CountN("values watched", len(checks))
		t.Distinct(fmt.Sprint(names, v), wp.Will.Topic, fmt.Sprint(subs))
		t.Sample("%v v%d", names, v)
	})
}

// received: whatever is done to decoded packets, the buffer they came in is not written to
func received(c *C) {
	c.Each("received", c.Scale(30000, 1000000), func(t *T) {
		r := t.R
		buf := r.Bytes(r.N(30))
		var ms []mqttp.IFace
		var ps []*ref.Pkt
		type span struct{ from, to int }
		var at []span
		for k := 1 + r.N(4); k > 0; k-- {
			p := r.Any()
			b := p.Encode(ref.Form(r.N(3)))
			if ref.Decode(p.V, b).Verdict != ref.Accept || p.T == ref.DISCONNECT && len(b) == 3 {
				b = p.Encode(ref.Full)
			}
			at = append(at, span{len(buf), len(buf) + len(b)})
			buf = append(append(buf, b...), r.Bytes(r.N(30))...)
			ps = append(ps, p)
		}
		was := append([]byte(nil), buf...)
		for i, p := range ps {
			m, _, err := t.decode(p.V, buf[at[i].from:at[i].to])
			if err != nil {
				t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[p.T], p.V, err)
			}
			ms = append(ms, m)
		}
		hist := ""
		for k := r.Steps(1, 8); k > 0; k-- {
			i := r.N(len(ms))
			m := ms[i]
			h := fmt.Sprintf(" %s v%d:", ref.TypeName[ps[i].T], ps[i].V)
			var will *mqttp.Publish
			if x, ok := m.(*mqttp.Connect); ok {
				will = x.Will()
			}
			switch r.N(4) {
			case 0:
				_ = adapt.Fill(r, m, r.Pkt(ps[i].V, ps[i].T))
				h += "new content"
			case 1:
				if x, ok := m.(adapt.Setter); ok {
					x.SetPacketID(mqttp.IDType(r.U16()))
				}
				h += "SetPacketID"
			case 2:
				if ps[i].T != ref.AUTH && r.P(1, 3) {
					m.SetVersion(pv(byte(3 + r.N(3))))
				}
				_, _ = sizeless(m)
				h += "Encode"
			default:
				hostileStep(r, m, &will, func(f string, a ...interface{}) { h += head(fmt.Sprintf(f, a...), 60) })
			}
			hist += h
			for j := range buf {
				if buf[j] != was[j] {
					t.Fatalf("after%s: the receive buffer changed at %d: %#x, was %#x", hist, j, buf[j], was[j])
				}
			}
			t.Eval()
		}
		t.Count("buffers under changing packets")
		t.Distinct(was, hist)
		t.Sample("%s", hist)
	})
}

func flags(m mqttp.IFace) byte {
	if x, ok := m.(interface{ Flags() byte }); ok {
		return x.Flags()
	}
	return 0
}

func remLen(m mqttp.IFace) int32 {
	if x, ok := m.(interface{ RemainingLength() int32 }); ok {
		return x.RemainingLength()
	}
	return 0
}
