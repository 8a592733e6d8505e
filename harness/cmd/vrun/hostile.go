package main

import (
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C36"] = &Check{Run: c36, Rule: "packets of every type and version changed by random setter calls with hostile values (ill-formed text, any reason code and option byte, properties of any id and value, version switches, will objects changed later), encoded after every call; non-trivial = distinct emitted packets", Note: "oracle: the reference decoder and the library's own decoder on everything that is emitted; what the specification leaves open for single values (ranges, control characters in properties, CONNACK codes of another version) counts as well-formed"}
}

var hostileText = []string{"", "\xff", "a\xed\xa0\x80", "\xc0\xaf", "x\xf4\x90\x80\x80y", "a\xe2\x82", "\x80", "ok", "é", "a#", "+", "a/+/b", "#", "a\x00b", "a\x1fb", "$share/g/t", "$share/", "$share//t", "a b", "long"}

func hostileString(r *gen.R) string {
	s := hostileText[r.N(len(hostileText))]
	if s == "long" {
		n := []int{65534, 65535, 65536, 65537, 66000, 131072}[r.N(6)]
		if r.P(1, 3) {
			return strings.Repeat("é", n/2)
		}
		return strings.Repeat("x", n)
	}
	if r.P(1, 6) {
		return r.Text(r.N(40)) + s
	}
	return s
}

// hostileValue is a value for property id, mostly of its type
func hostileValue(r *gen.R, id uint32) interface{} {
	if r.P(1, 6) {
		l := goVals()
		return l[r.N(len(l))].v
	}
	d := ref.PropTable[id]
	list := r.P(1, 6) || id == 0x26
	n := 1 + r.N(3)
	switch d.Kind {
	case ref.KByte:
		if list {
			return r.Bytes(n)
		}
		return r.Byte()
	case ref.KShort:
		if list {
			return make([]uint16, n)
		}
		return r.U16()
	case ref.KInt, ref.KVarInt:
		x := []uint32{0, 1, 127, 128, 268435455, 268435456, 1<<31 - 1, 1 << 31, 1<<32 - 1, r.U32()}
		if list {
			return append([]uint32{}, x[r.N(len(x))], x[r.N(len(x))])
		}
		return x[r.N(len(x))]
	case ref.KBinary:
		if list {
			return [][]byte{[]byte(hostileString(r)), {1}}
		}
		return []byte(hostileString(r))
	case ref.KPair:
		p := func() mqttp.StringPair {
			if r.Bool() {
				return mqttp.StringPair{K: hostileString(r), V: "v"}
			}
			return mqttp.StringPair{K: "k", V: hostileString(r)}
		}
		if r.P(1, 4) {
			return p()
		}
		l := []mqttp.StringPair{}
		for k := r.N(4); k > 0; k-- {
			l = append(l, mqttp.StringPair{K: "a", V: "b"})
		}
		return append(l, p())
	}
	if list {
		return []string{"a", hostileString(r)}
	}
	return hostileString(r)
}

func c36(c *C) {
	oddVersions(c)
	one := func(t *T, start *ref.Pkt) {
		r := t.R
		v := byte(3 + t.I%3)
		tys := gen.TypesFor(v)
		ty := tys[(t.I/3)%len(tys)]
		if start != nil {
			v, ty = start.V, start.T
		}
		hist := ""
		log := func(f string, a ...interface{}) {
			s := fmt.Sprintf(f, a...)
			hist += " " + head(s, 90)
		}
		m := adapt.Fresh(t.R, pv(v), ty)
		var will *mqttp.Publish
		how := r.N(5)
		if start != nil {
			how = 5
		}
		switch how {
		case 0:
			hist = " new"
		case 5:
			hist = " big"
			m = t.build(start)
		case 1:
			hist = " decoded"
			p := r.Pkt(v, ty)
			x, _, err := t.decode(v, p.Encode(ref.Full))
			if err != nil {
				t.Fatalf("conforming %s v%d refused: %v", ref.TypeName[ty], v, err)
			}
			m = x
		default:
			hist = " filled"
			if err := adapt.Fill(r, m, r.Pkt(v, ty)); err != nil {
				t.Fatalf("filling %s v%d: %v", ref.TypeName[ty], v, err)
			}
		}
		if x, ok := m.(*mqttp.Connect); ok {
			will = x.Will()
		}
		fro := ty != ref.AUTH && r.P(1, 4)
		for k := r.Steps(1, 5); k > 0; k-- {
			if fro && r.Bool() {
				w := byte(3 + r.N(3))
				m.SetVersion(pv(w))
				log("SetVersion(%d)", w)
			}
			hostileStep(r, m, &will, log)
			b, err := sizeless(m)
			if err != nil {
				t.Count("refused")
				t.Eval()
				continue
			}
			t.Input(b)
			w := byte(m.Version())
			if ty == ref.PUBLISH && w == 5 && m.PropertyGet(mqttp.PropertyWillDelayInterval) != nil {
				continue // a will message, which is not sent as it is
			}
			x := ref.Decode(w, b)
			if x.Verdict == ref.Reject {
				t.Fatalf("%s v%d after%s: Encode emits a malformed packet (%s): % x", ref.TypeName[ty], w, hist, x.Class, head(string(b), 60))
			}
			_, _, err = t.decode(w, b)
			if err != nil && x.Verdict == ref.Accept && !(ty == ref.DISCONNECT && w == 5 && len(b) == 3) {
				t.Fatalf("%s v%d after%s: Encode emits a packet that Decode refuses (%v): % x", ref.TypeName[ty], w, hist, err, head(string(b), 60))
			}
			if x.Verdict == ref.Accept {
				t.Count("emitted")
			} else {
				t.Count("emitted, left open")
			}
			t.Eval()
			t.Distinct(b, w)
			t.tagv(ty, w)
		}
		t.Sample("%s v%d%s", ref.TypeName[ty], v, hist)
	}
	c.big(1<<21, func(t *T, p *ref.Pkt) { one(t, p) })
	c.Each("histories", c.Scale(90000, 2000000), func(t *T) { one(t, nil) })
}

// oddVersions: packets of versions that do not exist. There is nothing a CONNECT of such a version could
// say, so it must be refused; nothing panics, and back in a version that exists the packet is well-formed.
func oddVersions(c *C) {
	c.Each("odd versions", c.Scale(20000, 400000), func(t *T) {
		r := t.R
		v := byte(3 + t.I%3)
		tys := gen.TypesFor(v)
		ty := tys[(t.I/3)%len(tys)]
		if r.P(1, 4) {
			ty = ref.CONNECT
		}
		m := adapt.Fresh(r, pv(v), ty)
		hist := " new"
		if r.P(2, 3) {
			hist = " filled"
			if err := adapt.Fill(r, m, r.Pkt(v, ty)); err != nil {
				t.Fatalf("filling %s v%d: %v", ref.TypeName[ty], v, err)
			}
		}
		var will *mqttp.Publish
		if x, ok := m.(*mqttp.Connect); ok {
			will = x.Will()
		}
		log := func(f string, a ...interface{}) { hist += " " + head(fmt.Sprintf(f, a...), 90) }
		for k := 1 + r.N(3); k > 0; k-- {
			odd := byte(r.N(256))
			if odd >= 3 && odd <= 5 {
				odd = r.Pick([]byte{0, 1, 2, 6, 7, 0x83, 0x84, 0x85, 255})
			}
			m.SetVersion(pv(odd))
			log("SetVersion(%d)", odd)
			for j := r.N(3); j > 0; j-- {
				hostileStep(r, m, &will, log)
			}
			n, serr := m.Size()
			b, err := sizeless(m)
			if ty == ref.CONNECT && byte(m.Version()) == odd {
				if err == nil {
					t.Fatalf("CONNECT after%s: Encode emits a packet of version %d: % x", hist, odd, head(string(b), 60))
				}
				t.Count("CONNECT of a version that does not exist refused")
			}
			if err == nil && (serr != nil || n != len(b)) {
				t.Fatalf("%s after%s: Size %d (%v), encoding of %d bytes", ref.TypeName[ty], hist, n, serr, len(b))
			}
			if err == nil {
				ok := false
				for w := byte(3); w <= 5; w++ {
					if ref.Decode(w, b).Verdict != ref.Reject {
						ok = true
					}
				}
				if !ok {
					t.Count("emitted, no version: " + ref.TypeName[ty])
				} else {
					t.Count("emitted in some version")
				}
			}
			t.Eval()
			if !r.Bool() {
				continue
			}
			m.SetVersion(pv(v))
			log("SetVersion(%d)", v)
			if b, err := sizeless(m); err == nil && !(ty == ref.PUBLISH && v == 5 && m.PropertyGet(mqttp.PropertyWillDelayInterval) != nil) {
				t.Input(b)
				if x := ref.Decode(v, b); x.Verdict == ref.Reject {
					t.Fatalf("%s v%d after%s: Encode emits a malformed packet (%s): % x", ref.TypeName[ty], v, hist, x.Class, head(string(b), 60))
				}
				t.Count("emitted back in a version that exists")
				t.Distinct(b, v)
			}
		}
		t.Sample("%s v%d%s", ref.TypeName[ty], v, hist)
	})
}

func (t *T) tagv(ty, v byte) { t.Count(ref.TypeName[ty] + ".v" + string(rune('0'+v))) }

// hostileStep makes one call that may or may not be refused
func hostileStep(r *gen.R, m mqttp.IFace, will **mqttp.Publish, log func(string, ...interface{})) {
	props := func(m mqttp.IFace, name string) {
		id := ref.PropIDs[r.N(len(ref.PropIDs))]
		for i := 0; i < 40 && !ref.Allowed(id, byte(m.Type())) && r.P(9, 10); i++ {
			id = ref.PropIDs[r.N(len(ref.PropIDs))]
		}
		val := hostileValue(r, id)
		if r.P(1, 20) {
			id = uint32(r.Byte())
		}
		err := m.PropertySet(mqttp.PropertyID(id), val)
		log("%sPropertySet(%#x,%T %.30q)=%v", name, id, val, fmt.Sprint(val), err)
	}
	code := func() mqttp.ReasonCode { return mqttp.ReasonCode(r.Byte()) }
	switch n := r.N(12); {
	case n == 0 && m.Type() != mqttp.AUTH:
		v := byte(3 + r.N(3))
		m.SetVersion(pv(v))
		log("SetVersion(%d)", v)
		return
	case n == 1 && r.P(1, 3):
		m.PropertiesDiscard()
		log("PropertiesDiscard")
		return
	case n <= 4:
		props(m, "")
		return
	case n == 5:
		if x, ok := m.(adapt.Setter); ok {
			x.SetPacketID(mqttp.IDType(r.U16()))
			log("SetPacketID")
			return
		}
	}
	pubStep := func(x *mqttp.Publish, name string) {
		switch r.N(9) {
		case 0:
			s := hostileString(r)
			log("%sSetTopic(%.20q)=%v", name, s, x.SetTopic(s))
		case 1:
			s, q, d := hostileString(r), r.Byte()%5, r.Bool()
			log("%sSet(%.20q,q%d,dup %v)=%v", name, s, q, d, x.Set(s, []byte("p"), mqttp.QosType(q), r.Bool(), d))
		case 2:
			s := hostileString(r)
			x.SetPayload([]byte(s))
			log("%sSetPayload(%d)", name, len(s))
		case 3:
			q := r.Byte() % 6
			log("%sSetQoS(%d)=%v", name, q, x.SetQoS(mqttp.QosType(q)))
		case 4:
			d := r.Bool()
			x.SetDup(d)
			log("%sSetDup(%v)", name, d)
		case 5:
			x.SetRetain(r.Bool())
			log("%sSetRetain", name)
		case 6:
			id := []uint32{0x0b, 0x18, 0x23, 0x26, 0x02, 0x08}[r.N(6)]
			val := adapt.GoValue(r, []ref.Prop{r.PropFor(id)})
			log("%sPropertySet(%#x)=%v", name, id, x.PropertySet(mqttp.PropertyID(id), val))
		case 7:
			props(x, name)
		case 8:
			v := byte(3 + r.N(3))
			x.SetVersion(pv(v))
			log("%sSetVersion(%d)", name, v)
		}
	}
	switch x := m.(type) {
	case *mqttp.Connect:
		switch r.N(7) {
		case 0:
			f := r.Bool()
			x.SetClean(f)
			log("SetClean(%v)", f)
		case 1:
			s := hostileString(r)
			log("SetClientID(%.20q)=%v", s, x.SetClientID([]byte(s)))
		case 2:
			u, p := "", ""
			if r.Bool() {
				u = hostileString(r)
			}
			if r.Bool() {
				p = hostileString(r)
			}
			log("SetCredentials(%.20q,%d)=%v", u, len(p), x.SetCredentials([]byte(u), []byte(p)))
		case 3:
			w := mqttp.NewPublish(pv(byte(3 + r.N(3))))
			_ = w.Set("w", []byte("p"), mqttp.QosType(r.N(3)), r.Bool(), false)
			for k := r.N(3); k > 0; k-- {
				pubStep(w, "new will.")
			}
			err := x.SetWill(w)
			log("SetWill=%v", err)
			if err == nil {
				*will = w
			}
		case 4, 5:
			if *will != nil {
				pubStep(*will, "will.")
			}
		case 6:
			if r.Bool() {
				x.ResetWill()
				log("ResetWill")
			} else {
				x.SetKeepAlive(r.U16())
			}
		}
	case *mqttp.ConnAck:
		if r.Bool() {
			x.SetSessionPresent(r.Bool())
			log("SetSessionPresent")
		} else {
			c := code()
			log("SetReturnCode(%#x)=%v", byte(c), x.SetReturnCode(c))
		}
	case *mqttp.Publish:
		pubStep(x, "")
	case *mqttp.Ack:
		c := code()
		x.SetReason(c)
		log("SetReason(%#x)", byte(c))
	case *mqttp.Subscribe:
		s, o := hostileString(r), r.Byte()
		if r.Bool() {
			s = "a/b"
		}
		if r.Bool() {
			o &= 0x2f
		}
		tp, err := mqttp.NewSubscribeTopic([]byte(s), mqttp.SubscriptionOptions(o))
		log("NewSubscribeTopic(%.20q,%#x)=%v", s, o, err)
		if err == nil {
			_ = x.AddTopic(tp)
		}
	case *mqttp.UnSubscribe:
		s := hostileString(r)
		tp, err := mqttp.NewTopic([]byte(s))
		log("NewTopic(%.20q)=%v", s, err)
		if err == nil {
			_ = x.AddTopic(tp)
		}
	case *mqttp.SubAck:
		l := []mqttp.ReasonCode{}
		for k := r.N(3); k > 0; k-- {
			l = append(l, 0)
		}
		l = append(l, code())
		log("AddReturnCodes(%v)=%v", l, x.AddReturnCodes(l))
	case *mqttp.UnSubAck:
		l := []mqttp.ReasonCode{}
		for k := r.N(3); k > 0; k-- {
			l = append(l, 0)
		}
		c := code()
		if r.Bool() {
			c = []mqttp.ReasonCode{0, 1, 2, 0x80, 0x11}[r.N(5)]
		}
		l = append(l, c)
		log("AddReturnCodes(%v)=%v", l, x.AddReturnCodes(l))
	case *mqttp.Disconnect:
		c := code()
		x.SetReasonCode(c)
		log("SetReasonCode(%#x)", byte(c))
	case *mqttp.Auth:
		c := code()
		log("SetReasonCode(%#x)=%v", byte(c), x.SetReasonCode(c))
	}
}
