package ref

// Verdict of the reference decoder
type Verdict byte

// verdicts
const (
	Accept Verdict = iota
	Reject
	Either // the specification (or this library's documented policy) leaves it open
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "either"}[v] }

// Result of reference decoding
type Result struct {
	Verdict Verdict
	Class   string // reason of Reject/Either
	Pkt     *Pkt   // content unless rejected
	Known   string // key of a known finding this input falls under
}

type rej struct{ class string }

type dec struct {
	b      []byte
	either string
	known  string
}

func (d *dec) fail(c string)  { panic(rej{c}) }
func (d *dec) maybe(c string) { d.either = c }
func (d *dec) need(n int, c string) {
	if len(d.b) < n {
		d.fail("truncated:" + c)
	}
}
func (d *dec) u8(c string) byte {
	d.need(1, c)
	x := d.b[0]
	d.b = d.b[1:]
	return x
}
func (d *dec) u16(c string) uint16 {
	d.need(2, c)
	x := uint16(d.b[0])<<8 | uint16(d.b[1])
	d.b = d.b[2:]
	return x
}
func (d *dec) lp(c string) string {
	n := int(d.u16(c))
	d.need(n, c)
	s := string(d.b[:n])
	d.b = d.b[n:]
	return s
}

// ReadVarInt returns the value and the number of bytes; n==0 incomplete, n<0 malformed
func ReadVarInt(b []byte) (uint32, int) {
	var x uint32
	for i := 0; ; i++ {
		if i == 4 {
			return 0, -1
		}
		if i >= len(b) {
			return 0, 0
		}
		x |= uint32(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			if i > 0 && b[i] == 0 {
				return 0, -2
			}
			return x, i + 1
		}
	}
}

func (d *dec) varint(c string) uint32 {
	x, n := ReadVarInt(d.b)
	switch {
	case n == -2:
		d.fail("varint-nonminimal:" + c)
	case n < 0:
		d.fail("varint-overlong:" + c)
	case n == 0:
		d.fail("truncated:" + c)
	}
	d.b = d.b[n:]
	return x
}

func (d *dec) props(t byte) []Prop {
	n := int(d.varint("property length"))
	d.need(n, "properties")
	rest := d.b[n:]
	d.b = d.b[:n]
	var ps []Prop
	seen := map[uint32]bool{}
	for len(d.b) > 0 {
		id := d.varint("property id")
		def, ok := PropTable[id]
		if !ok {
			d.fail("property-unknown")
		}
		if !Allowed(id, t) {
			d.fail("property-not-allowed")
		}
		if seen[id] && !MayRepeat(id, t) {
			d.fail("property-repeated")
		}
		seen[id] = true
		p := Prop{ID: id}
		c := "property value"
		switch def.Kind {
		case KByte:
			p.U = uint32(d.u8(c))
			if p.U > 1 {
				d.maybe("property out of range")
			}
		case KShort:
			p.U = uint32(d.u16(c))
			if p.U == 0 && (id == 0x21 || id == 0x23) {
				d.maybe("property out of range")
			}
		case KInt:
			p.U = uint32(d.u16(c)) << 16
			p.U |= uint32(d.u16(c))
			if p.U == 0 && id == 0x27 {
				d.maybe("property out of range")
			}
		case KVarInt:
			p.U = d.varint(c)
			if p.U == 0 {
				d.maybe("property out of range")
			}
		case KBinary:
			p.S = d.lp(c)
		case KString, KPair:
			if def.Kind == KPair {
				p.K = d.lp(c)
			}
			p.S = d.lp(c)
			if !ValidUTF8(p.S) || !ValidUTF8(p.K) {
				d.fail("utf8:property")
			}
			if HasNul(p.S) || HasNul(p.K) {
				d.fail("null:property")
			}
			if HasControl(p.S) || HasControl(p.K) {
				d.maybe("control character in property")
			}
			if id == 0x08 && !ValidTopicName(p.S) {
				d.maybe("response topic with wildcard")
			}
		}
		ps = append(ps, p)
	}
	d.b = rest
	return ps
}

func (d *dec) code(v, t byte) byte {
	c := d.u8("reason code")
	if CodeSender(t, c) == Nobody {
		d.fail("reason-code")
	}
	return c
}

func (d *dec) end() {
	if len(d.b) != 0 {
		d.fail("surplus")
	}
}

// Decode one complete packet occupying the whole of buf under version v
func Decode(v byte, buf []byte) (r Result) {
	d := &dec{}
	defer func() {
		if x := recover(); x != nil {
			j, ok := x.(rej)
			if !ok {
				panic(x)
			}
			r = Result{Verdict: Reject, Class: j.class, Known: d.known}
		}
	}()
	d.b = buf
	first := d.u8("fixed header")
	t, fl := first>>4, first&15
	if t == 0 || t == AUTH && v != 5 {
		d.fail("type")
	}
	p := &Pkt{V: v, T: t}
	if t == PUBLISH {
		p.Dup, p.QoS, p.Retain = fl&8 != 0, fl>>1&3, fl&1 != 0
		if p.QoS == 3 {
			d.fail("qos3")
		}
		if p.Dup && p.QoS == 0 {
			d.fail("dup-qos0")
		}
	} else if fl != Flags(t) {
		d.fail("flags")
	}
	n := int(d.varint("remaining length"))
	d.need(n, "body")
	if len(d.b) > n {
		d.fail("surplus")
	}
	id := func() { p.HasID, p.ID = true, d.u16("packet id") }
	switch t {
	case CONNECT:
		d.connect(p)
	case CONNACK:
		f := d.u8("connack flags")
		if f > 1 {
			d.fail("connack-flags")
		}
		p.SessionPresent = f == 1
		p.Code = d.code(v, t)
		if (v == 5) == (p.Code >= 1 && p.Code <= 5) && p.Code != 0 {
			d.maybe("connack code of another version")
		}
		if p.SessionPresent && p.Code != 0 {
			d.maybe("session present with refusal")
		}
		if v == 5 {
			p.Props = d.props(t)
		}
	case PUBLISH:
		p.Topic = d.lp("topic")
		if !ValidUTF8(p.Topic) {
			d.fail("utf8:topic")
		}
		if !ValidTopicName(p.Topic) || p.Topic == "" && v != 5 {
			d.fail("topic-name")
		}
		if p.QoS > 0 {
			id()
			if p.ID == 0 {
				d.maybe("packet id 0")
			}
		}
		if v == 5 {
			p.Props = d.props(t)
			if p.Topic == "" {
				alias := uint32(0)
				for _, x := range p.Props {
					if x.ID == 0x23 {
						alias = x.U
					}
				}
				if alias == 0 {
					d.fail("topic-missing")
				}
			}
		}
		p.Payload = string(d.b)
		d.b = nil
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		id()
		if v == 5 && len(d.b) > 0 {
			p.Code = d.code(v, t)
			if len(d.b) > 0 {
				p.Props = d.props(t)
			}
		}
	case SUBSCRIBE:
		id()
		if v == 5 {
			p.Props = d.props(t)
		}
		if len(d.b) == 0 {
			d.fail("no-topics")
		}
		for len(d.b) > 0 {
			f := d.filter()
			o := d.u8("subscription options")
			if o&3 == 3 || v != 5 && o&0xFC != 0 || v == 5 && (o&0xC0 != 0 || o>>4&3 == 3) {
				d.fail("subscription-options")
			}
			if o&4 != 0 && len(f) > 6 && f[:7] == "$share/" {
				d.maybe("no local on shared subscription")
			}
			p.Subs = append(p.Subs, Sub{f, o})
		}
	case UNSUBSCRIBE:
		id()
		if v == 5 {
			p.Props = d.props(t)
		}
		if len(d.b) == 0 {
			d.fail("no-topics")
		}
		for len(d.b) > 0 {
			p.Subs = append(p.Subs, Sub{F: d.filter()})
		}
	case SUBACK:
		id()
		if v == 5 {
			p.Props = d.props(t)
		}
		if len(d.b) == 0 {
			d.maybe("no codes")
		}
		for len(d.b) > 0 {
			c := d.code(v, t)
			if v != 5 && c > 2 && c != 0x80 {
				d.fail("reason-code")
			}
			p.Codes = append(p.Codes, c)
		}
	case UNSUBACK:
		id()
		if v == 5 {
			if len(d.b) == 0 {
				d.maybe("unsuback without properties")
			} else {
				p.Props = d.props(t)
				if len(d.b) == 0 {
					d.maybe("no codes")
				}
				for len(d.b) > 0 {
					p.Codes = append(p.Codes, d.code(v, t))
				}
			}
		}
	case PINGREQ, PINGRESP:
	case DISCONNECT:
		if v == 5 && len(d.b) > 0 {
			if len(d.b) == 1 {
				d.known = "disconnect-v5-remlen1"
			}
			p.Code = d.code(v, t)
			if len(d.b) > 0 {
				p.Props = d.props(t)
			}
		}
	case AUTH:
		if len(d.b) > 0 {
			p.Code = d.code(v, t)
			if len(d.b) > 0 {
				p.Props = d.props(t)
			}
		}
	}
	d.end()
	if HasID(t) && p.ID == 0 {
		d.maybe("packet id 0")
	}
	r = Result{Verdict: Accept, Pkt: p, Known: d.known}
	if d.either != "" {
		r.Verdict, r.Class = Either, d.either
	}
	return r
}

func (d *dec) filter() string {
	s := d.lp("topic filter")
	if !ValidUTF8(s) {
		d.fail("utf8:filter")
	}
	if _, ok := ParseFilter(s); !ok {
		d.fail("topic-filter")
	}
	return s
}

func (d *dec) connect(p *Pkt) {
	name := d.lp("protocol name")
	p.V = d.u8("protocol level")
	if p.V < 3 || p.V > 5 || name != ProtoName(p.V) {
		d.fail("protocol")
	}
	fl := d.u8("connect flags")
	wq := fl >> 3 & 3
	if fl&1 != 0 {
		d.fail("connect-flags:reserved")
	}
	if wq == 3 {
		d.fail("connect-flags:will qos 3")
	}
	if fl&4 == 0 && fl&0x38 != 0 {
		d.fail("connect-flags:will bits without will")
	}
	if p.V != 5 && fl&0x40 != 0 && fl&0x80 == 0 {
		d.fail("connect-flags:password without user name")
	}
	p.Clean, p.HasUser, p.HasPass = fl&2 != 0, fl&0x80 != 0, fl&0x40 != 0
	p.KeepAlive = d.u16("keep alive")
	if p.V == 5 {
		p.Props = d.props(CONNECT)
	}
	p.ClientID = d.lp("client id")
	if !ValidUTF8(p.ClientID) {
		d.fail("utf8:client id")
	}
	if !ValidClientID(p.ClientID) || p.ClientID == "" && p.V != 5 && !p.Clean {
		d.fail("client-id")
	}
	if p.ClientID == "" && p.V == 3 {
		d.maybe("empty client id in 3.1")
	}
	if fl&4 != 0 {
		w := &Will{QoS: wq, Retain: fl&0x20 != 0}
		if p.V == 5 {
			w.Props = d.props(WILL)
		}
		w.Topic = d.lp("will topic")
		if !ValidUTF8(w.Topic) {
			d.fail("utf8:will topic")
		}
		if !ValidTopicName(w.Topic) || w.Topic == "" {
			d.fail("topic-name:will")
		}
		w.Payload = d.lp("will payload")
		p.Will = w
	}
	if p.HasUser {
		p.User = d.lp("user name")
		if !ValidUTF8(p.User) {
			d.fail("utf8:user name")
		}
		if HasControl(p.User) {
			d.fail("control:user name")
		}
	}
	if p.HasPass {
		p.Pass = d.lp("password")
	}
}
