// Package gen makes random conforming packets and mutations of byte strings.
package gen

import (
	"strings"

	"verif/ref"
)

// R is a small deterministic generator (splitmix64)
type R struct{ s uint64 }

// New generator from a seed and stream numbers
func New(seed uint64, stream ...uint64) *R {
	r := &R{seed*0x9E3779B97F4A7C15 + 0x1234567}
	for _, x := range stream {
		r.s ^= r.U64() + x*0xD1342543DE82EF95
	}
	r.U64()
	return r
}

// NewS with a named stream
func NewS(seed uint64, name string, n uint64) *R {
	h := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	return New(seed, h, n)
}

// U64 next value
func (r *R) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N in [0,n)
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true k out of n times
func (r *R) P(k, n int) bool { return r.N(n) < k }

// Bool is a coin flip
func (r *R) Bool() bool { return r.U64()&1 == 1 }

// Byte random
func (r *R) Byte() byte { return byte(r.U64()) }

// Steps is the length of a history: lo to lo+n-1, and once in a while long enough to run counters of
// a byte over
func (r *R) Steps(lo, n int) int {
	if r.P(1, 2500) {
		return 280 + r.N(1200)
	}
	return lo + r.N(n)
}

// Pick one byte of l
func (r *R) Pick(l []byte) byte { return l[r.N(len(l))] }

// Shuffle n elements
func (r *R) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}

// Bytes of length n
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(x >> (8 * uint(k)))
		}
	}
	return b
}

var runes = []rune("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-.!\"%&'()*,:;<=>?@[]^`{|}~éßЖ中日本\u00a0\u0300\u07ff\u0800\ud7ff\ue000\ufeff\ufffd\uffff\U00010000\U0001F600\U0010FFFF")

func (r *R) rune() rune {
	if r.P(3, 4) {
		return runes[r.N(40)]
	}
	if r.P(1, 4) {
		for {
			c := rune(0xA0 + r.N(0x10FFFF-0xA0))
			if c < 0xD800 || c > 0xDFFF {
				return c
			}
		}
	}
	return runes[r.N(len(runes))]
}

// Len of a text field: mostly short, sometimes at interesting boundaries
func (r *R) Len(big int) int {
	switch r.N(40) {
	case 0:
		return 0
	case 1, 2:
		return 100 + r.N(60)
	case 3:
		if big > 0 {
			return 120 + r.N(big)
		}
	}
	return 1 + r.N(12)
}

// Text without wildcards or control characters, about n bytes, never more
func (r *R) Text(n int) string {
	var sb strings.Builder
	for {
		c := r.rune()
		l := len(string(c))
		if sb.Len()+l > n {
			break
		}
		sb.WriteRune(c)
	}
	for sb.Len() < n {
		sb.WriteByte('x')
	}
	return sb.String()
}

// TopicName non-empty, no wildcard
func (r *R) TopicName() string {
	n := r.Len(400)
	if n == 0 {
		n = 1
	}
	if r.P(1, 500) {
		n = 65535 - r.N(3)
	}
	s := []byte(nil)
	for len(s) < n {
		k := 1 + r.N(8)
		if k > n-len(s) {
			k = n - len(s)
		}
		s = append(s, r.Text(k)...)
		if len(s) < n && r.P(2, 3) {
			s = append(s, '/')
		}
	}
	if r.P(1, 20) {
		s[0] = '/'
		if !ref.ValidUTF8(string(s)) {
			return "/" + r.Text(3)
		}
	}
	if r.P(1, 20) && n < 1000 {
		return "$SYS/" + string(s)
	}
	return string(s)
}

// FilterStr is a valid topic filter
func (r *R) FilterStr() string {
	var lv []string
	n := 1 + r.N(5)
	if r.P(1, 200) {
		n = 1 + r.N(300)
	}
	for i := 0; i < n; i++ {
		switch r.N(6) {
		case 0:
			lv = append(lv, "+")
		case 1:
			lv = append(lv, "")
		default:
			lv = append(lv, r.Text(1+r.N(8)))
		}
	}
	if r.P(1, 5) {
		lv = append(lv, "#")
	}
	s := strings.Join(lv, "/")
	if s == "" {
		s = "a"
	}
	if r.P(1, 25) {
		s = "#"
	}
	if r.P(1, 25) {
		s = r.Text(1 + r.N(2))
	}
	if r.P(1, 12) {
		s = "$share/" + r.Text(1+r.N(6)) + "/" + s
	} else if r.P(1, 20) {
		s = "$SYS/" + s
	}
	if len(s) > 65535 {
		s = s[:1]
	}
	if _, ok := ref.ParseFilter(s); !ok { // e.g. text that begins with $share by chance
		return "a/b"
	}
	return s
}

const cidChars = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ -_,.|/"

// ClientID per the library's grammar
func (r *R) ClientID() string {
	n := r.Len(300)
	b := make([]byte, n)
	for i := range b {
		b[i] = cidChars[r.N(len(cidChars))]
	}
	return string(b)
}

// U32 with boundary bias
func (r *R) U32() uint32 {
	switch r.N(6) {
	case 0:
		return []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x80000001, 0x7ffffffe, 0xffff0000, 0xffffff}[r.N(17)]
	case 1:
		return uint32(r.N(256))
	}
	return uint32(r.U64())
}

// U16 with boundary bias
func (r *R) U16() uint16 {
	if r.P(1, 4) {
		return []uint16{0, 1, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff}[r.N(12)]
	}
	return uint16(r.U64())
}

// VarInt value 1..268435455 with boundary bias
func (r *R) VarInt() uint32 {
	if r.P(1, 2) {
		return []uint32{1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455}[r.N(8)]
	}
	return 1 + uint32(r.U64()%268435455)
}

// PropFor makes one conforming value of property id
func (r *R) PropFor(id uint32) ref.Prop {
	p := ref.Prop{ID: id}
	switch ref.PropTable[id].Kind {
	case ref.KByte:
		p.U = uint32(r.N(2))
	case ref.KShort:
		p.U = uint32(r.U16())
		if p.U == 0 && (id == 0x21 || id == 0x23) { // the other two may be zero
			p.U = 1
		}
	case ref.KInt:
		p.U = r.U32()
		if p.U == 0 && id == 0x27 {
			p.U = 1
		}
	case ref.KVarInt:
		p.U = r.VarInt()
	case ref.KString:
		p.S = r.fill(r.Len(600))
		if r.P(1, 400) {
			p.S = r.Text(65535)
		}
	case ref.KBinary:
		p.S = r.Data(r.Len(600))
	case ref.KPair:
		p.K, p.S = r.fill(r.Len(100)), r.fill(r.Len(100))
	}
	return p
}

// Props random set for packet type t (ref.WILL included), random order
func (r *R) Props(t byte) []ref.Prop {
	if r.P(1, 4) {
		return nil
	}
	var ps []ref.Prop
	den := 2 + r.N(8)
	for _, id := range ref.PropIDs {
		if !ref.Allowed(id, t) || !r.P(1, den) {
			continue
		}
		ps = append(ps, r.PropFor(id))
		if ref.MayRepeat(id, t) {
			for r.P(1, 2) {
				ps = append(ps, r.PropFor(id))
			}
			if r.P(1, 30) {
				for k := r.N(60); k > 0; k-- {
					ps = append(ps, r.PropFor(id))
				}
			}
			if r.P(1, 4) { // repeated equal values must survive too
				ps = append(ps, ps[len(ps)-1])
			}
			if n := len(ps); id == 0x26 && n > 1 && r.P(1, 4) { // as must the same name with another value
				ps[n-1].K = ps[n-2].K
			}
		}
	}
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	return ps
}

func (r *R) pid() uint16 {
	x := r.U16()
	if x == 0 {
		x = 1
	}
	return x
}

// SubOps legal for version v
func (r *R) SubOps(v byte, share bool) byte {
	o := byte(r.N(3))
	if v == 5 {
		o |= byte(r.N(3)) << 4
		if r.Bool() {
			o |= 8
		}
		if r.Bool() && !share {
			o |= 4
		}
	}
	return o
}

func (r *R) listLen() int {
	if r.P(1, 150) {
		return 1 + r.N(800)
	}
	return 1 + r.N(5)
}

// TypesFor version v
func TypesFor(v byte) []byte {
	t := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
	if v == 5 {
		t = append(t, ref.AUTH)
	}
	return t
}

// Any conforming packet
func (r *R) Any() *ref.Pkt {
	v := byte(3 + r.N(3))
	if r.P(1, 3) {
		v = 5
	}
	ts := TypesFor(v)
	t := ts[r.N(len(ts))]
	if r.P(1, 5) {
		t = ref.PUBLISH
	}
	return r.Pkt(v, t)
}

// Pkt conforming packet of version v and type t
func (r *R) Pkt(v, t byte) *ref.Pkt {
	p := &ref.Pkt{V: v, T: t}
	if v == 5 && ref.HasProps(t) {
		p.Props = r.Props(t)
	}
	switch t {
	case ref.CONNECT:
		p.Clean = r.Bool()
		p.KeepAlive = r.U16()
		p.ClientID = r.ClientID()
		if p.ClientID == "" {
			p.Clean = true
			if v == 3 {
				p.ClientID = "c"
			}
		}
		if r.P(2, 3) {
			p.HasUser, p.User = true, r.fill(1+r.Len(200))
			if r.P(1, 300) {
				p.User = r.Text(65535)
			}
		}
		if (p.HasUser || v == 5) && r.Bool() {
			p.HasPass, p.Pass = true, r.Data(1+r.Len(200))
		}
		if r.Bool() {
			p.Will = &ref.Will{Topic: r.TopicName(), Payload: r.Data(1 + r.Len(400)), QoS: byte(r.N(3)), Retain: r.Bool()}
			if r.P(1, 300) {
				p.Will.Payload = string(r.Bytes(65535))
			}
			if v == 5 {
				p.Will.Props = r.Props(ref.WILL)
			}
		}
	case ref.CONNACK:
		p.Code = r.Pick(ref.CodesOf(v, t))
		if r.P(1, 3) {
			p.Code = 0
		}
		p.SessionPresent = p.Code == 0 && r.Bool()
	case ref.PUBLISH:
		p.QoS = byte(r.N(3))
		p.Retain = r.Bool()
		p.Dup = p.QoS > 0 && r.Bool()
		if p.QoS > 0 {
			p.HasID, p.ID = true, r.pid()
		}
		p.Topic = r.TopicName()
		p.Payload = r.Data(r.payloadLen())
		if v == 5 {
			for _, x := range p.Props {
				if x.ID == 0x23 && r.Bool() {
					p.Topic = ""
				}
			}
		}
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		p.HasID, p.ID = true, r.pid()
		p.Code = r.Pick(ref.CodesOf(v, t))
		if r.Bool() {
			p.Code = 0
		}
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		p.HasID, p.ID = true, r.pid()
		for n := r.listLen(); n > 0; n-- {
			f := r.FilterStr()
			if len(p.Subs) > 0 && r.P(1, 6) {
				f = p.Subs[r.N(len(p.Subs))].F
			}
			s := ref.Sub{F: f}
			if t == ref.SUBSCRIBE {
				s.Ops = r.SubOps(v, strings.HasPrefix(f, "$share/"))
			}
			p.Subs = append(p.Subs, s)
		}
	case ref.SUBACK, ref.UNSUBACK:
		p.HasID, p.ID = true, r.pid()
		if t == ref.SUBACK || v == 5 {
			cs := ref.CodesOf(v, t)
			for n := r.listLen(); n > 0; n-- {
				p.Codes = append(p.Codes, r.Pick(cs))
			}
		}
	case ref.DISCONNECT, ref.AUTH:
		p.Code = r.Pick(ref.CodesOf(v, t))
		if r.P(1, 3) {
			p.Code = 0
		}
	}
	return p
}

func (r *R) payloadLen() int {
	switch r.N(60) {
	case 0:
		return 0
	case 1, 2, 3:
		return 90 + r.N(60) // around the 127/128 boundary
	case 4:
		return 16300 + r.N(120)
	case 5:
		if r.P(1, 20) {
			return 2097152 - 40 + r.N(60)
		}
	}
	return r.N(40)
}

// Mutate a byte string in one or more places
func (r *R) Mutate(in []byte) []byte {
	b := append([]byte(nil), in...)
	for n := 1 + r.N(3); n > 0; n-- {
		switch r.N(9) {
		case 0, 1:
			if len(b) > 0 {
				b[r.N(len(b))] ^= 1 << uint(r.N(8))
			}
		case 2:
			if len(b) > 0 {
				b[r.N(len(b))] = []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x26, 0x0b, 0xc0}[r.N(10)]
			}
		case 3:
			if len(b) > 0 {
				b[r.N(len(b))] = r.Byte()
			}
		case 4:
			if len(b) > 1 { // delete
				i := r.N(len(b))
				b = append(b[:i], b[i+1:]...)
				if r.P(3, 4) {
					b = Refit(b)
				}
			}
		case 5: // insert
			i := r.N(len(b) + 1)
			b = append(b[:i], append([]byte{r.Byte()}, b[i:]...)...)
			if r.P(3, 4) {
				b = Refit(b)
			}
		case 6: // cut the tail
			if len(b) > 2 {
				b = b[:2+r.N(len(b)-2)]
				if r.P(3, 4) {
					b = Refit(b)
				}
			}
		case 7: // duplicate a slice
			if len(b) > 3 {
				i := 1 + r.N(len(b)-1)
				k := 1 + r.N(6)
				if i+k > len(b) {
					k = len(b) - i
				}
				c := append([]byte(nil), b[i:i+k]...)
				b = append(b[:i], append(c, b[i:]...)...)
				b = Refit(b)
			}
		case 8: // nudge a byte
			if len(b) > 0 {
				i := r.N(len(b))
				if r.Bool() {
					b[i]++
				} else {
					b[i]--
				}
			}
		}
	}
	return b
}

// Refit rewrites the remaining length field so that it covers the body
func Refit(b []byte) []byte {
	if len(b) < 2 {
		return b
	}
	i := 1
	for i < len(b) && i < 5 && b[i] >= 0x80 {
		i++
	}
	if i >= len(b) {
		return b
	}
	i++
	return ref.Frame(b[0], b[i:])
}
