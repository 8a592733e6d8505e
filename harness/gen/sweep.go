package gen

import (
	"strings"

	"verif/ref"
)

// The sweep: conforming packets that take one field, list or number at a time through every
// small length and every boundary, the rest of the packet being random.

var sweepLens = func() (l []int) {
	for i := 0; i <= 300; i++ {
		l = append(l, i)
	}
	for k := uint(9); k <= 15; k++ {
		for d := -2; d <= 2; d++ {
			l = append(l, 1<<k+d)
		}
	}
	for _, n := range []int{400, 500, 600, 640, 768, 999, 1000, 1001, 1280, 1460, 1500, 1536, 2000, 3000, 4000, 5000, 8000, 10000, 12288, 16000, 16383 - 20, 20000, 20480, 24576, 28672, 30000, 32000, 36864, 40000, 40960, 45056, 49152, 50000, 53248, 57344, 60000, 61440, 64000, 65000, 65280, 65500, 65532, 65533, 65534, 65535} {
		l = append(l, n)
	}
	return
}()

var bigLens = func() (l []int) {
	for _, k := range []uint{16, 17, 18, 20, 21} {
		for d := -2; d <= 2; d++ {
			l = append(l, 1<<k+d)
		}
	}
	for _, n := range []int{66000, 70000, 81920, 98304, 100000, 196608, 250000, 300000, 500000, 524288, 1000000, 1500000, 2000000} {
		l = append(l, n)
	}
	return
}()

var sweepCounts = func() (l []int) {
	for i := 1; i <= 70; i++ {
		l = append(l, i)
	}
	for _, n := range []int{99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097} {
		l = append(l, n)
	}
	return
}()

// Numbers: every power of two, its neighbours and a few decimal and alternating values
var sweepNums = func() (l []uint64) {
	seen := map[uint64]bool{}
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			l = append(l, x)
		}
	}
	for k := uint(0); k <= 32; k++ {
		add(1<<k - 1)
		add(1 << k)
		add(1<<k + 1)
	}
	for _, x := range []uint64{3, 5, 6, 9, 10, 60, 99, 100, 120, 1000, 3600, 9999, 10000, 65280, 43690, 21845, 86400, 604800, 31536000, 100000000, 268435454, 268435455, 0xAAAAAAAA, 0x55555555, 0xff00ff00, 0x00ff00ff, 0x80000001, 0x01020304} {
		add(x)
	}
	return
}()

type field struct {
	v, t byte
	// f puts content of length n into field; ok is false where that length is not conforming
	f   func(r *R, p *ref.Pkt, n int) bool
	big bool
}

// fill is text of exactly n bytes in one of several shapes
func (r *R) fill(n int) string {
	switch r.N(12) {
	case 0:
		return strings.Repeat("a", n)
	case 1:
		return strings.Repeat(" ", n)
	case 2:
		return strings.Repeat("~", n)
	case 3:
		if n >= 2 { // blanks on both ends
			return " " + strings.Repeat("b", n-2) + " "
		}
	case 4:
		if n >= 3 { // byte order mark first
			return "\ufeff" + strings.Repeat("c", n-3)
		}
	case 5:
		if n >= 3 {
			return strings.Repeat("d", n-3) + "\ufeff"
		}
	case 6:
		if n >= 4 {
			return strings.Repeat("e", n%4) + strings.Repeat("\U0001F600", n/4)
		}
	case 7:
		if n >= 2 {
			return "\"" + strings.Repeat("\\", n-2) + "\""
		}
	}
	if n > 3000 {
		s := r.Text(64 + r.N(64))
		return strings.Repeat(s, n/len(s)) + strings.Repeat("x", n%len(s))
	}
	return r.Text(n)
}

// Data is binary content of exactly n bytes in one of several shapes
func (r *R) Data(n int) string {
	switch r.N(16) {
	case 0:
		return strings.Repeat("\x00", n)
	case 1:
		return strings.Repeat("\xff", n)
	case 2:
		return r.fill(n)
	}
	b := r.Bytes(n)
	put := func(at int, s string) {
		if at >= 0 && at+len(s) <= n {
			copy(b[at:], s)
		}
	}
	switch r.N(12) {
	case 0: // padding that looks superfluous
		put(n-4, "\x00\x00\x00\x00")
	case 1:
		put(n-2, "\r\n")
	case 2:
		put(n-1, "\n")
	case 3:
		put(0, "\x1f\x8b\x08\x00")
	case 4:
		put(0, "\xef\xbb\xbf")
	case 5:
		put(0, "\x00\x00")
	case 6: // a packet inside
		put(0, "\xc0\x00")
	case 7:
		put(0, "\x00\x04MQTT\x05")
	case 8:
		put(0, "{\"a\":")
		put(n-1, "}")
	case 9:
		put(n-1, " ")
		put(0, " ")
	case 10: // a length of its own
		if n >= 2 {
			put(0, string([]byte{byte((n - 2) >> 8), byte(n - 2)}))
		}
	}
	return string(b)
}

func setProp(p *ref.Pkt, t byte, x ref.Prop) {
	l := &p.Props
	if t == ref.WILL {
		if p.Will == nil {
			p.Will = &ref.Will{Topic: "will", Payload: "w"}
		}
		l = &p.Will.Props
	}
	var out []ref.Prop
	for _, y := range *l {
		if y.ID != x.ID {
			out = append(out, y)
		}
	}
	*l = append(out, x)
}

func (r *R) clientIDLen(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = cidChars[r.N(len(cidChars))]
	}
	return string(b)
}

// topicLen is a topic name of exactly n bytes
func (r *R) topicLen(n int) string {
	s := []byte(r.fill(n))
	if n > 2 && s[0] < 0x80 && s[n-1] < 0x80 && r.Bool() {
		for k := 1 + r.N(4); k > 0; k-- {
			if i := r.N(n); s[i] < 0x80 {
				s[i] = '/'
			}
		}
	}
	return string(s)
}

var sweepFields = func() (fs []field) {
	for v := byte(3); v <= 5; v++ {
		v := v
		fs = append(fs,
			field{v, ref.PUBLISH, func(r *R, p *ref.Pkt, n int) bool {
				p.Topic = r.topicLen(n)
				return n > 0
			}, false},
			field{v, ref.PUBLISH, func(r *R, p *ref.Pkt, n int) bool {
				p.Payload = r.Data(n)
				return true
			}, true},
			field{v, ref.CONNECT, func(r *R, p *ref.Pkt, n int) bool {
				p.ClientID = r.clientIDLen(n)
				if n == 0 {
					p.Clean = true
				}
				return n > 0 || v > 3
			}, false},
			field{v, ref.CONNECT, func(r *R, p *ref.Pkt, n int) bool {
				p.HasUser, p.User = true, r.fill(n)
				return n > 0
			}, false},
			field{v, ref.CONNECT, func(r *R, p *ref.Pkt, n int) bool {
				if !p.HasUser {
					p.HasUser, p.User = true, "u"
				}
				p.HasPass, p.Pass = true, r.Data(n)
				return n > 0
			}, false},
			field{v, ref.CONNECT, func(r *R, p *ref.Pkt, n int) bool {
				if p.Will == nil {
					p.Will = &ref.Will{Payload: "w"}
				}
				p.Will.Topic = r.topicLen(n)
				return n > 0
			}, false},
			field{v, ref.CONNECT, func(r *R, p *ref.Pkt, n int) bool {
				if p.Will == nil {
					p.Will = &ref.Will{Topic: "w"}
				}
				p.Will.Payload = r.Data(n)
				return n > 0
			}, false})
		for _, t := range []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE} {
			fs = append(fs, field{v, t, func(r *R, p *ref.Pkt, n int) bool {
				if n == 0 {
					return false
				}
				f := r.topicLen(n)
				if n > 2 && r.P(1, 3) {
					f = f[:n-2]
					if f[len(f)-1] >= 0x80 {
						f = strings.Repeat("f", n-2)
					}
					f += []string{"/#", "/+"}[r.N(2)]
				} else if n > 20 && r.P(1, 4) {
					f = "$share/g/" + strings.Repeat("h", n-9)
				}
				if _, ok := ref.ParseFilter(f); !ok {
					f = strings.Repeat("i", n)
				}
				i := r.N(len(p.Subs))
				p.Subs[i].F = f
				p.Subs[i].Ops &^= 4
				return true
			}, false})
		}
	}
	for _, id := range ref.PropIDs {
		for t := byte(0); t <= ref.AUTH; t++ {
			if !ref.Allowed(id, t) {
				continue
			}
			id, t := id, t
			pt := t
			if t == ref.WILL {
				pt = ref.CONNECT
			}
			switch ref.PropTable[id].Kind {
			case ref.KString:
				fs = append(fs, field{5, pt, func(r *R, p *ref.Pkt, n int) bool {
					s := r.fill(n)
					setProp(p, t, ref.Prop{ID: id, S: s})
					return true
				}, false})
			case ref.KBinary:
				fs = append(fs, field{5, pt, func(r *R, p *ref.Pkt, n int) bool {
					setProp(p, t, ref.Prop{ID: id, S: r.Data(n)})
					return true
				}, false})
			case ref.KPair:
				fs = append(fs, field{5, pt, func(r *R, p *ref.Pkt, n int) bool {
					setProp(p, t, ref.Prop{ID: id, K: r.fill(n), S: r.Text(r.N(9))})
					return true
				}, false}, field{5, pt, func(r *R, p *ref.Pkt, n int) bool {
					setProp(p, t, ref.Prop{ID: id, K: r.Text(r.N(9)), S: r.fill(n)})
					return true
				}, false})
			}
		}
	}
	return
}()

type sweepCase = func(r *R) *ref.Pkt

// plain is a random packet without its long lists
func (r *R) plain(v, t byte) *ref.Pkt {
	for {
		p := r.Pkt(v, t)
		if len(p.Props) < 12 && len(p.Subs) < 12 && len(p.Codes) < 12 {
			return p
		}
	}
}

// fix a packet whose pieces were changed one by one
func fixed(p *ref.Pkt) *ref.Pkt {
	if p.T == ref.PUBLISH && p.Topic == "" {
		for _, x := range p.Props {
			if x.ID == 0x23 {
				return p
			}
		}
		p.Topic = "a"
	}
	return p
}

// Fields, Counts and Numbers are the three parts of the sweep
var Fields, Counts, Numbers = func() (a, b, c []sweepCase) {
	for _, f := range sweepFields {
		f := f
		lens := sweepLens
		if f.big {
			lens = append(append([]int(nil), lens...), bigLens...)
		}
		for _, n := range lens {
			n := n
			if !f.f(New(1), New(1).plain(f.v, f.t), min(n, 1)) { // some fields may not be empty
				continue
			}
			a = append(a, func(r *R) *ref.Pkt {
				p := r.plain(f.v, f.t)
				f.f(r, p, n)
				return fixed(p)
			})
		}
	}
	for t := byte(0); t <= ref.AUTH; t++ {
		for _, id := range ref.PropIDs {
			if !ref.Allowed(id, t) || !ref.MayRepeat(id, t) {
				continue
			}
			for _, n := range sweepCounts {
				t, id, n := t, id, n
				b = append(b, func(r *R) *ref.Pkt {
					pt := t
					if t == ref.WILL {
						pt = ref.CONNECT
					}
					p := r.plain(5, pt)
					setProp(p, t, r.PropFor(id))
					l := &p.Props
					if t == ref.WILL {
						l = &p.Will.Props
					}
					for k := 1; k < n; k++ {
						x := ref.Prop{ID: id}
						if id == 0x26 {
							x.K, x.S = r.Text(r.N(4)), r.Text(r.N(6))
						} else {
							x.U = r.VarInt()
						}
						*l = append(*l, x)
					}
					return fixed(p)
				})
			}
		}
	}
	for v := byte(3); v <= 5; v++ {
		for _, t := range []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.SUBACK, ref.UNSUBACK} {
			if v < 5 && t == ref.UNSUBACK {
				continue
			}
			for _, n := range append(append([]int(nil), sweepCounts...), 8192, 16384, 65535, 65536, 65537) {
				v, t, n := v, t, n
				b = append(b, func(r *R) *ref.Pkt {
					p := r.plain(v, t)
					p.Subs, p.Codes = nil, nil
					cs := ref.CodesOf(v, t)
					for k := 0; k < n; k++ {
						switch t {
						case ref.SUBSCRIBE:
							f := r.Text(1 + r.N(5))
							p.Subs = append(p.Subs, ref.Sub{F: f, Ops: r.SubOps(v, false)})
						case ref.UNSUBSCRIBE:
							p.Subs = append(p.Subs, ref.Sub{F: r.Text(1 + r.N(5))})
						default:
							p.Codes = append(p.Codes, r.Pick(cs))
						}
					}
					return p
				})
			}
		}
	}
	for _, x := range sweepNums {
		x := x
		if x <= 65535 {
			for v := byte(3); v <= 5; v++ {
				v := v
				c = append(c, func(r *R) *ref.Pkt {
					p := r.plain(v, ref.CONNECT)
					p.KeepAlive = uint16(x)
					return p
				})
				if x == 0 {
					continue
				}
				for _, t := range TypesFor(v) {
					t := t
					if q := New(1).Pkt(v, t); !q.HasID && t != ref.PUBLISH {
						continue
					}
					c = append(c, func(r *R) *ref.Pkt {
						p := r.plain(v, t)
						if t == ref.PUBLISH && !p.HasID {
							p.QoS = byte(1 + r.N(2))
						}
						p.HasID, p.ID = true, uint16(x)
						return p
					})
				}
			}
		}
		for t := byte(0); t <= ref.AUTH; t++ {
			for _, id := range ref.PropIDs {
				if !ref.Allowed(id, t) || !NumFits(id, x) {
					continue
				}
				t, id := t, id
				c = append(c, func(r *R) *ref.Pkt {
					pt := t
					if t == ref.WILL {
						pt = ref.CONNECT
					}
					p := r.plain(5, pt)
					setProp(p, t, ref.Prop{ID: id, U: uint32(x)})
					return fixed(p)
				})
			}
		}
	}
	return
}()

// NumFits tells whether x is a legal value of the numeric property id
func NumFits(id uint32, x uint64) bool {
	switch ref.PropTable[id].Kind {
	case ref.KByte:
		return x <= 1
	case ref.KShort:
		return x <= 65535 && (x > 0 || (id != 0x21 && id != 0x23))
	case ref.KInt:
		return x <= 1<<32-1 && (x > 0 || id != 0x27)
	case ref.KVarInt:
		return x > 0 && x <= 268435455
	}
	return false
}
