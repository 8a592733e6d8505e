package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C12"] = &Check{Run: c12, Rule: "every string over {a / + # $ space é} up to length 6 (8 thorough), bare and behind $share/$-prefixes and their near misses, plus seeded long ones; non-trivial = distinct strings", Note: "oracle: independent filter parser"}
	checks["C13"] = &Check{Run: c13, Rule: "every 1- and 2-byte sequence, every 3- and 4-byte lead with boundary continuation bytes, every code point, each embedded at start, middle and end of rotating text fields; non-trivial = distinct (field, position, text)", Note: "oracle: RFC 3629 state machine"}
	checks["C14"] = &Check{Run: c14, Rule: "exhaustive: 256 codes x 256 types x setters x decoders x list positions; non-trivial = distinct (operation, type, version, code)", Note: "oracle: reason code tables of MQTT 5 and MQTT 3.1.1"}
	checks["C31"] = &Check{Run: c31, Rule: "every length 0-65535 and beyond against buffers around the exact size; non-trivial = distinct (direction, length, buffer size)", Note: "oracle: arithmetic, canaries"}
	checks["C32"] = &Check{Run: c32, Rule: "exhaustive: 256 option bytes x 3 versions x positions x filter kinds; non-trivial = distinct (version, option byte, position)", Note: "oracle: MQTT 5 3.8.3.1"}
}

func (t *T) checkFilter(s string, wire bool) {
	w, ok := ref.ParseFilter(s)
	t.Eval()
	t.Distinct(s)
	in := []byte(s)
	top, err := mqttp.NewTopic(in)
	if (err == nil) != ok || (top == nil) == ok {
		t.Fatalf("NewTopic(%q): %v, grammar says valid=%v", s, err, ok)
	}
	ops := mqttp.SubscriptionOptions([]byte{0, 1, 2, 0x2e, 0x11, 0x1a, 0x08, 0x04}[t.R.N(8)])
	st, err := mqttp.NewSubscribeTopic(in, ops)
	if (err == nil) != ok || (st == nil) == ok {
		t.Fatalf("NewSubscribeTopic(%q, %#x): %v, grammar says valid=%v", s, ops, err, ok)
	}
	if bad, err := mqttp.NewSubscribeTopic(in, ops|3); err == nil || bad != nil {
		t.Fatalf("NewSubscribeTopic(%q) accepts QoS 3", s)
	}
	if string(in) != s {
		t.Fatalf("NewTopic changed its argument %q", s)
	}
	if ok {
		t.parts(w, top, 0)
		t.parts(w, st, byte(ops))
		t.Count("valid filters")
	} else {
		t.Count("invalid filters")
	}
	if name := s; name != "" {
		if g := mqttp.ValidTopic(in); g != ref.ValidTopicName(name) {
			t.Fatalf("ValidTopic(%q) = %v", s, g)
		}
		p := mqttp.NewPublish(4)
		if e := p.SetTopic(s); (e == nil) != ref.ValidTopicName(name) {
			t.Fatalf("SetTopic(%q) = %v", s, e)
		}
	}
	if !wire {
		return
	}
	v := byte(3 + t.R.N(3))
	for _, q := range []*ref.Pkt{
		{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: s, Ops: 1}}},
		{V: v, T: ref.UNSUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: "x"}, {F: s}}},
		{V: v, T: ref.PUBLISH, Topic: s},
	} {
		b := q.Encode(ref.Full)
		r := ref.Decode(v, b)
		m, _, err := t.decode(v, b)
		if r.Verdict == ref.Accept && err != nil || r.Verdict == ref.Reject && err == nil {
			t.Fatalf("%s v%d with %q: reference %v %s, library %v", ref.TypeName[q.T], v, s, r.Verdict, r.Class, err)
		}
		if err == nil {
			t.same("decoded", q, t.extract(m))
		}
	}
}

func (t *T) parts(w ref.Filter, g *mqttp.Topic, ops byte) {
	f, o := g.Topic()
	if g.Full() != w.Full || g.Filter() != w.Filter || f != w.Filter || g.ShareName() != w.Share || g.DollarPrefix() != w.Dollar || byte(g.Ops()) != ops || byte(o) != ops {
		t.Fatalf("parts of %q: full %q filter %q/%q share %q dollar %q options %#x/%#x, want %+v %#x", w.Full, g.Full(), g.Filter(), f, g.ShareName(), g.DollarPrefix(), byte(g.Ops()), byte(o), w, ops)
	}
}

func c12(c *C) {
	alpha := []string{"a", "/", "+", "#", "$", " ", "é"}
	enum := func(section, prefix string, n int) {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		const chunk = 343
		if total < chunk {
			total = chunk
		}
		c.Each(section, total/chunk, func(t *T) {
			for k := 0; k < chunk; k++ {
				x := t.I*chunk + k
				// strings of length exactly n; shorter ones too, while x is small
				var sb strings.Builder
				sb.WriteString(prefix)
				for i := 0; i < n; i++ {
					sb.WriteString(alpha[x%len(alpha)])
					x /= len(alpha)
				}
				if x > 0 {
					break
				}
				t.checkFilter(sb.String(), k%7 == 0)
			}
		})
	}
	top := c.Scale(6, 8)
	for n := 0; n <= top; n++ {
		enum(fmt.Sprintf("all-%d", n), "", n)
	}
	c.Exhausted(fmt.Sprintf("all strings over 7 symbols up to length %d", top))
	pre := []string{"$share", "$share/", "$share/g", "$share/g/", "$share/g/a", "$share/é/", "$share/+/", "$share/#/", "$share//", "$shar", "$shared/", "$Share/g/", "$SYS", "$SYS/", "$", "share/g/", "/$share/g/", "$share/g+/", "$share/+", "$share/g/+/", "$share/$share/", "$share/a b/", " $share/g/"}
	sub := c.Scale(4, 6)
	for i, p := range pre {
		for n := 0; n <= sub; n++ {
			enum(fmt.Sprintf("prefix-%d-%d", i, n), p, n)
		}
	}
	c.Exhausted(fmt.Sprintf("the same up to length %d behind %d prefixes", sub, len(pre)))
	c.Each("random", c.Scale(60000, 1500000), func(t *T) {
		s := t.R.FilterStr()
		if t.R.Bool() { // damage it
			b := []byte(s)
			for k := 1 + t.R.N(2); k > 0; k-- {
				i := t.R.N(len(b) + 1)
				x := []string{"+", "#", "/", "$", "\x00", "\x1f", "\x7f", "\xff", "\xc2\x80", "\xed\xa0\x80", "+/", "/#", "\n"}[t.R.N(13)]
				b = append(b[:i:i], append([]byte(x), b[i:]...)...)
			}
			s = string(b)
		}
		if len(s) > 65535 {
			return
		}
		t.checkFilter(s, true)
		t.Sample("%q", s[:min(len(s), 60)])
	})
	// long ones
	c.Each("long", c.Scale(500, 4000), func(t *T) {
		n := []int{127, 128, 255, 256, 1000, 16383, 65534, 65535}[t.R.N(8)]
		u := []string{"a", "/", "a/", "+/", "é/", "ab/+/"}[t.R.N(6)]
		s := strings.Repeat(u, n/len(u))
		switch t.R.N(9) {
		case 6: // hardly a shared subscription
			s = []string{"$share//", "$share/a+/", "$share/#/", "$share", "$share/", "$share/g/#/", "$share/+", "$share/g//", "$SHARE/g/+"}[t.R.N(9)] + s
		case 7:
			s = "$share/" + strings.Repeat("g", max(0, n-8)) + []string{"", "/", "/a", "/+", "+/a", "/#", "/a#"}[t.R.N(7)]
		case 8: // one character that may not be there
			x := []string{"\xff", "\x00", "\n", "\u0085", "\xed\xa0\x80", "\x7f"}[t.R.N(6)]
			if s = s[:max(0, min(len(s), 65535-len(x))/len(u)*len(u))]; t.R.Bool() {
				s = strings.Repeat("a", 65535-len(x)-len(s)) + s
			}
			i := []int{0, len(s), t.R.N(len(s))}[t.R.N(3)]
			s = s[:i] + x + s[i:]
		case 0:
			s = s[:len(s)-1] + "#"
		case 1:
			s = "$share/" + strings.Repeat("g", 1+t.R.N(300)) + "/" + s
		case 2:
			i := t.R.N(len(s))
			s = s[:i] + "+" + s[i:]
		case 3:
			i := t.R.N(len(s))
			s = s[:i] + "#" + s[i:]
		}
		if len(s) > 65535 {
			s = s[:65535]
		}
		t.checkFilter(s, true)
	})
}

// a text field of a packet: put embeds s into an otherwise conforming packet
type textField struct {
	name string
	ctl  bool // control characters are refused too
	wild bool // wildcards have a meaning
	cid  bool // client identifier grammar
	put  func(s string) *ref.Pkt
}

// bad decides whether the field must refuse s for the characters in it
func (f textField) bad(s string) bool {
	return !ref.ValidUTF8(s) || ref.HasNul(s) || f.ctl && ref.HasControl(s)
}

func textFields() []textField {
	var fs []textField
	add := func(name string, ctl, wild, cid bool, put func(s string) *ref.Pkt) {
		fs = append(fs, textField{name, ctl, wild, cid, put})
	}
	for v := byte(3); v <= 5; v++ {
		v := v
		n := fmt.Sprintf(" v%d", v)
		add("PUBLISH topic"+n, true, true, false, func(s string) *ref.Pkt { return &ref.Pkt{V: v, T: ref.PUBLISH, Topic: s, Payload: "p"} })
		add("PUBLISH qos1 topic"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.PUBLISH, Topic: s, QoS: 1, HasID: true, ID: 3}
		})
		add("SUBSCRIBE only filter"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: s}}}
		})
		add("SUBSCRIBE last filter"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: "a"}, {F: "b/+", Ops: 1}, {F: s, Ops: 2}}}
		})
		add("SUBSCRIBE shared filter"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: "$share/g/" + s}}}
		})
		add("SUBSCRIBE share name"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: "$share/" + s + "/f"}}}
		})
		add("UNSUBSCRIBE first filter"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.UNSUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: s}, {F: "z"}}}
		})
		add("UNSUBSCRIBE last filter"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.UNSUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: "z"}, {F: s}}}
		})
		add("will topic"+n, true, true, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.CONNECT, Clean: true, ClientID: "c", Will: &ref.Will{Topic: s, Payload: "p"}}
		})
		add("client id"+n, true, false, true, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.CONNECT, Clean: true, ClientID: s, HasUser: true, User: "u"}
		})
		add("user name"+n, true, false, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.CONNECT, Clean: true, ClientID: "c", HasUser: true, User: s, HasPass: true, Pass: "p"}
		})
		add("user name after will"+n, true, false, false, func(s string) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.CONNECT, Clean: true, ClientID: "c", HasUser: true, User: s, Will: &ref.Will{Topic: "w", Payload: "p"}}
		})
	}
	props := func(t byte, ps ...ref.Prop) *ref.Pkt {
		p := &ref.Pkt{V: 5, T: t, Props: ps}
		switch t {
		case ref.WILL:
			return &ref.Pkt{V: 5, T: ref.CONNECT, Clean: true, ClientID: "c", Will: &ref.Will{Topic: "w", Payload: "p", Props: ps}}
		case ref.CONNECT:
			p.Clean, p.ClientID = true, "c"
		case ref.PUBLISH:
			p.Topic = "a"
		case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
			p.HasID, p.ID, p.Subs = true, 1, []ref.Sub{{F: "a"}}
		case ref.SUBACK, ref.UNSUBACK:
			p.HasID, p.ID, p.Codes = true, 1, []byte{0}
		case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
			p.HasID, p.ID = true, 1
		}
		return p
	}
	for _, id := range ref.PropIDs {
		id := id
		for _, t := range ref.PropTable[id].Types {
			t := t
			tn := ref.TypeName[t]
			if t == ref.WILL {
				tn = "will"
			}
			switch ref.PropTable[id].Kind {
			case ref.KString:
				add(fmt.Sprintf("%s property %#x", tn, id), false, id == 0x08, false, func(s string) *ref.Pkt { return props(t, ref.Prop{ID: id, S: s}) })
			case ref.KPair:
				add(fmt.Sprintf("%s user property key", tn), false, false, false, func(s string) *ref.Pkt { return props(t, ref.Prop{ID: id, K: s, S: "v"}) })
				add(fmt.Sprintf("%s user property value", tn), false, false, false, func(s string) *ref.Pkt { return props(t, ref.Prop{ID: id, K: "k", S: s}) })
				add(fmt.Sprintf("%s second user property value", tn), false, false, false, func(s string) *ref.Pkt {
					return props(t, ref.Prop{ID: id, K: "k", S: "v"}, ref.Prop{ID: id, K: "k", S: s})
				})
			}
		}
	}
	return fs
}

// apiText are the API entry points that validate text
var apiText = []struct {
	name string
	cid  bool
	f    func(s string) (refused bool)
}{
	{"IsValidUTF", false, func(s string) bool { return !mqttp.IsValidUTF([]byte(s)) }},
	{"ValidTopic", false, func(s string) bool { return !mqttp.ValidTopic([]byte(s)) }},
	{"NewTopic", false, func(s string) bool { _, e := mqttp.NewTopic([]byte(s)); return e != nil }},
	{"NewSubscribeTopic shared", false, func(s string) bool { _, e := mqttp.NewSubscribeTopic([]byte("$share/g/"+s), 1); return e != nil }},
	{"NewTopic share name", false, func(s string) bool { _, e := mqttp.NewTopic([]byte("$share/" + s + "/f")); return e != nil }},
	{"SetTopic v4", false, func(s string) bool { p := mqttp.NewPublish(4); e := p.SetTopic(s); return e != nil && p.Topic() == "" }},
	{"SetTopic v5", false, func(s string) bool { p := mqttp.NewPublish(5); e := p.SetTopic(s); return e != nil && p.Topic() == "" }},
	{"Set v5", false, func(s string) bool {
		p := mqttp.NewPublish(5)
		e := p.Set(s, []byte("x"), 1, true, true)
		return e != nil && p.Topic() == ""
	}},
	{"SetClientID", true, func(s string) bool {
		p := mqttp.NewConnect(4)
		e := p.SetClientID([]byte(s))
		return e != nil && len(p.ClientID()) == 0
	}},
	{"SetCredentials v4", false, func(s string) bool {
		p := mqttp.NewConnect(4)
		e := p.SetCredentials([]byte(s), []byte("p"))
		u, w := p.Credentials()
		return e != nil && len(u) == 0 && len(w) == 0
	}},
	{"SetCredentials v5", false, func(s string) bool {
		p := mqttp.NewConnect(5)
		return p.SetCredentials([]byte(s), nil) != nil
	}},
}

func c13(c *C) {
	fields := textFields()
	wrap := func(s string, pos int) string { return []string{s + "ab", "a" + s + "b", "ab" + s}[pos%3] }
	// badIn demands refusal of s in field k
	badIn := func(t *T, f textField, s string) {
		p := f.put(s)
		b := p.Encode(ref.Full)
		if ref.Decode(p.V, b).Verdict != ref.Reject {
			panic("harness: reference accepts " + f.name + fmt.Sprintf(" %q", s))
		}
		m, _, err := t.decode(p.V, b)
		if err == nil {
			t.Fatalf("%s: ill-formed text %q accepted as %v", f.name, s, m.Type())
		}
		t.Eval()
		t.Distinct(f.name, s)
	}
	bad := func(t *T, x string, i int) {
		per := c.Scale(2, 6)
		for k := 0; k < per; k++ {
			f := fields[(i*per+k)%len(fields)]
			badIn(t, f, wrap(x, i+k))
		}
		for k, a := range apiText {
			if k%3 != i%3 && !c.Thorough {
				continue
			}
			if s := wrap(x, i); !a.f(s) {
				t.Fatalf("%s accepts ill-formed text %q", a.name, s)
			}
			t.Eval()
		}
		t.Count("ill-formed sequences")
	}
	// every class of ill-formed sequence and control character in every field at every position
	c.Each("fields", len(fields), func(t *T) {
		f := fields[t.I]
		seqs := badTexts
		if f.ctl {
			seqs = append(append([]string(nil), badTexts...), badCtl...)
		}
		for c := 0; c < 256; c++ { // every single byte that cannot stand alone
			if s := string([]byte{byte(c)}); f.bad(s) {
				seqs = append(seqs, s)
			}
		}
		if f.ctl {
			for c := 0x80; c < 0xA0; c++ {
				seqs = append(seqs, string(rune(c)))
			}
		}
		for _, s := range seqs {
			for pos := 0; pos < 3; pos++ {
				x := wrap(s, pos)
				if f.bad(x) {
					badIn(t, f, x)
				}
			}
			if !ref.ValidUTF8(s) || ref.HasNul(s) {
				badIn(t, f, s)
				badIn(t, f, strings.Repeat("é", 200)+s+strings.Repeat("x", 70))
				badIn(t, f, "x"+s+s+"\u20ac"+s)
			}
		}
	})
	c.Exhausted("every single byte, every ill-formedness class and every control character x every text field x 3 positions")
	c.Each("api-control", len(apiText), func(t *T) {
		a := apiText[t.I]
		for r := rune(0); r < 0xA0; r++ {
			if r >= 0x20 && r < 0x7f {
				continue
			}
			for pos := 0; pos < 3; pos++ {
				if s := wrap(string(r), pos); !a.f(s) {
					t.Fatalf("%s accepts control character %q", a.name, s)
				}
				t.Eval()
			}
		}
	})
	c.Each("two-bytes", 256, func(t *T) {
		for x := 0; x < 256; x++ {
			s := string([]byte{byte(t.I), byte(x)})
			if !ref.ValidUTF8(s) {
				bad(t, s, t.I*256+x)
			}
		}
	})
	conts := []byte{0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff}
	c.Each("three-four-bytes", 32*256, func(t *T) {
		lead, second := byte(0xE0+t.I/256), byte(t.I)
		i := t.I
		for _, a := range conts {
			if s := string([]byte{lead, second, a}); !ref.ValidUTF8(s) {
				bad(t, s, i)
			}
			i++
			if lead >= 0xF0 {
				for _, b := range conts {
					if s := string([]byte{lead, second, a, b}); !ref.ValidUTF8(s) {
						bad(t, s, i)
					}
					i++
				}
			}
		}
	})
	c.Exhausted("all ill-formed sequences of two bytes; all leads E0-FF x all second bytes x boundary third and fourth bytes")
	// surrogate pairs spelt as two three-byte sequences, and any two ill-formed sequences in a row
	c.Each("surrogate-pairs", 16*64, func(t *T) {
		h2, h3 := byte(0xa0+t.I/64), byte(0x80+t.I%64)
		for l2 := byte(0xb0); l2 <= 0xbf; l2++ {
			for _, l3 := range []byte{0x80, 0x81, 0x9f, 0xbf, byte(0x80 + t.R.N(64))} {
				hi, lo := string([]byte{0xed, h2, h3}), string([]byte{0xed, l2, l3})
				bad(t, hi+lo, int(l2)+int(l3))
				if l3 == 0x80 {
					bad(t, hi[:2]+" "+lo[:2]+" ", int(h3))
					bad(t, lo+hi, int(l2))
					bad(t, hi+"\U00010000"+lo, int(l2))
				}
			}
		}
	})
	var pairs []string
	for _, a := range badTexts {
		for _, b := range badTexts {
			pairs = append(pairs, a+b)
		}
	}
	c.Each("two-in-a-row", len(pairs), func(t *T) {
		for k := 0; k < 6; k++ {
			if x := pairs[t.I]; !ref.ValidUTF8(x) {
				bad(t, x, t.I+k*7)
			}
		}
	})
	// truncated at the end of the field
	c.Each("truncated", len(fields), func(t *T) {
		for _, s := range []string{"é", "\u0800", "\uffff", "\U00010000", "\U0010ffff"} {
			for k := 1; k < len(s); k++ {
				badIn(t, fields[t.I], "ab"+s[:k])
				badIn(t, fields[t.I], s[:k])
			}
		}
	})
	// deep inside long text
	c.Each("deep", len(fields)*c.Scale(6, 200), func(t *T) {
		f := fields[t.I%len(fields)]
		n := []int{300, 1023, 1024, 1025, 2048, 4096, 8192, 16384, 32768, 65000, 65500}[t.R.N(11)]
		unit := []string{"a", "xyz0", "é", "\u4e2d", "ab/", "\U0001F600"}[t.R.N(6)]
		if f.cid {
			unit = "aB3"
		}
		base := strings.Repeat(unit, n/len(unit))
		for k := 0; k < 3; k++ {
			bad := badTexts[t.R.N(len(badTexts))]
			if f.ctl && t.R.Bool() {
				bad = badCtl[t.R.N(len(badCtl))]
			} else if t.R.P(1, 8) {
				bad = "\x00"
			}
			at := []int{len(base), len(base) - len(unit), len(base) / 2 / len(unit) * len(unit), t.R.N(len(base)/len(unit)) * len(unit)}[t.R.N(4)]
			s := base[:at] + bad + base[at:]
			if room := 65535 - len(s); n == 65500 && room > 0 && !strings.Contains(f.name, "share") { // to the very length a text can have
				s = strings.Repeat("a", room-t.R.N(3)%room) + s
				t.Count("text of 65,533 to 65,535 bytes")
			}
			badIn(t, f, s)
			for _, a := range apiText {
				if f.bad(bad) {
					if !a.f(s) {
						t.Fatalf("%s accepts %q behind %d and before %d good bytes", a.name, bad, at, len(base)-at)
					}
				}
			}
		}
		t.Count("deep positions")
	})
	// every code point
	const block = 256
	c.Each("code-points", 0x110000/block, func(t *T) {
		for k := 0; k < block; k++ {
			cp := rune(t.I*block + k)
			if cp >= 0xD800 && cp <= 0xDFFF {
				continue
			}
			ctl := cp < 0x20 || cp >= 0x7f && cp < 0xa0
			x := wrap(string(cp), k)
			f := fields[(t.I*block+k*7+t.R.N(len(fields)))%len(fields)]
			if ctl && !f.ctl && cp != 0 || f.wild && (cp == '+' || cp == '#') || f.name[:7] == "SUBSCRI" && cp == '/' || f.cid && !ref.ValidClientID(x) {
				continue
			}
			p := f.put(x)
			b := p.Encode(ref.Full)
			r := ref.Decode(p.V, b)
			m, _, err := t.decode(p.V, b)
			if ctl {
				if err == nil {
					t.Fatalf("%s: control character %q accepted", f.name, x)
				}
			} else if r.Verdict == ref.Accept {
				if err != nil {
					t.Fatalf("%s: well-formed text %q refused: %v", f.name, x, err)
				}
				t.same(f.name, p, t.extract(m))
				if g := mqttp.IsValidUTF([]byte(x)); !g {
					t.Fatalf("IsValidUTF(%q) = false", x)
				}
				t.Count("well-formed accepted")
			}
			t.Eval()
			t.Distinct(f.name, x)
		}
	})
	c.Exhausted("all 1,112,064 code points, each in one rotating field")
	c.Each("well-formed", c.Scale(20000, 400000), func(t *T) {
		f := fields[t.R.N(len(fields))]
		s := t.R.Text(1 + t.R.N(300))
		if t.R.P(1, 20) {
			n := 65535 - len("$share/g/")
			if !strings.Contains(f.name, "share") {
				n = 65535 - t.R.N(2)
			}
			s = t.R.Text(n)
			if len(s) < n && t.R.Bool() {
				s += strings.Repeat("z", n-len(s))
			}
			t.Count(fmt.Sprintf("well-formed text of %d bytes", len(s)/4096*4096))
		}
		if f.cid {
			s = t.R.ClientID() + "x"
		}
		p := f.put(s)
		b := p.Encode(ref.Full)
		if ref.Decode(p.V, b).Verdict != ref.Accept {
			return
		}
		m, _, err := t.decode(p.V, b)
		if err != nil {
			t.Fatalf("%s: well-formed text refused: %v (%q)", f.name, err, s[:min(len(s), 80)])
		}
		t.same(f.name, p, t.extract(m))
		t.Eval()
		t.Distinct(f.name, s)
	})
}

func dirOf(s ref.Sender, d mqttp.CodeIssuer) bool {
	switch s {
	case ref.Server:
		return d == mqttp.CodeIssuerServer
	case ref.Client:
		return d == mqttp.CodeIssuerClient
	case ref.Both:
		return d == mqttp.CodeIssuerBoth
	case ref.ServerOrBoth:
		return d == mqttp.CodeIssuerServer || d == mqttp.CodeIssuerBoth
	}
	return false
}

func c14(c *C) {
	if a, b, d := mqttp.CodeIssuerServer, mqttp.CodeIssuerClient, mqttp.CodeIssuerBoth; a == b || b == d || a == d {
		c.Each("directions", 1, func(t *T) { t.Fatalf("the sender directions cannot be told apart") })
	}
	c.Each("tables", 256, func(t *T) {
		x := byte(t.I)
		code := mqttp.ReasonCode(x)
		for ty := 0; ty < 256; ty++ {
			s := ref.Nobody
			if ty <= ref.AUTH {
				s = ref.CodeSender(byte(ty), x)
			}
			if g := code.IsValidForType(mqttp.Type(ty)); g != (s != ref.Nobody) {
				t.Fatalf("code %#x for packet type %d: IsValidForType = %v", x, ty, g)
			}
			d, err := code.PacketTypeDir(mqttp.Type(ty))
			if (err == nil) != (s != ref.Nobody) {
				t.Fatalf("code %#x for packet type %d: PacketTypeDir error %v", x, ty, err)
			}
			if err == nil && !dirOf(s, d) {
				t.Fatalf("code %#x of %s: sender direction %d", x, ref.TypeName[ty], d)
			}
			if err != nil && (d == mqttp.CodeIssuerServer || d == mqttp.CodeIssuerClient || d == mqttp.CodeIssuerBoth) {
				t.Fatalf("code %#x is not defined for packet type %d, but a sender direction is given", x, ty)
			}
			t.Eval()
			t.Distinct("table", ty, x)
		}
		if code.Value() != x {
			t.Fatalf("Value of %#x is %#x", x, code.Value())
		}
		def := ref.CodeDefined(x)
		// codes of MQTT 3 SUBACK are QoS values, valid or not as reason codes
		if code.IsValid() != def {
			t.Fatalf("code %#x: IsValid = %v", x, code.IsValid())
		}
		if g := code.IsValidV5(); g && !ref.CodeDefinedV5(x) || !g && ref.CodeDefinedV5(x) && (x == 0 || x > 5) {
			t.Fatalf("code %#x: IsValidV5 = %v", x, g)
		}
		if g := code.IsValidV3(); x != 0x80 && g != (x <= 5) {
			t.Fatalf("code %#x: IsValidV3 = %v", x, g)
		}
		if def == (code.Error() == mqttp.ReasonCode(0xff).Error()) || def == (code.Desc() == mqttp.ReasonCode(0xff).Desc()) {
			t.Fatalf("code %#x: description %q", x, code.Error())
		}
		t.EvalN(6)
	})
	c.Exhausted("256 codes x 256 packet types: validity and direction")
	longCodes(c)
	c.Each("setters", 256*3, func(t *T) {
		x, v := byte(t.I), byte(3+t.I/256)
		code := mqttp.ReasonCode(x)
		// CONNACK
		for _, prev := range []byte{0, 0x85, 3} {
			m := mqttp.NewConnAck(pv(v))
			if err := m.SetReturnCode(mqttp.ReasonCode(prev)); err != nil {
				t.Fatalf("CONNACK v%d SetReturnCode(%#x): %v", v, prev, err)
			}
			err := m.SetReturnCode(code)
			ok := ref.CodeSender(ref.CONNACK, x) != ref.Nobody
			t.setterVerdict("CONNACK SetReturnCode", v, x, prev, err, ok, byte(m.ReturnCode()))
		}
		if v == 5 {
			for _, prev := range []byte{0, 0x18, 0x19} {
				m := mqttp.NewAuth(5)
				if err := m.SetReasonCode(mqttp.ReasonCode(prev)); err != nil {
					t.Fatalf("AUTH SetReasonCode(%#x): %v", prev, err)
				}
				err := m.SetReasonCode(code)
				t.setterVerdict("AUTH SetReasonCode", v, x, prev, err, ref.CodeSender(ref.AUTH, x) != ref.Nobody, byte(m.ReasonCode()))
			}
		}
		// lists
		for _, unsub := range []bool{false, true} {
			ty := byte(ref.SUBACK)
			good := []byte{0, 0x80}
			if unsub {
				ty = ref.UNSUBACK
				if v != 5 { // MQTT 3 UNSUBACK has no codes
					continue
				}
				good = []byte{0x11, 0}
			}
			ok := ref.CodeSender(ty, x) != ref.Nobody
			if v != 5 {
				ok = x <= 2 || x == 0x80
			}
			mk := func() (add func(mqttp.ReasonCode) error, addAll func([]mqttp.ReasonCode) error, get func() []mqttp.ReasonCode) {
				if unsub {
					m := mqttp.NewUnSubAck(pv(v))
					return m.AddReturnCode, m.AddReturnCodes, m.ReturnCodes
				}
				m := mqttp.NewSubAck(pv(v))
				return m.AddReturnCode, m.AddReturnCodes, m.ReturnCodes
			}
			add, addAll, get := mk()
			for _, g := range good {
				if err := add(mqttp.ReasonCode(g)); err != nil {
					t.Fatalf("%s v%d AddReturnCode(%#x): %v", ref.TypeName[ty], v, g, err)
				}
			}
			want := append([]byte(nil), good...)
			chk := func(what string, err error, added ...byte) {
				t.Eval()
				t.Distinct("set", int(ty), int(v), x, what)
				if (err == nil) != ok {
					t.Fatalf("%s v%d %s with code %#x: %v", ref.TypeName[ty], v, what, x, err)
				}
				if err == nil {
					want = append(want, added...)
				}
				var g []byte
				for _, c := range get() {
					g = append(g, byte(c))
				}
				if !bytes.Equal(g, want) {
					t.Fatalf("%s v%d %s with code %#x (error %v): list is %x, want %x", ref.TypeName[ty], v, what, x, err, g, want)
				}
			}
			chk("AddReturnCode", add(code), x)
			for pos := 0; pos < 4; pos++ {
				l := []byte{0, 0x80, 0, 0}
				l[pos] = x
				in := make([]mqttp.ReasonCode, 4)
				for i := range l {
					in[i] = mqttp.ReasonCode(l[i])
				}
				chk(fmt.Sprintf("AddReturnCodes position %d", pos), addAll(in), l...)
			}
		}
	})
	c.Each("decoders", 256*3, func(t *T) {
		code, v := byte(t.I), byte(3+t.I/256)
		for _, ty := range gen.TypesFor(v) {
			for _, b := range codePackets(v, ty, code) {
				r := ref.Decode(v, b)
				m, _, err := t.decode(v, b)
				t.Eval()
				t.Distinct("dec", b, v)
				if r.Known != "" {
					continue // the known finding of C03
				}
				if r.Verdict == ref.Accept && err != nil || r.Verdict == ref.Reject && err == nil {
					t.Fatalf("code %#x in %s v%d: reference says %v, library %v (%x)", code, ref.TypeName[ty], v, r.Verdict, err, b)
				}
				if err == nil {
					t.same("reason code", r.Pkt, t.extract(m))
					if v == 5 && m.Type() != mqttp.CONNACK && ref.HasCodes(ty) && ref.CodeSender(ty, code) == ref.Nobody {
						t.Fatalf("undefined code %#x accepted in %s", code, ref.TypeName[ty])
					}
				}
			}
		}
	})
	c.Exhausted("256 codes x setters (single and every list position) x decoders of every packet type and version")
}

func (t *T) setterVerdict(what string, v, x, prev byte, err error, ok bool, got byte) {
	t.Eval()
	t.Distinct(what, int(v), x, prev)
	if (err == nil) != ok {
		t.Fatalf("%s(%#x) v%d: %v", what, x, v, err)
	}
	want := prev
	if ok {
		want = x
	}
	if got != want {
		t.Fatalf("%s(%#x) v%d after %#x (error %v): code is %#x, want %#x", what, x, v, prev, err, got, want)
	}
}

func c31(c *C) {
	src := make([]byte, 70000)
	for i := range src {
		src[i] = byte(i*7 + i>>8)
	}
	const block = 64
	c.Each("lengths", 65536/block, func(t *T) {
		var lenbuf = make([]byte, 66000)
		for k := 0; k < block; k++ {
			n := t.I*block + k
			// write
			for _, room := range []int{n + 2, n + 3, n + 70, n + 1, n, n - 1, n / 2, 2, 1, 0} {
				if room < 0 || room > len(lenbuf)-8 || n > 2000 && room > n+3 {
					continue
				}
				const can = 0xEE
				buf := lenbuf[:room]
				lo := 0
				if n > 4096 && room < n+2 { // only look at the edges of big refused buffers
					lo = room - 64
					if lo < 0 {
						lo = 0
					}
				}
				for i := range buf[:min(room, 64)] {
					buf[i] = can
				}
				for i := lo; i < len(buf); i++ {
					buf[i] = can
				}
				for i := 0; i < 8; i++ {
					lenbuf[room+i] = can
				}
				g, err := mqttp.WriteLPBytes(buf, src[:n])
				t.Eval()
				t.Distinct("w", n, room)
				if room < n+2 {
					if err != mqttp.ErrInsufficientBufferSize {
						t.Fatalf("WriteLPBytes(%d bytes into %d): %v", n, room, err)
					}
					for i, x := range buf[:min(room, 64)] {
						if x != can {
							t.Fatalf("WriteLPBytes(%d bytes into %d): refused, but byte %d written", n, room, i)
						}
					}
					for i := lo; i < len(buf); i++ {
						if buf[i] != can {
							t.Fatalf("WriteLPBytes(%d bytes into %d): refused, but byte %d written", n, room, i)
						}
					}
					continue
				}
				if err != nil || g != n+2 {
					t.Fatalf("WriteLPBytes(%d bytes into %d): %d, %v", n, room, g, err)
				}
				if int(buf[0])<<8|int(buf[1]) != n || !bytes.Equal(buf[2:2+n], src[:n]) {
					t.Fatalf("WriteLPBytes(%d bytes): wrong bytes", n)
				}
				for i := n + 2; i < room+8; i++ {
					if lenbuf[i] != can {
						t.Fatalf("WriteLPBytes(%d bytes into %d): wrote byte %d", n, room, i)
					}
				}
			}
			// read
			lenbuf[0], lenbuf[1] = byte(n>>8), byte(n)
			copy(lenbuf[2:], src[:min(n+100, len(lenbuf)-2)])
			for _, have := range []int{n, n + 1, n - 1, n / 2, 0, n + 2, n + 100} {
				if have < 0 || 2+have > len(lenbuf) {
					continue
				}
				in := lenbuf[: 2+have : 2+have]
				if (n+have)&1 == 0 || have < n && t.R.Bool() { // what is missing is in the spare capacity
					in = lenbuf[:2+have]
				}
				b, g, err := mqttp.ReadLPBytes(in)
				t.Eval()
				t.Distinct("r", n, have)
				if have < n {
					if err != mqttp.ErrInsufficientDataSize {
						t.Fatalf("ReadLPBytes of %d bytes with %d present: %v", n, have, err)
					}
					if len(b) != 0 {
						t.Fatalf("ReadLPBytes of %d bytes with %d present: returned %d bytes", n, have, len(b))
					}
					continue
				}
				if err != nil || g != n+2 || len(b) != n || !bytes.Equal(b, src[:n]) {
					t.Fatalf("ReadLPBytes of %d bytes with %d present: %d bytes, consumed %d, %v", n, have, len(b), g, err)
				}
			}
		}
	})
	c.Exhausted("every length 0-65535 against exact, larger and smaller buffers, both directions")
	c.Each("beyond", 300, func(t *T) {
		n := 65536 + t.I
		if t.I > 250 {
			n = 65536*(2+t.R.N(8)) + t.R.N(9) // would wrap in 16 bits
		}
		s := make([]byte, n)
		for _, room := range []int{n + 2, n + 10, n&0xffff + 2, n & 0xffff, 2, 1, 0} {
			buf := bytes.Repeat([]byte{0xEE}, room)
			_, err := mqttp.WriteLPBytes(buf, s)
			t.Eval()
			t.Distinct("b", n, room)
			if err != mqttp.ErrInvalidLPStringSize && !(room < n+2 && err == mqttp.ErrInsufficientBufferSize) {
				t.Fatalf("WriteLPBytes(%d bytes into %d): %v", n, room, err)
			}
			for i, x := range buf {
				if x != 0xEE {
					t.Fatalf("WriteLPBytes(%d bytes): refused, but byte %d written", n, i)
				}
			}
		}
	})
	c.Each("short", 256, func(t *T) {
		for _, in := range [][]byte{nil, {}, {byte(t.I)}} {
			if b, _, err := mqttp.ReadLPBytes(in); err != mqttp.ErrInsufficientDataSize || len(b) != 0 {
				t.Fatalf("ReadLPBytes(%x): %x, %v", in, b, err)
			}
		}
		for _, in := range [][]byte{nil, {}} {
			b := []byte{9, 9, 9}
			if n, err := mqttp.WriteLPBytes(b, in); err != nil || n != 2 || b[0] != 0 || b[1] != 0 || b[2] != 9 {
				t.Fatalf("WriteLPBytes of nothing: %d %v %x", n, err, b)
			}
		}
		t.EvalN(5)
		t.Distinct("short", t.I)
	})
	// fields in sequence
	c.Each("sequence", c.Scale(20000, 300000), func(t *T) {
		var fs [][]byte
		buf := make([]byte, 0, 4096)
		total := 0
		for k := 1 + t.R.N(8); k > 0; k-- {
			f := t.R.Bytes(t.R.Len(300))
			fs = append(fs, f)
			total += 2 + len(f)
		}
		buf = append(buf, make([]byte, total)...)
		off := 0
		for _, f := range fs {
			cp := append([]byte(nil), f...)
			n, err := mqttp.WriteLPBytes(buf[off:], f)
			if err != nil {
				t.Fatalf("%v", err)
			}
			if !bytes.Equal(cp, f) {
				t.Fatalf("WriteLPBytes changed its source")
			}
			off += n
		}
		if off != total {
			t.Fatalf("wrote %d of %d", off, total)
		}
		off = 0
		for i, f := range fs {
			b, n, err := mqttp.ReadLPBytes(buf[off:])
			if err != nil || !bytes.Equal(b, f) || n != 2+len(f) {
				t.Fatalf("field %d of a sequence: %x, want %x (%v)", i, b, f, err)
			}
			off += n
		}
		t.EvalN(len(fs))
		t.Distinct(buf)
		t.Sample("%d fields, %d bytes", len(fs), total)
	})
}

func c32(c *C) {
	c.Each("accessors", 256, func(t *T) {
		x := byte(t.I)
		o := mqttp.SubscriptionOptions(x)
		if byte(o.QoS()) != x&3 || o.NL() != (x&4 != 0) || o.RAP() != (x&8 != 0) || byte(o.RetainHandling()) != x>>4&3 || o.Raw() != x {
			t.Fatalf("options %#x: QoS %d, no local %v, retain as published %v, retain handling %d, raw %#x", x, o.QoS(), o.NL(), o.RAP(), o.RetainHandling(), o.Raw())
		}
		t.EvalN(5)
		t.Distinct("acc", x)
	})
	filters := []string{"a", "a/+/#", "#", "$SYS/x", "é", "$share/g/t", "$share/g/#"}
	c.Each("wire", 256*3, func(t *T) {
		x, v := byte(t.I), byte(3+t.I/256)
		for n := 1; n <= 5; n++ {
			for pos := 0; pos < n; pos++ {
				for fi := range filters {
					p := &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 77}
					for k := 0; k < n; k++ {
						p.Subs = append(p.Subs, ref.Sub{F: filters[t.R.N(5)], Ops: t.R.SubOps(v, false)})
					}
					p.Subs[pos] = ref.Sub{F: filters[fi], Ops: x}
					b := p.Encode(ref.Full)
					r := ref.Decode(v, b)
					m, _, err := t.decode(v, b)
					t.Eval()
					t.Distinct("wire", b, v)
					legal := x&3 != 3 && (v == 5 && x&0xC0 == 0 && x>>4&3 != 3 || v != 5 && x < 3)
					if legal != (r.Verdict != ref.Reject) {
						panic("harness: two readings of the option byte disagree")
					}
					if r.Verdict == ref.Accept && err != nil || r.Verdict == ref.Reject && err == nil {
						t.Fatalf("SUBSCRIBE v%d with option byte %#x for %q at %d of %d: %v", v, x, filters[fi], pos, n, err)
					}
					if err == nil {
						t.same("subscriptions", p, t.extract(m))
						t.Count("accepted")
						// and back out again
						if r.Verdict == ref.Accept {
							t.refAccept(p, t.encode(m))
						}
					} else {
						t.Count("refused")
					}
				}
			}
		}
	})
	c.Exhausted("256 option bytes x 3 versions x every position in lists of 1-5")
	c.Each("built", 256, func(t *T) {
		x := byte(t.I)
		if x&3 == 3 {
			if tp, err := mqttp.NewSubscribeTopic([]byte("a"), mqttp.SubscriptionOptions(x)); err == nil || tp != nil {
				t.Fatalf("NewSubscribeTopic accepts QoS 3 (%#x)", x)
			}
			return
		}
		if x&0xC0 != 0 || x>>4 == 3 {
			return
		}
		for _, f := range filters {
			if x&4 != 0 && strings.HasPrefix(f, "$share") {
				continue
			}
			p := &ref.Pkt{V: 5, T: ref.SUBSCRIBE, HasID: true, ID: 77, Subs: []ref.Sub{{F: "x", Ops: 1}, {F: f, Ops: x}, {F: f, Ops: 0}}}
			t.refAccept(p, t.encode(t.build(p)))
			t.Eval()
			t.Distinct("built", f, x)
		}
	})
}

// longCodes: one code in a list of thousands
func longCodes(c *C) {
	sizes := []int{255, 256, 257, 4097, 32768, 65535, 65536, 65537, 70001, 140000}
	c.EachN("long lists", len(sizes)*4*8, 4, func(t *T) {
		n := sizes[t.I%len(sizes)]
		v, ty := byte(3+t.I/len(sizes)%4), byte(ref.SUBACK)
		if v == 6 {
			v, ty = 5, ref.UNSUBACK
		}
		x := t.R.Byte()
		at := n - 1
		if t.R.Bool() {
			at = t.R.N(n)
		}
		if t.R.P(1, 4) {
			at = n - 1 - t.R.N(n/2)
		}
		l := make([]mqttp.ReasonCode, n)
		codes := ref.CodesOf(v, ty)
		p := &ref.Pkt{V: v, T: ty, HasID: true, ID: 1, Codes: make([]byte, n)}
		for i := range l {
			p.Codes[i] = codes[t.R.N(len(codes))]
			if i == at {
				p.Codes[i] = x
			}
			l[i] = mqttp.ReasonCode(p.Codes[i])
		}
		ok := legalCode(v, ty, x)
		m := t.build(&ref.Pkt{V: v, T: ty, HasID: true, ID: 1, Codes: []byte{0}})
		var err error
		if y, is := m.(*mqttp.SubAck); is {
			err = y.AddReturnCodes(l)
		} else {
			err = m.(*mqttp.UnSubAck).AddReturnCodes(l)
		}
		if (err == nil) != ok {
			t.Fatalf("%s v%d: AddReturnCodes of %d codes, %#x at %d: %v", ref.TypeName[ty], v, n, x, at, err)
		}
		if g := t.extract(m); len(g.Codes) != 1 && !ok || ok && string(g.Codes) != "\x00"+string(p.Codes) {
			t.Fatalf("%s v%d: %d codes after AddReturnCodes of %d, %#x at %d (%v)", ref.TypeName[ty], v, len(g.Codes), n, x, at, err)
		}
		b := p.Encode(ref.Full)
		_, _, err = t.decode(v, b)
		if r := ref.Decode(v, b).Verdict; r == ref.Reject && err == nil || r == ref.Accept && err != nil {
			t.Fatalf("%s v%d of %d codes, %#x at %d: %v", ref.TypeName[ty], v, n, x, at, err)
		}
		t.EvalN(3)
		if ok {
			t.Count("long lists of legal codes")
		} else {
			t.Count("long lists with an illegal code")
		}
		t.Distinct("long", v, ty, n, at, x)
	})
}
