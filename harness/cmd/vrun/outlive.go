package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

// part is something read from a packet, which is looked at again when the packet is gone
type part struct {
	name string
	now  func() string
	was  string
}

func partsOf(m mqttp.IFace, will bool) (l []part) {
	add := func(name string, now func() string) { l = append(l, part{name, now, now()}) }
	props := func(m mqttp.IFace, of string) {
		_ = m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
			n := fmt.Sprintf("%sproperty %#x", of, uint32(id))
			add(n, func() string { x, err := adapt.ReadProp(uint32(id), v); return fmt.Sprint(x, err) })
			if b, err := v.AsBinary(); err == nil {
				add(n, func() string { return string(b) })
			}
			if s, err := v.AsString(); err == nil {
				add(n, func() string { return strings.Clone(s) })
			}
			if s, err := v.AsStringPairs(); err == nil {
				add(n, func() string { return fmt.Sprint(s) })
			}
			if s, err := v.AsInts(); err == nil {
				add(n, func() string { return fmt.Sprint(s) })
			}
		})
	}
	topic := func(x *mqttp.Topic) error {
		add("topic", func() string {
			f, o := x.Topic()
			return fmt.Sprint(x.Full(), x.ShareName(), x.DollarPrefix(), f, o)
		})
		return nil
	}
	if !will {
		props(m, "")
	}
	switch x := m.(type) {
	case *mqttp.Publish:
		tp, p := x.Topic(), x.Payload()
		add("topic", func() string { return strings.Clone(tp) })
		add("payload", func() string { return string(p) })
	case *mqttp.Connect:
		if w := x.Will(); w != nil {
			props(w, "will ")
			l = append(l, partsOf(w, false)...)
		}
		if !will {
			id := x.ClientID()
			u, p := x.Credentials()
			add("client id", func() string { return string(id) })
			add("user name", func() string { return string(u) })
			add("password", func() string { return string(p) })
		}
	case *mqttp.Subscribe:
		_ = x.ForEachTopic(topic)
	case *mqttp.UnSubscribe:
		_ = x.ForEachTopic(topic)
	case *mqttp.SubAck:
		c := x.ReturnCodes()
		add("codes", func() string { return fmt.Sprint(c) })
	case *mqttp.UnSubAck:
		c := x.ReturnCodes()
		add("codes", func() string { return fmt.Sprint(c) })
	}
	return
}

func shortPkt(r *gen.R, v, ty byte) *ref.Pkt {
	p := r.Pkt(v, ty)
	if len(p.Payload) > 300 && !r.P(1, 20) {
		p.Payload = p.Payload[:r.N(300)]
	}
	return p
}

// apart runs f so that nothing of it stays on this goroutine's stack
func apart(f func()) {
	var w sync.WaitGroup
	var e interface{}
	w.Add(1)
	go func() {
		defer w.Done()
		defer func() { e = recover() }()
		f()
	}()
	w.Wait()
	if e != nil {
		panic(e)
	}
}

// churn collects what is not used and works on many other packets
func churn(t *T) {
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond) // finalizers
		apart(func() {
			for k := 0; k < 120; k++ {
				v := byte(3 + t.R.N(3))
				ts := gen.TypesFor(v)
				p := shortPkt(t.R, v, ts[t.R.N(len(ts))])
				m, _, err := mqttp.Decode(pv(v), p.Encode(ref.Full))
				if err != nil {
					continue
				}
				if x, ok := m.(*mqttp.Publish); ok && x.Topic() != "" {
					_, _ = x.Clone(pv(v))
				}
				_, _ = mqttp.Encode(m)
			}
		})
	}
}

// c23parts: what was read from packets stays as it was after the packets themselves are gone
func c23parts(c *C) {
	c.Each("parts", c.Scale(160, 4000), func(t *T) {
		var kept []part
		var names []string
		apart(func() {
			for k := 0; k < 40; k++ {
				v := byte(3 + t.R.N(3))
				ts := gen.TypesFor(v)
				ty := ts[t.R.N(len(ts))]
				if t.R.Bool() {
					ty = []byte{ref.PUBLISH, ref.CONNECT}[t.R.N(2)]
				}
				p := shortPkt(t.R, v, ty)
				b := p.Encode(ref.Full)
				m, _, err := t.decode(v, b)
				if err != nil {
					t.Fatalf("conforming %s refused: %v", ref.TypeName[ty], err)
				}
				used := t.R.Bool() && (ty == ref.PUBLISH || ty == ref.CONNECT)
				for _, x := range partsOf(m, used) {
					if t.R.P(2, 3) {
						kept = append(kept, x)
						names = append(names, fmt.Sprintf("%s v%d", ref.TypeName[ty], v))
					}
				}
				if used {
					for i := range b {
						b[i] = 0xEE
					}
				}
				t.Distinct(b, int(v))
			}
		})
		churn(t)
		for i, x := range kept {
			if g := x.now(); g != x.was {
				t.Fatalf("%s of a decoded %s changed after the packet was dropped: %q -> %q", x.name, names[i], head(x.was, 200), head(g, 200))
			}
		}
		t.EvalN(len(kept))
		t.CountN("parts read before their packet was dropped", len(kept))
	})
}

// c15apart: a clone without its original and an original without its clones
func c15apart(c *C) {
	c.Each("apart", c.Scale(160, 4000), func(t *T) {
		var kept []*mqttp.Publish
		var was, names []string
		look := func(m *mqttp.Publish) string {
			p, err := adapt.Extract(m)
			if err != nil {
				t.Fatalf("%v", err)
			}
			e, _, x := m.Expired()
			return canon(p) + fmt.Sprint(e, x)
		}
		apart(func() {
			for k := 0; k < 40; k++ {
				v := byte(3 + t.R.N(3))
				p := shortPkt(t.R, v, ref.PUBLISH)
				if p.Topic == "" {
					p.Topic = "t"
				}
				var m *mqttp.Publish
				name := "decoded"
				if t.R.P(2, 3) {
					x, _, err := t.decode(v, p.Encode(ref.Full))
					if err != nil {
						t.Fatalf("conforming PUBLISH refused: %v", err)
					}
					m = x.(*mqttp.Publish)
				} else {
					m, name = t.build(p).(*mqttp.Publish), "built"
				}
				if t.R.Bool() {
					m.SetExpireAt(time.Now().Add(time.Hour))
				}
				x, err := m.Clone(pv(byte(3 + t.R.N(3))))
				if err != nil {
					t.Fatalf("Clone: %v", err)
				}
				name = "clone of a " + name + " PUBLISH whose original"
				if t.R.P(1, 4) {
					x, name = m, "PUBLISH whose clone"
				} else if t.R.P(1, 4) {
					if x, err = x.Clone(5); err != nil {
						t.Fatalf("Clone: %v", err)
					}
				}
				kept, was, names = append(kept, x), append(was, look(x)), append(names, name)
				t.Distinct(p.Encode(ref.Full), int(v))
			}
		})
		churn(t)
		for i, x := range kept {
			if g := look(x); g != was[i] {
				t.Fatalf("a %s was dropped changed: %s -> %s", names[i], head(was[i], 300), head(g, 300))
			}
		}
		t.EvalN(len(kept))
		t.CountN("originals and clones watched alone", len(kept))
	})
}

// pairs of texts of the same length which agree in some summary of them
var alike = [][3]string{
	{"Adler-32", "47d7fa23", "65de38c0"}, {"Adler-32", "4880cf3f", "4578ac6d"},
	{"CRC-32", "a4a2ad28", "82760f6a"}, {"CRC-32", "a7afc960", "3b09a21c"},
	{"CRC-32C", "7a61203e", "5c9bdb70"}, {"CRC-32C", "d428f257", "1dd64c2a"},
	{"FNV-1", "a6bef36d", "a0d3016b"}, {"FNV-1", "becf8e4b", "a92697bc"},
	{"FNV-1a", "1cbac1c5", "2ca29260"}, {"FNV-1a", "67c81121", "fe3d7330"},
	{"FNV-1a 64 folded", "9b79dee7", "35267e65"}, {"FNV-1a 64 high", "13ea8808", "0f99a0dd"}, {"FNV-1a 64 low", "5c6efd42", "4da4bf6b"},
	{"one-at-a-time", "12060435", "b81c0015"}, {"one-at-a-time", "a0dfe105", "00ba4ac8"},
	{"x31", "51c1eb22", "f80aa66e"}, {"x31", "Aa", "BB"}, {"x33", "e8c07e1e", "c911efc6"}, {"x33 xor", "80ced455", "0328056d"},
	{"x131", "4deb8c56", "14a9a308"}, {"x65599", "6f0a81fc", "b3a92dea"},
	{"sum and xor", "abcd", "dcba"}, {"sum", "6c576fac", "a5fae199"}, {"xor", "6c576fac", "cba276b4"},
	{"ends", "prefix/1/suffix", "prefix/2/suffix"}, {"ends", strings.Repeat("a", 300) + "1" + strings.Repeat("b", 300), strings.Repeat("a", 300) + "2" + strings.Repeat("b", 300)},
	{"start", strings.Repeat("s", 64) + "1", strings.Repeat("s", 64) + "2"}, {"end", "1" + strings.Repeat("s", 64), "2" + strings.Repeat("s", 64)},
	{"letters", "topic/a", "TOPIC/A"}, {"one bit", "a", "c"}, {"length", "x", "y"},
}

// c05alike: nothing is recognised by a summary of it
func c05alike(c *C) {
	type place struct {
		name string
		v    byte
		mk   func(s string) *ref.Pkt
	}
	var places []place
	add := func(v byte, name string, mk func(s string) *ref.Pkt) {
		places = append(places, place{name, v, func(s string) *ref.Pkt { p := mk(s); p.V = v; return p }})
	}
	for v := byte(3); v <= 5; v++ {
		add(v, "topic", func(s string) *ref.Pkt { return &ref.Pkt{T: ref.PUBLISH, Topic: s, Payload: "x"} })
		add(v, "payload", func(s string) *ref.Pkt { return &ref.Pkt{T: ref.PUBLISH, Topic: "t", Payload: s} })
		add(v, "client id", func(s string) *ref.Pkt { return &ref.Pkt{T: ref.CONNECT, Clean: true, ClientID: s} })
		add(v, "user name", func(s string) *ref.Pkt {
			return &ref.Pkt{T: ref.CONNECT, Clean: true, ClientID: "c", HasUser: true, User: s}
		})
		add(v, "password", func(s string) *ref.Pkt {
			return &ref.Pkt{T: ref.CONNECT, Clean: true, ClientID: "c", HasUser: true, User: "u", HasPass: true, Pass: s}
		})
		add(v, "will topic", func(s string) *ref.Pkt {
			return &ref.Pkt{T: ref.CONNECT, Clean: true, ClientID: "c", Will: &ref.Will{Topic: s, Payload: "x"}}
		})
		add(v, "will payload", func(s string) *ref.Pkt {
			return &ref.Pkt{T: ref.CONNECT, Clean: true, ClientID: "c", Will: &ref.Will{Topic: "w", Payload: s}}
		})
		for _, ty := range []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE} {
			ty := ty
			for _, f := range []string{"%s", "%s/#", "$share/%s/a", "$share/g/%s", "$%s/a", "$share/g/+/%s"} {
				f := f
				add(v, "filter "+f, func(s string) *ref.Pkt {
					if strings.HasPrefix(f, "$share/%") {
						s = strings.ReplaceAll(s, "/", "-")
					}
					return &ref.Pkt{T: ty, HasID: true, ID: 1, Subs: []ref.Sub{{F: strings.ReplaceAll(f, "%s", s)}}}
				})
			}
		}
	}
	for _, id := range ref.PropIDs {
		pd := ref.PropTable[id]
		if pd.Kind != ref.KString && pd.Kind != ref.KBinary && pd.Kind != ref.KPair {
			continue
		}
		for _, ty := range pd.Types {
			if ty == ref.WILL {
				continue
			}
			id, ty := id, ty
			with := func(p ref.Prop) *ref.Pkt {
				q := conformingFor(gen.New(21, uint64(ty)), 5, ty)
				q.Props = []ref.Prop{p}
				return q
			}
			add(5, fmt.Sprintf("property %#x", id), func(s string) *ref.Pkt { return with(ref.Prop{ID: id, S: s}) })
			if pd.Kind == ref.KPair {
				add(5, fmt.Sprintf("name of property %#x", id), func(s string) *ref.Pkt { return with(ref.Prop{ID: id, K: s}) })
			}
		}
	}
	c.Each("alike", len(places)*len(alike), func(t *T) {
		pl, pair := places[t.I%len(places)], alike[t.I/len(places)]
		if pl.name == "name of property 0x26" || t.R.Bool() {
			pair[1], pair[2] = pair[2], pair[1]
		}
		ps := [2]*ref.Pkt{pl.mk(pair[1]), pl.mk(pair[2])}
		for k := 0; k < 4; k++ {
			p := ps[k&1]
			b := p.Encode(ref.Full)
			m, _, err := t.decode(p.V, b)
			if err != nil {
				t.Fatalf("%s %q after %q: %v", pl.name, pair[1+k&1], pair[2-k&1], err)
			}
			t.same(pl.name+" (same "+pair[0]+" as the one before)", p, t.extract(m))
			t.refAccept(p, t.encode(m))
			t.Distinct(b, int(p.V))
		}
		t.Count("pairs alike in " + pair[0])
	})
}
