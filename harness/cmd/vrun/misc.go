package main

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"runtime"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"github.com/VolantMQ/vlapi/vltypes"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C23"] = &Check{Run: c23, Rule: "PUBLISH and CONNECT packets decoded from the middle of a larger buffer, which is then overwritten or reused for other packets while the decoded objects are watched, and the objects changed while the buffer is watched; non-trivial = distinct packets", Note: "client id, user name and password of CONNECT may refer to the buffer and are not looked at afterwards"}
	checks["C24"] = &Check{Run: c24, Workers: 1, Rule: "heap bytes allocated by single Decode calls on inputs whose lengths and counts claim far more than is there, and on dense inputs of up to 1 MiB; non-trivial = distinct inputs", Note: "bound: 8 KiB plus 256 times the input length, least of several runs; the Go runtime's TotalAlloc counter is trusted"}
	checks["C29"] = &Check{Run: c29, Rule: "random configuration maps of both forms with values of many types, one or more bad keys, and values of other types; non-trivial = distinct maps", Note: "a nil map of a supported type and named map types are left open"}
	checks["C34"] = &Check{Run: c34, Rule: "exhaustive: all 256 packet types, QoS values, protocol versions, codec errors, property errors and reason codes; random packets for the texts of objects; non-trivial = distinct values", Note: "descriptions are free as long as they cannot be confused; an error value may share the fallback text"}
	checks["C30"] = &Check{Run: c30, Rule: "all status, access and error values from -70000 to 70000 and the extremes of int", Note: "the texts themselves are free as long as they cannot be confused"}
}

type snap struct {
	m    mqttp.IFace
	want string
}

func c23(c *C) {
	c.bigCopies(1 << 26)
	c23parts(c)
	view := func(t *T, m mqttp.IFace) string {
		switch x := m.(type) {
		case *mqttp.Publish:
			p, err := adapt.Extract(x)
			if err != nil {
				t.Fatalf("%v", err)
			}
			return canon(p)
		case *mqttp.Connect:
			w := x.Will()
			if w == nil {
				return "no will"
			}
			p, err := adapt.Extract(w)
			if err != nil {
				t.Fatalf("will: %v", err)
			}
			return canon(p)
		}
		return ""
	}
	full := func(t *T, ty byte, v byte) *ref.Pkt {
		p := t.R.Pkt(v, ty)
		if len(p.Payload) > 30000 && !t.R.P(1, 50) {
			p.Payload = p.Payload[:30000]
		}
		if ty == ref.CONNECT && p.Will == nil {
			p.Will = &ref.Will{Topic: t.R.TopicName(), Payload: string(t.R.Bytes(1 + t.R.N(100))), QoS: byte(t.R.N(3))}
			if v == 5 {
				p.Will.Props = t.R.Props(ref.WILL)
			}
		}
		if v == 5 && t.R.Bool() { // every kind of property at once
			add := func(ps []ref.Prop, as byte) []ref.Prop {
				for _, id := range ref.PropIDs {
					if ref.Allowed(id, as) && !hasProp(ps, id) {
						ps = append(ps, t.R.PropFor(id))
						if ref.MayRepeat(id, as) {
							ps = append(ps, t.R.PropFor(id), t.R.PropFor(id))
						}
					}
				}
				return ps
			}
			if ty == ref.PUBLISH {
				p.Props = add(p.Props, ref.PUBLISH)
			} else {
				p.Will.Props = add(p.Will.Props, ref.WILL)
			}
		}
		return p
	}
	c.Each("overwrite", c.Scale(40000, 1000000), func(t *T) {
		ty := []byte{ref.PUBLISH, ref.CONNECT}[t.I%2]
		v := byte(3 + t.R.N(3))
		if t.R.Bool() {
			v = 5
		}
		var big []byte
		var held []snap
		off := t.R.N(20)
		n := 1 + t.R.N(3)
		size := 0
		for k := 0; k < n; k++ { // the same buffer is used for one packet after another
			p := full(t, ty, v)
			b := p.Encode(ref.Full)
			if off+len(b)+16 > len(big) {
				nb := make([]byte, off+len(b)+64)
				copy(nb, big)
				big = nb
				// objects decoded from the older buffer are not watched any further
			}
			copy(big[off:], b)
			in := big[off : off+len(b)] // with capacity beyond the packet
			was := string(big)
			m, _, err := t.decode(v, in)
			if err != nil {
				t.Fatalf("conforming %s refused: %v", ref.TypeName[ty], err)
			}
			if string(big) != was {
				t.Fatalf("decoding %s wrote to the buffer", ref.TypeName[ty])
			}
			held = append(held, snap{m: m, want: view(t, m)})
			if ty == ref.PUBLISH {
				t.same("before the buffer is reused", p, t.extract(m))
			} else {
				w := m.(*mqttp.Connect).Will()
				if w == nil || w.Topic() != p.Will.Topic || string(w.Payload()) != p.Will.Payload {
					t.Fatalf("will not decoded")
				}
			}
			size += len(b)
			for i := range held {
				if g := view(t, held[i].m); g != held[i].want {
					t.Fatalf("%s v%d decoded earlier changed when its buffer was used again: %s -> %s", ref.TypeName[ty], v, head(held[i].want, 400), head(g, 400))
				}
			}
			t.Distinct(b, int(v))
		}
		for _, fill := range []byte{0x00, 0xff, 'Z', byte(t.R.N(256))} {
			for i := range big {
				big[i] = fill
			}
			for i := range held {
				if g := view(t, held[i].m); g != held[i].want {
					t.Fatalf("%s v%d changed when its buffer was overwritten with %#x: %s -> %s", ref.TypeName[ty], v, fill, head(held[i].want, 400), head(g, 400))
				}
			}
			t.EvalN(len(held))
		}
		for i := range big {
			big[i] = t.R.Byte()
		}
		for i := range held {
			if g := view(t, held[i].m); g != held[i].want {
				t.Fatalf("%s v%d changed with the buffer: %s -> %s", ref.TypeName[ty], v, head(held[i].want, 400), head(g, 400))
			}
		}
		// the message is forwarded from what was kept
		if p, ok := held[0].m.(*mqttp.Publish); ok && p.Topic() != "" {
			q, err := p.Clone(pv(v))
			if err != nil {
				t.Fatalf("Clone: %v", err)
			}
			if q.Topic() != p.Topic() || !bytes.Equal(q.Payload(), p.Payload()) {
				t.Fatalf("clone after the buffer is gone")
			}
		}
		t.CountN("decoded objects watched while the buffer changed", len(held))
		t.CountN("bytes overwritten", len(big)*5)
		t.Sample("%s v%d, %d packets through one buffer", ref.TypeName[ty], v, n)
	})
	// one field, list or number at a time through every small length and every boundary
	var swept []func(*gen.R) *ref.Pkt
	for _, l := range [][]func(*gen.R) *ref.Pkt{gen.Fields, gen.Counts, gen.Numbers} {
		for _, f := range l {
			if p := f(gen.New(1)); p.T == ref.PUBLISH || p.T == ref.CONNECT {
				swept = append(swept, f)
			}
		}
	}
	c.Each("sweep", c.Scale(len(swept), len(swept)), func(t *T) {
		p := swept[t.I](t.R)
		if p.T == ref.CONNECT && p.Will == nil {
			return
		}
		b := p.Encode(ref.Full)
		off := []int{0, 0, 1, 7, 8, 64}[t.R.N(6)]
		big := make([]byte, off+len(b)+[]int{0, 0, 1, 100}[t.R.N(4)])
		copy(big[off:], b)
		was := string(big)
		m, _, err := t.decode(p.V, big[off:off+len(b)])
		if err != nil {
			t.Fatalf("conforming %s refused: %v", ref.TypeName[p.T], err)
		}
		want := view(t, m)
		for i := range big {
			big[i] ^= 0xa5
		}
		if g := view(t, m); g != want {
			t.Fatalf("%s v%d of %d bytes changed when its buffer was overwritten: %s -> %s", ref.TypeName[p.T], p.V, len(b), head(want, 400), head(g, 400))
		}
		for i := range big {
			big[i] ^= 0xa5
		}
		pub, ok := m.(*mqttp.Publish)
		if !ok {
			pub = m.(*mqttp.Connect).Will()
		}
		scribble := func(x []byte) {
			for i := range x {
				x[i] ^= 0x5a
			}
			_ = append(x, 0xee, 0xee, 0xee)
		}
		scribble(pub.Payload())
		if pub.Version() == mqttp.ProtocolV50 {
			_ = pub.PropertyForEach(func(id mqttp.PropertyID, x mqttp.PropertyToType) {
				if y, e := x.AsBinary(); e == nil {
					scribble(y)
				}
			})
		}
		if string(big) != was {
			t.Fatalf("changing what %s v%d of %d bytes returned wrote into the receive buffer", ref.TypeName[p.T], p.V, len(b))
		}
		t.EvalN(2)
		t.Count("sweep over lengths, counts and numbers")
		t.Distinct(b, int(p.V))
	})
	c.Each("write", c.Scale(30000, 600000), func(t *T) {
		ty := []byte{ref.PUBLISH, ref.CONNECT}[t.I%2]
		v := byte(3 + t.R.N(3))
		p := full(t, ty, v)
		b := p.Encode(ref.Full)
		off := t.R.N(10)
		big := t.R.Bytes(off + len(b) + 40)
		copy(big[off:], b)
		was := string(big)
		m, _, err := t.decode(v, big[off:off+len(b)])
		if err != nil {
			t.Fatalf("conforming %s refused: %v", ref.TypeName[ty], err)
		}
		intact := func(what string) {
			if string(big) != was {
				t.Fatalf("%s of a decoded %s v%d wrote into the receive buffer", what, ref.TypeName[ty], v)
			}
			t.Eval()
			t.Count("changes with the buffer watched")
		}
		pub, ok := m.(*mqttp.Publish)
		if !ok {
			pub = m.(*mqttp.Connect).Will()
		}
		scribble := func(x []byte) {
			for i := range x {
				x[i] ^= 0x5a
			}
			_ = append(x, 0xee, 0xee, 0xee)
		}
		scribble(pub.Payload())
		intact("changing the payload")
		if pub.Version() == mqttp.ProtocolV50 {
			_ = pub.PropertyForEach(func(id mqttp.PropertyID, x mqttp.PropertyToType) {
				if y, e := x.AsBinary(); e == nil {
					scribble(y)
				}
			})
			intact("changing property values")
		}
		pub.SetPacketID(mqttp.IDType(t.R.U16()))
		intact("SetPacketID")
		mod := &pubModel{p: &ref.Pkt{V: v, T: ref.PUBLISH}}
		for k := 0; k < 8; k++ {
			_ = pubStep(t.R, pub, mod)
			intact(mod.hist)
		}
		if n, err := m.Size(); err == nil {
			_, _ = m.Encode(make([]byte, n))
			intact("encoding")
		}
		t.Distinct(b, "w")
	})
}

func c24(c *C) {
	const base, factor = 8 << 10, 256
	var worst float64
	var worstConst uint64
	var maxLen int
	measure := func(t *T, v byte, b []byte) {
		t.Input(b)
		best := uint64(math.MaxUint64)
		bound := uint64(base + factor*len(b))
		for rep := 0; rep < 6; rep++ {
			var a, z runtime.MemStats
			runtime.ReadMemStats(&a)
			m, _, err := mqttp.Decode(pv(v), b)
			runtime.ReadMemStats(&z)
			runtime.KeepAlive(m)
			_ = err
			if d := z.TotalAlloc - a.TotalAlloc; d < best {
				best = d
			}
			if best <= bound/4 || rep > 0 && best > 16*bound {
				break
			}
		}
		t.Eval()
		t.Count("decodes measured")
		if best > bound {
			t.Fatalf("Decode(v%d) of %d bytes allocated %d bytes (bound %d)", v, len(b), best, bound)
		}
		if r := float64(best) / float64(len(b)+1); len(b) > 1000 && r > worst {
			worst = r
		}
		if len(b) < 64 && best > worstConst {
			worstConst = best
		}
		if len(b) > maxLen {
			maxLen = len(b)
		}
	}
	// warm up what the library sets up once
	c.Each("warm up", 200, func(t *T) {
		v, b := hostile(t.R)
		_, _, _ = mqttp.Decode(pv(v), b)
	})
	lens := [][]byte{{0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0x7f}, {0x80, 0x80, 0x40}, {0xff, 0x7f}, {0x7f}, {0xff, 0xff, 0xff, 0xff, 0x7f}}
	// headers that promise a lot and deliver nothing
	c.Each("claims", 256*3, func(t *T) {
		v, first := byte(3+t.I/256), byte(t.I)
		for _, l := range lens {
			measure(t, v, append([]byte{first}, l...))
			measure(t, v, append(append([]byte{first}, l...), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff))
			t.Distinct(int(v), int(first), l)
		}
	})
	c.Exhausted("all first bytes x 3 versions x 6 huge remaining lengths")
	// every position of a conforming packet overwritten with a huge length
	c.Each("inner claims", c.Scale(250, 6000), func(t *T) {
		p := t.R.Any()
		if len(p.Payload) > 300 {
			p.Payload = p.Payload[:300]
		}
		if len(p.Subs) > 5 {
			p.Subs = p.Subs[:5]
		}
		b := p.Encode(ref.Full)
		if len(b) > 500 {
			b = append([]byte(nil), b[:500]...)
		}
		for at := 2; at < len(b); at++ {
			for _, l := range [][]byte{{0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f}, {0x7f, 0xff}} {
				x := append([]byte(nil), b...)
				copy(x[at:], l)
				if t.R.Bool() {
					x = gen.Refit(x)
				}
				measure(t, p.V, x)
			}
			if at > 60 && t.R.P(3, 4) {
				at += t.R.N(8)
			}
		}
		t.Distinct(b)
		t.tag(p)
	})
	c.Each("hostile", c.Scale(4000, 150000), func(t *T) {
		v, b := hostile(t.R)
		measure(t, v, b)
		t.Distinct(b, int(v))
	})
	// as much structure as fits into the bytes
	sizes := []int{100, 1000, 10000, 65536, 262144, 1 << 20}
	kinds := []string{"unsubscribe", "subscribe", "user properties", "subscription ids", "suback", "unsuback", "payload", "shared filters", "will user properties", "connack user properties", "correlation", "deep levels"}
	over := map[string]bool{}
	c.Each("dense", len(sizes)*len(kinds)*c.Scale(1, 3), func(t *T) {
		// the small ones first: what grows faster than it may is found before
		// it can take for ever
		n := sizes[t.I/len(kinds)%len(sizes)]
		kind := kinds[t.I%len(kinds)]
		if over[kind] {
			return
		}
		over[kind] = true // until it went well
		p := &ref.Pkt{V: 5, HasID: true, ID: 7}
		fill := func(per int, f func()) {
			for k := n / per; k > 0; k-- {
				f()
			}
		}
		up := func() []ref.Prop {
			var l []ref.Prop
			fill(5, func() { l = append(l, ref.Prop{ID: 0x26}) })
			return l
		}
		switch kind {
		case "unsubscribe":
			p.T = ref.UNSUBSCRIBE
			fill(3, func() { p.Subs = append(p.Subs, ref.Sub{F: "a"}) })
		case "subscribe":
			p.T = ref.SUBSCRIBE
			fill(4, func() { p.Subs = append(p.Subs, ref.Sub{F: "a", Ops: 1}) })
		case "shared filters":
			p.T = ref.SUBSCRIBE
			fill(13, func() { p.Subs = append(p.Subs, ref.Sub{F: "$share/g/a", Ops: 1}) })
		case "user properties":
			p.T, p.Topic, p.HasID, p.Props = ref.PUBLISH, "t", false, up()
		case "connack user properties":
			p.T, p.HasID, p.Props = ref.CONNACK, false, up()
		case "will user properties":
			p.T, p.HasID, p.ClientID = ref.CONNECT, false, "c"
			p.Will = &ref.Will{Topic: "t", Payload: "p", Props: up()}
		case "subscription ids":
			p.T, p.Topic, p.HasID = ref.PUBLISH, "t", false
			fill(2, func() { p.Props = append(p.Props, ref.Prop{ID: 0x0b, U: 1}) })
		case "suback", "unsuback":
			p.T = ref.SUBACK
			if kind == "unsuback" {
				p.T = ref.UNSUBACK
			}
			p.Codes = make([]byte, n)
		case "payload":
			p.T, p.Topic, p.HasID, p.Payload = ref.PUBLISH, "t", false, string(make([]byte, n))
		case "correlation":
			p.T, p.Topic, p.HasID = ref.PUBLISH, "t", false
			if n > 65535 {
				n = 65535
			}
			p.Props = []ref.Prop{{ID: 9, S: string(make([]byte, n))}}
		case "deep levels":
			if n > 65535 {
				n = 65535
			}
			p.T = ref.SUBSCRIBE
			p.Subs = []ref.Sub{{F: string(bytes.Repeat([]byte("/"), n)), Ops: 1}}
		}
		b := p.Encode(ref.Full)
		measure(t, 5, b)
		// and cut or broken near the end, after most of it was read
		x := append([]byte(nil), b...)
		x[len(x)-1] = 0xff
		measure(t, 5, x)
		x = gen.Refit(append(append([]byte(nil), b...), 0xff, 0xff))
		measure(t, 5, x)
		t.Distinct(kind, n)
		t.Count("dense: " + kind)
		t.Sample("%s, %d bytes", kind, len(b))
		over[kind] = false
	})
	c.cmu.Lock()
	c.counts["worst: bytes allocated per 100 input bytes (inputs above 1000 bytes)"] = int64(worst * 100)
	c.counts["worst: bytes allocated for an input below 64 bytes"] = int64(worstConst)
	c.counts["longest input"] = int64(maxLen)
	c.cmu.Unlock()
}

func c29(c *C) {
	type named string
	var value func(r *gen.R, d int) interface{}
	value = func(r *gen.R, d int) interface{} {
		switch r.N(14) {
		case 0:
			return nil
		case 1:
			return r.N(1000)
		case 2:
			return r.Text(r.N(10))
		case 3:
			return 1.5
		case 4:
			return true
		case 5:
			return []interface{}{1, "a", nil}
		case 6:
			return []byte{1, 2}
		case 7:
			x := r.N(10)
			return &x
		case 8:
			return struct{ A, B int }{1, r.N(5)}
		case 9:
			return fmt.Errorf("e%d", r.N(9))
		case 10:
			if d > 0 {
				m := map[string]interface{}{}
				for k := r.N(4); k > 0; k-- {
					m[r.Text(r.N(5))] = value(r, d-1)
				}
				return m
			}
		case 11, 12:
			if d > 0 {
				m := map[interface{}]interface{}{}
				for k := r.N(4); k > 0; k-- {
					m[r.Text(r.N(5))] = value(r, d-1)
					if r.P(1, 4) {
						m[r.N(5)] = value(r, d-1)
					}
				}
				return m
			}
		case 13:
			return map[string]string{"a": "b"}
		}
		return int64(r.N(7))
	}
	same := func(a, b interface{}) bool {
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		if va.IsValid() != vb.IsValid() {
			return false
		}
		if va.IsValid() && va.Type() != vb.Type() {
			return false
		}
		if va.IsValid() && va.Kind() == reflect.Ptr && va.Pointer() != vb.Pointer() {
			return false
		}
		return reflect.DeepEqual(a, b)
	}
	refused := func(t *T, what string, in interface{}) {
		m, err := vltypes.NormalizeConfig(in)
		if err != vltypes.ErrInvalidConfigType || m != nil {
			t.Fatalf("NormalizeConfig(%s) = %v, %v", what, m, err)
		}
		t.Eval()
		t.Count("refused")
	}
	// many keys, long keys, and one bad key among many good ones
	c.EachN("large maps", 12, 2, func(t *T) {
		n := []int{1000, 65535, 65536, 65537, 100000, 200000}[t.I%6]
		if bits.UintSize == 32 {
			n = min(n, 70000)
		}
		in1, in2 := map[string]interface{}{}, map[interface{}]interface{}{}
		for k := 0; k < n; k++ {
			s := fmt.Sprint("k", k)
			if k%1000 == 999 {
				s += strings.Repeat("long", 1000*(k%7000)/7000)
			}
			if k%7500 == 700 {
				s += strings.Repeat("x", []int{5000, 16384, 65535, 65536, 1 << 20}[k/7500%5])
			}
			in1[s], in2[s] = k, k
		}
		for form, in := range []interface{}{in1, in2} {
			m, err := vltypes.NormalizeConfig(in)
			if err != nil || len(m) != len(in1) {
				t.Fatalf("form %d of %d keys: %d keys, %v", form, n, len(m), err)
			}
			for k, v := range in1 {
				if g, ok := m[k]; !ok || g != v {
					t.Fatalf("form %d of %d keys: key %s: %v became %v (%v)", form, n, head(k, 30), v, g, ok)
				}
			}
			if len(in2) != n || len(in1) != n {
				t.Fatalf("input changed")
			}
			t.Eval()
		}
		in2[[]interface{}{7, 1.5, true, struct{}{}, nil, [1]int{1}}[t.I%6]] = "x"
		if m, err := vltypes.NormalizeConfig(in2); err != vltypes.ErrInvalidConfigType || m != nil {
			t.Fatalf("one bad key among %d: %d keys, %v", n, len(m), err)
		}
		t.Eval()
		t.Count("large maps")
		t.Distinct("large", t.I)
	})
	c.Each("maps", c.Scale(120000, 3000000), func(t *T) {
		n := t.R.N(12)
		if t.R.P(1, 100) {
			n = 300
		}
		keys := []string{}
		want := map[string]interface{}{}
		for k := 0; k < n; k++ {
			s := t.R.Text(t.R.N(8))
			switch t.R.N(12) {
			case 0:
				s = ""
			case 1:
				s = fmt.Sprint(k)
			case 2:
				s = "Key" // differs in case, space and form only
			case 3:
				s = "key"
			case 4:
				s = " key"
			case 5:
				s = "a.b"
			case 6:
				s = "\xff"
			}
			if _, ok := want[s]; !ok {
				keys = append(keys, s)
			}
			want[s] = value(t.R, 3)
		}
		// the string-keyed form
		in1 := map[string]interface{}{}
		in2 := map[interface{}]interface{}{}
		for _, k := range keys {
			in1[k] = want[k]
			in2[k] = want[k]
		}
		for form, in := range []interface{}{in1, in2} {
			m, err := vltypes.NormalizeConfig(in)
			if err != nil || m == nil {
				t.Fatalf("form %d of %d keys: %v, %v", form, n, m, err)
			}
			if len(m) != len(want) {
				t.Fatalf("form %d: %d keys from %d", form, len(m), len(want))
			}
			for k, v := range want {
				g, ok := m[k]
				if !ok || !same(g, v) {
					t.Fatalf("form %d: key %q: %#v became %#v (%v)", form, k, v, g, ok)
				}
			}
			// the input still is what it was
			if len(in1) != len(want) || len(in2) != len(want) {
				t.Fatalf("form %d: the input was modified", form)
			}
			for k, v := range want {
				if g, ok := in1[k]; !ok || !same(g, v) {
					t.Fatalf("form %d: the input was modified at %q", form, k)
				}
				if g, ok := in2[k]; !ok || !same(g, v) {
					t.Fatalf("form %d: the input was modified at %q", form, k)
				}
			}
			t.Eval()
			t.Count("maps normalised")
		}
		// idempotent
		a, _ := vltypes.NormalizeConfig(in2)
		b, err := vltypes.NormalizeConfig(a)
		if err != nil || len(b) != len(a) {
			t.Fatalf("normalising a normalised map: %v, %v", b, err)
		}
		// bad keys, wherever iteration meets them
		bad := []interface{}{1, 1.5, true, nil, named("key"), [2]int{1, 2}, struct{ A string }{"x"}, byte('k'), 'k', int64(0), &n, fmt.Errorf("x")}
		for j := 1 + t.R.N(2); j > 0; j-- {
			in2[bad[t.R.N(len(bad))]] = value(t.R, 1)
		}
		size := len(in2)
		for rep := 0; rep < 4; rep++ {
			refused(t, "map with a key that is no string", in2)
		}
		if len(in2) != size {
			t.Fatalf("refusing modified the input")
		}
		t.Distinct(fmt.Sprint(len(want), keys))
		if t.I < 4 {
			t.Sample("%d keys: %.60q", n, keys)
		}
	})
	c.Each("other types", 1, func(t *T) {
		m1 := map[string]interface{}{"a": 1}
		m2 := map[interface{}]interface{}{"a": 1}
		for _, x := range []interface{}{nil, "", "a: b", 1, 1.5, true, []interface{}{m1}, []string{"a"}, []byte("{}"), map[string]string{"a": "b"}, map[string]int{"a": 1}, map[int]interface{}{1: 1},
			map[interface{}]string{"a": "b"}, map[interface{}]int{"a": 1}, &m1, &m2, struct{ A int }{1}, fmt.Errorf("x"), func() {}, make(chan int), map[named]interface{}{"a": 1}, [1]interface{}{m1}} {
			refused(t, fmt.Sprintf("%T", x), x)
			t.Distinct(fmt.Sprintf("%T", x))
		}
	})
}

func c30(c *C) {
	var vals []int
	for i := -70000; i <= 70000; i++ {
		vals = append(vals, i)
	}
	for s := uint(0); s < bits.UintSize-1; s++ {
		x := 1 << s
		vals = append(vals, x, -x, x-1, -x-1, x+1, -x+1)
	}
	vals = append(vals, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, 1<<16, 1<<8, 1<<8+1)
	for _, x := range []int64{1 << 32, 1<<32 + 1} {
		if int64(int(x)) == x {
			vals = append(vals, int(x))
		}
	}
	c.EachN("status", 1, 1, func(t *T) {
		granted := vlauth.StatusAllow.Error()
		if vlauth.StatusAllow.Desc() != "allow" {
			t.Fatalf("the allow status is described as %q", vlauth.StatusAllow.Desc())
		}
		if vlauth.StatusAllow == vlauth.StatusDeny {
			t.Fatalf("allow and deny are the same status")
		}
		for _, i := range vals {
			s := vlauth.Status(i)
			if s == vlauth.StatusAllow {
				continue
			}
			if s.Desc() != "deny" {
				t.Failf("status %d is described as %q", i, s.Desc())
			}
			if s.Error() == granted || s.Error() == "" {
				t.Failf("status %d has the text %q", i, s.Error())
			}
			t.Eval()
			t.Distinct("status", i)
			t.Count("status values")
		}
		t.Sample("allow %q, deny %q, other %q", granted, vlauth.StatusDeny.Error(), vlauth.Status(77).Error())
	})
	c.EachN("access", 1, 1, func(t *T) {
		r, w := vlauth.AccessRead.Type(), vlauth.AccessWrite.Type()
		if r != "read" || w != "write" {
			t.Fatalf("read is %q, write is %q", r, w)
		}
		for _, i := range vals {
			a := vlauth.AccessType(i)
			if a == vlauth.AccessRead || a == vlauth.AccessWrite {
				continue
			}
			if a.Type() != "" {
				t.Failf("access type %d is called %q", i, a.Type())
			}
			t.Eval()
			t.Distinct("access", i)
			t.Count("access values")
		}
	})
	errs := func(t *T, pkg string, text func(int) string, defined []int) {
		def := map[int]bool{}
		texts := map[string]int{}
		fallback := text(math.MinInt32)
		for _, d := range defined {
			if def[d] {
				t.Failf("%s: two defined errors have the value %d", pkg, d)
			}
			def[d] = true
			s := text(d)
			if s == fallback || s == "" {
				t.Failf("%s: defined error %d has the text %q", pkg, d, s)
			}
			if o, ok := texts[s]; ok {
				t.Failf("%s: errors %d and %d have the same text %q", pkg, o, d, s)
			}
			texts[s] = d
			t.Eval()
		}
		for _, i := range vals {
			if !def[i] {
				if o, ok := texts[text(i)]; ok {
					t.Failf("%s: undefined error %d has the text of error %d", pkg, i, o)
				}
				if text(i) != fallback {
					t.Failf("%s: undefined error %d has the text %q, others %q", pkg, i, text(i), fallback)
				}
				t.Eval()
				t.Count("undefined error values")
			}
			t.Distinct(pkg, i)
		}
		t.CountN("defined errors", len(defined))
	}
	c.EachN("auth errors", 1, 1, func(t *T) {
		errs(t, "vlauth", func(i int) string { return vlauth.Error(i).Error() }, []int{int(vlauth.ErrInvalidArgs), int(vlauth.ErrUnknownProvider), int(vlauth.ErrAlreadyExists), int(vlauth.ErrNotFound), int(vlauth.ErrNotOpen), int(vlauth.ErrInternal)})
	})
	c.EachN("persistence errors", 1, 1, func(t *T) {
		errs(t, "vlpersistence", func(i int) string { return vlpersistence.Errors(i).Error() }, []int{int(vlpersistence.ErrInvalidArgs), int(vlpersistence.ErrUnknownProvider), int(vlpersistence.ErrInvalidConfig), int(vlpersistence.ErrAlreadyExists),
			int(vlpersistence.ErrNotInitialized), int(vlpersistence.ErrNotFound), int(vlpersistence.ErrNotOpen), int(vlpersistence.ErrBrokenEntry)})
	})
	c.Exhausted("status, access and error values from -70000 to 70000")
}

// c34: the names and validity tables of the protocol
func c34(c *C) {
	type named interface {
		Name() string
		Desc() string
		Flags() byte
	}
	c.EachN("types", 1, 1, func(t *T) {
		names, descs := map[string]int{}, map[string]int{}
		unName, unDesc := mqttp.Type(0xff).Name(), mqttp.Type(0xff).Desc()
		for x := 0; x < 256; x++ {
			ty := mqttp.Type(x)
			n, d := ty.Name(), ty.Desc()
			fl := byte(0)
			if x < 16 {
				fl = ref.Flags(byte(x))
			}
			if x == 0 || x > 15 || x == ref.PUBLISH {
				fl = 0
			}
			if ty.DefaultFlags() != fl {
				t.Failf("packet type %d: default flags %d", x, ty.DefaultFlags())
			}
			t.Eval()
			t.Distinct("type", x)
			if x > 15 {
				if n != unName || d != unDesc {
					t.Failf("packet type %d is called %q (%q), others beyond the protocol %q (%q)", x, n, d, unName, unDesc)
				}
				continue
			}
			want := "RESERVED"
			if x > 0 {
				want = ref.TypeName[byte(x)]
			}
			if n != want {
				t.Failf("packet type %d is called %q", x, n)
			}
			if o, ok := descs[d]; ok || d == "" || d == unDesc {
				t.Failf("packet type %d is described as %q, like %d", x, d, o)
			}
			if n == unName {
				t.Failf("packet type %d is called like an unknown one", x)
			}
			names[n], descs[d] = x, x
		}
		t.Sample("unknown types are %q", unName)
	})
	c.EachN("qos", 1, 1, func(t *T) {
		seen := map[string]int{}
		for x := 0; x < 256; x++ {
			q := mqttp.QosType(x)
			if q.IsValid() != (x <= 2) {
				t.Failf("QoS %d: IsValid %v", x, q.IsValid())
			}
			if q.IsValidFull() != (x <= 2 || x == 0x80) {
				t.Failf("QoS %#x: IsValidFull %v", x, q.IsValidFull())
			}
			if x <= 2 {
				if o, ok := seen[q.Desc()]; ok || !strings.Contains(q.Desc(), string(rune('0'+x))) {
					t.Failf("QoS %d is described as %q, like %d", x, q.Desc(), o)
				}
				seen[q.Desc()] = x
			} else if o, ok := seen[q.Desc()]; ok {
				t.Failf("QoS %#x is described as %q, like %d", x, q.Desc(), o)
			}
			if pv(byte(x)).IsValid() != (x >= 3 && x <= 5) {
				t.Failf("protocol version %d: IsValid %v", x, pv(byte(x)).IsValid())
			}
			t.Eval()
			t.Distinct("qos", x)
		}
	})
	c.EachN("errors", 1, 1, func(t *T) {
		table := func(what string, defined []int, text func(int) string, own bool) {
			fallback := text(0xff)
			values, texts := map[int]bool{}, map[string]int{}
			for _, x := range defined {
				if values[x] {
					t.Failf("%s: two defined errors have the value %d", what, x)
				}
				values[x] = true
				s := text(x)
				if s == "" || own && s == fallback {
					t.Failf("%s: defined error %d has the text %q", what, x, s)
				}
				if s == fallback {
					t.Count(what + ": defined errors with the fallback text")
					continue
				}
				if o, ok := texts[s]; ok {
					t.Failf("%s: errors %d and %d have the same text %q", what, o, x, s)
				}
				texts[s] = x
			}
			for x := 0; x < 256; x++ {
				if !values[x] && text(x) != fallback {
					t.Failf("%s: undefined error %d has the text %q, others %q", what, x, text(x), fallback)
				}
				t.Eval()
				t.Distinct(what, x)
			}
		}
		var es []int
		for _, e := range []mqttp.Error{mqttp.ErrInvalidUnSubscribe, mqttp.ErrInvalidUnSubAck, mqttp.ErrDupViolation, mqttp.ErrPackedIDNotMatched, mqttp.ErrInvalid, mqttp.ErrPackedIDZero, mqttp.ErrOnPublishNil, mqttp.ErrInvalidMessageType,
			mqttp.ErrInvalidMessageTypeFlags, mqttp.ErrInvalidQoS, mqttp.ErrInvalidLength, mqttp.ErrProtocolViolation, mqttp.ErrInsufficientBufferSize, mqttp.ErrInsufficientDataSize, mqttp.ErrInvalidTopic, mqttp.ErrEmptyPayload,
			mqttp.ErrInvalidReturnCode, mqttp.ErrUnimplemented, mqttp.ErrInvalidLPStringSize, mqttp.ErrMalformedTopic, mqttp.ErrMalformedStream, mqttp.ErrInvalidProtocolVersion, mqttp.ErrNotSet, mqttp.ErrPanicDetected,
			mqttp.ErrInvalidArgs, mqttp.ErrInvalidUtf8, mqttp.ErrNotSupported, mqttp.ErrProtocolInvalidName} {
			es = append(es, int(e))
		}
		table("codec error", es, func(x int) string { return mqttp.Error(x).Error() }, false)
		es = nil
		for _, e := range []mqttp.PropertyError{mqttp.ErrPropertyNotFound, mqttp.ErrPropertyInvalidID, mqttp.ErrPropertyPacketTypeMismatch, mqttp.ErrPropertyTypeMismatch, mqttp.ErrPropertyDuplicate, mqttp.ErrPropertyUnsupported, mqttp.ErrPropertyWrongType} {
			es = append(es, int(e))
		}
		table("property error", es, func(x int) string { return mqttp.PropertyError(x).Error() }, true)
		es = nil
		for x := 0; x < 256; x++ {
			if ref.CodeDefined(byte(x)) && x != 1 && x != 2 { // granted QoS or CONNACK refusal
				es = append(es, x)
			}
		}
		es = append(es, 1, 2)
		table("reason code", es, func(x int) string { return mqttp.ReasonCode(x).Error() }, true)
		for x := 0; x < 256; x++ {
			if mqttp.ReasonCode(x).Desc() != mqttp.ReasonCode(x).Error() {
				t.Failf("reason code %#x is described as %q and as %q", x, mqttp.ReasonCode(x).Desc(), mqttp.ReasonCode(x).Error())
			}
		}
		t.Sample("fallbacks: %q, %q, %q", mqttp.Error(255).Error(), mqttp.PropertyError(255).Error(), mqttp.ReasonCode(255).Error())
	})
	c.Exhausted("all 256 values of packet type, QoS, protocol version, codec error, property error and reason code")
	// objects are named after their type, whatever happens to them
	c.packets("objects", 3000, 60000, func(t *T, p *ref.Pkt) {
		look := func(m mqttp.IFace, how string) {
			x, ok := m.(named)
			if !ok {
				t.Fatalf("%s has no name", ref.TypeName[p.T])
			}
			if byte(m.Type()) != p.T || x.Name() != ref.TypeName[p.T] || x.Desc() != mqttp.Type(p.T).Desc() {
				t.Fatalf("%s %s v%d is of type %d and called %q (%q)", how, ref.TypeName[p.T], p.V, m.Type(), x.Name(), x.Desc())
			}
			if p.T != ref.PUBLISH && x.Flags() != ref.Flags(p.T) {
				t.Fatalf("%s %s v%d has the flags %d", how, ref.TypeName[p.T], p.V, x.Flags())
			}
			t.Eval()
		}
		m := t.build(p)
		look(m, "a built")
		b := t.encode(m)
		look(m, "an encoded")
		d, _, err := t.decode(p.V, b)
		if err != nil {
			t.Fatalf("own encoding refused: %v", err)
		}
		look(d, "a decoded")
		t.tag(p)
		t.Distinct(b, p.V)
	})
}
