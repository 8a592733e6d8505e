package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"
	"weak"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlmonitoring"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"github.com/VolantMQ/vlapi/vltypes"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C38"] = &Check{Run: c38, Workers: 1, Rule: "thousands of distinct packets of each kind built, decoded, refused, cloned, switched, encoded and dropped, and long-lived objects used thousands of times; non-trivial = distinct (kind, packet)", Note: "oracle: weak pointers to the dropped objects, live heap and goroutines after collection compared with before; a bounded amount may stay"}
	checks["C39"] = &Check{Run: c39, Workers: 1, Rule: "operations on inputs of one shape in two sizes, 32 apart; non-trivial = distinct (shape, operation)", Note: "oracle: CPU time of the measuring thread; time may grow with the size, not with its square"}
}

type live struct {
	objects, bytes int64
	goroutines     int
}

func settle() live {
	for i := 0; i < 3; i++ { // pools are emptied in two collections
		runtime.GC()
	}
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return live{int64(s.HeapObjects), int64(s.HeapAlloc), runtime.NumGoroutine()}
}

type leakKind struct {
	name string
	// f does one round with fresh content and returns the objects dropped afterwards
	f func(r *gen.R, drop func(m mqttp.IFace))
}

func weakOf(m mqttp.IFace) func() bool {
	switch x := m.(type) {
	case *mqttp.Publish:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.Connect:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.Subscribe:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.UnSubscribe:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.SubAck:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.UnSubAck:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.ConnAck:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.Ack:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.Disconnect:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *mqttp.Auth:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	}
	return func() bool { return false }
}

// fresh is a small conforming packet whose texts have not been seen before
func fresh(r *gen.R, v, ty byte) *ref.Pkt {
	p := r.Pkt(v, ty)
	if len(p.Payload) > 2000 {
		p.Payload = p.Payload[:2000]
	}
	u := fmt.Sprintf("%016x", r.U64())
	switch ty {
	case ref.PUBLISH:
		if len(p.Topic) > 300 {
			p.Topic = "t"
		}
		if p.Topic != "" {
			p.Topic += "/" + u
		}
	case ref.CONNECT:
		p.ClientID = u
		if p.Will != nil {
			if len(p.Will.Payload) > 2000 {
				p.Will.Payload = "w"
			}
			p.Will.Topic = "w/" + u
		}
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		if len(p.Subs) > 20 {
			p.Subs = p.Subs[:20]
		}
		for i := range p.Subs {
			p.Subs[i].F += "x" // may follow a wildcard, then plain text takes its place
			if _, ok := ref.ParseFilter(p.Subs[i].F); !ok || len(p.Subs[i].F) > 1000 {
				p.Subs[i].F = "f/" + u + fmt.Sprint(i)
			}
		}
	}
	uniq := func(l []ref.Prop) {
		for i := range l {
			if k := ref.PropTable[l[i].ID].Kind; (k == ref.KString || k == ref.KBinary) && len(l[i].S) < 1000 {
				l[i].S += u
			}
		}
	}
	uniq(p.Props)
	if p.Will != nil {
		uniq(p.Will.Props)
	}
	if p.HasUser && len(p.User) < 1000 {
		p.User += u
	}
	if p.HasPass && len(p.Pass) < 1000 {
		p.Pass += u
	}
	if v == 5 && ref.HasProps(ty) && r.Bool() {
		p.Props = append(p.Props, ref.Prop{ID: 0x26, K: u, S: u})
	}
	return p
}

func leakKinds() (l []leakKind) {
	add := func(name string, f func(r *gen.R, drop func(mqttp.IFace))) { l = append(l, leakKind{name, f}) }
	enc := func(m mqttp.IFace) []byte {
		b, err := mqttp.Encode(m)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return b
	}
	build := func(r *gen.R, p *ref.Pkt) mqttp.IFace {
		m, err := adapt.Build(r, p)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return m
	}
	for v := byte(3); v <= 5; v++ {
		for _, ty := range gen.TypesFor(v) {
			v, ty := v, ty
			n := fmt.Sprintf("%s v%d", ref.TypeName[ty], v)
			add("build and encode "+n, func(r *gen.R, drop func(mqttp.IFace)) {
				m := build(r, fresh(r, v, ty))
				enc(m)
				drop(m)
			})
			add("decode "+n, func(r *gen.R, drop func(mqttp.IFace)) {
				m, _, err := mqttp.Decode(pv(v), fresh(r, v, ty).Encode(ref.Full))
				if err != nil {
					return
				}
				_, _ = adapt.Extract(m)
				enc(m)
				drop(m)
			})
			add("refused "+n, func(r *gen.R, drop func(mqttp.IFace)) {
				b := fresh(r, v, ty).Encode(ref.Full)
				switch r.N(3) {
				case 0:
					b = b[:1+r.N(len(b)-1)]
				case 1:
					b = gen.Refit(append(b, r.Byte()))
				default:
					b = r.Mutate(b)
				}
				m, _, err := mqttp.Decode(pv(v), b)
				if err == nil {
					drop(m)
				} else {
					_ = err.Error()
				}
			})
			if ty != ref.AUTH {
				add("switch "+n, func(r *gen.R, drop func(mqttp.IFace)) {
					m := build(r, fresh(r, v, ty))
					for k := 0; k < 3; k++ {
						m.SetVersion(pv(byte(3 + r.N(3))))
						_, _ = mqttp.Encode(m)
					}
					drop(m)
				})
			}
		}
		v := v
		add(fmt.Sprintf("clone v%d", v), func(r *gen.R, drop func(mqttp.IFace)) {
			p := fresh(r, v, ref.PUBLISH)
			if p.Topic == "" {
				p.Topic = "x"
			}
			m := build(r, p).(*mqttp.Publish)
			m.SetExpireAt(time.Now().Add(time.Hour))
			for k := 0; k < 3; k++ {
				c, err := m.Clone(pv(byte(3 + r.N(3))))
				if err == nil {
					_, _, _ = c.Expired()
					drop(c)
				}
			}
			drop(m)
		})
	}
	add("properties set and discarded", func(r *gen.R, drop func(mqttp.IFace)) {
		m := mqttp.NewConnAck(5)
		for k := 0; k < 5; k++ {
			id := ref.PropIDs[r.N(len(ref.PropIDs))]
			_ = m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(r, []ref.Prop{r.PropFor(id)}))
		}
		m.PropertiesDiscard()
		drop(m)
	})
	add("topics", func(r *gen.R, drop func(mqttp.IFace)) {
		s := []byte(r.FilterStr() + fmt.Sprint(r.U64()))
		if t, err := mqttp.NewTopic(s); err == nil {
			_ = t.Filter() + t.ShareName() + t.DollarPrefix()
		}
		_, _ = mqttp.NewSubscribeTopic([]byte("a/#/"+fmt.Sprint(r.U64())), 1)
		_ = mqttp.ValidTopic(s)
		_ = mqttp.IsValidUTF(s)
	})
	add("vocabulary", func(r *gen.R, drop func(mqttp.IFace)) {
		x := int(r.U64())
		_ = mqttp.ReasonCode(x).Error() + mqttp.ReasonCode(x).Desc() + mqttp.Type(x).Name() + mqttp.Type(x).Desc() + mqttp.QosType(x).Desc()
		_ = mqttp.Error(x).Error() + mqttp.PropertyError(x).Error() + vlauth.Error(x).Error() + vlauth.Status(x).Error() + vlauth.Status(x).Desc() + vlauth.AccessType(x).Type() + vlpersistence.Errors(x).Error()
		_ = mqttp.ReasonCode(x).IsValid()
		_, _ = mqttp.ReasonCode(x).PacketTypeDir(mqttp.Type(x >> 8))
		_ = mqttp.PropertyID(x).IsValid()
		_ = mqttp.PropertyID(x).IsValidPacketType(mqttp.Type(x >> 8))
		_ = mqttp.PropertyID(x).DupAllowed(mqttp.Type(x >> 8))
		_, _ = mqttp.New(pv(byte(x)), mqttp.Type(x>>8))
	})
	add("configuration", func(r *gen.R, drop func(mqttp.IFace)) {
		k := fmt.Sprint(r.U64())
		_, _ = vltypes.NormalizeConfig(map[interface{}]interface{}{k: k, "n": map[interface{}]interface{}{k: 1}})
		_, _ = vltypes.NormalizeConfig(map[string]interface{}{k: k})
		_, _ = vltypes.NormalizeConfig(map[interface{}]interface{}{1: k})
		_, _ = vltypes.NormalizeConfig(k)
	})
	add("length-prefixed fields", func(r *gen.R, drop func(mqttp.IFace)) {
		b := make([]byte, 300)
		_, _ = mqttp.WriteLPBytes(b, r.Bytes(r.N(400)))
		_, _, _ = mqttp.ReadLPBytes(r.Bytes(r.N(40)))
	})
	add("monitors", func(r *gen.R, drop func(mqttp.IFace)) {
		s, o := new(vlmonitoring.Stats), new(vlmonitoring.Stats)
		for _, f := range fieldsOf(s) {
			switch x := f.v.(type) {
			case *vlmonitoring.Max:
				x.AddU64(1 + r.U64()%9)
				x.SubU64(1)
				_ = x.Load()
			case *vlmonitoring.Counter:
				x.AddU64(r.U64() % 9)
				_ = x.Get()
			}
		}
		_ = o
	})
	// objects that live on while their content is replaced again and again
	pub := mqttp.NewPublish(5)
	if err := pub.Set("a/b", []byte("x"), 1, false, false); err != nil {
		panic(err)
	}
	pub.SetPacketID(1)
	add("one PUBLISH changed", func(r *gen.R, drop func(mqttp.IFace)) {
		_ = pub.SetTopic(fmt.Sprintf("t/%x", r.U64()))
		pub.SetPayload(r.Bytes(1 + r.N(50)))
		_ = pub.SetQoS(mqttp.QosType(1 + r.N(2)))
		pub.SetPacketID(mqttp.IDType(1 + r.N(65535)))
		pub.SetExpireAt(time.Now().Add(time.Hour))
		for _, id := range []uint32{0x26, 0x0b, 0x09, 0x03, 0x23} {
			l := []ref.Prop{r.PropFor(id)}
			if len(l[0].S) > 100 {
				l[0].S = "s"
			}
			if err := pub.PropertySet(mqttp.PropertyID(id), adapt.GoValue(r, l)); err != nil {
				panic("harness: " + err.Error())
			}
		}
		enc(pub)
		c, err := pub.Clone(5)
		if err != nil {
			panic("harness: " + err.Error())
		}
		drop(c)
	})
	con := mqttp.NewConnect(5)
	add("one CONNECT changed", func(r *gen.R, drop func(mqttp.IFace)) {
		_ = con.SetClientID([]byte(fmt.Sprintf("%x", r.U64())))
		_ = con.SetCredentials([]byte("u"+fmt.Sprint(r.U64())), r.Bytes(10))
		w, err := adapt.NewWill(r, 5, &ref.Will{Topic: fmt.Sprintf("w/%x", r.U64()), Payload: "p", QoS: byte(r.N(3))})
		if err != nil {
			panic("harness: " + err.Error())
		}
		_ = con.SetWill(w)
		enc(con)
		if r.Bool() {
			con.ResetWill()
		}
		drop(w)
	})
	dis := mqttp.NewDisconnect(5)
	add("one DISCONNECT changed", func(r *gen.R, drop func(mqttp.IFace)) {
		dis.SetReasonCode(mqttp.ReasonCode(0x80))
		_ = dis.PropertySet(0x1f, fmt.Sprint(r.U64()))
		_ = dis.PropertySet(0x26, mqttp.StringPair{K: fmt.Sprint(r.U64()), V: "v"})
		enc(dis)
		if r.P(1, 3) {
			dis.PropertiesDiscard()
		}
	})
	return
}

func c38(c *C) {
	kinds := leakKinds()
	n := c.Scale(1600, 20000)
	if n < 1600 {
		n = 1600 // the bounds are made for this many
	}
	c.EachN("dropped", len(kinds), 1, func(t *T) {
		k := kinds[t.I]
		var weaks []func() bool
		nodrop := func(mqttp.IFace) {}
		for i := 0; i < n/8; i++ { // tables and pools reach their size
			k.f(t.R, nodrop)
		}
		weaks = make([]func() bool, 0, 4*n)
		window := func() (live, live) {
			a := settle()
			for i := 0; i < n; i++ {
				k.f(t.R, nodrop)
				if i%100 == 0 {
					t.Step()
				}
			}
			t.CountN("rounds", n)
			return a, settle()
		}
		a, b := window()
		const some = 24 // what the runtime itself may still be holding
		grew := func() bool {
			return b.objects-a.objects > some || b.bytes-a.bytes > 64*some || b.goroutines > a.goroutines
		}
		// a bounded table may still be filling: it is given time to
		for i := 0; i < 20 && grew(); i++ {
			a, b = window()
			t.Count("windows repeated")
		}
		if grew() {
			t.Fatalf("%s: the last %d of %d rounds left %d more objects and %d more bytes on the heap and %d goroutines", k.name, n, 21*n, b.objects-a.objects, b.bytes-a.bytes, b.goroutines-a.goroutines)
		}
		for i := 0; i < n/2; i++ {
			k.f(t.R, func(m mqttp.IFace) { weaks = append(weaks, weakOf(m)) })
		}
		settle()
		kept := 0
		for _, w := range weaks {
			if w() {
				kept++
			}
		}
		if kept > n/16 {
			t.Fatalf("%s: %d of %d packets are still held after they were dropped", k.name, kept, len(weaks))
		}
		t.CountN("packets watched by weak pointers", len(weaks))
		t.CountN("rounds", n/2)
		t.CountN("objects left (net)", int(b.objects-a.objects))
		t.EvalN(n + n/2)
		for i := 0; i < n; i++ {
			t.Distinct(k.name, i)
		}
		t.Sample("%s: %d objects, %d bytes more after %d rounds", k.name, b.objects-a.objects, b.bytes-a.bytes, n)
	})
}

// cpu time of this thread
func cpu() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 { // CLOCK_THREAD_CPUTIME_ID
		panic(e)
	}
	return time.Duration(ts.Nano())
}

type shape struct {
	name string
	// prep makes the operation for size n
	prep func(n int) func()
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func shapes() (l []shape) {
	add := func(name string, f func(n int) func()) { l = append(l, shape{name, f}) }
	// packets of size n in one dimension
	dims := []struct {
		name string
		f    func(n int) *ref.Pkt
	}{}
	dim := func(name string, f func(n int) *ref.Pkt) {
		dims = append(dims, struct {
			name string
			f    func(n int) *ref.Pkt
		}{name, f})
	}
	users := func(n int) (ps []ref.Prop) {
		for i := 0; i < n; i++ {
			ps = append(ps, ref.Prop{ID: 0x26, K: fmt.Sprintf("k%d", i%977), S: "v"})
		}
		return
	}
	for ty := byte(1); ty <= ref.AUTH; ty++ {
		if !ref.HasProps(ty) {
			continue
		}
		ty := ty
		dim("user properties of "+ref.TypeName[ty], func(n int) *ref.Pkt {
			p := conformingFor(gen.New(7, uint64(ty)), 5, ty)
			p.Props = users(n)
			return p
		})
	}
	dim("will user properties", func(n int) *ref.Pkt {
		p := conformingFor(gen.New(8), 5, ref.CONNECT)
		p.Will = &ref.Will{Topic: "w", Payload: "x", Props: users(n)}
		return p
	})
	dim("equal user properties", func(n int) *ref.Pkt {
		p := conformingFor(gen.New(9), 5, ref.PUBLISH)
		for i := 0; i < n; i++ {
			p.Props = append(p.Props, ref.Prop{ID: 0x26})
		}
		return p
	})
	dim("subscription identifiers", func(n int) *ref.Pkt {
		p := conformingFor(gen.New(10), 5, ref.PUBLISH)
		for i := 0; i < n; i++ {
			p.Props = append(p.Props, ref.Prop{ID: 0x0b, U: uint32(1 + i)})
		}
		return p
	})
	for v := byte(3); v <= 5; v++ {
		v := v
		for _, ty := range []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE} {
			ty := ty
			dim(fmt.Sprintf("topics of %s v%d", ref.TypeName[ty], v), func(n int) *ref.Pkt {
				p := &ref.Pkt{V: v, T: ty, HasID: true, ID: 1}
				for i := 0; i < n; i++ {
					p.Subs = append(p.Subs, ref.Sub{F: fmt.Sprintf("a/%d", i)})
				}
				return p
			})
		}
		dim(fmt.Sprintf("codes of SUBACK v%d", v), func(n int) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.SUBACK, HasID: true, ID: 1, Codes: make([]byte, n*4)}
		})
		dim(fmt.Sprintf("payload v%d", v), func(n int) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.PUBLISH, Topic: "a", Payload: strings.Repeat("p", n*30)}
		})
		for _, x := range []struct{ name, unit string }{{"levels", "a/"}, {"empty levels", "/"}, {"plain text", "x"}, {"wide text", "é"}, {"wider text", "\u4e2d"}, {"dollars", "$"}, {"blanks", " "}} {
			x := x
			dim(fmt.Sprintf("topic of %s v%d", x.name, v), func(n int) *ref.Pkt {
				return &ref.Pkt{V: v, T: ref.PUBLISH, Topic: strings.Repeat(x.unit, n/len(x.unit)) + "z", Payload: "p"}
			})
			dim(fmt.Sprintf("filter of %s v%d", x.name, v), func(n int) *ref.Pkt {
				return &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: strings.Repeat(x.unit, n/len(x.unit)) + "z"}}}
			})
			dim(fmt.Sprintf("user name of %s v%d", x.name, v), func(n int) *ref.Pkt {
				return &ref.Pkt{V: v, T: ref.CONNECT, Clean: true, ClientID: "c", HasUser: true, User: strings.Repeat(x.unit, n/len(x.unit)) + "z"}
			})
		}
		dim(fmt.Sprintf("client id v%d", v), func(n int) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.CONNECT, Clean: true, ClientID: strings.Repeat("c", n)}
		})
		dim(fmt.Sprintf("wildcard levels v%d", v), func(n int) *ref.Pkt {
			return &ref.Pkt{V: v, T: ref.SUBSCRIBE, HasID: true, ID: 1, Subs: []ref.Sub{{F: strings.Repeat("+/", n/2) + "#"}}}
		})
	}
	dim("codes of UNSUBACK", func(n int) *ref.Pkt {
		return &ref.Pkt{V: 5, T: ref.UNSUBACK, HasID: true, ID: 1, Codes: make([]byte, n*4)}
	})
	for id, pd := range ref.PropTable {
		if pd.Kind != ref.KString && pd.Kind != ref.KBinary || pd.Types[0] == ref.WILL {
			continue
		}
		id, ty := id, pd.Types[0]
		dim("value of "+pd.Name, func(n int) *ref.Pkt {
			p := conformingFor(gen.New(11, uint64(id)), 5, ty)
			p.Props = []ref.Prop{{ID: id, S: strings.Repeat("é", n/2)}}
			return p
		})
	}
	for _, d := range dims {
		d := d
		add("decode: "+d.name, func(n int) func() {
			p := d.f(n)
			b := p.Encode(ref.Full)
			return func() {
				_, _, err := mqttp.Decode(pv(p.V), b)
				must(err)
			}
		})
		add("refuse: "+d.name, func(n int) func() {
			p := d.f(n)
			b := p.Encode(ref.Full)
			b = gen.Refit(append(b, 0xff)) // surplus or ill-formed at the very end
			if p.T == ref.PUBLISH {
				b = p.Encode(ref.Full)
				b[0] |= 6
			}
			return func() { _, _, _ = mqttp.Decode(pv(p.V), b) }
		})
		add("cut: "+d.name, func(n int) func() {
			p := d.f(n)
			b := p.Encode(ref.Full)
			b = gen.Refit(b[:len(b)-1])
			return func() { _, _, _ = mqttp.Decode(pv(p.V), b) }
		})
		add("encode: "+d.name, func(n int) func() {
			m, err := adapt.Build(gen.New(12), d.f(n))
			must(err)
			return func() {
				_, err := mqttp.Encode(m)
				must(err)
			}
		})
		if p := d.f(1); p.T == ref.PUBLISH {
			add("clone: "+d.name, func(n int) func() {
				m, err := adapt.Build(gen.New(12), d.f(n))
				must(err)
				return func() {
					_, err := m.(*mqttp.Publish).Clone(5)
					must(err)
				}
			})
		}
	}
	for _, x := range []struct{ name, unit string }{{"levels", "a/"}, {"wildcards", "+/"}, {"empty levels", "/"}, {"text", "x"}, {"wide text", "é"}, {"hashes", "#"}, {"plus", "+"}, {"NUL", "\x00"}, {"ill-formed", "\xff"}, {"dollar", "$"}, {"share", "$share/"}} {
		x := x
		text := func(n int) []byte { return []byte(strings.Repeat(x.unit, n/len(x.unit))) }
		add("ValidTopic of "+x.name, func(n int) func() { b := text(n); return func() { mqttp.ValidTopic(b) } })
		add("IsValidUTF of "+x.name, func(n int) func() { b := text(n); return func() { mqttp.IsValidUTF(b) } })
		add("NewTopic of "+x.name, func(n int) func() { b := text(n); return func() { _, _ = mqttp.NewTopic(b) } })
		add("NewSubscribeTopic of shared "+x.name, func(n int) func() {
			b := append([]byte("$share/g/"), text(n)...)
			return func() { _, _ = mqttp.NewSubscribeTopic(b, 1) }
		})
		add("SetClientID of "+x.name, func(n int) func() {
			b := text(n)
			return func() { _ = mqttp.NewConnect(4).SetClientID(b) }
		})
		add("SetCredentials of "+x.name, func(n int) func() {
			b := text(n)
			return func() { _ = mqttp.NewConnect(4).SetCredentials(b, b) }
		})
		add("SetTopic of "+x.name, func(n int) func() {
			b := string(text(n))
			return func() { _ = mqttp.NewPublish(4).SetTopic(b) }
		})
	}
	add("NormalizeConfig", func(n int) func() {
		m := map[interface{}]interface{}{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint(i)] = i
		}
		return func() {
			_, err := vltypes.NormalizeConfig(m)
			must(err)
		}
	})
	return
}

func c39(c *C) {
	all := shapes()
	const small, factor = 2000, 32
	const margin = 14
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(4 << 30)) // operations that outgrow it pay for collections
	found := false                                            // the others would only take their time
	c.EachN("growth", len(all), 1, func(t *T) {
		if found {
			return
		}
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		s := all[t.I]
		lo, hi := s.prep(small), s.prep(small*factor)
		best := 0.0
		var was [2]time.Duration
		begin := cpu()
		for try := 0; try < 4; try++ {
			// the small one is repeated as often as makes the totals comparable
			runtime.GC()
			t.Step()
			lo()
			var a, b time.Duration
			for k := 0; k < 2; k++ {
				s := cpu()
				for i := 0; i < factor; i++ {
					lo()
				}
				if d := cpu() - s; k == 0 || d > a {
					a = d
				}
			}
			if cpu()-begin < time.Second {
				hi() // its memory is there afterwards
			}
			runtime.GC()
			for k := 0; k < 3; k++ {
				t.Step()
				s := cpu()
				hi()
				if d := cpu() - s; k == 0 || d < b {
					b = d
				}
				if b < 10*a || b > 2*time.Second {
					break
				}
			}
			if a < 500*time.Microsecond {
				a = 500 * time.Microsecond // start-up costs
			}
			if q := float64(b) / float64(a); try == 0 || q < best {
				best, was = q, [2]time.Duration{a, b}
			}
			t.Eval()
			if best < margin {
				break
			}
			if spent := cpu() - begin; try > 0 && spent > 5*time.Second {
				break
			}
			t.Count("measured again")
		}
		if best >= margin {
			found = true
			t.Fatalf("%s: %d operations of size %d take %v of CPU time, one of size %d takes %v: %.0f times as much", s.name, factor, small, was[0], small*factor, was[1], best)
		}
		t.Distinct(s.name)
		t.Count("shapes measured")
		t.Sample("%s: %d x size %d %v, size %d %v", s.name, factor, small, was[0], small*factor, was[1])
	})
	debug.SetGCPercent(old)
}
