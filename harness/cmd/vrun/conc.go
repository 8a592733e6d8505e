package main

import (
	"fmt"
	"math/bits"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlmonitoring"
	"github.com/VolantMQ/vlapi/vlplugin"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C19"] = &Check{Run: c19, Rule: "bursts of goroutines, released together, each working on its own packets and on shared read-only inputs; every result is compared with that of running the same script alone afterwards; non-trivial = distinct scripts", Note: "race detector on; schedules are sampled, not enumerated"}
	checks["C20"] = &Check{Run: c20, Rule: "one PUBLISH read and cloned by many goroutines at once, each clone filled in and encoded on its own; non-trivial = distinct source packets", Note: "race detector on; Size and Encode of the shared original are not called concurrently (they note the length in the packet)"}
	checks["C21"] = &Check{Run: c21, Rule: "concurrent updaters with recorded call intervals, collectors and readers; offline checks of the recorded totals; non-trivial = distinct observed totals or orders", Note: "race detector on; a Diff's previous value belongs to one collector"}
	checks["C22"] = &Check{Run: c22, Rule: "barrier rounds of concurrent adds and subtractions with quiescent points, and observers in between; non-trivial = distinct observed values", Note: "race detector on; the value never goes below zero"}
	checks["C33"] = &Check{Run: c33, Rule: "random descriptors queried repeatedly and by many goroutines; non-trivial = distinct descriptors", Note: "race detector on"}
}

// canon writes content down independently of property order across identifiers
func canon(p *ref.Pkt) string {
	if p == nil {
		return "nil"
	}
	q := p.Clone()
	srt := func(l []ref.Prop) { sort.SliceStable(l, func(i, j int) bool { return l[i].ID < l[j].ID }) }
	srt(q.Props)
	w := q.Will
	q.Will = nil
	s := fmt.Sprintf("%+v", *q)
	if w != nil {
		srt(w.Props)
		s += fmt.Sprintf("%+v", *w)
	}
	return s
}

type kept struct {
	m    mqttp.IFace
	want string
}

type keptBytes struct {
	b    []byte
	want string
}

// scribble writes over everything a decoded packet that is not needed anymore
// gave its owner, the room behind it included: nobody else may notice. Fields
// that may lie in the receive buffer are left alone.
func scribble(m mqttp.IFace) {
	over := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	props := func(m mqttp.IFace) {
		_ = m.PropertyForEach(func(_ mqttp.PropertyID, v mqttp.PropertyToType) {
			if b, err := v.AsBinary(); err == nil {
				over(b)
			}
			if l, err := v.AsStringPairs(); err == nil {
				l = l[:cap(l)]
				for i := range l {
					l[i] = mqttp.StringPair{K: "scribbled", V: "over"}
				}
			}
			if l, err := v.AsInts(); err == nil {
				l = l[:cap(l)]
				for i := range l {
					l[i] = 0x5a5a5a
				}
			}
		})
	}
	props(m)
	switch p := m.(type) {
	case *mqttp.Publish:
		over(p.Payload())
	case *mqttp.Connect:
		if w := p.Will(); w != nil {
			props(w)
			over(w.Payload())
		}
	case *mqttp.SubAck:
		l := p.ReturnCodes()
		l = l[:cap(l)]
		for i := range l {
			l[i] = 0x5a
		}
	}
}

type shared struct {
	v byte
	b []byte
}

// script is one goroutine's work: all its results, in order
func script(seed uint64, n int, in []shared) (res []string, err error) {
	r := gen.NewS(seed, "script", 0)
	var keep []kept
	var bytes []keptBytes
	note := func(f string, a ...interface{}) { res = append(res, fmt.Sprintf(f, a...)) }
	err = onOwn(func(t report) {
		rt := func(p *ref.Pkt, m mqttp.IFace) {
			sz, err := m.Size()
			if err != nil {
				t.Fatalf("Size: %v", err)
			}
			b, k := []byte(nil), sz
			if r.Bool() {
				b, err = mqttp.Encode(m)
				k = len(b)
			} else {
				b = make([]byte, sz)
				k, err = m.Encode(b)
			}
			if err != nil || k != sz {
				t.Fatalf("Encode of a conforming %s v%d: %d of %d, %v", ref.TypeName[p.T], p.V, k, sz, err)
			}
			x := ref.Decode(p.V, b)
			if x.Verdict == ref.Reject {
				t.Fatalf("encoding of %s v%d is malformed: %s", ref.TypeName[p.T], p.V, x.Class)
			}
			if d := ref.Diff(p, x.Pkt); d != "" {
				t.Fatalf("encoding of %s v%d: %s", ref.TypeName[p.T], p.V, d)
			}
			note("%d %s", sz, canon(x.Pkt))
			d, n, err := mqttp.Decode(pv(p.V), b)
			if err != nil || n != sz {
				t.Fatalf("Decode of %s v%d: %d of %d, %v", ref.TypeName[p.T], p.V, n, sz, err)
			}
			g, err := adapt.Extract(d)
			if err != nil {
				t.Fatalf("%v", err)
			}
			if e := ref.Diff(adapt.Norm(p), g); e != "" {
				t.Fatalf("decoded %s v%d: %s", ref.TypeName[p.T], p.V, e)
			}
			note("%s", canon(g))
			bytes = append(bytes, keptBytes{b, string(b)})
			if len(keep) >= 24 || r.P(1, 4) {
				scribble(d)
			} else {
				keep = append(keep, kept{d, canon(g)}, kept{m, ""})
				g, err = adapt.Extract(m)
				if err != nil {
					t.Fatalf("%v", err)
				}
				keep[len(keep)-1].want = canon(g)
			}
		}
		for i := 0; i < n; i++ {
			switch r.N(9) {
			case 0, 1: // own packets
				p := r.Any()
				if len(p.Payload) > 20000 {
					p.Payload = p.Payload[:20000]
				}
				m, err := adapt.Build(r, p)
				if err != nil {
					t.Fatalf("building %s v%d: %v", ref.TypeName[p.T], p.V, err)
				}
				rt(p, m)
			case 2, 3: // shared inputs
				x := in[r.N(len(in))]
				m, k, err := mqttp.Decode(pv(x.v), x.b)
				if err != nil {
					note("%d %T %v", k, err, err)
					break
				}
				g, e := adapt.Extract(m)
				if e != nil {
					t.Fatalf("%v", e)
				}
				note("%d %s", k, canon(g))
				if len(keep) >= 24 || r.P(1, 4) {
					scribble(m)
				} else {
					keep = append(keep, kept{m, canon(g)})
				}
			case 4: // text and topics
				s := r.FilterStr()
				if r.Bool() {
					s = []string{"a/#/b", "+a", "$share/+/x", "$share/g/", "", "a\x00", "\xff", "$share//x", "$SYS/#"}[r.N(9)]
				}
				a, e1 := mqttp.NewTopic([]byte(s))
				b, e2 := mqttp.NewSubscribeTopic([]byte(s), mqttp.SubscriptionOptions(r.SubOps(5, true)))
				_, ok := ref.ParseFilter(s)
				if (e1 == nil) != ok {
					t.Fatalf("NewTopic(%q): %v", s, e1)
				}
				note("%v %v %v %v", e1, e2, mqttp.ValidTopic([]byte(s)), mqttp.IsValidUTF([]byte(s)))
				if e1 == nil {
					note("%s|%s|%s|%s", a.Full(), a.Filter(), a.ShareName(), a.DollarPrefix())
				}
				if e2 == nil {
					note("%s %v", b.Full(), b.Ops())
				}
			case 5: // codes
				c, ty := mqttp.ReasonCode(r.Byte()), mqttp.Type(r.N(16))
				note("%v %v %v %s %s", c.IsValid(), c.IsValidV5(), c.IsValidForType(ty), c.Desc(), c.Error())
				for _, v := range []byte{3, 4, 5} {
					ok, e := ty.Valid(pv(v))
					m, e2 := mqttp.New(pv(v), ty)
					note("%v %v %v %v %s %s", ok, e, m == nil, e2, ty.Name(), ty.Desc())
				}
				id := mqttp.PropertyID(r.N(0x30))
				note("%v %v", id.IsValidPacketType(ty), id.DupAllowed(ty))
			case 6: // clone and set
				p := r.Pkt(5, ref.PUBLISH)
				if len(p.Payload) > 20000 {
					p.Payload = p.Payload[:20000]
				}
				m, err := adapt.Build(r, p)
				if err != nil {
					t.Fatalf("%v", err)
				}
				q, err := m.(*mqttp.Publish).Clone(5)
				if err != nil {
					t.Fatalf("%v", err)
				}
				mod := (&pubModel{p: p}).cloned(5)
				checkPub(t, q, mod, true)
				for k := 0; k < 6; k++ {
					if err := pubStep(r, q, mod); err != nil {
						t.Fatalf("%v", err)
					}
					checkPub(t, q, mod, true)
				}
				note("%s", canon(mod.p))
			case 7: // fields and properties
				s := r.Bytes(r.N(300))
				b := make([]byte, len(s)+2-r.N(2))
				k, e := mqttp.WriteLPBytes(b, s)
				note("%d %v %x", k, e, b)
				x, k, e := mqttp.ReadLPBytes(b)
				note("%d %v %x", k, e, x)
				m, e := mqttp.New(5, mqttp.Type(1+r.N(15)))
				if e != nil {
					t.Fatalf("%v", e)
				}
				for k := 0; k < 4; k++ {
					id := ref.PropIDs[r.N(len(ref.PropIDs))]
					e := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(r, []ref.Prop{r.PropFor(id)}))
					note("%#x %v", id, e)
				}
				ps, e := adapt.Props(m)
				note("%s %v", canon(&ref.Pkt{Props: ps}), e)
			case 8: // switched
				p := r.Any()
				if len(p.Payload) > 20000 || p.T == ref.CONNACK {
					break
				}
				m, err := adapt.Build(r, p)
				if err != nil {
					t.Fatalf("%v", err)
				}
				v := byte(3 + r.N(3))
				if q, open := converted(p, v); open == "" && (p.T != ref.UNSUBACK || v < 5 || p.V == 5) {
					m.SetVersion(pv(v))
					rt(q, m)
				}
			}
		}
		// what was made earlier is still what it was
		for _, k := range bytes {
			if string(k.b) != k.want {
				t.Fatalf("a buffer packets were encoded into or decoded from changed while others were in use: % x -> % x", head(k.want, 60), head(string(k.b), 60))
			}
		}
		for _, k := range keep {
			g, err := adapt.Extract(k.m)
			if err != nil {
				t.Fatalf("later: %v", err)
			}
			if c := canon(g); c != k.want {
				t.Fatalf("a %s changed while other goroutines worked on their own: %s -> %s", k.m.Type().Name(), head(k.want, 300), head(c, 300))
			}
		}
	})
	return
}

func c19(c *C) {
	one := func(t *T, g, n int) {
		var in []shared
		var copies []string
		for k := 0; k < 40; k++ {
			v, b := hostile(t.R)
			if len(b) > 20000 {
				b = b[:20000]
			}
			in = append(in, shared{v, b})
			copies = append(copies, string(b))
		}
		seeds := make([]uint64, g)
		for i := range seeds {
			seeds[i] = t.R.U64()
			if i > 0 && t.R.P(1, 4) {
				seeds[i] = seeds[i-1] // two goroutines doing the very same
			}
		}
		res := make([][]string, g)
		errs := make([]error, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res[i], errs[i] = script(seeds[i], n, in)
			}()
		}
		close(start)
		wg.Wait()
		for i := range in {
			if string(in[i].b) != copies[i] {
				t.Fatalf("shared input %d was modified", i)
			}
		}
		for i := 0; i < g; i++ {
			if errs[i] != nil {
				t.Fatalf("goroutine %d: %v", i, errs[i])
			}
			alone, err := script(seeds[i], n, in)
			if err != nil {
				t.Fatalf("alone: %v", err)
			}
			if len(alone) != len(res[i]) {
				t.Fatalf("goroutine %d has %d results, %d alone", i, len(res[i]), len(alone))
			}
			for k := range alone {
				if alone[k] != res[i][k] {
					t.Fatalf("goroutine %d result %d: among others %s, alone %s", i, k, head(res[i][k], 300), head(alone[k], 300))
				}
			}
			t.EvalN(len(alone))
			t.CountN("results compared", len(alone))
			t.Distinct(seeds[i])
			t.Step()
		}
		t.Count("bursts")
	}
	// first use of everything happens concurrently
	c.EachN("cold", 1, 1, func(t *T) { one(t, 24, 120) })
	c.EachN("bursts", c.Scale(14, 1200), 1, func(t *T) {
		g := []int{2, 4, 8, 16, 32, 64}[t.I%6]
		one(t, g, 40+t.R.N(80))
		if t.I%5 == 0 {
			runtime.GC()
		}
	})
	t0 := &T{C: c}
	t0.Sample("24 goroutines x 120 operations from cold, then bursts of 2..64 goroutines")
}

func c20(c *C) {
	one := func(t *T, g, rounds int) {
		v := byte(5)
		if t.R.P(1, 5) {
			v = byte(3 + t.R.N(2))
		}
		m, mod := pubFrom(t, v)
		if mod.p.Topic == "" {
			mod.p.Topic = "t"
			_ = m.SetTopic("t")
		}
		if t.R.P(2, 3) {
			// alive, just expiring, expired, long expired
			mod.exp = time.Now().Add([]time.Duration{time.Hour, 1<<32 - 1, time.Millisecond, 0, -time.Millisecond, -time.Second, -time.Hour, -24 * 365 * time.Hour}[t.R.N(8)])
			m.SetExpireAt(mod.exp)
		}
		m.SetPublishID(uintptr(t.R.N(1000)))
		pubID := m.PublishID()
		if v == 5 {
			for _, id := range []uint32{0x01, 0x08, 0x09, 0x03, 0x26, 0x02, 0x23, 0x0b} {
				if t.R.P(2, 3) {
					l := []ref.Prop{t.R.PropFor(id)}
					if id == 0x26 {
						for n := []int{0, 1, 2, 10, 40}[t.R.N(5)]; n > 0; n-- {
							l = append(l, t.R.PropFor(id))
						}
					}
					if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, l)); err != nil {
						t.Fatalf("PropertySet: %v", err)
					}
					mod.p.Props = append(without(mod.p.Props, id), l...)
				}
			}
		}
		errs := make([]error, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		var clones, reads int64
		for i := 0; i < g; i++ {
			i, r := i, gen.NewS(t.R.U64(), "sub", uint64(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				errs[i] = onOwn(func(f report) {
					for k := 0; k < rounds; k++ {
						mm := mod.clone()
						mm.hist = fmt.Sprintf(" subscriber %d round %d", i, k)
						switch r.N(4) {
						case 0: // read
							checkPub(f, m, mm, false)
							if m.PublishID() != pubID || byte(m.Version()) != v || m.Type() != mqttp.PUBLISH || m.Name() != "PUBLISH" {
								f.Fatalf("reading the shared packet: %d v%d %v", m.PublishID(), m.Version(), m.Type())
							}
							if v == 5 {
								if e := m.PropertySet(mqttp.PropertyID(0x7f), 1); e == nil {
									f.Fatalf("PropertySet of an unknown property accepted")
								}
							}
							atomic.AddInt64(&reads, 1)
						default: // deliver
							w := byte(3 + r.N(3))
							if r.Bool() {
								w = 5
							}
							q, err := m.Clone(pv(w))
							if err != nil {
								f.Fatalf("Clone(%d): %v", w, err)
							}
							cm := mm.cloned(w)
							checkPub(f, q, cm, r.Bool())
							for s := 2 + r.N(4); s > 0; s-- {
								if err := pubStep(r, q, cm); err != nil {
									f.Fatalf("%v", err)
								}
							}
							cm.p.QoS = byte(1 + r.N(2))
							if err := q.SetQoS(mqttp.QosType(cm.p.QoS)); err != nil {
								f.Fatalf("%v", err)
							}
							cm.p.HasID, cm.p.ID = true, uint16(i*rounds+k)
							q.SetPacketID(mqttp.IDType(cm.p.ID))
							if cm.p.V == 5 {
								l := []ref.Prop{{ID: 0x0b, U: uint32(1 + i)}}
								if err := q.PropertySet(0x0b, l[0].U); err != nil {
									f.Fatalf("%v", err)
								}
								cm.p.Props = append(without(cm.p.Props, 0x0b), l...)
							}
							checkPub(f, q, cm, true)
							if r.P(1, 8) {
								runtime.Gosched()
							}
							checkPub(f, q, cm, true)
							atomic.AddInt64(&clones, 1)
						}
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				t.Failf("%v", e)
			}
		}
		if m.PublishID() != pubID {
			t.Failf("publish id of the original changed")
		}
		checkPub(t, m, mod, true) // the original, and now it may be encoded
		t.CountN("clones delivered", int(clones))
		t.CountN("concurrent reads", int(reads))
		t.EvalN(int(clones + reads))
		t.Distinct(mod.p.Encode(ref.Full))
		t.Sample("v%d PUBLISH with %d properties to %d subscribers", v, len(mod.p.Props), g)
	}
	c.EachN("fan-out", c.Scale(250, 8000), 2, func(t *T) {
		if t.I%150 == 149 {
			one(t, 300, 4)
			return
		}
		one(t, []int{2, 4, 8, 16, 32}[t.I%5], 6+t.R.N(20))
	})
}

// sharp is a start barrier that lets all goroutines go at nearly the same time
type sharp struct {
	n     int32
	ready int32
	gen   int32
}

func (s *sharp) wait() {
	g := atomic.LoadInt32(&s.gen)
	if atomic.AddInt32(&s.ready, 1) == s.n {
		atomic.StoreInt32(&s.ready, 0)
		atomic.AddInt32(&s.gen, 1)
		return
	}
	for k := 0; atomic.LoadInt32(&s.gen) == g; k++ {
		if k > 200 {
			runtime.Gosched()
		}
	}
}

type addRec struct{ start, end, n, r uint64 }

// orderOf checks that the recorded adds are those of one atomic counter
func orderOf(recs []addRec, from, total uint64) string {
	sort.Slice(recs, func(i, j int) bool {
		if recs[i].r != recs[j].r {
			return recs[i].r < recs[j].r
		}
		return recs[i].n > recs[j].n // adds of zero come after the one that reached the value
	})
	cur := from
	for i, x := range recs {
		if i > 0 && x.n > 0 && x.r == recs[i-1].r {
			return fmt.Sprintf("two adds returned the same total %d", x.r)
		}
		if cur+x.n != x.r {
			return fmt.Sprintf("total %d after an add of %d does not follow %d", x.r, x.n, cur)
		}
		cur = x.r
	}
	if cur != total {
		return fmt.Sprintf("counter shows %d, the adds make %d", total, cur)
	}
	// an add that had returned before another was called comes before it
	minEnd := ^uint64(0)
	for i := len(recs) - 1; i >= 0; i-- {
		if minEnd < recs[i].start && recs[i].n > 0 {
			return fmt.Sprintf("the add that returned %d had been called after a later total was already returned", recs[i].r)
		}
		if recs[i].end < minEnd && recs[i].n > 0 {
			minEnd = recs[i].end
		}
	}
	return ""
}

type counterAPI struct {
	name string
	add  func(uint64) uint64
	get  func() uint64
	load func() uint64
}

func counterAPIs() []counterAPI {
	c := new(vlmonitoring.Counter)
	f := new(vlmonitoring.FlowCounter)
	s := new(vlmonitoring.Stats)
	return []counterAPI{
		{"Counter", c.AddU64, c.Get, c.Load},
		{"FlowCounter.Sent", f.SentAddU64, f.Sent.Get, f.Sent.Load},
		{"FlowCounter.Recv", f.RecvAddU64, f.Recv.Get, f.Recv.Load},
		{"Stats.Bytes.Sent", s.Bytes.SentAddU64, s.Bytes.Sent.Get, s.Bytes.Sent.Load},
		{"Stats.Packets.Total.Recv", s.Packets.Total.RecvAddU64, s.Packets.Total.Recv.Get, s.Packets.Total.Recv.Load},
		{"Stats.Packets.Connect", s.Packets.Connect.AddU64, s.Packets.Connect.Get, s.Packets.Connect.Load},
		{"Stats.Clients.Rejected", s.Clients.Rejected.AddU64, s.Clients.Rejected.Get, s.Clients.Rejected.Load},
	}
}

func amount(r *gen.R) uint64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return r.U64() >> uint(24+r.N(40))
	case 2:
		return uint64(r.N(100000))
	}
	return 1
}

type statsField struct {
	name string
	v    interface{} // *Counter or *Max
}

// fieldsOf finds all counters and high-water marks of a Stats, however nested
func fieldsOf(s *vlmonitoring.Stats) (r []statsField) {
	var walk func(n string, v reflect.Value)
	walk = func(n string, v reflect.Value) {
		if v.CanAddr() && v.Addr().CanInterface() {
			switch x := v.Addr().Interface().(type) {
			case *vlmonitoring.Counter, *vlmonitoring.Max:
				r = append(r, statsField{n, x})
				return
			}
		}
		if v.Kind() == reflect.Struct {
			for i := 0; i < v.NumField(); i++ {
				walk(n+"."+v.Type().Field(i).Name, v.Field(i))
			}
		}
	}
	walk("Stats", reflect.ValueOf(s).Elem())
	return
}

func (f statsField) get() [2]uint64 {
	switch x := f.v.(type) {
	case *vlmonitoring.Counter:
		return [2]uint64{x.Get(), x.Load()}
	case *vlmonitoring.Max:
		return [2]uint64{x.Get(), atomic.LoadUint64(&x.Max)}
	}
	return [2]uint64{}
}

func (f statsField) add(n uint64) {
	switch x := f.v.(type) {
	case *vlmonitoring.Counter:
		x.AddU64(n)
	case *vlmonitoring.Max:
		x.AddU64(n)
	}
}

func c21(c *C) {
	// a recorded history of adds from all goroutines, checked afterwards
	apis := len(counterAPIs())
	c.EachN("adds", c.Scale(70, 4000), 1, func(t *T) {
		a := counterAPIs()[t.I%apis]
		g := []int{2, 3, 4, 8, 16}[t.I/apis%5]
		k := 400 + t.R.N(800)
		recs := make([][]addRec, g)
		bar := &sharp{n: int32(g)}
		var tick uint64
		var begun, done uint64 // sums of adds called and returned
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var rerr string
		var seen int
		var rg sync.WaitGroup
		rg.Add(1)
		go func() { // a reader
			defer rg.Done()
			var last uint64
			for {
				lo := atomic.LoadUint64(&done)
				v := a.get()
				if seen%2 == 1 {
					v = a.load()
				}
				hi := atomic.LoadUint64(&begun)
				seen++
				if v < lo || v > hi || v < last {
					rerr = fmt.Sprintf("%s read as %d; adds of %d had returned, of %d been called, read as %d before", a.name, v, lo, hi, last)
					return
				}
				last = v
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		for i := 0; i < g; i++ {
			i, r := i, gen.NewS(t.R.U64(), "add", uint64(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := make([]addRec, 0, k)
				bar.wait()
				for j := 0; j < k; j++ {
					n := amount(r)
					atomic.AddUint64(&begun, n)
					s := atomic.AddUint64(&tick, 1)
					x := a.add(n)
					e := atomic.AddUint64(&tick, 1)
					atomic.AddUint64(&done, n)
					l = append(l, addRec{s, e, n, x})
				}
				recs[i] = l
			}()
		}
		wg.Wait()
		close(stop)
		rg.Wait()
		if rerr != "" {
			t.Fatalf("%s", rerr)
		}
		var all []addRec
		switches := 0
		for i, l := range recs {
			for j := 1; j < len(l); j++ {
				if l[j].r != l[j-1].r+l[j].n {
					switches++ // someone else was in between
				}
			}
			all = append(all, recs[i]...)
		}
		if e := orderOf(all, 0, a.get()); e != "" {
			t.Fatalf("%s with %d goroutines: %s", a.name, g, e)
		}
		if a.load() != a.get() {
			t.Fatalf("%s: Load and Get differ", a.name)
		}
		t.CountN("adds checked", len(all))
		t.CountN("reads checked", seen)
		t.CountN("adds of other goroutines observed between two of one's own", switches)
		t.EvalN(len(all) + seen)
		t.Distinct(a.name, a.get(), switches)
		t.Sample("%s: %d goroutines, %d adds, total %d, %d interleavings seen", a.name, g, len(all), a.get(), switches)
	})
	// adds without bookkeeping in between
	c.EachN("tight", c.Scale(60, 3000), 1, func(t *T) {
		a := counterAPIs()[t.I%apis]
		g := 2 + t.R.N(14)
		k := 3000
		out := make([][]uint64, g)
		bar := &sharp{n: int32(g)}
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := make([]uint64, k)
				bar.wait()
				for j := range l {
					l[j] = a.add(1)
				}
				out[i] = l
			}()
		}
		wg.Wait()
		was := make([]bool, g*k+1)
		for i := range out {
			for j, x := range out[i] {
				if x < 1 || x > uint64(g*k) || was[x] || j > 0 && x <= out[i][j-1] {
					t.Fatalf("%s: add %d of goroutine %d returned %d (out of range, out of order or for the second time)", a.name, j, i, x)
				}
				was[x] = true
			}
		}
		if a.get() != uint64(g*k) {
			t.Fatalf("%s: %d adds of one make %d", a.name, g*k, a.get())
		}
		t.CountN("adds checked", g*k)
		t.EvalN(g * k)
		t.Distinct(a.name, g, t.I)
	})
	// far more goroutines than processors
	c.EachN("hundreds of goroutines", c.Scale(24, 600), 1, func(t *T) {
		a := counterAPIs()[t.I%apis]
		g := 200 + t.R.N(400)
		recs := make([][]addRec, g)
		start := make(chan struct{})
		var tick uint64
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			i, r := i, gen.NewS(t.R.U64(), "many", uint64(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < 12; j++ {
					n := amount(r)
					s := atomic.AddUint64(&tick, 1)
					x := a.add(n)
					e := atomic.AddUint64(&tick, 1)
					recs[i] = append(recs[i], addRec{s, e, n, x})
					if r.P(1, 3) {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		var all []addRec
		for _, l := range recs {
			all = append(all, l...)
		}
		if e := orderOf(all, 0, a.get()); e != "" {
			t.Fatalf("%s with %d goroutines: %s", a.name, g, e)
		}
		t.CountN("adds checked", len(all))
		t.EvalN(len(all))
		t.Distinct("many", t.I, g)
	})
	// one collector takes differences while updates go on
	c.EachN("diff", c.Scale(120, 6000), 1, func(t *T) {
		var cnt, prev vlmonitoring.Counter
		var fl, fprev vlmonitoring.FlowCounter
		g := 1 + t.R.N(8)
		k := 200 + t.R.N(1500)
		var begun, done [3]uint64
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for i := 0; i < g; i++ {
			r := gen.NewS(t.R.U64(), "diff", uint64(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < k; j++ {
					n, w := amount(r), r.N(3)
					atomic.AddUint64(&begun[w], n)
					switch w {
					case 0:
						cnt.AddU64(n)
					case 1:
						fl.SentAddU64(n)
					case 2:
						fl.RecvAddU64(n)
					}
					atomic.AddUint64(&done[w], n)
				}
			}()
		}
		go func() { wg.Wait(); close(stop) }()
		var sum [3]uint64
		taken, nz := 0, 0
		last := false
		for !last {
			select {
			case <-stop:
				last = true
			default:
			}
			var lo, hi, d [3]uint64
			for w := range lo {
				lo[w] = atomic.LoadUint64(&done[w])
			}
			x := cnt.Diff(&prev)
			y := fl.Diff(&fprev)
			for w := range hi {
				hi[w] = atomic.LoadUint64(&begun[w])
			}
			d[0], d[1], d[2] = x.Get(), y.Sent.Get(), y.Recv.Get()
			for w := range d {
				s, carry := bits.Add64(sum[w], d[w], 0)
				if carry != 0 || s > hi[w] || d[w] > hi[w] {
					t.Fatalf("difference %d of counter %d after a sum of %d is negative or too large: only %d was added", d[w], w, sum[w], hi[w])
				}
				if s < lo[w] {
					t.Fatalf("differences of counter %d add up to %d, but %d had been added", w, s, lo[w])
				}
				sum[w] = s
				if d[w] > 0 {
					nz++
				}
			}
			if prev.Get() != sum[0] || fprev.Sent.Get() != sum[1] || fprev.Recv.Get() != sum[2] {
				t.Fatalf("previous values %d %d %d, differences so far add up to %v", prev.Get(), fprev.Sent.Get(), fprev.Recv.Get(), sum)
			}
			taken++
			if t.R.P(1, 20) {
				time.Sleep(time.Duration(t.R.N(60)) * time.Microsecond)
			}
		}
		if sum != done || cnt.Get() != done[0] || fl.Sent.Get() != done[1] || fl.Recv.Get() != done[2] {
			t.Fatalf("differences add up to %v, counters show %d %d %d, added %v", sum, cnt.Get(), fl.Sent.Get(), fl.Recv.Get(), done)
		}
		if x, y := cnt.Diff(&prev), fl.Diff(&fprev); x.Get() != 0 || y.Sent.Get() != 0 || y.Recv.Get() != 0 {
			t.Fatalf("difference without any update: %d %d %d", x.Get(), y.Sent.Get(), y.Recv.Get())
		}
		t.CountN("differences taken", taken)
		t.CountN("non-zero differences", nz)
		t.EvalN(taken)
		t.Distinct("diff", t.I, nz)
	})
	c.Each("loadstore", c.Scale(20000, 200000), func(t *T) {
		src, dst := t.R.U64()>>uint(t.R.N(64)), uint64(0)
		if t.R.Bool() {
			dst = t.R.U64() % (src + 1)
		}
		w := src - dst
		s, d := src, dst
		if x := vlmonitoring.LoadStore(&s, &d); x != w || d != src || s != src {
			t.Fatalf("LoadStore(%d,%d) = %d, left %d,%d", src, dst, x, s, d)
		}
		var a, b vlmonitoring.Counter
		a.AddU64(src)
		b.AddU64(dst)
		if x := a.Diff(&b); x.Get() != w || b.Get() != src || a.Get() != src {
			t.Fatalf("Diff(%d,%d) = %d", src, dst, x.Get())
		}
		t.Eval()
		t.Distinct(src, dst)
	})
	// no counter shows in another
	n := len(fieldsOf(new(vlmonitoring.Stats)))
	c.Each("separate", n*4, func(t *T) {
		s := new(vlmonitoring.Stats)
		fs := fieldsOf(s)
		if len(fs) < 30 {
			t.Fatalf("only %d statistics found", len(fs))
		}
		want := make([][2]uint64, len(fs))
		upd := func(i int, n uint64) {
			before := make([][2]uint64, len(fs))
			for j := range fs {
				before[j] = fs[j].get()
			}
			fs[i].add(n)
			want[i][0] += n
			if _, ok := fs[i].v.(*vlmonitoring.Max); ok {
				if want[i][0] > want[i][1] {
					want[i][1] = want[i][0]
				}
			} else {
				want[i][1] = want[i][0]
			}
			for j := range fs {
				if g := fs[j].get(); g != want[j] {
					t.Fatalf("after adding %d to %s: %s shows %v, want %v (before: %v)", n, fs[i].name, fs[j].name, g, want[j], before[j])
				}
			}
			t.Eval()
		}
		upd(t.I%len(fs), 1+uint64(t.R.N(1000)))
		for k := 0; k < 30; k++ {
			upd(t.R.N(len(fs)), amount(t.R))
		}
		// directions through the flow counters themselves
		fl := []*vlmonitoring.FlowCounter{&s.Bytes.FlowCounter, &s.Packets.Total, &s.Packets.Publish, &s.Packets.Puback, &s.Packets.Pubrec, &s.Packets.Pubrel, &s.Packets.Pubcomp, &s.Packets.Disconnect, &s.Packets.Auth}
		for _, f := range fl {
			a, b := f.Sent.Get(), f.Recv.Get()
			if x := f.SentAddU64(3); x != a+3 || f.Sent.Get() != a+3 || f.Recv.Get() != b {
				t.Fatalf("SentAddU64 on %d/%d leaves %d/%d and returns %d", a, b, f.Sent.Get(), f.Recv.Get(), x)
			}
			if x := f.RecvAddU64(5); x != b+5 || f.Sent.Get() != a+3 || f.Recv.Get() != b+5 {
				t.Fatalf("RecvAddU64 on %d/%d leaves %d/%d and returns %d", a+3, b, f.Sent.Get(), f.Recv.Get(), x)
			}
		}
		t.Count("statistics updated one at a time")
		t.Distinct("sep", t.I)
	})
	c.EachN("all at once", c.Scale(20, 600), 1, func(t *T) {
		s := new(vlmonitoring.Stats)
		fs := fieldsOf(s)
		g := 8
		sums := make([][]uint64, g)
		bar := &sharp{n: int32(g)}
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			i, r := i, gen.NewS(t.R.U64(), "all", uint64(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := make([]uint64, len(fs))
				bar.wait()
				for k := 0; k < 4000; k++ {
					j, n := r.N(len(fs)), amount(r)
					fs[j].add(n)
					l[j] += n
				}
				sums[i] = l
			}()
		}
		wg.Wait()
		for j := range fs {
			var w uint64
			for i := range sums {
				w += sums[i][j]
			}
			if x := fs[j].get(); x[0] != w || x[1] != w {
				t.Fatalf("%s shows %v, %d was added", fs[j].name, x, w)
			}
			t.Eval()
			t.Distinct(fs[j].name, w)
		}
		t.CountN("adds over all statistics", g*4000)
	})
}

func c22(c *C) {
	type mx = vlmonitoring.Max
	peak := func(m *mx) uint64 { return atomic.LoadUint64(&m.Max) }
	// one at a time: an exact model
	c.Each("sequential", c.Scale(20000, 400000), func(t *T) {
		m := new(mx)
		var cur, top uint64
		h := ""
		huge := t.R.P(1, 5) // up to what 64 bits hold
		for k := 1 + t.R.N(40); k > 0; k-- {
			n := amount(t.R)
			if huge && t.R.P(1, 3) {
				n = t.R.U64() >> uint(t.R.N(3))
			}
			if n > ^cur {
				n = ^cur
			}
			if t.R.Bool() {
				m.AddU64(n)
				cur += n
				h += fmt.Sprintf(" +%d", n)
			} else {
				if n > cur {
					n = cur
				}
				m.SubU64(n)
				cur -= n
				h += fmt.Sprintf(" -%d", n)
			}
			if cur > top {
				top = cur
			}
			l := m.Load()
			if m.Get() != cur || peak(m) != top || l.Get() != cur || l.Max != top || m.State.Load() != cur {
				t.Fatalf("after%s: value %d max %d, Load %d/%d; want %d/%d", h, m.Get(), peak(m), l.Get(), l.Max, cur, top)
			}
			t.Eval()
		}
		t.Count("sequential histories")
		t.Distinct(h)
		t.Sample("%s", head(h, 200))
	})
	// a subtraction may overtake the addition it belongs to: the value is what was added minus
	// what was subtracted whatever the order
	c.Each("any-order", c.Scale(5000, 100000), func(t *T) {
		m := new(mx)
		var add, sub []uint64
		var sa, ss uint64
		for k := 1 + t.R.N(6); k > 0; k-- {
			n := amount(t.R)
			add, sa = append(add, n), sa+n
			if n > 0 && t.R.P(2, 3) {
				n = 1 + t.R.U64()%n
				sub, ss = append(sub, n), ss+n
			}
		}
		h := ""
		if sa >= ss && sa>>63 == 0 {
			for len(add)+len(sub) > 0 {
				if k := t.R.N(len(add) + len(sub)); k < len(add) {
					m.AddU64(add[k])
					h += fmt.Sprintf(" +%d", add[k])
					add = append(add[:k], add[k+1:]...)
				} else {
					k -= len(add)
					m.SubU64(sub[k])
					h += fmt.Sprintf(" -%d", sub[k])
					sub = append(sub[:k], sub[k+1:]...)
				}
			}
			l := m.Load()
			if m.Get() != sa-ss || l.Get() != sa-ss || m.State.Load() != sa-ss {
				t.Fatalf("after%s: value %d, Load %d; want %d", h, m.Get(), l.Get(), sa-ss)
			}
			t.Eval()
			t.Count("histories in any order")
			t.Distinct(h)
		}
	})
	// rounds with quiescent points
	c.EachN("rounds", c.Scale(60, 6000), 1, func(t *T) {
		g := []int{2, 2, 3, 4, 8, 12}[t.I%6]
		m := new(mx)
		const rounds = 400
		bar := &sharp{n: int32(g)}
		var errs [16]string
		kind := make([]int, rounds)
		amt := make([][]uint64, rounds) // per goroutine
		for i := range kind {
			kind[i] = t.R.N(3)
			amt[i] = make([]uint64, g)
			for j := range amt[i] {
				amt[i][j] = 1 + uint64(t.R.N(5))
				if t.R.P(1, 10) {
					amt[i][j] = amount(t.R)
				}
			}
		}
		seen := new(uint64) // highest value any goroutine has read in this round
		var held uint64     // by the single goroutine that checks
		owns := make([]uint64, g)
		var top, slack uint64
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var og sync.WaitGroup
		obs := 0
		var oerr string
		og.Add(1)
		go func() {
			defer og.Done()
			var last uint64
			for {
				l := m.Load()
				obs++
				if l.Max < last {
					oerr = fmt.Sprintf("maximum went from %d down to %d", last, l.Max)
					return
				}
				last = l.Max
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		distinct := map[uint64]bool{}
		for i := 0; i < g; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				own := uint64(0)
				for k := 0; k < rounds; k++ {
					n := amt[k][i]
					bar.wait()
					switch kind[k] {
					case 0: // adds only: the value at the end is the highest of the round
						m.AddU64(n)
						own += n
					case 1: // subtractions only: the maximum stays
						if n > own {
							n = own
						}
						m.SubU64(n)
						own -= n
					case 2: // up and down
						m.AddU64(n)
						v := m.Get()
						for {
							s := atomic.LoadUint64(seen)
							if v <= s || atomic.CompareAndSwapUint64(seen, s, v) {
								break
							}
						}
						m.SubU64(n)
					}
					owns[i] = own
					bar.wait()
					if i == 0 { // quiescent
						var sum, left uint64
						for j := 0; j < g; j++ {
							sum += amt[k][j]
							left += owns[j]
						}
						cur := m.Get()
						p := peak(m)
						lo, hi := top, top
						switch kind[k] {
						case 0:
							held += sum
							if held > lo {
								lo = held
							}
							hi = lo
							if slack > hi {
								hi = slack
							}
							if cur != held && errs[i] == "" {
								errs[i] = fmt.Sprintf("round %d: value %d after adds that make %d", k, cur, held)
							}
						case 1:
							if cur != left && errs[i] == "" {
								errs[i] = fmt.Sprintf("round %d: value went from %d to %d, adds minus subtractions are %d", k, held, cur, left)
							}
							held = left
						case 2:
							if cur != held && errs[i] == "" {
								errs[i] = fmt.Sprintf("round %d: value %d, adds and subtractions make %d", k, cur, held)
							}
							// some goroutine's own add was on top of what was there
							most := uint64(0)
							for j := 0; j < g; j++ {
								if amt[k][j] > most {
									most = amt[k][j]
								}
							}
							for _, x := range []uint64{held + most, atomic.LoadUint64(seen)} {
								if x > lo {
									lo = x
								}
							}
							hi = lo
							if held+sum > hi {
								hi = held + sum
							}
						}
						if (p < lo || p > hi) && errs[i] == "" {
							errs[i] = fmt.Sprintf("round %d (kind %d) of %d goroutines: maximum %d, must be between %d and %d (value %d)", k, kind[k], g, p, lo, hi, cur)
						}
						top, slack = p, p
						atomic.StoreUint64(seen, 0)
						distinct[p] = true
					}
					bar.wait()
				}
			}()
		}
		wg.Wait()
		close(stop)
		og.Wait()
		if errs[0] != "" {
			t.Fatalf("%s", errs[0])
		}
		if oerr != "" {
			t.Fatalf("%s", oerr)
		}
		t.CountN("quiescent points", rounds)
		t.CountN("observations of the maximum", obs)
		t.EvalN(rounds + obs)
		for p := range distinct {
			t.Distinct(p, t.I)
		}
	})
	// far more goroutines than processors: all add, all take back a part, all add again
	c.EachN("hundreds of goroutines", c.Scale(24, 600), 1, func(t *T) {
		m := new(mx)
		g := 200 + t.R.N(400)
		var sum, top uint64
		held := make([]uint64, g)
		for phase := 0; phase < 4; phase++ {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < g; i++ {
				n := 1 + uint64(t.R.N(1000))
				if phase%2 == 1 {
					if n > held[i] {
						n = held[i]
					}
					held[i], sum = held[i]-n, sum-n
				} else {
					held[i], sum = held[i]+n, sum+n
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if phase%2 == 1 {
						m.SubU64(n)
					} else {
						m.AddU64(n)
					}
				}()
			}
			close(start)
			wg.Wait()
			if sum > top {
				top = sum
			} // adds only: the highest value is the one at the end
			if l := m.Load(); l.Get() != sum || l.Max != top {
				t.Fatalf("%d goroutines, phase %d: value %d, maximum %d; want %d, %d", g, phase, l.Get(), l.Max, sum, top)
			}
			t.Eval()
		}
		t.CountN("updates of hundreds of goroutines", 4*g)
		t.Distinct("many", t.I, g)
	})
	// everyone adds at once on a fresh object: the end is the peak
	c.EachN("races", c.Scale(42, 3000), 1, func(t *T) {
		g := 2 + t.I%7
		const objs = 1500
		ms := make([]mx, objs)
		n := make([]uint64, g)
		var sum uint64
		for i := range n {
			n[i] = 1 + uint64(t.R.N(9))
			sum += n[i]
		}
		bar := &sharp{n: int32(g)}
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range ms {
					bar.wait()
					ms[k].AddU64(n[i])
				}
				bar.wait()
			}()
		}
		wg.Wait()
		for k := range ms {
			l := ms[k].Load()
			if l.Get() != sum || l.Max != sum {
				t.Fatalf("%d concurrent adds making %d: value %d, maximum %d", g, sum, l.Get(), l.Max)
			}
		}
		t.CountN("races of fresh objects", objs)
		t.EvalN(objs)
		t.Distinct("race", t.I, sum)
	})
	// unsynchronised load, totals and bounds
	c.EachN("storm", c.Scale(40, 2000), 1, func(t *T) {
		m := new(mx)
		g := 2 + t.R.N(14)
		k := 1500
		var wg sync.WaitGroup
		bar := &sharp{n: int32(g)}
		left := make([]uint64, g)
		highs := make([]uint64, g)
		adds := make([]uint64, g)
		for i := 0; i < g; i++ {
			i, r := i, gen.NewS(t.R.U64(), "storm", uint64(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				var own, high, last, added uint64
				bar.wait()
				for j := 0; j < k; j++ {
					n := uint64(r.N(4))
					if r.Bool() {
						m.AddU64(n)
						own += n
						added += n
					} else if own >= n {
						m.SubU64(n)
						own -= n
					}
					if own > high {
						high = own // the value was at least what this goroutine holds
					}
					if v := m.Get(); v > high {
						high = v
					}
					if p := m.Load().Max; p < last {
						high = ^uint64(0)
					} else {
						last = p
					}
				}
				left[i], highs[i], adds[i] = own, high, added
			}()
		}
		wg.Wait()
		var cur, high, all uint64
		for i := range left {
			cur += left[i]
			all += adds[i]
			if highs[i] > high {
				high = highs[i]
			}
		}
		l := m.Load()
		if l.Get() != cur {
			t.Fatalf("value %d, adds minus subtractions are %d", l.Get(), cur)
		}
		if high == ^uint64(0) {
			t.Fatalf("the maximum was seen going down")
		}
		if l.Max < high || l.Max > all {
			t.Fatalf("maximum %d: a value of %d was reached, %d was added in all", l.Max, high, all)
		}
		t.CountN("operations of storms", g*k)
		t.EvalN(g * k)
		t.Distinct("storm", t.I, l.Max)
	})
}

func c33(c *C) {
	texts := []string{"", "a", "1.0.0", "v2", "\x00", "ü", "name with spaces", strings.Repeat("x", 5000), "1.0.0\n", "\xff\xfe"}
	c.EachN("descriptors", c.Scale(1500, 40000), 2, func(t *T) {
		pick := func() string {
			if t.R.Bool() {
				return texts[t.R.N(len(texts))]
			}
			return string(t.R.Bytes(t.R.N(30)))
		}
		v, n, d, ty := pick(), pick(), pick(), pick()
		if t.I == 0 {
			v, n, d, ty = "1.2.3", "name", "desc", "type"
		}
		x := &vlplugin.Descriptor{V: v, N: n, D: d, T: ty}
		var info vlplugin.Info = x
		ask := func() string {
			api, ver := info.Version()
			if api != vlplugin.APIVersion || ver != v {
				return fmt.Sprintf("Version() = %q, %q; declared %q for API %q", api, ver, v, vlplugin.APIVersion)
			}
			if g := info.Name(); g != n {
				return fmt.Sprintf("Name() = %q, declared %q", g, n)
			}
			if g := info.Desc(); g != d {
				return fmt.Sprintf("Desc() = %q, declared %q", g, d)
			}
			if g := info.Type(); g != ty {
				return fmt.Sprintf("Type() = %q, declared %q", g, ty)
			}
			return ""
		}
		const g = 6
		var res [g]string
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < g; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 10 && res[i] == ""; k++ {
					res[i] = ask()
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, e := range append(res[:], ask(), ask()) {
			if e != "" {
				t.Fatalf("%s", e)
			}
		}
		if x.V != v || x.N != n || x.D != d || x.T != ty {
			t.Fatalf("queries changed the descriptor")
		}
		// another descriptor of the same plugin type does not show here
		y := &vlplugin.Descriptor{V: "other", N: "other", D: "other", T: "other"}
		if _, w := y.Version(); w != "other" || y.Name() != "other" || y.Desc() != "other" || y.Type() != "other" {
			t.Fatalf("second descriptor: %q %q %q %q", w, y.Name(), y.Desc(), y.Type())
		}
		if e := ask(); e != "" {
			t.Fatalf("after another descriptor was used: %s", e)
		}
		// what is declared later counts from then on
		if t.R.Bool() {
			v, n, d, ty = pick(), pick(), pick(), pick()
			x.V, x.N, x.D, x.T = v, n, d, ty
			if e := ask(); e != "" {
				t.Fatalf("declared anew: %s", e)
			}
		}
		t.Count("descriptors")
		t.CountN("queries", 4*(g*10+3))
		t.EvalN(g*10 + 3)
		t.Distinct(v, n, d, ty)
		t.Sample("%q %q %q %q", head(v, 20), head(n, 20), head(d, 20), head(ty, 20))
	})
}
