package main

import (
	"bytes"
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C10"] = &Check{Run: c10, Rule: "exhaustive: 15 packet types x 3 versions x every identifier 0-300 and boundaries x 30 Go values; every identifier once and twice in every property section on the wire; non-trivial = distinct (type, version, id, value kind)", Note: "oracle: MQTT 5 table 2-4 in /verif/harness/ref"}
	checks["C11"] = &Check{Run: c11, Rule: "random operation histories on every MQTT 5 packet type against a map model; non-trivial = distinct histories", Note: "oracle: a map of last values, compared through four views after every step"}
}

type goVal struct {
	name string
	v    interface{}
	// what the value is: kind and the occurrences it stands for
	kind ref.Kind
	n    int // occurrences; -1: not a property value of any kind
	prop []ref.Prop
}

func goVals() []goVal {
	one := func(name string, v interface{}, k ref.Kind, p ref.Prop) goVal {
		return goVal{name, v, k, 1, []ref.Prop{p}}
	}
	none := func(name string, v interface{}) goVal { return goVal{name, v, 0, -1, nil} }
	str := "text"
	u := uint32(7)
	return []goVal{
		one("byte 0", byte(0), ref.KByte, ref.Prop{U: 0}),
		one("byte 1", byte(1), ref.KByte, ref.Prop{U: 1}),
		one("uint16 0", uint16(0), ref.KShort, ref.Prop{U: 0}),
		one("uint16 255", uint16(255), ref.KShort, ref.Prop{U: 255}),
		one("uint16 256", uint16(256), ref.KShort, ref.Prop{U: 256}),
		one("uint32 0", uint32(0), ref.KInt, ref.Prop{U: 0}),
		one("uint32 255", uint32(255), ref.KInt, ref.Prop{U: 255}),
		one("uint32 65535", uint32(65535), ref.KInt, ref.Prop{U: 65535}),
		one("uint32 65536", uint32(65536), ref.KInt, ref.Prop{U: 65536}),
		one("uint32 2^31-1", uint32(0x7fffffff), ref.KInt, ref.Prop{U: 0x7fffffff}),
		one("uint32 2^31", uint32(0x80000000), ref.KInt, ref.Prop{U: 0x80000000}),
		one("uint16 1", uint16(1), ref.KShort, ref.Prop{U: 1}),
		one("uint16 65535", uint16(65535), ref.KShort, ref.Prop{U: 65535}),
		one("uint32 1", uint32(1), ref.KInt, ref.Prop{U: 1}),
		one("uint32 127", uint32(127), ref.KInt, ref.Prop{U: 127}),
		one("uint32 128", uint32(128), ref.KInt, ref.Prop{U: 128}),
		one("uint32 16384", uint32(16384), ref.KInt, ref.Prop{U: 16384}),
		one("uint32 268435455", uint32(268435455), ref.KInt, ref.Prop{U: 268435455}),
		one("uint32 268435456", uint32(268435456), ref.KInt, ref.Prop{U: 268435456}),
		one("uint32 max", uint32(0xffffffff), ref.KInt, ref.Prop{U: 0xffffffff}),
		one("string", "text", ref.KString, ref.Prop{S: "text"}),
		one("string long", string(bytes.Repeat([]byte("x"), 200)), ref.KString, ref.Prop{S: string(bytes.Repeat([]byte("x"), 200))}),
		one("string empty", "", ref.KString, ref.Prop{}),
		one("string 7", "7", ref.KString, ref.Prop{S: "7"}),
		one("string 1234", "1234", ref.KString, ref.Prop{S: "1234"}),
		one("[]byte of 1", []byte{1}, ref.KBinary, ref.Prop{S: "\x01"}),
		one("[]byte of 2", []byte{1, 2}, ref.KBinary, ref.Prop{S: "\x01\x02"}),
		one("[]byte of 4", []byte{0, 0, 1, 2}, ref.KBinary, ref.Prop{S: "\x00\x00\x01\x02"}),
		one("[]byte of text", []byte("text"), ref.KBinary, ref.Prop{S: "text"}),
		one("[]byte", []byte{0, 1, 0xff}, ref.KBinary, ref.Prop{S: "\x00\x01\xff"}),
		one("pair", mqttp.StringPair{K: "k", V: "v"}, ref.KPair, ref.Prop{K: "k", S: "v"}),
		{"[]pair of 1", []mqttp.StringPair{{K: "k", V: "v"}}, ref.KPair, 1, []ref.Prop{{K: "k", S: "v"}}},
		{"[]pair of 2", []mqttp.StringPair{{K: "k", V: "v"}, {K: "k", V: ""}}, ref.KPair, 2, []ref.Prop{{K: "k", S: "v"}, {K: "k"}}},
		{"[]pair of 3", []mqttp.StringPair{{K: "", V: ""}, {K: "a", V: "b"}, {K: "", V: ""}}, ref.KPair, 3, []ref.Prop{{}, {K: "a", S: "b"}, {}}},
		{"[]uint32 of 2", []uint32{5, 300}, ref.KInt, 2, []ref.Prop{{U: 5}, {U: 300}}},
		{"[]uint32 of 3", []uint32{300, 300, 268435455}, ref.KInt, 3, []ref.Prop{{U: 300}, {U: 300}, {U: 268435455}}},
		{"[]uint32 with one too large", []uint32{5, 268435456}, ref.KInt, 2, []ref.Prop{{U: 5}, {U: 268435456}}},
		{"[]uint16 of 2", []uint16{1, 2}, ref.KShort, 2, []ref.Prop{{U: 1}, {U: 2}}},
		{"[]string of 2", []string{"a", "b"}, ref.KString, 2, []ref.Prop{{S: "a"}, {S: "b"}}},
		{"[][]byte of 2", [][]byte{{1}, {2}}, ref.KBinary, 2, []ref.Prop{{S: "\x01"}, {S: "\x02"}}},
		none("nil", nil), none("int", int(1)), none("int8", int8(1)), none("int16", int16(1)), none("int32", int32(1)), none("int64", int64(1)),
		none("uint", uint(1)), none("uint64", uint64(1)), none("bool", true), none("float", 1.5), none("*string", &str), none("*uint32", &u),
		none("[]int", []int{1, 2}), none("map", map[string]string{"k": "v"}), none("struct", struct{ K, V string }{"k", "v"}),
		none("[2]byte", [2]byte{1, 2}), none("rune slice", []rune("ab")), none("*pair", &mqttp.StringPair{K: "k", V: "v"}),
		none("string with NUL", "a\x00b"), none("NUL", "\x00"), none("pair with NUL in key", mqttp.StringPair{K: "k\x00", V: "v"}), none("pair with NUL in value", mqttp.StringPair{K: "k", V: "\x00v"}),
		none("[]pair of 2, the last with NUL", []mqttp.StringPair{{K: "k", V: "v"}, {K: "k", V: "v\x00"}}), none("[]string with NUL", []string{"a", "\x00"}),
		none("named id", mqttp.PropertyID(3)), none("chan", make(chan int)), none("error", fmt.Errorf("x")),
	}
}

// fits decides whether value g may be set as property id of packet type t.
// open: the specification leaves it to the library.
func (g goVal) fits(id uint32, t byte) (ok, open bool) {
	d, def := ref.PropTable[id]
	if !def || g.n < 0 {
		return false, false
	}
	if !ref.Allowed(id, t) {
		// the will message is represented by a PUBLISH
		if !(t == ref.PUBLISH && ref.Allowed(id, ref.WILL)) {
			return false, false
		}
	}
	k := d.Kind
	if k == ref.KVarInt {
		k = ref.KInt
		for _, p := range g.prop {
			if p.U > 268435455 {
				return false, false
			}
		}
	}
	isBytes := false
	if b, is := g.v.([]byte); is && d.Kind == ref.KByte && len(b) != 1 {
		isBytes = true
	}
	if isBytes || k != g.kind {
		return false, false
	}
	if g.n > 1 && !ref.MayRepeat(id, t) {
		return false, false
	}
	for _, p := range g.prop { // out of the range the specification gives to this property
		if p.U == 0 && (d.Kind == ref.KVarInt || id == 0x21 || id == 0x23 || id == 0x27) {
			return false, true
		}
	}
	if d.Kind == ref.KPair || d.Kind == ref.KVarInt && g.n > 1 || g.n == 1 {
		return true, false
	}
	return false, true
}

func wantProps(id uint32, g goVal) []ref.Prop {
	var r []ref.Prop
	for _, p := range g.prop {
		p.ID = id
		r = append(r, p)
	}
	return r
}

var someIDs = func() []uint32 {
	var r []uint32
	for i := uint32(0); i <= 300; i++ {
		r = append(r, i)
	}
	return append(r, 0x3fff, 0x4000, 0x1fffff, 0x200000, 268435455, 0x80000001, 0xffffffff)
}()

func c10(c *C) {
	vals := goVals()
	type job struct {
		v, t byte
	}
	var jobs []job
	for v := byte(3); v <= 5; v++ {
		for _, t := range gen.TypesFor(v) {
			jobs = append(jobs, job{v, t})
		}
	}
	mk := func(t *T, j job, i int, id uint32) (mqttp.IFace, *ref.Pkt) {
		p := conformingFor(t.R, j.v, j.t)
		if j.v == 5 && ref.HasProps(j.t) {
			p.Props = nil
			if i&1 == 1 && id != 0x26 {
				p.Props = []ref.Prop{{ID: 0x26, K: "u", S: "p"}}
			}
			if i&2 == 2 && ref.Allowed(id, j.t) { // a value to be replaced
				p.Props = append(p.Props, t.R.PropFor(id))
			}
		}
		return t.build(p), p
	}
	c.Each("set", len(jobs)*len(someIDs), func(t *T) {
		j, id := jobs[t.I%len(jobs)], someIDs[t.I/len(jobs)]
		for gi, g := range vals {
			reps := 1
			if j.v == 5 {
				reps = 4
			}
			if _, def := ref.PropTable[id]; !def && gi%5 != t.I%5 {
				continue
			}
			for rep := 0; rep < reps; rep++ {
				m, p := mk(t, j, rep, id)
				before := t.extract(m)
				err := m.PropertySet(mqttp.PropertyID(id), g.v)
				ok, open := g.fits(id, j.t)
				if j.v != 5 || !ref.HasProps(j.t) {
					ok, open = false, false
				}
				t.Eval()
				t.Distinct(int(j.v), int(j.t), id, g.name)
				where := fmt.Sprintf("property %#x set to %s on %s v%d", id, g.name, ref.TypeName[j.t], j.v)
				if err == nil && !ok && !open {
					t.Fatalf("%s: accepted", where)
				}
				if err != nil && ok {
					t.Fatalf("%s: refused: %v", where, err)
				}
				if err != nil {
					t.Count("refused")
					if d := ref.Diff(before, t.extract(m)); d != "" {
						t.Fatalf("%s: refused, but the packet changed: %s", where, d)
					}
					t.refAccept(p, t.encode(m))
					continue
				}
				t.Count("accepted")
				var ps []ref.Prop
				for _, x := range p.Props {
					if x.ID != id {
						ps = append(ps, x)
					}
				}
				q := p.Clone()
				q.Props = append(ps, wantProps(id, g)...)
				t.same(where, q, t.extract(m))
				t.accessorsOf(m, id, g)
				if id == 0x18 { // legal on a will only; its encoding as PUBLISH is up to the library
					continue
				}
				t.refAccept(q, t.encode(m))
			}
		}
	})
	c.Exhausted("PropertySet: 3 versions x all packet types x identifiers 0-300 x all listed Go value kinds")
	// the will
	c.Each("set-will", len(ref.PropIDs)*8, func(t *T) {
		id := ref.PropIDs[t.I/8]
		if !ref.Allowed(id, ref.WILL) {
			return
		}
		p := conformingFor(t.R, 5, ref.CONNECT)
		p.Will = &ref.Will{Topic: "w", Payload: "x", Props: []ref.Prop{t.R.PropFor(id)}}
		if ref.MayRepeat(id, ref.WILL) {
			p.Will.Props = append(p.Will.Props, t.R.PropFor(id))
		}
		m := t.build(p)
		t.refAccept(p, t.encode(m))
		t.Eval()
		t.Distinct("will", id, t.I)
	})
	// reading: whatever the value is, only the accessors of its type return it
	c.Each("read", c.Scale(6000, 100000), func(t *T) {
		ty := propTypes[t.I%len(propTypes)]
		p := conformingFor(t.R, 5, ty)
		p.Props = t.R.Props(ty)
		if ref.Decode(5, p.Encode(ref.Full)).Verdict != ref.Accept {
			return
		}
		var m mqttp.IFace
		if t.R.Bool() {
			m = t.build(p)
		} else {
			var err error
			if m, _, err = t.decode(5, p.Encode(ref.Full)); err != nil {
				t.Fatalf("conforming packet refused: %v", err)
			}
		}
		for _, id := range ref.PropIDs {
			n := 0
			for _, x := range p.Props {
				if x.ID == id {
					n++
				}
			}
			if n > 0 {
				t.accessorsOf(m, id, goVal{n: n})
				t.Count("values read")
				t.Eval()
			}
		}
		t.Distinct("read", p.Encode(ref.Full))
	})
	// tables
	c.Each("tables", len(someIDs), func(t *T) {
		id := someIDs[t.I]
		pid := mqttp.PropertyID(id)
		_, def := ref.PropTable[id]
		if pid.IsValid() != def {
			t.Fatalf("PropertyID(%#x).IsValid() = %v", id, pid.IsValid())
		}
		for ty := 0; ty < 256; ty++ {
			al := ty != 0 && ty <= ref.AUTH && ref.Allowed(id, byte(ty))
			rep := ty != 0 && ty <= ref.AUTH && ref.MayRepeat(id, byte(ty))
			if g := pid.IsValidPacketType(mqttp.Type(ty)); g != al && !(ty == ref.PUBLISH && ref.Allowed(id, ref.WILL)) {
				t.Fatalf("property %#x: IsValidPacketType(%d) = %v", id, ty, g)
			}
			if g := pid.DupAllowed(mqttp.Type(ty)); g != rep {
				t.Fatalf("property %#x: DupAllowed(%d) = %v", id, ty, g)
			}
			t.Eval()
		}
	})
	// wire: every identifier once and twice in every section
	sects := append(append([]byte(nil), propTypes...), ref.WILL)
	c.Each("wire", len(sects)*len(someIDs), func(t *T) {
		s, id := sects[t.I%len(sects)], someIDs[t.I/len(sects)]
		if id > 268435455 {
			return
		}
		d, def := ref.PropTable[id]
		var forms [][]byte
		if def {
			for k := 0; k < 3; k++ {
				forms = append(forms, ref.EncProp(t.R.PropFor(id)))
			}
		} else {
			for _, tail := range [][]byte{{}, {1}, {0, 1}, {0, 0, 0, 1}, {0, 1, 'a'}, {0, 1, 'a', 0, 1, 'b'}} {
				forms = append(forms, append(ref.VarInt(id), tail...))
			}
		}
		user := ref.EncProp(ref.Prop{ID: 0x26, K: "k", S: "v"})
		rs := ref.EncProp(t.R.PropFor(0x1F))
		for _, f := range forms {
			var shapes [][]byte
			add := func(x ...[]byte) { shapes = append(shapes, bytes.Join(x, nil)) }
			add(f)
			add(f, f)
			add(user, f)
			add(f, user)
			add(user, f, user, f)
			add(f, user, user)
			if def {
				add(f, ref.EncProp(t.R.PropFor(id)))
				add(f, user, ref.EncProp(t.R.PropFor(id)))
			}
			if ref.Allowed(0x1F, s) && id != 0x1F {
				add(rs, f)
				add(f, rs, f)
				add(f, rs)
			}
			for _, sh := range shapes {
				ty := s
				if s == ref.WILL {
					ty = ref.CONNECT
				}
				p := conformingFor(t.R, 5, ty)
				if s == ref.WILL {
					p.Will = &ref.Will{Topic: "w", Payload: "x"}
				}
				p.Props = nil
				b := withRawProps(p, s == ref.WILL, append(ref.VarInt(uint32(len(sh))), sh...))
				r := ref.Decode(5, b)
				if r.Known != "" {
					continue
				}
				m, _, err := t.decode(5, b)
				t.Eval()
				t.Distinct("wire", b)
				switch {
				case r.Verdict == ref.Reject && err == nil:
					t.Fatalf("property %#x (%s) in %s section: malformed (%s) but accepted: %x", id, d.Name, ref.TypeName[ty], r.Class, b)
				case r.Verdict == ref.Accept && err != nil:
					t.Fatalf("property %#x (%s) in %s section: refused: %v: %x", id, d.Name, ref.TypeName[ty], err, b)
				case err == nil:
					t.same("decoded properties", r.Pkt, t.extract(m))
					t.Count("wire accepted")
				default:
					t.Count("wire refused")
				}
			}
		}
	})
	c.Exhausted("wire: identifiers 0-300 alone, twice and among others in all 13 packet types and the will")
}

// accessorsOf: the value comes back through the accessor of its type and no other
func (t *T) accessorsOf(m mqttp.IFace, id uint32, g goVal) {
	x := m.PropertyGet(mqttp.PropertyID(id))
	if x == nil {
		t.Fatalf("property %#x: set but PropertyGet returns nil", id)
	}
	k := ref.PropTable[id].Kind
	want := map[ref.Kind]int{ref.KByte: mqttp.PropertyTypeByte, ref.KShort: mqttp.PropertyTypeShort, ref.KInt: mqttp.PropertyTypeInt, ref.KVarInt: mqttp.PropertyTypeVarInt,
		ref.KString: mqttp.PropertyTypeString, ref.KPair: mqttp.PropertyTypeStringPair, ref.KBinary: mqttp.PropertyTypeBinary}[k]
	if int(x.Type()) != want {
		t.Fatalf("property %#x: Type() is %d, want %d", id, x.Type(), want)
	}
	_, eb := x.AsByte()
	_, es := x.AsShort()
	_, ei := x.AsInt()
	_, et := x.AsString()
	_, en := x.AsBinary()
	_, ep := x.AsStringPair()
	_, el := x.AsStringPairs()
	_, em := x.AsInts()
	if k != ref.KInt && k != ref.KVarInt && em == nil {
		t.Fatalf("property %#x of another type is returned by AsInts", id)
	}
	if k == ref.KVarInt && em != nil {
		t.Fatalf("property %#x: AsInts: %v", id, em)
	}
	for _, a := range []struct {
		n   string
		k   ref.Kind
		err error
	}{{"AsByte", ref.KByte, eb}, {"AsShort", ref.KShort, es}, {"AsInt", ref.KInt, ei}, {"AsString", ref.KString, et}, {"AsBinary", ref.KBinary, en},
		{"AsStringPair", ref.KPair, ep}, {"AsStringPairs", ref.KPair, el}} {
		kk := k
		if kk == ref.KVarInt {
			kk = ref.KInt
		}
		if a.k != kk && a.err == nil {
			t.Fatalf("property %#x of another type is returned by %s", id, a.n)
		}
		if a.k == kk && g.n == 1 && k != ref.KPair && a.err != nil {
			t.Fatalf("property %#x: %s: %v", id, a.n, a.err)
		}
	}
	if k == ref.KPair && ep != nil && el != nil {
		t.Fatalf("property %#x is readable neither as pair nor as pairs", id)
	}
}

// conformingFor is a small legal packet without properties
func conformingFor(r *gen.R, v, ty byte) *ref.Pkt {
	p := r.Pkt(v, ty)
	p.Props = nil
	if p.Will != nil {
		p.Will.Props = nil
	}
	if ty == ref.PUBLISH {
		if p.Topic == "" || len(p.Topic) > 100 {
			p.Topic = "a/b"
		}
		if len(p.Payload) > 200 {
			p.Payload = p.Payload[:200]
		}
	}
	if len(p.Subs) > 3 {
		p.Subs = p.Subs[:3]
	}
	if len(p.Codes) > 3 {
		p.Codes = p.Codes[:3]
	}
	return p
}

func c11(c *C) {
	sects := propTypes
	longLists(c)
	longValues(c)
	c.Each("histories", c.Scale(60000, 1500000), func(t *T) {
		ty := sects[t.I%len(sects)]
		p := conformingFor(t.R, 5, ty)
		// three origins: built, decoded, switched from an older version
		var m mqttp.IFace
		switch t.R.N(4) {
		case 0:
			q := p.Clone()
			q.Props = t.R.Props(ty)
			b := q.Encode(ref.Full)
			if r := ref.Decode(5, b); r.Verdict == ref.Accept && r.Known == "" {
				var err error
				if m, _, err = t.decode(5, b); err != nil {
					t.Fatalf("conforming packet refused: %v", err)
				}
				p = q
			} else {
				m = t.build(p)
			}
		case 1:
			if ty != ref.AUTH && ty != ref.CONNECT {
				p = conformingFor(t.R, 4, ty)
				m = t.build(p)
				m.SetVersion(5)
				p.V = 5
				if ty == ref.UNSUBACK {
					p.Codes = nil
				}
				break
			}
			m = t.build(p)
		case 2:
			p.Props = t.R.Props(ty)
			m = t.build(p)
		default:
			m = t.build(p)
		}
		hist := ""
		verify := func() {
			t.same("after "+hist, p, t.extract(m))
			// values collected by an iteration are still the packet's after it
			var ids []uint32
			var got []mqttp.PropertyToType
			if err := m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
				ids, got = append(ids, uint32(id)), append(got, v)
			}); err != nil {
				t.Fatalf("after %s: PropertyForEach: %v", hist, err)
			}
			c := &ref.Pkt{V: 5, T: ty}
			for i, v := range got {
				l, err := adapt.ReadProp(ids[i], v)
				if err != nil {
					t.Fatalf("after %s: value of %#x, read after the iteration: %v", hist, ids[i], err)
				}
				c.Props = append(c.Props, l...)
			}
			if d := ref.Diff(&ref.Pkt{V: 5, T: ty, Props: p.Props}, c); d != "" {
				t.Fatalf("after %s: values read after the iteration: %s", hist, d)
			}
			n := -1
			if t.R.Bool() {
				var err error
				if n, err = m.Size(); err != nil {
					t.Fatalf("after %s: Size: %v", hist, err)
				}
			}
			// the size is that of exactly these properties
			b := t.encode(m)
			if n >= 0 && len(b) != n {
				t.Fatalf("after %s: Size %d, %d bytes", hist, n, len(b))
			}
			if ty == ref.PUBLISH && hasProp(p.Props, 0x18) {
				return
			}
			r := ref.Decode(5, b)
			if r.Verdict == ref.Reject {
				t.Fatalf("after %s: encoding is malformed: %s", hist, r.Class)
			}
			if d := ref.Diff(p, r.Pkt); d != "" {
				t.Fatalf("after %s: encoded properties: %s", hist, d)
			}
		}
		ids := []uint32{}
		for _, id := range ref.PropIDs {
			if ref.Allowed(id, ty) {
				ids = append(ids, id)
			}
		}
		vals := goVals()
		empty := map[uint32]bool{}
		// a value handed over belongs to the caller: the library does not write to it, and a
		// second packet given the same value keeps it whatever happens to the first
		type lent struct {
			id   uint32
			v    interface{}
			want string
		}
		var lents []lent
		twin := t.build(conformingFor(t.R, 5, ty))
		twinWant := map[uint32][]ref.Prop{}
		all := func(v interface{}) string { // up to the capacity
			switch x := v.(type) {
			case []byte:
				return fmt.Sprint(x[:cap(x)])
			case []uint32:
				return fmt.Sprint(x[:cap(x)])
			case []mqttp.StringPair:
				return fmt.Sprintf("%q", x[:cap(x)])
			}
			return ""
		}
		lend := func(id uint32, v interface{}, l []ref.Prop) {
			switch x := v.(type) {
			case []byte:
				v = append(make([]byte, 0, len(x)+3), x...)
			case []uint32:
				v = append(make([]uint32, 0, len(x)+3), x...)
			case []mqttp.StringPair:
				v = append(make([]mqttp.StringPair, 0, len(x)+3), x...)
			}
			lents = append(lents, lent{id, v, all(v)})
			if err := m.PropertySet(mqttp.PropertyID(id), v); err != nil {
				t.Fatalf("after %s: %v", hist, err)
			}
			if t.R.P(1, 3) {
				if err := twin.PropertySet(mqttp.PropertyID(id), v); err != nil {
					t.Fatalf("after %s: on a second packet: %v", hist, err)
				}
				twinWant[id] = l
			}
		}
		kept := func() {
			for _, x := range lents {
				if g := all(x.v); g != x.want {
					t.Failf("after %s: the value given for %#x was written to: %s -> %s", hist, x.id, head(x.want, 200), head(g, 200))
				}
			}
			q := t.extract(twin)
			for id, l := range twinWant {
				for i := range l {
					l[i].ID = id
				}
				var g []ref.Prop
				for _, y := range q.Props {
					if y.ID == id {
						g = append(g, y)
					}
				}
				if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", l) {
					t.Failf("after %s: property %#x of another packet, given the same value, is now %.200q, was %.200q", hist, id, g, l)
				}
				t.Count("values shared by two packets")
			}
			if len(twinWant) > 0 {
				t.encode(twin)
			}
		}
		for k := t.R.Steps(3, 22); k > 0; k-- {
			if t.R.P(1, 10) { // set from within a visit what the visit comes upon, or something else
				had := map[uint32]bool{}
				for _, x := range p.Props {
					had[x.ID] = true
				}
				old := p.Clone()
				left := 1 + t.R.N(3)
				n, other := 0, t.R.Bool()
				if err := m.PropertyForEach(func(id mqttp.PropertyID, g mqttp.PropertyToType) {
					if had[uint32(id)] {
						n++
					}
					if left == 0 || t.R.Bool() {
						return
					}
					left--
					x := uint32(id)
					if other {
						x = ids[t.R.N(len(ids))]
					}
					l := []ref.Prop{t.R.PropFor(x)}
					if err := m.PropertySet(mqttp.PropertyID(x), adapt.GoValue(t.R, l)); err != nil {
						t.Fatalf("after %s: set %#x within a visit: %v", hist, x, err)
					}
					p.Props = append(without(p.Props, x), l...)
					delete(empty, x)
					hist += fmt.Sprintf("set %#x within a visit; ", x)
					t.Count("set within a visit")
				}); err != nil || n != len(had) {
					t.Fatalf("after %s: visit of %d ids (%v) came upon %d of them, %v", hist, len(had), old.Props, n, err)
				}
				verify()
			}
			switch t.R.N(10) {
			case 0, 1, 2, 3, 4: // set or overwrite
				id := ids[t.R.N(len(ids))]
				l := []ref.Prop{t.R.PropFor(id)}
				if ref.MayRepeat(id, ty) {
					for t.R.Bool() && len(l) < 5 {
						l = append(l, t.R.PropFor(id))
					}
				}
				hist += fmt.Sprintf(" set(%#x x%d)", id, len(l))
				lend(id, adapt.GoValue(t.R, l), l)
				p.Props = append(without(p.Props, id), l...)
			case 5: // refused
				id := ref.PropIDs[t.R.N(len(ref.PropIDs))]
				if t.R.P(1, 4) {
					id = uint32(t.R.N(300))
				}
				g := vals[t.R.N(len(vals))]
				if ok, open := g.fits(id, ty); ok || open {
					continue
				}
				hist += fmt.Sprintf(" badset(%#x %s)", id, g.name)
				if m.PropertySet(mqttp.PropertyID(id), g.v) == nil {
					t.Fatalf("after %s: accepted", hist)
				}
			case 6:
				hist += " discard"
				m.PropertiesDiscard()
				p.Props = nil
				empty = map[uint32]bool{}
				for _, id := range ref.PropIDs {
					if m.PropertyGet(mqttp.PropertyID(id)) != nil {
						t.Fatalf("after %s: %#x is still there", hist, id)
					}
				}
				if err := m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
					t.Fatalf("after %s: %#x is still visited", hist, id)
				}); err != nil {
					t.Fatalf("after %s: %v", hist, err)
				}
			case 7:
				hist += " encode"
				verify()
				t.EvalN(1)
			case 8:
				id := ref.PropIDs[t.R.N(len(ref.PropIDs))]
				hist += fmt.Sprintf(" get(%#x)", id)
				g := m.PropertyGet(mqttp.PropertyID(id))
				if empty[id] && !hasProp(p.Props, id) {
					break // a list of none may or may not be there
				}
				if (g != nil) != hasProp(p.Props, id) {
					t.Fatalf("after %s: PropertyGet %v", hist, g)
				}
			case 9: // same value again, or nothing
				if id := ids[t.R.N(len(ids))]; ref.MayRepeat(id, ty) && t.R.Bool() {
					var none interface{} = []mqttp.StringPair{}
					if ref.PropTable[id].Kind != ref.KPair {
						none = []uint32{}
					}
					hist += fmt.Sprintf(" none(%#x)", id)
					if err := m.PropertySet(mqttp.PropertyID(id), none); err == nil {
						p.Props = without(p.Props, id)
						empty[id] = true
						t.Count("empty lists")
					}
					continue
				}
				if len(p.Props) == 0 {
					continue
				}
				id := p.Props[t.R.N(len(p.Props))].ID
				var l []ref.Prop
				for _, x := range p.Props {
					if x.ID == id {
						l = append(l, x)
					}
				}
				hist += fmt.Sprintf(" again(%#x)", id)
				if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, l)); err != nil {
					t.Fatalf("after %s: %v", hist, err)
				}
			}
			if t.R.P(1, 3) {
				verify()
			}
			t.Count("operations")
		}
		kept()
		verify()
		t.Eval()
		t.Distinct(hist, int(ty), p.Encode(ref.Full))
		t.tag(p)
		t.Sample("%s:%s", ref.TypeName[ty], hist)
	})
}

func hasProp(ps []ref.Prop, id uint32) bool {
	for _, p := range ps {
		if p.ID == id {
			return true
		}
	}
	return false
}

func without(ps []ref.Prop, id uint32) []ref.Prop {
	var r []ref.Prop
	for _, p := range ps {
		if p.ID != id {
			r = append(r, p)
		}
	}
	return r
}

// longLists: user properties and subscription identifiers by the ten thousand, set over each other
func longLists(c *C) {
	sizes := []int{255, 256, 257, 1000, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 262145}
	type job struct {
		n  int
		ty byte
	}
	var jobs []job
	for i, n := range sizes {
		for k, ty := range propTypes {
			if n < 5000 || c.Thorough || ty == ref.PUBLISH || k == i%len(propTypes) {
				jobs = append(jobs, job{n, ty})
			}
		}
	}
	c.EachN("long lists", len(jobs), 4, func(t *T) {
		n, ty := jobs[t.I].n, jobs[t.I].ty
		p := conformingFor(t.R, 5, ty)
		p.Props = nil
		m := t.build(p)
		check := func(what string) {
			t.same(what, p, t.extract(m))
			b := t.encode(m)
			r := ref.Decode(5, b)
			if r.Verdict == ref.Reject {
				t.Fatalf("%s v5 with %s: encoding is malformed: %s", ref.TypeName[ty], what, r.Class)
			}
			if d := ref.Diff(p, r.Pkt); d != "" {
				t.Fatalf("%s v5 with %s: encoded: %s", ref.TypeName[ty], what, d)
			}
			g, _, err := t.decode(5, b)
			if err != nil {
				t.Fatalf("%s v5 with %s: own encoding refused: %v", ref.TypeName[ty], what, err)
			}
			t.same(what+", received", p, t.extract(g))
			t.Eval()
		}
		set := func(id uint32, n int) {
			l := make([]ref.Prop, n)
			for i := range l {
				if id == 0x26 {
					l[i] = ref.Prop{ID: id, K: fmt.Sprintf("%x", i), S: fmt.Sprint(t.R.N(50))}
				} else {
					l[i] = ref.Prop{ID: id, U: t.R.VarInt()}
				}
			}
			if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, l)); err != nil {
				t.Fatalf("%s v5: PropertySet of %d values of %#x: %v", ref.TypeName[ty], n, id, err)
			}
			p.Props = append(without(p.Props, id), l...)
			check(fmt.Sprintf("%d values of %#x", n, id))
		}
		set(0x26, n)
		if ref.MayRepeat(0x0b, ty) {
			set(0x0b, n)
			set(0x0b, 1+t.R.N(n))
		}
		set(0x26, n-1)
		{ // a list with one value that is refused changes nothing
			l := make([]mqttp.StringPair, n)
			at := n - 1
			if t.R.Bool() {
				at = t.R.N(n)
			}
			l[at] = []mqttp.StringPair{{K: "\xff"}, {V: "\x00"}, {K: "k", V: "\xed\xa0\x80"}}[t.R.N(3)]
			if err := m.PropertySet(mqttp.PropertyUserProperty, l); err == nil {
				t.Fatalf("%s v5: %d user properties accepted, number %d is %q", ref.TypeName[ty], n, at, l[at])
			}
			if ref.MayRepeat(0x0b, ty) {
				l := make([]uint32, n)
				for i := range l {
					l[i] = 1
				}
				l[at] = 268435456 + t.R.U32()>>1
				if err := m.PropertySet(mqttp.PropertySubscriptionIdentifier, l); err == nil {
					t.Fatalf("%s v5: %d subscription identifiers accepted, number %d is %d", ref.TypeName[ty], n, at, l[at])
				}
			}
			check("a list that was refused")
		}
		if t.R.Bool() {
			m.PropertiesDiscard()
			p.Props = nil
			check("nothing")
		}
		set(0x26, 1+t.R.N(3))
		t.Count(fmt.Sprintf("lists of %d", n))
		t.Distinct("long", t.I)
	})
}

// longValues: every text and data property at the lengths where a width runs out, one over the other
func longValues(c *C) {
	sizes := []int{127, 128, 255, 256, 257, 4095, 4096, 16383, 16384, 32767, 32768, 65533, 65534, 65535}
	type job struct {
		ty byte
		id uint32
	}
	var jobs []job
	for _, ty := range propTypes {
		for _, id := range ref.PropIDs {
			if k := ref.PropTable[id].Kind; ref.Allowed(id, ty) && (k == ref.KString || k == ref.KBinary || k == ref.KPair) {
				jobs = append(jobs, job{ty, id})
			}
		}
	}
	c.EachN("long values", len(jobs), 8, func(t *T) {
		ty, id := jobs[t.I].ty, jobs[t.I].id
		kind := ref.PropTable[id].Kind
		p := conformingFor(t.R, 5, ty)
		p.Props = nil
		m := t.build(p)
		if id == 0x16 { // data goes with a method
			method := []ref.Prop{{ID: 0x15, S: "m"}}
			if err := m.PropertySet(0x15, adapt.GoValue(t.R, method)); err != nil {
				t.Fatalf("%s v5: PropertySet of an authentication method: %v", ref.TypeName[ty], err)
			}
			p.Props = method
		}
		fill := func(n int) string {
			b := make([]byte, n)
			for i := range b {
				if b[i] = 'a' + byte(i%26); kind == ref.KBinary {
					b[i] = byte(t.R.N(256))
				}
			}
			return string(b)
		}
		check := func(what string) {
			t.same(what, p, t.extract(m))
			b := t.encode(m)
			r := ref.Decode(5, b)
			if r.Verdict == ref.Reject {
				t.Fatalf("%s v5 with %s: encoding is malformed: %s", ref.TypeName[ty], what, r.Class)
			}
			if d := ref.Diff(p, r.Pkt); d != "" {
				t.Fatalf("%s v5 with %s: encoded: %s", ref.TypeName[ty], what, d)
			}
			g, _, err := t.decode(5, b)
			if err != nil {
				t.Fatalf("%s v5 with %s: own encoding refused: %v", ref.TypeName[ty], what, err)
			}
			t.same(what+", received", p, t.extract(g))
			t.Eval()
		}
		order := append([]int(nil), sizes...)
		for i := len(order) - 1; i > 0; i-- { // growing and shrinking
			k := t.R.N(i + 1)
			order[i], order[k] = order[k], order[i]
		}
		for _, n := range append(append([]int(nil), sizes...), order...) {
			l := []ref.Prop{{ID: id, S: fill(n)}}
			what := fmt.Sprintf("property %#x of %d bytes", id, n)
			if kind == ref.KPair {
				switch t.R.N(3) {
				case 0:
					l[0].K = fill(n)
				case 1:
					l[0].K, l[0].S = l[0].S, ""
				}
			}
			if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, l)); err != nil {
				t.Fatalf("%s v5: PropertySet of %s: %v", ref.TypeName[ty], what, err)
			}
			p.Props = append(without(p.Props, id), l...)
			check(what)
			if n < 65533 {
				continue
			}
			// what no longer fits changes nothing, or is not encoded
			o := []ref.Prop{{ID: id, S: fill([]int{65536, 65537, 131071, 1 << 20}[t.R.N(4)])}}
			if kind == ref.KPair && t.R.Bool() {
				o[0].K, o[0].S = o[0].S, "v"
			}
			if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, o)); err == nil {
				if b, err := mqttp.Encode(m); err == nil {
					t.Fatalf("%s v5: property %#x of %d bytes is encoded, %d bytes in all", ref.TypeName[ty], id, len(o[0].S)+len(o[0].K), len(b))
				}
				if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, l)); err != nil {
					t.Fatalf("%s v5: PropertySet of %s after one too long: %v", ref.TypeName[ty], what, err)
				}
			}
			check(what + " after one too long")
		}
		t.Count(fmt.Sprintf("%s %#x at every length", ref.TypeName[ty], id))
		t.Distinct("long value", t.I)
	})
}
