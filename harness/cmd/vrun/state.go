package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C15"] = &Check{Run: c15, Rule: "random PUBLISH packets (built, decoded, switched), cloned for each target version, then random setter histories on clone and original, partly on different goroutines; non-trivial = distinct (source content, target, histories)", Note: "oracle: the set of forwarded properties of MQTT 5, and one model per object"}
	checks["C16"] = &Check{Run: c16, Rule: "expiry times at random and boundary distances; each answer is bracketed by two clock readings; non-trivial = distinct distances", Note: "the clock of the test machine does not step"}
	checks["C17"] = &Check{Run: c17, Rule: "random setter histories on CONNECT of each version, refused calls included, compared with a model after every step; non-trivial = distinct histories", Note: "oracle: a record of the last accepted values"}
	checks["C18"] = &Check{Run: c18, Rule: "random setter histories on PUBLISH of each version, refused calls included, compared with a model after every step; non-trivial = distinct histories", Note: "oracle: a record of the last accepted values; PUBLISH with a will delay (a will object) is left open on the wire"}
	checks["C25"] = &Check{Run: c25, Rule: "exhaustive: all 65536 identifiers for every packet type that carries one and every version, set over each other, and from the wire; non-trivial = distinct (type, version, id)", Note: "identifier 0 is carried like any other"}
	checks["C26"] = &Check{Run: c26, Rule: "random packets built or decoded under one version, switched to another (and back), compared with the expected content of the new version; non-trivial = distinct (encoding, versions)", Note: "packets whose content does not exist in the new version (no client id, password without user name, topic alias only) are left open"}
	checks["C27"] = &Check{Run: c27, Rule: "topic and code lists of lengths up to 70000, with duplicates, in random chunks; callback errors at every position of short lists; non-trivial = distinct lists", Note: "oracle: the list as added"}
	checks["C28"] = &Check{Run: c28, Rule: "exhaustive: all 256 types x 3 versions through New, Decode and Valid; all levels x protocol names x versions Decode is called with; non-trivial = distinct combinations", Note: "versions other than 3, 4 and 5 given to New or Decode are left open"}
}

// pubModel is what a PUBLISH object should hold
type pubModel struct {
	p    *ref.Pkt // HasID: an identifier was set, whatever the QoS
	exp  time.Time
	hist string
	pool [][]byte // payloads used for more than one call
	turn int
}

func (p *pubModel) clone() *pubModel {
	return &pubModel{p: p.p.Clone(), exp: p.exp, hist: p.hist, pool: p.pool, turn: p.turn}
}

// legal to encode; open if the specification does not settle it
func (p *pubModel) legal() (ok, open bool) {
	if hasProp(p.p.Props, 0x18) {
		return false, true
	}
	if p.p.Topic == "" {
		alias := false
		for _, x := range p.p.Props {
			if x.ID == 0x23 && x.U > 0 {
				alias = true
			}
		}
		if p.p.V < 5 || !alias {
			return false, false
		}
	}
	if p.p.QoS == 0 && p.p.Dup || p.p.QoS > 0 && !p.p.HasID {
		return false, false
	}
	return true, false
}

// wire is the content the encoded packet should have
func (p *pubModel) wire() *ref.Pkt {
	w := p.p.Clone()
	if w.QoS == 0 {
		w.HasID, w.ID = false, 0
	}
	return w
}

// report lets the checking functions run on goroutines of their own
type report interface {
	Fatalf(format string, a ...interface{})
}

func checkPub(t report, m *mqttp.Publish, mod *pubModel, wire bool) {
	g, err := adapt.Extract(m)
	if err != nil {
		t.Fatalf("after%s: %v", mod.hist, err)
	}
	if d := ref.Diff(mod.p, g); d != "" {
		t.Fatalf("after%s: %s", mod.hist, d)
	}
	e, _, _ := m.Expired()
	if !e.Equal(mod.exp) {
		t.Fatalf("after%s: expiry time %v, want %v", mod.hist, e, mod.exp)
	}
	if !wire {
		return
	}
	ok, open := mod.legal()
	if open {
		return
	}
	var (
		b    []byte
		n, k int
	)
	if mod.turn++; mod.turn%2 == 1 {
		b, err = sizeless(m)
		n, k = len(b), len(b)
	} else {
		if n, err = m.Size(); err != nil {
			if ok {
				t.Fatalf("after%s: Size: %v", mod.hist, err)
			}
			return
		}
		b = make([]byte, n)
		k, err = m.Encode(b)
	}
	if !ok {
		if err == nil {
			t.Fatalf("after%s: a packet that is not legal is encoded as % x", mod.hist, head(string(b), 60))
		}
		return
	}
	if err != nil || k != n {
		t.Fatalf("after%s: Encode: %d of %d bytes, %v", mod.hist, k, n, err)
	}
	r := ref.Decode(mod.p.V, b)
	if r.Verdict == ref.Reject {
		t.Fatalf("after%s: encoding is malformed: %s", mod.hist, r.Class)
	}
	if d := ref.Diff(mod.wire(), r.Pkt); d != "" {
		t.Fatalf("after%s: encoded: %s", mod.hist, d)
	}
}

var badTopics = []string{"a/#", "+", "#", "a+b", "\xff", "a\xed\xa0\x80", "a\x00b", "\x1f", "x/\u0085", "\xc0\xaf"}
var badQoS = []byte{3, 4, 7, 127, 0x80, 0xff}

// pubStep makes one random call on m and the model
func pubStep(r *gen.R, m *mqttp.Publish, mod *pubModel) error {
	p := mod.p
	log := func(f string, a ...interface{}) { mod.hist += " " + fmt.Sprintf(f, a...) }
	payload := func() []byte {
		if len(mod.pool) > 0 && r.P(2, 3) {
			return mod.pool[r.N(len(mod.pool))]
		}
		switch r.N(6) {
		case 0:
			return nil
		case 1:
			return []byte{}
		}
		return r.Bytes(r.N(300))
	}
	topic := func() (string, bool) {
		switch r.N(8) {
		case 0, 1:
			return badTopics[r.N(len(badTopics))], false
		case 2:
			return "", p.V == 5
		}
		s := r.TopicName()
		if len(s) > 1000 {
			s = "short"
		}
		return s, true
	}
	switch r.N(13) {
	case 0, 1:
		s, ok := topic()
		q := byte(r.N(3))
		if r.P(1, 6) {
			q, ok = badQoS[r.N(len(badQoS))], false
		}
		pl, rt, dup := payload(), r.Bool(), r.Bool()
		log("Set(%q,%d,%d,%v,%v)", head(s, 20), len(pl), q, rt, dup)
		err := m.Set(s, pl, mqttp.QosType(q), rt, dup)
		if (err == nil) != ok {
			return fmt.Errorf("after%s: error %v", mod.hist, err)
		}
		if ok {
			p.Topic, p.Payload, p.QoS, p.Retain, p.Dup = s, string(pl), q, rt, dup
		}
	case 2:
		s, ok := topic()
		log("SetTopic(%q)", head(s, 20))
		err := m.SetTopic(s)
		if (err == nil) != ok {
			return fmt.Errorf("after%s: error %v", mod.hist, err)
		}
		if ok {
			p.Topic = s
		}
	case 3:
		pl := payload()
		log("SetPayload(%d)", len(pl))
		m.SetPayload(pl)
		p.Payload = string(pl)
	case 4, 5:
		q, ok := byte(r.N(3)), true
		if r.P(1, 4) {
			q, ok = badQoS[r.N(len(badQoS))], false
		}
		log("SetQoS(%d)", q)
		err := m.SetQoS(mqttp.QosType(q))
		if (err == nil) != ok {
			return fmt.Errorf("after%s: error %v", mod.hist, err)
		}
		if ok {
			p.QoS = q
		}
	case 6:
		p.Retain = r.Bool()
		log("SetRetain(%v)", p.Retain)
		m.SetRetain(p.Retain)
	case 7:
		p.Dup = r.Bool()
		log("SetDup(%v)", p.Dup)
		m.SetDup(p.Dup)
	case 8:
		p.HasID, p.ID = true, r.U16()
		log("SetPacketID(%d)", p.ID)
		m.SetPacketID(mqttp.IDType(p.ID))
	case 9, 10:
		var ids []uint32
		for _, id := range ref.PropIDs {
			if ref.Allowed(id, ref.PUBLISH) {
				ids = append(ids, id)
			}
		}
		id := ids[r.N(len(ids))]
		l := []ref.Prop{r.PropFor(id)}
		if ref.MayRepeat(id, ref.PUBLISH) {
			for r.Bool() && len(l) < 4 {
				l = append(l, r.PropFor(id))
			}
		}
		v := adapt.GoValue(r, l)
		ok := p.V == 5
		if r.P(1, 5) { // not a value of the property
			v, ok = struct{}{}, false
		}
		log("PropertySet(%#x x%d %T)", id, len(l), v)
		err := m.PropertySet(mqttp.PropertyID(id), v)
		if (err == nil) != ok {
			return fmt.Errorf("after%s: error %v", mod.hist, err)
		}
		if ok {
			p.Props = append(without(p.Props, id), l...)
		}
	case 11:
		if r.P(1, 3) {
			log("PropertiesDiscard")
			m.PropertiesDiscard()
			p.Props = nil
		}
	case 12:
		mod.exp = time.Now().Add(time.Duration(r.N(1000000)) * time.Second)
		if r.P(1, 3) {
			mod.exp = time.Time{}
		}
		log("SetExpireAt(%v)", mod.exp.Unix())
		m.SetExpireAt(mod.exp)
	}
	return nil
}

func pubFrom(t *T, v byte) (*mqttp.Publish, *pubModel) {
	p := t.R.Pkt(v, ref.PUBLISH)
	if len(p.Topic) > 2000 || len(p.Payload) > 20000 {
		p.Topic, p.Payload = "a/b", "x"
	}
	if t.R.P(1, 5) {
		return willFrom(t, v)
	}
	var m mqttp.IFace
	how := "built"
	if t.R.Bool() {
		how = "decoded"
		b := p.Encode(ref.Full)
		var err error
		if m, _, err = t.decode(v, b); err != nil {
			t.Fatalf("a conforming PUBLISH is refused: %v (% x)", err, head(string(b), 80))
		}
	} else {
		m = t.build(p)
	}
	return m.(*mqttp.Publish), &pubModel{p: p, hist: " " + how}
}

// willFrom: the will of a CONNECT is what a server publishes when the client is gone
func willFrom(t *T, v byte) (*mqttp.Publish, *pubModel) {
	p := t.R.Pkt(v, ref.CONNECT)
	for p.Will == nil || p.Will.Payload == "" {
		p = t.R.Pkt(v, ref.CONNECT)
	}
	var m mqttp.IFace
	how := "will of a CONNECT"
	b := p.Encode(ref.Full)
	var err error
	if m, _, err = t.decode(v, b); err != nil {
		t.Fatalf("a conforming CONNECT is refused: %v (% x)", err, head(string(b), 80))
	}
	w := m.(*mqttp.Connect).Will()
	if w == nil {
		t.Fatalf("%s: none", how)
	}
	t.Count("wills of CONNECT packets as PUBLISH")
	return w, &pubModel{p: &ref.Pkt{V: v, T: ref.PUBLISH, Topic: p.Will.Topic, Payload: p.Will.Payload, QoS: p.Will.QoS, Retain: p.Will.Retain, Props: p.Will.Props}, hist: " " + how}
}

// cloned is what a clone of mod for version v must hold
func (p *pubModel) cloned(v byte) *pubModel {
	c := p.clone()
	c.hist += " Clone"
	c.p.Dup, c.p.HasID, c.p.ID = false, false, 0
	var keep []ref.Prop
	if p.p.V == 5 && v == 5 {
		for _, x := range c.p.Props {
			switch x.ID {
			case 0x01, 0x08, 0x09, 0x26, 0x03:
				keep = append(keep, x)
			}
		}
	}
	c.p.Props = keep
	return c
}

func c15(c *C) {
	c.bigCopies(1 << 24)
	crowdClones(c)
	c15apart(c)
	c.Each("clone", c.Scale(20000, 1000000), func(t *T) {
		v := byte(3 + t.R.N(3))
		if t.R.Bool() {
			v = 5
		}
		m, mod := pubFrom(t, v)
		if t.R.Bool() {
			mod.exp = time.Now().Add(time.Duration(t.R.N(100000)-50000) * time.Second)
			m.SetExpireAt(mod.exp)
			mod.hist += " SetExpireAt"
		}
		if v == 5 && t.R.Bool() { // all properties a PUBLISH object can hold
			for _, id := range ref.PropIDs {
				if ref.Allowed(id, ref.PUBLISH) || ref.Allowed(id, ref.WILL) {
					if t.R.Bool() {
						l := []ref.Prop{t.R.PropFor(id)}
						if ref.MayRepeat(id, ref.PUBLISH) && t.R.Bool() {
							l = append(l, t.R.PropFor(id), l[0])
						}
						if err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, l)); err != nil {
							t.Fatalf("after%s: PropertySet(%#x): %v", mod.hist, id, err)
						}
						mod.p.Props = append(without(mod.p.Props, id), l...)
					}
				}
			}
		}
		checkPub(t, m, mod, false)
		var objs = []*mqttp.Publish{m}
		var mods = []*pubModel{mod}
		for k := 1 + t.R.N(3); k > 0; k-- {
			i := t.R.N(len(objs)) // clones are cloned, too
			w := byte(3 + t.R.N(3))
			if t.R.Bool() {
				w = 5
			}
			src, smod := objs[i], mods[i]
			q, err := src.Clone(pv(w))
			want := smod.cloned(w)
			if want.p.Topic == "" && want.p.V < 5 {
				// nothing to forward
				continue
			}
			if err != nil || q == nil {
				t.Fatalf("after%s: Clone(%d): %v", smod.hist, w, err)
			}
			checkPub(t, q, want, true)
			checkPub(t, src, smod, true)
			objs, mods = append(objs, q), append(mods, want)
			t.Count(fmt.Sprintf("clone v%d->v%d", smod.p.V, w))
			t.Eval()
			t.Distinct(smod.p.Encode(ref.Full), int(w))
		}
		// later setter calls stay on their object
		for k := t.R.Steps(0, 25); k > 0; k-- {
			i := t.R.N(len(objs))
			if err := pubStep(t.R, objs[i], mods[i]); err != nil {
				t.Fatalf("%v", err)
			}
			for j := range objs {
				checkPub(t, objs[j], mods[j], t.R.P(1, 4))
			}
			t.Count("setter calls after cloning")
		}
		t.Sample("%s", head(mods[len(mods)-1].hist, 300))
	})
	// the same on goroutines of their own under the race detector
	c.Each("concurrent", c.Scale(1500, 60000), func(t *T) {
		m, mod := pubFrom(t, 5)
		var objs = []*mqttp.Publish{m}
		var mods = []*pubModel{mod}
		for k := 0; k < 3; k++ {
			q, err := m.Clone(5)
			if err != nil {
				t.Fatalf("Clone: %v", err)
			}
			objs, mods = append(objs, q), append(mods, mod.cloned(5))
		}
		var wg sync.WaitGroup
		errs := make([]error, len(objs))
		for i := range objs {
			i, r := i, gen.NewS(t.R.U64(), "c15", uint64(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = onOwn(func(f report) {
					for k := 0; k < 12; k++ {
						if err := pubStep(r, objs[i], mods[i]); err != nil {
							f.Fatalf("%v", err)
						}
						checkPub(f, objs[i], mods[i], true)
					}
				})
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				t.Failf("%v", e)
			}
		}
		t.CountN("setter calls on separate goroutines", 12*len(objs))
		t.EvalN(len(objs))
	})
}

// onOwn runs checks outside the worker and hands back the failure
func onOwn(f func(report)) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(ownErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	f(ownReport{})
	return nil
}

type ownErr struct{ error }
type ownReport struct{}

func (ownReport) Fatalf(f string, a ...interface{}) { panic(ownErr{fmt.Errorf(f, a...)}) }

func c16(c *C) {
	check := func(t *T, m *mqttp.Publish, exp time.Time) {
		t0 := time.Now()
		e, left, gone := m.Expired()
		t1 := time.Now()
		t.Eval()
		if exp.IsZero() {
			if gone || left != 0 || !e.IsZero() {
				t.Fatalf("no expiry time, but Expired reports %v %d %v", e, left, gone)
			}
			t.Count("never expires")
			return
		}
		if !e.Equal(exp) {
			t.Fatalf("expiry time %v, reported %v", exp, e)
		}
		lo, hi := int64(exp.Sub(t1)/time.Second), int64(exp.Sub(t0)/time.Second)
		if exp.Before(t1) {
			lo = 0
		}
		if exp.Before(t0) {
			hi = 0
		}
		if int64(left) < lo || int64(left) > hi {
			t.Fatalf("between %v and %v before expiry the remaining time is %d s", exp.Sub(t1), exp.Sub(t0), left)
		}
		if !exp.After(t0) && !gone {
			t.Fatalf("passed %v ago, not reported expired", t0.Sub(exp))
		}
		if exp.Sub(t1) >= time.Second && gone {
			t.Fatalf("reported expired %v early", exp.Sub(t1))
		}
		switch {
		case !exp.After(t0):
			t.Count("passed")
		case exp.Sub(t1) >= time.Second:
			t.Count("whole seconds left")
		default:
			t.Count("less than a second left")
		}
	}
	var ds []time.Duration
	for _, s := range []int64{0, 1, 2, 3, 5, 59, 60, 61, 127, 128, 255, 256, 3600, 32767, 32768, 65535, 65536, 86400, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1} {
		for _, o := range []time.Duration{0, -time.Nanosecond, time.Nanosecond, -time.Microsecond, time.Microsecond, -time.Millisecond, time.Millisecond, 5 * time.Millisecond, 300 * time.Millisecond, -300 * time.Millisecond, 500 * time.Millisecond, 999 * time.Millisecond} {
			d := time.Duration(s)*time.Second + o
			if d > (1<<32-1)*time.Second {
				continue
			}
			ds = append(ds, d, -d)
		}
	}
	rep := c.Scale(60, 3000)
	c.Each("boundaries", len(ds)*rep, func(t *T) {
		d := ds[t.I%len(ds)]
		exp := time.Now().Add(d)
		switch (t.I / len(ds)) % 5 {
		case 1:
			exp = exp.Round(0) // wall clock only
		case 2:
			exp = exp.UTC()
		case 3:
			exp = exp.In(time.FixedZone("x", 14*3600))
		case 4:
			exp = time.Unix(exp.Unix(), int64(exp.Nanosecond()))
		}
		m := mqttp.NewPublish(pv(byte(3 + t.I%3)))
		m.SetExpireAt(exp)
		check(t, m, exp)
		q := m
		if t.R.Bool() {
			_ = m.SetTopic("t")
			var err error
			if q, err = m.Clone(pv(byte(3 + t.R.N(3)))); err != nil {
				t.Fatalf("Clone: %v", err)
			}
		}
		check(t, q, exp)
		t.Distinct(int(d), (t.I/len(ds))%5)
	})
	// instants of any age; several which a count of seconds, milli- or nanoseconds kept in a narrower number mistakes
	base := []time.Time{{}, time.Unix(0, 0), time.Unix(-1<<31, 0), time.Unix(1<<30, 0), time.Unix(-1<<32, 0), time.Unix(0, -1<<63), time.Unix(0, -1<<63).Add(-1<<63 + 1),
		time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(1, 1, 2, 0, 0, 0, 0, time.UTC), time.Date(0, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(-9999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(622, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1582, 10, 15, 0, 0, 0, 0, time.UTC), time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1677, 9, 21, 0, 12, 43, 0, time.UTC), time.Date(1678, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1733, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1980, 1, 6, 0, 0, 0, 0, time.UTC), time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)}
	for y := -3000; y < 2026; y += 13 {
		base = append(base, time.Date(y, 5, 6, 7, 8, 9, 10, time.UTC))
	}
	c.Each("any age", len(base)*c.Scale(40, 400), func(t *T) {
		exp := base[t.I%len(base)]
		if !exp.IsZero() || t.R.Bool() {
			exp = exp.Add([]time.Duration{0, 0, 1, -1, time.Second, -time.Second, 999999999, time.Hour}[t.R.N(8)])
		}
		switch t.R.N(4) {
		case 1:
			exp = exp.Local()
		case 2:
			exp = exp.In(time.FixedZone("x", (t.R.N(27)-12)*3600))
		case 3:
			exp = exp.UTC()
		}
		m := mqttp.NewPublish(pv(byte(3 + t.R.N(3))))
		m.SetExpireAt(exp)
		check(t, m, exp)
		_ = m.SetTopic("t")
		q, err := m.Clone(pv(byte(3 + t.R.N(3))))
		if err != nil {
			t.Fatalf("Clone: %v", err)
		}
		check(t, q, exp)
		t.Distinct(int(exp.Unix()), exp.Nanosecond())
	})
	c.Each("random", c.Scale(300000, 10000000), func(t *T) {
		m := mqttp.NewPublish(pv(byte(3 + t.R.N(3))))
		check(t, m, time.Time{})
		d := time.Duration(t.R.U64() % uint64((1<<32-1)*time.Second))
		d >>= uint(t.R.N(40))
		if t.R.P(1, 3) {
			d = -d
		}
		exp := time.Now().Add(d)
		m.SetExpireAt(exp)
		check(t, m, exp)
		if t.R.Bool() {
			d2 := time.Duration(t.R.U64() % uint64(100*time.Second))
			exp = time.Now().Add(d2)
			m.SetExpireAt(exp)
			check(t, m, exp)
		}
		if t.R.P(1, 4) {
			m.SetExpireAt(time.Time{})
			check(t, m, time.Time{})
		}
		t.Distinct(int(d))
		if t.I < 5 {
			t.Sample("expiry %v from now", d)
		}
	})
	// watched across the moment of expiry
	c.EachN("watched", 48, 48, func(t *T) {
		d := time.Duration(t.I*50)*time.Millisecond + time.Duration(t.R.N(1000))*time.Microsecond
		m := mqttp.NewPublish(5)
		exp := time.Now().Add(d)
		m.SetExpireAt(exp)
		last, was := uint32(0xffffffff), false
		for end := exp.Add(120 * time.Millisecond); time.Now().Before(end); {
			check(t, m, exp)
			_, left, gone := m.Expired()
			if left > last || was && !gone {
				t.Fatalf("remaining time went from %d to %d, expired from %v to %v", last, left, was, gone)
			}
			last, was = left, gone
			time.Sleep(time.Duration(t.R.N(4000)) * time.Microsecond)
		}
		if !was {
			t.Fatalf("never reported expired")
		}
		t.Count("watched across expiry")
	})
}

func c17(c *C) {
	willChanged(c)
	c.Each("histories", c.Scale(60000, 1500000), func(t *T) {
		v := byte(3 + t.I%3)
		r := t.R
		m := mqttp.NewConnect(pv(v))
		p := &ref.Pkt{V: v, T: ref.CONNECT}
		hist := "new"
		if r.P(1, 4) {
			p = r.Pkt(v, ref.CONNECT)
			b := p.Encode(ref.Full)
			x, _, err := t.decode(v, b)
			if err != nil {
				t.Fatalf("conforming CONNECT refused: %v", err)
			}
			m, hist = x.(*mqttp.Connect), "decoded"
			p = adapt.Norm(p)
		}
		log := func(f string, a ...interface{}) { hist += " " + fmt.Sprintf(f, a...) }
		verify := func(wire bool) {
			g, err := adapt.Extract(m)
			if err != nil {
				t.Fatalf("after %s: %v", hist, err)
			}
			if d := ref.Diff(p, g); d != "" {
				t.Fatalf("after %s: %s", hist, d)
			}
			if !wire {
				return
			}
			if p.ClientID == "" && (v == 3 || v == 4 && !p.Clean) {
				t.Count("not a legal packet")
				if _, err := sizeless(m); err == nil && !p.Clean {
					t.Fatalf("after %s: a CONNECT without client id and clean session is encoded", hist)
				}
				return
			}
			b := t.encode(m)
			t.Count("encoded")
			q := ref.Decode(v, b)
			if q.Verdict == ref.Reject {
				t.Fatalf("after %s: encoding is malformed: %s", hist, q.Class)
			}
			if d := ref.Diff(p, q.Pkt); d != "" {
				t.Fatalf("after %s: encoded: %s", hist, d)
			}
			x, _, err := t.decode(v, b)
			if err != nil {
				t.Fatalf("after %s: own encoding refused: %v", hist, err)
			}
			t.same("after "+hist+": decoded again", p, t.extract(x))
		}
		expect := func(err error, ok bool) {
			if (err == nil) != ok {
				t.Fatalf("after %s: error %v", hist, err)
			}
			if ok {
				t.Count("accepted calls")
			} else {
				t.Count("refused calls")
			}
		}
		badText := []string{"\xff", "a\xed\xa0\x80", "u\x00", "\x1b[", "x\u0085", "\xc0\x80", "\xf4\x90\x80\x80"}
		// now and then text of a length where something may end
		long := func(s string) string {
			if !r.P(1, 60) {
				return s
			}
			n := []int{127, 128, 255, 256, 1023, 4096, 16384, 32767, 32768, 65534, 65535}[r.N(11)]
			t.Count("long texts and data")
			return strings.Repeat([]string{"x", "l", "ab", "3c"}[r.N(4)], n)[:n]
		}
		// the will object that was set last and its content
		var (
			lastWill  *mqttp.Publish
			lastWillP ref.Will
		)
		for k := r.Steps(2, 18); k > 0; k-- {
			switch r.N(12) {
			case 11:
				if lastWill == nil {
					continue
				}
				// changed and set again, whether it is still the will or not
				w := lastWillP
				w.QoS, w.Retain = byte(r.N(3)), r.Bool()
				if r.Bool() {
					w.Topic = "again/" + r.Text(r.N(10))
				}
				if r.Bool() {
					w.Payload = string(r.Bytes(1 + r.N(300)))
				}
				log("SetWill(same object: %q,%d,q%d,%v)", w.Topic, len(w.Payload), w.QoS, w.Retain)
				if err := lastWill.Set(w.Topic, []byte(w.Payload), mqttp.QosType(w.QoS), w.Retain, r.Bool()); err != nil {
					t.Fatalf("after %s: Set: %v", hist, err)
				}
				expect(m.SetWill(lastWill), true)
				lastWillP, p.Will = w, &w
			case 0:
				p.Clean = r.Bool()
				log("SetClean(%v)", p.Clean)
				m.SetClean(p.Clean)
			case 1:
				p.KeepAlive = r.U16()
				log("SetKeepAlive(%d)", p.KeepAlive)
				m.SetKeepAlive(p.KeepAlive)
			case 2, 3:
				id := long(r.ClientID())
				if r.P(1, 3) {
					id = []string{"a#", "é", "a\x00", "a\n", "\xff", "id+", "x$y", "a\tb", "ok\x7f", "a*"}[r.N(10)]
				}
				log("SetClientID(%q)", head(id, 20))
				ok := ref.ValidClientID(id)
				expect(m.SetClientID([]byte(id)), ok)
				if ok {
					p.ClientID = id
				}
			case 4, 5, 6:
				var u, w []byte
				ok := true
				switch r.N(4) {
				case 0:
				case 1:
					u, ok = []byte(badText[r.N(len(badText))]), false
				default:
					u = []byte(long(r.Text(1 + r.N(30))))
				}
				if r.Bool() {
					w = []byte(long(string(r.Bytes(1 + r.N(30)))))
				}
				if r.P(1, 10) {
					w = []byte{}
				}
				if len(u) == 0 && len(w) > 0 && v < 5 {
					ok = false
				}
				log("SetCredentials(%q,%d)", head(string(u), 20), len(w))
				expect(m.SetCredentials(u, w), ok)
				if ok {
					p.User, p.Pass, p.HasUser, p.HasPass = string(u), string(w), len(u) > 0, len(w) > 0
				}
			case 7, 8:
				w := &ref.Will{Topic: r.TopicName(), Payload: string(r.Bytes(1 + r.N(50))), QoS: byte(r.N(3)), Retain: r.Bool()}
				if len(w.Topic) > 500 {
					w.Topic = "w"
				}
				w.Topic, w.Payload = long(w.Topic), long(w.Payload)
				if v == 5 {
					w.Props = r.Props(ref.WILL)
				}
				bad := r.N(8)
				switch bad {
				case 0:
					log("SetWill(nil)")
					expect(m.SetWill(nil), false)
					continue
				case 1:
					x := mqttp.NewPublish(pv(v))
					x.SetPayload([]byte("p"))
					log("SetWill(no topic)")
					expect(m.SetWill(x), false)
					continue
				case 2:
					w.Payload = ""
				}
				x, err := adapt.NewWill(r, v, w)
				if err != nil {
					t.Fatalf("making a will: %v", err)
				}
				log("SetWill(%q,%d,q%d,%v)", head(w.Topic, 20), len(w.Payload), w.QoS, w.Retain)
				expect(m.SetWill(x), bad != 2)
				if bad != 2 {
					p.Will = w
					lastWill, lastWillP = x, *w
				}
			case 9:
				log("ResetWill")
				m.ResetWill()
				p.Will = nil
			case 10:
				if r.P(1, 4) {
					log("PropertiesDiscard")
					m.PropertiesDiscard()
					p.Props = nil
					break
				}
				ids := []uint32{}
				for _, id := range ref.PropIDs {
					if ref.Allowed(id, ref.CONNECT) {
						ids = append(ids, id)
					}
				}
				id, ok := ids[r.N(len(ids))], v == 5
				l := []ref.Prop{r.PropFor(id)}
				if id == 0x26 && r.Bool() {
					l = append(l, r.PropFor(id), r.PropFor(id))
				}
				val := adapt.GoValue(r, l)
				if r.P(1, 5) {
					val, ok = 1.5, false
				}
				log("PropertySet(%#x x%d %T)", id, len(l), val)
				expect(m.PropertySet(mqttp.PropertyID(id), val), ok)
				if ok {
					p.Props = append(without(p.Props, id), l...)
				}
			}
			t.Count("calls")
			verify(r.P(1, 3))
		}
		verify(true)
		t.Eval()
		t.Distinct(hist, int(v))
		t.Sample("v%d %s", v, head(hist, 300))
	})
}

// willChanged alters the will message after it was given to the CONNECT: the encoded
// packet must stay well-formed, and every other part of it must stay what it was.
func willChanged(c *C) {
	c.Each("will-object-changed", c.Scale(20000, 400000), func(t *T) {
		r := t.R
		v := byte(3 + t.I%3)
		p := r.Pkt(v, ref.CONNECT)
		p.Will = &ref.Will{Topic: "will/one", Payload: "p1", QoS: byte(r.N(3)), Retain: r.Bool()}
		w, err := adapt.NewWill(r, v, p.Will)
		if err != nil {
			t.Fatalf("making a will: %v", err)
		}
		q := p.Clone()
		q.Will = nil
		m := t.build(q).(*mqttp.Connect)
		if err := m.SetWill(w); err != nil {
			t.Fatalf("SetWill: %v", err)
		}
		b := t.encode(m)
		x := ref.Decode(v, b)
		if x.Verdict == ref.Reject {
			t.Fatalf("encoding is malformed: %s", x.Class)
		}
		if d := ref.Diff(p, x.Pkt); d != "" {
			t.Fatalf("encoded: %s", d)
		}
		hist := ""
		now := *p.Will
		for k := 1 + r.N(4); k > 0; k-- {
			switch r.N(7) {
			case 0:
				now.QoS = byte(r.N(3))
				hist += fmt.Sprintf(" SetQoS(%d)", now.QoS)
				err = w.SetQoS(mqttp.QosType(now.QoS))
			case 1:
				now.Retain = !now.Retain
				hist += fmt.Sprintf(" SetRetain(%v)", now.Retain)
				w.SetRetain(now.Retain)
			case 2:
				now.Topic = "will/two/" + r.Text(r.N(20))
				hist += " SetTopic"
				err = w.SetTopic(now.Topic)
			case 3:
				now.Payload = string(r.Bytes(1 + r.N(40)))
				hist += " SetPayload"
				w.SetPayload([]byte(now.Payload))
			case 4:
				hist += " SetDup"
				w.SetDup(r.Bool())
			case 5:
				hist += " SetPacketID"
				w.SetPacketID(mqttp.IDType(r.U16()))
			case 6:
				hist += " SetExpireAt"
				w.SetExpireAt(time.Now())
			}
			if err != nil {
				t.Fatalf("will%s: %v", hist, err)
			}
		}
		b = t.encode(m)
		x = ref.Decode(v, b)
		if x.Verdict == ref.Reject {
			t.Fatalf("will object after SetWill:%s: encoding is malformed: %s (% x)", hist, x.Class, head(string(b), 60))
		}
		g := x.Pkt.Will
		if g == nil {
			t.Fatalf("will object after SetWill:%s: the will is gone", hist)
		}
		if g.Topic != p.Will.Topic && g.Topic != now.Topic || g.Payload != p.Will.Payload && g.Payload != now.Payload ||
			g.QoS != p.Will.QoS && g.QoS != now.QoS || g.Retain != p.Will.Retain && g.Retain != now.Retain {
			t.Fatalf("will object after SetWill:%s: encoded will %+v is neither %+v nor %+v", hist, *g, *p.Will, now)
		}
		y := x.Pkt.Clone()
		y.Will = p.Will
		if d := ref.Diff(p, y); d != "" {
			t.Fatalf("will object after SetWill:%s: %s", hist, d)
		}
		t.Eval()
		t.Distinct(b)
	})
}

func c18(c *C) {
	c.Each("histories", c.Scale(100000, 2500000), func(t *T) {
		v := byte(3 + t.I%3)
		var m *mqttp.Publish
		var mod *pubModel
		switch t.R.N(4) {
		case 0:
			m, mod = pubFrom(t, v)
		case 1:
			src, smod := pubFrom(t, v)
			q, err := src.Clone(pv(v))
			if err != nil {
				t.Fatalf("Clone: %v", err)
			}
			m, mod = q, smod.cloned(v)
		default:
			m = mqttp.NewPublish(pv(v))
			mod = &pubModel{p: &ref.Pkt{V: v, T: ref.PUBLISH}, hist: " new"}
		}
		checkPub(t, m, mod, true)
		for k := t.R.Steps(2, 18); k > 0; k-- {
			if err := pubStep(t.R, m, mod); err != nil {
				t.Fatalf("%v", err)
			}
			wire := t.R.Bool()
			checkPub(t, m, mod, wire)
			t.Count("calls")
			if wire {
				ok, open := mod.legal()
				if open {
					t.Count("encode left open")
				} else if ok {
					t.Count("encoded")
				} else {
					t.Count("encode refused")
				}
			}
		}
		checkPub(t, m, mod, true)
		t.Eval()
		t.Distinct(mod.hist, int(v))
		t.Sample("v%d%s", v, head(mod.hist, 300))
	})
	sizes := []int{1 << 16, 1<<16 + 1, 1 << 20, 1<<21 - 1, 1<<21 + 7, 1<<22 + 1, 1<<23 + 1, 1<<24 + 1, 1<<25 + 1, 1<<26 + 1}
	if bits.UintSize == 32 || c.Smoke {
		sizes = sizes[:7]
	}
	c.EachN("big payloads", len(sizes)*6, 2, func(t *T) {
		n := sizes[t.I/6]
		v := byte(3 + t.I%3)
		m := mqttp.NewPublish(pv(v))
		mod := &pubModel{p: &ref.Pkt{V: v, T: ref.PUBLISH}, hist: fmt.Sprintf(" new, payloads of %d bytes", n), pool: [][]byte{[]byte(noise(t.R, n)), []byte(noise(t.R, n-t.R.N(9)))}}
		_ = m.SetTopic("big")
		mod.p.Topic = "big"
		m.SetPayload(mod.pool[0])
		mod.p.Payload = string(mod.pool[0])
		checkPub(t, m, mod, true)
		for k := t.R.Steps(2, 6); k > 0; k-- {
			if err := pubStep(t.R, m, mod); err != nil {
				t.Fatalf("%v", err)
			}
			checkPub(t, m, mod, t.R.Bool())
		}
		checkPub(t, m, mod, true)
		t.Eval()
		t.Count("histories with payloads of up to 64 MiB")
		t.Distinct("big", mod.hist, int(v))
	})
	// one payload handed to several packets, as in a fan-out
	c.Each("shared payloads", c.Scale(30000, 800000), func(t *T) {
		var pool [][]byte
		var want []string
		for k := 1 + t.R.N(4); k > 0; k-- {
			b := t.R.Bytes(t.R.N(60))
			if t.R.Bool() { // with room behind it
				b = append(make([]byte, 0, len(b)+t.R.N(80)), b...)
			}
			pool = append(pool, b)
			want = append(want, string(b[:cap(b)]))
		}
		var ms []*mqttp.Publish
		var mods []*pubModel
		for k := 2 + t.R.N(3); k > 0; k-- {
			v := byte(3 + t.R.N(3))
			m := mqttp.NewPublish(pv(v))
			mod := &pubModel{p: &ref.Pkt{V: v, T: ref.PUBLISH}, hist: " new", pool: pool}
			if j := len(ms) - 1; j >= 0 && mods[j].p.Topic != "" && t.R.Bool() {
				q, err := ms[j].Clone(pv(mods[j].p.V))
				if err != nil {
					t.Fatalf("Clone: %v", err)
				}
				m, mod = q, mods[j].cloned(mods[j].p.V)
			} else {
				b := pool[t.R.N(len(pool))]
				m.SetPayload(b)
				mod.p.Payload = string(b)
				if t.R.Bool() {
					_ = m.SetTopic("a")
					mod.p.Topic = "a"
				}
			}
			ms, mods = append(ms, m), append(mods, mod)
		}
		for k := 4 + t.R.N(12); k > 0; k-- {
			j := t.R.N(len(ms))
			if err := pubStep(t.R, ms[j], mods[j]); err != nil {
				t.Fatalf("%v", err)
			}
			for i := range pool {
				if string(pool[i][:cap(pool[i])]) != want[i] {
					t.Fatalf("after%s: the caller's payload was written to", mods[j].hist)
				}
			}
			for i := range ms {
				checkPub(t, ms[i], mods[i], i == j)
			}
			t.Count("calls with other packets holding the same payload")
		}
		t.Eval()
		for i := range mods {
			t.Distinct("shared", mods[i].hist)
		}
	})
	// every combination of what makes a packet legal
	c.Each("legality", 3*2*2*3*2*2*3, func(t *T) {
		i := t.I
		v := byte(3 + i%3)
		i /= 3
		topic := i%2 == 1
		i /= 2
		alias := i%2 == 1
		i /= 2
		q := byte(i % 3)
		i /= 3
		dup := i%2 == 1
		i /= 2
		retain := i%2 == 1
		i /= 2
		id := i % 3
		m := mqttp.NewPublish(pv(v))
		mod := &pubModel{p: &ref.Pkt{V: v, T: ref.PUBLISH, QoS: q, Dup: dup, Retain: retain, Payload: "p"}, hist: " legality table"}
		if topic {
			mod.p.Topic = "a/b"
			_ = m.SetTopic("a/b")
		}
		if alias && v == 5 {
			mod.p.Props = []ref.Prop{{ID: 0x23, U: 9}}
			_ = m.PropertySet(mqttp.PropertyTopicAlias, uint16(9))
		}
		_ = m.SetQoS(mqttp.QosType(q))
		m.SetDup(dup)
		m.SetRetain(retain)
		m.SetPayload([]byte("p"))
		if id > 0 {
			mod.p.HasID, mod.p.ID = true, uint16(id-1)
			m.SetPacketID(mqttp.IDType(id - 1))
		}
		checkPub(t, m, mod, true)
		t.Eval()
		t.Distinct(t.I)
	})
	c.Exhausted("versions x topic x alias x QoS x dup x retain x packet identifier unset/0/1")
}

// idTypes are the packet types that carry an identifier
var idTypes = []byte{ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBSCRIBE, ref.SUBACK, ref.UNSUBSCRIBE, ref.UNSUBACK}

func c25(c *C) {
	crowdIDs(c)
	const chunk = 2048
	per := 65536 / chunk
	n := len(idTypes) * 3 * per
	c.Each("all identifiers", n, func(t *T) {
		ty := idTypes[t.I%len(idTypes)]
		v := byte(3 + t.I/len(idTypes)%3)
		lo := t.I / len(idTypes) / 3 * chunk
		p := conformingFor(t.R, v, ty)
		if ty == ref.PUBLISH {
			p.QoS = byte(1 + t.R.N(2))
			p.HasID = true
		}
		if t.R.Bool() && v == 5 {
			p.Props = []ref.Prop{{ID: 0x26, K: "k", S: "v"}}
		}
		q := p.Clone()
		q.HasID = false
		fresh := adapt.Fresh(t.R, pv(v), ty)
		if err := adapt.Fill(t.R, fresh, q); err != nil {
			t.Fatalf("filling %s v%d: %v", ref.TypeName[ty], v, err)
		}
		if x, err := fresh.ID(); err != mqttp.ErrNotSet || x != 0 {
			t.Fatalf("%s v%d without identifier: ID() = %d, %v", ref.TypeName[ty], v, x, err)
		}
		var (
			sz  int
			err error
		)
		if t.R.Bool() {
			sz, err = fresh.Size()
		} else {
			sz = 70000
		}
		if err == nil {
			_, err = fresh.Encode(make([]byte, sz+16))
		}
		if err == nil {
			t.Fatalf("%s v%d encodes without an identifier", ref.TypeName[ty], v)
		}
		t.Eval()
		m := fresh
		for k := 0; k < chunk; k++ {
			id := uint16(lo + k)
			if k%2 == 1 {
				id = uint16(lo + chunk - k) // not only ascending
			}
			m.(adapt.Setter).SetPacketID(mqttp.IDType(id))
			if x, err := m.ID(); err != nil || uint16(x) != id {
				t.Fatalf("%s v%d: set %d, ID() = %d, %v", ref.TypeName[ty], v, id, x, err)
			}
			b := t.encode(m)
			p.ID = id
			r := ref.Decode(v, b)
			if r.Verdict == ref.Reject || !r.Pkt.HasID || r.Pkt.ID != id {
				t.Fatalf("%s v%d: identifier %d encoded as %+v (%s)", ref.TypeName[ty], v, id, r.Pkt, r.Class)
			}
			d, _, err := t.decode(v, b)
			if err != nil {
				t.Fatalf("%s v%d with identifier %d: %v", ref.TypeName[ty], v, id, err)
			}
			if x, err := d.ID(); err != nil || uint16(x) != id {
				t.Fatalf("%s v%d: identifier %d decoded as %d, %v", ref.TypeName[ty], v, id, x, err)
			}
			if k%64 == 0 {
				m = d // go on with the decoded packet
			}
			t.Eval()
			t.Distinct(int(ty), int(v), int(id))
		}
		t.CountN(fmt.Sprintf("%s.v%d identifiers", ref.TypeName[ty], v), chunk)
	})
	c.Exhausted("9 packet types x 3 versions x 65536 identifiers")
	c.Each("missing", 3*len(idTypes)*40, func(t *T) {
		ty := idTypes[t.I%len(idTypes)]
		v := byte(3 + t.I/len(idTypes)%3)
		p := conformingFor(t.R, v, ty)
		if ty == ref.PUBLISH {
			p.QoS, p.HasID, p.ID = byte(1+t.R.N(2)), true, t.R.U16()
			p.Payload = ""
		}
		b := p.Encode(ref.NoProps)
		// the packet ends before or within the identifier
		body := p.Body(ref.NoProps)
		at := 0
		if ty == ref.PUBLISH {
			at = 2 + len(p.Topic)
		}
		for _, cut := range []int{at, at + 1} {
			f := ref.Frame(b[0], body[:cut])
			m, _, err := t.decode(v, f)
			if err == nil || m != nil {
				t.Fatalf("%s v%d without a whole identifier accepted: % x", ref.TypeName[ty], v, f)
			}
			t.Eval()
			t.Distinct(f, int(v))
			t.Count("identifier missing or cut")
		}
	})
	c.Each("qos0", c.Scale(3000, 60000), func(t *T) {
		v := byte(3 + t.I%3)
		p := t.R.Pkt(v, ref.PUBLISH)
		p.QoS, p.Dup, p.HasID, p.ID = 0, false, false, 0
		p.Props = without(p.Props, 0x26)
		if len(p.Props) > 1 {
			p.Props = p.Props[:1]
		}
		if p.Topic == "" {
			p.Topic = "t"
		}
		m := t.build(p)
		a := t.encode(m)
		m.(adapt.Setter).SetPacketID(mqttp.IDType(t.R.U16()))
		b := t.encode(m)
		if !bytes.Equal(a, b) {
			t.Fatalf("QoS 0 PUBLISH v%d changes with an identifier: % x / % x", v, a, b)
		}
		t.refAccept(p, b)
		d, _, err := t.decode(v, b)
		if err != nil {
			t.Fatalf("decode: %v", err)
		}
		if x, err := d.ID(); err != mqttp.ErrNotSet || x != 0 {
			t.Fatalf("decoded QoS 0 PUBLISH has ID() = %d, %v", x, err)
		}
		// raised and lowered again
		pub := m.(*mqttp.Publish)
		_ = pub.SetQoS(1)
		if c := t.encode(m); len(c) <= len(a) {
			t.Fatalf("QoS 1 PUBLISH carries no identifier: % x", c)
		}
		_ = pub.SetQoS(0)
		if c := t.encode(m); !bytes.Equal(c, a) {
			t.Fatalf("QoS 0 PUBLISH differs after having been QoS 1")
		}
		t.Eval()
		t.Distinct(a)
		t.Count("QoS 0 publishes")
	})
	c.Each("without", 3*15, func(t *T) {
		v, ty := byte(3+t.I%3), byte(1+t.I/3)
		if ref.HasID(ty) || ty == ref.AUTH && v < 5 {
			return
		}
		p := conformingFor(t.R, v, ty)
		if ty == ref.PUBLISH {
			p.QoS, p.Dup, p.HasID, p.ID = 0, false, false, 0
		}
		m := t.build(p)
		b := t.encode(m)
		d, _, err := t.decode(v, b)
		if err != nil {
			t.Fatalf("decode: %v", err)
		}
		for _, x := range []mqttp.IFace{m, d} {
			if id, err := x.ID(); err != mqttp.ErrNotSet || id != 0 {
				t.Fatalf("%s v%d: ID() = %d, %v", ref.TypeName[ty], v, id, err)
			}
		}
		t.Eval()
		t.Distinct(int(ty), int(v))
	})
}

// converted is the content of p as a packet of version v, "" or why it has none
func converted(p *ref.Pkt, v byte) (*ref.Pkt, string) {
	q := p.Clone()
	q.V = v
	if p.V == v {
		return q, ""
	}
	if v < 5 {
		q.Props = nil
		if q.Will != nil {
			q.Will.Props = nil
		}
	}
	switch p.T {
	case ref.AUTH:
		return nil, "AUTH exists in MQTT 5 only"
	case ref.CONNECT:
		if q.ClientID == "" && (v == 3 || v == 4 && !q.Clean) {
			return nil, "client id required"
		}
		if q.HasPass && !q.HasUser && v < 5 {
			return nil, "password without user name"
		}
	case ref.PUBLISH:
		if q.Topic == "" && v < 5 {
			return nil, "topic alias only"
		}
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT:
		if v < 5 {
			q.Code = 0
		}
	case ref.SUBSCRIBE:
		if v < 5 {
			for i := range q.Subs {
				q.Subs[i].Ops &= 3
			}
		}
	case ref.SUBACK:
		if v < 5 {
			for i, c := range q.Codes {
				if c > 2 {
					q.Codes[i] = 0x80
				}
			}
		}
	case ref.UNSUBACK:
		if v < 5 {
			q.Codes = nil
		}
	}
	return q, ""
}

func c26(c *C) {
	one := func(t *T, p *ref.Pkt) {
		var m mqttp.IFace
		how := "built"
		if t.R.Bool() {
			how = "decoded"
			b := p.Encode(ref.Form(t.R.N(3)))
			r := ref.Decode(p.V, b)
			if r.Verdict != ref.Accept || r.Known != "" {
				return
			}
			var err error
			if m, _, err = t.decode(p.V, b); err != nil {
				t.Fatalf("conforming packet refused: %v", err)
			}
		} else {
			m = t.build(p)
		}
		if t.R.P(1, 4) { // in use before it is switched
			_ = t.encode(m)
		}
		if p.V < 5 && t.R.P(1, 300) { // to and fro before that
			for k := 260 + t.R.N(100); k > 0; k-- {
				m.SetVersion(pv(byte(3 + k%2)))
				if k%16 == 0 {
					_ = t.encode(m)
				}
			}
			t.Count("switched hundreds of times")
		}
		v := byte(3 + t.R.N(3))
		m.SetVersion(pv(v))
		if byte(m.Version()) != v {
			t.Fatalf("Version after SetVersion(%d) is %d", v, m.Version())
		}
		q, open := converted(p, v)
		if open != "" {
			t.Count("left open: " + open)
			return
		}
		path := fmt.Sprintf("%s as v%d, switched to v%d", how, p.V, v)
		verify := func(what string) {
			b := t.encode(m)
			if q.T == ref.CONNACK {
				// whatever the code means in the new version
				w := q.Encode(ref.Full)
				_, h := ref.ReadVarInt(w[1:])
				if len(b) != len(w) || !bytes.Equal(b[:h+3], w[:h+3]) || len(q.Props) == 0 && !bytes.Equal(b, w) {
					t.Fatalf("CONNACK %s: want % x, got % x", path+what, w, b)
				}
				if r := ref.Decode(v, b); r.Verdict != ref.Reject {
					if d := ref.Diff(q, r.Pkt); d != "" {
						t.Fatalf("CONNACK %s: %s", path+what, d)
					}
				}
				return
			}
			r := ref.Decode(v, b)
			if r.Verdict == ref.Reject {
				t.Fatalf("%s %s: not a well-formed packet: %s (% x)", ref.TypeName[q.T], path+what, r.Class, head(string(b), 100))
			}
			if d := ref.Diff(q, r.Pkt); d != "" {
				t.Fatalf("%s %s: %s", ref.TypeName[q.T], path+what, d)
			}
			if r.Verdict == ref.Accept && r.Known == "" {
				d, _, err := t.decode(v, b)
				if err != nil {
					t.Fatalf("%s %s: own encoding refused: %v", ref.TypeName[q.T], path+what, err)
				}
				t.same(path+what+", decoded again", q, t.extract(d))
			}
		}
		verify("")
		t.Count(fmt.Sprintf("%s v%d->v%d", ref.TypeName[p.T], p.V, v))
		t.Eval()
		t.Distinct(p.Encode(ref.Full), int(v), how)
		if t.I < 6 {
			t.Sample("%s %s", ref.TypeName[p.T], path)
		}
		// properties are for MQTT 5
		if ref.HasProps(p.T) {
			ids := []uint32{}
			for _, id := range ref.PropIDs {
				if ref.Allowed(id, p.T) {
					ids = append(ids, id)
				}
			}
			for k := 1 + t.R.N(4); k > 0; k-- {
				id := ids[t.R.N(len(ids))]
				l := []ref.Prop{t.R.PropFor(id)}
				err := m.PropertySet(mqttp.PropertyID(id), adapt.GoValue(t.R, l))
				if (err == nil) != (v == 5) {
					t.Fatalf("%s %s: PropertySet(%#x): %v", ref.TypeName[p.T], path, id, err)
				}
				if err == nil {
					q.Props = append(without(q.Props, id), l...)
				}
			}
			if v == 5 {
				verify(", properties set")
				if p.T != ref.CONNACK {
					t.same(path+", accessors", q, t.extract(m))
				} else if ps, err := adapt.Props(m); err != nil || ref.Diff(&ref.Pkt{Props: q.Props}, &ref.Pkt{Props: ps}) != "" {
					t.Fatalf("CONNACK %s: properties read back %v, %v", path, ps, err)
				}
				t.Count("properties set after switching")
			}
		}
		// and on to another version
		if w := byte(3 + t.R.N(3)); v < 5 || w < 5 {
			if p.V == 5 && v < 5 && w == 5 {
				// what a packet remembers of its MQTT 5 content is open
				m.SetVersion(pv(w))
				b := t.encode(m)
				x := ref.Decode(w, b)
				if x.Verdict == ref.Reject {
					t.Fatalf("%s %s and back to v5: not a well-formed packet: %s (% x)", ref.TypeName[q.T], path, x.Class, head(string(b), 100))
				}
				bare := func(p *ref.Pkt) *ref.Pkt {
					p = p.Clone()
					p.V, p.Props, p.Code, p.Codes = 5, nil, 0, nil
					if p.Will != nil {
						p.Will.Props = nil
					}
					for i := range p.Subs {
						p.Subs[i].Ops &= 3
					}
					return p
				}
				if d := ref.Diff(bare(q), bare(x.Pkt)); d != "" {
					t.Fatalf("%s %s and back to v5: %s", ref.TypeName[q.T], path, d)
				}
				if len(x.Pkt.Codes) != len(p.Codes) {
					t.Fatalf("%s %s and back to v5: %d codes, want %d", ref.TypeName[q.T], path, len(x.Pkt.Codes), len(p.Codes))
				}
				t.Count("back to v5")
				return
			}
			q2, open := converted(q, w)
			if open != "" {
				return
			}
			q = q2
			m.SetVersion(pv(w))
			v = w
			verify(fmt.Sprintf(", then to v%d", w))
			t.Count("switched twice")
		}
	}
	c.big(1<<21, one)
	c.Each("switch", c.Scale(90000, 2500000), func(t *T) { one(t, t.R.Any()) })
}

func c27(c *C) {
	sizes := []int{1, 2, 3, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000}
	types := []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE, ref.SUBACK, ref.UNSUBACK}
	mk := func(t *T, v, ty byte, n int) *ref.Pkt {
		p := &ref.Pkt{V: v, T: ty, HasID: true, ID: t.R.U16() | 1}
		if v == 5 && t.R.Bool() {
			p.Props = []ref.Prop{{ID: 0x26, K: "k", S: "v"}}
		}
		base := t.R.FilterStr()
		if len(base) > 200 {
			base = "f"
		}
		cs := ref.CodesOf(v, ty)
		for i := 0; i < n; i++ {
			switch ty {
			case ref.SUBACK, ref.UNSUBACK:
				p.Codes = append(p.Codes, t.R.Pick(cs))
				continue
			}
			f := fmt.Sprintf("l/%d", i)
			switch t.R.N(5) {
			case 0:
				f = base // the same filter again
			case 1:
				if i > 0 {
					f = p.Subs[t.R.N(i)].F
				}
			case 2:
				if n < 2000 {
					f = t.R.FilterStr()
				}
			}
			s := ref.Sub{F: f}
			if ty == ref.SUBSCRIBE {
				s.Ops = t.R.SubOps(v, strings.HasPrefix(f, "$share/"))
			}
			p.Subs = append(p.Subs, s)
		}
		return p
	}
	// any error stops an iteration, whatever the library itself uses it for
	stopErrs := []error{errors.New("stop here"), mqttp.CodeSuccess, mqttp.CodeMalformedPacket, mqttp.ReasonCode(0x7e), mqttp.ErrNotSet, mqttp.ErrInsufficientDataSize, mqttp.ErrPanicDetected, io.EOF, context.Canceled, fmt.Errorf("wrapped: %w", io.EOF), (*strconv.NumError)(nil)}
	type each interface {
		ForEachTopic(func(*mqttp.Topic) error) error
	}
	one := func(t *T, v, ty byte, n int) {
		p := mk(t, v, ty, n)
		m := t.build(p)
		t.same("list as added", p, t.extract(m))
		b := t.encode(m)
		t.Input(nil)
		t.refAccept(p, b)
		d, _, err := t.decode(v, b)
		if err != nil {
			t.Fatalf("%s v%d with %d entries: %v", ref.TypeName[ty], v, n, err)
		}
		t.same("list as decoded", p, t.extract(d))
		if e, ok := m.(each); ok {
			for _, x := range []each{e, d.(each)} {
				stops := []int{0, n - 1, t.R.N(n), t.R.N(n)}
				if n <= 4 {
					stops = []int{0, 1 % n, 2 % n, 3 % n}
				}
				for _, stop := range stops {
					want := stopErrs[t.R.N(len(stopErrs))]
					i := 0
					err := x.ForEachTopic(func(tp *mqttp.Topic) error {
						if i > stop || tp.Full() != p.Subs[i].F || byte(tp.Ops()) != p.Subs[i].Ops {
							t.Fatalf("%s v%d: visit %d of %d (stop at %d) is %q", ref.TypeName[ty], v, i, n, stop, head(tp.Full(), 50))
						}
						if i == 0 || i == stop || i == stop/2 { // while visiting, the packet may be read
							k := 0
							_ = x.ForEachTopic(func(tp *mqttp.Topic) error {
								if k++; k > 1+n/3 {
									return io.EOF
								}
								return nil
							})
							if k < 1+n/3 && k < n {
								t.Fatalf("%s v%d: a visit within visit %d of %d ended after %d", ref.TypeName[ty], v, i, n, k)
							}
							_, _ = x.(mqttp.IFace).Size()
							t.Count("visits within a visit")
						}
						i++
						if i > stop {
							return want
						}
						return nil
					})
					if err != want || i != stop+1 {
						t.Fatalf("%s v%d: iteration stopped by the callback at %d made %d visits and returned %v", ref.TypeName[ty], v, stop, i, err)
					}
					t.Count("iterations stopped by the callback")
				}
			}
		}
		t.CountN("list entries", n)
		t.Eval()
		t.Distinct(b, int(v))
	}
	rep := c.Scale(1, 12)
	c.Each("sizes", len(sizes)*4*3*rep, func(t *T) {
		v, ty := byte(3+t.I%3), types[t.I/3%4]
		if ty == ref.UNSUBACK && v < 5 {
			return
		}
		n := sizes[t.I/12%len(sizes)]
		one(t, v, ty, n)
		t.Sample("%s v%d with %d entries", ref.TypeName[ty], v, n)
	})
	c.Each("random", c.Scale(25000, 500000), func(t *T) {
		v, ty := byte(3+t.I%3), types[t.I/3%4]
		if ty == ref.UNSUBACK && v < 5 {
			v = 5
		}
		n := 1 + t.R.N(6)
		if t.R.P(1, 20) {
			n = 1 + t.R.N(400)
		}
		one(t, v, ty, n)
	})
	// objects that grow while in use, and refused additions
	c.Each("growing", c.Scale(6000, 150000), func(t *T) {
		v, ty := byte(3+t.I%3), types[t.I/3%4]
		if ty == ref.UNSUBACK && v < 5 {
			v = 5
		}
		n := 1 + t.R.N(12)
		p := mk(t, v, ty, n)
		q := p.Clone()
		q.Subs, q.Codes = nil, nil
		m := adapt.Fresh(t.R, pv(v), ty)
		m.(adapt.Setter).SetPacketID(mqttp.IDType(p.ID))
		if err := adapt.SetProps(t.R, m, p.Props); err != nil {
			t.Fatalf("%v", err)
		}
		add := func(s ref.Sub, code byte) error {
			switch x := m.(type) {
			case *mqttp.Subscribe:
				tp, err := mqttp.NewSubscribeTopic([]byte(s.F), mqttp.SubscriptionOptions(s.Ops))
				if err != nil {
					return err
				}
				return x.AddTopic(tp)
			case *mqttp.UnSubscribe:
				tp, err := mqttp.NewTopic([]byte(s.F))
				if err != nil {
					return err
				}
				return x.AddTopic(tp)
			case *mqttp.SubAck:
				return x.AddReturnCode(mqttp.ReasonCode(code))
			case *mqttp.UnSubAck:
				return x.AddReturnCode(mqttp.ReasonCode(code))
			}
			return nil
		}
		many := func(codes []byte) error {
			if x, ok := m.(*mqttp.SubAck); ok {
				return x.AddReturnCodes(adapt.Codes(codes))
			}
			return m.(*mqttp.UnSubAck).AddReturnCodes(adapt.Codes(codes))
		}
		for i := 0; i < n; i++ {
			var err error
			if e, ok := m.(each); ok && len(q.Subs) > 0 && t.R.P(1, 3) {
				// from within a visit, which goes on or not
				was, j, end := len(q.Subs), 0, t.R.N(len(q.Subs)+1)
				at := t.R.N(was)
				if end <= at {
					at = end
				}
				_ = e.ForEachTopic(func(tp *mqttp.Topic) error {
					if j < was && tp.Full() != q.Subs[j].F {
						t.Fatalf("%s v%d: visit %d of %d around an addition is %q, not %q", ref.TypeName[ty], v, j, was, tp.Full(), q.Subs[j].F)
					}
					if j == at {
						err = add(p.Subs[i], 0)
						q.Subs = append(q.Subs, p.Subs[i])
					}
					if j == end {
						return io.EOF
					}
					j++
					return nil
				})
				if len(q.Subs) == was {
					t.Fatalf("%s v%d: visit of %d topics ended at %d", ref.TypeName[ty], v, was, j)
				}
				t.Count("additions within a visit")
			} else if len(p.Subs) > 0 {
				err = add(p.Subs[i], 0)
				q.Subs = append(q.Subs, p.Subs[i])
			} else {
				if t.R.P(1, 4) { // one bad code refuses all of them
					if many([]byte{p.Codes[i], 0x7e, p.Codes[i]}) == nil {
						t.Fatalf("%s v%d: an undefined code is accepted in a list", ref.TypeName[ty], v)
					}
					t.same("list after a refused addition", q, t.extract(m))
				}
				err = add(ref.Sub{}, p.Codes[i])
				q.Codes = append(q.Codes, p.Codes[i])
			}
			if err != nil {
				t.Fatalf("%s v%d: adding entry %d: %v", ref.TypeName[ty], v, i, err)
			}
			t.same("growing list", q, t.extract(m))
			if t.R.Bool() {
				t.refAccept(q, t.encode(m))
			}
			t.Count("additions")
		}
		t.Eval()
		t.Distinct(p.Encode(ref.Full), "grow")
	})
	// the caller goes on using its own slice of codes
	c.Each("caller's slice", c.Scale(3000, 60000), func(t *T) {
		ty := []byte{ref.SUBACK, ref.UNSUBACK}[t.I%2]
		cs := ref.CodesOf(5, ty)
		m := adapt.Fresh(t.R, 5, ty)
		m.(adapt.Setter).SetPacketID(7)
		buf := make([]mqttp.ReasonCode, 0, 64)
		var all []byte
		for k := 1 + t.R.N(6); k > 0; k-- {
			buf = buf[:0]
			for j := 1 + t.R.N(5); j > 0; j-- {
				x := t.R.Pick(cs)
				buf = append(buf, mqttp.ReasonCode(x))
				all = append(all, x)
			}
			var err error
			if x, ok := m.(*mqttp.SubAck); ok {
				err = x.AddReturnCodes(buf)
			} else {
				err = m.(*mqttp.UnSubAck).AddReturnCodes(buf)
			}
			if err != nil {
				t.Fatalf("%v", err)
			}
		}
		t.same("codes added from a reused slice", &ref.Pkt{V: 5, T: ty, HasID: true, ID: 7, Codes: all}, t.extract(m))
		t.Eval()
	})
}

func c28(c *C) {
	c.Each("types", 256*3, func(t *T) {
		v, ty := byte(3+t.I/256), byte(t.I%256)
		exists := ty >= 1 && ty <= 14 || ty == 15 && v == 5
		m, err := mqttp.New(pv(v), mqttp.Type(ty))
		if (err == nil) != exists || (m != nil) != exists {
			t.Fatalf("New(v%d, type %d): %v, %v", v, ty, m, err)
		}
		ok, err := mqttp.Type(ty).Valid(pv(v))
		if ok != exists || err != nil {
			t.Fatalf("Type(%d).Valid(v%d) = %v, %v", ty, v, ok, err)
		}
		t.Eval()
		t.Distinct(int(ty), int(v))
		t.Count("New and Valid")
		if exists {
			for _, x := range []mqttp.IFace{m, adapt.Fresh(t.R, pv(v), ty)} {
				if byte(x.Version()) != v || byte(x.Type()) != ty {
					t.Fatalf("new packet of type %d v%d says %d v%d", ty, v, x.Type(), x.Version())
				}
				if f, ok := x.(interface{ Flags() byte }); ok && f.Flags() != ref.Flags(ty) {
					t.Fatalf("new %s has flags %#x", ref.TypeName[ty], f.Flags())
				}
				if n := x.Type().Name(); n != ref.TypeName[ty] {
					t.Fatalf("type %d is called %q", ty, n)
				}
			}
			if mqttp.Type(ty).DefaultFlags() != ref.Flags(ty) {
				t.Fatalf("%s has default flags %#x", ref.TypeName[ty], mqttp.Type(ty).DefaultFlags())
			}
			p := conformingFor(t.R, v, ty)
			if ty == ref.PUBLISH {
				p.QoS, p.Dup, p.Retain, p.HasID, p.ID = 0, false, false, false, 0
			}
			b := t.encode(t.build(p))
			if b[0] != ty<<4|ref.Flags(ty) {
				t.Fatalf("new %s v%d encodes with first byte %#x", ref.TypeName[ty], v, b[0])
			}
		}
		if ty > 15 {
			return
		}
		// Decode: a packet of that type that is fine otherwise
		var bodies [][]byte
		if exists {
			bodies = append(bodies, conformingFor(t.R, v, ty).Encode(ref.Full))
		} else {
			for _, f := range [][]byte{{}, {0}, {0, 0}, {0, 1}, {0x18, 0}, {0, 4, 'M', 'Q', 'T', 'T'}} {
				for fl := byte(0); fl < 16; fl++ {
					bodies = append(bodies, ref.Frame(ty<<4|fl, f))
				}
			}
			if ty == 15 {
				for k := 0; k < 200; k++ {
					bodies = append(bodies, t.R.Pkt(5, 15).Encode(ref.Form(t.R.N(3))))
				}
			}
		}
		for _, b := range bodies {
			d, _, err := t.decode(v, b)
			if (err == nil) != exists {
				t.Fatalf("Decode(v%d) of type %d: %v", v, ty, err)
			}
			if exists && (byte(d.Type()) != ty || byte(d.Version()) != v) {
				t.Fatalf("Decode(v%d) of type %d reports type %d v%d", v, ty, d.Type(), d.Version())
			}
			t.Eval()
			t.Count("Decode by type")
		}
	})
	c.Exhausted("all 256 packet types x 3 versions through New and Type.Valid; all 16 wire types x 3 versions through Decode")
	c.Each("other versions", 256, func(t *T) {
		v := byte(t.I)
		known := v >= 3 && v <= 5
		if pv(v).IsValid() != known {
			t.Fatalf("ProtocolVersion(%d).IsValid() = %v", v, !known)
		}
		for ty := 0; ty < 256; ty++ {
			ok, err := mqttp.Type(ty).Valid(pv(v))
			if (err == nil) != known || !known && ok {
				t.Fatalf("Type(%d).Valid(v%d) = %v, %v", ty, v, ok, err)
			}
			t.Eval()
		}
		t.Count("versions")
	})
	names := []string{"MQTT", "MQIsdp", "", "mqtt", "MQIsdq", "MQTt", "MQTT ", "MQT", "MQISDP", "\x00\x04MQTT", "MQTTT"}
	c.Each("connect", len(names)*256, func(t *T) {
		name, lvl := names[t.I/256], byte(t.I%256)
		ok := lvl == 3 && name == "MQIsdp" || (lvl == 4 || lvl == 5) && name == "MQTT"
		for dv := byte(3); dv <= 5; dv++ {
			// bodies as of each version, so that only name and level decide
			for bv := byte(3); bv <= 5; bv++ {
				p := &ref.Pkt{V: bv, T: ref.CONNECT, Clean: true, ClientID: "c", KeepAlive: 5}
				if bv == 5 && t.R.Bool() {
					p.Props = []ref.Prop{{ID: 0x21, U: 3}}
				}
				body := p.Body(ref.Full)
				rest := body[2+len(ref.ProtoName(bv))+1:]
				b := ref.Frame(0x10, append(append(ref.LP(name), lvl), rest...))
				w := ok && (bv == lvl || bv < 5 && lvl < 5)
				m, _, err := t.decode(dv, b)
				if w && err != nil {
					t.Fatalf("CONNECT %q level %d refused under v%d: %v", name, lvl, dv, err)
				}
				if !ok && err == nil {
					t.Fatalf("CONNECT %q level %d accepted under v%d", name, lvl, dv)
				}
				if err == nil {
					if byte(m.Version()) != lvl {
						t.Fatalf("CONNECT %q level %d decoded under v%d reports version %d", name, lvl, dv, m.Version())
					}
					if w {
						q := p.Clone()
						q.V = lvl
						t.same("CONNECT decoded under another version", q, t.extract(m))
					}
				}
				t.Eval()
				t.Distinct(name, int(lvl), int(dv), int(bv))
				t.Count("CONNECT name/level/version")
			}
		}
	})
	c.Exhausted("CONNECT: all 256 levels x 11 protocol names x 3 versions given to Decode")
	c.Each("connect content", c.Scale(20000, 400000), func(t *T) {
		p := t.R.Pkt(byte(3+t.I%3), ref.CONNECT)
		b := p.Encode(ref.Full)
		dv := byte(3 + t.R.N(3))
		m, _, err := t.decode(dv, b)
		if err != nil {
			t.Fatalf("CONNECT v%d refused under v%d: %v", p.V, dv, err)
		}
		t.same(fmt.Sprintf("decoded under v%d", dv), p, t.extract(m))
		// and it encodes as what it is
		t.refAccept(adapt.Norm(p), t.encode(m))
		t.Eval()
		t.Distinct(b, int(dv))
	})
}
