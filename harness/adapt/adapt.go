// Package adapt drives the library under test through its public API only:
// it builds packets from reference content and reads content back.
package adapt

import (
	"errors"
	"fmt"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/gen"
	"verif/ref"
)

// Setter is what every packet that carries an identifier offers
type Setter interface{ SetPacketID(mqttp.IDType) }

// Vals groups the occurrences of each property id, keeping their order
func Vals(ps []ref.Prop) (ids []uint32, m map[uint32][]ref.Prop) {
	m = map[uint32][]ref.Prop{}
	for _, p := range ps {
		if m[p.ID] == nil {
			ids = append(ids, p.ID)
		}
		m[p.ID] = append(m[p.ID], p)
	}
	return
}

// GoValue is the value PropertySet takes for the occurrences l of one property
func GoValue(r *gen.R, l []ref.Prop) interface{} {
	d := ref.PropTable[l[0].ID]
	switch d.Kind {
	case ref.KByte:
		return byte(l[0].U)
	case ref.KShort:
		return uint16(l[0].U)
	case ref.KInt:
		return l[0].U
	case ref.KVarInt:
		if len(l) == 1 {
			return l[0].U
		}
		var x []uint32
		for _, p := range l {
			x = append(x, p.U)
		}
		return x
	case ref.KString:
		return l[0].S
	case ref.KBinary:
		return []byte(l[0].S)
	}
	if len(l) == 1 && r.Bool() {
		return mqttp.StringPair{K: l[0].K, V: l[0].S}
	}
	var x []mqttp.StringPair
	for _, p := range l {
		x = append(x, mqttp.StringPair{K: p.K, V: p.S})
	}
	return x
}

// SetProps sets all properties on m
func SetProps(r *gen.R, m mqttp.IFace, ps []ref.Prop) error {
	ids, vals := Vals(ps)
	for _, id := range ids {
		if err := m.PropertySet(mqttp.PropertyID(id), GoValue(r, vals[id])); err != nil {
			return fmt.Errorf("PropertySet(%#x %s): %w", id, ref.PropTable[id].Name, err)
		}
	}
	return nil
}

// NewWill builds the will message
func NewWill(r *gen.R, v byte, w *ref.Will) (*mqttp.Publish, error) {
	m := mqttp.NewPublish(mqttp.ProtocolVersion(v))
	if err := m.SetTopic(w.Topic); err != nil {
		return nil, fmt.Errorf("will SetTopic: %w", err)
	}
	m.SetPayload([]byte(w.Payload))
	if err := m.SetQoS(mqttp.QosType(w.QoS)); err != nil {
		return nil, fmt.Errorf("will SetQoS: %w", err)
	}
	m.SetRetain(w.Retain)
	// these belong to a delivery, not to a will, and never show in a CONNECT
	if r.P(1, 6) {
		m.SetDup(true)
	}
	if r.P(1, 6) {
		m.SetPacketID(mqttp.IDType(r.U16()))
	}
	if r.P(1, 6) {
		m.SetPublishID(uintptr(r.U64()))
		m.SetExpireAt(time.Now().Add(time.Hour))
	}
	return m, SetProps(r, m, w.Props)
}

// Build a packet through constructors and setters; r varies the order and flavour of calls
func Build(r *gen.R, p *ref.Pkt) (mqttp.IFace, error) {
	v := mqttp.ProtocolVersion(p.V)
	var m mqttp.IFace
	var err error
	if r.Bool() {
		if m, err = mqttp.New(v, mqttp.Type(p.T)); err != nil {
			return nil, fmt.Errorf("New: %w", err)
		}
	} else {
		m = Direct(v, p.T)
	}
	return m, Fill(r, m, p)
}

// Fresh is a new packet, from New or from the specific constructor
func Fresh(r *gen.R, v mqttp.ProtocolVersion, t byte) mqttp.IFace {
	if r.Bool() {
		if m, err := mqttp.New(v, mqttp.Type(t)); err == nil {
			return m
		}
	}
	return Direct(v, t)
}

// Direct calls the specific constructor
func Direct(v mqttp.ProtocolVersion, t byte) mqttp.IFace {
	switch t {
	case ref.CONNECT:
		return mqttp.NewConnect(v)
	case ref.CONNACK:
		return mqttp.NewConnAck(v)
	case ref.PUBLISH:
		return mqttp.NewPublish(v)
	case ref.PUBACK:
		return mqttp.NewPubAck(v)
	case ref.PUBREC:
		return mqttp.NewPubRec(v)
	case ref.PUBREL:
		return mqttp.NewPubRel(v)
	case ref.PUBCOMP:
		return mqttp.NewPubComp(v)
	case ref.SUBSCRIBE:
		return mqttp.NewSubscribe(v)
	case ref.SUBACK:
		return mqttp.NewSubAck(v)
	case ref.UNSUBSCRIBE:
		return mqttp.NewUnSubscribe(v)
	case ref.UNSUBACK:
		return mqttp.NewUnSubAck(v)
	case ref.PINGREQ:
		return mqttp.NewPingReq(v)
	case ref.PINGRESP:
		return mqttp.NewPingResp(v)
	case ref.DISCONNECT:
		return mqttp.NewDisconnect(v)
	case ref.AUTH:
		return mqttp.NewAuth(v)
	}
	return nil
}

// Codes converts
func Codes(b []byte) []mqttp.ReasonCode {
	var r []mqttp.ReasonCode
	for _, c := range b {
		r = append(r, mqttp.ReasonCode(c))
	}
	return r
}

// Fill sets all content of p on a fresh packet, in random order
func Fill(r *gen.R, m mqttp.IFace, p *ref.Pkt) error {
	var steps []func() error
	add := func(f func() error) { steps = append(steps, f) }
	if len(p.Props) > 0 {
		add(func() error { return SetProps(r, m, p.Props) })
	}
	if p.HasID {
		add(func() error { m.(Setter).SetPacketID(mqttp.IDType(p.ID)); return nil })
	}
	switch x := m.(type) {
	case *mqttp.Connect:
		add(func() error { x.SetClean(p.Clean); return nil })
		add(func() error { x.SetKeepAlive(p.KeepAlive); return nil })
		add(func() error { return x.SetClientID([]byte(p.ClientID)) })
		if p.HasUser || p.HasPass {
			add(func() error {
				var u, w []byte
				if p.HasUser {
					u = []byte(p.User)
				}
				if p.HasPass {
					w = []byte(p.Pass)
				}
				return x.SetCredentials(u, w)
			})
		}
		if p.Will != nil {
			add(func() error {
				w, err := NewWill(r, p.V, p.Will)
				if err != nil {
					return err
				}
				return x.SetWill(w)
			})
		}
	case *mqttp.ConnAck:
		add(func() error { x.SetSessionPresent(p.SessionPresent); return nil })
		add(func() error { return x.SetReturnCode(mqttp.ReasonCode(p.Code)) })
	case *mqttp.Publish:
		if r.Bool() && p.Topic != "" {
			add(func() error {
				return x.Set(p.Topic, []byte(p.Payload), mqttp.QosType(p.QoS), p.Retain, p.Dup)
			})
		} else {
			if p.Topic != "" {
				add(func() error { return x.SetTopic(p.Topic) })
			}
			add(func() error { x.SetPayload([]byte(p.Payload)); return nil })
			add(func() error { return x.SetQoS(mqttp.QosType(p.QoS)) })
			add(func() error { x.SetRetain(p.Retain); return nil })
			add(func() error { x.SetDup(p.Dup); return nil })
		}
	case *mqttp.Ack:
		if p.V == 5 {
			add(func() error { x.SetReason(mqttp.ReasonCode(p.Code)); return nil })
		}
	case *mqttp.Subscribe:
		add(func() error {
			seen := map[ref.Sub]*mqttp.Topic{} // one object may be added more than once
			for _, s := range p.Subs {
				t, ok := seen[s]
				if !ok || r.Bool() {
					var err error
					if t, err = mqttp.NewSubscribeTopic([]byte(s.F), mqttp.SubscriptionOptions(s.Ops)); err != nil {
						return fmt.Errorf("NewSubscribeTopic(%q): %w", s.F, err)
					}
					seen[s] = t
				}
				if err := x.AddTopic(t); err != nil {
					return err
				}
			}
			return nil
		})
	case *mqttp.UnSubscribe:
		add(func() error {
			seen := map[ref.Sub]*mqttp.Topic{} // one object may be added more than once
			for _, s := range p.Subs {
				t, ok := seen[s]
				if !ok || r.Bool() {
					var err error
					if t, err = mqttp.NewTopic([]byte(s.F)); err != nil {
						return fmt.Errorf("NewTopic(%q): %w", s.F, err)
					}
					seen[s] = t
				}
				if err := x.AddTopic(t); err != nil {
					return err
				}
			}
			return nil
		})
	case *mqttp.SubAck:
		add(func() error { return addCodes(r, p.Codes, x.AddReturnCode, x.AddReturnCodes) })
	case *mqttp.UnSubAck:
		add(func() error { return addCodes(r, p.Codes, x.AddReturnCode, x.AddReturnCodes) })
	case *mqttp.Disconnect:
		if p.V == 5 {
			add(func() error { x.SetReasonCode(mqttp.ReasonCode(p.Code)); return nil })
		}
	case *mqttp.Auth:
		add(func() error { return x.SetReasonCode(mqttp.ReasonCode(p.Code)) })
	}
	r.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	for _, f := range steps {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func addCodes(r *gen.R, cs []byte, one func(mqttp.ReasonCode) error, many func([]mqttp.ReasonCode) error) error {
	for len(cs) > 0 {
		k := 1 + r.N(len(cs))
		if k == 1 {
			if err := one(mqttp.ReasonCode(cs[0])); err != nil {
				return fmt.Errorf("AddReturnCode(%#x): %w", cs[0], err)
			}
		} else if err := many(Codes(cs[:k])); err != nil {
			return fmt.Errorf("AddReturnCodes(%#x): %w", cs[:k], err)
		}
		cs = cs[k:]
	}
	return nil
}

// ReadProp converts what PropertyGet/PropertyForEach delivered
func ReadProp(id uint32, v mqttp.PropertyToType) ([]ref.Prop, error) {
	d, ok := ref.PropTable[id]
	if !ok {
		return nil, fmt.Errorf("property %#x is not defined by MQTT", id)
	}
	switch d.Kind {
	case ref.KByte:
		x, err := v.AsByte()
		return []ref.Prop{{ID: id, U: uint32(x)}}, err
	case ref.KShort:
		x, err := v.AsShort()
		return []ref.Prop{{ID: id, U: uint32(x)}}, err
	case ref.KInt:
		x, err := v.AsInt()
		return []ref.Prop{{ID: id, U: x}}, err
	case ref.KVarInt:
		if x, err := v.AsInt(); err == nil {
			return []ref.Prop{{ID: id, U: x}}, nil
		}
		x, err := v.AsInts()
		var r []ref.Prop
		for _, y := range x {
			r = append(r, ref.Prop{ID: id, U: y})
		}
		return r, err
	case ref.KString:
		x, err := v.AsString()
		return []ref.Prop{{ID: id, S: x}}, err
	case ref.KBinary:
		x, err := v.AsBinary()
		return []ref.Prop{{ID: id, S: string(x)}}, err
	}
	if x, err := v.AsStringPair(); err == nil {
		return []ref.Prop{{ID: id, K: x.K, S: x.V}}, nil
	}
	x, err := v.AsStringPairs()
	var r []ref.Prop
	for _, y := range x {
		r = append(r, ref.Prop{ID: id, K: y.K, S: y.V})
	}
	return r, err
}

// Props reads all properties of m through both iteration and lookup and
// demands that the two agree
func Props(m mqttp.IFace) ([]ref.Prop, error) {
	var ps []ref.Prop
	var bad error
	seen := map[uint32]bool{}
	err := m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
		if seen[uint32(id)] {
			bad = fmt.Errorf("iteration visits property %#x twice", id)
			return
		}
		seen[uint32(id)] = true
		l, e := ReadProp(uint32(id), v)
		if e != nil {
			bad = fmt.Errorf("property %#x cannot be read as its own type: %w", id, e)
			return
		}
		g := m.PropertyGet(id)
		if g == nil {
			bad = fmt.Errorf("property %#x is iterated but PropertyGet returns nil", id)
			return
		}
		l2, e := ReadProp(uint32(id), g)
		if e != nil || len(l) != len(l2) {
			bad = fmt.Errorf("property %#x: iteration and PropertyGet disagree", id)
			return
		}
		for i := range l {
			if l[i] != l2[i] {
				bad = fmt.Errorf("property %#x: iteration and PropertyGet disagree", id)
				return
			}
		}
		ps = append(ps, l...)
	})
	if m.Version() != mqttp.ProtocolV50 {
		if err == nil {
			return nil, errors.New("PropertyForEach on an older version reports no error")
		}
		if m.PropertyGet(mqttp.PropertyUserProperty) != nil {
			return nil, errors.New("PropertyGet on an older version returns a value")
		}
		return nil, bad
	}
	if err != nil {
		return nil, fmt.Errorf("PropertyForEach: %w", err)
	}
	if bad != nil {
		return nil, bad
	}
	for _, id := range ref.PropIDs {
		if !seen[id] && m.PropertyGet(mqttp.PropertyID(id)) != nil {
			return nil, fmt.Errorf("PropertyGet returns property %#x which is not iterated", id)
		}
	}
	return ps, nil
}

// Extract content through the accessors. For CONNECT, credentials presence is
// judged by length, since the accessors show nothing else.
func Extract(m mqttp.IFace) (p *ref.Pkt, err error) {
	p = &ref.Pkt{V: byte(m.Version()), T: byte(m.Type())}
	if ref.HasProps(p.T) {
		if p.Props, err = Props(m); err != nil {
			return p, err
		}
	}
	if id, e := m.ID(); e == nil {
		p.HasID, p.ID = true, uint16(id)
	} else if e != mqttp.ErrNotSet {
		return p, fmt.Errorf("ID: %v", e)
	}
	each := func(t *mqttp.Topic) error {
		f, o := t.Topic()
		if f != t.Filter() || o != t.Ops() {
			return errors.New("Topic() disagrees with Filter()/Ops()")
		}
		s := ref.Sub{F: t.Full(), Ops: byte(t.Ops())}
		p.Subs = append(p.Subs, s)
		if w, ok := ref.ParseFilter(s.F); ok && (w.Filter != f || w.Share != t.ShareName() || w.Dollar != t.DollarPrefix()) {
			return fmt.Errorf("parts of filter %q: %q %q %q", s.F, f, t.ShareName(), t.DollarPrefix())
		}
		return nil
	}
	switch x := m.(type) {
	case *mqttp.Connect:
		p.Clean, p.KeepAlive, p.ClientID = x.IsClean(), x.KeepAlive(), string(x.ClientID())
		u, w := x.Credentials()
		p.User, p.Pass, p.HasUser, p.HasPass = string(u), string(w), len(u) > 0, len(w) > 0
		if wl := x.Will(); wl != nil {
			p.Will = &ref.Will{Topic: wl.Topic(), Payload: string(wl.Payload()), QoS: byte(wl.QoS()), Retain: wl.Retain()}
			if p.V == 5 {
				if p.Will.Props, err = Props(wl); err != nil {
					return p, fmt.Errorf("will: %w", err)
				}
			}
		}
	case *mqttp.ConnAck:
		p.SessionPresent, p.Code = x.SessionPresent(), byte(x.ReturnCode())
	case *mqttp.Publish:
		p.Topic, p.Payload, p.QoS, p.Retain, p.Dup = x.Topic(), string(x.Payload()), byte(x.QoS()), x.Retain(), x.Dup()
	case *mqttp.Ack:
		p.Code = byte(x.Reason())
	case *mqttp.Subscribe:
		err = x.ForEachTopic(each)
	case *mqttp.UnSubscribe:
		err = x.ForEachTopic(each)
	case *mqttp.SubAck:
		for _, c := range x.ReturnCodes() {
			p.Codes = append(p.Codes, byte(c))
		}
	case *mqttp.UnSubAck:
		for _, c := range x.ReturnCodes() {
			p.Codes = append(p.Codes, byte(c))
		}
	case *mqttp.Disconnect:
		p.Code = byte(x.ReasonCode())
	case *mqttp.Auth:
		p.Code = byte(x.ReasonCode())
	}
	return p, err
}

// Norm makes reference content comparable with accessor content: an empty user
// name or password cannot be told from an absent one through the accessors.
func Norm(p *ref.Pkt) *ref.Pkt {
	if p.T == ref.CONNECT && (p.HasUser && p.User == "" || p.HasPass && p.Pass == "") {
		p = p.Clone()
		p.HasUser, p.HasPass = p.User != "", p.Pass != ""
	}
	return p
}
