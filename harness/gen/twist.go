package gen

import (
	"strings"

	"verif/ref"
)

var tails = []string{"a", "x", "/", "/x", "0", " ", "é", "中", "\U0001F600",
	"#", "/#", "+", "/+", "/#/", "$", "\x00", "\x1f", "\x7f", "\u0080", "\u009f", "\x80", "\xff", "\xed\xa0\x80", "\xc0\xaf", "\xf4\x90\x80\x80", "\n", "*"}

func (r *R) twistText(s string) string {
	x := tails[r.N(len(tails))]
	switch r.N(9) {
	case 0, 1, 2:
		return s + x
	case 3:
		return x + s
	case 4:
		i := r.N(len(s) + 1)
		return s[:i] + x + s[i:]
	case 5:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
	case 6:
		if len(s) > 1 { // same length, one byte changed
			b := []byte(s)
			b[r.N(len(b))] = []byte("aZ9#+/$\x00\x7f\xff")[r.N(10)]
			return string(b)
		}
	case 7:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	case 8:
		if len(s) > 0 {
			return s[1:]
		}
	}
	return x
}

// Twist makes a packet closely related to p, conforming or not: usually one text
// field extended, shortened or changed in one place, sometimes another field.
func (r *R) Twist(p *ref.Pkt) *ref.Pkt {
	q := p.Clone()
	var f []*string
	ps := func(l []ref.Prop) {
		for i := range l {
			switch ref.PropTable[l[i].ID].Kind {
			case ref.KPair:
				f = append(f, &l[i].K, &l[i].S)
			case ref.KString, ref.KBinary:
				f = append(f, &l[i].S)
			}
		}
	}
	if q.V == 5 && ref.HasProps(q.T) {
		ps(q.Props)
	}
	switch q.T {
	case ref.CONNECT:
		f = append(f, &q.ClientID)
		if q.HasUser {
			f = append(f, &q.User)
		}
		if q.HasPass {
			f = append(f, &q.Pass)
		}
		if q.Will != nil {
			f = append(f, &q.Will.Topic, &q.Will.Payload)
			if q.V == 5 {
				ps(q.Will.Props)
			}
		}
	case ref.PUBLISH:
		f = append(f, &q.Topic, &q.Topic, &q.Payload)
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		for i := range q.Subs {
			f = append(f, &q.Subs[i].F)
		}
	}
	if len(f) > 0 && r.P(3, 4) {
		s := f[r.N(len(f))]
		if *s = r.twistText(*s); len(*s) > 65535 {
			*s = (*s)[:65535]
		}
		return q
	}
	switch r.N(9) {
	case 0:
		q.QoS = byte(r.N(4))
	case 1:
		q.Retain = !q.Retain
	case 2:
		q.Dup = !q.Dup
	case 3:
		q.Code = r.Byte()
		if len(q.Codes) > 0 {
			q.Codes[r.N(len(q.Codes))] = r.Byte()
		}
	case 4:
		q.ID ^= 1 << uint(r.N(16))
	case 5:
		if len(q.Subs) > 0 {
			q.Subs[r.N(len(q.Subs))].Ops = r.Byte()
		}
	case 6:
		if len(q.Props) > 0 && q.V == 5 {
			q.Props = append(q.Props, q.Props[r.N(len(q.Props))])
		}
	case 7:
		if q.T == ref.CONNECT {
			q.Clean = !q.Clean
		} else if q.T != ref.AUTH {
			q.V = byte(3 + r.N(3))
		}
	case 8:
		if len(q.Subs) > 1 {
			i := r.N(len(q.Subs))
			q.Subs = append(q.Subs[:i], q.Subs[i+1:]...)
		} else if len(q.Codes) > 1 {
			q.Codes = q.Codes[:len(q.Codes)-1]
		} else if len(q.Props) > 0 {
			q.Props = q.Props[:len(q.Props)-1]
		}
	}
	return q
}
