package ref

// ValidUTF8 is a decoder state machine written from RFC 3629 (no use of unicode/utf8)
func ValidUTF8(s string) bool {
	for i := 0; i < len(s); {
		c := s[i]
		var n int
		lo, hi := byte(0x80), byte(0xBF)
		switch {
		case c <= 0x7F:
			i++
			continue
		case c >= 0xC2 && c <= 0xDF:
			n = 1
		case c == 0xE0:
			n, lo = 2, 0xA0
		case c >= 0xE1 && c <= 0xEC || c == 0xEE || c == 0xEF:
			n = 2
		case c == 0xED:
			n, hi = 2, 0x9F
		case c == 0xF0:
			n, lo = 3, 0x90
		case c >= 0xF1 && c <= 0xF3:
			n = 3
		case c == 0xF4:
			n, hi = 3, 0x8F
		default:
			return false
		}
		if i+n >= len(s) {
			return false
		}
		if s[i+1] < lo || s[i+1] > hi {
			return false
		}
		for k := 2; k <= n; k++ {
			if s[i+k] < 0x80 || s[i+k] > 0xBF {
				return false
			}
		}
		i += n + 1
	}
	return true
}

// HasControl characters C0, DEL or C1 (s must be well formed)
func HasControl(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c == 0x7F {
			return true
		}
		if c == 0xC2 && i+1 < len(s) && s[i+1] <= 0x9F {
			return true
		}
	}
	return false
}

// HasNul U+0000, which no text may contain
func HasNul(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return true
		}
	}
	return false
}

// ValidText is well formed and free of control characters
func ValidText(s string) bool { return ValidUTF8(s) && !HasControl(s) }

// ValidTopicName has no wildcards (emptiness is judged by the caller)
func ValidTopicName(s string) bool {
	if !ValidText(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '+' || s[i] == '#' {
			return false
		}
	}
	return true
}

func splitLevels(s string) []string {
	var r []string
	st := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			r = append(r, s[st:i])
			st = i + 1
		}
	}
	return append(r, s[st:])
}

func plainFilter(s string) bool {
	if s == "" {
		return false
	}
	ls := splitLevels(s)
	for i, l := range ls {
		for k := 0; k < len(l); k++ {
			if l[k] == '+' && len(l) != 1 {
				return false
			}
			if l[k] == '#' && (len(l) != 1 || i != len(ls)-1) {
				return false
			}
		}
	}
	return true
}

// Filter is a parsed topic filter
type Filter struct {
	Full, Filter, Share, Dollar string
}

// ParseFilter per MQTT 4.7 and 4.8.2
func ParseFilter(s string) (Filter, bool) {
	f := Filter{Full: s, Filter: s}
	if s == "" || !ValidText(s) {
		return f, false
	}
	ls := splitLevels(s)
	if s[0] == '$' {
		f.Dollar = ls[0]
		if ls[0] == "$share" {
			if len(ls) < 3 || ls[1] == "" {
				return f, false
			}
			f.Share = ls[1]
			for i := 0; i < len(f.Share); i++ {
				if f.Share[i] == '+' || f.Share[i] == '#' {
					return f, false
				}
			}
			f.Filter = s[len("$share/")+len(f.Share)+1:]
		}
	}
	return f, plainFilter(f.Filter)
}

// ValidClientID is the documented client identifier grammar of the library
func ValidClientID(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		case c == ' ' || c == '-' || c == '_' || c == ',' || c == '.' || c == '|' || c == '/':
		default:
			return false
		}
	}
	return true
}
