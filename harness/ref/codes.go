package ref

// Sender of a reason code
type Sender byte

// senders
const (
	Nobody Sender = iota
	Server
	Client
	Both
	ServerOrBoth // SUBACK/UNSUBACK: the specification gives no column, only a server sends them
)

// codes per packet type, MQTT 5 section 2.4 and the per packet tables;
// CONNACK includes the MQTT 3.1.1 return codes
var codeTable = map[byte]map[byte]Sender{
	CONNACK: sameSender(Server, 0, 1, 2, 3, 4, 5, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C,
		0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F),
	PUBACK:   sameSender(Both, 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99),
	PUBREC:   sameSender(Both, 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99),
	PUBREL:   sameSender(Both, 0, 0x92),
	PUBCOMP:  sameSender(Both, 0, 0x92),
	SUBACK:   sameSender(ServerOrBoth, 0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2),
	UNSUBACK: sameSender(ServerOrBoth, 0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91),
	DISCONNECT: {
		0: Client, 4: Client, 0x80: Both, 0x81: Both, 0x82: Both, 0x83: Both, 0x87: Server, 0x89: Server, 0x8B: Server,
		0x8D: Server, 0x8E: Server, 0x8F: Server, 0x90: Both, 0x93: Both, 0x94: Both, 0x95: Both, 0x96: Both, 0x97: Both,
		0x98: Both, 0x99: Both, 0x9A: Server, 0x9B: Server, 0x9C: Server, 0x9D: Server, 0x9E: Server, 0x9F: Server,
		0xA0: Server, 0xA1: Server, 0xA2: Server},
	AUTH: {0: Server, 0x18: Both, 0x19: Client},
}

func sameSender(s Sender, cs ...byte) map[byte]Sender {
	m := map[byte]Sender{}
	for _, c := range cs {
		m[c] = s
	}
	return m
}

// CodeSender of reason code c in packet type t, Nobody if not defined there
func CodeSender(t, c byte) Sender { return codeTable[t][c] }

// HasCodes tells whether packet type has reason codes
func HasCodes(t byte) bool { return codeTable[t] != nil }

// CodeDefined anywhere
func CodeDefined(c byte) bool {
	for _, m := range codeTable {
		if m[c] != Nobody {
			return true
		}
	}
	return false
}

// CodeDefinedV5 anywhere in MQTT 5. 0x01/0x02 are granted QoS values and 0x04 is
// "disconnect with will message"
func CodeDefinedV5(c byte) bool {
	for t, m := range codeTable {
		if m[c] != Nobody && !(t == CONNACK && c >= 1 && c <= 5) {
			return true
		}
	}
	return false
}

// CodesOf packet type under version v, ascending
func CodesOf(v, t byte) []byte {
	if v != 5 {
		switch t {
		case CONNACK:
			return []byte{0, 1, 2, 3, 4, 5}
		case SUBACK:
			return []byte{0, 1, 2, 0x80}
		}
		return []byte{0}
	}
	var r []byte
	for c := 0; c < 256; c++ {
		if codeTable[t][byte(c)] != Nobody && !(t == CONNACK && c >= 1 && c <= 5) {
			r = append(r, byte(c))
		}
	}
	if r == nil {
		r = []byte{0}
	}
	return r
}
