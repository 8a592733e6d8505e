#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
M = "mqttp/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None,
                     **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
ALLP = [M+f for f in ("header.go","packet.go","connect.go","connack.go","publish.go","puback.go","subscribe.go","suback.go","unsubscribe.go","unsuback.go","disconnect.go","auth.go","pingreq.go","pingresp.go","property.go","routines.go","types.go")]

prop("C01","Packets built through the API survive the wire",
 "For every packet type and every protocol version (3.1, 3.1.1, 5.0), a packet filled in through the public constructors and setters with protocol-conforming content encodes without error, and decoding those bytes yields a packet of the same type and version. Every field, list element and property of the decoded packet reads back exactly as it was set, and nothing that was not set appears in it.",
 ["inputs"],"all conforming contents of all 15 packet types x 3 versions, including empty, boundary-length and multi-byte contents, any number of topics, reason codes and user properties",
 "The tests encode one hand-written packet per type, none with MQTT 5 properties; AUTH, UNSUBSCRIBE/UNSUBACK/SUBACK with MQTT 5 content are never round-tripped.",
 ALLP,[("encodeMessage/decodeMessage per packet type",M+"*.go"),("header.Encode / header.decode",M+"header.go")],["New*","setters","Encode","Decode","accessors"])
prop("C02","Encoded bytes are conforming MQTT packets",
 "The bytes Encode emits for a conforming packet are one well-formed MQTT control packet of that version: an independent decoder written from the specification reads the same type, flags, fields, list order, payload and properties out of them. The remaining-length and property-length fields are minimally encoded and cover exactly the content that follows them.",
 ["inputs"],"all conforming packets of all types and versions, with contents at and around every length-field boundary",
 "Tests compare a handful of fixed byte strings (V3.1.1 mostly); a symmetric encoder/decoder error is invisible to encode-then-decode tests.",
 ALLP,[("header.Encode, size()",M+"header.go"),("property.encode / FullLen",M+"property.go")],["Encode output bytes"])
prop("C03","Conforming packets from any peer are accepted faithfully",
 "Every well-formed control packet of the version in use - including the optional short forms of MQTT 5 acknowledgements, DISCONNECT and AUTH, and properties in any order - is accepted by Decode, and the accessors of the returned packet report exactly the content that is on the wire.",
 ["inputs"],"all well-formed packets (as generated by an independent encoder) of all types x 3 versions",
 "Tests decode one or two hand-written packets per type; no MQTT 5 property is ever decoded by a test.",
 ALLP,[("decodeMessage per packet type",M+"*.go"),("property.decode",M+"property.go")],["Decode result","accessors"])
prop("C04","Malformed packets are never accepted",
 "Decode returns an error and no message for every packet that breaks the wire format of its version: wrong fixed-header flags or reserved bits, QoS 3, DUP with QoS 0, inconsistent CONNECT flags, non-minimal or over-long length fields, fields that are truncated, missing or followed by surplus bytes, a missing packet identifier or topic list, reason codes not defined for the packet type, and subscription options outside their range. The same holds for properties that are unknown, not allowed in that packet, illegally repeated, or that do not exactly fill the declared property length, and for topic names, filters and client identifiers outside their grammar.",
 ["inputs"],"every malformation class x every packet type, version and position it can occur in",
 "Tests try about twenty single malformations, mostly V3.1.1; combinations with MQTT 5 properties and short bodies are never tried.",
 ALLP,[("header.decode checks",M+"header.go"),("decodeMessage checks",M+"*.go"),("property.decode",M+"property.go")],["Decode result"])
prop("C05","Decoding is total and pure on arbitrary bytes",
 "For every byte string and every protocol version value Decode terminates without panicking and returns either a message and no error, or an error and no message. It never modifies its input, and the same input always gives the same outcome whatever was decoded before.",
 ["inputs","histories"],"all byte strings (random, exhaustive short ones, and mutations of valid packets), in any order",
 "Unit tests feed fewer than a hundred fixed buffers; robustness against hostile input is a statement about all of them.",
 ALLP,[("Decode recover barrier",M+"packet.go"),("bounds checks",M+"routines.go")],["Decode result","input buffer"])
prop("C06","Accepted packets re-encode without loss",
 "Any packet that Decode accepts can be encoded again without error, the encoding has exactly the size Size reports, and decoding it yields the same content: the same fields, list elements and properties, repeated properties included.",
 ["inputs"],"all byte strings accepted by Decode, for every type and version",
 "The decode/encode equivalence tests cover one property-free packet per type.",
 ALLP,[("p.len bookkeeping while decoding",M+"property.go"),("size() per packet type",M+"*.go")],["Decode, Size, Encode"])
prop("C07","Packet framing on a byte stream is exact",
 "Decoding an incomplete packet reports insufficient data, together with the total length of the packet once its length field is complete; decoding a packet followed by further bytes is refused with that packet's own length reported; a successful decode reports exactly the length of the packet, and RemainingLength what follows its length field. A remaining-length field longer than four bytes is refused as malformed, never reported as a need for more data, and neither is a complete packet, however malformed.",
 ["inputs"],"every valid packet, every proper prefix of it and every continuation; all remaining-length encodings",
 "Tests check three truncations and one surplus byte sequence.",
 [M+"header.go",M+"packet.go"],[("header.decode",M+"header.go"),("uvarint",M+"header.go")],["Decode total and error"])
prop("C08","Size, Encode and the caller's buffer agree",
 "Size returns exactly the number of bytes Encode writes, and after it RemainingLength is the length field written; encoding into a shorter buffer fails with ErrInsufficientBufferSize, reports the size needed and leaves the buffer untouched. Encoding into a larger or previously used buffer writes only those bytes, the result does not depend on what the buffer held before, and encoding an unchanged packet again gives the same content.",
 ["inputs","histories"],"all conforming packets x buffer sizes from 0 to size+k x buffer contents x repeated encodings",
 "Tests always encode once into a fresh zeroed buffer of comfortable size.",
 ALLP,[("header.Encode size check",M+"header.go"),("property.encode",M+"property.go"),("WriteLPBytes",M+"routines.go")],["Size","Encode return values","buffer contents"])
prop("C09","The MQTT packet size limit is enforced on encoding",
 "A packet whose remaining length would exceed 268,435,455 bytes is refused by Size, Encode and the Encode helper with an error, however large it is, and is never emitted with a wrong length field. At or below the limit the packet is encoded and its length field is exact.",
 ["inputs"],"payload sizes around every length-field boundary up to and beyond 2^28, 2^31 and 2^32",
 "A test checks the internal setter with two constants and one negative size.",
 [M+"header.go",M+"packet.go"],[("setRemainingLength, Size",M+"header.go")],["Size","Encode"])
prop("C10","MQTT 5 properties obey their placement and type rules",
 "Each property can be set on, and is accepted from the wire in, exactly the packet types MQTT 5 defines for it; it may repeat only where the specification allows (user property everywhere, subscription identifier in PUBLISH); and it takes and returns only values of its defined type. Properties cannot be set on packets of older versions, and a refused set is reported as an error and leaves the packet unchanged and encodable.",
 ["inputs"],"all property identifiers (defined and undefined) x 15 packet types x value types x versions, and the will message",
 "The three property tests are empty functions.",
 [M+"property.go",M+"header.go",M+"connect.go",M+"publish.go"],[("propertyAllowedMessageTypes, propertyTypeMap",M+"property.go"),("property.Set, property.decode",M+"property.go")],["PropertySet","PropertyGet","PropertyForEach","IsValid*","DupAllowed","Decode"])
prop("C11","A packet's properties always reflect the last values set",
 "After any sequence of setting, overwriting, discarding, reading, sizing and encoding, the properties of a packet - as seen through get, through iteration, through Size and in the encoded bytes - are exactly the last value set for each identifier since the last discard.",
 ["histories"],"all operation sequences over the property API on every MQTT 5 packet type, including packets created for an older version and switched to 5.0",
 "Tests set one property once on one packet and never encode it.",
 [M+"property.go",M+"header.go"],[("property.Set / reset / encode, len bookkeeping",M+"property.go")],["PropertySet","PropertiesDiscard","PropertyGet","PropertyForEach","Size","Encode"],
 [("properties / len","property values and their encoded length",M+"property.go")])
prop("C12","Topic names and filters follow the MQTT grammar",
 "A topic filter is accepted exactly when it is non-empty valid text in which + fills a whole level and # is the whole last level; shared subscriptions $share/<name>/<filter> additionally need a non-empty wildcard-free share name and a valid filter, and the parsed filter, share name, $-prefix and options are exactly the corresponding parts of the input. A topic name is valid exactly when it is valid text with no wildcard characters.",
 ["inputs"],"all strings (exhaustive over a hostile alphabet up to a length bound, plus random long and Unicode strings) x all option bytes",
 "About fifteen fixed strings are tested; the shared-subscription test never looks at the parsed parts.",
 [M+"types.go",M+"packet.go"],[("NewTopic, TopicFilterRegexp, SharedTopicRegexp, TopicPublishRegexp",M+"types.go"),("ValidTopic",M+"packet.go")],["NewTopic","NewSubscribeTopic","ValidTopic","Topic accessors"])
prop("C13","Invalid text never passes a text field",
 "Byte strings that are not well-formed UTF-8 (including surrogates, overlong and out-of-range forms) are refused in every text field the decoder reads: topic names and filters, will topics, client identifiers, user names and every string or string-pair property, at any position. No text field, strings of properties included, may contain the null character; topics, filters, client identifiers and user names are refused with any control character, and well-formed text is accepted unchanged.",
 ["inputs"],"all code points, all short byte sequences and ill-formed sequence classes x every text field x position",
 "Only a loop over single control bytes in IsValidUTF is tested.",
 [M+"types.go",M+"property.go",M+"connect.go",M+"publish.go",M+"subscribe.go",M+"unsubscribe.go"],[("IsValidUTF, BasicUTFRegexp",M+"types.go"),("decodeString, decodeStringPair",M+"property.go")],["IsValidUTF","Decode","setters"])
prop("C14","Reason codes are exactly those defined per packet type",
 "For every packet type a reason code is valid exactly when MQTT 5 (or, for CONNACK, MQTT 3.1.1) defines it for that packet, its sender direction is reported as the specification gives it, and undefined codes are reported invalid everywhere. Setters that report errors refuse undefined codes and keep the previous value, accept every defined one, and the decoder agrees with them.",
 ["inputs"],"all 256 codes x 16 packet types x versions",
 "Tests try three codes.",
 [M+"reasonCodes.go",M+"connack.go",M+"suback.go",M+"unsuback.go",M+"auth.go",M+"puback.go",M+"disconnect.go"],[("packetTypeCodeMap, codeDescMap",M+"reasonCodes.go")],["IsValidForType","PacketTypeDir","IsValid*","Set*/Add* code setters","Decode"])
prop("C15","A cloned PUBLISH carries exactly what must be forwarded",
 "Cloning a PUBLISH keeps topic, payload, QoS, retain flag and expiry time and, between MQTT 5 endpoints, payload format, response topic, correlation data, content type and all user properties; it never carries over the duplicate flag, the packet identifier or connection-scoped properties such as topic alias, subscription identifiers and will delay. Clone and original are independent: later setter calls on one never show in the other.",
 ["inputs","histories"],"all publishes x versions x later mutation sequences on any of several clones",
 "Clone is not tested at all.",
 [M+"publish.go",M+"property.go"],[("Publish.Clone",M+"publish.go")],["Clone","Publish accessors","Encode"])
prop("C16","Message expiry is computed soundly",
 "A publish without an expiry time never expires. With one, it is reported expired once the time has passed and not expired while at least one whole second remains, and the remaining time reported is the whole number of seconds left, for any interval MQTT can express (up to 2^32-1 seconds).",
 ["inputs"],"all expiry instants from far past to 2^32-1 seconds ahead",
 "One test sleeps past a two-second expiry and reads one three-second expiry.",
 [M+"publish.go"],[("Publish.Expired",M+"publish.go")],["SetExpireAt","Expired"])
prop("C17","CONNECT stays consistent under any setter history",
 "After any sequence of CONNECT setter calls (clean flag, keep-alive, client id, credentials, will, reset will, properties), including refused ones, the encoded packet and the accessors show exactly the last accepted value of each: the connect flags match the fields that are present, credentials never survive being replaced, and a refused call changes nothing. Calls the protocol forbids - a password without user name before MQTT 5, invalid client ids or user names, an incomplete will - are refused.",
 ["histories"],"all sequences of CONNECT setter calls with valid and invalid arguments, for every version",
 "Tests apply each setter at most once, in one order, with valid arguments.",
 [M+"connect.go"],[("Connect setters, connectFlags",M+"connect.go")],["Connect setters and accessors","Encode"],[("connectFlags","bit set describing the payload",M+"connect.go")])
prop("C18","PUBLISH stays consistent under any setter history",
 "After any sequence of PUBLISH setter calls, including refused ones, topic, payload, QoS, retain, duplicate flag and packet identifier read back and encode as the last accepted value of each, and no setter disturbs another field. Encoding is refused, not emitted wrongly, while the packet is not legal: no topic (or no topic and no alias in MQTT 5), duplicate flag with QoS 0, or QoS above 0 without a packet identifier.",
 ["histories"],"all sequences of PUBLISH setter calls with valid and invalid arguments, for every version",
 "The flags test sets each flag once.",
 [M+"publish.go",M+"header.go"],[("Publish setters, mFlags",M+"publish.go")],["Publish setters and accessors","Encode"],[("mFlags","fixed header flags",M+"header.go")])
prop("C19","Packets on different goroutines never interfere",
 "Any number of goroutines may concurrently create, fill, encode, decode, clone and validate their own packets and topics, and decode the same read-only input buffer: there is no data race, and every goroutine gets exactly the results it would get alone.",
 ["schedules","inputs"],"all interleavings of independent codec operations on 2..64 goroutines",
 "All tests are single-threaded and the suite is not run under the race detector.",
 ALLP,[("per-packet state only; package tables are read-only",M+"*.go")],["all public codec operations under the race detector"])
prop("C20","One PUBLISH can be fanned out concurrently",
 "While no one modifies it, a PUBLISH may be read and cloned by any number of goroutines at once - as a broker does when delivering one message to many subscribers - without data races, and every clone is complete and can be given its own QoS, packet identifier and properties and encoded without affecting the others or the original.",
 ["schedules"],"all interleavings of concurrent readers, cloners and per-clone encoders of one shared message",
 "No test clones or shares a message.",
 [M+"publish.go",M+"property.go"],[("Publish.Clone, accessors",M+"publish.go")],["Clone, accessors under the race detector"])
prop("C21","Monitoring counters lose and invent nothing",
 "Under any number of concurrent updaters every counter equals the sum of what was added to it, and each add returns a distinct running total consistent with some order of the adds. Differences taken by a single collector while updates continue are never negative and add up exactly to the total, and updating one counter or direction never changes another.",
 ["schedules","histories"],"all interleavings of adders and one differencing collector on every counter of the statistics set",
 "The monitoring package has no tests.",
 ["vlmonitoring/vlmetrics.go"],[("Counter.AddU64, LoadStore, FlowCounter.Diff","vlmonitoring/vlmetrics.go")],["AddU64","Diff","Load"])
prop("C22","High-water marks record the true peak",
 "A high-water statistic's current value is the adds minus the subtractions, and its maximum equals the highest value the statistic reached: at every quiescent point it is at least every value reached and never more than could have been reached, and observed over time it never decreases. This holds under any number of concurrent updaters.",
 ["schedules","histories"],"all interleavings of concurrent adds and subtractions, and all sequential histories",
 "The monitoring package has no tests.",
 ["vlmonitoring/vlmetrics.go"],[("Max.AddU64 / SubU64 / Load","vlmonitoring/vlmetrics.go")],["AddU64","SubU64","Load"],[("Max","highest value reached","vlmonitoring/vlmetrics.go")])
prop("C23","Decoded application messages outlive the receive buffer",
 "The topic, payload, packet identifier and properties of a decoded PUBLISH, and the will message of a decoded CONNECT, stay as received when the buffer they were decoded from is overwritten or reused, and changing them does not write into that buffer. What was read from a decoded packet of any type stays as it was when the packet itself is dropped and others are processed.",
 ["histories","inputs"],"all decoded PUBLISH and will messages x later buffer reuse",
 "Tests never touch the buffer after decoding.",
 [M+"publish.go",M+"connect.go",M+"property.go",M+"header.go"],[("payload copy, string conversion, decodeBinary copy, decodePacketID copy",M+"publish.go, property.go, header.go")],["Publish accessors after the buffer is overwritten"])
prop("C24","A packet cannot make the decoder over-allocate",
 "The memory Decode allocates is bounded by a constant plus a constant multiple of the number of bytes actually supplied, whatever lengths and counts the packet claims.",
 ["inputs"],"all inputs, in particular ones whose length fields claim far more than is present and ones packed with minimal items",
 "Tests do not measure allocation.",
 ALLP,[("length checks before copying",M+"routines.go, publish.go, property.go")],["bytes allocated during Decode"])
prop("C25","Packet identifiers are carried exactly and required where defined",
 "Any 16-bit identifier given to a packet type that carries one reads back, is encoded and is decoded unchanged; before one is set or decoded the packet reports ErrNotSet. Packets that need an identifier refuse to encode without one and refuse to decode when it is missing or cut short, and QoS 0 publishes never put one on the wire.",
 ["inputs"],"all 65536 identifiers x all packet types that carry one x versions x truncations",
 "Tests use identifiers 7 and 100 and one truncated packet per type.",
 [M+"header.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go"],[("setPacketID/encodePacketID/decodePacketID",M+"header.go")],["ID","SetPacketID","Encode","Decode"])
prop("C26","Messages can be forwarded between protocol versions",
 "A packet built or decoded for one protocol version and switched to another with SetVersion encodes as a conforming packet of the new version: MQTT 5-only content (properties, acknowledgement reason codes, subscription option bits other than the QoS) disappears for older versions, a SUBACK failure becomes 0x80, and an empty property section appears for MQTT 5. All other content is preserved, a CONNACK return code exactly as the caller gave it. After switching to MQTT 5, properties can be set and are encoded normally.",
 ["inputs","histories"],"PUBLISH, acknowledgement, subscribe/unsubscribe and DISCONNECT packets x all ordered version pairs",
 "No test calls SetVersion.",
 [M+"header.go",M+"publish.go",M+"puback.go",M+"property.go"],[("SetVersion; version checks in encodeMessage/size",M+"*.go")],["SetVersion","Encode","PropertySet"])
prop("C27","Topic and return-code lists keep order and count",
 "Topics added to SUBSCRIBE and UNSUBSCRIBE and codes added to SUBACK and UNSUBACK are kept in order without loss, merge or limit on their number, both on the object and across the wire. Iteration visits each topic once in that order and stops at the first callback error, returning that error.",
 ["inputs","histories"],"lists of any length and repetition pattern, any callback failing position",
 "Tests use at most four elements and check only their count.",
 [M+"subscribe.go",M+"unsubscribe.go",M+"suback.go",M+"unsuback.go"],[("AddTopic, ForEachTopic, AddReturnCodes, decode loops",M+"subscribe.go, unsubscribe.go, suback.go, unsuback.go")],["ForEachTopic","ReturnCodes","Encode/Decode"])
prop("C28","Packet types and protocol versions are gated consistently",
 "New, Decode and Type.Valid agree on which packet types exist in each version: AUTH only in MQTT 5, type 0 never. A decoded CONNECT reports the version carried in the packet itself and is accepted only for the three supported name/level pairs, whatever version Decode was called with; every other packet is decoded under the version given. New packets carry the fixed flags and version they were created for.",
 ["inputs"],"all 256 types x versions; all protocol name/level combinations x caller versions",
 "Tests check a few types and one name.",
 [M+"packet.go",M+"packetType.go",M+"connect.go",M+"types.go",M+"header.go"],[("newMessage, SupportedVersions",M+"packet.go, types.go")],["New","Decode","Type.Valid","Version"])
prop("C29","Configuration normalisation is faithful or refused",
 "A configuration map with string keys, of either supported map form, is normalised to a string-keyed map holding exactly the same keys and values; anything else - non-string keys, other types, nil - is refused with ErrInvalidConfigType and no map. The input is not modified.",
 ["inputs"],"all configuration values",
 "The package has no tests.",
 ["vltypes/config.go"],[("NormalizeConfig","vltypes/config.go")],["NormalizeConfig"])
prop("C30","Authentication and error vocabulary fails closed",
 "Only the allow status is ever described as allowed: every other status value, known or not, is described as deny and never has the text of the allow status. Access types other than read and write have no name, and every defined error of the auth and persistence packages has its own text, different from the fallback used for undefined values.",
 ["inputs"],"all status, access and error values, defined or not",
 "The packages have no tests.",
 ["vlauth/auth.go","vlpersistence/types.go"],[("statusDesc, errorsDesc, Desc, Type","vlauth/auth.go, vlpersistence/types.go")],["Status.Error/Desc","AccessType.Type","Error.Error","Errors.Error"])
prop("C31","Length-prefixed fields are read and written exactly",
 "Writing a byte string of up to 65,535 bytes emits its two-byte big-endian length followed by the bytes and nothing else; longer strings and too small buffers are refused with the documented errors and nothing is written. Reading returns exactly the prefixed bytes and the count consumed, and reports insufficient data whenever the input is shorter than its prefix claims.",
 ["inputs"],"all string lengths 0..65536+ x buffer sizes x surrounding contents",
 "Tests use five short strings.",
 [M+"routines.go"],[("ReadLPBytes, WriteLPBytes",M+"routines.go")],["ReadLPBytes","WriteLPBytes"])
prop("C32","Subscription options mean what their bits say",
 "For every option byte the QoS, no-local, retain-as-published and retain-handling accessors report exactly the bits MQTT 5 assigns to them. A SUBSCRIBE is accepted only if each option byte is legal for its version (QoS 0-2 only before MQTT 5; no reserved bits and no retain handling 3 in MQTT 5), and every legal option byte is delivered with its own topic unchanged.",
 ["inputs"],"all 256 option bytes x versions x position in the topic list",
 "Tests use option bytes 0, 1 and 2 under V3.1.1.",
 [M+"packet.go",M+"subscribe.go",M+"types.go"],[("SubscriptionOptions accessors",M+"packet.go"),("Subscribe.decodeMessage",M+"subscribe.go")],["SubscriptionOptions","Decode","Topic.Ops"])
prop("C33","Plugin metadata is reported as declared",
 "A plugin descriptor reports its name, description, type and version exactly as declared, together with the API version the plugin was built against, and repeated or concurrent queries give the same answers.",
 ["inputs","schedules"],"all descriptor contents, concurrent readers",
 "The package has no tests.",
 ["vlplugin/plugin.go"],[("Descriptor","vlplugin/plugin.go")],["Version","Name","Desc","Type"])
prop("C34","Names, texts and validity tables identify what they describe",
 "Every packet type has its MQTT name and its own description; type values outside the protocol are reported as unknown, with no flags, and never like a known one; and a packet object is named and described as its type whatever is done to it. QoS validity and descriptions cover exactly 0, 1 and 2 (and 0x80 as the subscription failure), protocol version validity exactly 3, 4 and 5. No two defined error values of the codec, property errors and reason codes included, share a value or an own text; every property error and reason code has one, and undefined values get only the fallback text.",
 ["inputs"],"all 256 values of each of the byte-sized vocabularies; packets of every type and version",
 "Tests look at a few names and texts.",
 [M+"packetType.go",M+"qos.go",M+"errors.go",M+"reasonCodes.go",M+"property.go"],[("Name, Desc, DefaultFlags",M+"packetType.go"),("Error",M+"errors.go"),("codeDescMap",M+"reasonCodes.go")],["Type.Name/Desc/DefaultFlags","QosType","ProtocolVersion.IsValid","Error.Error","PropertyError.Error","ReasonCode.Desc"])
prop("C35","The error of a refused packet can be reported to the peer",
 "An error returned for a refused packet is never the success code or any other value that reads as acceptance. For an MQTT 5 packet, a reason code returned as the error is an error code (0x80 or above) that MQTT 5 defines for the packet that would carry it: CONNACK for a refused CONNECT, DISCONNECT for everything else.",
 ["inputs"],"every refused byte string of every packet type and version, refused at every position",
 "Tests compare the error of some twenty malformed packets.",
 [M+"header.go",M+"connect.go",M+"publish.go",M+"subscribe.go",M+"property.go"],[("header.decode, decodeMessage reject codes",M+"header.go, connect.go, publish.go, subscribe.go")],["Decode"])
prop("C36","Encode never emits a malformed packet",
 "Whatever values a caller gave to the constructors and setters of a packet - ill-formed text, undefined reason codes, reserved option bits, properties of any id and value, a will object changed afterwards - in whatever order and with whatever version switches between, Encode either reports an error or emits one well-formed packet of the packet's version that Decode accepts, and no setter, Size or Encode panics; a CONNECT of a version that is none of the three is refused. (A PUBLISH object with a will delay interval is a will message and is not sent by itself; numeric property values outside of their range, and CONNACK codes of another version, count as well-formed.)",
 ["inputs","histories"],"all setter histories with arbitrary argument values on packets of every type and version",
 "Tests encode packets whose content is legal, and a few refused ones.",
 [M+"header.go",M+"property.go",M+"connect.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"unsuback.go",M+"disconnect.go"],[("encodeMessage of every type",M+"*.go"),("property.Set",M+"property.go")],["Encode","PropertySet","SetWill","SetReason","SetReasonCode","AddTopic","AddReturnCodes"])
prop("C37","Acknowledgements and subscriptions stay consistent under any history",
 "A CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH, PINGREQ or PINGRESP, new or decoded, always shows through its accessors and its encoding exactly what the accepted calls so far set or added, in order. A refused call (an undefined code alone or anywhere in a list, a property that does not belong) changes nothing and does not spoil later calls; reading, sizing and encoding - also into too short a buffer - change nothing; and packets given the same topics or code lists do not affect each other or what they were given.",
 ["inputs","histories"],"all call histories on packets of these types in all versions",
 "Tests make a few calls on a new packet of each type.",
 [M+"connack.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go",M+"disconnect.go",M+"auth.go"],[("setters, AddTopic, AddReturnCodes",M+"*.go")],["SetReturnCode","SetReason","SetReasonCode","SetPacketID","AddTopic","AddReturnCode","AddReturnCodes","PropertySet","Encode"])
prop("C38","Dropped packets leave nothing behind",
 "Once the caller holds no reference to a packet - built, decoded, cloned, switched or refused - or a topic, configuration or statistic, the library keeps neither it nor anything that grows with the number of such objects, starts no lasting goroutines, and a long-lived object whose content is replaced again and again does not grow. (An amount that is bounded, such as a pool, may stay.)",
 ["histories"],"arbitrarily long series of distinct packets and of calls on one packet",
 "Tests handle a handful of packets per process and never look at memory.",
 [M+"packet.go",M+"header.go",M+"property.go",M+"types.go"],[("Decode, New",M+"packet.go"),("property",M+"property.go"),("Publish.Clone",M+"publish.go")],["Decode","Encode","New","Clone","NewTopic","PropertySet","NormalizeConfig"])
prop("C39","Work grows no faster than the size of the input",
 "The time to decode, refuse, encode or clone a packet, to validate a text or topic and to normalise a configuration grows in proportion to its size, not with its square: a peer cannot stall the decoder with a packet of many properties, topics, codes, levels or long texts.",
 ["inputs"],"packets, texts and configurations of every shape up to the protocol's limits",
 "Tests use inputs of a few dozen bytes and do not measure.",
 [M+"property.go",M+"subscribe.go",M+"unsubscribe.go",M+"suback.go",M+"types.go",M+"publish.go"],[("property.decode, encode",M+"property.go"),("decodeMessage",M+"*.go"),("NewTopic, ValidTopic, IsValidUTF",M+"types.go, packet.go")],["Decode","Encode","Clone","NewTopic","ValidTopic","IsValidUTF"])
prop("C40","Exported names mean what the specification says",
 "Every exported name of the library - packet types, MQTT 5 properties, reason codes, QoS levels, protocol versions, retain handling, topic expressions - stands for what MQTT calls by that name: a packet built with a name carries on the wire the number the specification gives it, content read from the wire is recognised by the name, and an exported expression matches exactly the texts it is named after.",
 ["inputs"],"all exported names, in every packet of every version that may carry them; random and enumerated texts",
 "Tests use the names on both sides of a comparison, so that a name with the wrong value goes unnoticed.",
 [M+"packetType.go",M+"property.go",M+"reasonCodes.go",M+"qos.go",M+"types.go"],[("constants",M+"packetType.go, property.go, reasonCodes.go, qos.go"),("TopicFilterRegexp, SharedTopicRegexp",M+"types.go")],["CONNECT...AUTH","Property*","Code*","QoS0..QoS2","ProtocolV*"])
prop("C41","Reading changes nothing, and arguments stay the caller's",
 "Reading a packet - accessors, lookups and visits of properties, topics and codes (also visits that the callback ends by an error or a panic), Size, Encode into a buffer of any size, Clone - changes neither its content nor its encoding, and reading the same again gives the same. Values handed to the library - buffers, lists of topics and codes, property values, a will object shared by several packets of different versions - are never modified by it.",
 ["inputs","histories"],"all sequences of reading operations on packets of every type and version; all values handed in",
 "Tests read a packet once, with callbacks that succeed.",
 [M+"header.go",M+"property.go",M+"publish.go",M+"subscribe.go",M+"suback.go",M+"connect.go"],[("PropertyForEach",M+"header.go, property.go"),("ForEachTopic, SetWill, AddReturnCodes",M+"subscribe.go, connect.go, suback.go"),("Clone",M+"publish.go")],["PropertyForEach","PropertyGet","ForEachTopic","Size","Encode","Clone","SetWill","AddReturnCodes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
