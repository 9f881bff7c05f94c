package vmodels

import (
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// The numbers and strings below are unknown but in one size class: what C04 is about is which of them goes where.
func anyInt(name string) int64  { return SymInt(name, math.MaxInt32+1, math.MaxInt64) }
func anyStr(name string) string { return SymStr(name, 16, 255) }

func aNode(name string) graph.Node {
	n := graph.Node{NodeIdentity: anyInt(name + " id"), Labels: []string{}, Properties: map[string]interface{}{}}
	switch Choose(3) {
	case 1:
		n.Labels = []string{anyStr(name + " label"), "other"}
	case 2:
		n.Labels = []string{"one"}
		n.Properties = kv(pair{"key", anyStr(name + " property")}, pair{"k2", anyInt(name + " number")})
	}
	return n
}

func aRel(name string) graph.UnboundRelationship {
	return graph.UnboundRelationship{RelIdentity: anyInt(name + " id"), Type: anyStr(name + " type"), Properties: kv(pair{"since", SymInt(name+" since", -16, 127)})}
}

// aGraphValue is any graph value.
func aGraphValue() structures.Structure {
	switch Choose(5) {
	case 0:
		Note("a node")
		return aNode("node")
	case 1:
		Note("a relationship")
		return graph.Relationship{RelIdentity: anyInt("id"), StartNodeIdentity: anyInt("start"), EndNodeIdentity: anyInt("end"),
			Type: anyStr("type"), Properties: kv(pair{"a", anyInt("property")}, pair{"b", "x"})}
	case 2:
		Note("an unbound relationship")
		return aRel("rel")
	case 3:
		Note("a path without relationships")
		return graph.Path{Nodes: []graph.Node{aNode("node")}, Relationships: []graph.UnboundRelationship{}, Sequence: []int{}}
	}
	Note("a path")
	return graph.Path{
		Nodes: []graph.Node{
			{NodeIdentity: SymInt("first", 0, 127), Labels: []string{"A"}, Properties: map[string]interface{}{}},
			{NodeIdentity: SymInt("second", 0, 127), Labels: []string{}, Properties: map[string]interface{}{"p": true}},
		},
		Relationships: []graph.UnboundRelationship{aRel("rel"), {RelIdentity: 7, Type: "T", Properties: map[string]interface{}{}}},
		Sequence:      []int{int(SymInt("step", -128, -17)), 1, int(SymInt("step", 128, 32767)), 0},
	}
}

// HGraph decides C04 for graph values.
func HGraph() {
	PanicProps("C04,C05")
	BlockProps("C04")
	v := aGraphValue()
	switch Choose(3) {
	case 0:
		Note("encoded")
		w := &sink{}
		err := encoding.NewEncoder(w, math.MaxUint16).Encode(v)
		Check("C04,C02", err == nil, "graph values can be encoded")
		agreeRef("C04,C02", dechunk(w.got.Bytes(), 65535, 65535), v, "a graph value is written with its signature and fields")
		Covered("graph value encoded")
	case 1:
		Note("decoded")
		got, err := decodeOne(refValue(v))
		Check("C04,C03", err == nil, "graph values are decoded")
		agree("C04,C03", got, v, "every field of a graph value is read into its field")
		Covered("graph value decoded")
	default:
		Note("marshalled and unmarshalled")
		b, err := encoding.Marshal(v)
		Check("C04,C02", err == nil, "graph values can be marshalled")
		got, err := encoding.Unmarshal(b)
		Check("C04,C03", err == nil, "graph values can be unmarshalled")
		agree("C04,C03", got, v, "every field of a graph value is read back into the same field")
		Covered("graph value there and back")
	}
}

// encodedAs: v is encoded as one of the payloads.
func encodedAs(v interface{}, what string, wants ...[]byte) {
	w := &sink{}
	err := encoding.NewEncoder(w, math.MaxUint16).Encode(v)
	Check("C04,C02", err == nil, "messages can be encoded")
	got := dechunk(w.got.Bytes(), 65535, 65535)
	for _, want := range wants {
		if Cmp(got, want) == 1 {
			Check("C04,C02", true, what)
			return
		}
	}
	agree("C04,C02", got, wants[0], what)
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// HMessages decides C04 for messages.
func HMessages() {
	PanicProps("C04,C05")
	BlockProps("C04")
	switch Choose(11) {
	case 0:
		Note("INIT with a user")
		name, user, pass := anyStr("client"), anyStr("user"), anyStr("password")
		a := cat(refStr("scheme"), refStr("basic"))
		b := cat(refStr("principal"), refStr(user))
		c := cat(refStr("credentials"), refStr(pass))
		h := cat([]byte{0xB2, 0x01}, refStr(name), []byte{0xA3})
		encodedAs(messages.NewInitMessage(name, user, pass), "INIT carries the client name and a basic authentication token",
			cat(h, a, b, c), cat(h, a, c, b), cat(h, b, a, c), cat(h, b, c, a), cat(h, c, a, b), cat(h, c, b, a))
		Covered("INIT with a user")
	case 1:
		Note("INIT without a user")
		name := anyStr("client")
		encodedAs(messages.NewInitMessage(name, "", ""), "INIT carries the client name and no authentication",
			cat([]byte{0xB2, 0x01}, refStr(name), []byte{0xA1}, refStr("scheme"), refStr("none")))
		Covered("INIT without a user")
	case 2:
		Note("RUN")
		q := SymStr("statement", 0, 70000)
		k, n := SymStr("key", 1, 20), anyInt("parameter")
		encodedAs(messages.NewRunMessage(q, kv(pair{k, n})), "RUN carries the statement and its parameters",
			cat([]byte{0xB2, 0x10}, refStr(q), []byte{0xA1}, refStr(k), refInt(n)))
		Covered("RUN")
	case 3:
		Note("RUN without parameters")
		q := anyStr("statement")
		encodedAs(messages.NewRunMessage(q, nil), "RUN without parameters carries an empty map", cat([]byte{0xB2, 0x10}, refStr(q), []byte{0xA0}))
		Covered("RUN without parameters")
	case 4:
		encodedAs(messages.NewPullAllMessage(), "PULL_ALL has no fields", []byte{0xB0, 0x3F})
	case 5:
		encodedAs(messages.NewDiscardAllMessage(), "DISCARD_ALL has no fields", []byte{0xB0, 0x2F})
	case 6:
		encodedAs(messages.NewAckFailureMessage(), "ACK_FAILURE has no fields", []byte{0xB0, 0x0E})
	case 7:
		encodedAs(messages.NewResetMessage(), "RESET has no fields", []byte{0xB0, 0x0F})
	case 8:
		var want interface{}
		s, n := anyStr("text"), anyInt("number")
		m := kv(pair{"fields", []interface{}{s, "b"}}, pair{"n", n})
		p := []byte{0xB1, 0x70}
		if Choose(2) == 0 {
			Note("SUCCESS")
			want = messages.SuccessMessage{Metadata: m}
		} else {
			Note("FAILURE")
			p = []byte{0xB1, 0x7F}
			want = messages.FailureMessage{Metadata: m}
		}
		got, err := decodeOne(append(p, refValue(m)...))
		Check("C04,C03", err == nil, "server messages are decoded")
		agree("C04,C03", got, want, "a server message is delivered as such with its metadata")
		Covered("metadata")
	case 9:
		Note("IGNORED")
		got, err := decodeOne([]byte{0xB0, 0x7E})
		if Choose(2) == 1 {
			got, err = decodeOne([]byte{0xB1, 0x7E, 0xA0})
		}
		Check("C04,C03", err == nil, "server messages are decoded")
		agree("C04,C03", got, messages.IgnoredMessage{}, "IGNORED is delivered as such")
		Covered("IGNORED")
	default:
		Note("RECORD")
		v := aGraphValue()
		s := anyStr("text")
		got, err := decodeOne(cat([]byte{0xB1, 0x71, 0x93}, refStr(s), refValue(v), []byte{0xC0}))
		Check("C04,C03", err == nil, "server messages are decoded")
		agree("C04,C03", got, messages.RecordMessage{Fields: []interface{}{s, v, nil}}, "RECORD is delivered as such with its fields")
		Covered("RECORD")
	}
}

// HDecCut decides C05 for messages cut short anywhere.
func HDecCut() {
	PanicProps("C05")
	BlockProps("C05")
	var p []byte
	switch Choose(7) {
	case 0:
		p = []byte{0xB3, 0x4E, 0xC9, 1, 2, 0x91, 0x82, 'l', 'm', 0xA1, 0x81, 'k', 0xC3}
	case 1:
		p = []byte{0xB5, 0x52, 1, 2, 3, 0x81, 't', 0xA1, 0x81, 'k', 0xC1, 1, 2, 3, 4, 5, 6, 7, 8}
	case 2:
		p = []byte{0xB3, 0x72, 0xCB, 1, 2, 3, 4, 5, 6, 7, 8, 0xD0, 1, 't', 0xA1, 0x81, 'k', 0xC0}
	case 3:
		p = []byte{0xB3, 0x50, 0x91, 0xB3, 0x4E, 1, 0x91, 0x81, 'L', 0xA0, 0x91, 0xB3, 0x72, 2, 0x81, 'T', 0xA0, 0x92, 1, 0xCA, 0, 0, 1, 1}
	case 4:
		p = []byte{0xB1, 0x70, 0xA2, 0x81, 'f', 0x92, 0x81, 'a', 0x81, 'b', 0x81, 'g', 0xD9, 0, 1, 0x81, 'h', 0xD5, 0, 1, 0xC2}
	case 5:
		p = []byte{0xB1, 0x7F, 0xDA, 0, 0, 0, 1, 0xD1, 0, 4, 'c', 'o', 'd', 'e', 0xD2, 0, 0, 0, 1, 'x'}
	default:
		p = []byte{0xB1, 0x71, 0x94, 0xC8, 0x80, 0xD4, 1, 0xC3, 0xD6, 0, 0, 0, 1, 0xD8, 1, 0x81, 'k', 0x90, 0x81, 'z'}
	}
	k := Choose(len(p) + 1)
	NoteI("bytes:", k)
	_, err := decodeOne(p[:k])
	if k == len(p) {
		Check("C05,C03", err == nil, "a complete message is decoded")
		Covered("complete")
		return
	}
	Check("C05,C03", err != nil, "a message that ends early gives an error")
	Covered("cut")
}

// HDecMap decides C03 and C05 for maps of many entries, and for headers that announce more entries than there are.
func HDecMap() {
	PanicProps("C03,C05")
	BlockProps("C03")
	if Choose(2) == 0 {
		n, class := 0, 0
		switch Choose(4) {
		case 0:
			n = 15
		case 1:
			n, class = 200, 1
		case 2:
			n, class = 300, 2
		default:
			n, class = 300, 3
		}
		p := header(n, class, 0xA0, 0xD8, 0xD9, 0xDA)
		want := map[string]interface{}{}
		for i := 0; i < n; i++ {
			p = append(p, 0x82, byte(1+i/100), byte(1+i%100), byte(i%100))
			want[string([]byte{byte(1 + i/100), byte(1 + i%100)})] = int64(i % 100)
		}
		v, err := decodeOne(p)
		Check("C03", err == nil, "maps are decoded")
		agree("C03", v, want, "a map has the keys and values sent")
		Covered("map decoded")
		return
	}
	class := Choose(4)
	n := int(SymInt("n", 3, maxOf(class)))
	p := append(header(n, class, 0xA0, 0xD8, 0xD9, 0xDA), 0x81, 'a', 1, 0x81, 'b', 2)
	if Choose(2) == 0 {
		p = append(p, 0x81, 'c')
		Note("the last key has no value")
	}
	switch Choose(3) {
	case 1:
		p = append([]byte{0x91}, p...)
	case 2:
		p = append([]byte{0xB1, 0x70}, p...)
	}
	_, err := decodeOne(p)
	Check("C05,C03", err != nil, "a map that ends before its announced size gives an error")
	Covered("map cut short")
}
