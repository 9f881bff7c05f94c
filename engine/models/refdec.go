package vmodels

import (
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// What the reference decoder says about a message.
const (
	refOk      = iota
	refBad     // it is malformed
	refUnknown // the properties do not say what it is
)

// refDecode is PackStream as specified, for the beginning of p: the value, what follows it, and whether it is valid.
func refDecode(p []byte) (interface{}, []byte, int) {
	if len(p) == 0 {
		return nil, nil, refBad
	}
	m := p[0]
	p = p[1:]
	switch {
	case m <= 0x7F:
		return int64(m), p, refOk
	case m >= 0xF0:
		return int64(m) - 256, p, refOk
	case m == 0xC0:
		return nil, p, refOk
	case m == 0xC2:
		return false, p, refOk
	case m == 0xC3:
		return true, p, refOk
	case m == 0xC8:
		return refNumber(p, 1)
	case m == 0xC9:
		return refNumber(p, 2)
	case m == 0xCA:
		return refNumber(p, 4)
	case m == 0xCB:
		return refNumber(p, 8)
	case m == 0xC1:
		if len(p) < 8 {
			return nil, nil, refBad
		}
		var f float64
		SetNum(&f, p[:8], false)
		return f, p[8:], refOk
	case m >= 0x80 && m <= 0x8F:
		return refString(p, int(m)-0x80)
	case m >= 0x90 && m <= 0x9F:
		return refListOf(p, int(m)-0x90)
	case m >= 0xA0 && m <= 0xAF:
		return refMapOf(p, int(m)-0xA0)
	case m >= 0xB0 && m <= 0xBF:
		return refStructure(p, int(m)-0xB0)
	case m >= 0xD0 && m <= 0xD2:
		n, p := refSizeOf(p, m-0xD0)
		if n < 0 {
			return nil, nil, refBad
		}
		return refString(p, n)
	case m >= 0xD4 && m <= 0xD6:
		n, p := refSizeOf(p, m-0xD4)
		if n < 0 {
			return nil, nil, refBad
		}
		return refListOf(p, n)
	case m >= 0xD8 && m <= 0xDA:
		n, p := refSizeOf(p, m-0xD8)
		if n < 0 {
			return nil, nil, refBad
		}
		return refMapOf(p, n)
	case m >= 0xDC && m <= 0xDD:
		n, p := refSizeOf(p, m-0xDC)
		if n < 0 {
			return nil, nil, refBad
		}
		return refStructure(p, n)
	}
	return nil, nil, refBad
}

func refNumber(p []byte, n int) (interface{}, []byte, int) {
	if len(p) < n {
		return nil, nil, refBad
	}
	return number(p[:n]), p[n:], refOk
}

// refSizeOf reads a size of 1, 2 or 4 bytes; -1 if it is cut off.
func refSizeOf(p []byte, class byte) (int, []byte) {
	switch class {
	case 0:
		if len(p) < 1 {
			return -1, nil
		}
		return int(p[0]), p[1:]
	case 1:
		if len(p) < 2 {
			return -1, nil
		}
		var v uint16
		SetNum(&v, p[:2], false)
		return int(v), p[2:]
	}
	if len(p) < 4 {
		return -1, nil
	}
	var v uint32
	SetNum(&v, p[:4], false)
	return int(v), p[4:]
}

func refString(p []byte, n int) (interface{}, []byte, int) {
	if len(p) < n {
		return nil, nil, refBad
	}
	return string(p[:n]), p[n:], refOk
}

func refListOf(p []byte, n int) (interface{}, []byte, int) {
	if n > len(p) {
		return nil, nil, refBad
	}
	out := []interface{}{}
	unknown := false
	for i := 0; i < n; i++ {
		v, rest, st := refDecode(p)
		if st == refBad {
			return nil, nil, refBad
		}
		if st == refUnknown {
			// how long it is is unknown as well
			return nil, nil, refUnknown
		}
		out = append(out, v)
		p = rest
	}
	if unknown {
		return nil, nil, refUnknown
	}
	return out, p, refOk
}

func refMapOf(p []byte, n int) (interface{}, []byte, int) {
	if n > len(p) {
		return nil, nil, refBad
	}
	out := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k, rest, st := refDecode(p)
		if st != refOk {
			return nil, nil, st
		}
		v, rest, st := refDecode(rest)
		if st != refOk {
			return nil, nil, st
		}
		key, ok := k.(string)
		if !ok {
			return nil, nil, refBad
		}
		out[key] = v
		p = rest
	}
	return out, p, refOk
}

// fieldsOf decodes n fields.
func fieldsOf(p []byte, n int) ([]interface{}, []byte, int) {
	v, rest, st := refListOf(p, n)
	if st != refOk {
		return nil, nil, st
	}
	return v.([]interface{}), rest, refOk
}

func refStructure(p []byte, n int) (interface{}, []byte, int) {
	if len(p) == 0 {
		return nil, nil, refBad
	}
	sig := p[0]
	p = p[1:]
	want := 0
	switch sig {
	case 0x4E, 0x72, 0x50:
		want = 3
	case 0x52:
		want = 5
	case 0x70, 0x71, 0x7F:
		want = 1
	case 0x7E:
	default:
		return nil, nil, refUnknown
	}
	if n != want {
		if sig == 0x7E {
			// neither accepting nor refusing it is promised
			return nil, nil, refUnknown
		}
		return nil, nil, refBad
	}
	f, rest, st := fieldsOf(p, want)
	if st != refOk {
		return nil, nil, st
	}
	bad := false
	var v interface{}
	switch sig {
	case 0x4E:
		v = graph.Node{NodeIdentity: intIn(f[0], &bad), Labels: strsIn(f[1], &bad), Properties: mapIn(f[2], &bad)}
	case 0x72:
		v = graph.UnboundRelationship{RelIdentity: intIn(f[0], &bad), Type: strIn(f[1], &bad), Properties: mapIn(f[2], &bad)}
	case 0x52:
		v = graph.Relationship{RelIdentity: intIn(f[0], &bad), StartNodeIdentity: intIn(f[1], &bad), EndNodeIdentity: intIn(f[2], &bad), Type: strIn(f[3], &bad), Properties: mapIn(f[4], &bad)}
	case 0x50:
		path := graph.Path{}
		for _, x := range listIn(f[0], &bad) {
			y, ok := x.(graph.Node)
			bad = bad || !ok
			path.Nodes = append(path.Nodes, y)
		}
		for _, x := range listIn(f[1], &bad) {
			y, ok := x.(graph.UnboundRelationship)
			bad = bad || !ok
			path.Relationships = append(path.Relationships, y)
		}
		for _, x := range listIn(f[2], &bad) {
			path.Sequence = append(path.Sequence, int(intIn(x, &bad)))
		}
		v = path
	case 0x71:
		v = messages.RecordMessage{Fields: listIn(f[0], &bad)}
	case 0x70:
		v = messages.SuccessMessage{Metadata: mapIn(f[0], &bad)}
	case 0x7F:
		v = messages.FailureMessage{Metadata: mapIn(f[0], &bad)}
	case 0x7E:
		v = messages.IgnoredMessage{}
	}
	if bad {
		return nil, nil, refBad
	}
	return v, rest, refOk
}

func intIn(v interface{}, bad *bool) int64 {
	n, ok := v.(int64)
	*bad = *bad || !ok
	return n
}

func strIn(v interface{}, bad *bool) string {
	n, ok := v.(string)
	*bad = *bad || !ok
	return n
}

func mapIn(v interface{}, bad *bool) map[string]interface{} {
	n, ok := v.(map[string]interface{})
	*bad = *bad || !ok
	return n
}

func listIn(v interface{}, bad *bool) []interface{} {
	n, ok := v.([]interface{})
	*bad = *bad || !ok
	return n
}

func strsIn(v interface{}, bad *bool) []string {
	var out []string
	for _, x := range listIn(v, bad) {
		out = append(out, strIn(x, bad))
	}
	return out
}

// judge compares what the decoder made of a message with this payload to what it is.
func judge(p []byte, v interface{}, err error) {
	want, rest, st := refDecode(p)
	switch {
	case st == refBad:
		Check("C05,C03", err != nil, "a malformed or truncated message gives an error")
		Covered("malformed")
	case st == refOk && len(rest) == 0:
		Check("C03,C05", err == nil, "a valid message is decoded")
		agree("C03,C05", v, want, "a message is decoded to the value it holds")
		Covered("valid")
	case err == nil:
		// what follows the value, or an unknown structure
		Covered("accepted")
	default:
		Covered("refused")
	}
}
