package main

type propSpec struct {
	harness  []string
	thorough []string
	rule     string
	assume   []string
}

var commonAssumptions = []string{
	"The Go compiler and runtime implement the language; the SSA form built by golang.org/x/tools/go/ssa agrees with them.",
	"Library functions outside the analysed packages behave as their models in engine/std.go and engine/models/std.go say.",
	"64-bit arithmetic on lengths and counters does not overflow.",
}

var sessionAssume = []string{
	"The server is the automaton in engine/models/net.go: it answers requests in order as the Bolt v1 protocol says, with at most two records per result; every I/O operation can fail at any point.",
	"Encoder.Encode and Decoder.Decode are taken at their contract (whole message or error), which C01-C08 decide.",
	"Calls on one connection are not concurrent (as the package documents).",
}

var session = []string{"HSession", "HPipeline", "HPipeTx", "HPipeline3", "HLong", "HWire", "HUndec", "HUndecPipe", "HLogSession", "HLogPipeline"}

var codecAssume = []string{
	"Numbers and the bytes of strings are unknowns of their full range. Containers: every size for elements of one kind (by generalising the loops), and elements of every kind for up to three elements and three levels; deeper nesting runs through the same functions.",
	"Maps are iterated in insertion order; an encoding with the entries in another order is accepted.",
}

var decode = []string{"HDecScalar", "HDecUndefined", "HDecString", "HDecSizes", "HDecNest", "HDecMap"}

var properties = map[string]propSpec{
	"C01": {harness: []string{"HEncScalar", "HEncNest"}, assume: codecAssume},
	"C02": {harness: []string{"HEncNest", "HEncSizes", "HEncBounds", "HGraph"}, assume: codecAssume},
	"C03": {harness: append([]string{"HDecCut", "HGraph", "HMessages"}, decode...), assume: codecAssume},
	"C04": {harness: []string{"HGraph", "HMessages"}, assume: codecAssume},
	"C05": {harness: append([]string{"HDecCut", "HDecAny", "HDecFields", "HDecBytes", "HDecDepth", "HDecFault", "HWeird", "HResult", "HSqlRow"}, decode...), thorough: []string{"HDecBytes5"}, assume: codecAssume},
	"C06": {harness: []string{"HWire", "HChunks", "HEncScalar", "HEncFault"}, assume: codecAssume},
	"C07": {harness: []string{"HEncBad", "HEncFault", "HEncScalar", "HChunks"}, assume: codecAssume},
	"C08": {harness: []string{"HWire", "HWireEnd", "HLogWire", "HDecRead", "HDecFault"}, assume: append([]string{"Messages of one to three chunks of any sizes, delivered with up to two partial reads of any size per message."}, codecAssume...)},
	"C09": {harness: session, thorough: []string{"HLongest"}, assume: sessionAssume},
	"C10": {harness: append([]string{"HOpen"}, session...), assume: sessionAssume},
	"C11": {harness: append([]string{"HOpen", "HWireEnd"}, session...), assume: sessionAssume},
	"C12": {harness: []string{"HOpen", "HTLS", "HConfig", "HTimeout", "HSession", "HPipeline", "HPool1"}, assume: sessionAssume},
	"C13": {harness: []string{"HOpen"}, assume: sessionAssume},
	"C14": {harness: append([]string{"HOpen"}, session...), assume: sessionAssume},
	"C15": {harness: session, thorough: []string{"HLongest"}, assume: sessionAssume},
	"C16": {harness: session, thorough: []string{"HLongest"}, assume: sessionAssume},
	"C17": {harness: append([]string{"HLongest", "HEmpty", "HWide"}, session...), assume: sessionAssume},
	"C18": {harness: []string{"HPool1", "HPool1Stale", "HPool2", "HPoolUndec", "HPoolClose2", "HPool3", "HPoolRace", "HLongPool"}, assume: sessionAssume},
	"C19": {harness: []string{"HPool1", "HPool1Stale", "HPool2", "HPoolUndec", "HPoolRace", "HLongPool"}, assume: sessionAssume},
	"C20": {harness: []string{"HPool1", "HPoolUndec", "HPoolClose2", "HPool2", "HPool3", "HPoolRace", "HLongPool"}, assume: sessionAssume},
	"C22": {harness: []string{"HTLS"}, assume: sessionAssume},
	"C23": {harness: []string{"HConfig", "HSecrets"}, assume: sessionAssume},
	"C24": {harness: []string{"HConfig", "HTLS"}, assume: sessionAssume},
	"C25": {harness: []string{"HSqlArgs", "HSqlRow", "HSqlSession", "HSqlUndec"}, assume: sessionAssume},
	"C26": {harness: []string{"HResult"}, assume: sessionAssume},
	"C27": {harness: []string{"HErrors", "HOpen", "HSession", "HPipeline", "HSqlSession"}, assume: sessionAssume},
	"C28": {harness: []string{"HLog", "HLogSession", "HLogPipeline", "HLogWire", "HLogEnd", "HLogPool", "HWide"}, assume: sessionAssume},
	"C29": {harness: []string{"HPool1", "HPool2", "HPool1Stale"}, assume: sessionAssume},
	"C30": {harness: []string{"HRound", "HRoundDeep"}, assume: codecAssume},
	"C32": {harness: []string{"HAlias", "HAliasSession"}, assume: codecAssume},
	"C33": {harness: []string{"HPoolSettings"}, assume: sessionAssume},
	"C34": {harness: []string{"HRecOpen", "HRecSession", "HRecWire", "HRecEnd", "HRecFile", "HReplay"}, assume: sessionAssume},
	"C21": {harness: []string{"HLocks", "HLocksCodec", "HLocksWire"}, assume: []string{"Connections, statements and row sets are used by one goroutine at a time (as the package documents); the lock discipline is judged for the pools, the drivers and the package variables.", "A location is shared from the moment NewDriver, NewDriverPool or NewClosableDriverPool returns it, or from package initialisation."}},
}
