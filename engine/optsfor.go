package main

import (
	"os"
	"strings"
	"time"
)

var codecModels = map[string]string{
	"(bolt/encoding.Encoder).Encode":  "EncodeModel",
	"(*bolt/encoding.Encoder).Encode": "EncodeModel",
	"(bolt/encoding.Decoder).Decode":  "DecodeModel",
	"(*bolt/encoding.Decoder).Decode": "DecodeModel",
}

func optsFor(h, tier string) Opts {
	o := Opts{name: h, budget: 150 * time.Second}
	switch h {
	case "HOpen", "HSession", "HPipeline", "HPipeTx", "HPipeline3", "HTimeout", "HLogSession", "HRecSession", "HRecOpen", "HRecFile", "HLogPool", "HLogPipeline", "HUndec", "HUndecPipe", "HPool1", "HPool1Stale", "HPool2", "HPoolUndec", "HPool3", "HPoolClose2", "HPoolRace", "HLocks", "HConfig", "HTLS", "HSecrets", "HSqlSession", "HSqlUndec", "HSqlArgs", "HSqlRow", "HResult", "HWeird", "HLong", "HLongest", "HLongPool":
		o.repl = codecModels
	}
	if h == "HEncSizes" {
		o.widen = true
		o.budget = 30 * time.Second
		o.repl = map[string]string{"(bolt/encoding.Encoder).Write": "EncWriteModel"}
	}
	if h == "HRound" || h == "HAlias" {
		o.widen = true
	}
	if h == "HRoundDeep" {
		o.maxRec = 200000
	}
	if h == "HDecDepth" {
		o.maxRec = 200000
	} else if strings.HasPrefix(h, "HDec") {
		o.widen = true
	}
	switch h {
	case "HSecrets", "HLog", "HErrors":
		o.fmtFull = true
	}
	if h == "HSqlSession" || h == "HSqlUndec" {
		o.also = "C25"
	}
	if strings.HasPrefix(h, "HLog") {
		o.also = "C28"
	}
	if strings.HasPrefix(h, "HRec") || h == "HReplay" {
		o.also = "C34"
		o.ends = true
	}
	o.sparse = strings.HasPrefix(h, "HLong") || h == "HRoundDeep"
	if h == "HLongest" {
		o.budget = 500 * time.Second
	}
	o.race = h == "HPoolRace"
	o.lockset = strings.HasPrefix(h, "HLocks")
	if d, err := time.ParseDuration(os.Getenv("VBUDGET")); err == nil {
		o.budget = d
	}
	o.mergeAll = os.Getenv("VMERGE") != ""
	return o
}

func (e *Eng) maxSteps() int {
	if e.opts.name == "HLongest" {
		return 300000000
	}
	if e.opts.name == "HEncBounds" || e.opts.name == "HDecDepth" || e.opts.name == "HRoundDeep" {
		return 30000000
	}
	return 3000000
}
