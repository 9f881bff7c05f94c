// vt decides the properties in ../properties.jsonl by abstract interpretation of the type-checked SSA form of the
// repository: see ../DESIGN.md.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func goRoot() string { return runtime.GOROOT() }

type knownFinding struct {
	prop, key, text string
}

// readKnown reads the committed list of known findings. Lines: "known: property=<id> key=<rule text> :: <what fails>";
// lines "fixed: ..." record repairs and suppress nothing.
func readKnown(path string) ([]knownFinding, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " ")
		key, text, _ := strings.Cut(strings.TrimPrefix(rest, "key="), " :: ")
		r = append(r, knownFinding{id, strings.TrimSpace(key), strings.TrimSpace(text)})
	}
	return r, sc.Err()
}

func (f *Finding) concerns(prop string) bool {
	for _, p := range f.Props {
		if p == prop || p == "*" {
			return true
		}
	}
	return false
}

func (f *Finding) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s: %s\n", f.Rule, f.Msg)
	if f.Pos != "" {
		fmt.Fprintf(&b, "  at %s\n", f.Pos)
	}
	for _, x := range f.Stack {
		fmt.Fprintf(&b, "    in %s\n", x)
	}
	if len(f.Trace) > 0 {
		fmt.Fprintf(&b, "  path:\n")
		for _, x := range f.Trace {
			fmt.Fprintf(&b, "    - %s\n", x)
		}
	}
	return b.String()
}

func main() {
	prop := flag.String("property", "", "the property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "the repository")
	verif := flag.String("verif", "/verif", "the verification directory")
	run := flag.String("run", "", "debugging: run these harnesses (comma separated) and print everything")
	marks := flag.Bool("marks", false, "print the marks every harness reaches")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	go watchMemory()
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	code := mainRun(*prop, *tier, *repo, *verif, *run, *marks)
	pprof.StopCPUProfile()
	os.Exit(code)
}

const totalBudget = 600 * time.Second

func mainRun(prop, tier, repo, verif, run string, marks bool) int {
	begin := time.Now()
	scratch, err := os.MkdirTemp("", "vt")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	ld, err := loadProgram(repo, filepath.Join(verif, "engine", "models"), scratch)
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	if run != "" || marks {
		return debugRun(ld, run, marks)
	}
	spec, ok := properties[prop]
	if !ok {
		fmt.Println("no such property:", prop)
		return 2
	}
	known, err := readKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	required := readMarks(filepath.Join(verif, "engine", "marks.txt"))
	list := spec.harness
	if tier == "thorough" {
		list = append(append([]string(nil), list...), spec.thorough...)
	}
	var violations, undecided []*Finding
	knownHit := map[int]bool{}
	obl := map[string]int64{}
	funcs := map[string]bool{}
	var states, merged, forks, paths int64
	covered := map[string]bool{}
	var perHarness []map[string]interface{}
	matches := func(f *Finding) int {
		for i, k := range known {
			if k.prop == prop && f.matches(k.key) {
				return i
			}
		}
		return -1
	}
	var missing []string
	for _, h := range list {
		t := time.Now()
		opts := optsFor(h, tier)
		// a check has 900 s altogether, for all its harnesses
		left := (totalBudget - time.Since(begin)) / 2
		if tier == "thorough" {
			left = 800*time.Second - time.Since(begin)
		}
		if opts.budget > left {
			opts.budget = max(left, 5*time.Second)
		}
		runtime.GC()
		atomic.StoreInt32(&memoryFull, 0)
		e := newEng(ld, opts)
		e.want = func(f *Finding) bool {
			return f.Rule != "undecided" && f.concerns(prop) && matches(f) < 0
		}
		e.isKnown = func(f *Finding) bool {
			for _, k := range known {
				if f.matches(k.key) {
					return true
				}
			}
			return false
		}
		e.start(h)
		var keys []string
		for k := range e.findings {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		bad := false
		for _, k := range keys {
			f := e.findings[k]
			if f.Rule == "undecided" {
				undecided = append(undecided, f)
				continue
			}
			if !f.concerns(prop) {
				continue
			}
			if i := matches(f); i >= 0 {
				knownHit[i] = true
				continue
			}
			f.Trace = append([]string{"harness " + h}, f.Trace...)
			violations = append(violations, f)
			bad = true
		}
		n := 0
		e.obl.Range(func(k, v interface{}) bool {
			id := k.(string)
			if oblConcerns(id, prop) {
				obl[id] += atomic.LoadInt64(v.(*int64))
				n++
			}
			return true
		})
		e.funcs.Range(func(k, v interface{}) bool {
			fi := e.info(k.(*ssa.Function))
			if fi.inRepo {
				funcs[fi.name] = true
			}
			return true
		})
		e.cover.Range(func(k, v interface{}) bool { covered[h+": "+k.(string)] = true; return true })
		if !bad {
			for _, m := range required[h] {
				if !covered[h+": "+m] {
					missing = append(missing, h+": "+m)
				}
			}
		}
		states += e.nStates
		merged += e.nMerged
		forks += e.nForks
		paths += e.nPaths
		perHarness = append(perHarness, map[string]interface{}{"harness": h, "abstract_states": e.nStates, "merged": e.nMerged,
			"case_splits": e.nForks, "paths": e.nPaths, "rules_of_this_property": n, "wall_s": time.Since(t).Seconds(),
			"fixpoint": atomic.LoadInt32(&e.stop) == 0})
		if bad {
			break
		}
	}
	code := 0
	for i := range known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[i].text)
		}
	}
	for _, f := range undecided {
		fmt.Printf("UNDECIDED property=%s %s %s\n", prop, f.Msg, f.Pos)
	}
	if len(violations) == 0 && len(missing) > 0 {
		if len(undecided) > 0 {
			fmt.Printf("UNDECIDED property=%s not all behaviour it speaks about could be analysed: %v\n", prop, missing)
			undecided = append(undecided, &Finding{Msg: "not reached: " + strings.Join(missing, "; ")})
		} else {
			violations = append(violations, &Finding{Props: []string{prop}, Rule: "unreachable behaviour",
				Msg: "no path of the program leads to: " + strings.Join(missing, "; ")})
		}
	}
	if len(violations) == 0 && len(obl) == 0 && code == 0 {
		fmt.Println("no verdict: no instance of the property was analysed")
		code = 2
	}
	replay := filepath.Join(verif, "evidence", prop+".violation.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	if len(violations) > 0 {
		code = 1
		var b strings.Builder
		for _, f := range violations {
			b.WriteString(f.describe())
			b.WriteString("\n")
		}
		if err := os.WriteFile(replay, []byte(b.String()), 0o644); err != nil {
			fmt.Println(err)
		}
		f := violations[0]
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		fmt.Print(f.describe())
	}
	var obligations int64
	discharged := 0
	var names []string
	for k, v := range obl {
		obligations += v
		names = append(names, k)
	}
	sort.Strings(names)
	discharged = len(names) - len(violations)
	if discharged < 0 {
		discharged = 0
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var cv []string
	for c := range covered {
		cv = append(cv, c)
	}
	sort.Strings(cv)
	var und []string
	for _, f := range undecided {
		und = append(und, f.Msg+" "+f.Pos)
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": "Abstract interpretation of the SSA form of the repository's current source, to a fixpoint. " +
				"`rules` are the checked statements of this property with, in rule_instances, the number of (state, program point) pairs they were decided at; " + spec.rule,
			"obligations":        len(names),
			"discharged":         discharged,
			"rules":              names,
			"rule_instances":     obligations,
			"functions_analysed": len(fl),
			"functions":          fl,
			"abstract_states":    states,
			"merged_states":      merged,
			"case_splits":        forks,
			"paths_ended":        paths,
			"behaviour_reached":  cv,
			"harnesses":          perHarness,
			"source_files":       ld.repoFiles(),
			"source_digest":      ld.digest(),
			"undecided":          und,
		},
		"assumptions": append(append([]string(nil), commonAssumptions...), spec.assume...),
		"wall_s":      time.Since(begin).Seconds(),
		"violations":  len(violations),
	}
	w, err := os.Create(filepath.Join(verif, "evidence", prop+".json"))
	if err == nil {
		enc := json.NewEncoder(w)
		enc.SetIndent("", " ")
		err = enc.Encode(ev)
		w.Close()
	}
	if err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 2
	}
	if code == 0 {
		fmt.Printf("property=%s holds: %d rules, %d instances, %d functions, %d abstract states, %.1fs\n", prop, len(names), obligations, len(fl), states, time.Since(begin).Seconds())
	}
	return code
}

// matches tells whether a known finding names this one: rule, message and, after "@", the function.
func (f *Finding) matches(key string) bool {
	k, fn, hasFn := strings.Cut(key, " @ ")
	if f.Rule+": "+f.Msg != k {
		return false
	}
	if !hasFn {
		return true
	}
	for _, s := range f.Stack {
		if n, _, _ := strings.Cut(s, " "); n == fn {
			return true
		}
	}
	return false
}

func oblConcerns(name, prop string) bool {
	i := strings.IndexByte(name, '|')
	if i < 0 {
		return false
	}
	for _, p := range strings.Split(name[:i], ",") {
		if p == prop {
			return true
		}
	}
	return false
}

func readMarks(path string) map[string][]string {
	r := map[string][]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		h, m, ok := strings.Cut(l, ": ")
		if ok {
			r[h] = append(r[h], m)
		}
	}
	return r
}

func (ld *loaded) repoFiles() int {
	n := 0
	for _, p := range ld.repo {
		n += len(p.CompiledGoFiles)
	}
	return n
}

// digest identifies the source that was analysed.
func (ld *loaded) digest() string {
	var fs []string
	for _, p := range ld.repo {
		fs = append(fs, p.CompiledGoFiles...)
	}
	sort.Strings(fs)
	h := sha256.New()
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		fmt.Fprintf(h, "%s %d\n", filepath.Base(f), len(b))
		h.Write(b)
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func debugRun(ld *loaded, run string, marks bool) int {
	var hs []string
	if marks {
		seen := map[string]bool{}
		for _, p := range properties {
			for _, h := range append(append([]string(nil), p.harness...), p.thorough...) {
				if !seen[h] {
					seen[h] = true
					hs = append(hs, h)
				}
			}
		}
		sort.Strings(hs)
	} else {
		hs = strings.Split(run, ",")
	}
	code := 0
	for _, h := range hs {
		t := time.Now()
		e := newEng(ld, optsFor(h, os.Getenv("VERIF_TIER")))
		if os.Getenv("VHIST") != "" {
			e.hist = map[string]int{}
			fd, _ := os.Create("/tmp/loop.txt")
			e.dump = func(s string) { fmt.Fprintf(fd, "%q\n", s) }
		}
		e.start(h)
		if marks {
			var ms []string
			e.cover.Range(func(k, v interface{}) bool { ms = append(ms, k.(string)); return true })
			sort.Strings(ms)
			for _, m := range ms {
				fmt.Println(h + ": " + m)
			}
			continue
		}
		if e.hist != nil {
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range e.hist {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			for i := 0; i < len(l) && i < 25; i++ {
				fmt.Println("   hist", l[i].n, l[i].k)
			}
		}
		fmt.Println(h, time.Since(t), "states", e.nStates, "merged", e.nMerged, "forks", e.nForks, "paths", e.nPaths)
		fmt.Print("   ")
		e.cover.Range(func(k, v interface{}) bool { fmt.Print(k, "; "); return true })
		no := 0
		e.obl.Range(func(k, v interface{}) bool {
			if os.Getenv("VOBL") != "" {
				fmt.Println("   obligation", k, atomic.LoadInt64(v.(*int64)))
			}
			no++
			return true
		})
		fmt.Println("rules", no)
		var keys []string
		for k := range e.findings {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			f := e.findings[k]
			code = 1
			fmt.Println("FINDING", f.Props, f.n, "times")
			fmt.Print(f.describe())
		}
	}
	return code
}
