package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(600)
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings are")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "verbose")
	noev := flag.Bool("noevidence", false, "write no files")
	flag.Parse()
	if f := os.Getenv("DCPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if flag.NArg() > 0 && flag.Arg(0) == "dump" {
		dump(*repo, flag.Args()[1:])
		return
	}
	if flag.NArg() > 0 && flag.Arg(0) == "ssa" {
		p, err := load(*repo, "")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p.Fn(flag.Arg(1), flag.Arg(2), flag.Arg(3)).WriteTo(os.Stdout)
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range ruleTab {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		d, ok := ruleTab[id]
		if !ok {
			fmt.Printf("no rule for %q\n", id)
			os.Exit(2)
		}
		c := runRule(id, d, *repo, *verif, *tier, *verbose, *noev)
		if c > code {
			code = c
		}
	}
	if os.Getenv("DCPROF") == "" {
		os.Exit(code)
	}
}

func runRule(id string, d ruleDef, repo, verif, tier string, verbose, noev bool) int {
	start := time.Now()
	p, err := load(repo, "")
	if err != nil {
		fmt.Printf("cannot analyse %s: %v\n", repo, err)
		return 2
	}
	r := &Rule{ID: id, Tier: tier, P: p, Dir: repo, obls: map[string]int{}, fns: map[*ssa.Function]bool{}, start: start}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.undecided("internal error: %v", x)
				if verbose {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		d.run(r)
	}()
	r.collect()
	known := readKnown(filepath.Join(verif, "known-findings.txt"), id)
	var newF []Finding
	var knownF []string
	for _, f := range r.finds {
		hit := ""
		for _, k := range known {
			if strings.HasPrefix(f.Key+" ", k.key+" ") {
				hit = k.text
			}
		}
		if hit != "" {
			knownF = append(knownF, hit)
		} else {
			newF = append(newF, f)
		}
	}
	wall := time.Since(start).Seconds()
	replay := filepath.Join(verif, "evidence", id+".replay.txt")
	if !noev {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		writeEvidence(r, d, verif, tier, wall, newF, knownF)
		os.Remove(replay)
		if len(newF) > 0 {
			var b strings.Builder
			fmt.Fprintf(&b, "property %s: %s\nreproduce: /verif/check.sh %s %s\n\n", id, d.rule, id, tier)
			for _, f := range newF {
				fmt.Fprintf(&b, "[%s] %s: %s\n", f.Key, f.Pos, f.Msg)
				for _, t := range f.Trace {
					fmt.Fprintf(&b, "    %s\n", t)
				}
			}
			os.WriteFile(replay, []byte(b.String()), 0644)
		}
	}
	for _, k := range uniq(knownF) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	for _, u := range r.undec {
		fmt.Printf("UNDECIDED property=%s %s\n", id, u)
	}
	if verbose {
		for _, k := range okeys(r.obls) {
			fmt.Printf("  %s: %d %s\n", id, r.obls[k], k)
		}
	}
	for _, f := range newF {
		fmt.Printf("%s: [%s] %s\n", f.Pos, f.Key, f.Msg)
		if verbose {
			for _, t := range f.Trace {
				fmt.Printf("    %s\n", t)
			}
		}
	}
	if len(newF) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	n := 0
	for _, v := range r.obls {
		n += v
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d undecided=%d wall=%.1fs\n", id, n, len(r.fns), len(r.undec), wall)
	return 0
}

func okeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func uniq(xs []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

type knownEntry struct{ key, text string }

// readKnown: lines "known: property=<id> key=<key> <text>"; "fixed:" lines
// suppress nothing.
func readKnown(file, id string) []knownEntry {
	d, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownEntry
	for _, l := range strings.Split(string(d), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		if !strings.HasPrefix(rest, "key=") {
			continue
		}
		rest = rest[4:]
		i := strings.Index(rest, " ")
		if i < 0 {
			continue
		}
		r = append(r, knownEntry{rest[:i], rest[i+1:]})
	}
	return r
}

func writeEvidence(r *Rule, d ruleDef, verif, tier string, wall float64, newF []Finding, known []string) {
	seed := 0
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	paths, steps, loops, calls := 0, 0, 0, 0
	for _, e := range r.engs {
		paths += e.npaths
		steps += e.steps
		loops += e.nloops
		calls += len(e.calls)
	}
	n := 0
	for _, v := range r.obls {
		n += v
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":         "Static analysis of the type-checked SSA form of the current source; nothing of it is run. Rule: " + d.rule,
		"rule":                d.rule,
		"obligations":         n,
		"obligations_by_kind": r.obls,
		"functions_analysed":  fns,
		"abstract_paths":      paths,
		"instructions":        steps,
		"loops":               loops,
		"call_sites":          calls,
		"samples":             r.sample,
		"undecided":           r.undec,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	var vs []string
	for _, f := range newF {
		vs = append(vs, f.Pos+": "+f.Msg)
	}
	if vs != nil {
		cov["violations_found"] = vs
	}
	if known != nil {
		cov["known_findings"] = uniq(known)
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{
			"the models of the standard library and system calls in tool/models.go",
			"distinct pointer roots do not alias unless one was stored in the other",
			"the number of shards and workers is taken as 2 where loops over them are kept apart",
		},
		"wall_s": wall, "violations": len(newF),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.ID+".json"), append(b, '\n'), 0644)
}

func dump(repo string, a []string) {
	p, err := load(repo, "")
	if err != nil {
		panic(err)
	}
	fn := p.Fn(a[0], a[1], a[2])
	e := newEngine(p)
	e.OneFault = true
	debugEngine = true
	if os.Getenv("NOFAULT") != "" {
		e.NoFault = true
	}
	if os.Getenv("NOCLOSE") != "" {
		e.NoFail = func(n string) bool { return n == "(*os.File).Close" }
	}
	if os.Getenv("NOGO") != "" {
		e.H.Go = func(ev *Event) string { return "skip" }
	}
	e.Unroll = os.Getenv("UNROLL") != ""
	if n, _ := strconv.Atoi(os.Getenv("PEEL")); n > 0 {
		e.Peel = n
	}
	if os.Getenv("EV") != "" {
		e.H.On = func(ev *Event) {
			if strings.Contains(os.Getenv("EV"), ev.Kind) {
				fmt.Println("EV", ev.Kind, ev.Name, p.Pos(ev.Ins.Pos()), ev.Args, ev.Addr, ev.Val, "->", ev.Res)
				for _, a := range ev.Args {
					if a.Kind == KSlice {
						fmt.Println("     content", e.contentOf(ev.St, a))
					}
				}
			}
		}
	}
	outs := e.Run(fn, newState(), nil)
	for _, o := range outs {
		fmt.Printf("%s %s ret=%v fault=%v flags=%s\n", o.kind, p.Pos(o.pos), o.ret, o.st.fault, o.st.flagKey())
		if os.Getenv("FACTS") != "" {
			fmt.Println(o.st.String())
		}
	}
	fmt.Println(len(outs), "paths", e.steps, "steps", e.nloops, "loops", e.Trouble)
}
