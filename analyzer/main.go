package main

// Driver.
//
//	btccheck -prop C05 -tier quick    decide one property, write its evidence file
//	btccheck -all                     decide every property and print a table (development)
//	btccheck -dump OP...              print the outcomes of an operation (development)
//
// A property is decided in a child process, so that whatever happens to the analysis
// (time, memory, a crash) the parent still reports an outcome.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result is what one analysis of one property found.
type Result struct {
	Prop      string            `json:"property"`
	Platform  []string          `json:"platforms"`
	Files     []string          `json:"files"`
	Obs       []*Ob             `json:"obligations"`
	Scens     int               `json:"scenarios"`
	Rets      int               `json:"returns"`
	Exits     int               `json:"abnormal_ends"`
	Dead      int               `json:"pruned"`
	Ops       map[string]int    `json:"operations"`
	Funcs     []string          `json:"functions"`
	Blocks    int               `json:"blocks"`
	AllBlocks int               `json:"blocks_of_functions"`
	Calls     int               `json:"call_sites"`
	Loops     map[string]string `json:"loops"`
	Ext       []string          `json:"modelled"`
	Issues    []string          `json:"issues"`
	Err       string            `json:"error,omitempty"`
}

type platform struct{ os, arch string }

func platforms(tier string) []platform {
	if tier == "thorough" {
		return []platform{{"linux", "amd64"}, {"linux", "386"}, {"windows", "amd64"}, {"darwin", "arm64"}}
	}
	return []platform{{"", ""}}
}

// budget is the time the analysis of one platform may take before what is left of it is
// undecided.
func budget(tier string) time.Duration {
	if tier == "thorough" {
		return 40 * time.Minute
	}
	return 11 * time.Minute
}

func analyse(dir, id, tier string) (res *Result) {
	res = &Result{Prop: id, Ops: map[string]int{}, Loops: map[string]string{}}
	fns, ext, calls, blocks := map[string]bool{}, map[string]bool{}, map[string]bool{}, 0
	for _, pl := range platforms(tier) {
		var env []string
		name := "as built here"
		if pl.os != "" {
			name = pl.os + "/" + pl.arch
			env = []string{"GOOS=" + pl.os, "GOARCH=" + pl.arch, "CGO_ENABLED=0"}
		}
		p, err := load(dir, env...)
		if err != nil {
			res.Err = name + ": " + err.Error()
			return
		}
		x := newInterp(p)
		base, err := x.initState()
		if err != nil {
			res.Err = name + ": " + err.Error()
			return
		}
		s := &Session{p: p, x: x, base: base, prop: id, names: map[string]bool{}, byFunc: map[string]int{}, end: time.Now().Add(budget(tier))}
		props[id](s)
		s.histories(id)
		res.Platform = append(res.Platform, name)
		if pl.os != "" {
			for _, o := range s.obs {
				o.Scen = strings.TrimSpace(o.Scen + " (" + name + ")")
			}
		}
		res.Obs = append(res.Obs, s.obs...)
		res.Scens += s.scens
		res.Rets += s.rets
		res.Exits += s.exits
		res.Dead += s.dead
		for k, v := range s.byFunc {
			res.Ops[k] += v
		}
		if res.Files == nil {
			for _, f := range p.files {
				res.Files = append(res.Files, filepath.Base(f))
			}
		}
		owner := map[string]bool{}
		for b := range x.blocks {
			blocks++
			if f := b.Parent(); !owner[f.String()] {
				owner[f.String()] = true
				res.AllBlocks += len(f.Blocks)
			}
		}
		for f := range x.fns {
			fns[f] = true
		}
		for f := range x.ext {
			ext[f] = true
		}
		for c := range x.callSites {
			calls[x.where(c)+strconv.Itoa(int(c))] = true
		}
		for l, how := range x.loopsSeen {
			res.Loops[x.where(l)] = how
		}
		for _, i := range x.issues {
			res.Issues = append(res.Issues, i.kind+" "+i.what+" "+x.where(i.pos))
		}
	}
	res.Funcs, res.Ext, res.Calls, res.Blocks = sortedKeys(fns), sortedKeys(ext), len(calls), blocks
	return
}

func watchMemory(limit uint64) {
	go func() {
		for {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.Sys > limit {
				fmt.Fprintln(os.Stderr, "btccheck: memory limit reached")
				os.Exit(3)
			}
			time.Sleep(300 * time.Millisecond)
		}
	}()
}

func main() {
	debug.SetGCPercent(400)
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	dir := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "/verif/evidence", "where the evidence goes")
	known := flag.String("known", "/verif/KNOWN_FINDINGS.txt", "findings that are not reported again")
	child := flag.Bool("child", false, "internal")
	all := flag.Bool("all", false, "every property")
	dump := flag.Bool("dump", false, "print outcomes of operations")
	flag.Parse()
	switch {
	case *child:
		if f := os.Getenv("BTCCHECK_PROFILE"); f != "" {
			if w, err := os.Create(f); err == nil {
				pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
		}
		watchMemory(20 << 30)
		json.NewEncoder(os.Stdout).Encode(analyse(*dir, *prop, *tier))
	case *dump:
		dumpOps(*dir, flag.Args())
	case *all:
		runAll(*dir, *tier, flag.Args())
	default:
		if props[*prop] == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(2)
		}
		os.Exit(decide(*dir, *prop, *tier, *out, *known))
	}
}

func decide(dir, id, tier, out, known string) int {
	t0 := time.Now()
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	ctx, stop := context.WithTimeout(context.Background(), limit)
	defer stop()
	cmd := exec.CommandContext(ctx, os.Args[0], "-child", "-prop", id, "-tier", tier, "-repo", dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	res := &Result{}
	if err == nil {
		err = json.Unmarshal(so.Bytes(), res)
	}
	if err != nil {
		res = &Result{Prop: id}
		res.Obs = []*Ob{{Rule: "the analysis completes", Status: "undecided", Detail: cut(fmt.Sprint(err, ": ", se.String()), 2000)}}
	}
	if res.Err != "" {
		res.Obs = append(res.Obs, &Ob{Rule: "the package can be analysed", Status: "violated", Detail: res.Err})
	} else if len(res.Obs) == 0 {
		res.Obs = append(res.Obs, &Ob{Rule: "the property has obligations", Status: "violated", Detail: "no obligation was generated: the operations it speaks of were not found"})
	}
	kn := readKnown(known, id)
	var bad, open []*Ob
	proved, listed := 0, 0
	for _, o := range res.Obs {
		switch o.Status {
		case "proved":
			proved++
		case "violated":
			if k := kn.match(o); k != "" {
				listed++
				kn.seen[k] = true
			} else {
				bad = append(bad, o)
			}
		default:
			open = append(open, o)
		}
	}
	for _, k := range kn.lines {
		if kn.seen[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	os.MkdirAll(out, 0o755)
	replay := filepath.Join(out, id+".replay.txt")
	os.Remove(replay)
	if len(bad)+len(open) > 0 {
		var b strings.Builder
		for _, o := range append(append([]*Ob{}, bad...), open...) {
			fmt.Fprintf(&b, "%s: %s\n  rule: %s\n  inputs: %s\n", o.Status, o.Func, o.Rule, o.Scen)
			for _, l := range [][2]string{{"site", o.Site}, {"outcome", o.Outcome}, {"detail", o.Detail}} {
				if l[1] != "" {
					fmt.Fprintf(&b, "  %s: %s\n", l[0], l[1])
				}
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	evidence(res, id, tier, out, t0, proved, len(bad), len(open), listed)
	fmt.Printf("%s: %d obligations, %d proved, %d violated, %d undecided; %d input partitions, %d outcomes, %d functions, %.1fs\n",
		id, len(res.Obs), proved, len(bad), len(open), res.Scens, res.Rets+res.Exits, len(res.Funcs), time.Since(t0).Seconds())
	show := func(os []*Ob) {
		for i, o := range os {
			if i == 5 {
				fmt.Printf("  ... %d more in %s\n", len(os)-i, replay)
				break
			}
			fmt.Printf("  %s: %s: %s [%s] %s\n", o.Status, o.Func, o.Rule, cut(o.Scen, 120), o.Site)
			for _, l := range []string{o.Outcome, o.Detail} {
				if l != "" {
					fmt.Println("     ", cut(l, 300))
				}
			}
		}
	}
	show(bad)
	show(open)
	if len(bad) > 0 || undecidedFails && len(open) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

// undecidedFails: whether an obligation the analysis cannot decide is reported as a
// violation. It is not: see DESIGN.md, "Undecided obligations".
const undecidedFails = false

type knownSet struct {
	lines []string
	seen  map[string]bool
}

// readKnown reads lines "known: property=C01 function=F rule=R": the violations of rule R
// in operation F are a recorded finding.
func readKnown(file, id string) *knownSet {
	k := &knownSet{seen: map[string]bool{}}
	f, err := os.Open(file)
	if err != nil {
		return k
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if l, ok := strings.CutPrefix(sc.Text(), "known: property="+id+" "); ok {
			k.lines = append(k.lines, l)
		}
	}
	return k
}

func (k *knownSet) match(o *Ob) string {
	for _, l := range k.lines {
		if strings.HasPrefix(l, "function="+o.Func+" rule="+o.Rule) {
			return l
		}
	}
	return ""
}

func evidence(res *Result, id, tier, out string, t0 time.Time, proved, bad, open, listed int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rules := map[string]int{}
	var samples []interface{}
	per := map[string]bool{}
	for _, o := range res.Obs {
		rules[o.Rule]++
		if !per[o.Rule+o.Func] && len(samples) < 25 {
			per[o.Rule+o.Func] = true
			samples = append(samples, map[string]string{"rule": o.Rule, "function": o.Func, "inputs": o.Scen, "status": o.Status})
		}
	}
	loops := map[string]int{}
	for _, how := range res.Loops {
		loops[how]++
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(t0).Seconds(), "violations": bad,
		"assumptions": assumptions,
		"coverage": map[string]interface{}{
			"explanation": "Static: the SSA form of /repo's current source is interpreted abstractly, per partition of the inputs of each operation, without running it and without a solver. Each outcome of each partition gives one obligation per rule; an obligation is proved when the value numbers and facts of the outcome imply the rule. Every partition covers all inputs of its description, so no input is sampled.",
			"obligations": len(res.Obs), "discharged": proved, "violated": bad, "undecided": open, "known_findings": listed,
			"rules": rules, "input_partitions": res.Scens, "partitions_by_operation": res.Ops,
			"outcomes_returning": res.Rets, "outcomes_abnormal_or_retry": res.Exits, "outcomes_contradictory": res.Dead,
			"source_files": res.Files, "functions": res.Funcs, "basic_blocks_reached": res.Blocks, "basic_blocks_of_these_functions": res.AllBlocks,
			"call_sites": res.Calls, "loops": res.Loops, "loops_by_treatment": loops, "library_functions_modelled": res.Ext,
			"platforms": res.Platform, "samples": samples,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, id+".json"), append(b, '\n'), 0o644)
}

var assumptions = []string{
	"go/packages, go/types and go/ssa (golang.org/x/tools) translate the source faithfully",
	"the models of the library functions listed in library_functions_modelled (standard library, x/crypto, mr-tron/base58, aureleoules/ecdsa) are right; SHA-256, RIPEMD-160, HMAC/PBKDF2, Base58 and the group operations of the curve are uninterpreted functions with their algebraic laws",
	"callers pass keys and networks of the shape the library itself makes (non-nil numbers, one version byte per network), as the properties state",
}

// ---- development ----

func runAll(dir, tier string, ids []string) {
	if len(ids) == 0 {
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	type job struct {
		id  string
		res *Result
		t   float64
		err string
	}
	jobs := make([]*job, len(ids))
	sem := make(chan bool, 6)
	done := make(chan bool)
	for i, id := range ids {
		j := &job{id: id}
		jobs[i] = j
		go func() {
			sem <- true
			t0 := time.Now()
			ctx, stop := context.WithTimeout(context.Background(), 600*time.Second)
			cmd := exec.CommandContext(ctx, os.Args[0], "-child", "-prop", j.id, "-tier", tier, "-repo", dir)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err := cmd.Run()
			stop()
			j.res = &Result{}
			if err != nil {
				j.err = cut(fmt.Sprint(err, se.String()), 1500)
			} else {
				json.Unmarshal(so.Bytes(), j.res)
				j.err = j.res.Err
			}
			j.t = time.Since(t0).Seconds()
			<-sem
			done <- true
		}()
	}
	for range ids {
		<-done
	}
	for _, j := range jobs {
		n := map[string]int{}
		for _, o := range j.res.Obs {
			n[o.Status]++
		}
		mark := "ok       "
		switch {
		case j.err != "":
			mark = "ERROR    "
		case n["violated"] > 0:
			mark = "VIOLATED "
		case n["undecided"] > 0:
			mark = "undecided"
		}
		fmt.Printf("%s %s obligations=%d %v scenarios=%d rets=%d exits=%d dead=%d %.2fs %s\n", mark, j.id, len(j.res.Obs), n, j.res.Scens, j.res.Rets, j.res.Exits, j.res.Dead, j.t, j.err)
		shown := 0
		for _, want := range []string{"violated", "undecided"} {
			for _, o := range j.res.Obs {
				if o.Status == want && shown < 3 {
					shown++
					fmt.Printf("   %s %s [%s] %s\n      %s\n      %s %s\n", o.Status, o.Func, cut(o.Scen, 200), o.Rule, cut(o.Outcome, 500), cut(o.Detail, 500), o.Site)
				}
			}
		}
	}
}

func dumpOps(dir string, names []string) {
	p, err := load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	x := newInterp(p)
	base, err := x.initState()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	s := &Session{p: p, x: x, base: base, names: map[string]bool{}, byFunc: map[string]int{}, end: time.Now().Add(budget("quick"))}
	ops := s.ops()
	for _, n := range names {
		if ops[n] == nil {
			fmt.Println("no operation", n)
			continue
		}
		ops[n](func(c *Scen, in *In, outs []*Out) {
			fmt.Println("==", n, c.name, c.ok, x.steps)
			for _, o := range outs {
				fmt.Println("  ", cut(o.lits(), 300))
				fmt.Println("     ->", cut(o.shown(), 300))
				if z := o.fuzzy(); z != "" {
					fmt.Println("     FUZZY", z)
				}
			}
		})
	}
	for _, i := range x.issues {
		fmt.Println("issue", i.kind, i.what, x.where(i.pos))
	}
}
