package main

// govc: a deductive verifier for a subset of Go.
//
//	govc verify  -repo DIR -contracts DIR [-fn REGEX] [-prop ID] [-v] ...
//	govc locals  -repo DIR -contracts DIR       (rewrite contracts/locals.json)

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

type report struct {
	Prop       string         `json:"property,omitempty"`
	Functions  []fnReport     `json:"functions"`
	Lemmas     []string       `json:"lemmas"`
	Trusted    []string       `json:"trusted_contracts"`
	Unmodelled []string       `json:"unmodelled_library_functions"`
	Axioms     []string       `json:"axioms"`
	Prelude    []string       `json:"prelude_axioms"`
	Inlined    []string       `json:"verified_by_inlining"`
	Assumed    []string       `json:"contracts_relied_on_not_verified_here"`
	Total      int            `json:"total"`
	Discharged int            `json:"discharged"`
	Covers     int            `json:"covers"`
	By         map[string]int `json:"by"`
	SolverTime float64        `json:"solver_time_s"`
	WallTime   float64        `json:"wall_s"`
	Failed     []*Obligation  `json:"failed"`
	Vacuous    []*Obligation  `json:"vacuous"`
	Dead       []string       `json:"dead"`
	SolverErr  []string       `json:"solver_errors,omitempty"`
}

type fnReport struct {
	Fn          string `json:"fn"`
	Obligations int    `json:"obligations"`
	Paths       int    `json:"paths"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|locals ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "source directory")
	con := fs.String("contracts", "/verif/contracts", "contracts directory")
	fn := fs.String("fn", "", "verify only functions matching this regexp")
	fnlist := fs.String("fns", "", "file listing the functions to verify, one per line")
	prop := fs.String("prop", "", "keep only clauses of this property (and untagged ones)")
	fast := fs.Float64("fast", 2, "first solver timeout (s)")
	slow := fs.Float64("slow", 15, "portfolio timeout (s)")
	jobs := fs.Int("jobs", 8, "parallel solvers")
	cache := fs.String("cache", "", "result cache directory (development only)")
	dump := fs.String("dump", "", "write failed queries here")
	out := fs.String("json", "", "write the report here")
	budget := fs.Float64("budget", 0, "stop starting new solver work after this many seconds")
	verbose := fs.Bool("v", false, "print every obligation")
	fs.Parse(os.Args[2:])
	start := time.Now()
	for _, d := range []string{*cache, *dump} {
		if d != "" {
			os.MkdirAll(d, 0o755)
		}
	}
	v, err := loadVerifier(*repo, *con)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	if cmd == "locals" {
		if err := v.snapshotLocals(*con); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	v.interfaceContracts()
	loadPrelude(preludeText)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					fmt.Fprintf(os.Stderr, "govc: line %d: %s\n", u.pos, u.msg)
					os.Exit(4)
				}
				panic(r)
			}
		}()
		v.declareSpecFns()
	}()
	for _, n := range sortedKeys(v.specs.Fns) {
		if f := v.specs.Fns[n]; f.Body != nil {
			if err := v.checkRec(f); err != nil {
				fmt.Fprintln(os.Stderr, "govc:", err)
				os.Exit(4)
			}
		}
	}
	var todo []string
	var lemmas []string
	if *fnlist != "" {
		b, err := os.ReadFile(*fnlist)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if l == "" || l[0] == '#' {
				continue
			}
			todo = append(todo, l)
		}
	} else {
		re := regexp.MustCompile(*fn)
		for _, k := range sortedKeys(v.specs.Contracts) {
			c := v.specs.Contracts[k]
			if c.Flags["trusted"] != "" || c.Flags["inline"] != "" {
				continue
			}
			if *prop != "" && !c.homeOf(*prop) && !v.specs.spread(*prop, c) {
				continue
			}
			if re.MatchString(k) {
				todo = append(todo, k)
			}
		}
		for n := range v.specs.Lemmas {
			if *prop == "" && re.MatchString("lemma "+n) || *prop != "" && v.specs.Lemmas[n].serves(*prop) {
				lemmas = append(lemmas, n)
			}
		}
		sort.Strings(lemmas)
	}
	var obls []*Obligation
	rep := &report{Prop: *prop, By: map[string]int{}, Lemmas: []string{}, Failed: []*Obligation{}, Vacuous: []*Obligation{}}
	used, unmod, usedLem := map[string]bool{}, map[string]bool{}, map[string]bool{}
	verified := map[string]bool{}
	for _, k := range todo {
		t0 := time.Now()
		x := v.verifyFn(k)
		verified[k] = true
		home := v.specs.Contracts[k] != nil && v.specs.Contracts[k].homeOf(*prop)
		os_ := filterProps(x.obls, *prop, home)
		if len(os_) == 0 {
			continue
		}
		rep.Functions = append(rep.Functions, fnReport{k, len(os_), x.paths})
		obls = append(obls, os_...)
		for u := range x.used {
			used[u] = true
		}
		for u := range x.unmod {
			unmod[u] = true
		}
		for u := range x.usedLem {
			usedLem[u] = true
		}
		if *verbose {
			fmt.Printf("generated %-45s %5d obligations %6d paths %.2fs\n", k, len(os_), x.paths, time.Since(t0).Seconds())
		}
	}
	for _, k := range sortedKeys(v.decls) {
		if c := v.specs.Contracts[k]; c == nil && v.decls[k].body != nil && (*prop != "" || *fn == ".*") {
			obls = append(obls, v.aliasObls(k)...)
		}
	}
	for _, l := range lemmas {
		usedLem[l] = true
	}
	for _, l := range v.lemmaClosure(usedLem) {
		x := v.verifyLemma(l)
		rep.Lemmas = append(rep.Lemmas, l)
		obls = append(obls, x.obls...)
		if v.specs.Lemmas[l].Flags["assumed"] != "" {
			rep.Trusted = append(rep.Trusted, "lemma "+l)
		}
	}
	opt := solveOpts{fast: *fast, slow: *slow, jobs: *jobs, cacheDir: *cache, dump: *dump}
	if *budget > 0 {
		opt.deadline = start.Add(time.Duration(*budget * float64(time.Second)))
	}
	discharge(obls, opt)
	live := map[string]bool{}
	for _, o := range obls {
		if o.cover && o.Status != "vacuous" && strings.HasPrefix(o.Label, "exit") {
			live[o.Fn] = true
		}
	}
	for i, o := range obls {
		o.Name = fmt.Sprintf("%s/%s/%s", o.Fn, o.Kind, o.Label)
		_ = i
		rep.SolverTime += o.Time
		if lim := os.Getenv("GOVC_SLOW"); lim != "" {
			var f float64
			if fmt.Sscan(lim, &f); o.Time > f {
				fmt.Printf("SLOW %.1fs %s %s L%d %v\n", o.Time, o.By, o.Name, o.Line, o.Trace)
			}
		}
		if o.cover {
			rep.Covers++
			if o.Status == "vacuous" {
				// dead code is no contradiction: some exit of the function is reachable
				if o.Label != "entry" && live[o.Fn] {
					rep.Dead = append(rep.Dead, fmt.Sprintf("%s/%s L%d", o.Fn, o.Label, o.Line))
				} else {
					rep.Vacuous = append(rep.Vacuous, o)
				}
			}
			continue
		}
		rep.Total++
		if o.Status == "discharged" {
			rep.Discharged++
			rep.By[o.By]++
		} else {
			rep.Failed = append(rep.Failed, o)
		}
		if *verbose && o.Time > 3 {
			fmt.Printf("slow %-6.1fs %s %s L%d %v\n", o.Time, o.Name, o.By, o.Line, o.Trace)
		}
	}
	for u := range used {
		c := v.specs.Contracts[u]
		if c == nil {
			continue
		}
		if c.Flags["interface"] != "" {
			continue
		}
		if c.Flags["trusted"] != "" {
			rep.Trusted = append(rep.Trusted, u)
		} else if !verified[u] {
			rep.Assumed = append(rep.Assumed, u)
		}
	}
	sort.Strings(rep.Trusted)
	sort.Strings(rep.Assumed)
	for u := range unmod {
		rep.Unmodelled = append(rep.Unmodelled, u)
	}
	sort.Strings(rep.Unmodelled)
	for _, a := range v.axioms {
		rep.Axioms = append(rep.Axioms, a.name)
	}
	rep.WallTime = time.Since(start).Seconds()
	solverErrs.Range(func(k, val any) bool {
		o := k.(*Obligation)
		s := val.(string)
		if len(s) > 300 {
			s = s[:300]
		}
		rep.SolverErr = append(rep.SolverErr, o.Name+": "+s)
		return true
	})
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, append(b, '\n'), 0o644)
	}
	for _, o := range rep.Failed {
		fmt.Printf("FAILED %s L%d %v [%s] %s %s\n", o.Name, o.Line, o.Trace, o.Status, o.By, o.File)
	}
	for _, o := range rep.Vacuous {
		fmt.Printf("VACUOUS %s L%d %v\n", o.Name, o.Line, o.Trace)
	}
	for _, d := range rep.Dead {
		fmt.Println("DEAD", d)
	}
	for i, e := range rep.SolverErr {
		if i < 3 {
			fmt.Println("SOLVER ERROR", e)
		}
	}
	fmt.Printf("%d functions, %d lemmas, %d obligations, %d discharged, %d failed, %d vacuous, solver %.1fs wall %.1fs\n",
		len(rep.Functions), len(rep.Lemmas), rep.Total, rep.Discharged, len(rep.Failed), len(rep.Vacuous), rep.SolverTime, rep.WallTime)
	if *verbose {
		fmt.Println("by", rep.By)
		fmt.Println("unmodelled", rep.Unmodelled)
		fmt.Println("assumed", rep.Assumed)
	}
	if len(rep.Failed) > 0 || len(rep.Vacuous) > 0 {
		os.Exit(1)
	}
}

// filterProps keeps the obligations of a property: those tagged with it, and
// for the functions whose contracts speak about it the untagged ones as well.
func filterProps(os_ []*Obligation, prop string, home bool) []*Obligation {
	if prop == "" {
		return os_
	}
	var out []*Obligation
	n := 0
	for _, o := range os_ {
		keep := len(o.Props) == 0 && (home || o.cover || o.Status != "" && o.Status != "discharged")
		for _, p := range append(append([]string{}, o.Props...), o.Also...) {
			keep = keep || p == prop
		}
		if keep {
			out = append(out, o)
			if !o.cover {
				n++
			}
		}
	}
	if n == 0 {
		return nil
	}
	return out
}
