package main

// Discharging obligations with SMT solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type solver struct {
	name string
	args func(sec float64) []string
	mode string // "ext", "native"
	pre  string // options put before the query
}

func z3args(bin string, extra ...string) func(float64) []string {
	return func(sec float64) []string {
		return append([]string{bin, "-in", fmt.Sprintf("-T:%d", int(sec+1)), fmt.Sprintf("-t:%d", int(sec*1000))}, extra...)
	}
}

var (
	z3new  = solver{name: "z3-new", args: z3args("z3-new"), mode: "ext"}
	z3newS = solver{name: "z3-new(seed)", args: z3args("z3-new", "smt.random_seed=7", "sat.random_seed=7"), mode: "ext"}
	z3mbqi = solver{name: "z3-new(nombqi)", args: z3args("z3-new", "smt.mbqi=false", "smt.auto_config=false", "smt.random_seed=3"), mode: "ext"}
	z3old  = solver{name: "z3", args: z3args("z3"), mode: "ext"}
	z3oldA = solver{name: "z3(nombqi)", args: z3args("z3", "smt.mbqi=false", "smt.auto_config=false"), mode: "ext"}
	cvc5   = solver{name: "cvc5", args: func(sec float64) []string {
		return []string{"cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", int(sec*1000)), "-"}
	}, mode: "ext"}
	cvc5f = solver{name: "cvc5(enum)", args: func(sec float64) []string {
		return []string{"cvc5", "--lang", "smt2", "--enum-inst", fmt.Sprintf("--tlimit=%d", int(sec*1000)), "-"}
	}, mode: "ext"}
	z3nat   = solver{name: "z3-new(strings)", args: z3args("z3-new"), mode: "native"}
	cvc5nat = solver{name: "cvc5(strings)", args: func(sec float64) []string {
		return []string{"cvc5", "--lang", "smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", int(sec*1000)), "-"}
	}, mode: "native"}
)

func (s solver) run(ctx context.Context, query string, sec float64) (string, string) {
	cctx, cancel := context.WithTimeout(ctx, time.Duration((sec+2)*float64(time.Second)))
	defer cancel()
	a := s.args(sec)
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(query)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	if ctx.Err() != nil {
		return "cancelled", ""
	}
	t := strings.TrimSpace(out.String())
	for _, l := range strings.Split(t, "\n") {
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			return l, t
		}
	}
	if strings.Contains(t, "interrupted by timeout") || t == "" {
		return "timeout", t
	}
	return "error", t
}

type solveOpts struct {
	fast, slow float64
	jobs       int
	cacheDir   string
	dump       string
	deadline   time.Time
}

var solverErrs sync.Map

func discharge(os_ []*Obligation, opt solveOpts) {
	sem := make(chan struct{}, opt.jobs)
	var wg sync.WaitGroup
	var mu sync.Mutex
	type pair struct{ ext, nat string }
	qs := map[*Obligation]pair{}
	build := func(o *Obligation) pair {
		mu.Lock()
		defer mu.Unlock()
		if p, ok := qs[o]; ok {
			return p
		}
		p := pair{ext: buildQuery(o.asms, o.goal, "ext")}
		if o.mode == "native" || o.mode == "both" {
			p.nat = buildQuery(o.asms, o.goal, "native")
		}
		qs[o] = p
		return p
	}
	var hard []*Obligation
	for _, o := range os_ {
		if o.Status != "" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			start := time.Now()
			q := build(o)
			var key string
			if opt.cacheDir != "" {
				h := sha256.Sum256([]byte(fmt.Sprint(o.cover) + q.ext + q.nat))
				key = filepath.Join(opt.cacheDir, fmt.Sprintf("%x", h[:12]))
				if b, err := os.ReadFile(key); err == nil {
					o.Status, o.By = "discharged", "cache:"+string(b)
					if o.cover {
						o.Status = "covered"
					}
					mu.Lock()
					delete(qs, o)
					mu.Unlock()
					return
				}
			}
			if o.cover {
				r, _ := z3new.run(context.Background(), q.ext, 0.5)
				if r == "unsat" {
					o.Status = "vacuous"
				} else {
					o.Status = "covered"
				}
				o.By, o.Time = "z3-new", time.Since(start).Seconds()
				if key != "" && o.Status == "covered" {
					os.WriteFile(key, []byte("z3-new"), 0o644)
				}
				mu.Lock()
				delete(qs, o)
				mu.Unlock()
				return
			}
			s, query := z3new, q.ext
			if o.mode == "native" {
				s, query = z3nat, q.nat
			}
			r, out := s.run(context.Background(), query, opt.fast)
			if r == "error" {
				solverErrs.Store(o, s.name+": "+out)
			}
			o.Time = time.Since(start).Seconds()
			if r == "unsat" {
				o.Status, o.By = "discharged", s.name
				if key != "" {
					os.WriteFile(key, []byte(s.name), 0o644)
				}
				mu.Lock()
				delete(qs, o)
				mu.Unlock()
				return
			}
			mu.Lock()
			hard = append(hard, o)
			mu.Unlock()
		}(o)
	}
	wg.Wait()
	// the hard ones: a portfolio each
	for _, o := range hard {
		ss := []solver{cvc5, z3mbqi, z3oldA, z3old, z3new, cvc5f, z3newS}
		if o.mode == "native" {
			ss = append([]solver{cvc5nat, z3nat, z3mbqi}, ss...)
		} else if o.mode == "both" {
			ss = append([]solver{z3nat, cvc5nat}, ss...)
		}
		left := opt.slow
		if !opt.deadline.IsZero() {
			if d := time.Until(opt.deadline).Seconds(); d < left {
				left = d
			}
		}
		if left < 0.5 {
			o.Status = "unknown"
			o.By = "time budget exhausted"
			continue
		}
		wg.Add(1)
		octx, ocancel := context.WithCancel(context.Background())
		q := build(o)
		var once sync.Once
		var owg sync.WaitGroup
		start := time.Now()
		for _, s := range ss {
			owg.Add(1)
			go func(s solver) {
				defer owg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				if octx.Err() != nil {
					return
				}
				query := q.ext
				if s.mode == "native" {
					query = q.nat
				}
				t0 := time.Now()
				r, out := s.run(octx, query, left)
				spent := time.Since(t0).Seconds()
				if r == "error" {
					solverErrs.Store(o, s.name+": "+out)
				}
				if r == "unsat" {
					once.Do(func() {
						o.Status, o.By, o.Time = "discharged", s.name, o.Time+spent
						ocancel()
						if opt.cacheDir != "" {
							h := sha256.Sum256([]byte(fmt.Sprint(o.cover) + q.ext + q.nat))
							os.WriteFile(filepath.Join(opt.cacheDir, fmt.Sprintf("%x", h[:12])), []byte(s.name), 0o644)
						}
					})
				}
			}(s)
		}
		go func(o *Obligation) {
			defer wg.Done()
			owg.Wait()
			ocancel()
			if o.Status == "" {
				o.Status = "unknown"
				o.Time += time.Since(start).Seconds()
				if opt.dump != "" {
					f := strings.Map(func(r rune) rune {
						if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-' {
							return r
						}
						return '_'
					}, o.Fn+"-"+o.Kind+"-"+o.Label)
					if len(f) > 100 {
						f = f[:100]
					}
					o.File = writeFile(opt.dump, fmt.Sprintf("%s-L%d-%p.smt2", f, o.Line, o), q.ext)
				}
			}
			mu.Lock()
			delete(qs, o)
			mu.Unlock()
		}(o)
	}
	wg.Wait()
}
