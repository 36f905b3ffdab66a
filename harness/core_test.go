// Package ini_test (laid over /repo by go test -overlay): the replay and
// bounded-search side of the checks.  Everything here uses the exported API
// only and judges it against oracles written independently of the code.
package ini_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/go-ini/ini"
)

// C is one generated case.
type C struct {
	*rand.Rand
	prop    string
	i       int
	log     []string
	fail    string
	nontriv bool
	ptags   string // properties a panic of the current step breaks ("": all)
	sig     string
}

type stop struct{}
type skipCase struct{}

// Logf records a step of the case; the log is the replayable description.
func (c *C) Logf(f string, a ...interface{}) { c.log = append(c.log, fmt.Sprintf(f, a...)) }

// Failf reports a violation of one of the properties in tags. When the check
// running is about another property the case is dropped.
func (c *C) Failf(tags string, f string, a ...interface{}) {
	if !strings.Contains(" "+tags+" ", " "+c.prop+" ") {
		panic(skipCase{})
	}
	c.fail = fmt.Sprintf(f, a...)
	panic(stop{})
}

func (c *C) Check(ok bool, tags string, f string, a ...interface{}) {
	if !ok {
		c.Failf(tags, f, a...)
	}
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// pick returns a random element.
func (c *C) pick(l ...string) string { return l[c.Intn(len(l))] }
func (c *C) chance(n int) bool       { return c.Intn(n) == 0 }

type result struct {
	Prop        string   `json:"property"`
	Seed        int64    `json:"seed"`
	Evaluations int      `json:"evaluations"`
	Nontrivial  int      `json:"distinct_nontrivial"`
	Dropped     int      `json:"dropped"`
	Samples     []string `json:"samples"`
	Violation   bool     `json:"violation"`
	Case        int      `json:"case"`
	Message     string   `json:"message,omitempty"`
	Log         []string `json:"log,omitempty"`
	Wall        float64  `json:"wall_s"`
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// globals restores the package variables a case may have changed.
func globals() func() {
	a, b, c, d, e, f, g, h := ini.DefaultSection, ini.LineBreak, ini.DefaultHeader, ini.PrettySection, ini.PrettyFormat, ini.PrettyEqual, ini.DefaultFormatLeft, ini.DefaultFormatRight
	return func() {
		ini.DefaultSection, ini.LineBreak, ini.DefaultHeader, ini.PrettySection, ini.PrettyFormat, ini.PrettyEqual, ini.DefaultFormatLeft, ini.DefaultFormatRight = a, b, c, d, e, f, g, h
	}
}

// search runs body on cases 0,1,2,... until the budget is used up.
func search(t *testing.T, prop string, body func(c *C)) {
	seed := int64(envInt("VERIF_SEED", 1))
	budget := time.Duration(envInt("VERIF_BUDGET_MS", 3000)) * time.Millisecond
	limit := envInt("VERIF_CASES", 1<<30)
	only := envInt("VERIF_CASE", -1)
	out := os.Getenv("VERIF_OUT")
	res := result{Prop: prop, Seed: seed}
	sigs := map[string]bool{}
	start := time.Now()
	var cur atomic.Int64
	var curC atomic.Pointer[C]
	save := func() {
		res.Wall = time.Since(start).Seconds()
		res.Nontrivial = len(sigs)
		if out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(out, append(b, '\n'), 0o644)
		}
	}
	// a case that does not return is a hang
	cur.Store(time.Now().UnixNano())
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
				if time.Now().UnixNano()-cur.Load() > int64(20*time.Second) {
					c := curC.Load()
					res.Violation, res.Case, res.Message, res.Log = true, c.i, "the case did not finish within 20 s (hang or deadlock)", append([]string{}, c.log...)
					save()
					fmt.Println("HANG", c.i)
					os.Exit(1)
				}
			}
		}
	}()
	defer close(done)
	for i := 0; i < limit && (i < 20 || time.Since(start) < budget); i++ {
		if only >= 0 {
			i = only
		}
		c := &C{Rand: rand.New(rand.NewSource(seed*1000003 + int64(i))), prop: prop, i: i}
		cur.Store(time.Now().UnixNano())
		curC.Store(c)
		func() {
			restore := globals()
			defer restore()
			defer func() {
				switch r := recover().(type) {
				case nil:
				case stop:
				case skipCase:
					res.Dropped++
				default:
					if c.ptags != "" && !strings.Contains(" "+c.ptags+" ", " "+c.prop+" ") {
						res.Dropped++
						return
					}
					c.fail = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			body(c)
		}()
		res.Evaluations++
		if c.nontriv && len(sigs) < 1<<20 {
			s := c.sig
			if s == "" {
				s = strings.Join(c.log, "\n")
			}
			if !sigs[s] {
				sigs[s] = true
				if len(res.Samples) < 2 {
					if len(s) > 1500 {
						s = s[:1500] + "..."
					}
					res.Samples = append(res.Samples, s)
				}
			}
		}
		if c.fail != "" {
			res.Violation, res.Case, res.Message, res.Log = true, i, c.fail, c.log
			save()
			fmt.Printf("FAIL property %s seed %d case %d: %s\n", prop, seed, i, c.fail)
			for _, l := range c.log {
				fmt.Println("  ", l)
			}
			t.FailNow()
		}
		if only >= 0 {
			break
		}
	}
	save()
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
