// Command vcase generates and runs cases of one property, or replays a file.
//
//	vcase -prop C01 -checks 1000 -seed 7 -dir DIR -budget 300
//	vcase -prop C01 -replay FILE -times 1
//
// Exit codes: 0 held, 1 failed (result.json or stdout says how), 43 a case did
// not end within -hang, 66 data race. Any other ending is a crash of the code
// under test on the case in DIR/current.json, or an error of the harness.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/core"
	"verifharness/props"
	"verifharness/vsync"
)

type result struct {
	Prop         string            `json:"prop"`
	Evaluations  int               `json:"evaluations"`
	Nontrivial   int               `json:"nontrivial"`
	Hashes       []string          `json:"hashes"`
	Labels       map[string]int    `json:"labels"`
	Samples      []json.RawMessage `json:"samples"`
	Instrumented bool              `json:"instrumented"`
	Budget       bool              `json:"out_of_budget"`
	Slowest      float64           `json:"slowest"` // seconds
	SlowestCase  json.RawMessage   `json:"slowest_case,omitempty"`
	Fail         string            `json:"fail,omitempty"`
	Case         json.RawMessage   `json:"case,omitempty"`
	FirstFail    string            `json:"first_fail,omitempty"`
	FirstCase    json.RawMessage   `json:"first_case,omitempty"`
}

type tb struct{ failed bool }

func (t *tb) Helper()              {}
func (t *tb) Name() string         { return "case" }
func (t *tb) Logf(string, ...any)  {}
func (t *tb) Log(...any)           {}
func (t *tb) Skipf(string, ...any) { panic("skip") }
func (t *tb) Skip(...any)          { panic("skip") }
func (t *tb) SkipNow()             { panic("skip") }
func (t *tb) Errorf(f string, a ...any) {
	t.failed = true
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}
func (t *tb) Error(a ...any)            { t.failed = true; fmt.Fprintln(os.Stderr, a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

type failNow struct{}

var started atomic.Int64

// watchdog ends the process if a case does not end: it has taken long by the
// clock, and either all the while nothing ran, or much did. (On a machine busy
// with other things, neither is so.)
func watchdog(hang time.Duration) {
	var last int64
	var cpu, ticks time.Duration // ticks, not the clock: the machine may be stopped for a while
	for {
		time.Sleep(time.Second)
		s := started.Load()
		if s != last {
			last, cpu, ticks = s, cpuTime(), 0
			continue
		}
		ticks += time.Second
		used := cpuTime() - cpu
		if s != 0 && ticks > hang && (used > hang/2 || used < hang/60) {
			fmt.Fprintln(os.Stderr, "case did not end within", hang, "and computed for", used.Round(time.Second))
			os.Exit(43)
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property")
	checks := flag.Int("checks", 100, "cases")
	seed := flag.Uint64("seed", 1, "seed")
	dir := flag.String("dir", "", "scratch directory")
	budget := flag.Float64("budget", 600, "seconds after which no new case is run")
	hang := flag.Float64("hang", 100, "seconds one case may take")
	replay := flag.String("replay", "", "case file")
	times := flag.Int("times", 1, "how often to replay")
	clock := flag.Bool("clock", false, "the code uses the clock")
	stall := flag.Float64("stall", 2, "seconds after which a silent goroutine counts as blocked")
	list := flag.Bool("list", false, "list the properties")
	src := flag.String("src", "", "sources whose literals generation tries")
	gen := flag.Int("gen", 0, "print this many generated cases and stop")
	flag.Parse()
	vsync.Timers = *clock
	vsync.Stall = time.Duration(*stall * float64(time.Second))

	if *list {
		type row struct {
			ID, Rule        string
			Instr, Race     bool
			Quick, Thorough int
		}
		var rows []row
		for _, id := range core.IDs() {
			p := core.Props[id]
			rows = append(rows, row{id, p.Rule, p.Instr, p.Race, p.Quick, p.Thorough})
		}
		json.NewEncoder(os.Stdout).Encode(rows)
		return
	}
	p := core.Props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(2)
	}
	go watchdog(time.Duration(*hang * float64(time.Second)))
	if *replay != "" {
		os.Exit(doReplay(p, *replay, *times))
	}
	if *src != "" {
		props.ReadLiterals(*src)
	}
	if err := os.Chdir(*dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	set("rapid.checks", strconv.Itoa(*checks))
	set("rapid.seed", strconv.FormatUint(*seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "20s")

	res := result{Prop: *prop, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	begin := time.Now()
	current, err := os.Create("current.json")
	if err != nil {
		panic(err)
	}
	t := &tb{}
	printed := 0
	body := func(rt *rapid.T) {
		if res.Fail == "" && time.Since(begin).Seconds() > *budget {
			res.Budget = true
			return
		}
		c := p.Gen(rt)
		js, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if *gen > 0 {
			if printed < *gen {
				fmt.Println(string(js))
			}
			printed++
			return
		}
		current.Truncate(0)
		current.WriteAt(js, 0)
		started.Store(time.Now().UnixNano())
		out, err := p.Exec(c)
		if d := time.Since(time.Unix(0, started.Load())).Seconds(); d > res.Slowest && res.Fail == "" {
			res.Slowest, res.SlowestCase = d, js
		}
		started.Store(0)
		if err != nil {
			if res.Fail == "" {
				res.FirstFail, res.FirstCase = err.Error(), js
			}
			res.Fail, res.Case = err.Error(), js
			rt.Fatalf("%v", err)
		}
		if res.Fail != "" {
			return // shrinking
		}
		res.Evaluations++
		for l, n := range out.Labels {
			if n > 0 {
				res.Labels[l]++
			}
		}
		if out.Nontrivial {
			h := fnv.New64a()
			h.Write(js)
			if k := h.Sum64(); !seen[k] {
				seen[k] = true
				res.Hashes = append(res.Hashes, strconv.FormatUint(k, 36))
				if len(res.Samples) < 40 && len(js) < 1500 {
					res.Samples = append(res.Samples, js)
				}
			}
			res.Nontrivial++
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, body)
	}()
	res.Instrumented = vsync.Instrumented()
	js, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(*dir, "result.json"), js, 0o644); err != nil {
		panic(err)
	}
	if res.Fail != "" {
		os.Exit(1)
	}
	if t.failed {
		fmt.Fprintln(os.Stderr, "rapid failed without a failing case")
		os.Exit(3)
	}
}

func doReplay(p *core.Prop, file string, times int) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Case json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if f.Case == nil {
		f.Case = b
	}
	for i := 0; i < times; i++ {
		c, err := p.Decode(f.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		started.Store(time.Now().UnixNano())
		_, err = p.Exec(c)
		started.Store(0)
		if err != nil {
			fmt.Println(err)
			return 1
		}
	}
	return 0
}
