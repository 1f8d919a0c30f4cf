package props

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	vg "github.com/sonirico/visigoth"
	"pgregory.net/rapid"
	"verifharness/core"
	"verifharness/vsync"
)

func init() {
	core.Register(core.Prop{
		ID:    "C26",
		Rule:  "Lists of results with many ties, near ties and extreme hit counts, some of them answers of a repository, sorted by every function of package sort. Non-trivial: the list was out of order and some hit count or identifier repeats.",
		Quick: 960000, Thorough: 6000000,
	}, drawRank, runC26)
	core.Register(core.Prop{
		ID: "C27", Instr: true, Race: true,
		Rule:  "Histories of two to four repositories and stand-alone indices that share analysers, builders, names and documents, interleaved call by call or run each by a goroutine of its own under a schedule and the race detector; what each answers is compared with a model of it alone. Non-trivial: two parts share something and a call of one falls between calls of another.",
		Quick: 32000, Thorough: 800000,
	}, drawParts, runC27)
	core.Register(core.Prop{
		ID: "C28", Instr: true,
		Rule:  "A history of calls, the answers of searches read to the end, in part, closed early or not at all, after which the repository is written to and the goroutines of the process are counted. Non-trivial: a search through an alias of several whose answer has results is not read to the end, or a put goes to several indices.",
		Quick: 120000, Thorough: 1500000,
	}, drawLeave, runC28)
}

// ---------------------------------------------------------------- C26

type RankCase struct {
	Results []Res   `json:"results"`
	How     int     `json:"how"`
	Via     bool    `json:"via,omitempty"` // results found by a repository
	Docs    []Doc   `json:"docs,omitempty"`
	Q       S       `json:"q,omitempty"`
	Swaps   []int   `json:"swaps"`
	IDs     []S     `json:"ids"`
	Hits    []int   `json:"hits"`
	Of      [][]int `json:"of"`
}

func drawRank(t *T) RankCase {
	c := RankCase{How: intn(t, 5)}
	c.IDs = many(t, 1, 5, func(t *T) S {
		if chance(t, 70) {
			return S(oneOf(t, idPool))
		}
		return S(drawWord(t))
	})
	if chance(t, 20) { // identifiers with a long beginning in common
		p := strings.Repeat("identifier-", between(t, 1, 30))
		for i := range c.IDs {
			c.IDs[i] = S(p) + c.IDs[i]
		}
	}
	c.Hits = many(t, 1, 4, func(t *T) int {
		switch intn(t, 8) {
		case 0:
			return oneOf(t, []int{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, math.MaxInt32, math.MinInt32, 1 << 32, 256, 255, -1, -2})
		case 1:
			return rapid.Int().Draw(t, "hits")
		}
		return upTo(t, 0, 3, 100000)
	})
	lo, hi := 0, 12
	if chance(t, 15) {
		lo = between(t, 13, 60)
		hi = lo + 100
	}
	c.Of = many(t, lo, hi, func(t *T) []int {
		return []int{intn(t, len(c.IDs)), intn(t, len(c.Hits)), intn(t, 3)}
	})
	c.Swaps = ints(t, 0, 6, 1000)
	if chance(t, 15) {
		c.Via = true
		vocab := []string{"casa", "perro", "x"}
		c.Docs = many(t, 1, 10, func(t *T) Doc {
			return Doc{ID: S(oneOf(t, idPool)), Content: S(drawText(t, vocab, 1, 4))}
		})
		c.Q = S(drawText(t, vocab, 1, 2))
	}
	return c
}

func less(a, b Res) bool { return a.Hits > b.Hits || a.Hits == b.Hits && a.ID < b.ID }

func runC26(c RankCase, o *Out) error {
	var rs vg.SearchResults
	if c.Via {
		r := vg.NewIndexRepo(vg.NewMemoryIndexBuilder(tokFunc(strings.Fields)))
		for i, d := range c.Docs {
			n := fmt.Sprintf("ix%d", i%3)
			r.Put(n, d.req())
			r.Alias("all", n)
		}
		s, err := r.Search("all", string(c.Q), anySearch)
		if err != nil {
			return err
		}
		for s.Next() {
			rs = append(rs, s.Data())
		}
		o.Label("results of a repository")
	} else {
		for _, of := range c.Of {
			d := vg.NewDoc(string(c.IDs[of[0]%len(c.IDs)]), fmt.Sprint("content ", of[2]))
			rs = append(rs, vg.SearchResult{Document: d, Hits: c.Hits[of[1]%len(c.Hits)]})
		}
	}
	before := toRes([]vg.SearchResult(rs))
	if rs.Len() != len(before) {
		return fmt.Errorf("Len of %s is %d", show(before), rs.Len())
	}
	// The order.
	for i := range before {
		for j := range before {
			if i > 40 || j > 40 {
				continue
			}
			if got := rs.Less(i, j); got != less(before[i], before[j]) {
				return fmt.Errorf("Less says %v of %s before %s", got, before[i], before[j])
			}
		}
	}
	for i, r := range rs {
		if r.Doc() != r.Document || r.GetDoc() != r.Document || r.GetHits() != r.Hits {
			return fmt.Errorf("the result {%v %d} says its document is %v, or %v, and its hits %d", r.Document, r.Hits, r.Doc(), r.GetDoc(), r.GetHits())
		}
		if now := toRes([]vg.SearchResult{r})[0]; now != before[i] {
			return fmt.Errorf("asking for the order changed %s to %s", before[i], now)
		}
	}
	// Exchanging.
	want := append([]Res(nil), before...)
	for k := 0; k+1 < len(c.Swaps) && len(want) > 0; k += 2 {
		i, j := c.Swaps[k]%len(want), c.Swaps[k+1]%len(want)
		want[i], want[j] = want[j], want[i]
		rs.Swap(i, j)
		if got := toRes([]vg.SearchResult(rs)); !sameRes(got, want) {
			return fmt.Errorf("exchanging %d and %d makes %s, want %s", i, j, show(got), show(want))
		}
	}
	// Sorting.
	switch c.How {
	case 0:
		sort.Sort(rs)
	case 1, 2:
		sort.Stable(rs)
	case 3:
		sort.Sort(sort.Reverse(sort.Reverse(rs)))
	default:
		sort.Sort(sort.Reverse(rs))
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs.Swap(i, j)
		}
	}
	got := toRes([]vg.SearchResult(rs))
	if !sameBag(got, want) {
		return fmt.Errorf("sorting %s gives %s", show(want), show(got))
	}
	for i := 1; i < len(got); i++ {
		if less(got[i], got[i-1]) {
			return fmt.Errorf("sorted, %s still comes before %s, in %s", got[i-1], got[i], show(got))
		}
	}
	if !sort.IsSorted(rs) {
		return fmt.Errorf("sorted, %s is said not to be in order", show(got))
	}
	if c.How == 1 || c.How == 2 {
		sort.SliceStable(want, func(i, j int) bool { return less(want[i], want[j]) })
		if !sameRes(got, want) {
			return fmt.Errorf("sorted with equal results left in order, %s, want %s", show(got), show(want))
		}
	}
	hits, ids := map[int]bool{}, map[string]bool{}
	for _, r := range before {
		hits[r.Hits], ids[r.ID] = true, true
	}
	o.LabelIf(len(hits) < len(before), "hit counts repeat")
	o.LabelIf(len(ids) < len(before), "identifiers repeat")
	o.LabelIf(len(before) > 12, "more than twelve results")
	o.Nontrivial = !sameRes(got, before) && (len(hits) < len(before) || len(ids) < len(before))
	return nil
}

// ---------------------------------------------------------------- C27

// Part is a repository, or an index of its own, with its history.
type Part struct {
	Index   bool `json:"index,omitempty"`
	An      int  `json:"analyser"`
	Builder int  `json:"builder"`        // parts of one analyser and one builder share both
	Stop    []S  `json:"stop,omitempty"` // not nil: words, lower case, these left out, instead of the analyser
	Ops     []Op `json:"ops"`
}

type PartsCase struct {
	Names    []S        `json:"names"`
	Parts    []Part     `json:"parts"`
	Order    []int      `json:"order"`
	Together bool       `json:"together,omitempty"`
	Plan     vsync.Plan `json:"plan"`
	Only     int        `json:"only,omitempty"` // not 0: run this part alone and print its answers
}

func drawParts(t *T) PartsCase {
	c := PartsCase{Names: drawNames(t, 2, 4), Together: chance(t, 40)}
	vocab := drawVocab(t, 1, 3)
	stops := chance(t, 30)
	if chance(t, 30) { // words that the Snowball stemmer stems or not, as it was built
		vocab = append(vocab, "tuyos", "tuya")
	}
	an := oneOf(t, []int{anSpanish, anSpanish, anSpanishKeep, anLower, anFields})
	n := between(t, 2, 4)
	for i := 0; i < n; i++ {
		p := Part{An: an, Builder: intn(t, 2), Index: chance(t, 35)}
		if chance(t, 25) {
			p.An = oneOf(t, []int{anSpanish, anSpanish, anSpanishKeep, anSpanishKeep, anLower, anFields, anAlnum})
		}
		if stops && chance(t, 70) {
			p.Stop = many(t, 0, 2, func(t *T) S { return S(oneOf(t, append([]string{"zorro"}, vocab...))) })
			if p.Stop == nil {
				p.Stop = []S{}
			}
		}
		rc := RepoCase{Names: c.Names, An: p.An}
		m := newModel(p.An)
		m.tok = p.ref()
		if p.Index {
			p.Ops = drawOps(t, m, weights{"put": 4, "search": 4}, c.Names[:1], 1, 6, vocab)
		} else {
			if chance(t, 60) {
				p.Ops = drawSetup(t, c.Names, vocab)
			}
			for _, op := range p.Ops {
				m.apply(rc, op)
			}
			p.Ops = append(p.Ops, drawOps(t, m, weights{"put": 6, "search": 6, "alias": 2, "unalias": 1, "unaliasall": 1, "rename": 2, "drop": 2, "has": 1, "hasalias": 1, "list": 1, "aliases": 1, "string": 1}, c.Names, 1, 7, vocab)...)
		}
		for k := range p.Ops {
			if d := p.Ops[k].Doc; d != nil && chance(t, 25) { // the same document in several parts
				*d = Doc{ID: "same", Content: S(vocab[0])}
			}
		}
		c.Parts = append(c.Parts, p)
	}
	c.Order = ints(t, 0, 40, n)
	c.Plan = drawPlan(t)
	return c
}

// refAnalyser does what analyser does, by the reference definitions only.
func refAnalyser(k int) Tokenizer {
	all := func(fs ...int) Tokenizer {
		return tokFunc(func(s string) []string {
			ts := words(s)
			for _, f := range fs {
				ts = refFilter(f, ts)
			}
			return ts
		})
	}
	switch k {
	case anAlnum:
		return all()
	case anLower:
		return all(fLower)
	case anSpanish:
		return all(fLower, fStop, fStem)
	case anSpanishKeep:
		return all(fLower, fStop, fStemKeep)
	}
	return analyser(k)
}

func (p Part) what() string {
	if p.Stop != nil {
		return fmt.Sprintf("words without %q", p.Stop)
	}
	return anNames[p.An]
}

func (p Part) analyser() Tokenizer {
	if p.Stop == nil {
		return analyser(p.An)
	}
	set := vg.StopWords{}
	for _, w := range p.Stop {
		set[string(w)] = struct{}{}
	}
	return vg.NewTokenizationPipeline(vg.NewKeepAlphanumericTokenizer(), vg.NewLowerCaseTokenizer(), vg.NewStopWordsFilter(set))
}

// ref does what analyser does, by the reference definitions only.
func (p Part) ref() Tokenizer {
	if p.Stop == nil {
		return refAnalyser(p.An)
	}
	set := map[string]bool{}
	for _, w := range p.Stop {
		set[string(w)] = true
	}
	return tokFunc(func(s string) []string {
		var out []string
		for _, w := range refFilter(fLower, words(s)) {
			if !set[w] {
				out = append(out, w)
			}
		}
		return out
	})
}

// running is a part at work.
type running struct {
	c       PartsCase
	p       Part
	at      int
	repo    *vg.IndexRepo
	index   *vg.MemoryIndex
	answers []string
}

func (x *running) rc() RepoCase { return RepoCase{Names: x.c.Names, An: x.p.An, Ops: x.p.Ops} }

func (x *running) step() {
	op := x.p.Ops[x.at]
	x.at++
	if x.index == nil {
		x.answers = append(x.answers, do(x.repo, x.rc(), op))
		return
	}
	a := ""
	switch op.Op {
	case "put":
		for _, d := range op.docs() {
			x.index.Put(d.req())
		}
	case "search":
		a = bagText(toRes(x.index.Search(string(op.Q), engines[op.E])))
	}
	x.answers = append(x.answers, a)
}

func (x *running) end() {
	if x.index == nil {
		x.answers = append(x.answers, final(x.repo, x.rc()))
		return
	}
	x.answers = append(x.answers, seqText(toRes(x.index.Search("", vg.NoopAllSearch))))
}

// alone is what the model of the part answers.
func (x *running) alone() []string {
	m := newModel(x.p.An)
	m.tok = x.p.ref()
	var out []string
	c := x.rc()
	if x.index != nil {
		m.idx[c.name(0)] = []Doc{}
	}
	for _, op := range x.p.Ops {
		if x.index != nil {
			op.A = 0
		}
		out = append(out, m.apply(c, op))
	}
	if x.index != nil {
		return append(out, contents(m.idx[c.name(0)]))
	}
	return append(out, m.view(c))
}

func (c PartsCase) text(x *running, upto int) string {
	kind := "the repository"
	if x.index != nil {
		kind = "the index"
	}
	return fmt.Sprintf("\n%s (analyser %s) after%s", kind, x.p.what(), x.rc().trace(upto))
}

func runC27(c PartsCase, o *Out) error {
	ans := map[string]Tokenizer{}
	builders := map[string]vg.Builder{}
	sets := map[string]bool{}
	var xs []*running
	for i, p := range c.Parts {
		if c.Only != 0 && c.Only != i+1 {
			continue
		}
		what := p.what()
		if p.Stop != nil {
			sets[what] = true
		}
		if ans[what] == nil {
			ans[what] = p.analyser()
		} else {
			o.Label("analyser shared")
		}
		x := &running{c: c, p: p}
		if p.Index {
			x.index = vg.NewMemoryIndex(string(c.Names[0]), ans[what])
		} else {
			k := fmt.Sprint(p.Builder, what)
			if builders[k] == nil {
				builders[k] = vg.NewMemoryIndexBuilder(ans[what])
			} else {
				o.Label("builder shared")
			}
			x.repo = vg.NewIndexRepo(builders[k])
		}
		xs = append(xs, x)
	}
	o.LabelIf(len(sets) > 1, "different sets of stop words")
	turns := 0
	if c.Together && c.Only == 0 {
		var fs []func()
		for _, x := range xs {
			x := x
			fs = append(fs, func() {
				for range x.p.Ops {
					x.step()
					vsync.Y()
				}
				x.end()
			})
		}
		if r := vsync.Run(c.Plan, fs...); r.Failed() {
			return fmt.Errorf("%s", r.Err())
		}
		turns = 2
		o.Label("at the same time")
	} else {
		last := -1
		err := play(c.Plan, func() string { return "" }, func() error {
			one := func(i int) {
				if x := xs[i]; x.at < len(x.p.Ops) {
					x.step()
					if last != i {
						turns++
					}
					last = i
				}
			}
			for _, i := range c.Order {
				one(i % len(xs))
			}
			for i, x := range xs {
				for range x.p.Ops {
					one(i)
				}
			}
			for _, x := range xs {
				x.end()
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	if c.Only != 0 {
		js, _ := json.Marshal(xs[0].answers)
		fmt.Printf("\nanswers:%s\n", js)
		return nil
	}
	for i, x := range xs {
		want := x.alone()
		for k := range want {
			if x.answers[k] == want[k] {
				continue
			}
			// Does it do so in a process of its own as well?
			if ref := c.inItsOwnProcess(i + 1); ref != nil && len(ref) == len(want) {
				want = ref
			}
			for k := range want {
				if x.answers[k] != want[k] {
					call := "at the end"
					if k < len(x.p.Ops) {
						call = x.rc().show(x.p.Ops[k])
					}
					return fmt.Errorf("beside %d others, %s gives %s, alone %s:%s", len(xs)-1, call, clip(x.answers[k]), clip(want[k]), c.text(x, k))
				}
			}
			break
		}
	}
	o.Nontrivial = turns > len(xs) || c.Together
	return nil
}

// inItsOwnProcess has a new process run one part alone.
func (c PartsCase) inItsOwnProcess(k int) []string {
	c.Only = k
	js, err := json.Marshal(map[string]any{"case": c})
	if err != nil {
		return nil
	}
	f, err := os.CreateTemp("", "verif-part-*.json")
	if err != nil {
		return nil
	}
	defer os.Remove(f.Name())
	f.Write(js)
	f.Close()
	out, _ := exec.Command(os.Args[0], "-prop", "C27", "-replay", f.Name()).Output()
	i := strings.Index(string(out), "\nanswers:")
	if i < 0 {
		return nil
	}
	var a []string
	line, _, _ := strings.Cut(string(out)[i+len("\nanswers:"):], "\n")
	if json.Unmarshal([]byte(line), &a) != nil {
		return nil
	}
	return a
}

// ---------------------------------------------------------------- C28

type LeaveCase struct {
	RepoCase
	Read []int `json:"read"` // how far each answer is read: see read
}

func drawLeave(t *T) LeaveCase {
	c := LeaveCase{RepoCase: drawRepo(weights{"put": 5, "search": 8, "alias": 4, "unalias": 1, "unaliasall": 1, "rename": 1, "drop": 1, "has": 1, "hasalias": 1, "list": 1, "aliases": 1, "string": 1}, 12)(t)}
	c.Each = false
	if len(c.Names) > 2 && chance(t, 60) { // an alias of several from the start
		pre := []Op{}
		for i := range c.Names[1:] {
			pre = append(pre, Op{Op: "put", A: i + 1, Doc: &Doc{ID: S(fmt.Sprint("p", i)), Content: "casa"}}, Op{Op: "alias", A: 0, B: i + 1})
		}
		c.Ops = append(pre, c.Ops...)
		for k := between(t, 1, 3); k > 0; k-- {
			c.Ops = append(c.Ops, Op{Op: "search", A: 0, Q: "casa", E: intn(t, len(engines))})
		}
	}
	c.Read = ints(t, 1, 6, 6)
	return c
}

var warm sync.Once

func runC28(c LeaveCase, o *Out) error {
	warm.Do(func() { vsync.Run(vsync.Plan{}, func() {}) })
	base := runtime.NumGoroutine()
	var kept []any
	m := newModel(c.An)
	at, n := 0, 0
	err := play(c.Plan, func() string { return c.trace(at) }, func() error {
		r := newRepo(c.An)
		for i, op := range c.Ops {
			at = i
			ds := m.denotes(c.name(op.A))
			several := len(ds) > 1
			want := m.apply(c.RepoCase, op)
			if op.Op != "search" {
				o.LabelIf(op.Op == "put" && several, "put to several indices")
				o.Nontrivial = o.Nontrivial || op.Op == "put" && several
				do(r, c.RepoCase, op)
				continue
			}
			s, err := r.Search(c.name(op.A), string(op.Q), engines[op.E])
			if err != nil {
				o.Label("failed search")
				continue
			}
			how := c.Read[n%len(c.Read)]
			n++
			switch how {
			case 0: // not read
				kept = append(kept, s)
			case 1: // not read, and forgotten
			case 2:
				s.Next()
				kept = append(kept, s)
			case 3:
				if s.Next() {
					_ = s.Data()
				}
				s.Close()
			case 4:
				s.Close()
			default:
				drain(s)
			}
			if how < 5 && several && len(want) > 2 {
				o.Nontrivial = true
				o.Label("answer of several indices not read to the end")
			}
		}
		// What was left unread is in nobody's way.
		r.Put("last", vg.NewDocRequest("last", "last"))
		r.Rename("last", "last2")
		r.Drop("last2")
		return nil
	})
	if err != nil {
		return err
	}
	for begin := time.Now(); runtime.NumGoroutine() > base; {
		if time.Since(begin) > 5*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			where := ""
			for _, g := range strings.Split(string(buf), "\n\n") {
				if strings.Contains(g, "created by github.com/sonirico/visigoth.") {
					where = "\nsuch as " + g
				}
			}
			return fmt.Errorf("%d goroutines are left 5 s after%s%s", runtime.NumGoroutine()-base, c.trace(len(c.Ops)), where)
		}
		if time.Since(begin) > time.Millisecond {
			time.Sleep(100 * time.Microsecond)
		}
		runtime.Gosched()
	}
	runtime.KeepAlive(kept)
	return nil
}
