package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/sonirico/vago/slices"
	vg "github.com/sonirico/visigoth"
	"verifharness/core"
	"verifharness/vsync"
)

func init() {
	core.Register(core.Prop{
		ID: "C29", Instr: true,
		Rule:  "A history of calls on an index or a repository whose analyser is of the user's own, one of ten odd ones that write down what they are asked; every search is by an engine of the user's own that writes down its tokens and the whole of the view it is given, writes over both and answers results that no search could find; at the end some searches run at the same time under a schedule. Non-trivial: some engine sees a document and is given a token.",
		Quick: 180000, Thorough: 1500000,
	}, drawOwn, runC29)
}

// OwnCase is a history of puts and searches with an analyser and engines of
// the user's own.
type OwnCase struct {
	RepoCase
	Direct bool  `json:"direct,omitempty"` // an index and no repository
	Own    int   `json:"own"`              // which analyser
	Answer []int `json:"answer"`           // how many results the engine gives at its i-th call of a search
	Many   []Op  `json:"many"`             // searches made at the same time at the end
}

// ownAnalysers are total functions of a text, odd ones.
var ownAnalysers = []struct {
	name string
	f    func(string) []string
}{
	{"words", strings.Fields},
	{"nothing", func(string) []string { return nil }},
	{"no tokens, not nil", func(string) []string { return []string{} }},
	{"the whole text", func(s string) []string { return []string{s} }},
	{"bytes", func(s string) []string { return strings.Split(s[:min(len(s), 40)], "") }},
	{"words twice, last first", func(s string) []string {
		ws := strings.Fields(s)
		var out []string
		for i := len(ws) - 1; i >= 0; i-- {
			out = append(out, ws[i], ws[i])
		}
		return out
	}},
	{"beginnings of words", func(s string) []string {
		var out []string
		for _, w := range strings.Fields(s) {
			for i := 1; i <= len(w) && i <= 6; i++ {
				out = append(out, w[:i])
			}
		}
		return out
	}},
	{"pairs of words", func(s string) []string {
		ws := strings.Fields(s)
		var out []string
		for i := 1; i < len(ws); i++ {
			out = append(out, ws[i-1]+" "+ws[i])
		}
		return out
	}},
	{"length", func(s string) []string { return []string{fmt.Sprint(len(s)), "", fmt.Sprint(len(s) % 3)} }},
	{"words in upper case and room after them", func(s string) []string {
		ws := strings.Fields(strings.ToUpper(s))
		return append(make([]string, 0, len(ws)+8), ws...)
	}},
}

func drawOwn(t *T) OwnCase {
	var c OwnCase
	c.Direct, c.Own = chance(t, 30), intn(t, len(ownAnalysers))
	c.Names = drawNames(t, 2, 5)
	if c.Direct {
		c.Names = c.Names[:1]
	}
	c.Answer = ints(t, 1, 4, 4)
	vocab := drawVocab(t, 1, 4)
	m := newModel(anFields)
	w := weights{"put": 6, "search": 6, "alias": 4, "unalias": 1, "rename": 1, "drop": 1}
	if c.Direct {
		w = weights{"put": 6, "search": 6}
	} else if chance(t, 70) {
		c.Ops = drawSetup(t, c.Names, vocab)
		for _, op := range c.Ops {
			m.apply(c.RepoCase, op)
		}
	}
	c.Ops = append(c.Ops, drawOps(t, m, w, c.Names, 1, 12, vocab)...)
	swell(t, c.Ops, 1, 60)
	if chance(t, 40) {
		c.Many = drawOps(t, m, weights{"search": 1}, c.Names, 1, 4, vocab)
	}
	c.Plan = drawPlan(t)
	return c
}

// ownAnalyser notes the texts it is asked for.
type ownAnalyser struct {
	f    func(string) []string
	mu   sync.Mutex
	seen map[string]int
}

func (a *ownAnalyser) Tokenize(s string) []string {
	a.mu.Lock()
	a.seen[strings.Clone(s)]++
	a.mu.Unlock()
	return a.f(s)
}

// glance is what an engine saw.
type glance struct {
	tokens []string
	view   string
	docs   int
	answer []Res
}

// viewText writes down documents and posting lists.
func viewText(ids [][2]string, lists map[string][]int) string {
	var b strings.Builder
	for i, d := range ids {
		fmt.Fprintf(&b, "%d=%q %q; ", i, d[0], clip(d[1]))
	}
	var ts []string
	for t := range lists {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		if len(lists[t]) > 0 {
			fmt.Fprintf(&b, "%q in %v; ", clip(t), lists[t])
		}
	}
	return b.String()
}

// ownEngine notes what it is given, for the tokens of interest, spoils it and
// answers the next results.
func (c OwnCase) ownEngine(label string, interest []string, mu *sync.Mutex, saw *[]glance) vg.Engine {
	return func(tokens []string, ix vg.Indexer) slices.Slice[vg.SearchResult] {
		g := glance{tokens: append([]string(nil), tokens...), docs: ix.Len()}
		var ids [][2]string
		for i := 0; i < ix.Len(); i++ {
			d := ix.Document(i)
			ids = append(ids, [2]string{strings.Clone(d.ID()), strings.Clone(d.Raw())})
		}
		lists := map[string][]int{}
		for _, tok := range interest {
			l := ix.Indexed(tok)
			lists[tok] = append([]int(nil), l...)
			for i := range l {
				l[i] = -1
			}
			_ = append(l, -2)
		}
		g.view = viewText(ids, lists)
		for i := range tokens {
			tokens[i] = "spoiled"
		}
		_ = append(tokens, "spoiled")
		mu.Lock() // (held across nothing of the library's, which may switch)
		n := len(*saw)
		*saw = append(*saw, glance{})
		mu.Unlock()
		var out slices.Slice[vg.SearchResult]
		k := c.Answer[n%len(c.Answer)]
		if k == 3 {
			out = slices.Slice[vg.SearchResult]{} // none, but not nil
			k = 0
		}
		for i := 0; i < k; i++ {
			r := Res{fmt.Sprintf("%s.%d", label, (n+i*5)%7), fmt.Sprintf("no such content %d", n), []int{-3, 1 << 40, 0, 7}[(n+i)%4]}
			g.answer = append(g.answer, r)
			out = append(out, vg.SearchResult{Document: vg.NewDoc(r.ID, r.Raw), Hits: r.Hits})
		}
		mu.Lock()
		(*saw)[n] = g
		mu.Unlock()
		return out
	}
}

// wantView is what the engine should see of an index that holds docs.
func wantView(f func(string) []string, docs []Doc, interest []string) string {
	var ids [][2]string
	lists := map[string][]int{}
	listed := setOf(interest)
	for i, d := range docs {
		ids = append(ids, [2]string{string(d.ID), string(d.Content)})
		for _, t := range distinct(f(d.statement())) {
			if listed[t] {
				lists[t] = append(lists[t], i)
			}
		}
	}
	return viewText(ids, lists)
}

func runC29(c OwnCase, o *Out) error {
	f := ownAnalysers[c.Own].f
	o.Label("analyser: " + ownAnalysers[c.Own].name)
	an := &ownAnalyser{f: f, seen: map[string]int{}}
	m := newModel(anFields)
	var (
		repo  *vg.IndexRepo
		index *vg.MemoryIndex
		mu    sync.Mutex
		texts = map[string]bool{}
	)
	if c.Direct {
		index = vg.NewMemoryIndex(c.name(0), an)
		m.idx[c.name(0)] = []Doc{}
		o.Label("an index alone")
	} else {
		repo = vg.NewIndexRepo(vg.NewMemoryIndexBuilder(an))
	}
	// The tokens looked up in views: those of everything put and asked.
	var interest []string
	for _, op := range append(append([]Op(nil), c.Ops...), c.Many...) {
		if op.Doc != nil {
			for _, d := range op.docs()[:1] {
				interest = append(interest, f(d.statement())...)
			}
			texts[op.Doc.statement()] = true
			if op.N > 0 {
				texts[""] = true
			}
		}
		if op.Op == "search" {
			interest = append(interest, f(string(op.Q))...)
			texts[string(op.Q)] = true
		}
	}
	interest = append(distinct(append(interest, f("")...)), "nobody put this")
	if len(interest) > 400 {
		interest = interest[:400]
	}
	// search makes one search and compares what its engine saw.
	search := func(op Op, label string) error {
		var saw []glance
		eng := c.ownEngine(label, interest, &mu, &saw)
		q := string(op.Q)
		names := m.denotes(c.name(op.A))
		if c.Direct {
			names = []string{c.name(0)}
		}
		var got []Res
		var err error
		if c.Direct {
			got = toRes(index.Search(q, eng))
		} else {
			var s stream
			if s, err = repo.Search(c.name(op.A), q, eng); err == nil {
				got, err = drain(s)
			}
		}
		call := fmt.Sprintf("Search(%q, %q)", c.name(op.A), q)
		mu.Lock()
		defer mu.Unlock()
		if (err != nil) != (names == nil) {
			return fmt.Errorf("%s reports %v", call, err)
		}
		if len(saw) != len(names) {
			return fmt.Errorf("%s ran its engine %d times for %d indices", call, len(saw), len(names))
		}
		var want, have []string
		var answers []Res
		ts := fmt.Sprintf("%q", f(q))
		for _, n := range names {
			want = append(want, wantView(f, m.idx[n], interest))
		}
		for _, g := range saw {
			if x := fmt.Sprintf("%q", g.tokens); x != ts {
				return fmt.Errorf("%s: the analyser yields %s, the engine was given %s", call, ts, x)
			}
			have = append(have, g.view)
			answers = append(answers, g.answer...)
			if g.docs > 0 && len(g.tokens) > 0 {
				o.Nontrivial = true
			}
		}
		sort.Strings(want)
		sort.Strings(have)
		for i := range want {
			if want[i] != have[i] {
				return fmt.Errorf("%s: the engine sees\n  %s\nin the index that is\n  %s", call, clip(have[i]), clip(want[i]))
			}
		}
		if len(names) == 1 && !sameRes(got, answers) || !sameBag(got, answers) {
			return fmt.Errorf("%s: the engine answered %s, the search %s", call, show(answers), show(got))
		}
		return nil
	}
	at := 0
	err := play(c.Plan, func() string { return c.trace(at) }, func() error {
		for i, op := range c.Ops {
			at = i
			if op.Op == "search" {
				o.LabelIf(len(m.denotes(c.name(op.A))) > 1, "search through an alias of several")
				if err := search(op, fmt.Sprint("s", i)); err != nil {
					return fmt.Errorf("%w%s", err, c.trace(i))
				}
				continue
			}
			if !c.Direct {
				do(repo, c.RepoCase, op)
			} else if op.Op == "put" {
				for _, d := range op.docs() {
					index.Put(d.req())
				}
			}
			m.apply(c.RepoCase, op)
		}
		return nil
	})
	if err != nil {
		return err
	}
	if len(c.Many) > 1 {
		o.Label("searches at the same time")
		errs := make([]error, len(c.Many))
		var fs []func()
		for i, op := range c.Many {
			fs = append(fs, func() { errs[i] = search(op, fmt.Sprint("m", i)) })
		}
		r := vsync.Run(c.Plan, fs...)
		if r.Failed() {
			return fmt.Errorf("%s%s", r.Err(), c.trace(len(c.Ops)))
		}
		for _, e := range errs {
			if e != nil {
				return fmt.Errorf("beside other searches: %w%s", e, c.trace(len(c.Ops)))
			}
		}
	}
	for s := range an.seen {
		if !texts[s] {
			return fmt.Errorf("the analyser was asked for %q, which is no statement and no query%s", clip(s), c.trace(len(c.Ops)))
		}
	}
	return nil
}
