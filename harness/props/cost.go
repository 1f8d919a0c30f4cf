package props

import (
	"fmt"
	"math/bits"

	vg "github.com/sonirico/visigoth"
	"verifharness/core"
	"verifharness/vsync"
)

func init() {
	core.Register(core.Prop{
		ID: "C30", Instr: true,
		Rule:  "Posting lists of many shapes (dense, sparse, runs, one in front of the other, interleaved, one element against many) and queries of up to eighty tokens, seen by an engine through a view, through an index or through a repository's alias; the steps taken are counted. Non-trivial: two or more lists of a hundred entries and more.",
		Quick: 72000, Thorough: 600000,
	}, drawCost, runC30)
}

// CostCase is a search of posting lists of given shapes.
type CostCase struct {
	Docs   int     `json:"docs"`
	Shapes []Shape `json:"shapes"` // the list of each token
	Tokens []int   `json:"tokens"`
	Engine int     `json:"engine"`
	Over   int     `json:"over"` // 0 a view, 1 an index, 2 an alias of three indices
	IDs    int     `json:"ids"`  // how many different identifiers
}

// Shape is a subset of the documents.
type Shape struct {
	From int `json:"from"` // percent
	To   int `json:"to"`
	Step int `json:"step"`
	Off  int `json:"off"`
}

func (s Shape) has(i, n int) bool {
	return i >= n*s.From/100 && (i < n*s.To/100 || s.To == 100) && i%max(1, s.Step) == s.Off%max(1, s.Step)
}

func drawShapes(t *T) []Shape {
	return many(t, 1, 5, func(t *T) Shape {
		s := Shape{To: 100, Step: 1}
		switch intn(t, 6) {
		case 0: // all
		case 1:
			s.Step, s.Off = between(t, 2, 5), intn(t, 5)
		case 2:
			s.Step, s.Off = between(t, 5, 400), intn(t, 400)
		case 3:
			s.From = between(t, 0, 100)
		case 4:
			s.To = between(t, 0, 100)
		default:
			s.From = intn(t, 100)
			s.To = between(t, s.From, 100)
			s.Step = between(t, 1, 3)
			s.Off = intn(t, 3)
		}
		return s
	})
}

func drawCost(t *T) CostCase {
	c := CostCase{Over: oneOf(t, []int{0, 0, 1, 2}), Engine: intn(t, 2), IDs: oneOf(t, []int{1, 3, 1 << 30})}
	switch {
	case c.Over > 0:
		c.Docs = between(t, 0, 500)
	case chance(t, 20):
		c.Docs = between(t, 2000, 3000)
	default:
		c.Docs = between(t, 0, 1500)
	}
	c.Shapes = drawShapes(t)
	c.Tokens = ints(t, 1, 8, 60)
	// Many tokens that hardly any document has.
	if c.Over == 0 && c.Docs >= 500 && chance(t, 15) {
		at := len(c.Shapes)
		for i := between(t, 20, 80); i > 0; i-- {
			c.Shapes = append(c.Shapes, Shape{To: 100, Step: c.Docs/2 + 1, Off: intn(t, 40)})
		}
		var few []int
		for k := at; k < len(c.Shapes); k++ {
			few = append(few, k)
		}
		if chance(t, 50) {
			c.Tokens = append(few, c.Tokens...)
		} else {
			c.Tokens = append(c.Tokens, few...)
		}
	}
	return c
}

// costView is a view that counts the calls of it.
type costView struct {
	lists [][]int
	ids   int
	n     int
	calls int
}

func (v *costView) Len() int { v.calls++; return v.n }

func (v *costView) Indexed(tok string) []int {
	v.calls++
	var k int
	if _, err := fmt.Sscanf(tok, "t%d", &k); err != nil || k >= len(v.lists) {
		return nil
	}
	return append([]int(nil), v.lists[k]...)
}

func (v *costView) Document(i int) vg.Doc {
	v.calls++
	return vg.NewDoc(fmt.Sprint(i%v.ids), "")
}

// dear is how many steps one unit of the documented cost may take. The
// library takes less than a tenth of it.
const dear = 40

func runC30(c CostCase, o *Out) error {
	n := c.Docs
	lists := make([][]int, len(c.Shapes))
	long := 0
	for k, s := range c.Shapes {
		for i := 0; i < n; i++ {
			if s.has(i, n) {
				lists[k] = append(lists[k], i)
			}
		}
		if len(lists[k]) >= 100 {
			long++
		}
	}
	o.Nontrivial = long > 1
	o.LabelIf(len(c.Tokens) > 20, "query of many tokens")
	o.Label([]string{"a view", "an index", "an alias of three indices"}[c.Over])
	o.Label(engineNames[c.Engine])
	var tokens []string
	work := n + len(c.Tokens) + 20
	count := make([]int, n)
	seen := map[int]bool{}
	for _, k := range c.Tokens {
		k %= len(lists)
		tokens = append(tokens, fmt.Sprint("t", k))
		work += len(lists[k])
		if !seen[k] {
			for _, i := range lists[k] {
				count[i]++
			}
		}
		seen[k] = true
	}
	hits := 0
	for _, x := range count {
		if x == len(seen) {
			hits++
		}
	}
	work += hits * bits.Len(uint(hits))
	text := fmt.Sprint(tokens)
	text = text[1 : len(text)-1]
	var res []Res
	var f func()
	view := &costView{lists: lists, ids: c.IDs, n: n}
	fill := func(put func(vg.DocRequest)) {
		for i := 0; i < n; i++ {
			st := ""
			for k, s := range c.Shapes {
				if s.has(i, n) {
					st += fmt.Sprintf("t%d ", k)
				}
			}
			put(vg.NewDocRequestWith(fmt.Sprint(i%c.IDs), "", st))
		}
	}
	want := hits
	switch c.Over {
	case 0:
		f = func() { res = toRes(engines[c.Engine](tokens, view)) }
	case 1:
		ix, _ := build(anFields)
		fill(func(r vg.DocRequest) { ix.Put(r) })
		f = func() { res = toRes(ix.Search(text, engines[c.Engine])) }
	default:
		repo := newRepo(anFields)
		for _, name := range []string{"x", "y", "z"} {
			repo.Put(name, vg.NewDocRequest("first", ""))
			repo.Alias("all", name)
		}
		fill(func(r vg.DocRequest) { repo.Put("all", r) })
		work, want = 3*(work+1), 3*hits
		f = func() {
			if s, err := repo.Search("all", text, engines[c.Engine]); err == nil {
				res, _ = drain(s)
			}
		}
	}
	r := vsync.Run(vsync.Plan{}, f)
	if r.Failed() {
		return fmt.Errorf("%s", r.Err())
	}
	if len(res) != want {
		return fmt.Errorf("%s finds %d documents, want %d", engineNames[c.Engine], len(res), want)
	}
	if steps := r.Steps + view.calls; steps > dear*work {
		return fmt.Errorf("%s for %d tokens takes %d steps over lists of %v, %d documents and %d results", engineNames[c.Engine], len(tokens), steps, lengths(lists), n, hits)
	}
	return nil
}

func lengths(ls [][]int) []int {
	var out []int
	for _, l := range ls {
		out = append(out, len(l))
	}
	return out
}
