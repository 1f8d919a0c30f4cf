package props

import (
	"fmt"
	"runtime"
	"strings"
	"time"
	"unsafe"
	"weak"

	"github.com/sonirico/vago/slices"
	vg "github.com/sonirico/visigoth"
	"verifharness/core"
)

func init() {
	core.Register(core.Prop{
		ID:    "C31",
		Rule:  "A history of calls over the library's indices or the harness's, in which answers are let go at once or some calls later; at up to three points, and when the repository itself is let go, the garbage collector says what is still kept. Non-trivial: an index that held documents was dropped or replaced while another lived on.",
		Quick: 48000, Thorough: 1200000,
	}, drawLet, runC31)
}

// LetCase is a history of calls in which things are let go.
type LetCase struct {
	RepoCase
	Fake  bool  `json:"fake,omitempty"` // indices of the harness's own
	Keep  []int `json:"keep"`           // for how many calls the i-th answer is kept
	Looks []int `json:"looks"`          // after which calls to look
}

func drawLet(t *T) LetCase {
	c := LetCase{RepoCase: drawRepo(weights{"put": 8, "search": 6, "alias": 4, "unalias": 1, "unaliasall": 1, "rename": 3, "drop": 4, "list": 1, "aliases": 1, "string": 1}, 14)(t), Fake: chance(t, 40)}
	if len(c.Ops) > 40 {
		c.Ops = c.Ops[:40]
	}
	c.Keep = ints(t, 0, 8, 4)
	c.Looks = ints(t, 0, 2, len(c.Ops)+1)
	return c
}

// thing is something that can be let go.
type thing struct {
	what string
	live func() bool
	by   map[int]bool // the indices that may keep it, by number
	ans  int          // the answer that may keep it, 0 for none
}

func weakText(s string) func() bool {
	p := weak.Make(unsafe.StringData(s))
	return func() bool { return p.Value() != nil }
}

// fresh copies a text to memory of its own, with room for the collector to
// tell it from others.
func fresh(s string) string {
	return strings.Clone(s + strings.Repeat(" ", 64))
}

type letIndex struct {
	n    int
	note func(string, func() bool)
	pad  [128]byte
}

func (x *letIndex) Put(vg.DocRequest) vg.Index { x.pad[0]++; return x }

func (x *letIndex) Search(q string, _ vg.Engine) slices.Slice[vg.SearchResult] {
	text := fresh(fmt.Sprint("result of ", x.n))
	rs := make(slices.Slice[vg.SearchResult], 2, 6)
	rs[0] = vg.SearchResult{Document: vg.NewDoc("r", text), Hits: 1}
	p := weak.Make(&rs[0])
	x.note("the text of a result", weakText(text))
	x.note("the results", func() bool { return p.Value() != nil })
	return rs
}

// apart runs f in a goroutine whose stack is gone afterwards.
func apart(f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	<-done
}

func runC31(c LetCase, o *Out) error {
	runtime.GOMAXPROCS(1) // collects garbage ten times as fast
	var (
		things []*thing
		mu     = make(chan struct{}, 1) // searches of one call note things at once
		answer = 0
		held   = map[int]stream{}
		from   = map[int]map[int]bool{} // the indices a held answer is from
		until  = map[int]int{}
		alive  = map[int]bool{}
		number = map[string]int{}
		built  = 0
		docs   = map[int]int{}
		rc     = c.RepoCase
		m      = newModel(c.An)
	)
	add := func(k *thing) {
		mu <- struct{}{}
		things = append(things, k)
		<-mu
	}
	note := func(what string, live func() bool) {
		add(&thing{fmt.Sprintf("%s of answer %d", what, answer), live, nil, answer})
	}
	builder := func(name string) vg.Index {
		built++
		n := built
		me := map[int]bool{n: true}
		what := fmt.Sprintf("index %d, built as %q,", n, name)
		if c.Fake {
			x := &letIndex{n: n, note: note}
			p := weak.Make(x)
			add(&thing{what, func() bool { return p.Value() != nil }, me, 0})
			return x
		}
		ix := vg.NewMemoryIndex(name, analyser(c.An))
		p := weak.Make(ix)
		add(&thing{what, func() bool { return p.Value() != nil }, me, 0})
		return ix
	}
	var r *vg.IndexRepo
	apart(func() { r = vg.NewIndexRepo(builder) })
	kept := func() error {
		var left []string
		for try := 0; try < 7; try++ {
			runtime.GC()
			left = nil
			for _, k := range things {
				may := k.ans != 0 && held[k.ans] != nil
				for n := range k.by {
					may = may || alive[n]
					for a := range held {
						may = may || from[a][n]
					}
				}
				if !may && k.live() {
					left = append(left, k.what)
				}
			}
			if left == nil {
				break
			}
			time.Sleep(time.Millisecond << try)
		}
		// What has been let go for good needs no second look.
		var rest []*thing
		for _, k := range things {
			if k.live() {
				rest = append(rest, k)
			}
		}
		things = rest
		if left != nil {
			return fmt.Errorf("still kept: %s", strings.Join(left, "; "))
		}
		return nil
	}
	look := map[int]bool{}
	for _, l := range c.Looks {
		look[l] = true
	}
	mixed := false
	step := func(i int, op Op) {
		a, b := c.name(op.A), c.name(op.B)
		switch op.Op {
		case "put":
			into := map[int]bool{}
			names := m.denotes(a)
			m.apply(rc, op)
			if names == nil {
				number[a] = built + 1
				alive[built+1] = true
				names = []string{a}
			}
			for _, n := range names {
				into[number[n]] = true
				docs[number[n]]++
			}
			if c.Fake {
				into = nil
			}
			for k, d := range op.docs() {
				text, st := fresh(string(d.Content)), fresh(d.statement())
				if k < 4 {
					add(&thing{fmt.Sprintf("the content of document %q, put by call %d,", d.ID, i), weakText(text), into, 0})
					add(&thing{fmt.Sprintf("the statement of document %q, put by call %d,", d.ID, i), weakText(st), into, 0})
				}
				r.Put(a, vg.NewDocRequestWith(string(d.ID), text, st))
			}
		case "search":
			answer++
			keep := 0
			if answer <= len(c.Keep) {
				keep = c.Keep[answer-1]
			}
			q := fresh(string(op.Q))
			add(&thing{fmt.Sprintf("the query of answer %d", answer), weakText(q), nil, 0})
			s, err := r.Search(a, q, func(tokens []string, ix vg.Indexer) slices.Slice[vg.SearchResult] {
				rs := engines[op.E](tokens, ix)
				if len(rs) > 0 {
					p := weak.Make(&rs[0])
					note("the results", func() bool { return p.Value() != nil })
				}
				return rs
			})
			if err == nil && keep > 0 {
				held[answer] = s
				from[answer] = map[int]bool{}
				for _, n := range m.denotes(a) {
					from[answer][number[n]] = true
				}
				until[answer] = i + keep
				o.Label("an answer kept for later")
			} else if err == nil {
				s.Next()
			}
		default:
			before := map[string]bool{}
			for n := range m.idx {
				before[n] = true
			}
			ok := m.apply(rc, op) == "true"
			do(r, rc, op)
			switch {
			case op.Op == "drop" && ok:
				mixed = mixed || docs[number[a]] > 0 && len(m.idx) > 0
				delete(alive, number[a])
				delete(number, a)
				o.Label("dropped")
			case op.Op == "rename" && ok && a != b:
				if n, was := number[b]; was {
					mixed = mixed || docs[n] > 0
					delete(alive, n)
					o.Label("replaced by a rename")
				}
				number[b] = number[a]
				delete(number, a)
			}
		}
	}
	for i, op := range c.Ops {
		apart(func() { step(i, op) })
		for k, at := range until {
			if at <= i {
				delete(held, k)
				delete(until, k)
			}
		}
		if look[i] || i == len(c.Ops)-1 {
			if err := kept(); err != nil {
				return fmt.Errorf("%w\nafter%s", err, rc.trace(i))
			}
		}
	}
	// What is in use is still there.
	for _, k := range things {
		in := false
		for n := range k.by {
			in = in || alive[n]
		}
		if in && !k.live() && strings.HasPrefix(k.what, "index") {
			return fmt.Errorf("%s is gone after%s", k.what, rc.trace(len(c.Ops)))
		}
	}
	runtime.KeepAlive(r)
	r = nil
	clear(alive)
	clear(held)
	if err := kept(); err != nil {
		return fmt.Errorf("%w\nwhen the repository itself was let go, after%s", err, rc.trace(len(c.Ops)))
	}
	o.Nontrivial = mixed
	return nil
}
