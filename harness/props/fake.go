package props

import (
	"fmt"
	"sync"

	"github.com/sonirico/vago/slices"
	vg "github.com/sonirico/visigoth"
	"pgregory.net/rapid"
	"verifharness/core"
	"verifharness/vsync"
)

func init() {
	core.Register(core.Prop{
		ID: "C22", Instr: true,
		Rule:  "A history of calls, and then callers at the same time, on a repository over an index implementation that records its calls, notices calls that overlap a put and returns results nobody could make up. Non-trivial: some put or search reaches two or more indices, or calls overlapped.",
		Quick: 288000, Thorough: 1800000,
	}, drawFake, runC22)
}

// fakeLog is what a repository did with the indices built for it.
type fakeLog struct {
	mu    sync.Mutex
	built []string
	calls []fakeCall
	wrong string
}

type fakeCall struct {
	ix    *fake
	put   bool
	req   vg.DocRequest
	terms string
	eng   string
}

// fake is an index of the harness's own.
type fake struct {
	log    *fakeLog
	id     int
	name   string
	put    int
	other  int
	n      int // results per search
	issued []slices.Slice[vg.SearchResult]
}

func (f *fake) enter(put bool) {
	f.log.mu.Lock()
	if (f.put > 0 || put && f.other > 0) && f.log.wrong == "" {
		f.log.wrong = fmt.Sprintf("the index built as %q is called while another call of it runs, one of them a put", f.name)
	}
	if put {
		f.put++
	} else {
		f.other++
	}
	f.log.mu.Unlock()
	vsync.Y()
}

func (f *fake) leave(put bool) {
	vsync.Y()
	f.log.mu.Lock()
	if put {
		f.put--
	} else {
		f.other--
	}
	f.log.mu.Unlock()
}

func (f *fake) record(c fakeCall) {
	f.log.mu.Lock()
	f.log.calls = append(f.log.calls, c)
	f.log.mu.Unlock()
}

func (f *fake) Put(req vg.DocRequest) vg.Index {
	f.enter(true)
	f.record(fakeCall{ix: f, put: true, req: req})
	f.leave(true)
	return f
}

// Search returns results that name the index, the terms and the engine.
func (f *fake) Search(terms string, engine vg.Engine) slices.Slice[vg.SearchResult] {
	f.enter(false)
	who := engine([]string{terms}, nil)
	eng := ""
	if len(who) == 1 {
		eng = who[0].Document.ID()
	}
	f.record(fakeCall{ix: f, terms: terms, eng: eng})
	rs := f.answer(terms, eng)
	f.log.mu.Lock()
	f.issued = append(f.issued, rs)
	f.log.mu.Unlock()
	f.leave(false)
	return rs
}

func (f *fake) answer(terms, eng string) slices.Slice[vg.SearchResult] {
	if f.n == 0 {
		return nil
	}
	rs := make(slices.Slice[vg.SearchResult], f.n, f.n+3)
	for i := range rs {
		rs[i] = vg.SearchResult{Document: vg.NewDoc(fmt.Sprint("of ", f.id), fmt.Sprintf("%d %s %s", i, terms, eng)), Hits: f.n - i}
	}
	for i := f.n; i < f.n+3; i++ {
		rs[:f.n+3][i].Hits = -99
	}
	return rs
}

func (f *fake) intact() error {
	for _, rs := range f.issued {
		full := rs[:cap(rs)]
		for i := range full {
			if i < f.n && full[i].Document.ID() != fmt.Sprint("of ", f.id) || i < f.n && full[i].Hits != f.n-i || i >= f.n && (full[i].Hits != -99 || full[i].Document.ID() != "") {
				return fmt.Errorf("the results of the index built as %q were written to after it returned them: %v", f.name, full)
			}
		}
	}
	return nil
}

func (f *fake) String() string { return fmt.Sprintf("fake %d", f.id) }

// namedEngine is an engine that says which one it is.
func namedEngine(name string) vg.Engine {
	return func(tokens []string, _ vg.Indexer) slices.Slice[vg.SearchResult] {
		return slices.Slice[vg.SearchResult]{{Document: vg.NewDoc(name, "")}}
	}
}

type FakeCase struct {
	ConcCase
	Seq  []Op `json:"seq"`
	Many int  `json:"many,omitempty"` // results of an index that gives several
}

func drawFake(t *T) FakeCase {
	w := weights{"put": 5, "search": 5, "alias": 4, "unalias": 1, "rename": 2, "drop": 1, "list": 1, "string": 1}
	var c FakeCase
	c.ConcCase = drawConc(w, 4, 4)(t)
	c.Pre = nil
	if chance(t, 40) {
		c.Threads = nil
	}
	m := newModel(c.An)
	if chance(t, 70) {
		c.Seq = drawSetup(t, c.Names, []string{"casa", "perro"})
		for _, op := range c.Seq {
			m.apply(c.repo(), op)
		}
	}
	most := 14
	if rapid.Uint16().Draw(t, "long")%500 == 77 {
		most = 300
	}
	c.Seq = append(c.Seq, drawOps(t, m, w, c.Names, 0, most, []string{"casa", "perro"})...)
	if intn(t, 100) == 0 {
		c.Many = upTo(t, 2, 400, 3000)
	}
	return c
}

func runC22(c FakeCase, o *Out) error {
	log := &fakeLog{}
	var all []*fake
	repo := vg.NewIndexRepo(func(name string) vg.Index {
		log.mu.Lock()
		defer log.mu.Unlock()
		f := &fake{log: log, id: len(all), name: name, n: (len(all) + 2) % 4}
		if f.n > 1 && c.Many > 0 {
			f.n = c.Many - len(all)%2
		}
		all = append(all, f)
		log.built = append(log.built, name)
		return f
	})
	rc := RepoCase{Names: c.Names, Ops: c.Seq}
	m := newModel(anFields)
	now := map[string]*fake{} // which index a name stands for
	at := 0
	err := play(c.Plan, func() string { return rc.trace(at) }, func() error {
		for i, op := range c.Seq {
			at = i
			a, b := rc.name(op.A), rc.name(op.B)
			log.calls, log.built = nil, nil
			was := m.denotes(a)
			fail := func(f string, args ...any) error {
				return fmt.Errorf(f+"%s", append(args, "\nafter"+rc.trace(i))...)
			}
			switch op.Op {
			case "put":
				req := op.Doc.req()
				repo.Put(a, req)
				m.apply(rc, op)
				if was == nil {
					if len(log.built) != 1 || log.built[0] != a {
						return fail("putting to the new name %q built indices %q", a, log.built)
					}
					now[a] = all[len(all)-1]
					was = []string{a}
				} else if len(log.built) != 0 {
					return fail("putting to %q built indices %q", a, log.built)
				}
				got := map[*fake]int{}
				for _, k := range log.calls {
					if !k.put {
						return fail("a put searched index %q", k.ix.name)
					}
					if k.req != req {
						return fail("the request %+v reached index %q as %+v", req, k.ix.name, k.req)
					}
					got[k.ix]++
				}
				for _, n := range was {
					if got[now[n]] != 1 {
						return fail("the request put to %q reached index %q %d times", a, n, got[now[n]])
					}
				}
				if len(log.calls) != len(was) {
					return fail("the request put to %q, which denotes %q, was put %d times", a, was, len(log.calls))
				}
				if len(was) > 1 {
					o.Nontrivial = true
					o.Label("put to several")
				}
			case "search":
				eng := fmt.Sprintf("engine %d", i)
				s, err := repo.Search(a, string(op.Q), namedEngine(eng))
				if (err != nil) != (was == nil) {
					return fail("searching %q, which denotes %q, gives error %v", a, was, err)
				}
				var got []Res
				if err == nil {
					if got, err = drain(s); err != nil {
						return fail("%v", err)
					}
				}
				var want []Res
				asked := map[*fake]int{}
				for _, k := range log.calls {
					if k.put || k.terms != string(op.Q) || k.eng != eng {
						return fail("searching for %q with %s made the call %+v of index %q", string(op.Q), eng, k, k.ix.name)
					}
					asked[k.ix]++
				}
				for _, n := range was {
					if asked[now[n]] != 1 {
						return fail("searching %q asked index %q %d times", a, n, asked[now[n]])
					}
					want = append(want, toRes(now[n].answer(string(op.Q), eng))...)
				}
				if len(log.calls) != len(was) {
					return fail("searching %q, which denotes %q, made %d calls", a, was, len(log.calls))
				}
				if !sameBag(got, want) || len(was) == 1 && !sameRes(got, want) {
					return fail("searching %q gives %s, the indices returned %s", a, show(got), show(want))
				}
				if len(was) > 1 {
					o.Nontrivial = true
					o.Label("search of several")
				}
			default:
				got := do(repo, rc, op)
				ok := m.apply(rc, op) == "true"
				if len(log.calls)+len(log.built) != 0 {
					return fail("%s made %d calls of indices and built %q", rc.show(op), len(log.calls), log.built)
				}
				_ = got
				switch {
				case op.Op == "rename" && ok && a != b:
					now[b] = now[a]
					delete(now, a)
				case op.Op == "drop" && ok:
					delete(now, a)
				}
			}
			if log.wrong != "" {
				return fail("%s", log.wrong)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	if len(c.Threads) > 0 {
		log.calls, log.built = nil, nil
		cc := ConcCase{Names: c.Names, Pre: c.Seq, Threads: c.Threads, Plan: c.Plan}
		evs, res := cc.run(func(th int, op Op) string {
			if op.Op != "search" {
				return do(repo, rc, op)
			}
			s, err := repo.Search(rc.name(op.A), string(op.Q), namedEngine("e"))
			if err != nil {
				return "error"
			}
			rs, err := drain(s)
			if err != nil {
				return err.Error()
			}
			return bagText(rs)
		})
		if res.Failed() {
			return fmt.Errorf("%s%s", res.Err(), cc.threadsText())
		}
		if log.wrong != "" {
			return fmt.Errorf("%s%s", log.wrong, cc.history(evs))
		}
		if overlapping(evs) {
			o.Nontrivial = true
			o.Label("calls overlapped")
		}
		for _, e := range evs {
			if e.op.Op != "put" {
				continue
			}
			req := e.op.Doc.req()
			got := map[*fake]int{}
			for _, k := range log.calls {
				if k.put && k.req == req {
					got[k.ix]++
				}
			}
			for ix, n := range got {
				if n > 1 {
					return fmt.Errorf("request %+v was put into index %q %d times%s", req, ix.name, n, cc.history(evs))
				}
			}
			if len(got) == 0 {
				return fmt.Errorf("request %+v reached no index%s", req, cc.history(evs))
			}
		}
	}
	for _, f := range all {
		if err := f.intact(); err != nil {
			return err
		}
	}
	return nil
}
