package props

import (
	"fmt"
	"strings"

	"github.com/sonirico/vago/streams"
	vg "github.com/sonirico/visigoth"
	"verifharness/core"
)

func init() {
	core.Register(core.Prop{
		ID: "C32", Instr: true,
		Rule:  "A history of calls among which answers, several of the same query or of others, are opened, and read a few results at a time, each result asked for not at all, once or again, one answer after the other or in turns, by hand or by the functions of package streams, to the end, past it, or closed half-way. Non-trivial: two answers with results were being read in turns, or a call fell between two reads of one.",
		Quick: 160000, Thorough: 4000000,
	}, drawAnswers, runC32)
}

// AnswersCase is a history and what is done between its calls with answers.
type AnswersCase struct {
	RepoCase
	Acts []Act `json:"acts"`
}

// Act opens answers before call number At, or reads one of those open.
type Act struct {
	At   int    `json:"at"`
	What string `json:"what"` // open, read, close, or the function that reads the rest
	Name int    `json:"name,omitempty"`
	Q    S      `json:"q,omitempty"`
	E    int    `json:"engine,omitempty"`
	N    int    `json:"n,omitempty"`    // answers opened, or results read
	Of   int    `json:"of,omitempty"`   // which of the open answers
	Peek []int  `json:"peek,omitempty"` // how often each result is asked for
}

func drawAnswers(t *T) AnswersCase {
	c := AnswersCase{RepoCase: drawRepo(weights{"put": 6, "search": 2, "alias": 4, "unalias": 1, "unaliasall": 1, "rename": 2, "drop": 1}, 14)(t)}
	c.Each = false
	if swell(t, c.Ops, 4, 100) {
		c.Plan.Stmt = min(c.Plan.Stmt, 4)
	}
	var vocab []string
	for _, op := range c.Ops {
		if op.Doc != nil {
			ws := strings.Fields(op.Doc.statement())
			vocab = append(vocab, ws[:min(len(ws), 40)]...)
		}
	}
	if len(vocab) == 0 {
		vocab = []string{"casa"}
	}
	rounds := between(t, 1, 4)
	for ; rounds > 0; rounds-- {
		at := intn(t, len(c.Ops)+1)
		if chance(t, 40) {
			at = len(c.Ops)
		}
		m, best, most := newModel(c.An), 0, 0
		for _, op := range c.Ops[:at] {
			m.apply(c.RepoCase, op)
		}
		for i := range c.Names {
			n := 0
			for _, in := range m.denotes(c.name(i)) {
				n += len(m.idx[in])
			}
			if n > most {
				best, most = i, n
			}
		}
		q := S(drawText(t, vocab, 0, 2))
		if chance(t, 50) {
			q = S(oneOf(t, vocab))
		}
		if chance(t, 25) {
			best = intn(t, len(c.Names))
		}
		c.Acts = append(c.Acts, Act{At: at, What: "open", Name: best, Q: q, E: oneOf(t, []int{0, 1, 2, 2, 2, 2, 3, 4}), N: between(t, 1, 3)})
		for k := between(t, 1, 8); k > 0; k-- {
			if chance(t, 30) && at < len(c.Ops) {
				at++
			}
			c.Acts = append(c.Acts, Act{At: at, What: oneOf(t, []string{"read", "read", "read", "read", "read", "read", "close", "Consume", "Iter", "Iter2", "Pipe", "ConsumeErrSkip"}),
				N: oneOf(t, []int{1, 1, 1, 1, 2, 2, 3, 5, 100, 5000}), Of: intn(t, 6), Peek: ints(t, 0, 3, 3)})
		}
	}
	return c
}

type answer struct {
	what   string
	s      streams.ReadStream[vg.SearchResult]
	want   []Res
	pos    int
	last   int // the call it was last read before
	turn   int
	closed bool
	ended  bool
}

func (a *answer) expect(got Res) error {
	if a.pos >= len(a.want) {
		return fmt.Errorf("%s gives %s after its %d results", a.what, clip(fmt.Sprint(got)), len(a.want))
	}
	if w := a.want[a.pos]; w != got {
		return fmt.Errorf("result %d of %s is %s, want %s", a.pos, a.what, clip(fmt.Sprint(got)), clip(fmt.Sprint(w)))
	}
	return nil
}

func resOf(r vg.SearchResult) Res {
	return Res{r.GetDoc().ID(), r.GetDoc().Raw(), r.GetHits()}
}

func (a *answer) read(n int, peek []int) error {
	for ; n > 0; n-- {
		more := a.s.Next()
		if err := a.s.Err(); err != nil {
			return fmt.Errorf("%s reports %v after %d of %d results", a.what, err, a.pos, len(a.want))
		}
		if more != (a.pos < len(a.want)) {
			return fmt.Errorf("%s says %v to another result after %d of %d", a.what, more, a.pos, len(a.want))
		}
		if !more {
			a.ended = true
			continue
		}
		k := 1
		if len(peek) > 0 {
			k = peek[a.pos%len(peek)]
		}
		for ; k > 0; k-- {
			if err := a.expect(resOf(a.s.Data())); err != nil {
				return err
			}
			if err := a.s.Err(); err != nil {
				return fmt.Errorf("%s reports %v with result %d of %d", a.what, err, a.pos, len(a.want))
			}
		}
		a.pos++
	}
	return nil
}

type sink struct{ got []vg.SearchResult }

func (s *sink) Write(r vg.SearchResult) (int64, error) { s.got = append(s.got, r); return 1, nil }
func (s *sink) Flush() error                           { return nil }
func (s *sink) Err() error                             { return nil }
func (s *sink) Close() error                           { return nil }

// rest reads what is left with a function of package streams.
func (a *answer) rest(how string) error {
	var got []vg.SearchResult
	var err error
	switch how {
	case "Consume":
		got, err = streams.Consume(a.s)
	case "ConsumeErrSkip":
		got = streams.ConsumeErrSkip(a.s)
	case "Iter":
		for r := range streams.Iter(a.s) {
			got = append(got, r)
		}
		a.closed = true
	case "Iter2":
		for r, e := range streams.Iter2(a.s) {
			if e != nil {
				err = e
				break
			}
			got = append(got, r)
		}
		a.closed = true
	case "Pipe":
		to := &sink{}
		_, err = streams.Pipe(a.s, streams.WriteStream[vg.SearchResult](to))
		got = to.got
	}
	if err != nil {
		return fmt.Errorf("%s: streams.%s reports %v after %d of %d results", a.what, how, err, a.pos, len(a.want))
	}
	for _, r := range got {
		if err := a.expect(resOf(r)); err != nil {
			return fmt.Errorf("%w, read by streams.%s", err, how)
		}
		a.pos++
	}
	if a.pos != len(a.want) {
		return fmt.Errorf("%s has %d results, but streams.%s reads to the end after %d", a.what, len(a.want), how, a.pos)
	}
	if err := a.s.Err(); err != nil {
		return fmt.Errorf("%s reports %v once streams.%s has read it", a.what, err, how)
	}
	a.ended = true
	return nil
}

func runC32(c AnswersCase, o *Out) error {
	at := 0
	return play(c.Plan, func() string { return c.trace(at - 1) }, func() error {
		r := newRepo(c.An)
		var open []*answer
		turn := 0
		for at = 0; at <= len(c.Ops); at++ {
			for _, k := range c.Acts {
				if k.At != at {
					continue
				}
				if k.What == "open" {
					name := c.name(k.Name)
					want, ok, err := search(r, name, string(k.Q), k.E)
					if err != nil {
						return err
					}
					if !ok {
						o.Label("failed search")
						continue
					}
					for i := 0; i < k.N; i++ {
						s, err := r.Search(name, string(k.Q), engines[k.E])
						if err != nil {
							return fmt.Errorf("%q is found and then not, after%s", name, c.trace(at-1))
						}
						open = append(open, &answer{what: fmt.Sprintf("answer %d, of Search(%q, %q, %s) before call %d,", len(open), name, string(k.Q), engineNames[k.E], at), s: s, want: want, last: -1})
					}
					o.LabelIf(len(want) > 1, "answer of several results")
					continue
				}
				var live []*answer
				for _, a := range open {
					if !a.closed {
						live = append(live, a)
					}
				}
				if len(live) == 0 {
					continue
				}
				a := live[k.Of%len(live)]
				turn++
				if a.pos > 0 && a.pos < len(a.want) {
					if a.turn < turn-1 {
						o.Nontrivial = true
						o.Label("read in turns with another")
					}
					if a.last < at {
						o.Nontrivial = true
						o.Label("read on after a call")
					}
				}
				a.turn, a.last = turn, at
				var err error
				switch k.What {
				case "read":
					err = a.read(k.N, k.Peek)
				case "close":
					a.closed = true
					if e := a.s.Close(); e != nil {
						err = fmt.Errorf("closing %s fails: %v", a.what, e)
					}
					o.LabelIf(!a.ended, "closed with results unread")
				default:
					err = a.rest(k.What)
					o.Label("read by streams." + k.What)
				}
				o.LabelIf(a.ended, "read to the end or past it")
				if err != nil {
					return fmt.Errorf("%w, after%s", err, c.trace(at-1))
				}
			}
			if at < len(c.Ops) {
				do(r, c.RepoCase, c.Ops[at])
			}
		}
		// The answers still open are read in turns to the end.
		for left := true; left; {
			left = false
			for _, a := range open {
				if a.closed || a.ended {
					continue
				}
				n := 1
				if len(a.want) > 200 {
					n = len(a.want)
				}
				if err := a.read(n, nil); err != nil {
					return fmt.Errorf("%w, read in turns with the others at the end, after%s", err, c.trace(len(c.Ops)))
				}
				left = true
			}
		}
		for _, a := range open {
			if !a.closed {
				if err := a.read(2, nil); err != nil {
					return err
				}
				if err := a.s.Close(); err != nil {
					return fmt.Errorf("closing %s fails: %v", a.what, err)
				}
			}
		}
		return nil
	})
}
