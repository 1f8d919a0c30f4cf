package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sonirico/vago/slices"
	vg "github.com/sonirico/visigoth"
	"verifharness/core"
)

// IndexCase is a history of puts to one index and queries about it.
type IndexCase struct {
	An      int   `json:"analyser"`
	Puts    []Put `json:"puts"`
	Queries []S   `json:"queries"`
	Each    bool  `json:"each,omitempty"` // ask after every put as well
}

func drawIndexCase(t *T) IndexCase {
	vocab := drawVocab(t, 1, 6)
	c := IndexCase{An: intn(t, anCount), Each: chance(t, 30)}
	c.Puts = drawPuts(t, vocab, 0, 8, 400)
	c.Queries = drawQueries(t, vocab, c.Puts, 6)
	return c
}

func drawQueries(t *T, vocab []string, puts []Put, hi int) []S {
	return many(t, 1, hi, func(t *T) S {
		if len(puts) > 0 && chance(t, 40) {
			// words of one document
			d := oneOf(t, puts).Doc
			ws := strings.Fields(d.statement())
			if len(ws) > 0 {
				if chance(t, 15) {
					return S(d.statement())
				}
				var q []string
				for i := between(t, 1, 4); i > 0; i-- {
					q = append(q, oneOf(t, ws))
				}
				return S(strings.Join(q, " "))
			}
		}
		if intn(t, 60) == 0 {
			return S(drawText(t, vocab, 0, 12))
		}
		return S(drawText(t, vocab, 0, 3))
	})
}

func build(an int) (*vg.MemoryIndex, Tokenizer) {
	return vg.NewMemoryIndex("ix", analyser(an)), analyser(an)
}

// drive puts the documents of c one by one, and calls ask after the last, and
// after every one if the case says so.
func (c IndexCase) drive(ask func(ix *vg.MemoryIndex, tok Tokenizer, docs []Doc) error) error {
	ix, tok := build(c.An)
	docs := []Doc{}
	for _, p := range c.Puts {
		for _, d := range p.docs() {
			ix.Put(d.req())
			docs = append(docs, d)
		}
		if c.Each {
			if err := ask(ix, tok, docs); err != nil {
				return fmt.Errorf("after %d puts: %w", len(docs), err)
			}
		}
	}
	return ask(ix, tok, docs)
}

func repeatedIDs(docs []Doc) bool {
	seen := map[S]bool{}
	for _, d := range docs {
		if seen[d.ID] {
			return true
		}
		seen[d.ID] = true
	}
	return false
}

func (c IndexCase) labels(o *Out, docs []Doc) {
	o.Label("analyser " + anNames[c.An])
	o.LabelIf(repeatedIDs(docs), "documents sharing an identifier")
	o.LabelIf(len(docs) > 50, "more than 50 documents")
	for _, d := range docs {
		if d.Stmt != nil {
			o.Label("statement apart from content")
			break
		}
	}
}

func init() {
	core.Register(core.Prop{
		ID:    "C01",
		Rule:  "A history of puts to an index behind one of six analysers, and queries drawn from its words and from elsewhere. Non-trivial: some query matches some but not all of the documents, or is answered from documents that share an identifier.",
		Quick: 160000, Thorough: 4000000,
	}, drawIndexCase, func(c IndexCase, o *Out) error {
		err := c.drive(func(ix *vg.MemoryIndex, tok Tokenizer, docs []Doc) error {
			for _, q := range c.Queries {
				want := noHits(expected(tok, docs, string(q), 1))
				for e := 0; e < 2; e++ {
					got := noHits(toRes(ix.Search(string(q), engines[e])))
					if !sameBag(got, want) {
						return fmt.Errorf("%s for %q (terms %q) returns %s\nthe documents holding every term are %s", engineNames[e], string(q), tok.Tokenize(string(q)), show(got), show(want))
					}
				}
				o.LabelIf(len(want) > 0, "query with matches")
				o.LabelIf(len(tok.Tokenize(string(q))) > 1 && len(want) > 0, "several terms, with matches")
				o.LabelIf(len(tok.Tokenize(string(q))) == 0, "query without terms")
				if len(want) > 0 && (len(want) < len(docs) || repeatedIDs(docs)) {
					o.Nontrivial = true
				}
			}
			return nil
		})
		c.labels(o, expand(c.Puts))
		return err
	})

	core.Register(core.Prop{
		ID:    "C02",
		Rule:  "As C01. Non-trivial: some query matches two or more documents.",
		Quick: 160000, Thorough: 4000000,
	}, drawIndexCase, func(c IndexCase, o *Out) error {
		err := c.drive(func(ix *vg.MemoryIndex, tok Tokenizer, docs []Doc) error {
			var all []Res
			for _, d := range docs {
				all = append(all, Res{string(d.ID), string(d.Content), 0})
			}
			for _, q := range c.Queries {
				terms := tok.Tokenize(string(q))
				for e := 0; e < 2; e++ {
					got := toRes(ix.Search(string(q), engines[e]))
					hits := len(terms)
					if e == 0 {
						hits = len(distinct(terms))
					}
					for _, r := range got {
						if r.Hits != hits {
							return fmt.Errorf("%s for %q (terms %q) reports %d hits for %s, want %d", engineNames[e], string(q), terms, r.Hits, r, hits)
						}
					}
					if !subsequence(noHits(got), all) {
						return fmt.Errorf("%s for %q returns %s\nthe documents were put in the order %s", engineNames[e], string(q), show(got), show(all))
					}
					if len(got) > 1 {
						o.Nontrivial = true
						o.Label("two or more results")
						o.LabelIf(hits > 1, "two or more results of two or more hits")
						o.LabelIf(len(distinct(terms)) < len(terms), "repeated term with results")
					}
				}
			}
			return nil
		})
		c.labels(o, expand(c.Puts))
		return err
	})

	core.Register(core.Prop{
		ID:    "C03",
		Rule:  "A history of puts to an index; then the stored documents, and the posting list of every token of the history, of the words of the case and of the index's own map, are compared with a scan of the history. Non-trivial: some token occurs in two documents, or twice in one.",
		Quick: 160000, Thorough: 4000000,
	}, drawIndexCase, runC03)

	core.Register(core.Prop{
		ID:    "C05",
		Rule:  "A history of puts to an index interleaved with searches by every engine whose results are overwritten, sorted and extended by the caller, as are posting lists; afterwards the index is compared with one that had the same puts alone. Non-trivial: some search returned results, or some posting list was changed, before a later put.",
		Quick: 360000, Thorough: 4500000,
	}, drawIsolation, runC05)

	core.Register(core.Prop{
		ID:    "C24",
		Rule:  "A history of puts with distinct contents, cut in two, and queries in two parts. Non-trivial: the answer to a query is not empty before the cut and documents follow, or both parts of a query have answers.",
		Quick: 160000, Thorough: 4000000,
	}, drawMono, runC24)
}

// ---------------------------------------------------------------- C03

func checkStored(ix *vg.MemoryIndex, tok Tokenizer, docs []Doc, extra []string) error {
	if ix.Len() != len(docs) || len(ix.Docs) != len(docs) {
		return fmt.Errorf("%d documents were put, the index holds %d (%d in Docs)", len(docs), ix.Len(), len(ix.Docs))
	}
	want := map[string][]int{}
	for i, d := range docs {
		got := ix.Document(i)
		if got.ID() != string(d.ID) || got.Raw() != string(d.Content) {
			return fmt.Errorf("document %d is {%q %q}, what was put is %s", i, got.ID(), clip(got.Raw()), d)
		}
		if ix.Docs[i] != got {
			return fmt.Errorf("document %d and entry %d of Docs differ", i, i)
		}
		for _, t := range distinct(tok.Tokenize(d.statement())) {
			want[t] = append(want[t], i)
		}
	}
	check := func(t string) error {
		got := ix.Indexed(t)
		if fmt.Sprint(got) != fmt.Sprint(want[t]) && (len(got) > 0 || len(want[t]) > 0) {
			return fmt.Errorf("token %q is listed for documents %v, it occurs in %v", t, got, want[t])
		}
		return nil
	}
	var tokens []string
	for t := range want {
		tokens = append(tokens, t)
	}
	for t := range ix.InvertedIndex {
		tokens = append(tokens, t)
	}
	sort.Strings(tokens)
	for _, t := range append(distinct(tokens), extra...) {
		if err := check(t); err != nil {
			return err
		}
	}
	return nil
}

func runC03(c IndexCase, o *Out) error {
	var extra []string
	for _, q := range c.Queries {
		extra = append(extra, string(q))
		extra = append(extra, strings.Fields(string(q))...)
	}
	err := c.drive(func(ix *vg.MemoryIndex, tok Tokenizer, docs []Doc) error {
		return checkStored(ix, tok, docs, extra)
	})
	docs := expand(c.Puts)
	if err == nil {
		err = checkRequests(docs)
	}
	tok := analyser(c.An)
	seen := map[string]bool{}
	for _, d := range docs {
		ts := tok.Tokenize(d.statement())
		if len(distinct(ts)) < len(ts) {
			o.Nontrivial = true
			o.Label("token repeated in a document")
		}
		for _, t := range distinct(ts) {
			if seen[t] {
				o.Nontrivial = true
				o.Label("token shared by documents")
			}
			seen[t] = true
		}
	}
	c.labels(o, docs)
	return err
}

// checkRequests compares what requests and documents say with what they were
// made of.
func checkRequests(docs []Doc) error {
	for _, d := range docs {
		r := d.req()
		mime := vg.MimeText
		if d.Mime != 0 {
			mime = vg.MimeType(d.Mime)
		}
		if r.ID() != string(d.ID) || r.Raw() != string(d.Content) || r.Statement() != d.statement() || r.Mime() != mime {
			return fmt.Errorf("the request for %s says identifier %q, content %q, statement %q, mime type %d", d, r.ID(), clip(r.Raw()), clip(r.Statement()), r.Mime())
		}
		x := vg.NewDoc(r.ID(), r.Raw())
		sr := vg.SearchResult{Document: x, Hits: len(docs)}
		if x.ID() != string(d.ID) || x.Raw() != string(d.Content) || sr.GetDoc() != x || sr.Doc() != x || sr.GetHits() != len(docs) {
			return fmt.Errorf("the document of %s says identifier %q, content %q, a result of it %v", d, x.ID(), clip(x.Raw()), sr)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C05

// IsoStep is a put, or a search or posting lookup whose answer the caller
// tampers with.
type IsoStep struct {
	Put    *Put `json:"put,omitempty"`
	Query  S    `json:"query,omitempty"`
	Engine int  `json:"engine,omitempty"` // len(engines): posting lookup
	Tamper int  `json:"tamper,omitempty"`
}

type IsoCase struct {
	An    int       `json:"analyser"`
	Steps []IsoStep `json:"steps"`
	Final []S       `json:"final"`
}

func drawIsolation(t *T) IsoCase {
	vocab := drawVocab(t, 1, 4)
	c := IsoCase{An: intn(t, anCount)}
	c.Steps = many(t, 1, 16, func(t *T) IsoStep {
		if chance(t, 50) {
			return IsoStep{Put: &Put{Doc: drawDoc(t, vocab)}}
		}
		return IsoStep{Query: S(drawText(t, vocab, 0, 2)), Engine: intn(t, len(engines)+1), Tamper: intn(t, 5)}
	})
	if chance(t, 5) {
		n := between(t, 1, 60)
		if intn(t, 8) == 0 {
			n = between(t, 60, 1500)
		}
		at := intn(t, 1+len(c.Steps)/2)
		w := S(oneOf(t, vocab))
		c.Steps = append(c.Steps[:at:at], append([]IsoStep{
			{Put: &Put{Bulk: &Bulk{N: n, IDs: n, Words: []S{w}, Each: chance(t, 50)}}},
			{Query: w, Engine: intn(t, len(engines)+1), Tamper: intn(t, 5)},
		}, c.Steps[at:]...)...)
	}
	c.Final = many(t, 1, 3, func(t *T) S { return S(drawText(t, vocab, 0, 2)) })
	return c
}

func runC05(c IsoCase, o *Out) error {
	ix, tok := build(c.An)
	var docs []Doc
	type held struct {
		what  string
		live  slices.Slice[vg.SearchResult]
		copy  []Res
		livep []int
		copyp []int
	}
	var hs []held
	seen := false
	garbage := vg.SearchResult{Document: vg.NewDoc("garbage", "garbage"), Hits: -7}
	for i, st := range c.Steps {
		if st.Put != nil {
			for _, d := range st.Put.docs() {
				ix.Put(d.req())
				docs = append(docs, d)
			}
			if seen {
				o.Nontrivial = true
			}
			continue
		}
		q := string(st.Query)
		if st.Engine == len(engines) {
			for _, t := range append(tok.Tokenize(q), q) {
				l := ix.Indexed(t)
				cp := append([]int(nil), l...)
				switch st.Tamper {
				case 0:
					hs = append(hs, held{what: fmt.Sprintf("step %d: postings of %q", i, t), livep: l, copyp: cp})
				case 1:
					for k := range l {
						l[k] = -1
					}
				case 2:
					sort.Sort(sort.Reverse(sort.IntSlice(l)))
				case 3:
					_ = append(l, 99999)
				default:
					l = l[:cap(l)]
					for k := range l {
						l[k] = 12345
					}
				}
				if len(l) > 0 {
					seen = true
					o.Label("posting list handled")
				}
			}
			continue
		}
		rs := ix.Search(q, engines[st.Engine])
		if len(rs) > 0 {
			seen = true
			o.Label("results handled from " + engineNames[st.Engine])
		}
		switch st.Tamper {
		case 0:
			hs = append(hs, held{what: fmt.Sprintf("step %d: %s for %q", i, engineNames[st.Engine], q), live: rs, copy: toRes(rs)})
		case 1:
			for k := range rs {
				rs[k] = garbage
			}
		case 2:
			for a, b := 0, len(rs)-1; a < b; a, b = a+1, b-1 {
				rs[a], rs[b] = rs[b], rs[a]
			}
		case 3:
			_ = append(rs, garbage, garbage)
		default:
			rs = rs[:cap(rs)]
			for k := range rs {
				rs[k] = garbage
			}
		}
	}
	for _, h := range hs {
		if h.live != nil && !sameRes(toRes(h.live), h.copy) {
			return fmt.Errorf("%s was %s when returned and is now %s", h.what, show(h.copy), show(toRes(h.live)))
		}
		if fmt.Sprint(h.livep) != fmt.Sprint(h.copyp) {
			return fmt.Errorf("%s were %v when returned and are now %v", h.what, h.copyp, h.livep)
		}
	}
	// A twin that had the puts only.
	twin, _ := build(c.An)
	for _, d := range docs {
		twin.Put(d.req())
	}
	if err := sameIndex(ix, twin); err != nil {
		return fmt.Errorf("searching changed the index: %w", err)
	}
	for _, q := range c.Final {
		for e := range engines {
			a, b := toRes(ix.Search(string(q), engines[e])), toRes(twin.Search(string(q), engines[e]))
			if !sameRes(a, b) {
				return fmt.Errorf("%s for %q returns %s, without the searches before it %s", engineNames[e], string(q), show(a), show(b))
			}
		}
	}
	if err := sameIndex(ix, twin); err != nil {
		return fmt.Errorf("searching changed the index: %w", err)
	}
	return nil
}

// sameIndex compares what two indices store.
func sameIndex(a, b *vg.MemoryIndex) error {
	// Their textual forms list the same tokens, in any order.
	if x, y := lines(a.String()), lines(b.String()); x != y {
		return fmt.Errorf("it shows\n%s\nwant\n%s", clip(x), clip(y))
	}
	if a.Len() != b.Len() {
		return fmt.Errorf("%d documents, want %d", a.Len(), b.Len())
	}
	for i := 0; i < a.Len(); i++ {
		if a.Document(i) != b.Document(i) {
			return fmt.Errorf("document %d is %q, want %q", i, a.Document(i), b.Document(i))
		}
	}
	keys := map[string]bool{}
	for k := range a.InvertedIndex {
		keys[k] = true
	}
	for k := range b.InvertedIndex {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, y := a.Indexed(k), b.Indexed(k)
		if len(x)+len(y) > 0 && fmt.Sprint(x) != fmt.Sprint(y) {
			return fmt.Errorf("token %q is listed for %v, want %v", k, x, y)
		}
	}
	return nil
}

func lines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// ---------------------------------------------------------------- C24

type MonoCase struct {
	An     int   `json:"analyser"`
	Before []Put `json:"before"`
	After  []Put `json:"after"`
	Pairs  [][]S `json:"pairs"`
}

func drawMono(t *T) MonoCase {
	vocab := drawVocab(t, 1, 5)
	c := MonoCase{An: intn(t, anComma)}
	c.Before = drawPuts(t, vocab, 0, 7, 150)
	c.After = drawPuts(t, vocab, 0, 5, 800)
	c.Pairs = many(t, 1, 5, func(t *T) []S {
		qs := []S{S(drawText(t, vocab, 0, 3)), S(drawText(t, vocab, 0, 3))}
		if chance(t, 2) { // many words
			k := intn(t, 2)
			qs[k] = S(strings.Repeat(oneOf(t, vocab)+" ", upTo(t, 1, 400, 5000))) + qs[k]
		}
		return qs
	})
	return c
}

// numbered are the documents of a run of puts with contents all different.
func numbered(ps []Put, from int) []Doc {
	ds := expand(ps)
	for i := range ds {
		s := S(ds[i].statement())
		ds[i].Stmt, ds[i].Mime = &s, 0
		ds[i].Content = S(fmt.Sprintf("#%d %s", from+i, s))
	}
	return ds
}

func runC24(c MonoCase, o *Out) error {
	ix, tok := build(c.An)
	before := numbered(c.Before, 0)
	after := numbered(c.After, len(before))
	for _, d := range before {
		ix.Put(d.req())
	}
	type key struct{ p, side, e int }
	early := map[key][]Res{}
	for p, qs := range c.Pairs {
		for side := range qs {
			for e := 0; e < 2; e++ {
				early[key{p, side, e}] = toRes(ix.Search(string(qs[side]), engines[e]))
			}
		}
	}
	for _, d := range after {
		ix.Put(d.req())
	}
	for p, qs := range c.Pairs {
		a, b := string(qs[0]), string(qs[1])
		both := a + " " + b
		for e := 0; e < 2; e++ {
			ra, rb := toRes(ix.Search(a, engines[e])), toRes(ix.Search(b, engines[e]))
			rab := toRes(ix.Search(both, engines[e]))
			for side, late := range [][]Res{ra, rb} {
				was := early[key{p, side, e}]
				if !subsequence(was, late) {
					return fmt.Errorf("%s for %q returned %s\nafter %d more puts it returns %s", engineNames[e], string(qs[side]), show(was), len(after), show(late))
				}
				if len(was) > 0 && len(after) > 0 {
					o.Nontrivial = true
					o.Label("answer kept over further puts")
				}
			}
			ta, tb := len(tok.Tokenize(a)), len(tok.Tokenize(b))
			for _, part := range []struct {
				n  int
				q  string
				rs []Res
			}{{ta, a, ra}, {tb, b, rb}} {
				if part.n > 0 && !subBag(noHits(rab), noHits(part.rs)) {
					return fmt.Errorf("%s for %q returns %s\nfor %q alone only %s", engineNames[e], both, show(rab), part.q, show(part.rs))
				}
			}
			if ta > 0 && tb > 0 {
				want := common(noHits(ra), noHits(rb))
				if !sameBag(noHits(rab), want) {
					return fmt.Errorf("%s for %q returns %s\nfor its parts %q and %q it returns %s and %s", engineNames[e], both, show(rab), a, b, show(ra), show(rb))
				}
				if len(ra) > 0 && len(rb) > 0 {
					o.Nontrivial = true
					o.Label("both parts have answers")
					o.LabelIf(len(want) > 0, "parts have answers in common")
				}
			}
		}
	}
	return nil
}

func bag(rs []Res) map[Res]int {
	m := map[Res]int{}
	for _, r := range rs {
		m[r]++
	}
	return m
}

func subBag(a, b []Res) bool {
	m := bag(b)
	for _, r := range a {
		if m[r]--; m[r] < 0 {
			return false
		}
	}
	return true
}

func common(a, b []Res) []Res {
	m := bag(b)
	var out []Res
	for _, r := range a {
		if m[r] > 0 {
			m[r]--
			out = append(out, r)
		}
	}
	return out
}
