package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	vg "github.com/sonirico/visigoth"
	"pgregory.net/rapid"
	"verifharness/core"
	"verifharness/vsync"
)

// ---------------------------------------------------------------- operations

// Op is one call of the repository. A and B are positions in the case's list
// of names.
type Op struct {
	Op  string `json:"op"`
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
	Doc *Doc   `json:"doc,omitempty"`
	Q   S      `json:"q,omitempty"`
	E   int    `json:"engine,omitempty"`
	// N is how many documents a put is of, 0 for one: number i is called
	// "<id>.<i>", and only every Step-th has the content, the others none.
	N    int `json:"n,omitempty"`
	Step int `json:"step,omitempty"`
}

func (op Op) docs() []Doc {
	if op.N == 0 {
		return []Doc{*op.Doc}
	}
	var ds []Doc
	for i := 0; i < op.N; i++ {
		d := Doc{ID: S(fmt.Sprintf("%s.%d", op.Doc.ID, i))}
		if i%max(1, op.Step) == 0 {
			d.Content = S(op.Doc.statement())
		}
		ds = append(ds, d)
	}
	return ds
}

// swell makes a put of the history one of many documents, in so many of a
// hundred cases.
func swell(t *T, ops []Op, percent, most int) bool {
	if !chance(t, percent) {
		return false
	}
	var puts []int
	names := 1
	for i, op := range ops {
		names = max(names, op.A+1, op.B+1)
		if op.Op == "put" {
			puts = append(puts, i)
		}
	}
	if len(puts) == 0 {
		return false
	}
	if intn(t, 6) == 0 {
		most *= 6
	}
	for k := between(t, 1, 2); k > 0; k-- {
		op := &ops[oneOf(t, puts)]
		op.N, op.Step = upTo(t, 1, most, max(most, min(2000, 20*most))), oneOf(t, []int{1, 1, 2, 5, 20})
		if op.Doc != nil { // so many documents of so many words, looked through for each word
			words := 1 + strings.Count(op.Doc.statement(), " ")
			op.N = min(op.N, int(math.Sqrt(4e7/float64(words*names))))
		}
	}
	return true
}

// RepoCase is a history of calls.
type RepoCase struct {
	Names []S        `json:"names"`
	An    int        `json:"analyser"`
	Ops   []Op       `json:"ops"`
	Each  bool       `json:"each,omitempty"` // look at everything after every call
	Plan  vsync.Plan `json:"plan"`
}

func (c RepoCase) name(i int) string { return string(c.Names[i%len(c.Names)]) }

func (c RepoCase) show(op Op) string {
	switch op.Op {
	case "put":
		if op.N > 0 {
			return fmt.Sprintf("Put(%q, %s) as %d documents, content in every %d-th", c.name(op.A), op.Doc, op.N, max(1, op.Step))
		}
		return fmt.Sprintf("Put(%q, %s)", c.name(op.A), op.Doc)
	case "search":
		return fmt.Sprintf("Search(%q, %q, %s)", c.name(op.A), string(op.Q), engineNames[op.E])
	case "alias", "unalias", "rename":
		return fmt.Sprintf("%s(%q, %q)", map[string]string{"alias": "Alias", "unalias": "UnAlias", "rename": "Rename"}[op.Op], c.name(op.A), c.name(op.B))
	case "unaliasall":
		return fmt.Sprintf("UnAlias(%q, \"\")", c.name(op.A))
	case "drop":
		return fmt.Sprintf("Drop(%q)", c.name(op.A))
	case "has":
		return fmt.Sprintf("Has(%q)", c.name(op.A))
	case "hasalias":
		return fmt.Sprintf("HasAlias(%q)", c.name(op.A))
	case "list":
		return "List()"
	case "aliases":
		return "ListAliases()"
	case "string":
		return "String()"
	}
	return op.Op
}

func (c RepoCase) trace(upto int) string {
	var b strings.Builder
	for i := 0; i <= upto && i < len(c.Ops); i++ {
		fmt.Fprintf(&b, "\n  %d. %s", i, c.show(c.Ops[i]))
	}
	return b.String()
}

type weights map[string]int

var allOps = []string{"put", "search", "alias", "unalias", "unaliasall", "rename", "drop", "has", "hasalias", "list", "aliases", "string"}

var repoNames = []string{"a", "b", "docs", "A", "", "é", "index-1", "\xff", "a b", "*", "e\u0301"}

func drawNames(t *T, lo, hi int) []S {
	n := between(t, lo, hi)
	var out []S
	for _, s := range shuffle(t, repoNames)[:n] {
		out = append(out, S(s))
	}
	if chance(t, 20) { // two names easily taken for one another
		out[n-1] = S(alike(t, string(out[0])))
		if intn(t, 4) == 0 {
			out[n-1] = S(dictWord(t, string(out[n-1])))
		}
		for i := 0; i < n-1; i++ {
			if out[i] == out[n-1] {
				out[n-1] += "'"
				i = -1
			}
		}
	}
	if hi < 8 && chance(t, 3) { // many names
		most := 24
		if chance(t, 20) {
			most = 160
		}
		for i := upTo(t, 1, most, 200); i > 0; i-- {
			out = append(out, S(fmt.Sprintf("n%d", i)))
		}
	}
	return out
}

// alike is another name much like s.
func alike(t *T, s string) string {
	switch intn(t, 18) {
	case 16:
		return dictWord(t, s)
	case 17:
		return strings.Repeat("n", upTo(t, 1, 100, 5000)) + s
	case 8:
		return s + "\n"
	case 9:
		return "." + s
	case 10:
		return s + "."
	case 11:
		return "./" + s
	case 12:
		return s + "e\u0301"
	case 13:
		return s + "\u00e9"
	case 14:
		return "_" + s
	case 15:
		return s + "%20"
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s + " "
	case 2:
		return " " + s
	case 3:
		return s + s
	case 4:
		return s + "\x00"
	case 5:
		return s + "*"
	case 6:
		return strings.Repeat(s+"x", 80)
	case 7:
		return s + "/" + s
	}
	return s + ",b"
}

// drawOps makes calls; each case leaves out some kinds of call and favours
// others, so that rare combinations come up. Most calls are drawn with a model
// of the history in view, so that they find what they act on.
func drawOps(t *T, m *model, w weights, names []S, lo, hi int, vocab []string) []Op {
	var kinds []string
	for _, k := range allOps {
		n := w[k]
		if n > 0 {
			switch intn(t, 6) {
			case 0:
				n = 0
			case 1:
				n *= 3
			}
		}
		for ; n > 0; n-- {
			kinds = append(kinds, k)
		}
	}
	for _, k := range allOps {
		if len(kinds) == 0 && w[k] > 0 {
			kinds = []string{k}
		}
	}
	if chance(t, 60) {
		lo = between(t, lo, lo+(hi-lo)*3/4)
	}
	c := RepoCase{Names: names}
	free := freeNames(len(names))
	n := 0
	ops := many(t, lo, hi, func(t *T) Op {
		op := Op{Op: oneOf(t, kinds), A: intn(t, len(names))}
		switch op.Op {
		case "put":
			d := Doc{Content: S(drawText(t, vocab, 0, 4))}
			if chance(t, 15) {
				d = drawDoc(t, vocab)
			} else if intn(t, 150) == 0 {
				d.Content += S(strings.Repeat(oneOf(t, vocab)+" ", upTo(t, 1, 400, 5000)))
			}
			if d.ID == "" && d.Stmt == nil && d.Mime == 0 {
				d.ID = S(fmt.Sprintf("d%d", n))
				n++
			}
			op.Doc = &d
		case "search":
			op.Q, op.E = S(drawText(t, vocab, 0, 2)), intn(t, len(engines))
			if intn(t, 100) == 0 {
				op.Q = S(strings.Repeat(oneOf(t, vocab)+" ", upTo(t, 1, 400, 5000))) + op.Q
			}
		case "alias", "unalias", "rename":
			op.B = intn(t, len(names))
		}
		if chance(t, 75) {
			m.aim(t, names, free, &op)
		}
		m.apply(c, op)
		return op
	})
	return ops
}

// aim changes whom a call is about so that it finds what it acts on.
func (m *model) aim(t *T, names []S, free []int, op *Op) {
	var indices, aliases, several, others []int
	for i, s := range names {
		n := string(s)
		_, ok := m.idx[n]
		if ok {
			indices = append(indices, i)
		} else {
			others = append(others, i)
			if l := m.al[n]; l != nil {
				aliases = append(aliases, i)
				if len(l) > 1 {
					several = append(several, i)
				}
			}
		}
	}
	pick := func(sets ...[]int) (int, bool) {
		for _, s := range sets {
			if len(s) > 0 {
				return oneOf(t, s), true
			}
		}
		return 0, false
	}
	switch op.Op {
	case "put":
		if len(aliases) > 0 && chance(t, 50) {
			op.A, _ = pick(several, aliases)
		} else if len(indices) == 0 || chance(t, 20) {
			var rest []int
			for _, i := range others {
				if !hasInt(free, i) && m.al[string(names[i])] == nil {
					rest = append(rest, i)
				}
			}
			if i, ok := pick(rest); ok {
				op.A = i
			}
		} else {
			op.A, _ = pick(indices)
		}
	case "search":
		if chance(t, 50) {
			if i, ok := pick(several, aliases, indices); ok {
				op.A = i
			}
		} else if i, ok := pick(indices); ok {
			op.A = i
		}
	case "alias":
		var as []int
		for _, i := range free {
			if hasInt(others, i) {
				as = append(as, i)
			}
		}
		if i, ok := pick(as, others); ok {
			op.A = i
		}
		var bs []int
		for _, i := range indices {
			if !has(m.al[string(names[op.A])], string(names[i])) {
				bs = append(bs, i)
			}
		}
		if i, ok := pick(bs, indices); ok {
			op.B = i
		}
	case "unalias", "unaliasall", "hasalias":
		var as, bs []int
		for i, s := range names {
			if m.al[string(s)] != nil {
				as = append(as, i)
			}
		}
		if i, ok := pick(as); ok {
			op.A = i
			for j, s := range names {
				if has(m.al[string(names[i])], string(s)) {
					bs = append(bs, j)
				}
			}
			if j, ok := pick(bs); ok && op.Op == "unalias" {
				op.B = j
			}
		}
	case "rename":
		if i, ok := pick(indices); ok {
			op.A = i
		}
		if chance(t, 50) {
			if i, ok := pick(others); ok {
				op.B = i
			}
		}
	case "drop", "has":
		if i, ok := pick(indices); ok {
			op.A = i
		}
	}
}

func hasInt(is []int, i int) bool {
	for _, x := range is {
		if x == i {
			return true
		}
	}
	return false
}

// freeNames are the names better left to aliases.
func freeNames(n int) []int {
	return []int{0, 1}[:min(2, (n+1)/3)]
}

// drawSetup makes calls that put to some names and attach others to them.
func drawSetup(t *T, names []S, vocab []string) []Op {
	var ops []Op
	free := freeNames(len(names))
	var ixs []int
	if len(names) > 8 && chance(t, 40) { // a few indices with many aliases
		few := between(t, 1, 3)
		for i := range names {
			if i < few {
				ops = append(ops, Op{Op: "put", A: i, Doc: &Doc{ID: S(fmt.Sprintf("s%d", i)), Content: S(drawText(t, vocab, 0, 3))}})
			} else if chance(t, 90) {
				ops = append(ops, Op{Op: "alias", A: i, B: intn(t, few)})
				if few > 1 && chance(t, 60) {
					ops = append(ops, Op{Op: "alias", A: i, B: intn(t, few)})
				}
			}
		}
		return ops
	}
	for i := range names {
		if hasInt(free, i) && !chance(t, 10) {
			continue
		}
		if chance(t, 75) {
			ops = append(ops, Op{Op: "put", A: i, Doc: &Doc{ID: S(fmt.Sprintf("s%d", i)), Content: S(drawText(t, vocab, 0, 3))}})
			ixs = append(ixs, i)
		}
	}
	if len(names) > 8 {
		for _, i := range ixs {
			if i != 0 && chance(t, 90) {
				ops = append(ops, Op{Op: "alias", A: 0, B: i})
			}
		}
	}
	for i := between(t, 0, 5); i > 0; i-- {
		op := Op{Op: "alias", A: intn(t, len(names)), B: intn(t, len(names))}
		if len(free) > 0 && len(ixs) > 0 && chance(t, 80) {
			op.A, op.B = oneOf(t, free), oneOf(t, ixs)
		}
		ops = append(ops, op)
	}
	return ops
}

func drawRepo(w weights, hi int) func(t *T) RepoCase {
	return func(t *T) RepoCase {
		c := RepoCase{Names: drawNames(t, 2, 5), An: oneOf(t, []int{anFields, anFields, anSpanish}), Each: chance(t, 50)}
		vocab := drawVocab(t, 1, 3)
		m := newModel(c.An)
		if chance(t, 75) { // most histories begin with a few indices and aliases
			c.Ops = drawSetup(t, c.Names, vocab)
			for _, op := range c.Ops {
				m.apply(c, op)
			}
		}
		most := hi
		if rapid.Uint16().Draw(t, "long")%500 == 77 { // a long history
			most = 500
		}
		c.Ops = append(c.Ops, drawOps(t, m, w, c.Names, 1, most, vocab)...)
		text := 0
		for _, op := range c.Ops {
			text += len(op.Q)
			if op.Doc != nil {
				text += len(op.Doc.statement())
			}
		}
		big := swell(t, c.Ops, 2, max(5, 150*8/max(8, len(c.Names)))) || len(c.Names) > 40 || len(c.Ops) > 60 || text > 5000
		c.Plan = drawPlan(t)
		if big { // a switch costs some 10 µs, and there would be millions
			c.Each = false
			c.Plan.Stmt = min(c.Plan.Stmt, 4)
		}
		return c
	}
}

// ---------------------------------------------------------------- the model

type model struct {
	tok Tokenizer
	idx map[string][]Doc
	al  map[string][]string
}

func newModel(an int) *model {
	return &model{analyser(an), map[string][]Doc{}, map[string][]string{}}
}

func (m *model) denotes(name string) []string {
	if _, ok := m.idx[name]; ok {
		return []string{name}
	}
	return m.al[name]
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func without(ss []string, s string) []string {
	var out []string
	for _, x := range ss {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

func (m *model) setAlias(a string, l []string) {
	if len(l) == 0 {
		delete(m.al, a)
	} else {
		m.al[a] = l
	}
}

// apply performs a call on the model and returns what it should report.
func (m *model) apply(c RepoCase, op Op) string {
	a, b := c.name(op.A), c.name(op.B)
	yes := func(ok bool) string { return fmt.Sprint(ok) }
	switch op.Op {
	case "put":
		ds := m.denotes(a)
		if ds == nil {
			ds = []string{a}
		}
		for _, n := range ds {
			m.idx[n] = append(m.idx[n][:len(m.idx[n]):len(m.idx[n])], op.docs()...)
		}
		return ""
	case "search":
		ds := m.denotes(a)
		if ds == nil {
			return "error"
		}
		var rs []Res
		for _, n := range ds {
			rs = append(rs, expected(m.tok, m.idx[n], string(op.Q), op.E)...)
		}
		return bagText(rs)
	case "alias":
		if _, ok := m.idx[b]; !ok || has(m.al[a], b) {
			return yes(false)
		}
		m.al[a] = append(m.al[a][:len(m.al[a]):len(m.al[a])], b)
		return yes(true)
	case "unalias":
		if b == "" {
			return m.apply(c, Op{Op: "unaliasall", A: op.A})
		}
		if !has(m.al[a], b) {
			return yes(false)
		}
		m.setAlias(a, without(m.al[a], b))
		return yes(true)
	case "unaliasall":
		_, ok := m.al[a]
		delete(m.al, a)
		return yes(ok)
	case "rename":
		ds, ok := m.idx[a]
		if !ok {
			return yes(false)
		}
		if a == b {
			return yes(true)
		}
		delete(m.idx, a)
		m.idx[b] = ds
		for k, l := range m.al {
			if has(l, a) {
				if has(l, b) {
					l = without(l, a)
				} else {
					l = append([]string(nil), l...)
					for i := range l {
						if l[i] == a {
							l[i] = b
						}
					}
				}
				m.al[k] = l
			}
		}
		return yes(true)
	case "drop":
		if _, ok := m.idx[a]; !ok {
			return yes(false)
		}
		delete(m.idx, a)
		for k, l := range m.al {
			if has(l, a) {
				m.setAlias(k, without(l, a))
			}
		}
		return yes(true)
	case "has":
		_, ok := m.idx[a]
		return yes(ok)
	case "hasalias":
		_, ok := m.al[a]
		return yes(ok)
	case "list":
		var l []string
		for n := range m.idx {
			l = append(l, n)
		}
		return listText(l)
	case "aliases":
		var rows []vg.AliasesResultRow
		for a, l := range m.al {
			rows = append(rows, vg.AliasesResultRow{Alias: a, Indices: l})
		}
		return aliasText(rows)
	}
	return ""
}

func listText(l []string) string { return fmt.Sprintf("%q", sortedStrings(l)) }

func aliasText(rows []vg.AliasesResultRow) string {
	var out []string
	for _, r := range rows {
		out = append(out, fmt.Sprintf("%q->%q", r.Alias, sortedStrings(r.Indices)))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// bagText writes results without regard to their order, in full.
func bagText(rs []Res) string { return seqText(sorted(rs)) }

func seqText(rs []Res) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "{%q %q %d}", r.ID, r.Raw, r.Hits)
	}
	return "[" + b.String() + "]"
}

// ---------------------------------------------------------------- the code

func newRepo(an int) *vg.IndexRepo {
	return vg.NewIndexRepo(vg.NewMemoryIndexBuilder(analyser(an)))
}

func search(r *vg.IndexRepo, name, q string, e int) ([]Res, bool, error) {
	s, err := r.Search(name, q, engines[e])
	if err != nil {
		return nil, false, nil
	}
	rs, err := drain(s)
	return rs, true, err
}

// do performs a call on the repository and returns what it reports, in the
// form the model uses.
func do(r *vg.IndexRepo, c RepoCase, op Op) string {
	a, b := c.name(op.A), c.name(op.B)
	switch op.Op {
	case "put":
		for _, d := range op.docs() {
			r.Put(a, d.req())
		}
	case "search":
		rs, ok, err := search(r, a, string(op.Q), op.E)
		if err != nil {
			return "broken stream: " + err.Error()
		}
		if !ok {
			return "error"
		}
		return bagText(rs)
	case "alias":
		return fmt.Sprint(r.Alias(a, b))
	case "unalias":
		return fmt.Sprint(r.UnAlias(a, b))
	case "unaliasall":
		return fmt.Sprint(r.UnAlias(a, ""))
	case "rename":
		return fmt.Sprint(r.Rename(a, b))
	case "drop":
		return fmt.Sprint(r.Drop(a))
	case "has":
		return fmt.Sprint(r.Has(a))
	case "hasalias":
		return fmt.Sprint(r.HasAlias(a))
	case "list":
		return listText(r.List())
	case "aliases":
		return aliasText(r.ListAliases().Aliases)
	case "string":
		_ = r.String()
	}
	return ""
}

// contents is every document of an index in order.
func contents(docs []Doc) string {
	return seqText(expected(nil2fields(), docs, "", 2))
}

func nil2fields() Tokenizer { return tokFunc(strings.Fields) }

// stored is what the repository holds under a name, in order.
func stored(r *vg.IndexRepo, name string) string {
	rs, ok, err := search(r, name, "", 2)
	if err != nil {
		return "broken stream: " + err.Error()
	}
	if !ok {
		return "error"
	}
	return seqText(rs)
}

// snapshot writes down everything one can see of a repository.
func snapshot(r *vg.IndexRepo, names []S) string {
	var b strings.Builder
	fmt.Fprintf(&b, "indices %s\naliases %s\n", listText(r.List()), aliasText(r.ListAliases().Aliases))
	for _, n := range names {
		fmt.Fprintf(&b, "%q index=%v alias=%v", string(n), r.Has(string(n)), r.HasAlias(string(n)))
		rs, ok, err := search(r, string(n), "", 2)
		fmt.Fprintf(&b, " found=%v %v", ok, err)
		if r.Has(string(n)) {
			b.WriteString(seqText(rs))
		} else {
			b.WriteString(bagText(rs))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// play runs f as the only caller under the case's schedule. A call that never
// returns, or panics, is an error.
func play(plan vsync.Plan, trace func() string, f func() error) error {
	var err error
	done := false
	r := vsync.Run(plan, func() { err = f(); done = true })
	if r.Failed() {
		return fmt.Errorf("%s%s", r.Err(), trace())
	}
	if !done {
		return fmt.Errorf("the caller did not finish%s", trace())
	}
	return err
}

// follow runs the history and the model side by side, comparing what the
// calls of the kinds given report, and calling look after every call (or the
// last one only).
func (c RepoCase) follow(kinds string, look func(r *vg.IndexRepo, m *model) error) error {
	at := 0
	return play(c.Plan, func() string { return c.trace(at) }, func() error {
		r, m := newRepo(c.An), newModel(c.An)
		for i, op := range c.Ops {
			at = i
			var direct string
			if op.Op == "search" && strings.Contains(kinds, " search ") {
				direct = union(r, m, c, op)
			}
			got := do(r, c, op)
			want := m.apply(c, op)
			if op.Op == "search" {
				want = direct
			}
			if strings.Contains(kinds, " "+op.Op+" ") && got != want {
				return fmt.Errorf("%s returned %s, want %s, after%s", c.show(op), clip(got), clip(want), c.trace(i))
			}
			if c.Each || i == len(c.Ops)-1 {
				if err := look(r, m); err != nil {
					return fmt.Errorf("%w, after%s", err, c.trace(i))
				}
			}
		}
		return nil
	})
}

// union is what a search through a name should return: what each index denoted
// returns when searched directly.
func union(r *vg.IndexRepo, m *model, c RepoCase, op Op) string {
	ds := m.denotes(c.name(op.A))
	if ds == nil {
		return "error"
	}
	var all []Res
	for _, n := range ds {
		rs, ok, err := search(r, n, string(op.Q), op.E)
		if err != nil || !ok {
			return fmt.Sprintf("no answer from index %q (%v)", n, err)
		}
		all = append(all, rs...)
	}
	return bagText(all)
}

func (m *model) names() []string {
	var out []string
	for n := range m.idx {
		out = append(out, n)
	}
	return sortedStrings(out)
}

func (c RepoCase) count(o *Out) map[string]int {
	n := map[string]int{}
	m := newModel(c.An)
	for _, op := range c.Ops {
		a, b := c.name(op.A), c.name(op.B)
		_, ia := m.idx[a]
		_, ib := m.idx[b]
		_, aa := m.al[a]
		many := !ia && len(m.al[a]) > 1
		k := op.Op
		res := m.apply(c, op)
		ok := res == "true"
		switch k {
		case "put":
			switch {
			case ia && aa:
				k = "put to an index that shadows an alias"
			case ia:
				k = "put to an index"
			case many:
				k = "put through an alias of several"
			case aa:
				k = "put through an alias"
			default:
				k = "put to a new name"
			}
		case "search":
			switch {
			case !ia && !aa:
				k = "search of nothing"
			case many:
				k = "search through an alias of several"
			case !ia:
				k = "search through an alias"
			}
			if len(res) > 2 && res != "error" {
				n["search with results"]++
			}
		case "rename":
			switch {
			case !ok:
				k = "rename of nothing"
			case a == b:
				k = "rename to itself"
			case ib:
				k = "rename onto another"
			}
		case "alias", "unalias", "unaliasall", "drop":
			if !ok {
				k += " that fails"
			}
		}
		n[k]++
	}
	for k := range n {
		o.Label(k)
	}
	return n
}

func init() {
	core.Register(core.Prop{
		ID: "C10", Instr: true,
		Rule:  "A history of calls over two to five names shared by indices and aliases, run beside a model. Non-trivial: it renames or drops an existing index.",
		Quick: 192000, Thorough: 2400000,
	}, drawRepo(weights{"put": 6, "rename": 4, "drop": 2, "alias": 2, "unalias": 1, "has": 1, "list": 1}, 24), func(c RepoCase, o *Out) error {
		n := c.count(o)
		o.Nontrivial = n["rename"]+n["rename to itself"]+n["rename onto another"]+n["drop"] > 0
		return c.follow(" rename drop has list ", func(r *vg.IndexRepo, m *model) error {
			if got, want := listText(r.List()), listText(m.names()); got != want {
				return fmt.Errorf("the indices are listed as %s, want %s", got, want)
			}
			for _, s := range c.Names {
				n := string(s)
				docs, ok := m.idx[n]
				if r.Has(n) != ok {
					return fmt.Errorf("Has(%q) is %v", n, !ok)
				}
				if ok {
					if got, want := stored(r, n), contents(docs); got != want {
						return fmt.Errorf("index %q holds %s, want %s", n, got, want)
					}
				}
			}
			return nil
		})
	})

	core.Register(core.Prop{
		ID: "C11", Instr: true,
		Rule:  "As C10, favouring calls about aliases. Non-trivial: an index is detached, renamed or dropped while attached to an alias, or attached twice.",
		Quick: 192000, Thorough: 2400000,
	}, drawRepo(weights{"put": 3, "alias": 6, "unalias": 4, "unaliasall": 1, "rename": 3, "drop": 2, "hasalias": 1, "aliases": 1}, 24), runC11)

	core.Register(core.Prop{
		ID: "C12", Instr: true,
		Rule:  "As C10, favouring puts and searches through aliases of several indices. Non-trivial: a put or a search with results goes through an alias.",
		Quick: 48000, Thorough: 1200000,
	}, drawRepo(weights{"put": 6, "search": 6, "alias": 5, "unalias": 1, "unaliasall": 1, "rename": 1, "drop": 1}, 24), func(c RepoCase, o *Out) error {
		n := c.count(o)
		o.Nontrivial = n["put through an alias"]+n["put through an alias of several"] > 0 || n["search with results"] > 0 && n["search through an alias"]+n["search through an alias of several"] > 0
		return c.follow(" search ", func(r *vg.IndexRepo, m *model) error {
			for _, s := range c.Names {
				n := string(s)
				if docs, ok := m.idx[n]; ok {
					if got, want := stored(r, n), contents(docs); got != want {
						return fmt.Errorf("index %q holds %s, want %s", n, got, want)
					}
				}
				for e := range engines {
					q := ""
					for _, op := range c.Ops {
						if op.Op == "search" || op.Op == "put" {
							q = string(op.Q)
							if op.Doc != nil {
								q = op.Doc.statement()
							}
						}
					}
					if len(c.Names) > 8 && len(q) > 12 {
						q = q[:12]
					}
					op := Op{Op: "search", A: indexOf(c.Names, s), Q: S(q), E: e}
					if got, want := do(r, c, op), union(r, m, c, op); got != want {
						return fmt.Errorf("%s returns %s, want %s", c.show(op), clip(got), clip(want))
					}
				}
			}
			return nil
		})
	})

	core.Register(core.Prop{
		ID: "C13", Instr: true,
		Rule:  "As C10, with every kind of call, many of them about names that do not exist; the whole visible state is written down before and after each. Non-trivial: a call fails while the repository holds an index.",
		Quick: 84000, Thorough: 2100000,
	}, drawRepo(weights{"put": 3, "search": 2, "alias": 4, "unalias": 4, "unaliasall": 2, "rename": 3, "drop": 3, "has": 1, "hasalias": 1, "list": 1, "aliases": 1, "string": 1}, 20), runC13)

	core.Register(core.Prop{
		ID: "C14", Instr: true,
		Rule:  "A history of calls during which lists and unread result streams are kept, some tampered with, and looked at again at the end. Non-trivial: something kept was followed by a write.",
		Quick: 224000, Thorough: 2800000,
	}, drawSnap, runC14)

	core.Register(core.Prop{
		ID: "C25", Instr: true,
		Rule:  "A history of puts, renames and drops over several names; the dump of the repository and of an index beside it is parsed and compared with the history. Non-trivial: some token occurs in two documents of an index.",
		Quick: 56000, Thorough: 1400000,
	}, drawDump, runC25)
}

func indexOf(ss []S, s S) int {
	for i := range ss {
		if ss[i] == s {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- C11

func runC11(c RepoCase, o *Out) error {
	m := newModel(c.An)
	for _, op := range c.Ops {
		a, b := c.name(op.A), c.name(op.B)
		attached := false
		for _, l := range m.al {
			attached = attached || has(l, a)
		}
		switch {
		case op.Op == "alias" && has(m.al[a], b), op.Op == "unalias" && has(m.al[a], b), (op.Op == "rename" || op.Op == "drop") && attached:
			o.Nontrivial = true
		}
		m.apply(c, op)
	}
	c.count(o)
	return c.follow(" alias unalias unaliasall hasalias aliases ", func(r *vg.IndexRepo, m *model) error {
		rows := r.ListAliases().Aliases
		if got, want := aliasText(rows), m.apply(c, Op{Op: "aliases"}); got != want {
			return fmt.Errorf("the aliases are listed as %s, want %s", got, want)
		}
		for _, s := range c.Names {
			n := string(s)
			_, ok := m.al[n]
			if r.HasAlias(n) != ok {
				return fmt.Errorf("HasAlias(%q) is %v", n, !ok)
			}
			if r.Has(n) {
				continue
			}
			rs, found, err := search(r, n, "", 2)
			if err != nil {
				return err
			}
			if found != ok {
				return fmt.Errorf("search through %q finds something: %v, the alias exists: %v", n, found, ok)
			}
			var want []Res
			for _, row := range rows {
				if row.Alias == n {
					for _, ix := range row.Indices {
						more, _, err := search(r, ix, "", 2)
						if err != nil {
							return err
						}
						want = append(want, more...)
					}
				}
			}
			if !sameBag(rs, want) {
				return fmt.Errorf("search through %q returns %s, the indices listed for it hold %s", n, show(rs), show(want))
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C13

func runC13(c RepoCase, o *Out) error {
	c.count(o)
	docs := 0
	for _, op := range c.Ops {
		if op.Op == "put" {
			docs += len(op.docs())
		}
	}
	big := docs*len(c.Names)*len(c.Ops) > 40000
	o.LabelIf(big, "a large state, looked at around some of the calls")
	at := 0
	return play(c.Plan, func() string { return c.trace(at) }, func() error {
		r, m := newRepo(c.An), newModel(c.An)
		before, looks := "", 0
		for i, op := range c.Ops {
			at = i
			look := true
			if big {
				res := m.apply(c, op)
				look = (res == "false" || res == "error") && looks < 12
			}
			if look && before == "" {
				before = snapshot(r, c.Names)
				looks++
			}
			got := do(r, c, op)
			failed := got == "false" || got == "error"
			after := ""
			if look && (failed || !big) {
				after = snapshot(r, c.Names)
			}
			if failed && look && before != after {
				return fmt.Errorf("%s reported failure and changed\n%sto\n%safter%s", c.show(op), before, after, c.trace(i))
			}
			if failed && look && strings.Contains(before, "index=true") {
				o.Nontrivial = true
			}
			before = after // nothing happens in between
		}
		return nil
	})
}

// ---------------------------------------------------------------- C14

type SnapCase struct {
	RepoCase
	Keep []Keep `json:"keep"`
}

// Keep asks for something before call number At and keeps it.
type Keep struct {
	At     int    `json:"at"`
	What   string `json:"what"` // list, aliases, stream
	Tamper bool   `json:"tamper,omitempty"`
	Read   int    `json:"read,omitempty"` // results read from the stream at once
	Name   int    `json:"name,omitempty"`
	Q      S      `json:"q,omitempty"`
	E      int    `json:"engine,omitempty"`
}

func drawSnap(t *T) SnapCase {
	c := SnapCase{RepoCase: drawRepo(weights{"put": 5, "alias": 4, "unalias": 2, "unaliasall": 1, "rename": 3, "drop": 2}, 18)(t)}
	vocab := []string{"casa"}
	for _, op := range c.Ops {
		if op.Doc != nil {
			vocab = append(vocab, strings.Fields(op.Doc.statement())...)
		}
	}
	c.Keep = many(t, 1, 6, func(t *T) Keep {
		return Keep{At: intn(t, len(c.Ops)+1), What: oneOf(t, []string{"list", "aliases", "aliases", "stream", "stream"}), Tamper: chance(t, 30), Read: intn(t, 3),
			Name: intn(t, len(c.Names)), Q: S(drawText(t, vocab, 0, 1)), E: oneOf(t, []int{0, 1, 2, 2, 4})}
	})
	return c
}

func runC14(c SnapCase, o *Out) error {
	at := 0
	return play(c.Plan, func() string { return c.trace(at) }, func() error {
		r := newRepo(c.An)
		type held struct {
			what  string
			check func() (string, string)
		}
		var hs []held
		for i := 0; i <= len(c.Ops); i++ {
			at = i
			var tampers []func()
			for _, k := range c.Keep {
				if k.At != i {
					continue
				}
				switch k.What {
				case "list":
					l := r.List()
					if k.Tamper {
						tampers = append(tampers, func() {
							l = l[:cap(l)]
							for j := range l {
								l[j] = "tampered"
							}
							_ = append(l, "tampered")
						})
						continue
					}
					was := fmt.Sprintf("%q", l)
					hs = append(hs, held{fmt.Sprintf("the list returned before call %d", i), func() (string, string) { return was, fmt.Sprintf("%q", l) }})
				case "aliases":
					l := r.ListAliases()
					if k.Tamper {
						tampers = append(tampers, func() {
							for j := range l.Aliases {
								ix := l.Aliases[j].Indices
								_ = append(ix, "tampered")
								ix = ix[:cap(ix)]
								for x := range ix {
									ix[x] = "tampered"
								}
								l.Aliases[j] = vg.AliasesResultRow{Alias: "tampered"}
							}
						})
						continue
					}
					was := fmt.Sprintf("%q", l)
					hs = append(hs, held{fmt.Sprintf("the list of aliases returned before call %d", i), func() (string, string) { return was, fmt.Sprintf("%q", l) }})
				default:
					// The repository does not change between these two searches.
					name, q := c.name(k.Name), string(k.Q)
					want, ok, err := search(r, name, q, k.E)
					if err != nil {
						return err
					}
					if !ok {
						continue
					}
					s, err := r.Search(name, q, engines[k.E])
					if err != nil {
						return fmt.Errorf("%q is found and then not", name)
					}
					var got []Res
					for n := 0; n < k.Read && s.Next(); n++ {
						d := s.Data()
						got = append(got, Res{d.GetDoc().ID(), d.GetDoc().Raw(), d.GetHits()})
					}
					all := len(got) < k.Read
					hs = append(hs, held{fmt.Sprintf("the stream of Search(%q, %q, %s) opened before call %d", name, q, engineNames[k.E], i), func() (string, string) {
						if !all {
							rest, err := drain(s)
							if err != nil {
								return "", err.Error()
							}
							got = append(got, rest...)
							all = true
						}
						return bagText(want), bagText(got)
					}})
					o.LabelIf(len(want) > k.Read, "stream kept with results unread")
				}
				o.Label("kept " + k.What)
			}
			if len(tampers) > 0 {
				o.Label("lists tampered with")
				before := snapshot(r, c.Names)
				other := r.ListAliases()
				list := r.List()
				was := fmt.Sprintf("%q %q", other, list)
				for _, f := range tampers {
					f()
				}
				if after := snapshot(r, c.Names); after != before {
					return fmt.Errorf("changing returned lists changed the repository from\n%sto\n%safter%s", before, after, c.trace(i-1))
				}
				if now := fmt.Sprintf("%q %q", other, list); now != was {
					return fmt.Errorf("changing returned lists changed others from %s to %s, after%s", was, now, c.trace(i-1))
				}
			}
			if i < len(c.Ops) {
				if got := do(r, c.RepoCase, c.Ops[i]); got != "false" && len(hs) > 0 {
					o.Nontrivial = true
				}
			}
		}
		for _, h := range hs {
			if was, is := h.check(); was != is {
				return fmt.Errorf("%s was %s and is now %s, after%s", h.what, was, is, c.trace(len(c.Ops)))
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C25

func drawDump(t *T) RepoCase {
	c := drawRepo(weights{"put": 8, "search": 2, "rename": 2, "drop": 1, "alias": 2, "unalias": 1, "string": 1}, 20)(t)
	for i, n := range c.Names { // a line of the dump ends with a newline
		c.Names[i] = S(strings.ReplaceAll(string(n), "\n", "\v|\v"))
	}
	return c
}

// dump reads the textual form of one index: its name, and its tokens as text.
func dump(lines []string, tok Tokenizer) (string, error) {
	if len(lines) < 3 || lines[0] != "{" || lines[len(lines)-1] != "}" || !strings.HasPrefix(lines[1], "\tname=") {
		return "", fmt.Errorf("cannot read the dump %q", lines)
	}
	var rows []string
	for _, l := range lines[2 : len(lines)-1] {
		at := strings.LastIndex(l, ",length=(")
		eq := strings.LastIndex(l, ")]=[")
		if !strings.HasPrefix(l, "\t[token=") || at < 0 || eq < at || !strings.HasSuffix(l, "]") {
			return "", fmt.Errorf("cannot read the line %q of a dump", l)
		}
		pos := strings.Fields(l[eq+len(")]=[") : len(l)-1])
		rows = append(rows, fmt.Sprintf("%q %s %q", l[len("\t[token="):at], l[at+len(",length=("):eq], pos))
	}
	sort.Strings(rows)
	return fmt.Sprintf("%q: %s", lines[1][len("\tname="):], strings.Join(rows, ", ")), nil
}

func wantDump(name string, tok Tokenizer, docs []Doc) string {
	post := map[string][]string{}
	for i, d := range docs {
		for _, t := range distinct(tok.Tokenize(d.statement())) {
			post[t] = append(post[t], fmt.Sprint(i))
		}
	}
	var rows []string
	for t, p := range post {
		rows = append(rows, fmt.Sprintf("%q %d %q", t, len(p), p))
	}
	sort.Strings(rows)
	return fmt.Sprintf("%q: %s", name, strings.Join(rows, ", "))
}

func dumps(text string, tok Tokenizer) ([]string, error) {
	lines := strings.Split(text, "\n")
	var out, cur []string
	for _, l := range lines {
		if len(cur) == 0 && l == "" {
			continue
		}
		cur = append(cur, l)
		if l == "}" {
			d, err := dump(cur, tok)
			if err != nil {
				return nil, err
			}
			out = append(out, d)
			cur = nil
		}
	}
	if len(cur) > 0 {
		return nil, fmt.Errorf("the dump ends with %q", cur)
	}
	sort.Strings(out)
	return out, nil
}

func runC25(c RepoCase, o *Out) error {
	c.count(o)
	tok := analyser(c.An)
	// the name each index was created under, followed through the renames
	created := map[string]string{}
	ix := vg.NewMemoryIndex("beside", analyser(c.An))
	var beside []Doc
	at := 0
	return play(c.Plan, func() string { return c.trace(at) }, func() error {
		r, m := newRepo(c.An), newModel(c.An)
		for i, op := range c.Ops {
			at = i
			before := map[string]bool{}
			for n := range m.idx {
				before[n] = true
			}
			ok := m.apply(c, op)
			do(r, c, op)
			a, b := c.name(op.A), c.name(op.B)
			switch {
			case op.Op == "rename" && ok == "true" && a != b:
				created[b] = created[a]
				delete(created, a)
			case op.Op == "put":
				if _, isNew := m.idx[a]; isNew && !before[a] {
					created[a] = a
				}
				for _, d := range op.docs() {
					ix.Put(d.req())
					beside = append(beside, d)
				}
			case op.Op == "search":
				ix.Search(string(op.Q), engines[op.E])
				for _, t := range tok.Tokenize(string(op.Q)) {
					ix.Indexed(t + "s")
				}
			}
			if !c.Each && i < len(c.Ops)-1 {
				continue
			}
			snap := snapshot(r, c.Names)
			got, err := dumps(r.String(), tok)
			if err != nil {
				return err
			}
			var want []string
			for n, docs := range m.idx {
				want = append(want, wantDump(created[n], tok, docs))
			}
			sort.Strings(want)
			if !sameStrings(got, want) {
				return fmt.Errorf("the repository shows\n  %s\nwant\n  %s\nafter%s", strings.Join(got, "\n  "), strings.Join(want, "\n  "), c.trace(i))
			}
			if now := snapshot(r, c.Names); now != snap {
				return fmt.Errorf("showing the repository changed it from\n%sto\n%safter%s", snap, now, c.trace(i))
			}
			one, err := dump(strings.Split(ix.String(), "\n"), tok)
			if err != nil {
				return err
			}
			if w := wantDump("beside", tok, beside); one != w {
				return fmt.Errorf("the index shows\n  %s\nwant\n  %s\nafter%s", one, w, c.trace(i))
			}
			if err := checkStored(ix, tok, beside, nil); err != nil {
				return fmt.Errorf("showing an index changed it: %w", err)
			}
		}
		seen := map[string]bool{}
		for _, d := range beside {
			for _, t := range distinct(tok.Tokenize(d.statement())) {
				if seen[t] {
					o.Nontrivial = true
				}
				seen[t] = true
			}
		}
		return nil
	})
}
