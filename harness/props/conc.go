package props

import (
	"fmt"
	"sort"
	"strings"

	vg "github.com/sonirico/visigoth"
	"verifharness/core"
	"verifharness/vsync"
)

// ConcCase is a repository with a past, and callers that then use it at the
// same time.
type ConcCase struct {
	Names   []S        `json:"names"`
	An      int        `json:"analyser"`
	Pre     []Op       `json:"pre"`
	Threads [][]Op     `json:"threads"`
	Plan    vsync.Plan `json:"plan"`
}

func (c ConcCase) repo() RepoCase { return RepoCase{Names: c.Names, An: c.An, Ops: c.Pre} }

func drawConc(w weights, threads, each int) func(t *T) ConcCase {
	return func(t *T) ConcCase {
		c := ConcCase{Names: drawNames(t, 2, 4), An: anFields}
		vocab := []string{"casa", "perro"}
		m := newModel(c.An)
		if chance(t, 50) {
			c.Pre = drawSetup(t, c.Names, vocab)
			for _, op := range c.Pre {
				m.apply(c.repo(), op)
			}
		}
		c.Pre = append(c.Pre, drawOps(t, m, weights{"put": 3, "alias": 4, "rename": 1}, c.Names, 0, 6, vocab)...)
		n, each := between(t, 2, threads), each
		if chance(t, 4) { // more callers, with fewer calls
			n, each = between(t, 4, 12), 1
		}
		for i := 0; i < n; i++ {
			ops := drawOps(t, m.clone(), w, c.Names, 1, each, vocab)
			c.Threads = append(c.Threads, ops)
		}
		label := func(ops []Op, who string) {
			for i := range ops {
				if ops[i].Doc != nil {
					ops[i].Doc = &Doc{ID: S(fmt.Sprintf("%s%d", who, i)), Content: ops[i].Doc.Content}
				}
				if ops[i].Op == "search" && ops[i].E != 2 {
					ops[i].E = 2
				}
			}
		}
		label(c.Pre, "p")
		swell(t, c.Pre, 1, 40)
		for i := range c.Threads {
			label(c.Threads[i], string(rune('A'+i)))
		}
		c.Plan = drawPlan(t)
		return c
	}
}

type event struct {
	thread   int
	op       Op
	inv, res int
	got      string
}

// race runs the callers of the case and returns what happened.
func (c ConcCase) run(do func(thread int, op Op) string) ([]event, vsync.Result) {
	evs := make([][]event, len(c.Threads))
	var fs []func()
	for i := range c.Threads {
		i := i
		fs = append(fs, func() {
			for _, op := range c.Threads[i] {
				e := event{thread: i, op: op, inv: vsync.Tick()}
				e.got = do(i, op)
				e.res = vsync.Tick()
				evs[i] = append(evs[i], e)
				vsync.Y()
			}
		})
	}
	r := vsync.Run(c.Plan, fs...)
	if r.Failed() {
		return nil, r
	}
	var all []event
	for _, es := range evs {
		all = append(all, es...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].inv < all[j].inv })
	return all, r
}

func (c ConcCase) history(evs []event) string {
	rc := c.repo()
	var b strings.Builder
	b.WriteString("\nbefore:" + rc.trace(len(c.Pre)))
	b.WriteString("\ncallers (call interval):")
	for _, e := range evs {
		fmt.Fprintf(&b, "\n  [%d,%d] caller %d: %s = %s", e.inv, e.res, e.thread, rc.show(e.op), clip(e.got))
	}
	return b.String()
}

func (c ConcCase) threadsText() string {
	rc := c.repo()
	var b strings.Builder
	b.WriteString("\nbefore:" + rc.trace(len(c.Pre)))
	for i, ops := range c.Threads {
		fmt.Fprintf(&b, "\ncaller %d:", i)
		for _, op := range ops {
			fmt.Fprintf(&b, " %s;", rc.show(op))
		}
	}
	return b.String()
}

func (c ConcCase) start() (*vg.IndexRepo, error) {
	r := newRepo(c.An)
	rc := c.repo()
	return r, play(vsync.Plan{}, c.threadsText, func() error {
		for _, op := range c.Pre {
			do(r, rc, op)
		}
		return nil
	})
}

func overlapping(evs []event) bool {
	for i := range evs {
		for j := range evs {
			if evs[i].thread != evs[j].thread && evs[i].inv < evs[j].inv && evs[j].inv < evs[i].res {
				return true
			}
		}
	}
	return false
}

func isWrite(op string) bool {
	switch op {
	case "put", "alias", "unalias", "unaliasall", "rename", "drop":
		return true
	}
	return false
}

func init() {
	core.Register(core.Prop{
		ID: "C15", Instr: true,
		Rule:  "A repository with a past and two to four callers of one to four calls each, under a schedule of explicit or random switches between statements; the calls' results and the final state are explained by a sequential order of the model or not. Non-trivial: two calls overlapped, at least one of them a write.",
		Quick: 192000, Thorough: 4800000,
	}, drawConc(weights{"put": 5, "search": 3, "alias": 3, "unalias": 2, "unaliasall": 1, "rename": 3, "drop": 3, "has": 1, "hasalias": 1, "list": 1, "aliases": 2}, 4, 4), runC15)

	core.Register(core.Prop{
		ID: "C16", Instr: true,
		Rule:  "A repository with a past and two to eight callers that put documents with distinct identifiers while others search, list, attach aliases, rename to fresh names, and detach aliases and drop an index that nobody puts to; then every document is counted in every index. Non-trivial: two puts overlapped.",
		Quick: 192000, Thorough: 2400000,
	}, drawPuts16, runC16)

	core.Register(core.Prop{
		ID: "C17", Race: true, Instr: true,
		Rule:  "A repository with a past and two to five callers of up to six calls of every kind, who also read again later what calls returned, under the race detector and a schedule of switches between statements. Non-trivial: two calls overlapped, at least one of them a write.",
		Quick: 36000, Thorough: 900000,
	}, drawConc17, runC17)

	core.Register(core.Prop{
		ID: "C21", Instr: true,
		Rule:  "A history of puts and aliases, and a search through an index or an alias of up to six indices repeated by one to three callers under several schedules, with other searches running, and on a second repository of the same history. Non-trivial: the search goes through two or more indices and has results from two.",
		Quick: 36000, Thorough: 900000,
	}, drawRepeat, runC21)
}

// ---------------------------------------------------------------- C15

func (m *model) clone() *model {
	n := &model{m.tok, map[string][]Doc{}, map[string][]string{}}
	for k, v := range m.idx {
		n.idx[k] = v
	}
	for k, v := range m.al {
		n.al[k] = v
	}
	return n
}

func (m *model) key() string {
	var b strings.Builder
	for _, n := range m.names() {
		fmt.Fprintf(&b, "%q:", n)
		for _, d := range m.idx[n] {
			b.WriteString(string(d.ID) + ",")
		}
	}
	var as []string
	for a, l := range m.al {
		as = append(as, fmt.Sprintf("%q=%q", a, sortedStrings(l)))
	}
	sort.Strings(as)
	return b.String() + "|" + strings.Join(as, ";")
}

// view writes down the model's state as final does the repository's.
func (m *model) view(c RepoCase) string {
	var b strings.Builder
	fmt.Fprintf(&b, "indices %s\naliases %s\n", listText(m.names()), m.apply(c, Op{Op: "aliases"}))
	for i, s := range c.Names {
		docs, ok := m.idx[string(s)]
		fmt.Fprintf(&b, "%q %v ", string(s), ok)
		if ok {
			b.WriteString(contents(docs))
		} else {
			b.WriteString(m.apply(c, Op{Op: "search", A: i, E: 2}))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func final(r *vg.IndexRepo, c RepoCase) string {
	var b strings.Builder
	fmt.Fprintf(&b, "indices %s\naliases %s\n", listText(r.List()), aliasText(r.ListAliases().Aliases))
	for i, s := range c.Names {
		ok := r.Has(string(s))
		fmt.Fprintf(&b, "%q %v ", string(s), ok)
		if ok {
			b.WriteString(stored(r, string(s)))
		} else {
			b.WriteString(do(r, c, Op{Op: "search", A: i, E: 2}))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func linearize(c RepoCase, m *model, evs []event, end string) (bool, string) {
	bad := map[string]bool{}
	near := ""
	var rec func(m *model, done int) bool
	rec = func(m *model, done int) bool {
		if done == 1<<len(evs)-1 {
			v := m.view(c)
			if v == end {
				return true
			}
			near = v
			return false
		}
		k := fmt.Sprint(done, m.key())
		if bad[k] {
			return false
		}
		first := 1 << 60
		for i, e := range evs {
			if done>>i&1 == 0 && e.res < first {
				first = e.res
			}
		}
		for i, e := range evs {
			if done>>i&1 == 1 || e.inv > first {
				continue
			}
			n := m.clone()
			if n.apply(c, e.op) == e.got && rec(n, done|1<<i) {
				return true
			}
		}
		bad[k] = true
		return false
	}
	return rec(m, 0), near
}

func runC15(c ConcCase, o *Out) error {
	r, err := c.start()
	if err != nil {
		return err
	}
	rc := c.repo()
	m := newModel(c.An)
	for _, op := range c.Pre {
		m.apply(rc, op)
	}
	evs, res := c.run(func(_ int, op Op) string { return do(r, rc, op) })
	if res.Failed() {
		return fmt.Errorf("%s%s", res.Err(), c.threadsText())
	}
	var end string
	if err := play(vsync.Plan{}, c.threadsText, func() error { end = final(r, rc); return nil }); err != nil {
		return err
	}
	writes := 0
	for _, e := range evs {
		if isWrite(e.op.Op) {
			writes++
		}
	}
	if overlapping(evs) && writes > 0 {
		o.Nontrivial = true
		o.Label(fmt.Sprintf("%d callers", len(c.Threads)))
		o.LabelIf(res.Spawned > 0, "workers started")
	}
	if ok, near := linearize(rc, m, evs, end); !ok {
		msg := "no sequential order of the calls explains what they returned and left behind"
		if near != "" {
			msg += "\nsome order explains the results, but leaves\n" + near
		}
		return fmt.Errorf("%s%s\nleft behind:\n%s", msg, c.history(evs), end)
	}
	return nil
}

// ---------------------------------------------------------------- C16

func drawPuts16(t *T) ConcCase {
	c := drawConc(weights{"put": 8, "search": 2, "alias": 2, "rename": 1, "list": 1, "aliases": 1, "has": 1}, 8, 5)(t)
	// Renames among the callers go to names nobody else uses.
	fresh := 0
	for i := range c.Threads {
		for j := range c.Threads[i] {
			op := &c.Threads[i][j]
			op.A %= len(c.Names)
		}
	}
	// Every document contains its own identifier.
	for _, ops := range append([][]Op{c.Pre}, c.Threads...) {
		for i := range ops {
			if d := ops[i].Doc; d != nil {
				d.Content += " " + d.ID
			}
		}
	}
	// Now and then a caller looks at once for what it has put.
	for i, ops := range c.Threads {
		var out []Op
		for _, op := range ops {
			out = append(out, op)
			if op.Op == "put" && chance(t, 30) {
				out = append(out, Op{Op: "search", A: op.A, Q: op.Doc.ID})
			}
		}
		c.Threads[i] = out
	}
	base := len(c.Names)
	for i := range c.Threads {
		for j := range c.Threads[i] {
			op := &c.Threads[i][j]
			if op.Op == "rename" {
				c.Names = append(c.Names, S(fmt.Sprintf("fresh%d", fresh)))
				op.B = base + fresh
				fresh++
			}
		}
	}
	// An index and aliases that no document is put to come and go meanwhile.
	if chance(t, 50) {
		gone := len(c.Names)
		n := between(t, 1, 2)
		for i := 0; i <= n; i++ {
			c.Names = append(c.Names, S(fmt.Sprintf("spare%d", i)))
		}
		c.Pre = append(c.Pre, Op{Op: "put", A: gone, Doc: &Doc{ID: "spare", Content: "casa spare"}})
		for i := 1; i <= n; i++ {
			c.Pre = append(c.Pre, Op{Op: "alias", A: gone + i, B: gone})
		}
		for i := range c.Threads {
			if chance(t, 60) {
				continue
			}
			c.Threads[i] = many(t, 1, 5, func(t *T) Op {
				b := gone
				if chance(t, 50) {
					b = intn(t, base)
				}
				switch k := intn(t, 6); k {
				case 0:
					return Op{Op: "drop", A: gone}
				case 1, 2:
					return Op{Op: "alias", A: gone + between(t, 1, n), B: b}
				case 3:
					return Op{Op: "unalias", A: gone + between(t, 1, n), B: b}
				default:
					return Op{Op: "unaliasall", A: gone + between(t, 1, n)}
				}
			})
		}
	}
	return c
}

func runC16(c ConcCase, o *Out) error {
	r, err := c.start()
	if err != nil {
		return err
	}
	rc := c.repo()
	m := newModel(c.An)
	for _, op := range c.Pre {
		m.apply(rc, op)
	}
	evs, res := c.run(func(_ int, op Op) string { return do(r, rc, op) })
	if res.Failed() {
		return fmt.Errorf("%s%s", res.Err(), c.threadsText())
	}
	// Where everything is.
	where := map[string]map[string]int{} // document -> index -> how often
	if err := play(vsync.Plan{}, c.threadsText, func() error {
		for _, n := range r.List() {
			rs, ok, err := search(r, n, "", 2)
			if err != nil || !ok {
				return fmt.Errorf("listed index %q is not found (%v)%s", n, err, c.history(evs))
			}
			for _, x := range rs {
				if where[x.ID] == nil {
					where[x.ID] = map[string]int{}
				}
				where[x.ID][n]++
			}
			// and found by its words
			queries := map[string]bool{"casa": true, "perro": true}
			for _, x := range rs {
				if w := strings.Fields(x.Raw); len(w) > 0 {
					queries[w[len(w)-1]] = true
				}
			}
			for q := range queries {
				var want []Res
				for _, x := range rs {
					if has(strings.Fields(x.Raw), q) {
						want = append(want, Res{x.ID, x.Raw, 1})
					}
				}
				got, _, err := search(r, n, q, 0)
				if err != nil || !sameBag(got, want) {
					return fmt.Errorf("index %q finds %s for %q, but of its documents these contain it: %s%s", n, show(got), q, show(want), c.history(evs))
				}
			}
		}
		return nil
	}); err != nil {
		return err
	}
	// Renames that succeeded, and aliases attached meanwhile. An index renamed
	// away can be created anew and renamed again, so a name has several heirs.
	heirs := map[string][]string{}
	added := map[string][]string{}
	for _, e := range evs {
		a, b := rc.name(e.op.A), rc.name(e.op.B)
		switch {
		case e.op.Op == "rename" && e.got == "true":
			heirs[a] = append(heirs[a], b)
		case e.op.Op == "alias":
			added[a] = append(added[a], b)
		}
	}
	nowCalled := func(n string) []string { return append([]string{n}, heirs[n]...) }
	check := func(id, name string) error {
		found := where[id]
		for n, k := range found {
			if k > 1 {
				return fmt.Errorf("document %q, put to %q, is in index %q %d times%s", id, name, n, k, c.history(evs))
			}
		}
		fail := func(want string) error {
			return fmt.Errorf("document %q, put to %q, is found in %v, want %s%s", id, name, keys(found), want, c.history(evs))
		}
		one := func(names []string) bool {
			if len(found) != 1 {
				return false
			}
			for _, n := range names {
				if found[n] == 1 {
					return true
				}
			}
			return false
		}
		// through an alias: in every index attached from the start, and
		// beyond these only in indices attached meanwhile.
		viaAlias := func() bool {
			if len(found) == 0 || len(m.al[name])+len(added[name]) == 0 {
				return false
			}
			allowed := map[string]bool{}
			for _, x := range m.al[name] {
				n := 0
				for _, y := range nowCalled(x) {
					n += found[y]
					allowed[y] = true
				}
				if n == 0 {
					return false
				}
			}
			for _, x := range added[name] {
				for _, y := range nowCalled(x) {
					allowed[y] = true
				}
			}
			for n := range found {
				if !allowed[n] {
					return false
				}
			}
			return true
		}
		_, wasIndex := m.idx[name]
		_, wasAlias := m.al[name]
		mayAlias := wasAlias || len(added[name]) > 0
		switch {
		case wasIndex && len(heirs[name]) == 0:
			if !one([]string{name}) {
				return fail(fmt.Sprintf("exactly %q", name))
			}
		case wasIndex:
			if !one(nowCalled(name)) && !(mayAlias && viaAlias()) {
				return fail(fmt.Sprintf("one of %q", nowCalled(name)))
			}
		case wasAlias:
			if !viaAlias() {
				return fail(fmt.Sprintf("every index of %q", m.al[name]))
			}
		default:
			if !one(nowCalled(name)) && !(mayAlias && viaAlias()) {
				return fail(fmt.Sprintf("one of %q", nowCalled(name)))
			}
		}
		return nil
	}
	dropped := map[string]bool{}
	for _, e := range evs {
		if e.op.Op == "drop" {
			dropped[rc.name(e.op.A)] = true
		}
	}
	known := map[string]bool{}
	for n, docs := range m.idx {
		for _, d := range docs {
			id := string(d.ID)
			known[id] = true
			if dropped[n] {
				if len(where[id]) > 0 {
					return fmt.Errorf("document %q is found in %v after its index %q was dropped%s", id, where[id], n, c.history(evs))
				}
				continue
			}
			k := 0
			for _, y := range nowCalled(n) {
				k += where[id][y]
			}
			if k != 1 {
				return fmt.Errorf("document %q of index %q is found in %v%s", id, n, where[id], c.history(evs))
			}
		}
	}
	// Names that denote the same or more all the time.
	unstable := map[string]bool{}
	for _, e := range evs {
		switch e.op.Op {
		case "rename":
			unstable[rc.name(e.op.A)], unstable[rc.name(e.op.B)] = true, true
		case "drop", "unalias", "unaliasall":
			unstable[rc.name(e.op.A)] = true
		}
	}
	// lookedFor reports an error if what was put is not found by a search that
	// began after the put had returned.
	lookedFor := func(put event) error {
		name, id := rc.name(put.op.A), string(put.op.Doc.ID)
		if unstable[name] {
			return nil
		}
		for _, e := range evs {
			if e.op.Op != "search" || e.inv < put.res || rc.name(e.op.A) != name || e.op.E != 2 && string(e.op.Q) != id {
				continue
			}
			o.Label("looked for after its put")
			if !strings.Contains(e.got, fmt.Sprintf("%q", id)) {
				return fmt.Errorf("document %q, put to %q, is not in the answer of a search begun after the put had returned, %s%s", id, name, e.got, c.history(evs))
			}
		}
		return nil
	}
	puts := 0
	for i, e := range evs {
		if e.op.Op != "put" {
			continue
		}
		puts++
		known[string(e.op.Doc.ID)] = true
		if err := lookedFor(e); err != nil {
			return err
		}
		if err := check(string(e.op.Doc.ID), rc.name(e.op.A)); err != nil {
			return err
		}
		for _, f := range evs[:i] {
			if f.op.Op == "put" && f.thread != e.thread && f.res > e.inv {
				o.Nontrivial = true
				o.LabelIf(f.op.A == e.op.A, "overlapping puts to one name")
				_, ok := m.idx[rc.name(e.op.A)]
				_, al := m.al[rc.name(e.op.A)]
				o.LabelIf(f.op.A == e.op.A && !ok && !al, "overlapping first puts to one name")
				o.LabelIf(al && !ok, "overlapping put through an alias")
			}
		}
	}
	for id := range where {
		if !known[id] {
			return fmt.Errorf("document %q is found, which nobody put%s", id, c.history(evs))
		}
	}
	return nil
}

func keys(m map[string]int) []string {
	out := []string{}
	for k := range m {
		out = append(out, fmt.Sprintf("%q", k))
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- C17

func drawConc17(t *T) ConcCase {
	c := drawConc(weights{"put": 4, "search": 3, "alias": 3, "unalias": 2, "unaliasall": 1, "rename": 3, "drop": 2, "has": 1, "hasalias": 1, "list": 1, "aliases": 3, "string": 1}, 5, 6)(t)
	if chance(t, 30) {
		c.An = anSpanish
	}
	for _, ops := range c.Threads {
		for i := range ops {
			if ops[i].Op == "search" {
				ops[i].E = intn(t, 4)
				ops[i].Q = S(oneOf(t, []string{"casa", "perro", "casa perro", ""}))
			}
		}
	}
	return c
}

func runC17(c ConcCase, o *Out) error {
	r, err := c.start()
	if err != nil {
		return err
	}
	rc := c.repo()
	kept := make([][]func(), len(c.Threads))
	sink := make([]int, len(c.Threads))
	evs, res := c.run(func(th int, op Op) string {
		keep := func(f func()) { kept[th] = append(kept[th], f) }
		got := ""
		switch op.Op {
		case "list":
			l := r.List()
			keep(func() {
				for _, s := range l {
					sink[th] += len(s)
				}
			})
		case "aliases":
			l := r.ListAliases()
			keep(func() {
				for _, row := range l.Aliases {
					sink[th] += len(row.Alias)
					for _, s := range row.Indices {
						sink[th] += len(s)
					}
				}
			})
		case "search":
			s, err := r.Search(rc.name(op.A), string(op.Q), engines[op.E])
			if err == nil {
				keep(func() {
					if s.Next() {
						d := s.Data()
						sink[th] += len(d.GetDoc().ID()) + len(d.GetDoc().Raw()) + d.GetHits()
					}
				})
			}
		default:
			got = do(r, rc, op)
		}
		for _, f := range kept[th] {
			vsync.Y()
			f()
		}
		return got
	})
	if res.Failed() {
		return fmt.Errorf("%s%s", res.Err(), c.threadsText())
	}
	for _, e := range evs {
		if isWrite(e.op.Op) && overlapping(evs) {
			o.Nontrivial = true
		}
	}
	o.LabelIf(res.Spawned > 0, "workers started")
	// Everybody is still served.
	return play(vsync.Plan{}, c.threadsText, func() error {
		r.Put("last", vg.NewDocRequest("last", "last"))
		r.Alias("lastalias", "last")
		r.UnAlias("lastalias", "")
		r.Drop("last")
		return nil
	})
}

// ---------------------------------------------------------------- C21

type RepeatCase struct {
	RepoCase
	Target  int          `json:"target"`
	Q       S            `json:"q"`
	E       int          `json:"engine"`
	Callers int          `json:"callers"`
	Others  []Op         `json:"others"`
	Plans   []vsync.Plan `json:"plans"`
}

func drawRepeat(t *T) RepeatCase {
	var c RepeatCase
	c.Names = drawNames(t, 3, 7)
	c.An = oneOf(t, []int{anFields, anSpanish})
	vocab := []string{"casa", "perro", "x"}[:between(t, 1, 3)]
	n := len(c.Names)
	// name 0 is the alias
	for i := 1; i < n; i++ {
		for k := between(t, 0, 4); k > 0; k-- {
			c.Ops = append(c.Ops, Op{Op: "put", A: i, Doc: &Doc{ID: S(oneOf(t, idPool)), Content: S(drawText(t, vocab, 1, 3))}})
		}
	}
	for k := between(t, 0, 2*n); k > 0; k-- {
		c.Ops = append(c.Ops, Op{Op: "alias", A: 0, B: between(t, 1, n-1)})
	}
	m := newModel(c.An)
	for _, op := range c.Ops {
		m.apply(c.RepoCase, op)
	}
	c.Ops = append(c.Ops, drawOps(t, m, weights{"put": 4, "rename": 1, "alias": 2, "unalias": 1, "drop": 1}, c.Names, 0, 4, vocab)...)
	swell(t, c.Ops, 6, 100)
	c.Target = intn(t, n)
	if chance(t, 70) {
		c.Target = 0
	}
	c.Q = S(drawText(t, vocab, 0, 2))
	c.E = oneOf(t, []int{0, 0, 1, 1, 2, 4})
	c.Callers = between(t, 1, 3)
	c.Others = drawOps(t, m, weights{"search": 1}, c.Names, 0, 2, vocab)
	c.Plans = many(t, 1, 4, drawPlan)
	return c
}

func runC21(c RepeatCase, o *Out) error {
	trace := func() string { return c.trace(len(c.Ops)) }
	mk := func(plan vsync.Plan) (*vg.IndexRepo, error) {
		r := newRepo(c.An)
		return r, play(plan, trace, func() error {
			for _, op := range c.Ops {
				do(r, c.RepoCase, op)
			}
			return nil
		})
	}
	ask := func(r *vg.IndexRepo) string {
		rs, ok, err := search(r, c.name(c.Target), string(c.Q), c.E)
		if err != nil {
			return "broken stream: " + err.Error()
		}
		if !ok {
			return "error"
		}
		return seqText(rs)
	}
	first := ""
	for round := 0; round < 2; round++ {
		// The second repository is built under another schedule.
		r, err := mk([]vsync.Plan{{}, c.Plans[0]}[round])
		if err != nil {
			return err
		}
		for i, plan := range append([]vsync.Plan{{}}, c.Plans...) {
			got := make([]string, c.Callers)
			var fs []func()
			for k := 0; k < c.Callers; k++ {
				k := k
				fs = append(fs, func() { got[k] = ask(r) })
			}
			for _, op := range c.Others {
				op := op
				fs = append(fs, func() { do(r, c.RepoCase, op) })
			}
			if res := vsync.Run(plan, fs...); res.Failed() {
				return fmt.Errorf("%s%s", res.Err(), trace())
			}
			if round == 0 && i == 0 {
				first = got[0]
			}
			for _, g := range got {
				if g != first {
					return fmt.Errorf("Search(%q, %q, %s) gives\n  %s\nand then (schedule %d, repository %d)\n  %s\nafter%s", c.name(c.Target), string(c.Q), engineNames[c.E], clip(first), i, round+1, clip(g), trace())
				}
			}
		}
	}
	m := newModel(c.An)
	for _, op := range c.Ops {
		m.apply(c.RepoCase, op)
	}
	if ds := m.denotes(c.name(c.Target)); len(ds) > 1 {
		k := 0
		for _, d := range ds {
			if len(expected(m.tok, m.idx[d], string(c.Q), c.E)) > 0 {
				k++
			}
		}
		if k > 1 {
			o.Nontrivial = true
			o.Label(fmt.Sprintf("results from %d indices", k))
		}
	} else {
		o.LabelIf(len(ds) == 1, "one index")
	}
	return nil
}
