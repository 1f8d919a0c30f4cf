// Package props holds the properties: for each one a generator of cases and an
// oracle.
package props

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sonirico/vago/slices"
	vg "github.com/sonirico/visigoth"
	"pgregory.net/rapid"
	"verifharness/core"
	"verifharness/vsync"
)

type S = core.S
type T = rapid.T
type Out = core.Out

// ---------------------------------------------------------------- drawing

var bit = rapid.Bool()

// frac draws evenly from 0 to 1<<bits - 1. (rapid's own integers favour small
// values, which is no good for choosing among alternatives.)
func frac(t *T, bits int) int {
	u := 0
	for ; bits > 0; bits-- {
		u <<= 1
		if bit.Draw(t, "") {
			u |= 1
		}
	}
	return u
}

func intn(t *T, n int) int {
	if n <= 1 {
		return 0
	}
	b := bits.Len(uint(n-1)) + 3
	return frac(t, b) * n >> b
}

func between(t *T, lo, hi int) int { return lo + intn(t, hi-lo+1) }

// chance is true in so many of a hundred cases, and shrinks to false.
func chance(t *T, percent int) bool { return frac(t, 7) >= 128-percent*128/100 }

func oneOf[V any](t *T, vs []V) V { return vs[intn(t, len(vs))] }

func many[V any](t *T, lo, hi int, f func(t *T) V) []V {
	return rapid.SliceOfN(rapid.Custom(f), lo, hi).Draw(t, "s")
}

// shuffle draws an order of the elements, all orders alike.
func shuffle[V any](t *T, vs []V) []V {
	out := append([]V(nil), vs...)
	for i := 0; i+1 < len(out); i++ {
		j := i + intn(t, len(out)-i)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func ints(t *T, lo, hi, n int) []int {
	return many(t, lo, hi, func(t *T) int { return intn(t, n) })
}

// size draws a length: mostly small, sometimes up to big.
func size(t *T, small, big int) int {
	if chance(t, 8) {
		return between(t, 0, big)
	}
	return between(t, 0, small)
}

// ---------------------------------------------------------------- text

var plainWords = []string{
	"casa", "casas", "perro", "perros", "gato", "gata", "árbol", "árboles",
	"canción", "canciones", "java", "lenguaje", "programar", "programando",
	"programación", "rápido", "rápidamente", "niño", "niños", "x", "4", "42",
}

var stopWordPool = []string{"el", "la", "los", "de", "para", "y", "a", "en", "con", "que", "un"}

var oddWords = []string{
	"Java", "JAVA", "jAvA", "ÁRBOL", "Ñandú", "ÑANDÚ", "über", "straße", "STRASSE",
	"İstanbul", "ıi", "ǅ", "ΑΣ", "日本", "日本語", "Ⅳ", "½", "٣", "x²", "e\u0301", "\u0301",
	"a_b", "a-b", "o'clock", "C++", "1.5", "user@mail.com", "\ufffd", "\x00", "\xff", "a\xffb",
	"\xc3", "𝒳", "😀", "\u200b", "ﬁ", "ª", "º", "el", "El", "LA", "id", "aa", "aaa", "no", "ser",
	"tuyo", "tuyas", "estados",
	// what might be taken for syntax
	"*", "casa*", "-casa", "+casa", "!gato", "\"casa\"", "OR", "AND", "NOT", "||", "raw:casa", "casa~1", "(casa)", "ca?a",
	"<b>casa</b>", "&amp;", "%s", "%d%!", "${x}", "{\"casa\":\"perro\"}", "[1]", "null", "true", "\\u0061", "\\n", "#", "//casa",
}

var seps = []string{" ", "  ", ", ", ".", "\n", "\t", "-", "_", "¡", " ¿", "\u00a0", "/", "; ", "'"}

var oddRunes = []*unicode.RangeTable{unicode.L, unicode.N, unicode.M, unicode.P, unicode.S, unicode.Z, unicode.C, unicode.Lu, unicode.Nd, unicode.Nl, unicode.No, unicode.Lm}

func drawWord(t *T) string {
	if intn(t, 50) == 0 {
		return dictWord(t, oneOf(t, plainWords))
	}
	switch k := intn(t, 20); {
	case k < 11:
		return oneOf(t, plainWords)
	case k < 13:
		return oneOf(t, stopWordPool)
	case k < 17:
		return oneOf(t, oddWords)
	case k < 18:
		return string(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "bytes"))
	case k < 19:
		return rapid.StringOfN(rapid.RuneFrom(nil, oddRunes...), 1, 6, -1).Draw(t, "runes")
	default:
		n := 40
		if chance(t, 20) {
			n = 600
		}
		return strings.Repeat(oneOf(t, []string{"a", "ab", "ñ", "x1", "-", "ba"}), upTo(t, 1, n, 700))
	}
}

// vocab is the small set of words a case is written with, so that documents
// and queries have words in common.
func drawVocab(t *T, lo, hi int) []string {
	return many(t, lo, hi, drawWord)
}

func drawText(t *T, vocab []string, lo, hi int) string {
	n := between(t, lo, hi)
	var b strings.Builder
	if hi >= 6 && intn(t, 80) == 0 { // a long one, of many different words
		big := 300
		if intn(t, 12) == 0 {
			big = 3000
		}
		for i := upTo(t, 1, big, 3000); i > 0; i-- {
			fmt.Fprintf(&b, "w%d ", i)
		}
	}
	for i := 0; i < n; i++ {
		if chance(t, 6) {
			b.WriteString(drawWord(t))
		} else {
			b.WriteString(oneOf(t, vocab))
		}
		if i+1 < n || chance(t, 10) {
			if chance(t, 70) {
				b.WriteByte(' ')
			} else {
				b.WriteString(oneOf(t, seps))
			}
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- documents

// Doc is a put request as data.
type Doc struct {
	ID      S    `json:"id"`
	Content S    `json:"raw"`
	Stmt    *S   `json:"stmt,omitempty"` // nil: the content
	Mime    byte `json:"mime,omitempty"` // 0: not given
}

func (d Doc) statement() string {
	if d.Stmt != nil {
		return string(*d.Stmt)
	}
	return string(d.Content)
}

func (d Doc) req() vg.DocRequest {
	switch {
	case d.Stmt != nil:
		r := vg.NewDocRequestWith(string(d.ID), string(d.Content), string(*d.Stmt))
		if d.Mime != 0 {
			r.MimeType = vg.MimeType(d.Mime)
		}
		return r
	case d.Mime != 0:
		return vg.NewDocRequestWithMime(string(d.ID), string(d.Content), vg.MimeType(d.Mime))
	}
	return vg.NewDocRequest(string(d.ID), string(d.Content))
}

func (d Doc) String() string {
	if d.Stmt != nil {
		return fmt.Sprintf("{id %q, content %q, statement %q}", string(d.ID), clip(string(d.Content)), clip(string(*d.Stmt)))
	}
	return fmt.Sprintf("{id %q, content %q}", string(d.ID), clip(string(d.Content)))
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

var idPool = []string{"a", "b", "c", "d", "10", "9", "A", "", "é", "zz", "a ", "\xff"}

var dataForms = []string{`{"a": %q, "b" : %q}`, `[ %q, %q ]`, `{"%s": {"%s": [1.0, null, true]}}`, `{"a":%q,"a":%q}`, ` {"id":"%s","raw":"%s"} `, "{\"k\": \"%s\\u00e9 %s\"}\n", `<p>%s &amp; <b>%s</b></p>`, "# %s\n\n* %s\n"}

func drawDoc(t *T, vocab []string) Doc {
	d := Doc{ID: S(oneOf(t, idPool)), Content: S(drawText(t, vocab, 0, 7))}
	switch k := intn(t, 10); {
	case k < 3:
		s := S(drawText(t, vocab, 0, 7))
		d.Stmt = &s
		if k == 0 {
			d.Mime = byte(between(t, 1, 3))
		}
	case k < 4:
		d.Mime = byte(between(t, 1, 3))
		if chance(t, 30) { // what it may say it is
			d.Content = S(fmt.Sprintf(oneOf(t, dataForms), oneOf(t, vocab), oneOf(t, vocab)))
		}
	}
	if chance(t, 20) {
		d.ID = S(drawWord(t))
	}
	if chance(t, 3) {
		d.ID = S(strings.Repeat("identifier-", upTo(t, 1, 100, 1000)) + string(d.ID))
	}
	if intn(t, 60) == 0 {
		d.ID = S(dictWord(t, string(d.ID)))
	}
	if len(dictSizes) > 0 && intn(t, 200) == 0 {
		d.ID = S(strings.Repeat("i", upTo(t, 1, 100, 5000)))
	}
	if intn(t, 100) == 0 {
		d.Content = S(dictWord(t, string(d.Content)))
	}
	if len(dictSizes) > 0 && intn(t, 200) == 0 { // a long word
		d.Content += S(" " + strings.Repeat(oneOf(t, []string{"x", "Á", "ba"}), upTo(t, 1, 600, 10000)))
	}
	if intn(t, 2000) == 0 { // a big one
		d.Content = S(strings.Repeat(oneOf(t, vocab)+" ", upTo(t, 500, 12000, 20000))) + d.Content
	}
	return d
}

// Put is one step of a history: a document, or a run of many made by a rule.
type Put struct {
	Doc  Doc   `json:"doc"`
	Bulk *Bulk `json:"bulk,omitempty"`
}

// Bulk makes N documents: number i has identifier "<n>" counted down if Down,
// modulo IDs, and the words that a document's number picks out of Words. If
// Sparse is not zero, only the first and the last Sparse documents have words; if
// Each, the documents that have words have all of them.
type Bulk struct {
	N      int  `json:"n"`
	IDs    int  `json:"ids"`
	Down   bool `json:"down,omitempty"`
	Words  []S  `json:"words"`
	Sparse int  `json:"sparse,omitempty"`
	Each   bool `json:"each,omitempty"`
}

func (p Put) docs() []Doc {
	if p.Bulk == nil {
		return []Doc{p.Doc}
	}
	b := p.Bulk
	var ds []Doc
	for i := 0; i < b.N; i++ {
		id := i
		if b.Down {
			id = b.N - i
		}
		if b.Sparse > 0 && i >= b.Sparse && i < b.N-b.Sparse {
			ds = append(ds, Doc{ID: S(fmt.Sprint(id % b.IDs))})
			continue
		}
		var ws []string
		for j, w := range b.Words {
			if b.Each || (i+j)%(j+2) == 0 {
				ws = append(ws, string(w))
			}
		}
		ws = append(ws, fmt.Sprintf("n%d", i%7))
		ds = append(ds, Doc{ID: S(fmt.Sprint(id % b.IDs)), Content: S(strings.Join(ws, " "))})
	}
	return ds
}

func expand(ps []Put) []Doc {
	var ds []Doc
	for _, p := range ps {
		ds = append(ds, p.docs()...)
	}
	return ds
}

func drawPuts(t *T, vocab []string, lo, hi, bulk int) []Put {
	ps := many(t, lo, hi, func(t *T) Put { return Put{Doc: drawDoc(t, vocab)} })
	if bulk > 0 && chance(t, 5) {
		if intn(t, 40) == 0 {
			bulk *= 8
		}
		n := upTo(t, 1, bulk, 5000)
		b := &Bulk{N: n, IDs: between(t, 1, n), Down: chance(t, 50), Each: chance(t, 20)}
		if intn(t, 60) == 0 {
			b.N, b.Sparse = 66000, between(t, 1, 5)
		}
		for i := between(t, 1, 3); i > 0; i-- {
			b.Words = append(b.Words, S(oneOf(t, vocab)))
		}
		at := intn(t, len(ps)+1)
		ps = append(ps[:at:at], append([]Put{{Bulk: b}}, ps[at:]...)...)
	}
	return ps
}

// ---------------------------------------------------------------- analysis

// Tokenizer is what an index is built on.
type Tokenizer interface{ Tokenize(string) []string }

type tokFunc func(string) []string

func (f tokFunc) Tokenize(s string) []string { return f(s) }

const (
	anFields = iota
	anAlnum
	anLower
	anSpanish
	anSpanishKeep
	anComma
	anCount
)

var anNames = []string{"fields", "alnum", "alnum+lower", "spanish", "spanish-keep-snowball-stop-words", "comma"}

func analyser(k int) Tokenizer {
	switch k {
	case anFields:
		return tokFunc(strings.Fields)
	case anAlnum:
		return vg.NewKeepAlphanumericTokenizer()
	case anLower:
		return vg.NewTokenizationPipeline(vg.NewKeepAlphanumericTokenizer(), vg.NewLowerCaseTokenizer())
	case anSpanishKeep:
		return spanish(false)
	case anComma: // an analyser of the user's own, which yields empty tokens too
		return tokFunc(func(s string) []string { return strings.Split(s, " ") })
	}
	return spanish(true)
}

func spanish(flag bool) Tokenizer {
	return vg.NewTokenizationPipeline(
		vg.NewKeepAlphanumericTokenizer(),
		vg.NewLowerCaseTokenizer(),
		vg.NewStopWordsFilter(vg.SpanishStopWords),
		vg.NewSpanishStemmer(flag),
	)
}

// words is the reference for the alphanumeric tokenizer.
func words(text string) []string {
	return runsOf(text, func(r rune) bool { return unicode.IsLetter(r) || unicode.IsNumber(r) })
}

func runsOf(text string, keep func(rune) bool) []string {
	var out []string
	start := -1
	for i := 0; i < len(text); {
		r, w := utf8.DecodeRuneInString(text[i:])
		if keep(r) {
			if start < 0 {
				start = i
			}
		} else if start >= 0 {
			out = append(out, text[start:i])
			start = -1
		}
		i += w
	}
	if start >= 0 {
		out = append(out, text[start:])
	}
	return out
}

func distinct(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func setOf(ss []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

func containsAll(set map[string]bool, ss []string) bool {
	for _, s := range ss {
		if !set[s] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- results

// Res is a search result as data.
type Res struct {
	ID, Raw string
	Hits    int
}

func (r Res) String() string { return fmt.Sprintf("{%q %q hits=%d}", r.ID, clip(r.Raw), r.Hits) }

func toRes(rs slices.Slice[vg.SearchResult]) []Res {
	out := make([]Res, 0, len(rs))
	for _, r := range rs {
		d := r.GetDoc()
		out = append(out, Res{strings.Clone(d.ID()), strings.Clone(d.Raw()), r.GetHits()})
	}
	return out
}

type stream interface {
	Next() bool
	Data() vg.SearchResult
	Err() error
	Close() error
}

func drain(s stream) ([]Res, error) {
	out := []Res{}
	for s.Next() {
		r := s.Data()
		d := r.GetDoc()
		out = append(out, Res{d.ID(), d.Raw(), r.GetHits()})
		if len(out) > 1_000_000 {
			return out, fmt.Errorf("stream does not end")
		}
	}
	if err := s.Err(); err != nil {
		return out, fmt.Errorf("stream reports %v", err)
	}
	return out, s.Close()
}

func sameRes(a, b []Res) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(rs []Res) []Res {
	out := append([]Res(nil), rs...)
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.ID != b.ID {
			return a.ID < b.ID
		}
		if a.Raw != b.Raw {
			return a.Raw < b.Raw
		}
		return a.Hits < b.Hits
	})
	return out
}

func noHits(rs []Res) []Res {
	out := append([]Res(nil), rs...)
	for i := range out {
		out[i].Hits = 0
	}
	return out
}

func sameBag(a, b []Res) bool { return sameRes(sorted(a), sorted(b)) }

// subsequence reports whether a can be obtained from b by leaving out
// elements.
func subsequence(a, b []Res) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] != x {
			j++
		}
		if j == len(b) {
			return false
		}
		j++
	}
	return true
}

func show(rs []Res) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, r := range rs {
		if i == 12 {
			fmt.Fprintf(&b, " ... %d in all", len(rs))
			break
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(r.String())
	}
	return b.String() + "]"
}

func sortedStrings(ss []string) []string {
	out := append([]string(nil), ss...)
	sort.Strings(out)
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- engines

// anySearch is an engine of the user's own: every document with any of the
// tokens, counted once per occurrence.
func anySearch(tokens []string, ix vg.Indexer) slices.Slice[vg.SearchResult] {
	hits := make([]int, ix.Len())
	for _, t := range tokens {
		for _, i := range ix.Indexed(t) {
			hits[i]++
		}
	}
	var out slices.Slice[vg.SearchResult]
	for i, h := range hits {
		if h > 0 {
			out = append(out, vg.SearchResult{Document: ix.Document(i), Hits: h})
		}
	}
	return out
}

var engines = []vg.Engine{vg.HitsSearch, vg.LinearSearch, vg.NoopAllSearch, vg.NoopZeroSearch, anySearch}
var engineNames = []string{"HitsSearch", "LinearSearch", "NoopAllSearch", "NoopZeroSearch", "an engine of the caller's"}

// expected is the reference answer of engine e over docs.
func expected(tok Tokenizer, docs []Doc, q string, e int) []Res {
	qs := tok.Tokenize(q)
	out := []Res{}
	for _, d := range docs {
		r := Res{ID: string(d.ID), Raw: string(d.Content)}
		switch e {
		case 2:
			out = append(out, r)
		case 0, 1, 4:
			set := setOf(tok.Tokenize(d.statement()))
			if e == 4 {
				for _, q := range qs {
					if set[q] {
						r.Hits++
					}
				}
				if r.Hits > 0 {
					out = append(out, r)
				}
				continue
			}
			if len(qs) == 0 || !containsAll(set, qs) {
				continue
			}
			r.Hits = len(qs)
			if e == 0 {
				r.Hits = len(distinct(qs))
			}
			out = append(out, r)
		}
	}
	return out
}

// ---------------------------------------------------------------- schedules

// drawPlan makes a schedule: explicit switches, or random ones.
func drawPlan(t *T) vsync.Plan {
	var p vsync.Plan
	switch k := intn(t, 10); {
	case k < 1:
	case k < 5:
		at := 0
		for i := between(t, 1, 8); i > 0; i-- {
			at += between(t, 1, 40)
			p.Switches = append(p.Switches, vsync.Switch{At: at, To: intn(t, 4)})
		}
	default:
		p.Seed = rapid.Uint64Range(1, 1<<40).Draw(t, "seed")
		p.Sync = oneOf(t, []uint8{255, 128, 64, 24})
		p.Stmt = oneOf(t, []uint8{0, 0, 8, 40, 128})
	}
	return p
}
