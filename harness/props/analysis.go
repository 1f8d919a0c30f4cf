package props

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	snowball "github.com/kljensen/snowball/spanish"
	vg "github.com/sonirico/visigoth"
	"pgregory.net/rapid"
	"verifharness/core"
)

func init() {
	core.Register(core.Prop{
		ID:    "C04",
		Rule:  "A history of puts to an index behind the Spanish pipeline, some with a statement apart from the content; selections of the words of statements, and words that only contents have, are searched for. Non-trivial: a selection that leaves a term was taken from a document that is not the only one.",
		Quick: 150000, Thorough: 3750000,
	}, drawSelf, runC04)
	core.Register(core.Prop{
		ID:    "C06",
		Rule:  "Texts over letters, numbers, marks, separators and arbitrary bytes, cut by the alphanumeric tokenizer and by tokenizers built from lists of predicates, compared with a rune-by-rune scan. Non-trivial: a text has a kept character next to one that is not.",
		Quick: 1080000, Thorough: 9000000,
	}, drawTok, runC06)
	core.Register(core.Prop{
		ID:    "C07",
		Rule:  "Token lists, filters and pipelines of them (the library's and ones that reverse, double, drop, count or overwrite tokens). Non-trivial: two or more tokens, and a filter that changes the list.",
		Quick: 480000, Thorough: 6000000,
	}, drawFilters, runC07)
	core.Register(core.Prop{
		ID:    "C08",
		Rule:  "Documents and a query made of Spanish words, and a variant of both with other letter case, punctuation, order, repetition, added stop words and inflected forms. Non-trivial: the query has matches and the variant differs from it.",
		Quick: 300000, Thorough: 3750000,
	}, drawMeta, runC08)
	core.Register(core.Prop{
		ID:    "C09",
		Rule:  "Words over Spanish letters, other runes and arbitrary bytes; the regions are compared with a definition over vowel patterns. Non-trivial: some region is not empty and not the whole word.",
		Quick: 1800000, Thorough: 15000000,
	}, drawRegionWord, runC09)
}

// ---------------------------------------------------------------- C04

type SelfCase struct {
	Docs []Doc  `json:"docs"`
	Via  bool   `json:"via,omitempty"` // put and search through a repository
	Pick []Pick `json:"pick"`
	// So many further documents are put before document number At.
	Crowd int `json:"crowd,omitempty"`
	At    int `json:"at,omitempty"`
	Among S   `json:"among,omitempty"` // words that all of them have
}

// Pick selects words of a statement.
type Pick struct {
	Doc   int   `json:"doc"`
	Words []int `json:"words"`
	Sep   int   `json:"sep,omitempty"`
}

func drawSelf(t *T) SelfCase {
	vocab := drawVocab(t, 2, 8)
	c := SelfCase{Via: chance(t, 40)}
	c.Docs = many(t, 1, 8, func(t *T) Doc { return drawDoc(t, vocab) })
	if chance(t, 1) { // a long statement
		d := &c.Docs[intn(t, len(c.Docs))]
		var b strings.Builder
		for i := between(t, 500, 5000); i > 0; i-- {
			fmt.Fprintf(&b, "v%d ", i)
		}
		if s := S(b.String()); d.Stmt != nil {
			d.Stmt = &s
		} else {
			d.Content = s
		}
	}
	for i := range c.Docs {
		if c.Docs[i].Stmt != nil {
			c.Docs[i].Content += S(fmt.Sprintf(" only%dqz", i))
		}
	}
	c.Pick = many(t, 1, 4, func(t *T) Pick {
		words := 10
		if chance(t, 30) { // anywhere in a long statement
			words = 3000
		}
		p := Pick{intn(t, len(c.Docs)), ints(t, 1, 4, words), intn(t, len(seps))}
		if chance(t, 2) { // many words
			for i, k := between(t, 1, 7), upTo(t, 1, 400, 5000); k > 0; k-- {
				p.Words = append(p.Words, k*i)
			}
		}
		return p
	})
	if chance(t, 2) {
		c.Crowd, c.At = upTo(t, 1, 300, 4000), intn(t, len(c.Docs))
		if c.Crowd <= 300 && chance(t, 8) {
			c.Crowd *= 10
		}
		if chance(t, 50) {
			c.Among = S(drawText(t, vocab, 1, 3))
		}
	}
	return c
}

func runC04(c SelfCase, o *Out) error {
	var search func(q string, e int) ([]Res, error)
	fill := func(put func(vg.DocRequest)) {
		for i, d := range c.Docs {
			for k := 0; i == c.At && k < c.Crowd; k++ {
				put(vg.NewDocRequest(fmt.Sprint("x", k%50), fmt.Sprintf("x%d x%d %s", k, k%20, c.Among)))
			}
			put(d.req())
		}
	}
	o.LabelIf(c.Crowd > 100, "among hundreds of documents")
	if c.Via {
		repo := vg.NewIndexRepo(vg.NewMemoryIndexBuilder(spanish(true)))
		fill(func(r vg.DocRequest) { repo.Put("docs", r) })
		search = func(q string, e int) ([]Res, error) {
			s, err := repo.Search("docs", q, engines[e])
			if err != nil {
				return nil, err
			}
			return drain(s)
		}
	} else {
		ix := vg.NewMemoryIndex("docs", spanish(true))
		fill(func(r vg.DocRequest) { ix.Put(r) })
		search = func(q string, e int) ([]Res, error) { return toRes(ix.Search(q, engines[e])), nil }
	}
	count := func(rs []Res, d Doc) (n int) {
		for _, r := range rs {
			if r.ID == string(d.ID) && r.Raw == string(d.Content) {
				n++
			}
		}
		return
	}
	for _, p := range c.Pick {
		d := c.Docs[p.Doc%len(c.Docs)]
		ws := words(d.statement())
		if len(ws) == 0 {
			continue
		}
		var sel []string
		leaves := false
		for _, i := range p.Words {
			w := ws[i%len(ws)]
			sel = append(sel, w)
			if _, stop := vg.SpanishStopWords[strings.ToLower(w)]; !stop {
				leaves = true
			}
		}
		if !leaves {
			o.Label("selection of stop words only")
			continue
		}
		q := strings.Join(sel, seps[p.Sep%len(seps)])
		for e := 0; e < 2; e++ {
			rs, err := search(q, e)
			if err != nil {
				return err
			}
			if count(rs, d) == 0 {
				return fmt.Errorf("%s for %q does not find %s but returns %s", engineNames[e], q, d, show(rs))
			}
		}
		o.LabelIf(len(sel) > 1, "several words selected")
		o.LabelIf(len(d.statement()) > 8192, "words of a statement of more than 8 KB")
		o.LabelIf(d.Stmt != nil, "statement apart from content")
		if len(c.Docs) > 1 {
			o.Nontrivial = true
		}
	}
	for i, d := range c.Docs {
		if d.Stmt == nil {
			continue
		}
		q := fmt.Sprintf("only%dqz", i)
		for e := 0; e < 2; e++ {
			rs, err := search(q, e)
			if err != nil {
				return err
			}
			if len(rs) != 0 {
				return fmt.Errorf("%s for %q, which no statement contains, returns %s", engineNames[e], q, show(rs))
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C06

var predicates = []func(rune) bool{
	unicode.IsLetter,
	unicode.IsNumber,
	unicode.IsDigit,
	unicode.IsUpper,
	func(r rune) bool { return r == '_' || r == '-' },
	unicode.IsSpace,
	func(r rune) bool { return r == utf8.RuneError },
	func(r rune) bool { return r > 0xffff },
	func(r rune) bool { return r%2 == 0 },
	func(r rune) bool { return true },
	func(r rune) bool { return false },
}

type TokCase struct {
	Texts []S   `json:"texts"`
	Preds []int `json:"predicates"`
}

func drawTok(t *T) TokCase {
	vocab := drawVocab(t, 1, 4)
	preds := 3
	if chance(t, 10) {
		preds = 12
	}
	return TokCase{
		Texts: many(t, 1, 4, func(t *T) S {
			switch k := intn(t, 10); {
			case k < 5:
				return S(drawText(t, vocab, 0, 8))
			case k < 7:
				return S(rapid.StringOfN(rapid.RuneFrom([]rune("ab1ñé_ -.\ufffd½Ⅳ"), oddRunes...), 0, 20, -1).Draw(t, "runes"))
			case k < 9:
				return S(many(t, 0, 20, func(t *T) byte { return oneOf(t, []byte("aB1 -_\xc3\xb1\xe6\x97\xa5\xf0\x9f\xff\x80\x00")) }))
			default:
				return S(strings.Repeat(drawText(t, vocab, 0, 3), between(t, 0, 60)))
			}
		}),
		Preds: ints(t, 0, preds, len(predicates)),
	}
}

// cleanTokenizer makes a tokenizer of any number of predicates.
func cleanTokenizer[F ~func(rune) bool](make func(...F) vg.CleanTokenizer, preds []int) vg.CleanTokenizer {
	var fs []F
	for _, i := range preds {
		fs = append(fs, F(predicates[i]))
	}
	return make(fs...)
}

func runC06(c TokCase, o *Out) error {
	alnum := vg.NewKeepAlphanumericTokenizer()
	var ct vg.CleanTokenizer
	p := func(i int) func(rune) bool { return predicates[c.Preds[i]] }
	ct = cleanTokenizer(vg.NewCleanTokenizer, c.Preds)
	union := func(r rune) bool {
		for i := range c.Preds {
			if p(i)(r) {
				return true
			}
		}
		return false
	}
	for round := 0; round < 2; round++ {
		for _, text := range c.Texts {
			want := words(string(text))
			if got := alnum.Tokenize(string(text)); !sameStrings(got, want) {
				return fmt.Errorf("the alphanumeric tokenizer cuts %q into %q, want %q", string(text), got, want)
			}
			if len(want) > 0 && want[0] != string(text) {
				o.Nontrivial = true
			}
			o.LabelIf(!utf8.ValidString(string(text)), "invalid UTF-8")
			want = runsOf(string(text), union)
			if got := ct.Tokenize(string(text)); !sameStrings(got, want) {
				return fmt.Errorf("a tokenizer of predicates %v cuts %q into %q, want %q", c.Preds, string(text), got, want)
			}
		}
	}
	o.Label(fmt.Sprintf("%d predicates", len(c.Preds)))
	return nil
}

// ---------------------------------------------------------------- C07

const (
	fLower = iota
	fStop
	fStopOwn
	fStem
	fStemKeep
	fReverse
	fDouble
	fDropEven
	fMark
	fTally
	fNone
	fInPlace
	fCount
)

type filterFunc func([]string) []string

func (f filterFunc) Filter(ts []string) []string { return f(ts) }

// spanishStop is the set as it is before any filter has been made of it.
var spanishStop = func() vg.StopWords {
	m := vg.StopWords{}
	for w := range vg.SpanishStopWords {
		m[w] = struct{}{}
	}
	return m
}()

// ownStop is a case's own set, and ownGiven the set that the filter is given.
var ownStop, ownGiven vg.StopWords

func filter(k int) vg.Filter {
	switch k {
	case fLower:
		return vg.NewLowerCaseTokenizer()
	case fStop:
		return vg.NewStopWordsFilter(vg.SpanishStopWords)
	case fStopOwn:
		return vg.NewStopWordsFilter(ownGiven)
	case fStem:
		return vg.NewSpanishStemmer(true)
	case fStemKeep:
		return vg.NewSpanishStemmer(false)
	}
	if k == fNone {
		return filterFunc(func(ts []string) []string { return nil })
	}
	if k == fInPlace { // writes over the list it is given
		return filterFunc(func(ts []string) []string {
			for i := range ts {
				ts[i] += "!"
			}
			return ts
		})
	}
	return filterFunc(func(ts []string) []string { return refFilter(k, ts) })
}

func refFilter(k int, ts []string) []string {
	out := []string{}
	for i, t := range ts {
		switch k {
		case fLower:
			out = append(out, strings.ToLower(t))
		case fStop:
			if _, ok := spanishStop[t]; !ok {
				out = append(out, t)
			}
		case fStopOwn:
			if _, ok := ownStop[t]; !ok {
				out = append(out, t)
			}
		case fStem, fStemKeep:
			out = append(out, snowball.Stem(t, k == fStem))
		case fReverse:
			out = append(out, ts[len(ts)-1-i])
		case fDouble:
			out = append(out, t, t)
		case fDropEven:
			if i%2 == 1 {
				out = append(out, t)
			}
		case fMark:
			out = append(out, t+fmt.Sprint(i))
		case fTally:
			out = append(out, t)
		case fInPlace:
			out = append(out, t+"!")
		}
	}
	if k == fTally { // has tokens for an empty list too
		out = append(out, fmt.Sprintf("%d tokens", len(ts)))
	}
	return out
}

type FilterCase struct {
	Tokens  []S   `json:"tokens"`
	Filters []int `json:"filters"`
	Texts   []S   `json:"texts"`
	Alnum   bool  `json:"alnum,omitempty"`
	Stop    []S   `json:"stop"` // a set of stop words of the user's own
}

func drawFilters(t *T) FilterCase {
	vocab := drawVocab(t, 1, 5)
	vocab = append(vocab, "Casa", "CASA", "la", "La", "Los")
	tokens := many(t, 0, 8, func(t *T) S {
		if chance(t, 5) {
			return ""
		}
		return S(oneOf(t, vocab))
	})
	if chance(t, 3) {
		n := between(t, 0, 200)
		if chance(t, 6) {
			n *= 20
		}
		for i := 0; i < n; i++ {
			tokens = append(tokens, S(vocab[i%len(vocab)]))
		}
	}
	pipe := 4
	if chance(t, 10) {
		pipe = 12
	}
	stop := many(t, 0, 6, func(t *T) S {
		if len(tokens) > 0 && chance(t, 60) {
			w := string(oneOf(t, tokens))
			switch intn(t, 4) {
			case 0:
				w = strings.ToUpper(w)
			case 1:
				w += "s"
			}
			return S(w)
		}
		return S(oneOf(t, append([]string{"", "\xff", "x", "Java"}, vocab...)))
	})
	if chance(t, 10) { // a shipped stop word, and ones much like it
		w := oneOf(t, shippedStopWords)
		tokens = append(tokens, S(w), S(strings.ToUpper(w)), S(w+"s"))
	}
	return FilterCase{
		Stop:    stop,
		Tokens:  tokens,
		Filters: ints(t, 0, pipe, fCount),
		Texts:   many(t, 1, 3, func(t *T) S { return S(drawText(t, vocab, 0, 6)) }),
		Alnum:   chance(t, 50),
	}
}

func runC07(c FilterCase, o *Out) error {
	ownStop, ownGiven = vg.StopWords{}, vg.StopWords{}
	for _, w := range c.Stop {
		ownStop[string(w)], ownGiven[string(w)] = struct{}{}, struct{}{}
	}
	if len(c.Stop) == 0 && len(c.Tokens)%2 == 0 {
		ownGiven = nil
	}
	in := make([]string, len(c.Tokens))
	for i, s := range c.Tokens {
		in[i] = string(s)
	}
	for k := 0; k <= fStemKeep; k++ {
		// The list lies inside a larger array that is not the filter's to touch.
		arr := append(append([]string{"guard"}, in...), "guard", "guard")
		arg := arr[1 : 1+len(in)]
		f := filter(k)
		want := refFilter(k, in)
		for round := 0; round < 2; round++ {
			got := f.Filter(arg)
			if !sameStrings(got, want) {
				return fmt.Errorf("filter %s turns %q into %q, want %q", filterName(k), in, got, want)
			}
			if !sameStrings(arg, in) || arr[0] != "guard" || arr[len(arr)-1] != "guard" || arr[len(arr)-2] != "guard" {
				return fmt.Errorf("filter %s changed the list it was given from %q to %q", filterName(k), in, arr)
			}
			if len(in) > 1 && !sameStrings(in, want) {
				o.Nontrivial = true
				o.Label("list changed by " + filterName(k))
			}
		}
		// One token at a time gives the same.
		var each []string
		for _, s := range in {
			each = append(each, f.Filter([]string{s})...)
		}
		if !sameStrings(each, want) {
			return fmt.Errorf("filter %s turns the tokens of %q one by one into %q, together into %q", filterName(k), in, each, want)
		}
	}
	var tok vg.Tokenizer = tokFunc(strings.Fields)
	if c.Alnum {
		tok = vg.NewKeepAlphanumericTokenizer()
	}
	var fs []vg.Filter
	for _, k := range c.Filters {
		fs = append(fs, filter(k))
	}
	pipe := vg.NewTokenizationPipeline(tok, fs...)
	for round := 0; round < 2; round++ {
		for _, text := range c.Texts {
			want := tok.Tokenize(string(text))
			none := false
			for _, k := range c.Filters {
				want = refFilter(k, want)
				none = none || len(want) == 0
			}
			if got := pipe.Tokenize(string(text)); !sameStrings(got, want) {
				return fmt.Errorf("a pipeline of filters %v turns %q into %q, want %q", names(c.Filters), string(text), got, want)
			}
			o.LabelIf(len(c.Filters) > 1 && len(want) > 1, "pipeline of several filters")
			o.LabelIf(len(c.Filters) > 4, "pipeline of more than four filters")
			o.LabelIf(none && len(want) > 0, "tokens made of none")
		}
	}
	for w := range ownGiven {
		if _, ok := ownStop[w]; !ok {
			return fmt.Errorf("a stop-word filter of %q put %q into the set it was made of", c.Stop, w)
		}
	}
	if len(ownGiven) != len(ownStop) {
		return fmt.Errorf("a stop-word filter took words from the set %q it was made of", c.Stop)
	}
	return nil
}

func filterName(k int) string {
	return []string{"lower-case", "stop words (Spanish)", "stop words (own)", "stemmer(true)", "stemmer(false)", "reverse", "double", "drop", "mark", "tally", "none", "in place"}[k]
}

func names(ks []int) []string {
	var out []string
	for _, k := range ks {
		out = append(out, filterName(k))
	}
	return out
}

// ---------------------------------------------------------------- C08

// families are words with one Spanish stem each (checked when the harness
// starts), none of them a stop word.
var families = [][]string{
	{"perro", "perros", "perra", "perras"},
	{"gato", "gatos", "gata", "gatas"},
	{"casa", "casas"},
	{"canción", "canciones"},
	{"árbol", "árboles"},
	{"libro", "libros"},
	{"niño", "niños", "niña", "niñas"},
	{"rápido", "rápida", "rápidos", "rápidamente"},
	{"cantar", "cantando", "cantaba", "cantaron", "cantamos"},
	{"comer", "comiendo", "comían", "comieron"},
	{"lenguaje", "lenguajes"},
	{"ciudad", "ciudades"},
	{"42"},
	{"java"},
	{"nación", "naciones"},
	{"trabajador", "trabajadores", "trabajadora", "trabajadoras"},
	{"alegría", "alegrías"},
	{"hablar", "hablaban", "hablaremos", "hablaríamos", "hablándome"},
	{"posibilidad", "posibilidades"},
	{"lógico", "lógica", "lógicas", "lógicamente"},
	{"pingüino", "pingüinos"},
	{"über"}, {"日本"}, {"αβγ"}, {"x2"}, {"½"}, {"ª"},
	{strings.Repeat("ferro", 9) + "o", strings.Repeat("ferro", 9) + "a", strings.Repeat("ferro", 9) + "os"},
	{strings.Repeat("carril", 60) + "o", strings.Repeat("carril", 60) + "a", strings.Repeat("carril", 60) + "as"},
}

func init() {
	for i, f := range families {
		var g []string
		for _, w := range f {
			if !has(shippedStopWords, w) && snowball.Stem(w, true) == snowball.Stem(f[0], true) && strings.ToLower(strings.ToUpper(w)) == w {
				g = append(g, w)
			}
		}
		families[i] = g
	}
}

// MWord is a word of a family, written somehow: family -1 is stop word Form.
type MWord struct {
	Fam  int `json:"fam"`
	Form int `json:"form,omitempty"`
	Case int `json:"case,omitempty"`
	Sep  int `json:"sep,omitempty"`
}

var metaSeps = []string{" ", ", ", ". ", "\n", "-", " ¡", "! ", "; ", "/", "\u00a0", " (", ") ", "...", "\t", " ¿", "\"", "_", "—",
	" -", " +", "* ", "*", ": ", ":", " \"", "\" ", "~", "&", " && ", " | ", "||", " #", " @", "'", "’", "^", "? ", "\r\n", " «", "» ", "%", "=", "\\", "$", "<", "> ", "</", "[", "] ", "{", "}", "\x00", "\u200b", "\ufeff", "...-", " - ", " !", "--", "//", "\v", "\f", "\u2028"}

func render(ws []MWord) string {
	var b strings.Builder
	for i, w := range ws {
		s := ""
		if w.Fam < 0 {
			s = shippedStopWords[w.Form%len(shippedStopWords)]
		} else {
			f := families[w.Fam%len(families)]
			s = f[w.Form%len(f)]
		}
		switch w.Case {
		case 1:
			s = strings.ToUpper(s)
		case 2:
			r, n := utf8.DecodeRuneInString(s)
			s = string(unicode.ToUpper(r)) + s[n:]
		case 3:
			r, n := utf8.DecodeLastRuneInString(s)
			s = s[:len(s)-n] + string(unicode.ToUpper(r))
		}
		if i > 0 || w.Sep%4 == 3 {
			b.WriteString(metaSeps[w.Sep%len(metaSeps)])
		}
		b.WriteString(s)
		if i == len(ws)-1 && w.Sep%5 == 4 {
			b.WriteString(metaSeps[w.Sep%len(metaSeps)])
		}
	}
	return b.String()
}

type MetaCase struct {
	Docs    [][]MWord `json:"docs"`
	Query   []MWord   `json:"query"`
	VarDocs [][]MWord `json:"variant_docs"`
	VarQ    []MWord   `json:"variant_query"`
}

func drawMeta(t *T) MetaCase {
	fams := ints(t, 1, 5, len(families))
	word := func(t *T) MWord {
		if chance(t, 15) {
			return MWord{Fam: -1, Form: intn(t, len(shippedStopWords)), Case: intn(t, 4), Sep: intn(t, len(metaSeps))}
		}
		return MWord{Fam: oneOf(t, fams), Form: intn(t, 4), Case: intn(t, 4), Sep: intn(t, len(metaSeps))}
	}
	var c MetaCase
	c.Docs = many(t, 1, 6, func(t *T) []MWord { return many(t, 0, 6, word) })
	c.Query = many(t, 1, 3, word)
	stop := func() MWord {
		return MWord{Fam: -1, Form: intn(t, len(shippedStopWords)), Case: intn(t, 4), Sep: intn(t, len(metaSeps))}
	}
	if chance(t, 2) { // long texts
		most := 150
		if chance(t, 10) {
			most = 1500
		}
		grow := func(ws []MWord) []MWord {
			var out []MWord
			w := word(t)
			for i := upTo(t, 0, most, 3000); i > 0; i-- {
				switch intn(t, 16) {
				case 0:
					w = word(t)
				case 1:
					w = stop()
				}
				out = append(out, w)
			}
			return append(out, ws...)
		}
		if chance(t, 50) {
			c.Query = grow(c.Query)
		}
		c.Docs[0] = grow(c.Docs[0])
	} else if chance(t, 1) { // many documents
		few := c.Docs
		for i := upTo(t, 1, 300, 3000); i > 0; i-- {
			c.Docs = append(c.Docs, few[intn(t, len(few))])
		}
	}
	vary := func(ws []MWord) []MWord {
		var out []MWord
		for _, w := range ws {
			for n := 1 + intn(t, 5)/4; n > 0; n-- { // repeated now and then
				v := MWord{Fam: w.Fam, Form: intn(t, 4), Case: intn(t, 4), Sep: intn(t, len(metaSeps))}
				if w.Fam < 0 {
					if chance(t, 50) {
						continue
					}
					v.Form = intn(t, len(shippedStopWords))
				}
				out = append(out, v)
			}
			if chance(t, 15) {
				out = append(out, stop())
			}
		}
		if len(ws) > 0 && len(ws) < 20 && chance(t, 1) { // many of one stop word, among many words
			w := stop()
			at := intn(t, len(out)+1)
			out = append(append(out[:at:at], slicesOf(w, upTo(t, 1, 200, 1000))...), out[at:]...)
		}
		if len(out) > 1 && len(out) < 200 && chance(t, 60) {
			out = shuffle(t, out)
		}
		return out
	}
	c.VarQ = vary(c.Query)
	for _, d := range c.Docs {
		c.VarDocs = append(c.VarDocs, vary(d))
	}
	return c
}

func slicesOf(w MWord, n int) []MWord {
	out := make([]MWord, n)
	for i := range out {
		out[i] = w
	}
	return out
}

func runC08(c MetaCase, o *Out) error {
	mk := func(docs [][]MWord) *vg.MemoryIndex {
		ix := vg.NewMemoryIndex("ix", spanish(true))
		for i, d := range docs {
			ix.Put(vg.NewDocRequestWith(fmt.Sprint(i), "content", render(d)))
		}
		return ix
	}
	ids := func(ix *vg.MemoryIndex, q string, e int) []string {
		var out []string
		for _, r := range toRes(ix.Search(q, engines[e])) {
			out = append(out, r.ID)
		}
		return sortedStrings(out)
	}
	plain, varied := mk(c.Docs), mk(c.VarDocs)
	q, vq := render(c.Query), render(c.VarQ)
	for e := 0; e < 2; e++ {
		base := ids(plain, q, e)
		for _, v := range []struct {
			ix   *vg.MemoryIndex
			q    string
			what string
		}{{plain, vq, "the query written otherwise"}, {varied, q, "the statements written otherwise"}, {varied, vq, "both written otherwise"}} {
			if got := ids(v.ix, v.q, e); !sameStrings(got, base) {
				return fmt.Errorf("%s for %q matches documents %v; with %s (%q) it matches %v\nstatements:  %s\nstatements': %s", engineNames[e], q, base, v.what, v.q, got, stmts(c.Docs), stmts(c.VarDocs))
			}
		}
		if len(base) > 0 && q != vq {
			o.Nontrivial = true
			o.Label("variant with matches")
			o.LabelIf(len(base) < len(c.Docs), "some documents do not match")
			o.LabelIf(len(c.Docs[0]) > 60, "long statement")
			o.LabelIf(len(c.Query) > 60 || len(c.VarQ) > 60, "long query")
		}
	}
	return nil
}

func stmts(docs [][]MWord) string {
	var b strings.Builder
	for i, d := range docs {
		fmt.Fprintf(&b, "%d:%q ", i, render(d))
	}
	return b.String()
}

// ---------------------------------------------------------------- C09

type RegionCase struct {
	Words []S `json:"words"`
}

func drawRegionWord(t *T) RegionCase {
	return RegionCase{many(t, 1, 3, func(t *T) S {
		switch k := intn(t, 20); {
		case k < 12:
			return S(rapid.StringOfN(rapid.SampledFrom([]rune("abecidouñlérstúáíóü")), 0, 10, -1).Draw(t, "w"))
		case k < 15:
			return S(rapid.StringOfN(rapid.SampledFrom([]rune("ab")), 0, 7, -1).Draw(t, "w"))
		case k < 17:
			return S(oneOf(t, plainWords))
		case k < 18:
			return S(rapid.StringOfN(rapid.RuneFrom([]rune("aeé"), oddRunes...), 0, 8, -1).Draw(t, "w"))
		case k < 19:
			return S(many(t, 0, 12, func(t *T) byte { return oneOf(t, []byte("aeb\xc3\xa1\xb1\xff\xf0\x9f\x00")) }))
		default:
			// Long runs of a kind: the boundaries may be anywhere in the word.
			most := 20
			if chance(t, 30) {
				most = 300
			}
			var b strings.Builder
			for i := between(t, 1, 5); i > 0; i-- {
				b.WriteString(strings.Repeat(oneOf(t, []string{"a", "b", "é", "ñ", "ab", "éb", "bau", "日"}), upTo(t, 1, most, max(most, 300))))
			}
			return S(b.String())
		}
	})}
}

func spanishVowel(r rune) bool { return strings.ContainsRune("aeiouáéíóúü", r) }

// regions is the definition: it returns the starts of R1, R2 and RV in bytes,
// over the pattern of vowels in the word.
func regions(w string) (r1, r2, rv int) {
	var at []int // byte offset of each character
	var v []bool // whether it is a vowel
	for i, r := range w {
		at = append(at, i)
		v = append(v, spanishVowel(r))
	}
	n := len(v)
	at = append(at, len(w))
	after := func(from int) int { // index after the first non-vowel preceded by a vowel, both at or after from
		for i := from + 1; i < n; i++ {
			if v[i-1] && !v[i] {
				return i + 1
			}
		}
		return n
	}
	find := func(from int, vowel bool) int { // index after the first such character at or after from
		for i := from; i < n; i++ {
			if v[i] == vowel {
				return i + 1
			}
		}
		return n
	}
	a := after(0)
	b := after(a)
	c := n
	if n >= 2 {
		switch {
		case !v[1]:
			c = find(2, true)
		case v[0]:
			c = find(2, false)
		case n >= 3:
			c = 3
		}
	}
	return at[a], at[b], at[c]
}

func runC09(c RegionCase, o *Out) error {
	for _, word := range c.Words {
		w := string(word)
		buf := append(make([]byte, 0, len(w)+8), w...)
		buf = append(buf, "guardGUA"...)[:len(w)]
		g1, g2, gv := vg.R1R2RV(buf)
		if string(buf) != w || string(buf[:len(w)+8][len(w):]) != "guardGUA" {
			return fmt.Errorf("R1R2RV(%q) changed the word to %q", w, buf[:len(w)+8])
		}
		r1, r2, rv := regions(w)
		for _, x := range []struct {
			name string
			got  []byte
			from int
		}{{"R1", g1, r1}, {"R2", g2, r2}, {"RV", gv, rv}} {
			if string(x.got) != w[x.from:] {
				return fmt.Errorf("%s of %q is %q, want %q", x.name, w, x.got, w[x.from:])
			}
			if x.from > 0 && x.from < len(w) {
				o.Nontrivial = true
				o.Label("proper " + x.name)
			}
		}
		o.LabelIf(r1 == len(w) && rv < len(w), "RV without R1")
		o.LabelIf(!utf8.ValidString(w), "invalid UTF-8")
		o.LabelIf(r1 > 64 && r1 < len(w) || rv > 64 && rv < len(w), "a region beginning after 64 bytes")
	}
	return nil
}
