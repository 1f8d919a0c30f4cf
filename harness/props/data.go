package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/mailru/easyjson"
	"github.com/mailru/easyjson/jlexer"
	"github.com/mailru/easyjson/jwriter"
	"github.com/sonirico/vago/slices"
	vg "github.com/sonirico/visigoth"
	"pgregory.net/rapid"
	"verifharness/core"
)

func init() {
	core.Register(core.Prop{
		ID:    "C18",
		Rule:  "Search results over odd strings and extreme hit counts, encoded and decoded by the library, by easyjson and by encoding/json in every combination; JSON with fields reordered, missing, null, unknown or of the wrong type; and such JSON cut off or mutated. Non-trivial: a string needs escaping or is not ASCII, or the document was mutated or rearranged.",
		Quick: 360000, Thorough: 9000000,
	}, drawJSON, runC18)
	core.Register(core.Prop{
		ID:    "C19",
		Rule:  "A history of puts of valid UTF-8, a save and a load in the middle, queries before and after further puts into both indices. Non-trivial: a query has matches before or after the further puts.",
		Quick: 90000, Thorough: 2250000,
	}, drawSave, runC19)
	core.Register(core.Prop{
		ID:    "C20",
		Rule:  "Sets of identifiers, many of them close to one another (one byte changed, swapped, prefixed or repeated), each with several contents. Non-trivial: two or more different identifiers.",
		Quick: 720000, Thorough: 6000000,
	}, drawHash, runC20)
	core.Register(core.Prop{
		ID:    "C23",
		Rule:  "Index views made of arbitrary documents and ascending posting lists that no analyser produced, and token lists with repeats and unlisted tokens, for the four engines. Non-trivial: two or more tokens, and a document common to them or one that only some of them list.",
		Quick: 360000, Thorough: 9000000,
	}, drawView, runC23)
}

// ---------------------------------------------------------------- C18

type JSONCase struct {
	ID      S     `json:"id"`
	Raw     S     `json:"raw"`
	Hits    int   `json:"hits"`
	ID2     S     `json:"id2"`
	Form    []int `json:"form"`    // how the hand-written JSON is laid out
	Mutate  []Mut `json:"mutate"`  // applied to it
	Escape  []int `json:"escape"`  // characters of strings and names written as escapes
	Unknown S     `json:"unknown"` // value of unknown fields
	Whole   S     `json:"whole"`   // an input that need not be an object
	Tail    S     `json:"tail"`    // put after a whole input
}

// Mut is a change of one place of a byte string.
type Mut struct {
	Kind int `json:"kind"`
	At   int `json:"at"`
	By   int `json:"by"`
}

type mirrorDoc struct {
	Name    string `json:"id"`
	Content string `json:"raw"`
}

type mirror struct {
	Document mirrorDoc `json:"doc"`
	Hits     int       `json:"hits"`
}

func drawJSONString(t *T) S {
	most := 700
	if intn(t, 100) == 0 {
		most = 40000
	}
	switch k := intn(t, 11); {
	case k == 10:
		return S(dictWord(t, oneOf(t, plainWords)))
	case k < 3:
		return S(oneOf(t, []string{"", "a", "b c", "\"", "\\", "/", "\n\r\t", "<a&b>", "\u2028\u2029", "é", "日本", "😀", "\x00\x1f\x7f", "\ufffd", "\\u00e9", "null", "{}", "\u0000"}))
	case k < 6:
		return S(rapid.StringOfN(rapid.RuneFrom([]rune("\"\\/\n\u2028<é😀\x00\x7f"), oddRunes...), 0, 12, -1).Draw(t, "s"))
	case k < 8:
		return S(rapid.StringN(0, 12, -1).Draw(t, "s"))
	case k < 9:
		return S(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "s"))
	default:
		return S(strings.Repeat(oneOf(t, []string{"a", "\"", "é", "<", "\x01", "😀"}), upTo(t, 1, most, max(most, 7000))))
	}
}

var unknownValues = []string{"1", "null", "true", "\"x\"", "[]", "{}", "[1,{\"doc\":{\"id\":\"no\"}},\"]\"]", "{\"hits\":9,\"a\":[{}]}", "-1.5e3", "\"\\\"}\""}
var badValues = []string{"[]", "\"x\"", "true", "{}", "1.5", "5", "\"5\"", "99999999999999999999", "[1]"}

var wholes = []string{"", "null", "{}", "[]", "[null]", "[{}]", "true", "false", "0", "\"\"", "\"null\"", "nul", "nulll", "{", "}", "[", "{null}", "{\"doc\"}", "{\"doc\":}", "{,}", "{\"hits\":1,}", "{:}", "{\"a\":1}", "{\"hits\":null}", "{\"doc\":{\"id\":null}}", "{\"doc\":{\"id\":\"x\"}}"}
var tails = []string{"", "", " ", "\n\t ", "x", "{}", "}", ",", "null", " null", "\x00"}

const mutAlphabet = "{}[]\",:\\ue01n-. \n\x00\xffft"

func drawJSON(t *T) JSONCase {
	c := JSONCase{ID: drawJSONString(t), Raw: drawJSONString(t), ID2: drawJSONString(t), Unknown: S(oneOf(t, unknownValues))}
	c.Hits = oneOf(t, []int{0, 1, -1, 7, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63, 123456, upTo(t, 0, 9, 100000)})
	c.Form = ints(t, 0, 6, 12)
	c.Mutate = many(t, 0, 3, func(t *T) Mut {
		return Mut{intn(t, 4), intn(t, 400), intn(t, len(mutAlphabet))}
	})
	if chance(t, 30) {
		c.Escape = ints(t, 1, 4, 60)
	}
	c.Whole = S(oneOf(t, wholes))
	c.Tail = S(oneOf(t, tails))
	return c
}

// respelled writes some characters inside the strings of valid JSON, those of
// field names among them, as escapes.
func respelled(b []byte, which []int) []byte {
	if len(which) == 0 || !utf8.Valid(b) {
		return b
	}
	pick := map[int]bool{}
	for _, w := range which {
		pick[w] = true
	}
	var o []byte
	in, n := false, 0
	for i := 0; i < len(b); {
		r, w := utf8.DecodeRune(b[i:])
		switch {
		case r == '"':
			in = !in
			o = append(o, '"')
		case in && r == '\\':
			o = append(o, b[i:i+2]...)
			w = 2
		case in:
			switch n++; {
			case !pick[n-1]:
				o = append(o, b[i:i+w]...)
			case r == '/':
				o = append(o, `\/`...)
			case r > 0xffff:
				hi, lo := utf16.EncodeRune(r)
				o = fmt.Appendf(o, `\u%04x\u%04X`, hi, lo)
			default:
				o = fmt.Appendf(o, `\u%04x`, r)
			}
		default:
			o = append(o, b[i:i+w]...)
		}
		i += w
	}
	return o
}

// written lays out the case's result by hand: each number of Form adds a field
// or white space.
func (c JSONCase) written() []byte {
	q := func(s S) string { b, _ := json.Marshal(string(s)); return string(b) }
	var fs []string
	ws := ""
	for _, f := range c.Form {
		switch f {
		case 0:
			fs = append(fs, `"doc":{"id":`+q(c.ID)+`,"raw":`+q(c.Raw)+`}`)
		case 1:
			fs = append(fs, `"doc" : { "raw" : `+q(c.Raw)+` , "id" :`+q(c.ID)+` } `)
		case 2:
			fs = append(fs, fmt.Sprintf(`"hits":%d`, c.Hits))
		case 3:
			fs = append(fs, `"doc":{"id":`+q(c.ID)+`,"other":`+string(c.Unknown)+`}`)
		case 4:
			fs = append(fs, `"doc":null`)
		case 5:
			fs = append(fs, `"hits":null`)
		case 6:
			fs = append(fs, `"other":`+string(c.Unknown))
		case 7:
			ws = " \n\t"
		case 8:
			fs = append(fs, `"doc":{"raw":null,"id":`+q(c.ID)+`}`)
		case 9:
			fs = append(fs, `"doc":{}`)
		case 10:
			fs = append(fs, `"hits":`+badValues[len(c.ID)%len(badValues)])
		case 11:
			fs = append(fs, `"doc":`+badValues[len(c.Raw)%len(badValues)])
		}
	}
	return []byte(ws + "{" + ws + strings.Join(fs, ws+","+ws) + ws + "}" + ws)
}

func mutate(b []byte, ms []Mut) []byte {
	for _, m := range ms {
		x := mutAlphabet[m.By]
		switch at := m.At % (len(b) + 1); {
		case m.Kind == 0:
			b = b[:at]
		case m.Kind == 1 && at < len(b):
			b = append(append([]byte(nil), b[:at]...), b[at+1:]...)
		case m.Kind == 2 && at < len(b):
			b = append([]byte(nil), b...)
			b[at] = x
		default:
			b = append(append(append([]byte(nil), b[:at]...), x), b[at:]...)
		}
	}
	return b
}

// skeleton reduces JSON to its structure, every string empty and every number
// 0: what is inside these, the library's decoder is free to accept leniently.
func skeleton(b []byte) []byte {
	var o []byte
	for i := 0; i < len(b); i++ {
		switch {
		case b[i] == '"':
			o = append(o, '"')
			for i++; i < len(b) && b[i] != '"'; i++ {
				if b[i] == '\\' {
					i++
				}
			}
			if i < len(b) {
				o = append(o, '"')
			}
		case strings.IndexByte("0123456789+-.eE", b[i]) >= 0 && !(b[i] == 'e' && i > 0 && strings.IndexByte("us", b[i-1]) >= 0):
			if len(o) == 0 || o[len(o)-1] != '0' {
				o = append(o, '0')
			}
		default:
			o = append(o, b[i])
		}
	}
	return o
}

func same(r vg.SearchResult, m mirror) bool {
	return r.Document.ID() == m.Document.Name && r.Document.Raw() == m.Document.Content && r.Hits == m.Hits
}

func runC18(c JSONCase, o *Out) error {
	src := vg.SearchResult{Document: vg.NewDoc(string(c.ID), string(c.Raw)), Hits: c.Hits}
	valid := utf8.ValidString(string(c.ID)) && utf8.ValidString(string(c.Raw))
	o.LabelIf(!valid, "invalid UTF-8")
	want := mirror{mirrorDoc{string(c.ID), string(c.Raw)}, c.Hits}

	direct, err := src.MarshalJSON()
	if err != nil {
		return fmt.Errorf("encoding %+q: %v", src, err)
	}
	through, err := json.Marshal(src)
	if err != nil {
		return fmt.Errorf("encoding %+q with encoding/json: %v", src, err)
	}
	fast, err := easyjson.Marshal(src)
	if err != nil {
		return fmt.Errorf("encoding %+q with easyjson: %v", src, err)
	}
	keep := append([]byte(nil), direct...)
	list, err := json.Marshal(vg.SearchResults{src, {Document: vg.NewDoc(string(c.ID2), "x")}})
	if err != nil {
		return fmt.Errorf("encoding a list: %v", err)
	}
	for _, enc := range [][]byte{direct, through, fast} {
		if !json.Valid(enc) {
			return fmt.Errorf("%+q is encoded as %q, which is not JSON", src, enc)
		}
		var fields, inner map[string]json.RawMessage
		if err := json.Unmarshal(enc, &fields); err != nil || len(fields) != 2 || fields["doc"] == nil || fields["hits"] == nil {
			return fmt.Errorf("%+q is encoded as %q", src, enc)
		}
		if err := json.Unmarshal(fields["doc"], &inner); err != nil || len(inner) != 2 || inner["id"] == nil || inner["raw"] == nil {
			return fmt.Errorf("%+q is encoded as %q", src, enc)
		}
		if !valid {
			continue
		}
		var m mirror
		if err := json.Unmarshal(enc, &m); err != nil || m != want {
			return fmt.Errorf("%+q is encoded as %q, which encoding/json reads as %+q (%v)", src, enc, m, err)
		}
		for how := 0; how < 3; how++ {
			buf := append([]byte(nil), enc...)
			var back vg.SearchResult
			if err := decode(how, buf, &back); err != nil || !same(back, want) {
				return fmt.Errorf("%+q is encoded as %q, which is decoded as %+q (%v)", src, enc, back, err)
			}
			for i := range buf {
				buf[i] = '#'
			}
			if !same(back, want) {
				return fmt.Errorf("a result decoded from %q became %+q when the buffer was reused", enc, back)
			}
		}
	}
	if valid && utf8.ValidString(string(c.ID2)) {
		var rs vg.SearchResults
		if err := json.Unmarshal(list, &rs); err != nil || len(rs) != 2 || !same(rs[0], want) || rs[1].Document.ID() != string(c.ID2) {
			return fmt.Errorf("a list encoded as %q is decoded as %+q (%v)", list, rs, err)
		}
		std, _ := json.Marshal(want)
		for how := 0; how < 3; how++ {
			var back vg.SearchResult
			if err := decode(how, append([]byte(nil), std...), &back); err != nil || !same(back, want) {
				return fmt.Errorf("%q written by encoding/json is decoded as %+q (%v)", std, back, err)
			}
		}
		if len(std) > len(fmt.Sprintf(`{"doc":{"id":"%s","raw":"%s"},"hits":%d}`, c.ID, c.Raw, c.Hits)) || len([]rune(string(c.ID+c.Raw))) < len(c.ID+c.Raw) {
			o.Nontrivial = true
			o.Label("strings that need care")
		}
	}
	// What was encoded earlier stays, and does not show through later.
	if !bytes.Equal(direct, keep) {
		return fmt.Errorf("the encoding %q became %q when others were made", keep, direct)
	}
	for i := range direct {
		direct[i] = '#'
	}
	if again, err := src.MarshalJSON(); err != nil || !bytes.Equal(again, keep) {
		return fmt.Errorf("%+q is encoded as %q and then as %q (%v)", src, keep, again, err)
	}

	// Every prefix of an encoding is an error.
	for i := 0; i < len(keep); i += 1 + len(keep)/40 {
		var back vg.SearchResult
		if back.UnmarshalJSON(append([]byte(nil), keep[:i]...)) == nil {
			return fmt.Errorf("%q, cut off from %q, is decoded without error", keep[:i], keep)
		}
	}

	// Input of other shapes, and mutations.
	plain := c.written()
	for _, in := range [][]byte{plain, respelled(plain, c.Escape), respelled(keep, c.Escape), mutate(plain, c.Mutate), mutate(keep, c.Mutate), []byte(c.Whole + c.Tail), append(plain[:len(plain):len(plain)], c.Tail...)} {
		if err := checkDecode(in, o); err != nil {
			return err
		}
	}
	if err := c.listed(plain); err != nil {
		return err
	}
	if err := c.streamed(src, plain); err != nil {
		return err
	}
	o.LabelIf(len(c.Escape) > 0, "characters written as escapes")
	if len(c.Mutate) > 0 || len(c.Form) > 1 {
		o.Nontrivial = true
	}
	return nil
}

// streamed writes results among other things to one easyjson writer, and reads
// them from one lexer.
func (c JSONCase) streamed(src vg.SearchResult, plain []byte) error {
	rs := []vg.SearchResult{src, {}, {Document: vg.NewDoc("x", "y"), Hits: -5}}
	var w jwriter.Writer
	w.RawByte('[')
	for _, r := range rs {
		r.MarshalEasyJSON(&w)
		w.RawString(",7,")
	}
	w.RawString("null]")
	b, err := w.BuildBytes()
	if err != nil || !json.Valid(b) {
		return fmt.Errorf("writing %+q in a list gives %q (%v)", rs, b, err)
	}
	if !utf8.Valid([]byte(c.ID)) || !utf8.Valid([]byte(c.Raw)) {
		return nil
	}
	var m mirror
	if json.Unmarshal(plain, &m) != nil {
		plain, m = []byte("{}"), mirror{}
	}
	b = append(b[:len(b)-1], ","...)
	b = append(append(b, plain...), ",8]"...)
	in := jlexer.Lexer{Data: b}
	var got []vg.SearchResult
	one := func() {
		var r vg.SearchResult
		r.UnmarshalEasyJSON(&in)
		got = append(got, r)
		in.WantComma()
	}
	number := func() (n int) { n = in.Int(); in.WantComma(); return }
	in.Delim('[')
	var ns []int
	for range rs {
		one()
		ns = append(ns, number())
	}
	one() // null
	one()
	ns = append(ns, number())
	in.Delim(']')
	in.Consumed()
	want := append(append([]vg.SearchResult(nil), rs...), vg.SearchResult{}, vg.SearchResult{Document: vg.NewDoc(m.Document.Name, m.Document.Content), Hits: m.Hits})
	if in.Error() != nil || fmt.Sprint(ns) != "[7 7 7 8]" || len(got) != len(want) {
		return fmt.Errorf("reading the list %q: %v (%v)", b, in.Error(), ns)
	}
	for i := range want {
		if got[i] != want[i] {
			return fmt.Errorf("reading the list %q gives %+q, want %+q", b, got[i], want[i])
		}
	}
	return nil
}

// listed decodes results that are part of something larger, over others.
func (c JSONCase) listed(plain []byte) error {
	type (
		page struct {
			Top  *vg.SearchResult  `json:"top"`
			Rest []vg.SearchResult `json:"rest"`
		}
		mirrorPage struct {
			Top  *mirror  `json:"top"`
			Rest []mirror `json:"rest"`
		}
	)
	in := fmt.Appendf(nil, `{"top":%s,"rest":[%s,%s]}`, c.Whole, plain, c.Whole)
	p := page{Top: &vg.SearchResult{Hits: 5}, Rest: []vg.SearchResult{{Document: vg.NewDoc("was", "there"), Hits: 6}, {}}}
	m := mirrorPage{Top: &mirror{Hits: 5}, Rest: []mirror{{mirrorDoc{"was", "there"}, 6}, {}}}
	if !utf8.Valid(in) {
		return nil
	}
	merr := json.Unmarshal(in, &m)
	err := json.Unmarshal(in, &p)
	if (err == nil) != (merr == nil) {
		return fmt.Errorf("decoding %q: %v; for a type encoding/json decodes itself: %v", in, err, merr)
	}
	if merr != nil {
		return nil
	}
	ok := (p.Top == nil) == (m.Top == nil) && (p.Top == nil || same(*p.Top, *m.Top)) && len(p.Rest) == len(m.Rest)
	for i := 0; ok && i < len(p.Rest); i++ {
		ok = same(p.Rest[i], m.Rest[i])
	}
	if !ok {
		return fmt.Errorf("%q is decoded as %+q, encoding/json reads %+q", in, p, m)
	}
	return nil
}

func decode(how int, b []byte, r *vg.SearchResult) error {
	switch how {
	case 0:
		return r.UnmarshalJSON(b)
	case 1:
		return easyjson.Unmarshal(b, r)
	}
	return json.Unmarshal(b, r)
}

func checkDecode(in []byte, o *Out) error {
	for how := 0; how < 3; how++ {
		r := vg.SearchResult{Document: vg.NewDoc("was", "there"), Hits: 77}
		m := mirror{mirrorDoc{"was", "there"}, 77}
		err := decode(how, append([]byte(nil), in...), &r)
		merr := json.Unmarshal(in, &m)
		switch {
		case merr == nil && utf8.Valid(in):
			o.Label("well-formed input")
			if err != nil {
				return fmt.Errorf("decoding %q fails: %v", in, err)
			}
			if !same(r, m) {
				return fmt.Errorf("%q is decoded as %+q, encoding/json reads %+q", in, r, m)
			}
		case merr != nil && (json.Valid(in) || !json.Valid(skeleton(in))):
			o.Label("malformed input")
			if err == nil {
				return fmt.Errorf("%q is decoded without error as %+q; encoding/json says %v", in, r, merr)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C19

type SaveCase struct {
	An      int   `json:"analyser"`
	Before  []Put `json:"before"`
	After   []Put `json:"after"`
	Queries []S   `json:"queries"`
}

func drawSave(t *T) SaveCase {
	vocab := drawVocab(t, 1, 5)
	c := SaveCase{An: intn(t, anCount)}
	c.Before = drawPuts(t, vocab, 0, 6, 150)
	c.After = drawPuts(t, vocab, 0, 4, 0)
	c.Queries = drawQueries(t, vocab, append(append([]Put(nil), c.Before...), c.After...), 4)
	fix := func(s *S) { *s = S(strings.ToValidUTF8(string(*s), "?")) }
	for _, ps := range [][]Put{c.Before, c.After} {
		for i := range ps {
			d := &ps[i].Doc
			fix(&d.ID)
			fix(&d.Content)
			if d.Stmt != nil {
				fix(d.Stmt)
			}
			if b := ps[i].Bulk; b != nil {
				for j := range b.Words {
					fix(&b.Words[j])
				}
			}
		}
	}
	return c
}

func runC19(c SaveCase, o *Out) error {
	ix, _ := build(c.An)
	for _, d := range expand(c.Before) {
		ix.Put(d.req())
	}
	b, err := json.Marshal(ix)
	if err != nil {
		return fmt.Errorf("saving: %v", err)
	}
	back, _ := build(c.An)
	buf := append([]byte(nil), b...)
	if err := json.Unmarshal(buf, back); err != nil {
		return fmt.Errorf("loading %q: %v", clip(string(b)), err)
	}
	for i := range buf {
		buf[i] = '#'
	}
	if err := savedForm(b, c, ix, o); err != nil {
		return err
	}
	compare := func(when string) error {
		if err := sameIndex(back, ix); err != nil {
			return fmt.Errorf("%s, the loaded index differs: %w", when, err)
		}
		for _, q := range c.Queries {
			for e := range engines {
				x, y := toRes(back.Search(string(q), engines[e])), toRes(ix.Search(string(q), engines[e]))
				if !sameRes(x, y) {
					return fmt.Errorf("%s, %s for %q returns %s from the loaded index, %s from the saved one", when, engineNames[e], string(q), show(x), show(y))
				}
				if e < 2 && len(y) > 0 {
					o.Nontrivial = true
				}
			}
		}
		return nil
	}
	if err := compare("after loading"); err != nil {
		return err
	}
	for _, d := range expand(c.After) {
		ix.Put(d.req())
		back.Put(d.req())
	}
	o.LabelIf(len(c.After) > 0, "further puts after loading")
	if err := compare("after further puts"); err != nil {
		return err
	}
	again, err := json.Marshal(back)
	if err != nil {
		return fmt.Errorf("saving again: %v", err)
	}
	third, _ := build(c.An)
	if err := json.Unmarshal(again, third); err != nil {
		return fmt.Errorf("loading again: %v", err)
	}
	if err := sameIndex(third, ix); err != nil {
		return fmt.Errorf("after a second save and load: %w", err)
	}
	return nil
}

// savedIndex is the saved form of an index.
type savedIndex struct {
	Indexed []struct {
		ID  string `json:"id"`
		Raw string `json:"raw"`
	} `json:"indexed"`
	Inverted map[string][]int `json:"inverted"`
}

// savedForm compares what was saved with the form that others save, and loads
// that form.
func savedForm(b []byte, c SaveCase, ix *vg.MemoryIndex, o *Out) error {
	docs, tok := expand(c.Before), analyser(c.An)
	var want, got savedIndex
	want.Inverted = map[string][]int{}
	for i, d := range docs {
		want.Indexed = append(want.Indexed, struct {
			ID  string `json:"id"`
			Raw string `json:"raw"`
		}{string(d.ID), string(d.Content)})
		for _, t := range distinct(tok.Tokenize(d.statement())) {
			if !utf8.ValidString(t) { // JSON cannot hold it
				o.Label("token of invalid UTF-8")
				return nil
			}
			want.Inverted[t] = append(want.Inverted[t], i)
		}
	}
	if err := json.Unmarshal(b, &got); err != nil {
		return fmt.Errorf("the saved form %q: %v", clip(string(b)), err)
	}
	var fields map[string]json.RawMessage
	if err := json.Unmarshal(b, &fields); err != nil {
		return fmt.Errorf("the saved form %q: %v", clip(string(b)), err)
	}
	for _, k := range []string{"indexed", "inverted"} {
		if _, ok := fields[k]; !ok {
			return fmt.Errorf("the saved form has no field %q: %s", k, clip(string(b)))
		}
	}
	x, _ := json.Marshal(want.Indexed)
	y, _ := json.Marshal(got.Indexed)
	if len(want.Indexed)+len(got.Indexed) > 0 && !bytes.Equal(x, y) {
		return fmt.Errorf("the saved form has documents %s, want %s", clip(string(y)), clip(string(x)))
	}
	for t, l := range got.Inverted {
		if len(l) == 0 {
			delete(got.Inverted, t)
		}
	}
	x, _ = json.Marshal(want.Inverted)
	y, _ = json.Marshal(got.Inverted)
	if len(want.Inverted)+len(got.Inverted) > 0 && !bytes.Equal(x, y) {
		return fmt.Errorf("the saved form has terms %s, want %s", clip(string(y)), clip(string(x)))
	}
	form, _ := json.Marshal(want)
	other, _ := build(c.An)
	if err := json.Unmarshal(form, other); err != nil {
		return fmt.Errorf("loading %s: %v", clip(string(form)), err)
	}
	if err := sameIndex(other, ix); err != nil {
		return fmt.Errorf("loading %s: the index differs: %w", clip(string(form)), err)
	}
	return nil
}

// ---------------------------------------------------------------- C20

type HashCase struct {
	IDs      []S `json:"ids"`
	Contents []S `json:"contents"`
	// Crowd more identifiers made from Salt are hashed, so many that hashes
	// of no more than 32 bits would coincide.
	Crowd int    `json:"crowd,omitempty"`
	Salt  uint64 `json:"salt,omitempty"`
}

// crowd is the i-th identifier of a crowd.
func (c HashCase) crowd(i int) string {
	x := (c.Salt + uint64(i)) * 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return fmt.Sprintf("doc-%d-%x", i%100, x^x>>31)
}

func drawHash(t *T) HashCase {
	var c HashCase
	longest := 300
	if chance(t, 2) {
		longest = 40000
	}
	word := func(t *T) S {
		switch k := intn(t, 10); {
		case k < 4:
			return S(drawWord(t))
		case k < 6:
			return S(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"))
		case k < 8:
			return S(fmt.Sprintf("%s%d", oneOf(t, []string{"", "doc", "doc-", "/data/", "Doc"}), intn(t, 5000)))
		default:
			return S(strings.Repeat(oneOf(t, []string{"\x00", "a", "ab", "é", " "}), between(t, 0, longest)))
		}
	}
	c.IDs = many(t, 1, 6, word)
	for i := between(t, 0, 6); i > 0; i-- {
		b := []byte(oneOf(t, c.IDs))
		at := 0
		if len(b) > 0 {
			at = intn(t, len(b))
		}
		switch intn(t, 7) {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << intn(t, 8)
			}
		case 1:
			b = append(b, 0)
		case 2:
			b = append([]byte{0}, b...)
		case 3:
			if len(b) > 1 {
				k := intn(t, len(b))
				b[at], b[k] = b[k], b[at]
			}
		case 4:
			b = append(b, b...)
		case 5:
			b = b[:at]
		default:
			b = append(b, byte(' '))
		}
		c.IDs = append(c.IDs, S(b))
	}
	c.Contents = many(t, 1, 3, func(t *T) S { return S(drawWord(t)) })
	if chance(t, 20) {
		c.Contents = append(c.Contents, c.IDs...)
	}
	if rapid.Uint32().Draw(t, "crowd")%20000 == 777 {
		c.Crowd, c.Salt = 300000, rapid.Uint64().Draw(t, "salt")
	}
	return c
}

func runC20(c HashCase, o *Out) error {
	type entry struct {
		id S
		h  vg.HashKey
	}
	var es []entry
	for _, id := range c.IDs {
		for _, content := range c.Contents {
			d := vg.NewDoc(string(id), string(content))
			cp := d
			es = append(es, entry{id, d.Hash()}, entry{id, cp.Hash()}, entry{id, vg.Doc{Name: string(id)}.Hash()})
		}
	}
	// again, in the opposite order, through the interface
	for i := len(c.IDs) - 1; i >= 0; i-- {
		var h vg.Hashable = vg.NewDoc(string(c.IDs[i]), "other")
		es = append(es, entry{c.IDs[i], h.Hash()})
	}
	byID := map[S]vg.HashKey{}
	byHash := map[vg.HashKey]S{}
	for _, e := range es {
		if h, ok := byID[e.id]; ok && h != e.h {
			return fmt.Errorf("documents with identifier %q have hashes %v and %v", string(e.id), h, e.h)
		}
		if id, ok := byHash[e.h]; ok && id != e.id {
			return fmt.Errorf("documents %q and %q have the same hash %v", string(id), string(e.id), e.h)
		}
		byID[e.id], byHash[e.h] = e.h, e.id
	}
	o.Nontrivial = len(byID) > 1
	if c.Crowd > 0 {
		o.Label("a crowd")
		at := make(map[vg.HashKey]int, c.Crowd)
		for i := 0; i < c.Crowd; i++ {
			h := vg.NewDoc(c.crowd(i), "").Hash()
			if k, ok := at[h]; ok && c.crowd(k) != c.crowd(i) {
				return fmt.Errorf("documents %q and %q have the same hash %v", c.crowd(k), c.crowd(i), h)
			}
			at[h] = i
		}
	}
	return nil
}

// ---------------------------------------------------------------- C23

type ViewCase struct {
	Docs   []Doc            `json:"docs"`
	Lists  map[string][]int `json:"lists"`
	Empty  []int            `json:"empty"` // which unlisted tokens give an empty list, not nil
	Tokens []string         `json:"tokens"`
	Pad    int              `json:"pad,omitempty"`   // blank documents in front of all
	Extra  int              `json:"extra,omitempty"` // more tokens, on every document but their own number's
	// More documents behind all, with lists of these shapes, and the order of
	// the query's further tokens.
	More   int     `json:"more,omitempty"`
	Shapes []Shape `json:"shapes,omitempty"`
	Order  []int   `json:"order,omitempty"`
}

// full is the case with what Pad and Extra stand for written out.
func (c ViewCase) full() ViewCase {
	if c.Pad == 0 && c.Extra == 0 && c.More == 0 {
		return c
	}
	f := ViewCase{Lists: map[string][]int{}, Empty: c.Empty, Tokens: append([]string(nil), c.Tokens...)}
	f.Docs = append(make([]Doc, c.Pad), c.Docs...)
	for k, l := range c.Lists {
		var m []int
		for _, i := range l {
			m = append(m, i+c.Pad)
		}
		f.Lists[k] = m
	}
	for j := 0; j < c.Extra; j++ {
		var m []int
		for i := range c.Docs {
			if i != j {
				m = append(m, i+c.Pad)
			}
		}
		k := fmt.Sprintf("t%d", j)
		f.Lists[k] = m
		f.Tokens = append(f.Tokens, k)
	}
	if c.More > 0 {
		at := len(f.Docs)
		f.Docs = append(f.Docs, make([]Doc, c.More)...)
		for i := at; i < len(f.Docs); i++ {
			f.Docs[i].ID = S(fmt.Sprint(i))
		}
		if len(c.Shapes) > 0 {
			f.Tokens = nil // no document has both kinds
		}
		for j, s := range c.Shapes {
			var m []int
			for i := 0; i < c.More; i++ {
				if s.has(i, c.More) {
					m = append(m, i+at)
				}
			}
			f.Lists[fmt.Sprintf("s%d", j)] = m
		}
		for _, j := range c.Order {
			if len(c.Shapes) > 0 {
				f.Tokens = append(f.Tokens, fmt.Sprintf("s%d", j%len(c.Shapes)))
			}
		}
	}
	return f
}

var viewTokens = []string{"a", "b", "c", "d", "", "é"}

func drawView(t *T) ViewCase {
	c := ViewCase{Lists: map[string][]int{}}
	n := size(t, 8, 120)
	for i := 0; i < n; i++ {
		d := Doc{ID: S(oneOf(t, idPool)), Content: S(oneOf(t, []string{"", "x", "a", "\x00"}))}
		if chance(t, 60) {
			d.Content = S(fmt.Sprintf("#%d", i))
		}
		c.Docs = append(c.Docs, d)
	}
	for _, tok := range viewTokens {
		if chance(t, 20) {
			continue
		}
		l := []int{}
		dens := oneOf(t, []int{10, 50, 90, 100})
		for i := 0; i < n; i++ {
			if chance(t, dens) {
				l = append(l, i)
			}
		}
		c.Lists[tok] = l
	}
	c.Empty = ints(t, 0, 3, 8)
	c.Tokens = many(t, 0, 5, func(t *T) string { return oneOf(t, append([]string{"zz"}, viewTokens...)) })
	if intn(t, 100) == 0 {
		c.Pad = upTo(t, 1, 400, 10000)
		if intn(t, 30) == 0 {
			c.Pad = 66000
		}
	}
	if intn(t, 60) == 0 {
		c.Extra = between(t, 1, 40)
		if intn(t, 4) == 0 {
			c.Extra = between(t, 200, 600)
		}
	}
	if intn(t, 60) == 0 { // long lists of all kinds
		c.More = upTo(t, 1, 6000, 70000)
		if intn(t, 20) == 0 {
			c.More = 70000
		}
		c.Shapes = drawShapes(t)
		c.Order = ints(t, 1, 5, 60)
	}
	return c
}

type view struct{ c ViewCase }

func (v view) Len() int { return len(v.c.Docs) }
func (v view) Document(i int) vg.Doc {
	return vg.NewDoc(string(v.c.Docs[i].ID), string(v.c.Docs[i].Content))
}
func (v view) Indexed(k string) []int {
	if l, ok := v.c.Lists[k]; ok {
		return append(make([]int, 0, len(l)), l...)
	}
	for _, e := range v.c.Empty {
		if e == len(k) {
			return []int{}
		}
	}
	return nil
}

func runC23(c ViewCase, o *Out) error {
	c = c.full()
	v := view{c}
	var all, want, some []Res
	on := make([]int, len(c.Docs)) // how many of the tokens each is listed for
	for _, tok := range c.Tokens {
		for _, x := range c.Lists[tok] {
			on[x]++
		}
	}
	for i, n := range on {
		d := v.Document(i)
		r := Res{d.ID(), d.Raw(), 0}
		all = append(all, r)
		if n == len(c.Tokens) && n > 0 {
			want = append(want, r)
		} else if n > 0 {
			some = append(some, r)
		}
	}
	for e := 0; e < 4; e++ {
		arr := append(append([]string{"guard"}, c.Tokens...), "guard")
		var rs slices.Slice[vg.SearchResult] = engines[e](arr[1:1+len(c.Tokens)], v)
		got := toRes(rs)
		if !sameStrings(arr[1:1+len(c.Tokens)], c.Tokens) || arr[0] != "guard" || arr[len(arr)-1] != "guard" {
			return fmt.Errorf("%s changed the tokens %q to %q", engineNames[e], c.Tokens, arr)
		}
		switch e {
		case 0, 1:
			if !sameBag(noHits(got), want) {
				return fmt.Errorf("%s for tokens %q returns %s, the documents on every list are %s", engineNames[e], c.Tokens, show(got), show(want))
			}
		case 2:
			if !sameRes(got, all) {
				return fmt.Errorf("%s returns %s, the documents are %s", engineNames[e], show(got), show(all))
			}
		case 3:
			if len(got) != 0 {
				return fmt.Errorf("%s returns %s", engineNames[e], show(got))
			}
		}
	}
	if len(c.Tokens) > 1 && (len(want) > 0 || len(some) > 0) {
		o.Nontrivial = true
		o.LabelIf(len(want) > 0, "documents on every list")
		o.LabelIf(len(distinct(c.Tokens)) < len(c.Tokens), "repeated token")
		o.LabelIf(c.More > 1000, "more than 1000 documents")
	}
	return nil
}
