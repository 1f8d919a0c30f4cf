// Package core is the frame every check runs in: cases are plain values that
// rapid generates and shrinks, and that a JSON file replays.
package core

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// S is a string that keeps every byte through JSON.
type S string

// MarshalJSON writes valid UTF-8 as a JSON string and anything else quoted as
// in Go source.
func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"go": strconv.Quote(string(s))})
}

// UnmarshalJSON is the inverse of MarshalJSON.
func (s *S) UnmarshalJSON(b []byte) error {
	var v string
	if json.Unmarshal(b, &v) == nil {
		*s = S(v)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	v, err := strconv.Unquote(m["go"])
	*s = S(v)
	return err
}

// Out collects what a case exercised.
type Out struct {
	Nontrivial bool
	Labels     map[string]int
}

// Label counts a feature of the case.
func (o *Out) Label(l string) { o.Labels[l]++ }

// LabelIf counts a feature of the case if it has it.
func (o *Out) LabelIf(c bool, l string) {
	if c {
		o.Labels[l]++
	}
}

// Prop is one property made executable.
type Prop struct {
	ID       string
	Rule     string // how cases are made, and what makes one non-trivial
	Instr    bool   // runs on the instrumented build
	Race     bool   // runs on the instrumented build with the race detector
	Quick    int    // cases in the quick tier
	Thorough int    // cases in the thorough tier
	Gen      func(*rapid.T) any
	Decode   func([]byte) (any, error)
	Run      func(any, *Out) error
}

// Props holds the registered properties.
var Props = map[string]*Prop{}

// Register adds a property.
func Register[C any](p Prop, gen func(*rapid.T) C, run func(C, *Out) error) {
	p.Gen = func(t *rapid.T) any { return gen(t) }
	p.Decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	p.Run = func(c any, o *Out) error { return run(c.(C), o) }
	if Props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	Props[p.ID] = &p
}

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range Props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Exec runs one case; a panic is a failure.
func (p *Prop) Exec(c any) (out *Out, err error) {
	out = &Out{Labels: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trim(debug.Stack()))
		}
	}()
	err = p.Run(c, out)
	return
}

func trim(st []byte) string {
	var out []string
	for _, l := range strings.Split(string(st), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/harness/props/") || strings.Contains(l, "/mod/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 10 {
			break
		}
	}
	return strings.Join(out, "\n")
}
