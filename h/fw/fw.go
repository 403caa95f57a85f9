// Package fw is the harness shared by every check in /verif.
//
// A property is a list of sub-checks. A sub-check is a generator of typed,
// JSON-serialisable cases (driven by pgregory.net/rapid, which also shrinks)
// and a deterministic judge of one case. Nothing random happens in the judge,
// so a shrunk case stored as JSON replays without rapid.
//
// The driver process re-executes itself once per (sub-check, shard) so that
// runtime-fatal faults in the code under test are contained and attributed.
package fw

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime/debug"
	"strings"

	"pgregory.net/rapid"
)

// Obs is what the judge reports about a case.
type Obs struct {
	nontrivial bool
	labels     []string
	known      []string
	knownSet   map[string]bool
	extra      int
}

// NT marks the case as non-trivial by the property's rule.
func (o *Obs) NT() { o.nontrivial = true }

// NTIf marks the case as non-trivial if b.
func (o *Obs) NTIf(b bool) {
	if b {
		o.nontrivial = true
	}
}

// Label classifies the case.
func (o *Obs) Label(l string) { o.labels = append(o.labels, l) }

// LabelIf classifies the case if b.
func (o *Obs) LabelIf(b bool, l string) {
	if b {
		o.labels = append(o.labels, l)
	}
}

// Known says whether a finding key is listed in the known-findings file; if
// so, it is recorded as having been reproduced.
func (o *Obs) Known(key string) bool {
	if o.knownSet[key] {
		o.known = append(o.known, key)
		return true
	}
	return false
}

// Sub is one sub-check.
type Sub struct {
	Name     string
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier
	Heavy    bool
	near     nearMode
	// fit brings a relative into the domain of the judge
	fit func(c any) (any, bool)
	// draw generates a case
	draw func(t *rapid.T) any
	// list enumerates cases instead of drawing them
	list func() []any
	// judge decides one case
	judge func(c any, o *Obs) error
	// parse decodes a case from JSON
	parse func(b []byte) (any, error)
}

// Property is one registered property.
type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Subs        []Sub
}

// Prop makes a generated sub-check.
func Prop[C any](name string, quick, thorough int, gen func(t *rapid.T) C, judge func(c C, o *Obs) error) Sub {
	return Sub{
		Name: name, Quick: quick, Thorough: thorough,
		draw: func(t *rapid.T) any {
			beginCase(t)
			return gen(t)
		},
		judge: func(c any, o *Obs) error { return judge(c.(C), o) },
		parse: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
}

// Enum makes a sub-check which goes through a fixed list of cases: a finite
// space, or saved regression inputs.
func Enum[C any](name string, cases func() []C, judge func(c C, o *Obs) error) Sub {
	return Sub{
		Name: name, Quick: 1, Thorough: 1,
		list: func() []any {
			cs := cases()
			out := make([]any, len(cs))
			for i := range cs {
				out[i] = cs[i]
			}
			return out
		},
		judge: func(c any, o *Obs) error { return judge(c.(C), o) },
		parse: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
}

// Heavy runs even a small sub-check, or an enumeration, in all processes.
func Heavy(s Sub) Sub {
	s.Heavy = true
	return s
}

// Panic is the error produced when the judged code panicked.
type Panic struct {
	Val   string
	Stack string
}

func (p *Panic) Error() string { return "panic: " + p.Val + "\n" + p.Stack }

// Catch runs f and turns a panic into an error.
func Catch(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = &Panic{Val: fmt.Sprint(r), Stack: trimStack(string(debug.Stack()))}
		}
	}()
	return f()
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "/repo/") || strings.Contains(lines[i], "ndaumath") || strings.Contains(lines[i], "/verif/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func runJudge(s *Sub, c any, o *Obs) error {
	return Catch(func() error { return s.judge(c, o) })
}

// Errf formats a violation.
func Errf(format string, args ...any) error { return fmt.Errorf(format, args...) }

// Diff compares with reflect.DeepEqual.
func Diff(what string, got, want any) error {
	if reflect.DeepEqual(got, want) {
		return nil
	}
	return fmt.Errorf("%s: got %s, want %s", what, show(got), show(want))
}

func show(v any) string {
	switch x := v.(type) {
	case []byte:
		return fmt.Sprintf("%x", x)
	case string:
		return fmt.Sprintf("%q", x)
	case error:
		return fmt.Sprintf("error(%q)", x.Error())
	}
	return fmt.Sprintf("%+v", v)
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}
