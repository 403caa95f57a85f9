// Command pure decides C39: results depend only on arguments, whatever was
// called before and whatever runs at the same time.
//
// A case is a mix of calls over a small pool of related arguments. It is run
// by fresh worker processes (built with the race detector): one runs the mix
// in order, twice; the other starts with all goroutines at once, each at its
// own place in the mix, and then runs the mix backwards. Every call must give
// one and the same result in all of these; the argument slices (shared by the
// goroutines) must stay as they were, spare capacity included; and every slice
// a call returned must stay as it was returned.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"runtime/debug"
	"strings"
	"sync"

	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/key", "pkg/address", "pkg/words", "pkg/signature", "pkg/b32"}
	if os.Getenv("PURE_WORKER") != "" {
		worker(os.Getenv("PURE_WORKER"))
		return
	}
	fw.Main(c39)
}

// Mix is a case.
type Mix struct {
	D     []fw.Hex // byte arguments
	S     []fw.Str // text arguments
	Calls []Call
	G     int // goroutines
}

// Call is one call of the catalogue.
type Call struct {
	F    string
	A, B int
	N    int64
}

// arena holds what one execution of one call was given and returned.
type arena struct {
	in   *inputs
	res  []string
	outs []held
}

type held struct {
	what string
	v    any
	snap any
}

// inputs are the argument slices, shared by everything in a worker.
type inputs struct {
	m    Mix
	d    [][]byte
	full [][]byte // d with its spare capacity
	orig [][]byte
}

func guarded(b []byte) (s, full []byte) {
	full = make([]byte, len(b)+17)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xa5 ^ byte(i)
	}
	return full[:len(b)], full
}

func newInputs(m Mix) *inputs {
	in := &inputs{m: m}
	for _, b := range m.D {
		s, f := guarded(b)
		in.d = append(in.d, s)
		in.full = append(in.full, f)
		in.orig = append(in.orig, append([]byte(nil), f...))
	}
	return in
}

func (in *inputs) check() string {
	for i := range in.full {
		if !bytes.Equal(in.full[i], in.orig[i]) {
			return fmt.Sprintf("the argument slice %x was changed to %x (spare capacity from byte %d)", in.orig[i], in.full[i], len(in.d[i]))
		}
	}
	return ""
}

// bytes is the i-th byte argument.
func (a *arena) bytes(i int) []byte { return a.in.d[mod(i, len(a.in.d))] }

// text is the i-th text argument.
func (a *arena) text(i int) string { return string(a.in.m.S[mod(i, len(a.in.m.S))]) }

// give makes an argument slice of the call's own.
func (a *arena) give(b []byte) []byte {
	s, full := guarded(b)
	a.outs = append(a.outs, held{"argument", full, append([]byte(nil), full...)})
	return s
}

// keep notes that v was passed in or is reachable by the caller.
func (a *arena) keep(what string, v any) {
	a.outs = append(a.outs, held{what, v, clone(v)})
}

func clone(v any) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Slice || rv.IsNil() {
		return v
	}
	c := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
	reflect.Copy(c, rv)
	return c.Interface()
}

// out records results: their values, and for slices that they stay.
func (a *arena) out(vs ...any) {
	for _, v := range vs {
		switch x := v.(type) {
		case nil:
			a.res = append(a.res, "nil")
		case error:
			a.res = append(a.res, "error: "+x.Error())
		case []byte:
			a.res = append(a.res, fmt.Sprintf("%x", x))
			a.keep("result", x)
		case string:
			a.res = append(a.res, fmt.Sprintf("%q", x))
		default:
			a.res = append(a.res, fmt.Sprintf("%v", x))
			if reflect.ValueOf(v).Kind() == reflect.Slice {
				a.keep("result", v)
			}
		}
	}
}

func (a *arena) check() string {
	for _, h := range a.outs {
		if !reflect.DeepEqual(h.v, h.snap) {
			return fmt.Sprintf("a %s which was %x is now %x", h.what, h.snap, h.v)
		}
	}
	return ""
}

func mod(i, n int) int {
	i %= n
	if i < 0 {
		i += n
	}
	return i
}

// run executes one call.
func run(in *inputs, c Call) (a *arena) {
	a = &arena{in: in}
	defer func() {
		if r := recover(); r != nil {
			a.res = append(a.res, fmt.Sprintf("panic: %v", r))
			if os.Getenv("PURE_STACK") != "" {
				os.Stderr.Write(debug.Stack())
			}
		}
	}()
	catalogue[c.F](a, c)
	return a
}

type report struct {
	Results []string
	Bad     string
}

func worker(mode string) {
	var m Mix
	if err := json.NewDecoder(os.Stdin).Decode(&m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	in := newInputs(m)
	n := len(m.Calls)
	var rep report
	var all []*arena
	note := func(i int, a *arena) string { return strings.Join(a.res, " ") }
	compare := func(i int, got, how string) {
		if rep.Bad == "" && got != rep.Results[i] {
			rep.Bad = fmt.Sprintf("call %d (%+v) gives %s\n%s it gives %s", i, m.Calls[i], rep.Results[i], how, got)
		}
	}
	checkAll := func() {
		if rep.Bad != "" {
			return
		}
		for _, a := range all {
			if s := a.check(); s != "" {
				rep.Bad = s
				return
			}
		}
		rep.Bad = in.check()
	}
	if mode == "order" {
		for i, c := range m.Calls {
			a := run(in, c)
			all = append(all, a)
			rep.Results = append(rep.Results, note(i, a))
			if s := in.check(); s != "" && rep.Bad == "" {
				rep.Bad = fmt.Sprintf("call %d (%+v): %s", i, c, s)
			}
		}
		for i, c := range m.Calls {
			a := run(in, c)
			all = append(all, a)
			compare(i, note(i, a), "the second time")
		}
	} else {
		got := make([][]*arena, m.G)
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < m.G; g++ {
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				got[g] = make([]*arena, n)
				ready.Done()
				<-start
				for k := 0; k < n; k++ {
					// two goroutines share each starting place
					i := (k + (g/2)*n/((m.G+1)/2)) % n
					got[g][i] = run(in, m.Calls[i])
				}
			}()
		}
		ready.Wait()
		close(start)
		done.Wait()
		for i := range m.Calls {
			rep.Results = append(rep.Results, note(i, got[0][i]))
		}
		for g := 1; g < m.G; g++ {
			for i := range m.Calls {
				compare(i, note(i, got[g][i]), "from another goroutine")
			}
		}
		for g := range got {
			all = append(all, got[g]...)
		}
		for i := n - 1; i >= 0; i-- {
			a := run(in, m.Calls[i])
			all = append(all, a)
			compare(i, note(i, a), "afterwards")
		}
	}
	checkAll()
	json.NewEncoder(os.Stdout).Encode(rep)
}

func spawn(m Mix, mode string) (report, error, error) {
	var rep report
	j, err := json.Marshal(m)
	if err != nil {
		return rep, nil, err
	}
	self, err := os.Executable()
	if err != nil {
		return rep, nil, err
	}
	cmd := exec.Command(self)
	cmd.Stdin = bytes.NewReader(j)
	cmd.Env = append(os.Environ(), "PURE_WORKER="+mode, "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMEMLIMIT=2500MiB")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	txt := se.String()
	if len(txt) > 6000 {
		txt = txt[:6000]
	}
	if err != nil {
		if strings.Contains(txt, "DATA RACE") || regexp.MustCompile(`fatal error: (stack overflow|concurrent map|all goroutines are asleep|sync: )|goroutine stack exceeds`).MatchString(txt) {
			return rep, fw.Errf("%s: %s", mode, txt), nil
		}
		return rep, nil, fmt.Errorf("worker %s: %v %s", mode, err, txt)
	}
	if err := json.Unmarshal(so.Bytes(), &rep); err != nil {
		return rep, nil, err
	}
	return rep, nil, nil
}

func judge(m Mix, o *fw.Obs) error {
	for _, c := range m.Calls {
		if catalogue[c.F] == nil {
			panic("no call " + c.F)
		}
		o.Label(c.F)
	}
	a, bad, err := spawn(m, "order")
	if err != nil {
		panic(err)
	}
	if bad != nil {
		return bad
	}
	if a.Bad != "" {
		return fw.Errf("run in order: %s", a.Bad)
	}
	b, bad, err := spawn(m, "together")
	if err != nil {
		panic(err)
	}
	if bad != nil {
		return bad
	}
	if b.Bad != "" {
		return fw.Errf("run together: %s", b.Bad)
	}
	ok := 0
	for i := range m.Calls {
		if a.Results[i] != b.Results[i] {
			return fw.Errf("call %d (%+v) gives %s when the mix is run in order, and %s when it is run together", i, m.Calls[i], a.Results[i], b.Results[i])
		}
		if strings.HasPrefix(a.Results[i], "panic") {
			return fw.Errf("call %d (%+v): %s", i, m.Calls[i], a.Results[i])
		}
		if !strings.Contains(a.Results[i], "error: ") {
			ok++
		}
	}
	o.NTIf(ok >= 3)
	return nil
}

func gen(t *rapid.T) Mix {
	var m Mix
	nd := fw.Int(t, 2, 5, "nd")
	for i := 0; i < nd; i++ {
		if i > 0 && fw.Chance(t, 2, 3, "rel") {
			// related to an earlier one: same start, same end or same length
			b := m.D[fw.Int(t, 0, i-1, "rel#")].Clone()
			switch fw.Int(t, 0, 3, "rel?") {
			case 0:
				b = append(b, fw.BytesN(t, 1, "tail")...)
			case 1:
				b = b[:len(b)-fw.Int(t, 0, min(2, len(b)), "less")]
			default:
				if len(b) > 0 {
					b[fw.Int(t, 0, len(b)-1, "at")] ^= byte(fw.Int(t, 1, 255, "x"))
				}
			}
			m.D = append(m.D, b)
			continue
		}
		m.D = append(m.D, fw.Bytes(t, 0, fw.Pick(t, "len", 16, 33, 64, 80, 130), "d"))
	}
	for i := 0; i < 3; i++ {
		m.S = append(m.S, drawText(t, m))
	}
	names := names
	if fw.Chance(t, 1, 2, "narrow") {
		// a few functions, called often
		k := fw.Int(t, 1, 3, "k")
		var some []string
		for i := 0; i < k; i++ {
			some = append(some, names[fw.Int(t, 0, len(names)-1, "f")])
		}
		names = some
	}
	n := fw.Int(t, 3, fw.Pick(t, "n?", 6, 12, 24), "n")
	for i := 0; i < n; i++ {
		m.Calls = append(m.Calls, Call{F: names[fw.Int(t, 0, len(names)-1, "f")], A: fw.Int(t, 0, 4, "a"), B: fw.Int(t, 0, 4, "b"), N: int64(fw.Int(t, 0, 1<<16-1, "N"))})
	}
	m.G = fw.Int(t, 2, fw.Pick(t, "g?", 3, 4, 8), "g")
	return m
}

// drawText makes a text which some function accepts, or nearly.
func drawText(t *rapid.T, m Mix) fw.Str {
	d := m.D[fw.Int(t, 0, len(m.D)-1, "of")]
	var s string
	switch fw.Int(t, 0, 7, "text?") {
	case 0:
		s, _ = ref.Address(fw.Pick(t, "kind", byte('a'), 'n', 'x', 'b', 'm'), append(d.Clone(), make([]byte, 32)...))
	case 1:
		s = ref.B32(d)
	case 2:
		s = strings.Join(ref.Phrase(d), " ")
	case 3:
		if x, err := ref.Master(append(d.Clone(), make([]byte, 32)...)[:32]); err == nil {
			if fw.Chance(t, 1, 2, "pub") {
				x = x.Neuter()
			}
			s = x.Text()
		}
	case 4:
		s = fw.Pick(t, "lit", "/", "/1", "/44'/20036'/100/10000'/1", "/1/2/3", "en", "abandon", "zo", "1.5", "$16.81", "1y2m3dt4h5m6s", "2018-07-05T01:02:03Z", "10%", "1y:2%")
	case 5:
		s = strings.Repeat("0", fw.Int(t, 0, 8, "z")) + fmt.Sprint(fw.Int(t, 0, 1<<30, "num"))
	default:
		return fw.Junk(t, "junk", 20)
	}
	if fw.Chance(t, 1, 4, "edit") && len(s) > 0 {
		b := []byte(s)
		b[fw.Int(t, 0, len(b)-1, "at")] = fw.Pick(t, "to", byte('a'), 'z', '9', ' ', 'A')
		s = string(b)
	}
	return fw.Str(s)
}

// each makes every function of the catalogue be called together with itself.
func each() []Mix {
	var out []Mix
	seq := func(n int, k byte) fw.Hex {
		b := make(fw.Hex, n)
		for i := range b {
			b[i] = byte(i)*k + 7
		}
		return b
	}
	d := []fw.Hex{seq(32, 1), seq(16, 3), seq(64, 5)}
	x, err := ref.Master(d[0])
	if err != nil {
		panic(err)
	}
	adr, _ := ref.Address('a', append(d[0].Clone(), make([]byte, 32)...))
	for _, s := range [][]fw.Str{
		{fw.Str(adr), fw.Str(x.Text()), "/1/2"},
		{fw.Str(x.Neuter().Text()), fw.Str(strings.Join(ref.Phrase(d[1]), " ")), "1.5"},
		{"1y2m3dt4h", "2018-07-05T01:02:03Z", "12.5%"},
	} {
		for _, f := range names {
			m := Mix{D: d, S: s, G: 4}
			for i := 0; i < 3; i++ {
				m.Calls = append(m.Calls, Call{F: f, A: i, B: i + 1, N: int64(i) * 31})
			}
			out = append(out, m)
		}
	}
	return out
}

func c39() fw.Property {
	return fw.Property{
		ID:   "C39",
		Rule: "a mix with at least three calls which succeed",
		Assumptions: []string{
			"data races are seen if the race detector sees them in the schedules which occur",
			"the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline",
		},
		Subs: []fw.Sub{
			fw.Heavy(fw.Enum("each", each, judge)),
			fw.Heavy(fw.NoNear(fw.Prop("mix", 320, 5600, gen, judge))),
		},
	}
}
