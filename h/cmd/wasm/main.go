// Command wasm decides C23 and C42: the JavaScript wallet module, built for
// WebAssembly from the working tree and run under node, against the
// string-based library.
package main

import (
	"bufio"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/ndau/ndaumath/pkg/keyaddr"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

//go:embed driver.js
var driver []byte

func main() {
	fw.Packages = []string{"cmd/keyaddr", "pkg/keyaddr"}
	fw.Main(c23, c42, c46)
}

// Arg is a JavaScript argument.
type Arg struct {
	T string  // str num nan inf undef null bool obj arr sym fn
	S string  `json:",omitempty"`
	N float64 `json:",omitempty"`
}

// Call is one call; Args, then the callback if Cb, then Tail.
type Call struct {
	Fn   string
	Args []Arg
	Cb   bool
	Tail []Arg `json:",omitempty"`
	// Level is the log level which the application sets before the call
	Level string `json:",omitempty"`
}

// History is a case.
type History struct {
	Calls    []Call
	Handler  bool   // the application provides its own error handler
	Level    string `json:",omitempty"`
	Together bool   // all calls are made before waiting for any answer
	// Chain: each call is made from the callback of the one before it
	Chain bool `json:",omitempty"`
	// Lines: what the console shows is wanted
	Lines bool `json:",omitempty"`
}

type callRes struct {
	N, Argc, Handled, Logs            int
	Err, ErrKind, Res, ResKind, Throw string
	Lines                             [][2]string
}

type histRes struct {
	Calls             []callRes
	Dead, After, Exit string
	Handled, Bye      int
	Broken            string
}

type nodeProc struct {
	in   io.WriteCloser
	out  *bufio.Reader
	cmd  *exec.Cmd
	used int
}

var proc *nodeProc

func start() *nodeProc {
	dir := os.Getenv("SCRATCH")
	js := filepath.Join(dir, fmt.Sprintf("driver-%d.js", os.Getpid()))
	if err := os.WriteFile(js, driver, 0o644); err != nil {
		panic(err)
	}
	p := &nodeProc{cmd: exec.Command("node", "--max-old-space-size=1024", js)}
	p.cmd.Env = append(os.Environ(), "WASM_FILE="+filepath.Join(dir, "keyaddr.wasm"),
		"WASM_EXEC="+filepath.Join(runtime.GOROOT(), "lib/wasm/wasm_exec.js"))
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	p.cmd.Stderr = os.Stderr
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	return p
}

func (p *nodeProc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func ask(h History) (r histRes) {
	line, broken := converse(h)
	if broken != "" {
		return histRes{Broken: broken}
	}
	if err := json.Unmarshal(line, &r); err != nil {
		panic(err)
	}
	if r.Broken != "" || r.Dead != "" || r.Exit == "still running" {
		proc.stop()
		proc = nil
	}
	return r
}

// converse sends a request to the driver and gives its answer.
func converse(h any) (line []byte, broken string) {
	if proc != nil && proc.used >= 150 {
		proc.stop()
		proc = nil
	}
	if proc == nil {
		proc = start()
	}
	proc.used++
	b, err := json.Marshal(h)
	if err != nil {
		panic(err)
	}
	if _, err := proc.in.Write(append(b, '\n')); err != nil {
		panic(err)
	}
	l, err := proc.out.ReadBytes('\n')
	if err != nil {
		proc.stop()
		proc = nil
		return nil, "node ended: " + err.Error()
	}
	return l, ""
}

// nargs is the number of arguments before the callback.
var nargs = map[string]int{"newKey": 1, "wordsToBytes": 2, "deriveFrom": 3, "ndauAddress": 1, "toPublic": 1, "child": 2,
	"sign": 2, "hardenedChild": 2, "wordsFromPrefix": 3, "isPrivate": 1, "wordsFromBytes": 2, "fromString": 1}
var fns = []string{"newKey", "wordsToBytes", "deriveFrom", "ndauAddress", "toPublic", "child", "child", "sign", "hardenedChild", "hardenedChild", "wordsFromPrefix", "isPrivate", "wordsFromBytes", "fromString"}

func str(s string) Arg {
	s = strings.ToValidUTF8(s, "?")
	return Arg{T: "str", S: s}
}

// library gives the answer of the string-based library.
// sure is false when the arguments have no meaning there.
func library(c Call) (res, kind string, err error, sure bool) {
	kind = "string"
	a := c.Args
	isStr := func(i int) bool { return a[i].T == "str" }
	kr := func(k *keyaddr.Key, e error) {
		err = e
		if k != nil {
			res = k.Key
		}
	}
	for i := range a {
		num := (c.Fn == "wordsFromPrefix" && i == 2) || ((c.Fn == "child" || c.Fn == "hardenedChild") && i == 1)
		if num {
			switch {
			case c.Fn != "wordsFromPrefix" && a[i].T != "num" && a[i].T != "nan" && a[i].T != "inf":
				return "", "", fw.Errf("not a number"), isStr(0) // refused by the module
			case c.Fn != "wordsFromPrefix" && a[i].T == "num" && a[i].N == math.Trunc(a[i].N) && (a[i].N < math.MinInt32 || a[i].N > math.MaxInt32):
				return "", "", fw.Errf("out of range"), true
			case a[i].T != "num" || a[i].N != math.Trunc(a[i].N) || math.Abs(a[i].N) > 1<<52:
				return "", "", nil, false
			}
		} else if !isStr(i) && !(c.Fn == "wordsToBytes" && i == 0 && a[i].T == "undef") {
			return "", "", nil, false
		}
	}
	switch c.Fn {
	case "newKey":
		kr(keyaddr.NewKey(a[0].S))
	case "wordsToBytes":
		lang := a[0].S
		if a[0].T == "undef" {
			lang = "en"
		}
		res, err = keyaddr.WordsToBytes(lang, a[1].S)
	case "deriveFrom":
		kr(keyaddr.DeriveFrom(a[0].S, a[1].S, a[2].S))
	case "ndauAddress":
		ad, e := (&keyaddr.Key{Key: a[0].S}).NdauAddress()
		err = e
		if ad != nil {
			res = ad.Address
		}
	case "toPublic":
		kr((&keyaddr.Key{Key: a[0].S}).ToPublic())
	case "child":
		kr((&keyaddr.Key{Key: a[0].S}).Child(int32(a[1].N)))
	case "hardenedChild":
		kr((&keyaddr.Key{Key: a[0].S}).HardenedChild(int32(a[1].N)))
	case "sign":
		s, e := (&keyaddr.Key{Key: a[0].S}).Sign(a[1].S)
		err = e
		if s != nil {
			res = s.Signature
		}
	case "wordsFromPrefix":
		res = keyaddr.WordsFromPrefix(a[0].S, a[1].S, int(a[2].N))
	case "isPrivate":
		kind = "boolean"
		p, e := (&keyaddr.Key{Key: a[0].S}).IsPrivate()
		res, err = fmt.Sprint(p), e
	case "wordsFromBytes":
		res, err = keyaddr.WordsFromBytes(a[0].S, a[1].S)
	case "fromString":
		kind = "object"
		k, e := keyaddr.FromString(a[0].S)
		err = e
		if k != nil {
			b, _ := json.Marshal(map[string]string{"key": k.Key})
			res = string(b)
		}
	}
	return res, kind, err, true
}

func judge(h History, o *fw.Obs) error {
	r := ask(h)
	if r.Broken != "" {
		return fw.Errf("the module broke its host: %s", r.Broken)
	}
	good, bad := 0, 0
	orphans := 0
	many := h.Together || h.Chain // reports cannot be told apart
	for i, c := range h.Calls {
		if i >= len(r.Calls) {
			return fw.Errf("call %d was not made: %s", i, r.Dead)
		}
		cr := r.Calls[i]
		cj, _ := json.Marshal(c)
		fail := func(f string, a ...any) error { return fw.Errf("call %d %s: %s", i, cj, fmt.Sprintf(f, a...)) }
		if r.Dead != "" && cr.N == 0 {
			return fail("the module died: %s", r.Dead)
		}
		if cr.Throw != "" {
			return fail("threw %s", cr.Throw)
		}
		hasCb := c.Cb && len(c.Tail) == 0 // the last argument
		strayFn := len(c.Tail) > 0 && c.Tail[len(c.Tail)-1].T == "fn" || !c.Cb && len(c.Args) > 0 && c.Args[len(c.Args)-1].T == "fn"
		if !hasCb {
			if strayFn {
				continue // another function was the callback
			}
			o.Label("no-callback")
			bad++
			orphans++
			if cr.N != 0 {
				return fail("a function which is not the last argument was called back")
			}
			if h.Handler && !many && cr.Handled != 1 {
				return fail("reported %d times to the error handler", cr.Handled)
			}
			if !h.Handler && !many && cr.Logs == 0 {
				return fail("not reported by the default error handler")
			}
			continue
		}
		if cr.N != 1 {
			return fail("the callback was called %d times", cr.N)
		}
		isErr := cr.ErrKind != "null" && cr.ErrKind != "undefined"
		noRes := cr.ResKind == "null" || cr.ResKind == "undefined"
		if isErr && !noRes {
			return fail("the error %q comes with the result %q", cr.Err, cr.Res)
		}
		if !isErr && noRes {
			return fail("neither error nor result")
		}
		if !isErr && cr.ErrKind != "null" {
			return fail("the error of a success is %s", cr.ErrKind)
		}
		if isErr && cr.Err == "" {
			return fail("empty error")
		}
		if len(c.Args) != nargs[c.Fn] {
			o.Label("wrong-count")
			bad++
			if !isErr {
				return fail("gives %q", cr.Res)
			}
			continue
		}
		want, kind, werr, sure := library(c)
		if !sure {
			o.Label("mistyped")
			bad++
			continue
		}
		if werr != nil {
			o.Label("error-" + c.Fn)
			bad++
			if !isErr {
				return fail("gives %q, the library %v", cr.Res, werr)
			}
			continue
		}
		good++
		o.Label("ok-" + c.Fn)
		if isErr || cr.Res != want || cr.ResKind != kind {
			return fail("gives error %s %q, result %s %q; the library %q", cr.ErrKind, cr.Err, cr.ResKind, cr.Res, want)
		}
	}
	if r.Dead != "" {
		return fw.Errf("the module died: %s", r.Dead)
	}
	if h.Handler && many && r.Handled != orphans {
		return fw.Errf("%d calls without a callback, %d reports to the error handler", orphans, r.Handled)
	}
	if r.After != "null/zoo" {
		return fw.Errf("after the calls the module answers %q", r.After)
	}
	if r.Bye != 1 || r.Exit != "ended" && r.Exit != "exit code 0" {
		return fw.Errf("exit: %d callbacks, %s", r.Bye, r.Exit)
	}
	o.NTIf(good > 0 && bad > 0)
	o.LabelIf(h.Together, "together")
	o.LabelIf(h.Chain, "chain")
	o.LabelIf(len(h.Calls) > 100, "long")
	o.LabelIf(!h.Handler, "default-handler")
	return nil
}

func key(t *rapid.T) string {
	if fw.Chance(t, 1, 10, "rareparent") {
		return ref.RareParent().Text()
	}
	k := new(big.Int).SetBytes(fw.BytesN(t, fw.Pick(t, "kl", 32, 32, 31, 5), "k"))
	k.Mod(k, ref.N)
	if k.Sign() == 0 {
		k.SetInt64(1)
	}
	if rs := ref.RareSet["scalar"]; fw.Chance(t, 1, 8, "rare") {
		k = ref.RareScalar(rs[fw.Int(t, 0, len(rs)-1, "rarek")].N)
	}
	x := ref.XKey{Priv: true, Key: ref.B32Int(k), Chain: fw.BytesN(t, 32, "chain"), FP: fw.BytesN(t, 3, "fp"), Depth: fw.Int(t, 0, 5, "depth"), Num: uint32(fw.U64(t, "num"))}
	if fw.Chance(t, 1, 3, "pub") {
		x = x.Neuter()
	}
	if fw.Chance(t, 1, 12, "legacy") {
		return x.Legacy([]byte{0x63, 0x67, 0x1f})
	}
	return x.Text()
}

func number(t *rapid.T) Arg {
	return Arg{T: "num", N: fw.Pick(t, "n", float64(fw.Int(t, 0, 9, "s")), float64(fw.Int(t, 0, 9, "s")), float64(fw.Int(t, 0, 9, "s")), float64(fw.Int(t, 0, 2100, "m")), float64(fw.Int(t, 0, 2100, "m")), float64(fw.Int(t, 0, 2100, "m")), float64(fw.U64(t, "p")>>33), float64(fw.U64(t, "p")>>33), float64(int32(fw.U64(t, "a"))), 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, -1, -2147483648, -2147483649, 1e15, 0.5, 1e300, -1e300)}
}

func odd(t *rapid.T) Arg {
	switch fw.Int(t, 0, 4, "odd") {
	case 0:
		return number(t)
	case 1:
		return str(string(fw.Junk(t, "junk", 20)))
	}
	return Arg{T: fw.Pick(t, "oddtype", "nan", "inf", "undef", "null", "bool", "obj", "arr", "sym", "fn")}
}

func genCall(t *rapid.T, keys []string, one string) Call {
	c := Call{Fn: fw.Pick(t, "fn", fns...), Cb: true}
	if one != "" && fw.Chance(t, 7, 8, "again") {
		c.Fn = one
	}
	k := str(keys[fw.Int(t, 0, len(keys)-1, "key")])
	if fw.Chance(t, 1, 10, "broken") {
		b := []byte(k.S)
		b[fw.Int(t, 0, len(b)-1, "p")] = fw.Pick[byte](t, "c", 'a', 'b', '0', ' ', 'l')
		k = str(string(b))
	}
	lang := str(fw.Pick(t, "lang", "en", "en", "en", "EN", "xx", ""))
	switch c.Fn {
	case "newKey":
		c.Args = []Arg{str(base64.StdEncoding.EncodeToString(fw.Bytes(t, 15, 65, "seed")))}
	case "wordsToBytes":
		if fw.Chance(t, 1, 3, "default") {
			lang = Arg{T: "undef"}
		}
		w := ref.Phrase(fw.Data(t, 600, "data"))
		if fw.Chance(t, 1, 4, "wrong") && len(w) > 0 {
			w[fw.Int(t, 0, len(w)-1, "p")] = fw.Pick(t, "word", "zoo", "abandon", "nope", "", "Zoo")
		}
		c.Args = []Arg{lang, str(strings.Join(w, " "))}
	case "deriveFrom":
		p := fw.Pick(t, "pp", "/", "/1", "/44'/20036'")
		q := p
		if q == "/" {
			q = ""
		}
		c.Args = []Arg{k, str(p), str(q + fw.Pick(t, "cp", "/1", "/2/3", "/7'", "", "/x", "/1/2'/3", "/2147483648", "//"))}
	case "ndauAddress", "toPublic", "isPrivate", "fromString":
		c.Args = []Arg{k}
	case "child", "hardenedChild":
		c.Args = []Arg{k, number(t)}
	case "sign":
		m := base64.StdEncoding.EncodeToString(fw.Data(t, 1<<17, "msg"))
		if fw.Chance(t, 1, 6, "notb64") {
			m += "!"
		}
		c.Args = []Arg{k, str(m)}
	case "wordsFromPrefix":
		w := ref.Words[fw.Int(t, 0, 2047, "w")]
		c.Args = []Arg{lang, str(w[:fw.Int(t, 0, len(w), "cut")]), number(t)}
	case "wordsFromBytes":
		c.Args = []Arg{lang, str(base64.StdEncoding.EncodeToString(fw.Data(t, 600, "data")))}
	}
	switch fw.Int(t, 0, 19, "shape") {
	case 0: // too many
		c.Args = append(c.Args, odd(t))
	case 1: // too few
		c.Args = c.Args[:fw.Int(t, 0, len(c.Args)-1, "few")]
	case 2: // no callback
		c.Cb = false
	case 3: // nothing at all
		c.Cb, c.Args = false, nil
	case 4: // the callback is not the last
		c.Tail = []Arg{odd(t)}
	case 5, 6: // a mistyped argument
		c.Args[fw.Int(t, 0, len(c.Args)-1, "which")] = odd(t)
	}
	return c
}

func c23() fw.Property {
	return fw.Property{
		ID:   "C23",
		Rule: "a history with at least one successful and one refused call",
		Assumptions: []string{
			"the module is built with go build for js/wasm and run under node with the toolchain's own wasm_exec.js",
			"BigInt arguments and fractional or non-finite child indexes are not judged; callbacks which throw are C46's",
		},
		Subs: []fw.Sub{
			fw.NoNear(fw.Prop("histories", 1600, 40000, func(t *rapid.T) History { return history(t, fw.Int(t, 1, 30, "calls")) }, judge)),
			// limits, leaks and every-so-many-th calls show only in long histories
			fw.Heavy(fw.NoNear(fw.Prop("long", 16, 400, func(t *rapid.T) History { return history(t, fw.Int(t, 150, 700, "many")) }, judge))),
			// one function many times, then another
			fw.Heavy(fw.NoNear(fw.Prop("runs", 16, 400, func(t *rapid.T) History {
				h := history(t, 1)
				var keys []string
				for n := fw.Int(t, 1, 2, "keys"); n > 0; n-- {
					keys = append(keys, key(t))
				}
				for r := 0; r < 2; r++ {
					one := fw.Pick(t, "runfn", fns...)
					for n := fw.Int(t, 150, 300, "run"); n > 0; n-- {
						h.Calls = append(h.Calls, genCall(t, keys, one))
					}
				}
				return h
			}, judge))),
		},
	}
}

func history(t *rapid.T, calls int) History {
	h := History{Handler: fw.Chance(t, 3, 4, "handler"), Level: fw.Pick(t, "level", "", "D", "I", "E"), Together: fw.Chance(t, 1, 3, "together")}
	if !h.Together && fw.Chance(t, 1, 3, "chain") {
		h.Chain = true
	}
	var keys []string
	for n := fw.Int(t, 1, 2, "keys"); n > 0; n-- {
		keys = append(keys, key(t))
	}
	// mostly one function, or all of them
	one := ""
	if fw.Chance(t, 1, 4, "one") {
		one = fw.Pick(t, "onefn", fns...)
	}
	for n := calls; n > 0; n-- {
		c := genCall(t, keys, one)
		if fw.Chance(t, 1, 16, "newlevel") {
			c.Level = fw.Pick(t, "callevel", "D", "I", "E", "-", "X")
		}
		h.Calls = append(h.Calls, c)
	}
	return h
}
