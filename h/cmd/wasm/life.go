package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verif/h/fw"
)

// C46: loading and ending the module, and what its application does wrong.

// LifeOp is something an application does.
type LifeOp struct {
	Op    string // level handler load call exit
	V     string `json:",omitempty"` // the new level or handler
	Inst  int    `json:",omitempty"` // which of the modules loaded so far, modulo their number
	Call  *Call  `json:",omitempty"`
	Cb    bool   `json:",omitempty"` // exit: with a callback
	Args  []Arg  `json:",omitempty"` // exit: surplus arguments
	Throw string `json:",omitempty"` // the callback throws: error null text
}

type lifeCase struct{ Ops []LifeOp }

type lifeStep struct {
	N, Lines, One, Two, Throws                int
	Err, ErrKind, Res, ResKind, Throw, Consts string
	Text, Handler, Level                      string
	Fns, Ended                                []string
}

var published = func() []string {
	var out []string
	for _, f := range []string{"child", "deriveFrom", "exit", "fromString", "hardenedChild", "isPrivate", "ndauAddress", "newKey", "sign", "toPublic", "wordsFromBytes", "wordsFromPrefix", "wordsToBytes"} {
		out = append(out, f+" function")
	}
	return out
}()

func judgeLife(c lifeCase, o *fw.Obs) error {
	// the model: levels, handlers, and which modules run
	level, handler := "undef", "undef"
	shown := map[string]string{"undef": "undefined undefined", "null": "null null", "empty": "string "}
	var run []bool
	ops := make([]LifeOp, 0, len(c.Ops))
	for _, op := range c.Ops {
		if op.Op == "call" || op.Op == "exit" {
			// only modules which run are called
			var live []int
			for i, r := range run {
				if r {
					live = append(live, i)
				}
			}
			if len(live) == 0 {
				continue
			}
			op.Inst = live[op.Inst%len(live)]
			if op.Op == "call" && op.Call == nil {
				continue
			}
		}
		switch {
		case op.Op == "load":
			run = append(run, true)
		case op.Op == "exit" && op.Cb && len(op.Args) == 0:
			run[op.Inst] = false
		}
		ops = append(ops, op)
	}
	if len(ops) == 0 {
		return nil
	}
	line, broken := converse(lifeCase{ops})
	var r struct {
		Steps  []lifeStep
		Broken string
	}
	if broken == "" {
		if err := json.Unmarshal(line, &r); err != nil {
			panic(err)
		}
		broken = r.Broken
	}
	if broken != "" {
		if proc != nil {
			proc.stop()
			proc = nil
		}
		return fw.Errf("the module broke its host: %s", broken)
	}
	run = run[:0]
	trouble, answered := 0, 0
	var err error
	for i, op := range ops {
		s := r.Steps[i]
		oj, _ := json.Marshal(op)
		fail := func(f string, a ...any) error {
			return fw.Errf("step %d %s: %s", i, oj, fmt.Sprintf(f, a...))
		}
		// what the handler of the moment is to be told
		told := func(want bool) error {
			one, two, throws := 0, 0, 0
			if want {
				trouble++
				o.Label("report-" + handler)
				switch handler {
				case "one":
					one = 1
				case "two":
					two = 1
				case "throws":
					throws = 1
				}
				if one+two > 0 && (!strings.HasPrefix(s.Text, "1string") || len(s.Text) < 12) {
					return fail("the error handler is given %q", s.Text)
				}
				if one+two == 0 && s.Lines == 0 {
					return fail("nothing on the console, although the handler is %s", handler)
				}
			}
			if s.One != one || s.Two != two || s.Throws != throws {
				return fail("reports to the handlers one, two, throws: %d, %d, %d; want %d, %d, %d", s.One, s.Two, s.Throws, one, two, throws)
			}
			return nil
		}
		switch op.Op {
		case "level":
			level = op.V
		case "handler":
			handler = op.V
		case "load":
			run = append(run, true)
			if strings.Join(s.Fns, ",") != strings.Join(published, ",") {
				return fail("the module publishes %v", s.Fns)
			}
			if s.Consts != "stringD stringI stringE" {
				return fail("the levels are %s", s.Consts)
			}
			if level == "undef" {
				level = "I"
			}
			switch handler {
			case "undef", "null", "zero":
				handler = "other function"
			}
		case "exit":
			good := op.Cb && len(op.Args) == 0
			if good {
				run[op.Inst] = false
				o.Label("exit")
				if s.N != 1 || s.ErrKind != "null" {
					return fail("exit called back %d times, error %s %q", s.N, s.ErrKind, s.Err)
				}
				break
			}
			o.Label("bad-exit")
			trouble++
			if op.Cb && (s.N != 1 || s.ErrKind == "null" || s.ErrKind == "undefined") {
				return fail("exit with wrong arguments called back %d times, error %s %q", s.N, s.ErrKind, s.Err)
			}
			err = told(!op.Cb || op.Throw != "")
		case "call":
			if s.Throw != "" {
				return fail("threw %s", s.Throw)
			}
			if !op.Call.Cb {
				if s.N != 0 {
					return fail("called back %d times", s.N)
				}
				if n := len(op.Call.Args); n == 0 || op.Call.Args[n-1].T != "fn" {
					err = told(true)
				}
				break
			}
			if s.N != 1 {
				return fail("called back %d times; modules: %q", s.N, s.Ended)
			}
			o.LabelIf(op.Throw != "", "throw-"+op.Throw)
			if err = told(op.Throw != ""); err != nil {
				break
			}
			if len(op.Call.Args) != nargs[op.Call.Fn] {
				if s.ErrKind == "null" || s.ErrKind == "undefined" {
					return fail("gives %q", s.Res)
				}
				break
			}
			want, kind, werr, sure := library(*op.Call)
			switch {
			case !sure:
			case werr != nil:
				if s.ErrKind == "null" || s.ErrKind == "undefined" {
					return fail("gives %q, the library %v", s.Res, werr)
				}
			case s.ErrKind != "null" || s.Res != want || s.ResKind != kind:
				return fail("gives error %s %q, result %s %q; the library %q", s.ErrKind, s.Err, s.ResKind, s.Res, want)
			default:
				answered++
			}
		}
		if err != nil {
			return err
		}
		want, ok := shown[level]
		if !ok {
			want = "string " + level
		}
		if s.Level != want {
			return fail("the log level is %q, want %q", s.Level, want)
		}
		if s.Handler != handler {
			return fail("the error handler is %q, want %q", s.Handler, handler)
		}
		for j, alive := range run {
			if e := s.Ended[j]; alive && e != "" {
				return fail("module %d ended: %s", j, e)
			} else if !alive && e != "ended" && e != "exit code 0" {
				return fail("module %d is to have ended: %q", j, e)
			}
		}
	}
	o.NTIf(trouble > 0 && answered > 0)
	o.LabelIf(len(run) > 1, "several-modules")
	return nil
}

func c46() fw.Property {
	gen := func(t *rapid.T) lifeCase {
		keys := []string{key(t)}
		var c lifeCase
		set := func() {
			if fw.Chance(t, 1, 3, "lv?") {
				c.Ops = append(c.Ops, LifeOp{Op: "level", V: fw.Pick(t, "lv", "undef", "null", "empty", "D", "I", "E", "X")})
			} else {
				c.Ops = append(c.Ops, LifeOp{Op: "handler", V: fw.Pick(t, "h", "undef", "null", "zero", "one", "one", "two", "two", "throws")})
			}
		}
		for n := fw.Int(t, 0, 2, "before"); n > 0; n-- {
			set()
		}
		c.Ops = append(c.Ops, LifeOp{Op: "load"})
		loads := 1
		for n := fw.Int(t, 1, 14, "ops"); n > 0; n-- {
			switch k := fw.Int(t, 0, 15, "what"); {
			case k == 0 && loads < 4:
				c.Ops = append(c.Ops, LifeOp{Op: "load"})
				loads++
			case k == 1:
				op := LifeOp{Op: "exit", Inst: fw.Int(t, 0, 3, "inst"), Cb: fw.Chance(t, 3, 4, "cb")}
				if fw.Chance(t, 1, 3, "surplus") {
					op.Args = []Arg{str("now")}
					op.Throw = fw.Pick(t, "throw", "", "", "error", "null", "text")
				}
				c.Ops = append(c.Ops, op)
				if fw.Chance(t, 1, 2, "reload") && loads < 4 {
					c.Ops = append(c.Ops, LifeOp{Op: "load"})
					loads++
				}
			case k <= 4:
				set()
			default:
				call := genCall(t, keys, "")
				call.Tail, call.Level = nil, ""
				op := LifeOp{Op: "call", Inst: fw.Int(t, 0, 3, "inst"), Call: &call}
				if fw.Chance(t, 1, 4, "throws") {
					op.Throw = fw.Pick(t, "throw", "error", "error", "null", "text")
				}
				c.Ops = append(c.Ops, op)
			}
		}
		return c
	}
	return fw.Property{
		ID:   "C46",
		Rule: "a life with at least one call answered as the library does and one report, throwing callback or bad exit",
		Assumptions: []string{
			"the module is built with go build for js/wasm and run under node with the toolchain's own wasm_exec.js",
			"an exit whose callback throws, and calls of a module which has ended, are not judged",
		},
		Subs: []fw.Sub{fw.NoNear(fw.Prop("lives", 1200, 30000, gen, judgeLife))},
	}
}
