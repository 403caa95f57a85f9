package fw

import (
	"bytes"
	_ "embed"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// The dictionary steers generation, as a fuzzer's dictionary does: lengths,
// bytes, numbers and texts which the code under test mentions are drawn more
// often than chance would have them. Constants which the committed list
// (literals.txt, written by tools/literals) does not have, that is, those
// that a change brought in, are preferred. It never takes part in deciding a
// case.

//go:embed literals.txt
var baseLiterals string

type dictionary struct {
	ints, freshInts []uint64
	strs, freshStrs []string
}

var dict dictionary

// Literals counts the constants in the Go sources under root, as
// "package<TAB>value" with value in the form i<number> or s<quoted>.
func Literals(root string) map[string]int {
	out := map[string]int{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil || bytes.Contains(src[:min(len(src), 300)], []byte("DO NOT EDIT")) {
			return nil
		}
		f, _ := parser.ParseFile(token.NewFileSet(), p, src, parser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		pkg, _ := filepath.Rel(root, filepath.Dir(p))
		add := func(v constant.Value) {
			switch v.Kind() {
			case constant.Int, constant.Float:
				if i := constant.ToInt(v); i.Kind() == constant.Int {
					if u, ok := constant.Uint64Val(i); ok {
						out[pkg+"\ti"+strconv.FormatUint(u, 10)]++
					} else if n, ok := constant.Int64Val(i); ok {
						out[pkg+"\ti"+strconv.FormatUint(uint64(n), 10)]++
					}
				}
			case constant.String:
				if s := constant.StringVal(v); len(s) > 0 && len(s) <= 64 {
					out[pkg+"\ts"+strconv.Quote(s)]++
				}
			}
		}
		var eval func(e ast.Expr) constant.Value
		eval = func(e ast.Expr) (v constant.Value) {
			defer func() {
				if recover() != nil {
					v = nil
				}
			}()
			switch x := e.(type) {
			case *ast.BasicLit:
				return constant.MakeFromLiteral(x.Value, x.Kind, 0)
			case *ast.ParenExpr:
				return eval(x.X)
			case *ast.UnaryExpr:
				if a := eval(x.X); a != nil && x.Op == token.SUB {
					return constant.UnaryOp(x.Op, a, 0)
				}
			case *ast.BinaryExpr:
				a, b := eval(x.X), eval(x.Y)
				if a == nil || b == nil {
					return nil
				}
				switch x.Op {
				case token.SHL, token.SHR:
					n, ok := constant.Uint64Val(b)
					if !ok || n > 64 {
						return nil
					}
					return constant.Shift(a, x.Op, uint(n))
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
					return constant.BinaryOp(a, x.Op, b)
				}
			}
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				if len(x.Elts) > 64 {
					return false
				}
			case *ast.CallExpr:
				// error texts
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					switch s.Sel.Name {
					case "Errorf", "New", "Wrap", "Wrapf", "Printf", "Println", "Sprintf", "Fatal", "newError":
						return false
					}
				}
			case ast.Expr:
				if v := eval(x); v != nil && v.Kind() != constant.Unknown {
					add(v)
				}
			}
			return true
		})
		return nil
	})
	return out
}

// FormatLiterals is the form of literals.txt.
func FormatLiterals(m map[string]int) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		b.WriteString(k + "\t" + strconv.Itoa(m[k]) + "\n")
	}
	return b.String()
}

// LoadDict reads the constants of /repo. Only the packages a check is about
// need be named.
func loadDict(pkgs []string) {
	cur := Literals("/repo")
	base := map[string]int{}
	for _, l := range strings.Split(baseLiterals, "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 3 {
			base[f[0]+"\t"+f[1]], _ = strconv.Atoi(f[2])
		}
	}
	dict = dictionary{}
	all := map[string]bool{}
	fresh := map[string]bool{}
	for k, n := range cur {
		pkg, v, _ := strings.Cut(k, "\t")
		if n > base[k] {
			fresh[v] = true
			all[v] = true
		}
		for _, p := range pkgs {
			if p == pkg {
				all[v] = true
			}
		}
	}
	split := func(m map[string]bool) (is []uint64, ss []string) {
		for v := range m {
			if v[0] == 'i' {
				u, _ := strconv.ParseUint(v[1:], 10, 64)
				is = append(is, u)
			} else if s, err := strconv.Unquote(v[1:]); err == nil {
				ss = append(ss, s)
			}
		}
		sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
		sort.Strings(ss)
		return
	}
	dict.ints, dict.strs = split(all)
	dict.freshInts, dict.freshStrs = split(fresh)
}

// what the case being drawn prefers
var favour struct {
	on   bool
	ints []uint64
	strs []string
}

// beginCase decides whether the case about to be drawn favours a few entries
// of the dictionary.
func beginCase(t *rapid.T) {
	favour.on = false
	favour.ints = favour.ints[:0]
	favour.strs = favour.strs[:0]
	if len(dict.ints) == 0 {
		return
	}
	fresh := len(dict.freshInts)+len(dict.freshStrs) > 0
	switch m := uniform(t, 16, "directed"); {
	case fresh && m >= 8:
		fill(t, dict.freshInts, dict.freshStrs)
	case m >= 6 && m < 8:
		fill(t, dict.ints, dict.strs)
	}
}

func fill(t *rapid.T, is []uint64, ss []string) {
	favour.on = true
	for k := 0; k < 3; k++ {
		if len(is) > 0 {
			favour.ints = append(favour.ints, is[uniform(t, len(is), "favourite")])
		}
		if len(ss) > 0 && k < 2 {
			favour.strs = append(favour.strs, ss[uniform(t, len(ss), "favoured")])
		}
	}
}

// favoured draws one of the favoured numbers, perhaps a neighbour of it.
func favoured(t *rapid.T) (uint64, bool) {
	if !favour.on || len(favour.ints) == 0 || uniform(t, 4, "fav?") != 3 {
		return 0, false
	}
	v := favour.ints[uniform(t, len(favour.ints), "fav")]
	switch uniform(t, 8, "fav±") {
	case 5:
		v--
	case 6:
		v++
	}
	return v, true
}

// Favoured is for generators of numbers which do not use Word.
func Favoured(t *rapid.T) (uint64, bool) { return favoured(t) }

// favouredIn draws a favoured number in lo..hi.
func favouredIn(t *rapid.T, lo, hi int) (int, bool) {
	v, ok := favoured(t)
	if ok && v <= math.MaxInt64 && int(v) >= lo && int(v) <= hi {
		return int(v), true
	}
	return 0, false
}

// favouredBytes puts a favoured number or text somewhere into b.
func favouredBytes(t *rapid.T, b []byte) {
	if !favour.on || len(b) == 0 {
		return
	}
	for k := uniform(t, 4, "favs"); k > 0; k-- {
		var w []byte
		if len(favour.strs) > 0 && uniform(t, 3, "favs?") == 2 {
			w = []byte(favour.strs[uniform(t, len(favour.strs), "fav")])
		} else if len(favour.ints) > 0 {
			v := favour.ints[uniform(t, len(favour.ints), "fav")]
			w = []byte{byte(v)}
			if v > 255 && uniform(t, 2, "wide") == 1 {
				w = w[:0]
				for x := v; x > 0; x >>= 8 {
					w = append([]byte{byte(x)}, w...)
				}
			}
		}
		at := 0
		switch uniform(t, 4, "favat?") {
		case 0:
		case 1:
			at = max(0, len(b)-len(w))
		default:
			at = uniform(t, len(b), "favat")
		}
		copy(b[at:], w)
	}
}

var sourceText = sync.OnceValue(func() string {
	var b strings.Builder
	for k := range Literals("/repo") {
		_, v, _ := strings.Cut(k, "\t")
		if s, err := strconv.Unquote(v[1:]); v[0] == 's' && err == nil {
			b.WriteString(s + "\x00")
		}
	}
	return b.String()
})

// InSource says whether a text is part of one which the sources have, so that
// a message may have it without telling anything.
func InSource(w string) bool { return strings.Contains(sourceText(), w) }
