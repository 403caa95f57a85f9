package fw

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

// A judge looks at one case at a time. Code which remembers something between
// calls (a cache keyed on too little, a buffer which is reused, a value worked
// out once) is wrong about a case only after another one which is like it in
// the part that is remembered and unlike it in the rest. So every generated
// sub-check has a second one, whose cases are short histories: a case, some
// relatives of it, and the first again. A relative differs in one or in all but
// one of the parts of the case, which come from another case or are altered a
// little. The history is the case, so that a failure replays on its own.
type near struct {
	Cases []json.RawMessage
}

type nearMode int

const (
	nearAll   nearMode = iota
	nearCross          // parts of other cases only, none altered
	nearPlain          // whole cases only
	nearNone
)

// CrossOnly marks a sub-check whose judge is not made for altered parts.
func CrossOnly(s Sub) Sub { s.near = nearCross; return s }

// PlainOnly marks a sub-check whose judge needs cases as they were generated.
func PlainOnly(s Sub) Sub { s.near = nearPlain; return s }

// NoNear marks a sub-check whose cases are long histories already.
func NoNear(s Sub) Sub { s.near = nearNone; return s }

// Fit gives a sub-check what brings altered cases into its judge's domain. It
// answers false for those which cannot be.
func Fit[C any](s Sub, fit func(c *C) bool) Sub {
	s.fit = func(v any) (any, bool) {
		c := v.(C)
		ok := fit(&c)
		return c, ok
	}
	return s
}

const nearShare = 14

func expand(subs []Sub) []Sub {
	var out []Sub
	for _, s := range subs {
		out = append(out, s)
		if s.draw != nil && s.near != nearNone {
			out = append(out, nearOf(s))
		}
	}
	return out
}

func nearOf(s Sub) Sub {
	return Sub{
		Name: s.Name + "~near", Quick: max(1, s.Quick/nearShare), Thorough: max(1, s.Thorough/nearShare),
		Heavy: s.Heavy || s.Quick >= 400,
		draw: func(t *rapid.T) any {
			a := s.draw(t)
			b := s.draw(t)
			out := near{}
			put := func(c any) {
				j, err := json.Marshal(c)
				if err != nil {
					panic(err)
				}
				out.Cases = append(out.Cases, j)
			}
			put(a)
			for k := uniform(t, 3, "relatives"); k >= 0; k-- {
				put(relative(t, s, a, b))
			}
			return out
		},
		judge: func(c any, o *Obs) error {
			n := c.(near)
			at := make([]any, len(n.Cases))
			for i, j := range n.Cases {
				v, err := s.parse(j)
				if err != nil {
					return nil // only in replays edited by hand
				}
				at[i] = v
			}
			for i := 0; i <= len(at); i++ {
				k := i % len(at)
				if i == len(at) {
					// judges may change what they are given
					v, _ := s.parse(n.Cases[0])
					at[0] = v
				}
				err := Catch(func() error { return s.judge(at[k], o) })
				if k > 0 && outsideDomain(err) {
					// the judge is not made for this relative
					o.Label("near: a relative which the judge does not take")
					continue
				}
				if err != nil {
					return fmt.Errorf("at case %d of the history: %w", i+1, err)
				}
			}
			o.extra += len(at)
			return nil
		},
		parse: func(b []byte) (any, error) {
			var c near
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
}

// outsideDomain says whether a panic comes from the judge itself.
func outsideDomain(err error) bool {
	p, ok := err.(*Panic)
	if !ok {
		return false
	}
	for i, l := range strings.Split(p.Stack, "\n") {
		if i == 0 { // the recovery
			continue
		}
		if strings.Contains(l, "ndau/ndaumath/") || strings.Contains(l, "/repo/") {
			return false
		}
		if strings.Contains(l, "/verif/h/") {
			return true
		}
	}
	return false
}

// leaf is a part of a case.
type leaf struct {
	path string
	v    reflect.Value
}

func leaves(v reflect.Value, path string, out []leaf) []leaf {
	if len(out) > 200 {
		return out
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			return leaves(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out = leaves(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(out, leaf{path, v})
		}
		for i := 0; i < v.Len(); i++ {
			out = leaves(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(out, leaf{path, v})
		}
		for i := 0; i < v.Len(); i++ {
			out = leaves(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		out = append(out, leaf{path, v})
	}
	return out
}

// fresh is an addressable deep copy.
func fresh(s Sub, c any) reflect.Value {
	j, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	x, err := s.parse(j)
	if err != nil {
		panic(err)
	}
	p := reflect.New(reflect.TypeOf(x))
	p.Elem().Set(reflect.ValueOf(x))
	return p.Elem()
}

func relative(t *rapid.T, s Sub, a, b any) any {
	if s.near == nearPlain {
		return Pick(t, "which", a, b)
	}
	c := relative0(t, s, a, b)
	if s.fit != nil {
		f, ok := s.fit(c)
		if !ok {
			return b
		}
		return f
	}
	return c
}

func relative0(t *rapid.T, s Sub, a, b any) any {
	x, y := fresh(s, a), fresh(s, b)
	xl, yl := leaves(x, "", nil), leaves(y, "", nil)
	if len(xl) == 0 {
		return b
	}
	at := map[string]leaf{}
	for _, l := range yl {
		at[l.path] = l
	}
	take := func(i int) {
		if m, ok := at[xl[i].path]; ok && m.v.Type() == xl[i].v.Type() && xl[i].v.CanSet() {
			xl[i].v.Set(m.v)
		}
	}
	i := uniform(t, len(xl), "part")
	k := uniform(t, 16, "relation")
	if s.near == nearCross {
		k %= 8
	}
	switch {
	case k < 4: // one part of the other
		take(i)
	case k < 6: // all but one
		for j := range xl {
			if j != i {
				take(j)
			}
		}
	case k < 7: // each with even chances
		for j := range xl {
			if boolGen.Draw(t, "take") {
				take(j)
			}
		}
	case k < 8:
		return b
	case k < 9: // two parts alike
		if j := uniform(t, len(xl), "part"); xl[j].v.Type() == xl[i].v.Type() && xl[i].v.CanSet() && xl[i].v.Type().PkgPath() != "" {
			xl[i].v.Set(xl[j].v)
		}
	default:
		alter(t, xl[i].v)
	}
	return x.Interface()
}

func alter(t *rapid.T, v reflect.Value) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		v.SetBytes(alterBytes(t, v.Bytes()))
	case reflect.Array:
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		b = alterBytes(t, b)
		reflect.Copy(v, reflect.ValueOf(b))
	case reflect.String:
		if v.Type().Name() == "Str" {
			v.SetString(string(alterBytes(t, []byte(v.String()))))
		}
	case reflect.Int64:
		if v.Type().Name() == "I" {
			x := uint64(v.Int())
			v.SetInt(int64(alterWord(t, x)))
		}
	case reflect.Uint64:
		if v.Type().Name() == "U" {
			v.SetUint(alterWord(t, v.Uint()))
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

func alterWord(t *rapid.T, x uint64) uint64 {
	switch uniform(t, 6, "how") {
	case 0:
		return x + 1
	case 1:
		return x - 1
	case 2:
		return x ^ 1<<uint(uniform(t, 64, "bit"))
	case 3:
		return -x
	case 4: // the low half, or the high half, of something else
		return x ^ uint64(rapid.Uint32().Draw(t, "low"))
	}
	return x ^ uint64(rapid.Uint32().Draw(t, "high"))<<32
}

func alterBytes(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n := len(b)
	if n == 0 {
		return append(b, rapid.Byte().Draw(t, "b"))
	}
	i := uniform(t, n, "i")
	switch uniform(t, 15, "how") {
	case 12: // the same bytes in another order
		j := uniform(t, n, "j")
		b[i], b[j] = b[j], b[i]
	case 13: // the same sum
		j := uniform(t, n, "j")
		b[i]++
		b[j]--
	case 14: // the same parity
		j, m := uniform(t, n, "j"), byte(1)<<uint(uniform(t, 8, "bit"))
		b[i] ^= m
		b[j] ^= m
	case 0, 1:
		b[i] ^= 1 << uint(uniform(t, 8, "bit"))
	case 2:
		b[i] = rapid.Byte().Draw(t, "b")
	case 3:
		b[n-1] ^= 1 << uint(uniform(t, 8, "bit"))
	case 4:
		b[0] ^= 1 << uint(uniform(t, 8, "bit"))
	case 5: // the same letter in the other case
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
			b[i] ^= 0x20
		} else {
			b[i]++
		}
	case 6:
		b = b[:n-1]
	case 7:
		b = append(b, rapid.Byte().Draw(t, "b"))
	case 8:
		b[i], b[n-1-i] = b[n-1-i], b[i]
	case 9: // the same beginning
		for k := n / 2; k < n; k++ {
			b[k] ^= rapid.Byte().Draw(t, "b")
		}
	case 10: // the same end
		for k := 0; k < (n+1)/2; k++ {
			b[k] ^= rapid.Byte().Draw(t, "b")
		}
	case 11:
		b = b[1:]
	}
	return b
}
