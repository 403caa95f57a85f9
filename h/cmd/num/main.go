// Command num decides C24, C25 and C26: 64-bit arithmetic, exponentials and
// integer logarithms against math/big.
package main

import (
	"errors"
	"math"
	"math/big"
	"strconv"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"pgregory.net/rapid"
	"verif/h/fw"
)

func main() {
	fw.Packages = []string{"pkg/signed", "pkg/unsigned"}
	fw.Main(c24, c25, c26)
}

// U and I are numbers which survive JSON.
type U uint64

func (u U) MarshalText() ([]byte, error) { return strconv.AppendUint(nil, uint64(u), 10), nil }
func (u *U) UnmarshalText(t []byte) error {
	v, err := strconv.ParseUint(string(t), 10, 64)
	*u = U(v)
	return err
}

type I int64

func (u I) MarshalText() ([]byte, error) { return strconv.AppendInt(nil, int64(u), 10), nil }
func (u *I) UnmarshalText(t []byte) error {
	v, err := strconv.ParseInt(string(t), 10, 64)
	*u = I(v)
	return err
}

// word draws a 64-bit pattern: uniform in length, edges, powers and round
// numbers.
func word(t *rapid.T, label string) uint64 {
	v := fw.U64(t, label)
	if f, ok := fw.Favoured(t); ok {
		return f
	}
	switch fw.Int(t, 0, 7, label+"?") {
	case 0:
		return fw.Pick[uint64](t, label+"e", 0, 1, 2, 3, 10, math.MaxInt64, math.MaxInt64-1, 1<<63, 1<<63+1, math.MaxUint64, math.MaxUint64-1, math.MaxUint32, 1<<32, 1<<31, 1e8, 1e10)
	case 1:
		return uint64(1)<<uint(fw.Int(t, 0, 63, label+"b")) + uint64(fw.Int(t, 0, 4, label+"o")) - 2
	case 2:
		p := uint64(1)
		for n := fw.Int(t, 0, 19, label+"d"); n > 0; n-- {
			p *= 10
		}
		return p*uint64(fw.Int(t, 1, 9, label+"m")) + uint64(fw.Int(t, 0, 2, label+"o")) - 1
	case 3:
		return uint64(fw.Int(t, 0, 100, label+"s"))
	case 4:
		return v
	}
	return v >> uint(fw.Int(t, 0, 63, label+"sh"))
}

// near makes b related to a (and d related to both), so that quotients and
// products land next to whole numbers and next to the limits.
func near(t *rapid.T, signedRange bool) (a, b, d uint64) {
	a, b, d = word(t, "a"), word(t, "b"), word(t, "d")
	lim := new(big.Int).SetUint64(math.MaxUint64)
	if signedRange {
		lim.SetUint64(math.MaxInt64)
	}
	off := uint64(fw.Int(t, 0, 4, "off")) - 2
	div := func(x *big.Int, y uint64) uint64 {
		if y == 0 {
			return 0
		}
		return new(big.Int).Quo(x, new(big.Int).SetUint64(y)).Uint64()
	}
	mag := func(x uint64) uint64 {
		if signedRange && int64(x) < 0 {
			return -x
		}
		return x
	}
	switch fw.Int(t, 0, 7, "rel") {
	case 0:
		b = a + off
	case 1: // a+b or a-b near the limit
		b = lim.Uint64() - a + off
	case 2: // a*b near the limit
		b = div(lim, mag(a)) + off
	case 3: // b divides a, nearly
		a = b*(word(t, "q")>>32) + off
	case 4, 5: // a*b/d near the limit
		p := new(big.Int).Mul(new(big.Int).SetUint64(mag(a)), new(big.Int).SetUint64(mag(b)))
		d = new(big.Int).Quo(p, lim).Uint64() + off
	case 6: // a*b/d near a whole number
		p := new(big.Int).Mul(new(big.Int).SetUint64(mag(a)), new(big.Int).SetUint64(mag(b)))
		if d != 0 {
			q := new(big.Int).Quo(p, new(big.Int).SetUint64(mag(d)))
			if q.Sign() > 0 {
				d = new(big.Int).Quo(p, q).Uint64() + off
			}
		}
	}
	if signedRange && fw.Chance(t, 1, 2, "flip") {
		switch fw.Int(t, 0, 2, "which") {
		case 0:
			a = -a
		case 1:
			b = -b
		case 2:
			d = -d
		}
	}
	if fw.Chance(t, 1, 30, "zero") {
		b = 0
	}
	if fw.Chance(t, 1, 30, "zero d") {
		d = 0
	}
	return
}

func c24() fw.Property {
	type tri struct{ A, B, D U }
	bu := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	judge := func(c tri, o *fw.Obs) error {
		a, b, d := uint64(c.A), uint64(c.B), uint64(c.D)
		chk := func(op string, got uint64, err error, want *big.Int) error {
			if want.IsUint64() {
				if err != nil || got != want.Uint64() {
					return fw.Errf("%s = %d, %v; want %v", op, got, err, want)
				}
				return nil
			}
			o.Label("overflow-" + op)
			if !errors.Is(err, ndauerr.ErrOverflow) {
				return fw.Errf("%s = %d, %v; want overflow", op, got, err)
			}
			return nil
		}
		r, err := unsigned.Add(a, b)
		if e := chk("Add(A,B)", r, err, new(big.Int).Add(bu(a), bu(b))); e != nil {
			return e
		}
		r, err = unsigned.Sub(a, b)
		if e := chk("Sub(A,B)", r, err, new(big.Int).Sub(bu(a), bu(b))); e != nil {
			return e
		}
		r, err = unsigned.Mul(a, b)
		p := new(big.Int).Mul(bu(a), bu(b))
		if e := chk("Mul(A,B)", r, err, p); e != nil {
			return e
		}
		o.NTIf(p.BitLen() > 64)
		q, qe := unsigned.Div(a, b)
		m, me := unsigned.Mod(a, b)
		dq, dm, de := unsigned.DivMod(a, b)
		if b == 0 {
			o.Label("zero-divisor")
			for _, e := range []error{qe, me, de} {
				if !errors.Is(e, ndauerr.ErrDivideByZero) {
					return fw.Errf("division by zero gives %v", e)
				}
			}
		} else {
			bq, bm := new(big.Int).QuoRem(bu(a), bu(b), new(big.Int))
			if e := chk("Div(A,B)", q, qe, bq); e != nil {
				return e
			}
			if e := chk("Mod(A,B)", m, me, bm); e != nil {
				return e
			}
			if e := chk("DivMod(A,B)#1", dq, de, bq); e != nil {
				return e
			}
			if e := chk("DivMod(A,B)#2", dm, de, bm); e != nil {
				return e
			}
		}
		r, err = unsigned.MulDiv(a, b, d)
		if d == 0 {
			if !errors.Is(err, ndauerr.ErrDivideByZero) {
				return fw.Errf("MulDiv by zero gives %v", err)
			}
			return nil
		}
		return chk("MulDiv(A,B,D)", r, err, new(big.Int).Quo(p, bu(d)))
	}
	return fw.Property{
		ID:          "C24",
		Rule:        "operands whose full product does not fit in 64 bits",
		Assumptions: []string{"the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline"},
		Subs: []fw.Sub{fw.Prop("operands", 3000000, 30000000, func(t *rapid.T) tri {
			a, b, d := near(t, false)
			return tri{U(a), U(b), U(d)}
		}, judge),
			fw.Enum("edges", func() []tri {
				var out []tri
				es := []U{0, 1, 2, 3, 10, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, math.MaxUint64}
				for _, a := range es {
					for _, b := range es {
						for _, d := range es {
							out = append(out, tri{a, b, d})
						}
					}
				}
				return out
			}, judge)},
	}
}

func c25() fw.Property {
	type tri struct{ A, B, D I }
	judge := func(c tri, o *fw.Obs) error {
		a, b, d := int64(c.A), int64(c.B), int64(c.D)
		chk := func(op string, got int64, err error, want *big.Int, ovf bool) error {
			if want.IsInt64() {
				if err != nil || got != want.Int64() {
					return fw.Errf("%s = %d, %v; want %v", op, got, err, want)
				}
				return nil
			}
			o.Label("overflow-" + op)
			if err == nil || (ovf && !errors.Is(err, ndauerr.ErrOverflow)) {
				return fw.Errf("%s = %d, %v; want overflow", op, got, err)
			}
			return nil
		}
		r, err := signed.Add(a, b)
		if e := chk("Add(A,B)", r, err, new(big.Int).Add(big.NewInt(a), big.NewInt(b)), true); e != nil {
			return e
		}
		r, err = signed.Sub(a, b)
		if e := chk("Sub(A,B)", r, err, new(big.Int).Sub(big.NewInt(a), big.NewInt(b)), true); e != nil {
			return e
		}
		r, err = signed.Mul(a, b)
		p := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
		if e := chk("Mul(A,B)", r, err, p, true); e != nil {
			return e
		}
		o.NTIf(p.BitLen() > 63)
		o.LabelIf(a < 0 != (b < 0), "signs-differ")
		q, qe := signed.Div(a, b)
		m, me := signed.Mod(a, b)
		dq, dm, de := signed.DivMod(a, b)
		if b == 0 {
			o.Label("zero-divisor")
			for _, e := range []error{qe, me, de} {
				if !errors.Is(e, ndauerr.ErrDivideByZero) {
					return fw.Errf("division by zero gives %v", e)
				}
			}
		} else {
			bq, bm := new(big.Int).QuoRem(big.NewInt(a), big.NewInt(b), new(big.Int))
			if e := chk("Div(A,B)", q, qe, bq, false); e != nil {
				return e
			}
			if e := chk("Mod(A,B)", m, me, bm, false); e != nil {
				return e
			}
			if e := chk("DivMod(A,B)#1", dq, de, bq, false); e != nil {
				return e
			}
			if bq.IsInt64() {
				if e := chk("DivMod(A,B)#2", dm, de, bm, false); e != nil {
					return e
				}
			}
		}
		r, err = signed.MulDiv(a, b, d)
		if d == 0 {
			if !errors.Is(err, ndauerr.ErrDivideByZero) {
				return fw.Errf("MulDiv by zero gives %v", err)
			}
			return nil
		}
		return chk("MulDiv(A,B,D)", r, err, new(big.Int).Quo(p, big.NewInt(d)), true)
	}
	return fw.Property{
		ID:          "C25",
		Rule:        "operands whose full product does not fit in 64 bits",
		Assumptions: []string{"the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline"},
		Subs: []fw.Sub{fw.Prop("operands", 3000000, 30000000, func(t *rapid.T) tri {
			a, b, d := near(t, true)
			return tri{I(a), I(b), I(d)}
		}, judge),
			fw.Enum("edges", func() []tri {
				var out []tri
				es := []I{0, 1, -1, 2, -2, 10, -10, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}
				for _, a := range es {
					for _, b := range es {
						for _, d := range es {
							out = append(out, tri{a, b, d})
						}
					}
				}
				return out
			}, judge)},
	}
}

const fixBits = 96

// expFix is floor(2^96 * d * e^(n/d)), up to a few units.
func expFix(n, d uint64) *big.Int {
	term := new(big.Int).Lsh(new(big.Int).SetUint64(d), fixBits+40)
	sum := new(big.Int).Set(term)
	bn, bd := new(big.Int).SetUint64(n), new(big.Int).SetUint64(d)
	for i := int64(1); term.Sign() > 0; i++ {
		term.Mul(term, bn)
		term.Quo(term, bd)
		term.Quo(term, big.NewInt(i))
		sum.Add(sum, term)
	}
	return sum.Rsh(sum, 40)
}

// powersOfE are floor(e^k), from the exact series.
func powersOfE() []uint64 {
	var out []uint64
	for k := int64(0); k <= 44; k++ {
		const bits = 400
		term := new(big.Int).Lsh(big.NewInt(1), bits)
		sum := new(big.Int).Set(term)
		for i := int64(1); term.Sign() > 0; i++ {
			term.Mul(term, big.NewInt(k))
			term.Quo(term, big.NewInt(i))
			sum.Add(sum, term)
		}
		out = append(out, sum.Rsh(sum, bits).Uint64())
	}
	return out
}

func c26() fw.Property {
	type frac struct{ N, D I }
	const (
		limS = (math.MaxInt64 / 2) / 10
		limU = (math.MaxUint64 / 2) / 10
	)
	judge := func(c frac, o *fw.Obs) error {
		n, d := int64(c.N), int64(c.D)
		s, se := signed.ExpFrac(n, d)
		u, ue := unsigned.ExpFrac(uint64(n), uint64(d))
		un, ud := uint64(n), uint64(d)
		// the unsigned function sees the same bits
		inU := ud > 0 && un <= ud
		inS := d > 0 && n >= 0 && n <= d
		o.NTIf(inS && n > 0)
		if !inS && !(n == 0 && d == 0) && se == nil {
			return fw.Errf("signed.ExpFrac(%d, %d) = %d; not a fraction from 0 to 1", n, d, s)
		}
		if !inU && !(un == 0 && ud == 0) && ue == nil {
			return fw.Errf("unsigned.ExpFrac(%d, %d) = %d; not a fraction from 0 to 1", un, ud, u)
		}
		if !inU {
			o.Label("refused")
			return nil
		}
		want := expFix(un, ud)
		max := func(lim uint64) *big.Int {
			return new(big.Int).Lsh(new(big.Int).Quo(new(big.Int).SetUint64(lim), big.NewInt(10)), fixBits)
		}
		one := func(name string, got uint64, err error, lim, top uint64) error {
			room := new(big.Int).Sub(max(top), want) // what is left below a tenth of the type's range
			if err != nil {
				if ud <= lim && room.Cmp(new(big.Int).Lsh(big.NewInt(100), fixBits)) > 0 {
					return fw.Errf("%s: %v", name, err)
				}
				o.Label("too-large-" + name)
				return nil
			}
			diff := new(big.Int).Sub(new(big.Int).Lsh(new(big.Int).SetUint64(got), fixBits), want)
			diff.Abs(diff)
			f, _ := new(big.Float).SetMantExp(new(big.Float).SetInt(diff), -fixBits).Float64()
			// each of at most 20 terms is cut to a tenth of a unit
			tol := 3.0
			if ud <= 1e8 {
				tol = 2
				o.Label("napu-range")
			}
			if f > tol {
				w, _ := new(big.Float).SetMantExp(new(big.Float).SetInt(want), -fixBits).Float64()
				return fw.Errf("%s.ExpFrac(%d, %d) = %d, want %.3f (off by %.3f)", name, un, ud, got, w, f)
			}
			return nil
		}
		if e := one("unsigned", u, ue, limU, math.MaxUint64); e != nil {
			return e
		}
		if !inS {
			return nil
		}
		if e := one("signed", uint64(s), se, limS, math.MaxInt64); e != nil {
			return e
		}
		if se == nil && ue == nil && uint64(s) != u {
			return fw.Errf("ExpFrac(%d, %d): signed %d, unsigned %d", n, d, s, u)
		}
		return nil
	}
	gen := func(t *rapid.T) frac {
		d := word(t, "d")
		if fw.Chance(t, 1, 3, "supported") {
			d = fw.Pick[uint64](t, "d", 1e8, 1e10, 1e12, 100, 1000, 365*86400*1e6, limS, limS-1, limU, limS/1000, limU/1000, limS/2, fw.U64(t, "dd")%limS, fw.U64(t, "dd")%(1e12))
		}
		d += uint64(fw.Int(t, 0, 4, "doff")) - 2
		n := word(t, "n")
		switch fw.Int(t, 0, 8, "n?") {
		case 0:
			n = d
		case 1:
			n = d - uint64(fw.Int(t, 0, 100, "b"))
		case 2:
			n = d + 1
		case 3:
		default:
			if d > 0 {
				n %= d
				if fw.Chance(t, 1, 2, "wide") {
					n = fw.U64(t, "nn") % d
				}
			}
		}
		return frac{I(n), I(d)}
	}
	pe := powersOfE()
	type num struct{ X U }
	lnJudge := func(c num, o *fw.Obs) error {
		x := uint64(c.X)
		want := -1
		for k, p := range pe { // floor(e^k) < x, or x == 1 and k == 0
			if x > p || (k == 0 && x == 1) {
				want = k
			}
		}
		o.NTIf(x > 1)
		if got := unsigned.LnInt(x); got != want {
			return fw.Errf("LnInt(%d) = %d, want %d", x, got, want)
		}
		return nil
	}
	return fw.Property{
		ID:          "C26",
		Rule:        "a fraction above 0 and at most 1, or a number above 1",
		Assumptions: []string{"the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline"},
		Subs: []fw.Sub{
			fw.Prop("exp", 600000, 6000000, gen, judge),
			fw.Prop("exp-every-sort", 400000, 6000000, func(t *rapid.T) frac { return frac{I(word(t, "n")), I(word(t, "d"))} }, judge),
			fw.Enum("exp-small", func() []frac {
				var out []frac
				for d := -2; d <= 200; d++ {
					for n := -2; n <= d+2; n++ {
						out = append(out, frac{I(n), I(d)})
					}
				}
				return out
			}, judge),
			fw.Prop("ln", 1000000, 5000000, func(t *rapid.T) num { return num{U(word(t, "x"))} }, lnJudge),
			fw.Enum("ln-steps", func() []num {
				var out []num
				for _, p := range pe {
					for k := uint64(0); k < 7; k++ {
						out = append(out, num{U(p + k - 3)})
					}
				}
				return append(out, num{0}, num{1}, num{2}, num{math.MaxUint64})
			}, lnJudge),
		},
	}
}
