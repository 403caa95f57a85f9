// Package decimal is a stand-in for github.com/ericlagergren/decimal, whose
// source is not available in this sandbox. It offers the part of that
// library's interface which ndaumath uses (and some more), implemented on
// math/big, so that the ndaumath packages which import it can be compiled and
// their own code exercised.
//
// Addition, subtraction, multiplication, integer quotient and remainder are
// exact. Quo rounds to the context's precision (34 digits when unset), half to
// even. A conversion to a machine integer truncates, and reports false when the
// result is out of range. Division by zero gives a NaN.
package decimal

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Condition is a set of flags.
type Condition uint32

// Error implements a description of the flags.
func (c Condition) Error() string  { return fmt.Sprintf("conditions %#x", uint32(c)) }
func (c Condition) String() string { return c.Error() }

// The conditions.
const (
	Clamped Condition = 1 << iota
	ConversionSyntax
	DivisionByZero
	DivisionImpossible
	DivisionUndefined
	Inexact
	InsufficientStorage
	InvalidContext
	InvalidOperation
	Overflow
	Rounded
	Subnormal
	Underflow
)

// RoundingMode says how to round.
type RoundingMode uint8

// The rounding modes.
const (
	ToNearestEven RoundingMode = iota
	ToNearestAway
	ToZero
	AwayFromZero
	ToNegativeInf
	ToPositiveInf
	ToNearestTowardZero
)

// OperatingMode is a mode.
type OperatingMode uint8

// The operating modes.
const (
	GDA OperatingMode = iota
	Go
)

// Context is the settings of a number.
type Context struct {
	MaxScale      int
	MinScale      int
	Precision     int
	Traps         Condition
	Conditions    Condition
	RoundingMode  RoundingMode
	OperatingMode OperatingMode
}

// Err is the trapped conditions.
func (c Context) Err() error {
	if m := c.Conditions & c.Traps; m != 0 {
		return m
	}
	return nil
}

const (
	// MaxScale is the greatest scale.
	MaxScale = math.MaxInt32
	// MinScale is the least scale.
	MinScale = -MaxScale
	// MaxPrecision is the greatest precision.
	MaxPrecision = MaxScale
	// UnlimitedPrecision is without rounding.
	UnlimitedPrecision = MaxPrecision + 1
	// DefaultPrecision is for the zero context.
	DefaultPrecision = 16
)

// The contexts.
var (
	Context32        = Context{Precision: 7, MaxScale: 96, MinScale: -95}
	Context64        = Context{Precision: 16, MaxScale: 384, MinScale: -383}
	Context128       = Context{Precision: 34, MaxScale: 6144, MinScale: -6143}
	ContextUnlimited = Context{Precision: UnlimitedPrecision, MaxScale: MaxScale, MinScale: MinScale}
)

// Big is a decimal number: mant * 10**-scale.
type Big struct {
	Context Context
	mant    big.Int
	scale   int
	nan     bool
	inf     int
}

var (
	ten  = big.NewInt(10)
	zero = new(big.Int)
)

func pow10(n int) *big.Int { return new(big.Int).Exp(ten, big.NewInt(int64(n)), nil) }

// New makes value * 10**-scale.
func New(value int64, scale int) *Big { return new(Big).SetMantScale(value, scale) }

// WithContext makes a zero with the context.
func WithContext(c Context) *Big { return &Big{Context: c} }

// WithPrecision makes a zero with the precision.
func WithPrecision(p int) *Big { return &Big{Context: Context{Precision: p}} }

func (z *Big) setMant(v *big.Int, scale int) *Big {
	m := new(big.Int).Set(v)
	z.mant.Set(m)
	z.scale = scale
	z.nan = false
	z.inf = 0
	return z
}

func (z *Big) setNaN(c Condition) *Big {
	z.mant.SetInt64(0)
	z.scale = 0
	z.inf = 0
	z.nan = true
	z.Context.Conditions |= c
	return z
}

// SetMantScale sets z.
func (z *Big) SetMantScale(value int64, scale int) *Big { return z.setMant(big.NewInt(value), scale) }

// SetUint64 sets z.
func (z *Big) SetUint64(x uint64) *Big { return z.setMant(new(big.Int).SetUint64(x), 0) }

// SetInt64 sets z.
func (z *Big) SetInt64(x int64) *Big { return z.setMant(big.NewInt(x), 0) }

// SetBigMantScale sets z.
func (z *Big) SetBigMantScale(value *big.Int, scale int) *Big { return z.setMant(value, scale) }

// SetScale sets the scale.
func (z *Big) SetScale(scale int) *Big { z.scale = scale; return z }

// SetFloat64 sets z exactly.
func (z *Big) SetFloat64(x float64) *Big {
	if math.IsNaN(x) {
		return z.setNaN(InvalidOperation)
	}
	if math.IsInf(x, 0) {
		return z.SetInf(math.Signbit(x))
	}
	r := new(big.Rat).SetFloat64(x)
	d := r.Denom().BitLen() - 1
	m := new(big.Int).Mul(r.Num(), new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(d)), nil))
	return z.setMant(m, d)
}

// SetInf sets z to an infinity.
func (z *Big) SetInf(signbit bool) *Big {
	z.mant.SetInt64(0)
	z.nan = false
	z.inf = 1
	if signbit {
		z.inf = -1
	}
	return z
}

// SetNaN sets z to NaN.
func (z *Big) SetNaN(signal bool) *Big { return z.setNaN(0) }

// SetString parses s.
func (z *Big) SetString(s string) (*Big, bool) {
	exp := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if _, err := fmt.Sscanf(s[i+1:], "%d", &exp); err != nil {
			return z.setNaN(ConversionSyntax), false
		}
		s = s[:i]
	}
	scale := 0
	if i := strings.IndexByte(s, '.'); i >= 0 {
		scale = len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	m, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return z.setNaN(ConversionSyntax), false
	}
	return z.setMant(m, scale-exp), true
}

// Set copies x and rounds to z's precision.
func (z *Big) Set(x *Big) *Big { return z.Copy(x) }

// Copy copies x.
func (z *Big) Copy(x *Big) *Big {
	if z != x {
		z.mant.Set(&x.mant)
		z.scale, z.nan, z.inf = x.scale, x.nan, x.inf
	}
	return z
}

// Clone copies.
func (z *Big) Clone() *Big { n := new(Big).Copy(z); n.Context = z.Context; return n }

func align(x, y *Big) (a, b *big.Int, scale int) {
	a, b = new(big.Int).Set(&x.mant), new(big.Int).Set(&y.mant)
	scale = x.scale
	if y.scale > x.scale {
		a.Mul(a, pow10(y.scale-x.scale))
		scale = y.scale
	} else if x.scale > y.scale {
		b.Mul(b, pow10(x.scale-y.scale))
	}
	return
}

func special(xs ...*Big) bool {
	for _, x := range xs {
		if x.nan || x.inf != 0 {
			return true
		}
	}
	return false
}

// Add sets z to x + y.
func (z *Big) Add(x, y *Big) *Big {
	if special(x, y) {
		return z.setNaN(InvalidOperation)
	}
	a, b, s := align(x, y)
	return z.setMant(a.Add(a, b), s)
}

// Sub sets z to x - y.
func (z *Big) Sub(x, y *Big) *Big {
	if special(x, y) {
		return z.setNaN(InvalidOperation)
	}
	a, b, s := align(x, y)
	return z.setMant(a.Sub(a, b), s)
}

// Mul sets z to x * y.
func (z *Big) Mul(x, y *Big) *Big {
	if special(x, y) {
		return z.setNaN(InvalidOperation)
	}
	return z.setMant(new(big.Int).Mul(&x.mant, &y.mant), x.scale+y.scale)
}

// FMA sets z to x * y + u.
func (z *Big) FMA(x, y, u *Big) *Big {
	t := new(Big).Mul(x, y)
	return z.Add(t, u)
}

// Quo sets z to x / y, rounded.
func (z *Big) Quo(x, y *Big) *Big {
	if special(x, y) {
		return z.setNaN(InvalidOperation)
	}
	if y.mant.Sign() == 0 {
		return z.setNaN(DivisionByZero)
	}
	p := z.Context.Precision
	if p <= 0 || p > 1000 {
		p = 34
	}
	// scale up so that the quotient has at least p+1 digits
	shift := p + 2 + len(y.mant.String()) - len(x.mant.String())
	if shift < 0 {
		shift = 0
	}
	n := new(big.Int).Mul(&x.mant, pow10(shift))
	q, r := new(big.Int).QuoRem(n, &y.mant, new(big.Int))
	sc := x.scale - y.scale + shift
	if r.Sign() != 0 {
		// sticky digit, so that rounding below is right
		q.Mul(q, ten)
		sc++
		if (x.mant.Sign() < 0) != (y.mant.Sign() < 0) {
			q.Sub(q, big.NewInt(1))
		} else {
			q.Add(q, big.NewInt(1))
		}
	}
	z.setMant(q, sc)
	return z.Round(p)
}

// QuoInt sets z to the integer part of x / y.
func (z *Big) QuoInt(x, y *Big) *Big {
	if special(x, y) {
		return z.setNaN(InvalidOperation)
	}
	if y.mant.Sign() == 0 {
		return z.setNaN(DivisionByZero)
	}
	a, b, _ := align(x, y)
	return z.setMant(new(big.Int).Quo(a, b), 0)
}

// QuoRem sets z to the integer part of x / y and r to the remainder.
func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	if special(x, y) || y.mant.Sign() == 0 {
		return z.setNaN(InvalidOperation), r.setNaN(InvalidOperation)
	}
	a, b, s := align(x, y)
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	r.setMant(m, s)
	z.setMant(q, 0)
	return z, r
}

// Rem sets z to the remainder of x / y.
func (z *Big) Rem(x, y *Big) *Big {
	if special(x, y) || y.mant.Sign() == 0 {
		return z.setNaN(InvalidOperation)
	}
	a, b, s := align(x, y)
	return z.setMant(new(big.Int).Rem(a, b), s)
}

// Neg sets z to -x.
func (z *Big) Neg(x *Big) *Big { z.Copy(x); z.mant.Neg(&z.mant); z.inf = -z.inf; return z }

// Abs sets z to |x|.
func (z *Big) Abs(x *Big) *Big {
	z.Copy(x)
	z.mant.Abs(&z.mant)
	if z.inf < 0 {
		z.inf = 1
	}
	return z
}

// Cmp compares.
func (z *Big) Cmp(y *Big) int {
	if z.inf != 0 || y.inf != 0 {
		switch {
		case z.inf > y.inf:
			return 1
		case z.inf < y.inf:
			return -1
		}
		return 0
	}
	a, b, _ := align(z, y)
	return a.Cmp(b)
}

// CmpAbs compares absolute values.
func (z *Big) CmpAbs(y *Big) int { return new(Big).Abs(z).Cmp(new(Big).Abs(y)) }

// Sign is the sign.
func (z *Big) Sign() int {
	if z.inf != 0 {
		return z.inf
	}
	return z.mant.Sign()
}

// Signbit says whether z is negative.
func (z *Big) Signbit() bool { return z.Sign() < 0 }

// Scale is the scale.
func (z *Big) Scale() int { return z.scale }

// Precision is the number of digits.
func (z *Big) Precision() int { return len(new(big.Int).Abs(&z.mant).String()) }

// IsNaN says whether z is NaN.
func (z *Big) IsNaN(quiet int) bool { return z.nan }

// IsInf says whether z is infinite.
func (z *Big) IsInf(sign int) bool {
	return z.inf != 0 && (sign == 0 || sign == z.inf)
}

// IsFinite says whether z is finite.
func (z *Big) IsFinite() bool { return !z.nan && z.inf == 0 }

// IsNormal says whether z is normal.
func (z *Big) IsNormal() bool { return z.IsFinite() && z.mant.Sign() != 0 }

// IsInt says whether z is an integer.
func (z *Big) IsInt() bool {
	if !z.IsFinite() {
		return false
	}
	_, ok := z.int()
	return ok
}

func (z *Big) int() (*big.Int, bool) {
	if !z.IsFinite() {
		return nil, false
	}
	if z.scale <= 0 {
		return new(big.Int).Mul(&z.mant, pow10(-z.scale)), true
	}
	q, r := new(big.Int).QuoRem(&z.mant, pow10(z.scale), new(big.Int))
	return q, r.Sign() == 0
}

// Int is the integer part.
func (z *Big) Int(x *big.Int) *big.Int {
	if x == nil {
		x = new(big.Int)
	}
	i, _ := z.int()
	if i == nil {
		return x
	}
	return x.Set(i)
}

// Int64 is z, truncated, as int64.
func (z *Big) Int64() (int64, bool) {
	i, _ := z.int()
	if i == nil || !i.IsInt64() {
		return 0, false
	}
	return i.Int64(), true
}

// Uint64 is z, truncated, as uint64.
func (z *Big) Uint64() (uint64, bool) {
	i, _ := z.int()
	if i == nil || !i.IsUint64() {
		return 0, false
	}
	return i.Uint64(), true
}

// Rat is z as a rational.
func (z *Big) Rat(x *big.Rat) *big.Rat {
	if x == nil {
		x = new(big.Rat)
	}
	if z.scale <= 0 {
		i, _ := z.int()
		return x.SetInt(i)
	}
	return x.SetFrac(&z.mant, pow10(z.scale))
}

// Float64 is z as a float.
func (z *Big) Float64() (float64, bool) {
	if z.nan {
		return math.NaN(), false
	}
	if z.inf != 0 {
		return math.Inf(z.inf), true
	}
	return z.Rat(nil).Float64()
}

// Float converts.
func (z *Big) Float(x *big.Float) *big.Float {
	if x == nil {
		x = new(big.Float)
	}
	return x.SetRat(z.Rat(nil))
}

// Round rounds to n digits.
func (z *Big) Round(n int) *Big {
	if special(z) || n <= 0 {
		return z
	}
	d := z.Precision() - n
	if d <= 0 {
		return z
	}
	z.mant.Set(roundDiv(&z.mant, pow10(d), z.Context.RoundingMode))
	z.scale -= d
	if z.Precision() > n {
		z.mant.Quo(&z.mant, ten)
		z.scale--
	}
	return z
}

func roundDiv(m, d *big.Int, mode RoundingMode) *big.Int {
	q, r := new(big.Int).QuoRem(m, d, new(big.Int))
	if r.Sign() == 0 {
		return q
	}
	up := false
	r.Abs(r)
	r.Lsh(r, 1)
	c := r.Cmp(d)
	neg := m.Sign() < 0
	switch mode {
	case ToNearestEven:
		up = c > 0 || c == 0 && q.Bit(0) == 1
	case ToNearestAway:
		up = c >= 0
	case ToNearestTowardZero:
		up = c > 0
	case ToZero:
	case AwayFromZero:
		up = true
	case ToNegativeInf:
		up = neg
	case ToPositiveInf:
		up = !neg
	}
	if up {
		if neg {
			q.Sub(q, big.NewInt(1))
		} else {
			q.Add(q, big.NewInt(1))
		}
	}
	return q
}

// RoundToInt rounds to an integer.
func (z *Big) RoundToInt() *Big { return z.Quantize(0) }

// Quantize rounds to n decimals.
func (z *Big) Quantize(n int) *Big {
	if special(z) {
		return z
	}
	if n >= z.scale {
		z.mant.Mul(&z.mant, pow10(n-z.scale))
	} else {
		z.mant.Set(roundDiv(&z.mant, pow10(z.scale-n), z.Context.RoundingMode))
	}
	z.scale = n
	return z
}

// Reduce removes trailing zeros.
func (z *Big) Reduce() *Big {
	if special(z) {
		return z
	}
	if z.mant.Sign() == 0 {
		z.scale = 0
		return z
	}
	r := new(big.Int)
	for {
		q, _ := new(big.Int).QuoRem(&z.mant, ten, r)
		if r.Sign() != 0 {
			return z
		}
		z.mant.Set(q)
		z.scale--
	}
}

// String is plain decimal notation.
func (z *Big) String() string {
	if z == nil {
		return "<nil>"
	}
	if z.nan {
		return "NaN"
	}
	if z.inf != 0 {
		if z.inf < 0 {
			return "-Infinity"
		}
		return "Infinity"
	}
	if z.scale <= 0 {
		i, _ := z.int()
		return i.String()
	}
	s := new(big.Int).Abs(&z.mant).String()
	for len(s) <= z.scale {
		s = "0" + s
	}
	s = s[:len(s)-z.scale] + "." + s[len(s)-z.scale:]
	if z.mant.Sign() < 0 {
		s = "-" + s
	}
	return s
}

// MarshalText implements encoding.TextMarshaler
func (z *Big) MarshalText() ([]byte, error) { return []byte(z.String()), nil }

// UnmarshalText implements encoding.TextUnmarshaler
func (z *Big) UnmarshalText(t []byte) error {
	if _, ok := z.SetString(string(t)); !ok {
		return errors.New("not a decimal")
	}
	return nil
}

func (c Context) with(z *Big, f func()) *Big {
	own := z.Context
	z.Context = c
	f()
	own.Conditions |= z.Context.Conditions
	z.Context = own
	return z
}

// Add sets z to x + y by the context.
func (c Context) Add(z, x, y *Big) *Big { return c.with(z, func() { z.Add(x, y) }) }

// Sub sets z to x - y by the context.
func (c Context) Sub(z, x, y *Big) *Big { return c.with(z, func() { z.Sub(x, y) }) }

// Mul sets z to x * y by the context.
func (c Context) Mul(z, x, y *Big) *Big { return c.with(z, func() { z.Mul(x, y) }) }

// Quo sets z to x / y by the context.
func (c Context) Quo(z, x, y *Big) *Big { return c.with(z, func() { z.Quo(x, y) }) }

// QuoInt sets z to the integer part of x / y by the context.
func (c Context) QuoInt(z, x, y *Big) *Big { return c.with(z, func() { z.QuoInt(x, y) }) }

// Rem sets z to the remainder of x / y by the context.
func (c Context) Rem(z, x, y *Big) *Big { return c.with(z, func() { z.Rem(x, y) }) }

// Neg sets z to -x by the context.
func (c Context) Neg(z, x *Big) *Big { return c.with(z, func() { z.Neg(x) }) }

// Abs sets z to |x| by the context.
func (c Context) Abs(z, x *Big) *Big { return c.with(z, func() { z.Abs(x) }) }

// RoundToInt rounds z by the context.
func (c Context) RoundToInt(z *Big) *Big { return c.with(z, func() { z.RoundToInt() }) }
