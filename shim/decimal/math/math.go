// Package math is the part of github.com/ericlagergren/decimal/math which
// ndaumath's tests use.
package math

import (
	"math/big"

	"github.com/ericlagergren/decimal"
)

// Exp sets z to e**x for moderate x, to about 34 digits.
func Exp(z, x *decimal.Big) *decimal.Big {
	const prec = 400
	f := new(big.Float).SetPrec(prec).SetRat(x.Rat(nil))
	// halve the argument
	k := 0
	half := new(big.Float).SetPrec(prec).SetFloat64(0.5)
	lim := new(big.Float).SetFloat64(0.25)
	for new(big.Float).Abs(f).Cmp(lim) > 0 {
		f.Mul(f, half)
		k++
	}
	sum := new(big.Float).SetPrec(prec).SetInt64(1)
	term := new(big.Float).SetPrec(prec).SetInt64(1)
	for i := int64(1); i < 120; i++ {
		term.Mul(term, f)
		term.Quo(term, new(big.Float).SetPrec(prec).SetInt64(i))
		sum.Add(sum, term)
	}
	for ; k > 0; k-- {
		sum.Mul(sum, sum)
	}
	sc := new(big.Float).SetPrec(prec).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(60), nil))
	sum.Mul(sum, sc)
	i, _ := sum.Int(nil)
	z.SetBigMantScale(i, 60)
	return z.Round(34)
}
