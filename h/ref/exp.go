package ref

import "math/big"

// ExpBits is the number of fractional bits of ExpFix.
const ExpBits = 136

// ExpFix is e^(n/d) with ExpBits fractional bits, for n/d up to about 40; it
// is too small by less than 2^-100 relatively.
func ExpFix(n, d *big.Int) *big.Int {
	const guard = 100
	x := new(big.Int).Lsh(n, ExpBits+guard)
	x.Quo(x, d)
	term := new(big.Int).Lsh(big.NewInt(1), ExpBits+guard)
	sum := new(big.Int).Set(term)
	for i := int64(1); term.Sign() > 0; i++ {
		term.Mul(term, x)
		term.Rsh(term, ExpBits+guard)
		term.Quo(term, big.NewInt(i))
		sum.Add(sum, term)
	}
	return sum.Rsh(sum, guard)
}
