// Command price decides C37 and C38: the price curve and dollar amounts.
package main

import (
	"math"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"
	"pgregory.net/rapid"
	"verif/h/fw"
)

func main() {
	fw.Packages = []string{"pkg/pricecurve", "pkg/types", "pkg/constants"}
	fw.Main(c37, c38)
}

const (
	shimNote = "the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline"
	ndau     = int64(1e8)
	block    = 1000 * ndau
	dollar   = 1e11
	final    = int64(50045083) * 1e9
)

// ---- C37

// curve is the published price in dollars at a number of blocks sold.
func curve(x float64, span float64) float64 {
	return math.Exp2(x * 14 / span)
}

func cubic(x float64) float64 {
	return ((-2.654015e-8*x+0.00167424)*x-8.286618)*x - 41633
}

// exact checks the exact price of a block.
func exact(b int64, price pricecurve.Nanocent, span float64) error {
	p := float64(price) / dollar
	switch {
	case b >= 30000:
		if int64(price) != final {
			return fw.Errf("block %d: price %d, want %d", b, int64(price), final)
		}
	case b <= 10000:
		want := curve(float64(b), span)
		if math.Abs(p-want) > want*1e-6 {
			return fw.Errf("block %d: price %.11f, want %.11f", b, p, want)
		}
	default:
		want := cubic(float64(b))
		if math.Abs(p-want) > 4 {
			return fw.Errf("block %d: price %.11f, want %.11f", b, p, want)
		}
	}
	if b == 0 && int64(price) != dollar {
		return fw.Errf("the first price is %d", int64(price))
	}
	return nil
}

func prices(sold int64) (p, p9, p10 pricecurve.Nanocent, err error) {
	if p, err = pricecurve.PriceAtUnit(types.Ndau(sold)); err != nil {
		return
	}
	if p9, err = pricecurve.PriceAtUnit9999(types.Ndau(sold)); err != nil {
		return
	}
	p10, err = pricecurve.PriceAtUnit10000(types.Ndau(sold))
	return
}

// approx is what the floating-point price at an amount sold should be.
func approx(sold int64) float64 {
	x := float64(sold) / float64(block)
	switch {
	case sold < 10000*block:
		return curve(x, 9999)
	case sold < 30000*block:
		return cubic(x)
	}
	return 500450.83
}

func c37() fw.Property {
	type pair struct{ A, B fw.I }
	two := func(c pair, o *fw.Obs) error {
		a, b := int64(c.A), int64(c.B)
		if a > b {
			a, b = b, a
		}
		pa, pa9, pa10, err := prices(a)
		if err != nil {
			return fw.Errf("price at %d: %v", a, err)
		}
		pb, _, pb10, err := prices(b)
		if err != nil {
			return fw.Errf("price at %d: %v", b, err)
		}
		if pa != pa9 {
			return fw.Errf("at %d the price is %d, by the 9999 rule %d", a, int64(pa), int64(pa9))
		}
		if err := exact(a/block, pa, 9999); err != nil {
			return err
		}
		if err := exact(a/block, pa10, 10000); err != nil {
			return fw.Errf("10000 rule: %v", err)
		}
		if pa > pb || pa10 > pb10 {
			return fw.Errf("the price falls from %d to %d (10000 rule: %d to %d) between %d and %d sold", int64(pa), int64(pb), int64(pa10), int64(pb10), a, b)
		}
		if a/block == b/block {
			o.Label("same block")
			if pa != pb || pa10 != pb10 {
				return fw.Errf("the price changes from %d to %d (10000 rule: %d to %d) within the block of %d and %d", int64(pa), int64(pb), int64(pa10), int64(pb10), a, b)
			}
		}
		o.NTIf(a >= block && a < 30000*block)
		// the approximation, to within the price of a fraction of an ndau
		got, want := pricecurve.ApproxPriceAtUnit(types.Ndau(a)), approx(a)
		if math.IsNaN(got) || math.Abs(got-want) > want*3e-6 {
			if !(a >= 10000*block && a < 10000*block+ndau) {
				return fw.Errf("the approximate price at %d is %v, want %v", a, got, want)
			}
		}
		return nil
	}
	// group checks the first and last napu of each of some blocks, in order
	group := func(c pair, o *fw.Obs) error {
		last, last10 := pricecurve.Nanocent(0), pricecurve.Nanocent(0)
		o.NT()
		for b := int64(c.A); b <= int64(c.B); b++ {
			for i, at := range []int64{b * block, (b+1)*block - 1} {
				p, err := pricecurve.PriceAtUnit(types.Ndau(at))
				if err != nil {
					return fw.Errf("price at %d: %v", at, err)
				}
				p10, err := pricecurve.PriceAtUnit10000(types.Ndau(at))
				if err != nil {
					return fw.Errf("price at %d by the 10000 rule: %v", at, err)
				}
				if i == 0 {
					if err := exact(b, p, 9999); err != nil {
						return err
					}
					if err := exact(b, p10, 10000); err != nil {
						return fw.Errf("10000 rule: %v", err)
					}
					if p < last || p10 < last10 {
						return fw.Errf("the price falls from %d to %d (10000 rule: %d to %d) at block %d", int64(last), int64(p), int64(last10), int64(p10), b)
					}
				} else if p != last || p10 != last10 {
					return fw.Errf("the price changes from %d to %d (10000 rule: %d to %d) within block %d", int64(last), int64(p), int64(last10), int64(p10), b)
				}
				last, last10 = p, p10
			}
		}
		return nil
	}
	amount := func(t *rapid.T, label string) int64 {
		v := fw.NonNeg(t, label, uint64(block))
		switch fw.Int(t, 0, 6, label+"?") {
		case 0, 1: // next to a block's boundary
			v = int64(fw.Int(t, 0, 30010, label+"b"))*block + int64(fw.Int(t, 0, 4, label+"o")) - 2
		case 2:
			v = int64(fw.Pick(t, label+"k", 0, 1, 2, 3, 4, 8, 9998, 9999, 10000, 10001, 29999, 30000, 30001))*block + int64(fw.Int(t, 0, 4, label+"o")) - 2
		case 3:
			v %= 10001 * block
		case 4, 5:
			v %= 30001 * block
		}
		if v < 0 {
			v = 0
		}
		return v
	}
	type buy struct{ N, Sold fw.I }
	total := func(c buy, o *fw.Obs) error {
		n, sold := int64(c.N), int64(c.Sold)
		got := pricecurve.ApproxTotalPriceFor(types.Ndau(n), types.Ndau(sold))
		// between the price at the start and at the end of each block
		lo, hi := 0.0, 0.0
		blocks := 0
		for left, at := n, sold; left > 0; {
			k := at / block
			part := (k+1)*block - at
			if part > left {
				part = left
			}
			lo += approx(k*block) * float64(part) / float64(ndau)
			hi += approx((k+1)*block-1) * float64(part) / float64(ndau)
			left -= part
			at += part
			blocks++
		}
		o.NTIf(blocks > 1 || n%ndau != 0)
		o.LabelIf(sold%block != 0, "starts inside a block")
		o.LabelIf(n%ndau != 0, "part of an ndau")
		if math.IsNaN(got) || got < lo-lo*1e-9 || got > hi+hi*1e-9 {
			return fw.Errf("%d napu cost %v after %d were sold; want between %v and %v", n, got, sold, lo, hi)
		}
		return nil
	}
	unit := func(c fw.U, o *fw.Obs) error {
		p := math.Float64frombits(uint64(c))
		if math.IsNaN(p) || math.IsInf(p, 0) {
			return nil
		}
		u := int64(pricecurve.ApproxUnitAtPrice(p))
		if u%1000 != 0 || u < 0 || u > 29999000 {
			return fw.Errf("ApproxUnitAtPrice(%v) = %d", p, u)
		}
		below, above := approx(u*ndau), approx((u+1000)*ndau)
		const tol = 1 + 1e-9
		if u > 0 && below > p*tol {
			return fw.Errf("ApproxUnitAtPrice(%v) = %d, where the price is %v already", p, u, below)
		}
		if u < 29999000 && above*tol < p {
			return fw.Errf("ApproxUnitAtPrice(%v) = %d, but a block later the price is only %v", p, u, above)
		}
		o.NTIf(p > 1 && p < 500450)
		return nil
	}
	return fw.Property{
		ID:          "C37",
		Rule:        "amounts between the first block and the last, purchases of several blocks or of parts of an ndau, prices on the curve",
		Assumptions: []string{shimNote, "amounts sold and bought are not negative; purchases are below 40 million ndau"},
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("prices", 8000, 400000, func(t *rapid.T) pair {
				a, b := amount(t, "a"), amount(t, "b")
				switch fw.Int(t, 0, 3, "rel") {
				case 0:
					b = a - a%block + fw.NonNeg(t, "in")%block
				case 1:
					b = a - a%block + block
				}
				if b < 0 {
					b = a
				}
				return pair{fw.I(a), fw.I(b)}
			}, two), func(c *pair) bool {
				c.A &= math.MaxInt64
				c.B &= math.MaxInt64
				return true
			}),
			fw.Fit(fw.Prop("purchases", 60000, 1500000, func(t *rapid.T) buy {
				n := fw.NonNeg(t, "n", uint64(ndau), uint64(block)) % (20 * block)
				switch fw.Int(t, 0, 9, "size") {
				case 0:
					n = amount(t, "an") % (40000 * block)
				case 1, 2:
					n %= ndau * 10
				}
				sold := amount(t, "sold") % (40000 * block)
				if fw.Chance(t, 1, 4, "up to the boundary") {
					n = block - sold%block + int64(fw.Int(t, 0, 4, "o")) - 2
					if n < 0 {
						n = 0
					}
				}
				return buy{fw.I(n), fw.I(sold)}
			}, total), func(c *buy) bool {
				c.N = c.N & math.MaxInt64 % fw.I(40000*block)
				c.Sold = c.Sold & math.MaxInt64 % fw.I(40000*block)
				return true
			}),
			fw.Prop("units", 60000, 1500000, func(t *rapid.T) fw.U {
				var p float64
				switch fw.Int(t, 0, 4, "kind") {
				case 0:
					p = math.Float64frombits(fw.U64(t, "bits"))
				case 1:
					p = float64(fw.Int(t, -5, 510000, "dollars"))
				default:
					p = approx(int64(fw.Int(t, 0, 30000, "b"))*block) * (1 + float64(fw.Int(t, -1000, 1000, "off"))*1e-7)
				}
				return fw.U(math.Float64bits(p))
			}, unit),
			fw.Heavy(fw.Enum("blocks", func() []pair {
				// every block, in groups of twenty
				var out []pair
				for b := int64(0); b <= 30010; b += 20 {
					out = append(out, pair{fw.I(b), fw.I(b + 20)})
				}
				return out
			}, group)),
		},
	}
}

// ---- C38

const (
	bad = iota
	good
	lenient // separators or spaces in odd places: the number if accepted
)

func digitsOnly(s string) bool { return strings.Trim(s, "0123456789") == "" }

func refDollars(s string) (verdict int, v *big.Int) {
	verdict = good
	trimmed := strings.TrimSpace(s)
	if trimmed != s {
		verdict = lenient
	}
	s = trimmed
	plain := strings.NewReplacer(",", "", "_", "").Replace(s)
	// separators belong after the first digit and before the point
	head, _, _ := strings.Cut(s, ".")
	tail := s[len(head):]
	if i := strings.IndexAny(head, ",_"); i >= 0 && strings.IndexAny(head[:i], "0123456789") < 0 {
		verdict = lenient
	}
	if strings.ContainsAny(tail, ",_") {
		verdict = lenient
	}
	s = plain
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	s = strings.TrimPrefix(s, "$")
	whole, frac, point := strings.Cut(s, ".")
	if whole == "" || !digitsOnly(whole) || !digitsOnly(frac) || (point && len(frac) < 2) || len(frac) > 11 {
		return bad, nil
	}
	v, _ = new(big.Int).SetString(whole+frac+strings.Repeat("0", 11-len(frac)), 10)
	if neg {
		v.Neg(v)
	}
	if !v.IsInt64() {
		return bad, v
	}
	return verdict, v
}

func c38() fw.Property {
	judge := func(s fw.Str, o *fw.Obs) error {
		got, err := pricecurve.ParseDollars(string(s))
		verdict, v := refDollars(string(s))
		switch verdict {
		case bad:
			o.Label("refused")
			o.LabelIf(v != nil, "too-large")
			o.NTIf(v != nil || strings.ContainsAny(string(s), "0123456789"))
			if err == nil {
				return fw.Errf("ParseDollars(%q) = %d; want an error", string(s), int64(got))
			}
		case good:
			o.NT()
			if err != nil || int64(got) != v.Int64() {
				return fw.Errf("ParseDollars(%q) = %d, %v; want %v", string(s), int64(got), err, v)
			}
		default:
			o.Label("lenient")
			if err == nil && int64(got) != v.Int64() {
				return fw.Errf("ParseDollars(%q) = %d; want %v or an error", string(s), int64(got), v)
			}
		}
		return nil
	}
	gen := func(t *rapid.T) fw.Str {
		if fw.Chance(t, 1, 15, "junk") {
			return fw.Junk(t, "j", 14)
		}
		s := fw.Pick(t, "sign", "", "", "-") + fw.Pick(t, "dollar", "", "$")
		switch fw.Int(t, 0, 3, "kind") {
		case 0: // next to the limits
			v := new(big.Int).Add(big.NewInt(math.MaxInt64), big.NewInt(int64(fw.Int(t, 0, 6, "o")-3)))
			if fw.Chance(t, 1, 3, "wrap") {
				v.Lsh(v, uint(fw.Int(t, 0, 4, "w")))
				v.Add(v, big.NewInt(fw.NonNeg(t, "x")>>1))
			}
			d := v.String()
			s += d[:len(d)-11] + "." + d[len(d)-11:]
		default:
			w := fw.Digits(t, fw.Int(t, 1, fw.Pick(t, "long", 3, 8, 9, 24), "nw"), "w")
			if fw.Chance(t, 1, 3, "separate") {
				sep := fw.Pick(t, "sep", ",", "_")
				for i := len(w) - 3; i > 0; i -= 3 {
					w = w[:i] + sep + w[i:]
				}
			}
			s += w
			if fw.Chance(t, 2, 3, "point") {
				s += "." + fw.Digits(t, fw.Int(t, 0, 13, "nf"), "f")
			}
		}
		if fw.Chance(t, 1, 15, "space") {
			s = fw.Pick(t, "l", "", " ", "\t") + s + fw.Pick(t, "r", "", " ", "\n")
		}
		if fw.Chance(t, 1, 6, "mutate") {
			s = fw.Mutate(t, s, "0123456789.,_-+$ eE", "m")
		}
		return fw.Str(s)
	}
	return fw.Property{
		ID:          "C38",
		Rule:        "texts with digits",
		Assumptions: []string{shimNote},
		Subs:        []fw.Sub{fw.Prop("text", 600000, 15000000, gen, judge)},
	}
}
