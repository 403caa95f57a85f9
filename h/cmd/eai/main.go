// Command eai decides C33 to C36: rates, rate tables, EAI amounts and current
// rates.
package main

import (
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/eai", "pkg/constants", "pkg/signed"}
	fw.Main(c33, c34, c35, c36, c40)
}

const (
	shimNote = "the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline"
	day      = int64(86400e6)
	year     = 365 * day
	pct      = int64(1e10)
)

func bi(x int64) *big.Int { return big.NewInt(x) }

// ---- C33

func refRate(r int64) string {
	q, m := r/pct, r%pct
	s := bi(q).String()
	if m != 0 {
		f := bi(m).String()
		s += "." + strings.TrimRight(strings.Repeat("0", 10-len(f))+f, "0")
	}
	return s + "%"
}

func digitsOnly(s string) bool { return strings.Trim(s, "0123456789") == "" }

// refParseRate reads digits, an optional fraction of one to ten digits and a
// percent sign. A text with white space other than the usual around it is
// odd: it may be refused.
func refParseRate(s string) (ok, odd bool, v int64) {
	trimmed := strings.Trim(s, " \t\n\r")
	s = strings.TrimSpace(s)
	odd = s != trimmed
	if !strings.HasSuffix(s, "%") {
		return false, odd, 0
	}
	s = s[:len(s)-1]
	whole, frac, point := strings.Cut(s, ".")
	if whole == "" || !digitsOnly(whole) || !digitsOnly(frac) || (point && frac == "") || len(frac) > 10 {
		return false, odd, 0
	}
	n, _ := new(big.Int).SetString(whole+frac+strings.Repeat("0", 10-len(frac)), 10)
	if !n.IsInt64() {
		return false, odd, 0
	}
	return true, odd, n.Int64()
}

func c33() fw.Property {
	value := func(c fw.I, o *fw.Obs) error {
		r := eai.Rate(c)
		s := r.String()
		o.NTIf(strings.Contains(s, "."))
		if want := refRate(int64(c)); s != want {
			return fw.Errf("rate %d prints as %q, want %q", int64(c), s, want)
		}
		back, err := eai.ParseRate(s)
		if err != nil || back != r {
			return fw.Errf("rate %d prints as %q, which reads as %d, %v", int64(c), s, int64(back), err)
		}
		return nil
	}
	percent := func(c fw.U, o *fw.Obs) error {
		want := new(big.Int).Mul(new(big.Int).SetUint64(uint64(c)), bi(pct))
		if !want.IsInt64() {
			o.Label("too-large")
			return nil
		}
		o.NT()
		if got := eai.RateFromPercent(uint64(c)); int64(got) != want.Int64() {
			return fw.Errf("RateFromPercent(%d) = %d, want %v", uint64(c), int64(got), want)
		}
		return nil
	}
	type rowCase struct{ From, Rate fw.I }
	row := func(c rowCase, o *fw.Obs) error {
		in := eai.RTRow{From: types.Duration(c.From), Rate: eai.Rate(c.Rate)}
		o.NTIf(c.From != 0 && c.Rate != 0)
		b, err := in.MarshalText()
		if err != nil {
			return fw.Errf("MarshalText(%d:%d): %v", int64(c.From), int64(c.Rate), err)
		}
		out := eai.RTRow{From: 3, Rate: 4}
		if err := out.UnmarshalText(b); err != nil || out != in {
			return fw.Errf("row %d:%d is written as %q and read back as %d:%d, %v", int64(c.From), int64(c.Rate), b, int64(out.From), int64(out.Rate), err)
		}
		return nil
	}
	text := func(s fw.Str, o *fw.Obs) error {
		got, err := eai.ParseRate(string(s))
		ok, odd, want := refParseRate(string(s))
		if !ok {
			o.Label("refused")
			o.NTIf(strings.Contains(string(s), "%") && len(s) > 1)
			if err == nil {
				return fw.Errf("ParseRate(%q) = %d; want an error", string(s), int64(got))
			}
			return nil
		}
		o.NT()
		if odd && err != nil {
			return nil
		}
		if err != nil || int64(got) != want {
			return fw.Errf("ParseRate(%q) = %d, %v; want %d", string(s), int64(got), err, want)
		}
		return nil
	}
	rowText := func(s fw.Str, o *fw.Obs) error {
		var r eai.RTRow
		err := r.UnmarshalText([]byte(s))
		from, rate, colon := strings.Cut(string(s), ":")
		d, de := types.ParseDuration(from)
		ok, odd, want := refParseRate(rate)
		if !colon || strings.Contains(rate, ":") || de != nil || !ok {
			o.Label("refused")
			if err == nil {
				return fw.Errf("row %q reads as %d:%d; want an error", string(s), int64(r.From), int64(r.Rate))
			}
			return nil
		}
		o.NT()
		if odd && err != nil {
			return nil
		}
		if err != nil || r.From != d || int64(r.Rate) != want {
			return fw.Errf("row %q reads as %d:%d, %v; want %d:%d", string(s), int64(r.From), int64(r.Rate), err, int64(d), want)
		}
		return nil
	}
	rateText := func(t *rapid.T) string {
		if fw.Chance(t, 1, 15, "junk") {
			return string(fw.Junk(t, "j", 12))
		}
		var s string
		switch fw.Int(t, 0, 3, "kind") {
		case 0:
			s = refRate(fw.NonNeg(t, "r", 1e10, 1e8))
		case 1: // next to the greatest
			v := new(big.Int).Add(bi(math.MaxInt64), bi(int64(fw.Int(t, 0, 6, "o")-3)))
			if fw.Chance(t, 1, 3, "wrap") {
				v.Lsh(v, uint(fw.Int(t, 0, 4, "w")))
				v.Add(v, bi(fw.NonNeg(t, "x")>>1))
			}
			d := v.String()
			s = d[:len(d)-10] + "." + d[len(d)-10:] + "%"
		default:
			s = fw.Digits(t, fw.Int(t, 0, fw.Pick(t, "long", 3, 9, 24), "nw"), "w")
			if fw.Chance(t, 2, 3, "point") {
				s += "." + fw.Digits(t, fw.Int(t, 0, 12, "nf"), "f")
			}
			s += "%"
		}
		if fw.Chance(t, 1, 8, "space") {
			s = fw.Pick(t, "l", "", " ", "\t\n", "  ") + s + fw.Pick(t, "rs", "", " ", "\r\n", "\f", "\u00a0")
		}
		if fw.Chance(t, 1, 6, "mutate") {
			s = fw.Mutate(t, s, "0123456789.,-+ %eE_x:", "m")
		}
		return s
	}
	return fw.Property{
		ID:          "C33",
		Rule:        "rates with a fraction, rows with a start and a rate, texts with a percent sign",
		Assumptions: []string{shimNote},
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("values", 400000, 10000000, func(t *rapid.T) fw.I { return fw.I(fw.NonNeg(t, "r", 1e10, 1e9, 1e6)) }, value), func(c *fw.I) bool {
				*c &= math.MaxInt64
				return true
			}),
			fw.Prop("percent", 200000, 4000000, func(t *rapid.T) fw.U {
				v := fw.Word(t, "p", 1e6)
				switch fw.Int(t, 0, 3, "size") {
				case 0:
					return fw.U(v % 1000)
				case 1, 2:
					return fw.U(v % (math.MaxInt64/uint64(pct) + 3))
				}
				return fw.U(v)
			}, percent),
			fw.Fit(fw.Prop("rows", 150000, 4000000, func(t *rapid.T) rowCase {
				return rowCase{fw.I(fw.Signed(t, "from", uint64(year), uint64(30*day), uint64(day), 1e6)), fw.I(fw.NonNeg(t, "rate", 1e10, 1e8))}
			}, row), func(c *rowCase) bool {
				c.Rate &= math.MaxInt64
				return true
			}),
			fw.Prop("text", 200000, 6000000, func(t *rapid.T) fw.Str { return fw.Str(rateText(t)) }, text),
			fw.Prop("row text", 100000, 2000000, func(t *rapid.T) fw.Str {
				s := fw.Pick(t, "from", "", "t0s", "1y", "3m", "29d", "1y2m3dt4h5m6s7us", "-1d", "x", "1h", "90d", "99d") +
					fw.Pick(t, "colon", ":", ":", ":", ":", "", "::", " :") + rateText(t)
				if fw.Chance(t, 1, 8, "mutate") {
					s = fw.Mutate(t, s, "0123456789.:%ymdt \xff", "rm")
				}
				return fw.Str(s)
			}, rowText),
		},
	}
}

// ---- tables

type trow struct{ From, Rate fw.I }

func table(rows []trow) eai.RateTable {
	var rt eai.RateTable
	for _, r := range rows {
		rt = append(rt, eai.RTRow{From: types.Duration(r.From), Rate: eai.Rate(r.Rate)})
	}
	return rt
}

// rateAt is the step function a table stands for: the last row starting at or
// before x.
func rateAt(rows []trow, x int64) int64 {
	for i := len(rows) - 1; i >= 0; i-- {
		if int64(rows[i].From) <= x {
			return int64(rows[i].Rate)
		}
	}
	return 0
}

func defaultRows() []trow {
	var rows []trow
	for i := int64(1); i < 10; i++ {
		rows = append(rows, trow{fw.I(i * 30 * day), fw.I((i + 1) * pct)})
	}
	return rows
}

// genTable draws a sorted table.
func genTable(t *rapid.T, grow bool) []trow {
	if fw.Chance(t, 1, 4, "default") {
		return defaultRows()
	}
	n := fw.Int(t, 0, 12, "rows")
	slow := int64(8)
	if fw.Chance(t, 1, 8, "long") {
		n = fw.Int(t, 13, fw.Pick(t, "longest", 20, 40, 140), "many rows")
		slow = 64
	}
	rows := make([]trow, n)
	froms := make([]int64, n)
	at := int64(0)
	if fw.Chance(t, 1, 3, "from the start") {
		at = -1
	}
	for i := range froms {
		switch fw.Int(t, 0, 9, "gap") {
		case 0:
			if at < 0 {
				at = 0
			}
		case 1:
			at += 1
		case 2:
			at += int64(fw.Int(t, 1, 90, "days"))*day + int64(fw.Int(t, 0, 2, "o")) - 1
		case 3:
			at += fw.NonNeg(t, "gap") % year
		case 4: // another row with the same start
		default:
			if at < 0 {
				at = 0
			} else {
				at += int64(fw.Int(t, 1, 90, "days")) * day
			}
		}
		froms[i] = at
	}
	sort.Slice(froms, func(i, j int) bool { return froms[i] < froms[j] })
	last := int64(0)
	for i := range rows {
		r := int64(fw.Int(t, 0, 30, "rate")) * pct
		if fw.Chance(t, 1, 4, "odd rate") {
			r = fw.NonNeg(t, "odd") % (40 * pct)
		}
		if grow {
			last += r / slow
			r = last
		}
		rows[i] = trow{fw.I(froms[i]), fw.I(r)}
	}
	return rows
}

// fitRows makes an altered table a table again.
func fitRows(rows []trow) {
	for i := range rows {
		if rows[i].From < -1 || int64(rows[i].From) > 20*year {
			rows[i].From = rows[i].From & math.MaxInt64 % fw.I(20*year)
		}
		if rows[i].Rate < 0 || int64(rows[i].Rate) > 40*pct {
			rows[i].Rate = rows[i].Rate & math.MaxInt64 % fw.I(40*pct)
		}
	}
	sort.SliceStable(rows, func(i, j int) bool { return rows[i].From < rows[j].From })
}

// fit makes an altered lock one whose notice has been given by the block time.
func (c *lockCase) fit(block int64) {
	c.Notice = c.Notice & math.MaxInt64 % fw.I(5*year)
	c.Bonus = c.Bonus & math.MaxInt64 % fw.I(10*pct)
	u := int64(c.Unlocks & math.MaxInt64)
	if u > block+int64(c.Notice) {
		u = block + int64(c.Notice)
	}
	if u < int64(c.Notice) {
		u = int64(c.Notice)
	}
	if u-int64(c.Notice) > block {
		c.Notice = fw.I(u - block)
	}
	c.Unlocks = fw.I(u)
}

// moment draws an age which is on, next to, or away from a row's start.
func moment(t *rapid.T, rows []trow, label string) int64 {
	switch k := fw.Int(t, 0, 5, label+"?"); {
	case k < 3 && len(rows) > 0:
		v := int64(rows[fw.Int(t, 0, len(rows)-1, label+"i")].From)
		if k == 0 {
			v += int64(fw.Int(t, 0, 2, label+"o")) - 1
		}
		return v
	case k == 3:
		return int64(fw.Int(t, 0, 1000, label+"d")) * day
	}
	return fw.NonNeg(t, label) % (3 * year)
}

// ---- C34

type sliceCase struct {
	Rows                     []trow
	From, To, Offset, Freeze fw.I
	Plain                    bool
}

func c34() fw.Property {
	lookup := func(c sliceCase, o *fw.Obs) error {
		rt := table(c.Rows)
		for _, p := range []int64{int64(c.From), int64(c.To), int64(c.Offset), math.MinInt64, math.MaxInt64, 0} {
			if got, want := int64(rt.RateAt(types.Duration(p))), rateAt(c.Rows, p); got != want {
				return fw.Errf("RateAt(%d) = %d, want %d", p, got, want)
			}
		}
		o.NTIf(len(c.Rows) > 1)
		return nil
	}
	slice := func(c sliceCase, o *fw.Obs) error {
		rt := table(c.Rows)
		from, to, off, frz := int64(c.From), int64(c.To), int64(c.Offset), int64(c.Freeze)
		var got eai.RateSlice
		if c.Plain {
			frz = 0
			got = rt.Slice(types.Duration(from), types.Duration(to), types.Duration(off))
		} else {
			got = rt.SliceF(types.Duration(from), types.Duration(to), types.Duration(off), types.Duration(frz))
			if frz < 0 {
				frz = -frz // either sign will do for a length
			}
		}
		sum := int64(0)
		for _, r := range got {
			if r.Duration < 0 {
				return fw.Errf("a period of %d in %v", int64(r.Duration), got)
			}
			sum += int64(r.Duration)
		}
		if to <= from {
			o.Label("empty")
			if sum != 0 || len(got) == 0 {
				return fw.Errf("the empty interval %d..%d gives %v", from, to, got)
			}
			return nil
		}
		if sum != to-from {
			return fw.Errf("the periods of %v last %d together, the interval %d", got, sum, to-from)
		}
		// the rate at every moment: at the start of every period and at
		// every change of the table within it
		point := to - frz
		eff := func(x int64) int64 {
			if frz > 0 && x > point {
				x = point
			}
			return x + off
		}
		at := from
		changes := 0
		for _, r := range got {
			end := at + int64(r.Duration)
			if end == at {
				continue
			}
			check := []int64{at, end - 1}
			for _, row := range c.Rows {
				for _, d := range []int64{-1, 0} {
					if x := int64(row.From) - off + d; x >= at && x < end {
						check = append(check, x)
					}
				}
			}
			if frz > 0 && point >= at && point < end {
				check = append(check, point)
			}
			for _, x := range check {
				if want := rateAt(c.Rows, eff(x)); int64(r.Rate) != want {
					return fw.Errf("at %d (shifted and frozen: %d) the slice %v gives %d, the table %d", x, eff(x), got, int64(r.Rate), want)
				}
			}
			at = end
			changes++
		}
		o.NTIf(changes > 1)
		o.LabelIf(frz > 0 && point > from, "frozen within")
		o.LabelIf(frz > 0 && point <= from, "frozen before")
		return nil
	}
	gen := func(t *rapid.T) sliceCase {
		c := sliceCase{Rows: genTable(t, false)}
		off := int64(0)
		if fw.Chance(t, 2, 3, "shifted") {
			off = moment(t, c.Rows, "off")
			if fw.Chance(t, 1, 12, "back") {
				off = -off
			}
		}
		a, b := moment(t, c.Rows, "a")-off, moment(t, c.Rows, "b")-off
		if fw.Chance(t, 1, 3, "unshifted") {
			a, b = a+off, b+off
		}
		if a > b && !fw.Chance(t, 1, 12, "reversed") {
			a, b = b, a
		}
		c.From, c.To, c.Offset = fw.I(a), fw.I(b), fw.I(off)
		c.Plain = fw.Chance(t, 1, 4, "plain")
		if fw.Chance(t, 2, 3, "frozen") {
			f := b - (moment(t, c.Rows, "f") - off)
			if fw.Chance(t, 1, 4, "at an end") {
				f = b - a + int64(fw.Int(t, 0, 2, "fo")) - 1
			}
			if f < 0 {
				f = 0
			}
			c.Freeze = fw.I(f)
			if fw.Chance(t, 1, 16, "minus") {
				c.Freeze = -c.Freeze
			}
		}
		return c
	}
	return fw.Property{
		ID:          "C34",
		Rule:        "slices with at least two periods, lookups in tables with at least two rows",
		Assumptions: []string{shimNote, "tables are sorted"},
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("slices", 2000000, 40000000, gen, slice), func(c *sliceCase) bool {
				fitRows(c.Rows)
				within := func(v *fw.I) {
					if *v > fw.I(40*year) || *v < -fw.I(40*year) {
						*v %= fw.I(40 * year)
					}
				}
				within(&c.From)
				within(&c.To)
				within(&c.Offset)
				if c.Freeze < -fw.I(80*year) || c.Freeze > fw.I(80*year) {
					c.Freeze = c.Freeze & math.MaxInt64 % fw.I(40*year)
				}
				return true
			}),
			fw.Fit(fw.Prop("lookups", 200000, 4000000, gen, lookup), func(c *sliceCase) bool {
				fitRows(c.Rows)
				within := func(v *fw.I) {
					if *v > fw.I(40*year) || *v < -fw.I(40*year) {
						*v %= fw.I(40 * year)
					}
				}
				within(&c.From)
				within(&c.To)
				within(&c.Offset)
				if c.Freeze < -fw.I(80*year) || c.Freeze > fw.I(80*year) {
					c.Freeze = c.Freeze & math.MaxInt64 % fw.I(40*year)
				}
				return true
			}),
			fw.Enum("small", func() []sliceCase {
				// every interval, offset and freeze over small tables
				var out []sliceCase
				tabs := [][]trow{nil, {{0, 5}}, {{2, 5}}, {{1, 5}, {3, 7}}, {{0, 3}, {2, 5}, {2, 6}, {4, 9}}, {{1, 2}, {2, 4}, {3, 6}, {4, 8}, {5, 1}}}
				for _, rows := range tabs {
					for from := -1; from <= 6; from++ {
						for to := from - 1; to <= 7; to++ {
							for off := -1; off <= 3; off++ {
								for f := 0; f <= 9; f++ {
									out = append(out, sliceCase{rows, fw.I(from), fw.I(to), fw.I(off), fw.I(f), f == 9})
								}
							}
						}
					}
				}
				return out
			}, slice),
		},
	}
}

// ---- C35

type lock struct {
	notice types.Duration
	on     *types.Timestamp
	bonus  eai.Rate
}

func (l *lock) GetNoticePeriod() types.Duration { return l.notice }
func (l *lock) GetUnlocksOn() *types.Timestamp  { return l.on }
func (l *lock) GetBonusRate() eai.Rate          { return l.bonus }

type lockCase struct {
	Has      bool
	Notice   fw.I
	Bonus    fw.I
	Notified bool
	Unlocks  fw.I
}

func (c lockCase) lock() eai.Lock {
	if !c.Has {
		return nil
	}
	l := &lock{notice: types.Duration(c.Notice), bonus: eai.Rate(c.Bonus)}
	if c.Notified {
		u := types.Timestamp(c.Unlocks)
		l.on = &u
	}
	return l
}

type eaiCase struct {
	Rows             []trow
	Balance          fw.I
	Block, Last, Age fw.I
	Lock             lockCase
	Old              bool // the historical unlock rule
}

type period struct{ rate, dur int64 }

// periods is the model: the rate at every moment of the interval, cut wherever
// it can change.
func periods(c eaiCase) []period {
	block, last, age := int64(c.Block), int64(c.Last), int64(c.Age)
	unlock := int64(math.MaxInt64)
	notify := int64(math.MaxInt64)
	if c.Lock.Has && c.Lock.Notified {
		unlock = int64(c.Lock.Unlocks)
		notify = unlock - int64(c.Lock.Notice)
	}
	if c.Old && unlock < block && last > unlock {
		last = unlock
	}
	// moments at which the account did not exist do not count
	if start := block - age; last < start {
		last = start
	}
	rate := func(t int64) int64 {
		a := age - (block - t)
		if !c.Lock.Has || t >= unlock {
			return rateAt(c.Rows, a)
		}
		if t > notify {
			a = age - (block - notify)
		}
		return rateAt(c.Rows, a+int64(c.Lock.Notice)) + int64(c.Lock.Bonus)
	}
	cuts := []int64{last, block}
	add := func(t int64) {
		if t > last && t < block {
			cuts = append(cuts, t)
		}
	}
	for _, r := range c.Rows {
		add(int64(r.From) - age + block)
		add(int64(r.From) - age + block - int64(c.Lock.Notice))
	}
	add(unlock)
	add(notify)
	add(notify + 1)
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	var out []period
	for i := 1; i < len(cuts); i++ {
		if d := cuts[i] - cuts[i-1]; d > 0 {
			p := period{rate(cuts[i-1]), d}
			if n := len(out); n > 0 && out[n-1].rate == p.rate {
				out[n-1].dur += d
			} else {
				out = append(out, p)
			}
		}
	}
	return out
}

var one = new(big.Int).Lsh(big.NewInt(1), ref.ExpBits)

// bounds are the least and greatest balance*(factor-1) which steps of fixed
// point arithmetic in units of 10^-12 may give.
func bounds(balance int64, ps []period) (lo, hi *big.Int, steep bool, factor *big.Int) {
	den := new(big.Int).Mul(bi(year), bi(1e12))
	unit := new(big.Int).Quo(one, bi(1e12))
	x := new(big.Int)
	for _, p := range ps {
		n := new(big.Int).Mul(bi(p.rate), bi(p.dur))
		if n.Cmp(den) > 0 {
			steep = true
		}
		x.Add(x, n)
	}
	if x.Cmp(new(big.Int).Mul(den, bi(100))) > 0 {
		// e^100 is beyond every amount; more need not be computed
		x.Mul(den, bi(100))
	}
	factor = ref.ExpFix(x, den)
	// per period: the exponent may be one unit low, its exponential three
	// units off, the product one unit low, all times the factor; allow three
	// more periods, for an implementation that cuts the interval elsewhere
	k := int64(len(ps)) + 3
	slack := new(big.Int).Mul(unit, factor)
	slack.Rsh(slack, ref.ExpBits)
	slack.Add(slack, unit)
	l := new(big.Int).Sub(factor, new(big.Int).Mul(slack, bi(5*k)))
	h := new(big.Int).Add(factor, new(big.Int).Mul(slack, bi(3*k)))
	b := bi(balance)
	mul := func(f *big.Int) *big.Int {
		f.Sub(f, one).Mul(f, b).Rsh(f, ref.ExpBits)
		if f.Sign() < 0 {
			f.SetInt64(0)
		}
		return f
	}
	lo = mul(l)
	hi = mul(h)
	return
}

func genLock(t *rapid.T, rows []trow, block, last int64) lockCase {
	if fw.Chance(t, 1, 4, "unlocked") {
		return lockCase{}
	}
	c := lockCase{Has: true, Notice: fw.I(moment(t, rows, "notice") % (5 * year))}
	if c.Notice < 0 {
		c.Notice = 0
	}
	c.Bonus = fw.I(int64(fw.Int(t, 0, 5, "bonus")) * pct)
	if fw.Chance(t, 1, 5, "odd bonus") {
		c.Bonus = fw.I(fw.NonNeg(t, "ob") % (10 * pct))
	}
	if fw.Chance(t, 1, 4, "silent") {
		return c
	}
	c.Notified = true
	n := int64(c.Notice)
	// the notice must have been given by now, and not before time began
	var u int64
	switch fw.Int(t, 0, 6, "when") {
	case 0:
		u = block
	case 1:
		u = block + int64(fw.Int(t, 0, 2, "o")) - 1
	case 2:
		u = last + int64(fw.Int(t, 0, 2, "o")) - 1
	case 3, 4: // after the block
		u = block + fw.NonNeg(t, "later")%(n+1)
	case 5: // within the interval
		if block > last {
			u = last + fw.NonNeg(t, "within")%(block-last)
		} else {
			u = block
		}
	default:
		u = block - fw.NonNeg(t, "earlier")%(2*year)
	}
	if u > block+n {
		u = block + n
	}
	if u < n {
		u = n
	}
	if u-n > block {
		c.Notice = fw.I(u - block)
	}
	c.Unlocks = fw.I(u)
	return c
}

func c35() fw.Property {
	judge := func(c eaiCase, o *fw.Obs) error {
		rt := table(c.Rows)
		ps := periods(c)
		lo, hi, steep, factor := bounds(int64(c.Balance), ps)
		got, err := eai.Calculate(types.Ndau(c.Balance), types.Timestamp(c.Block), types.Timestamp(c.Last),
			types.Duration(c.Age), c.Lock.lock(), rt, !c.Old)
		o.NTIf(len(ps) > 1 && c.Balance > 0)
		switch {
		case !c.Lock.Has:
			o.Label("no lock")
		case !c.Lock.Notified:
			o.Label("locked")
		case c.Lock.Unlocks >= c.Block:
			o.Label("notified")
		case c.Lock.Unlocks <= c.Last:
			o.Label("unlocked before")
		default:
			o.Label("unlocked within")
		}
		max := bi(math.MaxInt64)
		if err != nil {
			o.Label("error")
			if steep || hi.Cmp(max) > 0 || factor.Cmp(new(big.Int).Mul(one, bi(9000000))) > 0 {
				return nil
			}
			return fw.Errf("error %v; want between %v and %v", err, lo, hi)
		}
		if lo.Cmp(max) > 0 {
			return fw.Errf("EAI = %d, which should be an error as it is at least %v", int64(got), lo)
		}
		if g := bi(int64(got)); g.Cmp(lo) < 0 || g.Cmp(hi) > 0 {
			return fw.Errf("EAI = %d; want between %v and %v (periods %v)", int64(got), lo, hi, ps)
		}
		if len(ps) == 0 && got != 0 {
			return fw.Errf("EAI = %d for an interval of no length", int64(got))
		}
		return nil
	}
	gen := func(t *rapid.T) eaiCase {
		c := eaiCase{Rows: genTable(t, fw.Chance(t, 1, 2, "grow"))}
		c.Balance = fw.I(fw.NonNeg(t, "balance", 1e8, 1e11))
		if fw.Chance(t, 3, 4, "possible") {
			c.Balance %= 3e15 + 1
		}
		block := 5*year + fw.NonNeg(t, "block")%(40*year)
		if fw.Chance(t, 1, 2, "whole") {
			block -= block % day
		}
		age := moment(t, c.Rows, "age")
		if age < 0 {
			age = 0
		}
		var span int64
		switch fw.Int(t, 0, 6, "span") {
		case 0:
			span = 0
		case 1: // since a row's start
			span = age - moment(t, c.Rows, "since")
		case 2:
			span = int64(fw.Int(t, 0, 40, "days")) * day
		case 3:
			span = age + int64(fw.Int(t, 0, 2, "o")) - 1
		case 4:
			span = fw.NonNeg(t, "sp") % (4 * year)
		default:
			span = fw.NonNeg(t, "sp") % (60 * day)
		}
		if span < 0 {
			span = -span
		}
		if fw.Chance(t, 1, 2, "older") {
			// the whole interval is within the account's life, among the rows
			if span < 60*day {
				span *= int64(fw.Int(t, 1, 20, "stretch"))
			}
			first := int64(0)
			if len(c.Rows) > 0 {
				first = int64(c.Rows[fw.Int(t, 0, len(c.Rows)-1, "row")].From)
			}
			age = first + fw.NonNeg(t, "past")%(span+1)
		}
		if fw.Chance(t, 1, 12, "long") {
			span = fw.NonNeg(t, "ls") % (12 * year)
			age += span
			if fw.Chance(t, 1, 2, "rich") {
				c.Balance = fw.I(math.MaxInt64 - fw.NonNeg(t, "less")%(4e18))
			}
		}
		if span > block {
			span = block
		}
		// high rates over short intervals, where a lost microsecond shows
		scale := int64(1)
		if fw.Chance(t, 1, 10, "high") {
			for k := fw.Int(t, 1, 6, "digits"); k > 0; k-- {
				scale *= 10
			}
			c.Rows = append([]trow(nil), c.Rows...)
			for i := range c.Rows {
				c.Rows[i].Rate *= fw.I(scale)
			}
			span %= 3*year/scale + 1
		}
		steep := fw.Chance(t, 1, 40, "steep")
		if steep {
			// so many rows of so high rates that the factors multiply beyond
			// what can be represented, though no single exponent is above 1
			step := int64(fw.Int(t, 1, 60, "step")) * day
			if fw.Chance(t, 1, 2, "odd step") {
				step += fw.NonNeg(t, "os") % day
			}
			c.Rows = nil
			n := fw.Int(t, 3, 45, "many")
			for i := 0; i < n; i++ {
				top := new(big.Int).Mul(bi(year), bi(int64(fw.Int(t, 1, 1000, "exponent"))*1e9))
				c.Rows = append(c.Rows, trow{fw.I(int64(i) * step), fw.I(top.Quo(top, bi(step)).Int64())})
			}
			span = int64(fw.Int(t, 1, n, "covered")) * step
			if fw.Chance(t, 1, 2, "odd end") {
				span -= fw.NonNeg(t, "oe") % step
			}
			age = span + int64(fw.Int(t, 0, n, "before"))*step
			if fw.Chance(t, 1, 2, "all") {
				age = int64(n) * step
			}
			c.Balance %= fw.I(1e12)
		} else if fw.Chance(t, 1, 60, "absurd") {
			// rates whose product with the time is beyond 64 bits
			c.Rows = append([]trow(nil), c.Rows...)
			for i := range c.Rows {
				if fw.Chance(t, 1, 2, "this row") {
					c.Rows[i].Rate = fw.I(fw.NonNeg(t, "absurd rate") >> 1)
				}
			}
		}
		if age < 0 {
			age = 0
		}
		if span > block {
			span = block
		}
		c.Block, c.Last, c.Age = fw.I(block), fw.I(block-span), fw.I(age)
		c.Lock = genLock(t, c.Rows, block, block-span)
		c.Lock.Bonus *= fw.I(scale)
		if steep && fw.Chance(t, 2, 3, "no bonus") {
			c.Lock.Bonus = 0
		}
		c.Old = fw.Chance(t, 1, 6, "old")
		return c
	}
	return fw.Property{
		ID:   "C35",
		Rule: "a balance, and an interval with at least two different rates",
		Assumptions: []string{
			shimNote,
			"tables are sorted, rates, balances and ages not negative, the notice of a lock with an unlock time has been given by the block time",
			"the result may be as far off as steps in units of 10^-12 explain, with three steps to spare",
		},
		Subs: []fw.Sub{fw.Fit(fw.Prop("accounts", 1200000, 40000000, gen, judge), func(c *eaiCase) bool {
			fitRows(c.Rows)
			c.Balance &= math.MaxInt64
			c.Block = c.Block & math.MaxInt64 % fw.I(45*year)
			c.Age = c.Age & math.MaxInt64 % fw.I(60*year)
			c.Last &= math.MaxInt64
			if c.Last > c.Block {
				c.Last = c.Block
			}
			if c.Block-c.Last > fw.I(12*year) {
				c.Last = c.Block - (c.Block-c.Last)%fw.I(12*year)
			}
			c.Lock.fit(int64(c.Block))
			return true
		})},
	}
}

// ---- C36

type rateCase struct {
	Rows    []trow
	Age, At fw.I
	More    fw.I
	Lock    lockCase
}

func c36() fw.Property {
	judge := func(c rateCase, o *fw.Obs) error {
		rt := table(c.Rows)
		l := c.Lock.lock()
		want := func(age int64) int64 {
			switch {
			case !c.Lock.Has:
				o.Label("no lock")
				return rateAt(c.Rows, age)
			case !c.Lock.Notified:
				o.Label("locked")
				return rateAt(c.Rows, age+int64(c.Lock.Notice)) + int64(c.Lock.Bonus)
			case c.At < c.Lock.Unlocks:
				o.Label("notified")
				return rateAt(c.Rows, age+int64(c.Lock.Unlocks-c.At)) + int64(c.Lock.Bonus)
			}
			o.Label("unlocked")
			return rateAt(c.Rows, age)
		}
		a := int64(c.Age)
		got := int64(eai.CalculateEAIRate(types.Duration(a), l, rt, types.Timestamp(c.At)))
		if w := want(a); got != w {
			return fw.Errf("rate %d, want %d", got, w)
		}
		b := a + int64(c.More)
		later := int64(eai.CalculateEAIRate(types.Duration(b), l, rt, types.Timestamp(c.At)))
		if w := want(b); later != w {
			return fw.Errf("rate %d at age %d, want %d", later, b, w)
		}
		if sort.SliceIsSorted(c.Rows, func(i, j int) bool { return c.Rows[i].Rate < c.Rows[j].Rate }) && later < got {
			return fw.Errf("the rate falls from %d to %d when the age grows by %d", got, later, int64(c.More))
		}
		o.NTIf(len(c.Rows) > 1 && c.Lock.Has)
		return nil
	}
	gen := func(t *rapid.T) rateCase {
		c := rateCase{Rows: genTable(t, fw.Chance(t, 1, 2, "grow"))}
		age := moment(t, c.Rows, "age")
		at := 5*year + fw.NonNeg(t, "at")%(40*year)
		c.At, c.Age, c.More = fw.I(at), fw.I(age), fw.I(fw.NonNeg(t, "more")%year)
		c.Lock = genLock(t, c.Rows, at, at-day)
		if c.Lock.Has && fw.Chance(t, 1, 2, "aligned") {
			// the age reached is at the start of a row
			n := moment(t, c.Rows, "reach") - age
			if n >= 0 {
				if c.Lock.Notified {
					c.Lock.Unlocks = fw.I(at + n)
				} else {
					c.Lock.Notice = fw.I(n)
				}
			}
		}
		return c
	}
	return fw.Property{
		ID:          "C36",
		Rule:        "locked accounts and tables of at least two rows",
		Assumptions: []string{shimNote, "tables are sorted"},
		Subs: []fw.Sub{fw.Fit(fw.Prop("accounts", 1500000, 30000000, gen, judge), func(c *rateCase) bool {
			fitRows(c.Rows)
			c.At = c.At & math.MaxInt64 % fw.I(45*year)
			c.Age %= fw.I(60 * year)
			c.More = c.More & math.MaxInt64 % fw.I(year)
			c.Lock.fit(int64(c.At))
			return true
		})},
	}
}
