// Command types decides C27 to C32: amounts, durations, timestamps, weighted
// average age and MessagePack encodings.
package main

import (
	"errors"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/types"
	"pgregory.net/rapid"
	"verif/h/fw"
)

func main() {
	if os.Getenv(probeEnv) != "" {
		probe()
	}
	fw.Packages = []string{"pkg/types", "pkg/constants"}
	fw.Main(c27, c28, c29, c30, c31, c32)
}

const shimNote = "the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline"

func bi(x int64) *big.Int { return big.NewInt(x) }

// ---- C27

// refNdau is the exact decimal text of n/10^8.
func refNdau(n int64) string {
	m := new(big.Int).Abs(bi(n))
	q, r := new(big.Int).QuoRem(m, bi(1e8), new(big.Int))
	s := q.String()
	if r.Sign() != 0 {
		f := r.String()
		f = strings.Repeat("0", 8-len(f)) + f
		s += "." + strings.TrimRight(f, "0")
	}
	if n < 0 {
		s = "-" + s
	}
	return s
}

const (
	bad       = iota // must be refused
	good             // must be accepted with this value
	undecided        // only must not crash
	lenient          // may be refused, and must have this value otherwise
)

func isDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// refParseNdau reads digits, a point and one to eight decimals.
func refParseNdau(s string) (int, int64) {
	trimmed := strings.Trim(s, " \t\n\r")
	s = strings.TrimSpace(s) // other white space may or may not be accepted
	accept := good
	if s != trimmed {
		accept = lenient
	}
	if s == "" {
		return undecided, 0
	}
	whole, frac, point := strings.Cut(s, ".")
	if !isDigits(whole) || !isDigits(frac) || (point && (frac == "" || len(frac) > 8)) {
		return bad, 0
	}
	w, _ := new(big.Int).SetString("0"+whole+frac+strings.Repeat("0", 8-len(frac)), 10)
	if !w.IsInt64() {
		return bad, 0
	}
	return accept, w.Int64()
}

func c27() fw.Property {
	type pair struct{ A, B fw.I }
	judge := func(c pair, o *fw.Obs) error {
		a, b := types.Ndau(c.A), types.Ndau(c.B)
		for _, op := range []struct {
			name string
			f    func(types.Ndau) (types.Ndau, error)
			want *big.Int
		}{
			{"Add", a.Add, new(big.Int).Add(bi(int64(a)), bi(int64(b)))},
			{"Sub", a.Sub, new(big.Int).Sub(bi(int64(a)), bi(int64(b)))},
		} {
			got, err := op.f(b)
			if op.want.IsInt64() {
				if err != nil || int64(got) != op.want.Int64() {
					return fw.Errf("%s(%d, %d) = %d, %v; want %v", op.name, a, b, int64(got), err, op.want)
				}
			} else {
				o.NT()
				o.Label("overflow-" + op.name)
				if !errors.Is(err, ndauerr.ErrOverflow) {
					return fw.Errf("%s(%d, %d) = %d, %v; want overflow", op.name, a, b, int64(got), err)
				}
			}
		}
		if got, want := a.Compare(b), bi(int64(a)).Cmp(bi(int64(b))); got != want {
			return fw.Errf("Compare(%d, %d) = %d, want %d", a, b, got, want)
		}
		if abs := new(big.Int).Abs(bi(int64(a))); abs.IsInt64() && int64(a.Abs()) != abs.Int64() {
			return fw.Errf("Abs(%d) = %d", int64(a), int64(a.Abs()))
		}
		s := a.String()
		if want := refNdau(int64(a)); s != want {
			return fw.Errf("the text of %d napu is %q, want %q", int64(a), s, want)
		}
		o.NTIf(strings.Contains(s, "."))
		if a >= 0 {
			back, err := types.ParseNdau(s)
			if err != nil || back != a {
				return fw.Errf("%d napu print as %q, which reads as %d, %v", int64(a), s, int64(back), err)
			}
		}
		return nil
	}
	text := func(s fw.Str, o *fw.Obs) error {
		got, err := types.ParseNdau(string(s))
		verdict, want := refParseNdau(string(s))
		switch verdict {
		case bad:
			o.Label("refused")
			if err == nil {
				return fw.Errf("ParseNdau(%q) = %d; want an error", string(s), int64(got))
			}
			o.NTIf(len(s) > 0 && s[0] >= '0' && s[0] <= '9')
		case good:
			o.NT()
			if err != nil || int64(got) != want {
				return fw.Errf("ParseNdau(%q) = %d, %v; want %d", string(s), int64(got), err, want)
			}
		case lenient:
			o.Label("odd-space")
			if err == nil && int64(got) != want {
				return fw.Errf("ParseNdau(%q) = %d; want %d or an error", string(s), int64(got), want)
			}
		default:
			o.Label("undecided")
		}
		return nil
	}
	return fw.Property{
		ID:          "C27",
		Rule:        "amounts with a fractional part or overflowing sums; texts which start like a number",
		Assumptions: []string{shimNote},
		Subs: []fw.Sub{
			fw.Prop("amounts", 600000, 20000000, func(t *rapid.T) pair {
				a := fw.Signed(t, "a", 1e8, 1e7, 1e4)
				b := fw.Signed(t, "b", 1e8)
				switch fw.Int(t, 0, 4, "rel") {
				case 0:
					b = math.MaxInt64 - a + int64(fw.Int(t, 0, 4, "o")) - 2
				case 1:
					b = a - math.MinInt64 + int64(fw.Int(t, 0, 4, "o")) - 2
				case 2:
					b = a + int64(fw.Int(t, 0, 4, "o")) - 2
				}
				return pair{fw.I(a), fw.I(b)}
			}, judge),
			fw.Prop("text", 300000, 8000000, func(t *rapid.T) fw.Str {
				if fw.Chance(t, 1, 10, "junk") {
					return fw.Junk(t, "j", 12)
				}
				var s string
				switch fw.Int(t, 0, 3, "kind") {
				case 0: // an amount's text
					s = refNdau(fw.NonNeg(t, "n", 1e8, 1e6))
				case 1: // next to the greatest
					v := new(big.Int).Add(bi(math.MaxInt64), bi(int64(fw.Int(t, 0, 6, "o")-3)))
					if fw.Chance(t, 1, 3, "wrap") {
						v.Lsh(v, uint(fw.Int(t, 0, 4, "w")))
						v.Add(v, bi(fw.NonNeg(t, "x")>>1))
					}
					d := v.String()
					s = d[:len(d)-8] + "." + d[len(d)-8:]
				default:
					s = fw.Digits(t, fw.Int(t, 0, fw.Pick(t, "long", 4, 12, 24), "nw"), "w")
					if fw.Chance(t, 2, 3, "point") {
						s += "." + fw.Digits(t, fw.Int(t, 0, 10, "nf"), "f")
					}
				}
				if fw.Chance(t, 1, 8, "space") {
					s = fw.Pick(t, "l", "", " ", "\t\n", "  ") + s + fw.Pick(t, "r", "", " ", "\r\n", "\f", "\u00a0")
				}
				if fw.Chance(t, 1, 6, "mutate") {
					s = fw.Mutate(t, s, "0123456789.,-+ eE_x\t", "m")
				}
				return fw.Str(s)
			}, text),
			fw.Enum("edges", func() []pair {
				var out []pair
				es := []fw.I{math.MinInt64, math.MinInt64 + 1, -1e8 - 1, -1e8, -1e8 + 1, -1, 0, 1, 99999999, 1e8, 1e8 + 1, math.MaxInt64 - 1, math.MaxInt64}
				for _, a := range es {
					for _, b := range es {
						out = append(out, pair{a, b})
					}
				}
				return out
			}, judge),
		},
	}
}

// ---- C28

var durUnits = []struct {
	sym  string
	unit int64
	max  int64 // greatest value the printed text may have for it
}{
	{"y", 365 * 86400e6, math.MaxInt64}, {"m", 30 * 86400e6, 12}, {"d", 86400e6, 29},
	{"h", 3600e6, 23}, {"m", 60e6, 59}, {"s", 1e6, 59}, {"u", 1, 999999},
}

// refParseDuration is a hand-written reader of
// [-][p][y][m][d][t[h][m][s][u|us|micro-sign|micro-sign s]], case-insensitive.
// It reports the parts too.
func refParseDuration(s string) (verdict int, v *big.Int, parts [7]*big.Int) {
	for _, r := range s {
		if r > 126 && r != 'μ' && r != 'µ' && r != 'Μ' {
			if r == 'ſ' {
				return undecided, nil, parts
			}
			return bad, nil, parts
		}
	}
	if strings.ContainsAny(s, "µΜ") {
		return undecided, nil, parts
	}
	low := strings.ToLower(strings.ReplaceAll(s, "μ", "u"))
	neg := strings.HasPrefix(low, "-")
	low = strings.TrimPrefix(low, "-")
	low = strings.TrimPrefix(low, "p")
	sum := new(big.Int)
	field := func(i, maxDigits int) bool {
		n := 0
		for n < len(low) && low[n] >= '0' && low[n] <= '9' {
			n++
		}
		if n == 0 || n > maxDigits || n >= len(low) || low[n:n+1] != durUnits[i].sym {
			return false
		}
		parts[i], _ = new(big.Int).SetString(low[:n], 10)
		sum.Add(sum, new(big.Int).Mul(parts[i], bi(durUnits[i].unit)))
		low = low[n+1:]
		return true
	}
	field(0, math.MaxInt32)
	field(1, 2)
	field(2, 2)
	if strings.HasPrefix(low, "t") {
		low = low[1:]
		field(3, 2)
		field(4, 2)
		field(5, 2)
		if field(6, 6) {
			low = strings.TrimPrefix(low, "s")
		}
	}
	if low != "" {
		return bad, nil, parts
	}
	if neg {
		sum.Neg(sum)
	}
	if !sum.IsInt64() {
		return bad, sum, parts
	}
	some := false
	for _, p := range parts {
		some = some || p != nil
	}
	if !some && s != "" {
		// only signs and markers: accepted today as zero, not claimed
		return undecided, sum, parts
	}
	return good, sum, parts
}

func c28() fw.Property {
	judge := func(c fw.I, o *fw.Obs) error {
		d := types.Duration(c)
		s := d.String()
		o.NTIf(len(s) > 4)
		o.LabelIf(d < 0, "negative")
		verdict, v, parts := refParseDuration(s)
		if verdict != good || !v.IsInt64() || v.Int64() != int64(d) {
			return fw.Errf("duration %d prints as %q, which stands for %v", int64(d), s, v)
		}
		for i, p := range parts {
			if p != nil && p.Cmp(bi(durUnits[i].max)) > 0 {
				return fw.Errf("duration %d prints as %q with %v%s", int64(d), s, p, durUnits[i].sym)
			}
		}
		back, err := types.ParseDuration(s)
		if err != nil || back != d {
			return fw.Errf("duration %d prints as %q, which reads as %d, %v", int64(d), s, int64(back), err)
		}
		mt, err := d.MarshalText()
		if err != nil {
			return fw.Errf("MarshalText: %v", err)
		}
		var u types.Duration = 12345
		if err := u.UnmarshalText(mt); err != nil || u != d {
			return fw.Errf("duration %d marshals as %q, which unmarshals as %d, %v", int64(d), mt, int64(u), err)
		}
		// the standard library
		ms := new(big.Int).Quo(bi(int64(d)), bi(1000))
		ns := new(big.Int).Mul(ms, bi(1e6))
		if ns.IsInt64() {
			td := d.TimeDuration()
			if int64(td) != ns.Int64() {
				return fw.Errf("duration %d is %d ns in the standard library, want %v", int64(d), int64(td), ns)
			}
			if got := types.DurationFrom(td); bi(int64(got)).Cmp(new(big.Int).Mul(ms, bi(1000))) != 0 {
				return fw.Errf("duration %d comes back from %v as %d", int64(d), td, int64(got))
			}
		}
		if got, want := types.DurationFrom(time.Duration(c)), int64(c)/1e6*1000; int64(got) != want {
			return fw.Errf("DurationFrom(%d ns) = %d, want %d", int64(c), int64(got), want)
		}
		return nil
	}
	text := func(s fw.Str, o *fw.Obs) error {
		verdict, want, _ := refParseDuration(string(s))
		got, err := types.ParseDuration(string(s))
		var u types.Duration = -987654321
		uerr := u.UnmarshalText([]byte(s))
		if (*types.Duration)(nil).UnmarshalText([]byte(s)) == nil {
			return fw.Errf("reading %q into no variable succeeds", string(s))
		}
		if (err == nil) != (uerr == nil) {
			return fw.Errf("ParseDuration(%q): %v, UnmarshalText: %v", string(s), err, uerr)
		}
		if uerr != nil && u != -987654321 {
			return fw.Errf("UnmarshalText(%q) failed but changed the duration to %d", string(s), int64(u))
		}
		if uerr == nil && u != got {
			return fw.Errf("ParseDuration(%q) = %d, UnmarshalText %d", string(s), int64(got), int64(u))
		}
		switch verdict {
		case bad:
			o.Label("refused")
			o.NTIf(want != nil)
			o.LabelIf(want != nil, "too-large")
			if err == nil {
				return fw.Errf("ParseDuration(%q) = %d; want an error", string(s), int64(got))
			}
		case good:
			o.NTIf(len(s) > 2)
			if err != nil || bi(int64(got)).Cmp(want) != 0 {
				return fw.Errf("ParseDuration(%q) = %d, %v; want %v", string(s), int64(got), err, want)
			}
		default:
			o.Label("undecided")
		}
		return nil
	}
	units := []uint64{365 * 86400e6, 30 * 86400e6, 86400e6, 3600e6, 60e6, 1e6, 1e3}
	return fw.Property{
		ID:          "C28",
		Rule:        "durations with at least two components; texts with at least one component, or too large",
		Assumptions: []string{shimNote},
		Subs: []fw.Sub{
			fw.Prop("values", 250000, 8000000, func(t *rapid.T) fw.I {
				if fw.Chance(t, 1, 2, "sum") {
					var v uint64
					for i := range durUnits {
						if fw.Chance(t, 1, 2, "has") {
							v += uint64(durUnits[i].unit) * uint64(fw.Int(t, 0, 60, "k"))
						}
					}
					if fw.Chance(t, 1, 2, "neg") {
						v = -v
					}
					return fw.I(v)
				}
				return fw.I(fw.Signed(t, "d", units...))
			}, judge),
			fw.Prop("text", 200000, 6000000, func(t *rapid.T) fw.Str {
				if fw.Chance(t, 1, 12, "junk") {
					return fw.Junk(t, "j", 12)
				}
				s := fw.Pick(t, "sign", "", "", "", "-") + fw.Pick(t, "p", "", "", "p")
				if fw.Chance(t, 1, 20, "limit") {
					// the largest there are, and the first which are too large
					rest := uint64(1)<<63 + uint64(int64(fw.Int(t, -3, 3, "over")))
					if fw.Chance(t, 1, 2, "least") {
						s = "-" + strings.TrimPrefix(s, "-")
					}
					for i, u := range durUnits {
						n := rest / uint64(u.unit)
						if rest -= n * uint64(u.unit); n == 0 {
							continue
						}
						if i >= 3 && !strings.Contains(s, "t") {
							s += "t"
						}
						s += strconv.FormatUint(n, 10) + u.sym
					}
					return fw.Str(s)
				}
				if fw.Chance(t, 1, 2, "y") {
					switch fw.Int(t, 0, 4, "ys") {
					case 0: // next to the limit
						y := int64(math.MaxInt64 / durUnits[0].unit)
						s += strconv.FormatInt(y+int64(fw.Int(t, 0, 2, "yo"))-1, 10)
					case 1:
						s += fw.Digits(t, fw.Int(t, 1, 24, "yn"), "yd")
					default:
						s += fw.Digits(t, fw.Int(t, 1, 4, "yn"), "yd")
					}
					s += "y"
				}
				part := func(sym string, most int) {
					if fw.Chance(t, 1, 2, sym) {
						n := fw.Int(t, 1, most, sym+"n")
						if fw.Chance(t, 1, 25, "over") {
							n = most + 1
						}
						s += fw.Digits(t, n, sym+"d") + sym
					}
				}
				part("m", 2)
				part("d", 2)
				if fw.Chance(t, 2, 3, "t") {
					s += "t"
					part("h", 2)
					part("m", 2)
					part("s", 2)
					part(fw.Pick(t, "micro", "u", "us", "μ", "μs"), 6)
				}
				if fw.Chance(t, 1, 10, "upper") {
					s = strings.ReplaceAll(strings.ToUpper(s), "Μ", "μ")
				}
				if fw.Chance(t, 1, 6, "mutate") {
					s = fw.Mutate(t, s, "0123456789ymdthsup- .PT", "mu")
				}
				return fw.Str(s)
			}, text),
			fw.Enum("edges", func() []fw.I {
				out := []fw.I{0, math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1}
				for _, u := range durUnits {
					for k := int64(1); k <= 60; k++ {
						for off := int64(-1); off <= 1; off++ {
							out = append(out, fw.I(k*u.unit+off), fw.I(-k*u.unit+off))
						}
					}
				}
				return out
			}, judge),
		},
	}
}

// ---- C29

// civil gives the days from 1970-01-01 to a date of the Gregorian calendar by
// counting years and months.
func civil(y, m, d int) int64 {
	leap := func(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	n := int64(0)
	// whole 400-year cycles, then year by year
	for y >= 2370 {
		y -= 400
		n += 146097
	}
	for y < 1970 {
		y += 400
		n -= 146097
	}
	for k := 1970; k < y; k++ {
		n += 365
		if leap(k) {
			n++
		}
	}
	for k := 1; k < m; k++ {
		n += int64(monthLen(y, k))
	}
	return n + int64(d) - 1
}

func monthLen(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

var epochDays = civil(2000, 1, 1)

// endOf9999 is the last microsecond of the year 9999.
var endOf9999 = (civil(10000, 1, 1)-epochDays)*86400e6 - 1

// refParseTimestamp reads YYYY-MM-DDThh:mm:ss[.digits]Z.
func refParseTimestamp(s string) (int, int64) {
	strict := len(s) >= 20
	pat := "dddd-dd-ddTdd:dd:dd"
	for i := 0; strict && i < len(pat); i++ {
		if pat[i] == 'd' {
			strict = s[i] >= '0' && s[i] <= '9'
		} else {
			strict = s[i] == pat[i]
		}
	}
	rest := ""
	if strict {
		rest = s[19:]
		strict = strings.HasSuffix(rest, "Z")
		rest = strings.TrimSuffix(rest, "Z")
		if strict && rest != "" {
			strict = rest[0] == '.' && len(rest) > 1 && isDigits(rest[1:])
		}
	}
	if !strict {
		// the standard library tolerates a comma for the point, one-digit
		// fields in places and a sign in the fraction; that is not claimed
		// either way
		s = strings.NewReplacer(".-", ".0", ",-", ",0", ".+", ".0", ",+", ",0").Replace(s)
		if len(s) >= 10 && strings.Count(s, "-") == 2 && strings.Count(s, ":") == 2 && strings.Count(s, "T") == 1 && strings.HasSuffix(s, "Z") && strings.Trim(s, "0123456789-:TZ.,") == "" {
			return undecided, 0
		}
		return bad, 0
	}
	n := func(i, j int) int { v, _ := strconv.Atoi(s[i:j]); return v }
	y, mo, d, h, mi, se := n(0, 4), n(5, 7), n(8, 10), n(11, 13), n(14, 16), n(17, 19)
	if mo < 1 || mo > 12 || d < 1 || d > monthLen(y, mo) || h > 23 || mi > 59 || se > 59 || y < 2000 {
		return bad, 0
	}
	us := 0
	if rest != "" {
		f := (rest[1:] + "000000")[:6]
		us, _ = strconv.Atoi(f)
	}
	return good, (civil(y, mo, d)-epochDays)*86400e6 + int64(h)*3600e6 + int64(mi)*60e6 + int64(se)*1e6 + int64(us)
}

func refTimestampText(ts int64) string {
	days, rem := ts/86400e6, ts%86400e6
	// the year by bisection
	lo, hi := 2000, 9999
	for lo < hi {
		m := (lo + hi + 1) / 2
		if civil(m, 1, 1)-epochDays <= days {
			lo = m
		} else {
			hi = m - 1
		}
	}
	days -= civil(lo, 1, 1) - epochDays
	m := 1
	for days >= int64(monthLen(lo, m)) {
		days -= int64(monthLen(lo, m))
		m++
	}
	z := func(v int64, n int) string {
		s := strconv.FormatInt(v, 10)
		return strings.Repeat("0", n-len(s)) + s
	}
	return z(int64(lo), 4) + "-" + z(int64(m), 2) + "-" + z(days+1, 2) + "T" + z(rem/3600e6, 2) + ":" + z(rem/60e6%60, 2) + ":" + z(rem/1e6%60, 2) + "." + z(rem%1e6, 6) + "Z"
}

func timestamp(t *rapid.T, label string) int64 {
	v := fw.NonNeg(t, label, 365*86400e6, 86400e6, 1e6)
	switch fw.Int(t, 0, 4, label+"range") {
	case 0:
		return v % (40 * 365 * 86400e6)
	case 1, 2:
		return v % (endOf9999 + 1)
	case 3: // around the turn of a year
		y := 2000 + int(v%8000)
		x := (civil(y, fw.Pick(t, label+"mo", 1, 3), 1)-epochDays)*86400e6 + int64(fw.Int(t, 0, 4, label+"o")) - 2
		if x >= 0 && x <= endOf9999 {
			return x
		}
		return 0
	}
	return v
}

func c29() fw.Property {
	type two struct{ A, B fw.I }
	judge := func(c two, o *fw.Obs) error {
		a, b := types.Timestamp(c.A), types.Timestamp(c.B)
		// every timestamp converts to a calendar time and back
		at, bt := a.AsTime(), b.AsTime()
		if _, off := at.Zone(); off != 0 {
			return fw.Errf("AsTime(%d) is not in UTC: %v", int64(a), at)
		}
		us := int64(a)
		if at.Unix() != us/1e6+epochDays*86400 || int64(at.Nanosecond()) != us%1e6*1000 {
			return fw.Errf("AsTime(%d) = %v", int64(a), at)
		}
		back, err := types.TimestampFrom(at)
		if err != nil || back != a {
			return fw.Errf("timestamp %d is %v, which converts to %d, %v", int64(a), at, int64(back), err)
		}
		if at.Before(bt) != (a < b) || at.Equal(bt) != (a == b) {
			return fw.Errf("timestamps %d and %d are not ordered like %v and %v", int64(a), int64(b), at, bt)
		}
		// time zones and nanoseconds do not matter
		zone := time.FixedZone("x", int(c.B%50000))
		if got, err := types.TimestampFrom(at.Add(999 * time.Nanosecond).In(zone)); err != nil || got != a {
			return fw.Errf("timestamp %d in another zone with 999 ns converts to %d, %v", int64(a), int64(got), err)
		}
		if a > types.Timestamp(endOf9999) {
			o.Label("after-9999")
			return nil
		}
		o.NTIf(a > 0)
		s := a.String()
		if want := refTimestampText(us); s != want {
			return fw.Errf("timestamp %d prints as %q, want %q", us, s, want)
		}
		p, err := types.ParseTimestamp(s)
		if err != nil || p != a {
			return fw.Errf("timestamp %d prints as %q, which reads as %d, %v", us, s, int64(p), err)
		}
		mt, err := a.MarshalText()
		var u types.Timestamp = 77
		if err != nil {
			return fw.Errf("MarshalText: %v", err)
		}
		if err := u.UnmarshalText(mt); err != nil || u != a {
			return fw.Errf("timestamp %d marshals as %q, which unmarshals as %d, %v", us, mt, int64(u), err)
		}
		return nil
	}
	text := func(s fw.Str, o *fw.Obs) error {
		got, err := types.ParseTimestamp(string(s))
		var u types.Timestamp = 123456789
		uerr := u.UnmarshalText([]byte(s))
		if (*types.Timestamp)(nil).UnmarshalText([]byte(s)) == nil {
			return fw.Errf("reading %q into no variable succeeds", string(s))
		}
		if (err == nil) != (uerr == nil) || (err == nil && u != got) {
			return fw.Errf("ParseTimestamp(%q) = %d, %v but UnmarshalText gives %d, %v", string(s), int64(got), err, int64(u), uerr)
		}
		if uerr != nil && u != 123456789 {
			return fw.Errf("UnmarshalText(%q) failed but changed the timestamp to %d", string(s), int64(u))
		}
		verdict, want := refParseTimestamp(string(s))
		switch verdict {
		case bad:
			o.Label("refused")
			o.NTIf(len(s) >= 20)
			if err == nil {
				return fw.Errf("ParseTimestamp(%q) = %d; want an error", string(s), int64(got))
			}
		case good:
			o.NT()
			if err != nil || int64(got) != want {
				return fw.Errf("ParseTimestamp(%q) = %d, %v; want %d", string(s), int64(got), err, want)
			}
		default:
			o.Label("undecided")
		}
		return nil
	}
	type cal struct {
		Sec  fw.I // Unix
		Nano int
		Zone int
	}
	calendar := func(c cal, o *fw.Obs) error {
		t := time.Unix(int64(c.Sec), int64(c.Nano)).In(time.FixedZone("z", c.Zone))
		v := new(big.Int).Sub(bi(int64(c.Sec)), bi(epochDays*86400))
		before := v.Sign() < 0
		v.Mul(v, bi(1e6)).Add(v, bi(int64(c.Nano)/1000))
		got, err := types.TimestampFrom(t)
		if before || !v.IsInt64() {
			o.Label("refused")
			if err == nil {
				return fw.Errf("TimestampFrom(%v) = %d; want an error", t, int64(got))
			}
			return nil
		}
		o.NT()
		if err != nil || int64(got) != v.Int64() {
			return fw.Errf("TimestampFrom(%v) = %d, %v; want %v", t, int64(got), err, v)
		}
		return nil
	}
	return fw.Property{
		ID:          "C29",
		Rule:        "timestamps after the epoch; texts of the full length",
		Assumptions: []string{shimNote},
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("values", 250000, 8000000, func(t *rapid.T) two {
				a := timestamp(t, "a")
				b := timestamp(t, "b")
				if fw.Chance(t, 1, 3, "near") {
					b = a + int64(fw.Int(t, 0, 4, "o")) - 2
					if b < 0 {
						b = a
					}
				}
				return two{fw.I(a), fw.I(b)}
			}, judge), func(c *two) bool {
				c.A &= math.MaxInt64
				c.B &= math.MaxInt64
				return true
			}),
			fw.Fit(fw.Prop("calendar", 150000, 5000000, func(t *rapid.T) cal {
				var sec int64
				lim := int64(math.MaxInt64/1000000) + epochDays*86400
				switch fw.Int(t, 0, 5, "where") {
				case 0:
					sec = epochDays*86400 + int64(fw.Int(t, 0, 4, "o")) - 2
				case 1:
					sec = lim + int64(fw.Int(t, 0, 4, "o")) - 2
				case 2:
					sec = fw.NonNeg(t, "s") % (1 << 55)
				case 3:
					sec = -fw.NonNeg(t, "s") % (1 << 55)
				default:
					sec = epochDays*86400 + fw.NonNeg(t, "s")%(lim-epochDays*86400)
				}
				nano := fw.Pick(t, "edge", 0, 1, 999, 1000, 999999999, 999999000, 775807000, 775807999, 775808000)
				if fw.Chance(t, 1, 2, "n?") {
					nano = fw.Int(t, 0, 999999999, "n")
				}
				return cal{fw.I(sec), nano, fw.Int(t, -14*3600, 14*3600, "zone")}
			}, calendar), func(c *cal) bool { return c.Nano >= 0 && c.Nano < 1e9 && c.Zone >= -14*3600 && c.Zone <= 14*3600 }),
			fw.Prop("text", 250000, 8000000, func(t *rapid.T) fw.Str {
				if fw.Chance(t, 1, 15, "junk") {
					return fw.Junk(t, "j", 24)
				}
				s := refTimestampText(timestamp(t, "t") % (endOf9999 + 1))
				b := []byte(s)
				put := func(i, v, n int) {
					for k := n - 1; k >= 0; k-- {
						b[i+k] = byte('0' + v%10)
						v /= 10
					}
				}
				switch fw.Int(t, 0, 5, "field") {
				case 0:
					put(0, fw.Pick(t, "y", 0, 1, 1970, 1999, 2000, 2001, 2100, 2400, 9999), 4)
				case 1:
					put(5, fw.Int(t, 0, 13, "mo"), 2)
					put(8, fw.Pick(t, "d", 0, 1, 28, 29, 30, 31, 32), 2)
				case 2:
					put(5, 2, 2)
					put(8, fw.Pick(t, "d", 28, 29, 30), 2)
				case 3:
					put(11, fw.Pick(t, "h", 0, 12, 23, 24, 25, 99), 2)
				case 4:
					put(fw.Pick(t, "ms", 14, 17), fw.Pick(t, "v", 0, 59, 60, 61, 99), 2)
				}
				s = string(b)
				switch fw.Int(t, 0, 4, "fraction") {
				case 0:
					s = s[:19] + "Z"
				case 1:
					s = s[:20] + fw.Digits(t, fw.Int(t, 0, 14, "fn"), "f") + "Z"
				case 2:
					s = s[:len(s)-1] + fw.Pick(t, "z", "", "z", "+00:00", "-07:00", " Z", "ZZ", "UTC")
				}
				if fw.Chance(t, 1, 8, "mutate") {
					s = fw.Mutate(t, s, "0123456789-:TZ., t+", "m")
				}
				return fw.Str(s)
			}, text),
			fw.Enum("days", func() []two {
				// every day from 2000 to 2403 (a whole cycle of the
				// calendar), at its first and last microsecond
				var out []two
				for d := int64(0); d < 146097+1200; d++ {
					out = append(out, two{fw.I(d * 86400e6), fw.I(d*86400e6 + 86400e6 - 1)})
				}
				return out
			}, judge),
		},
	}
}

// ---- C30

func c30() fw.Property {
	type tri struct{ T, U, D fw.I }
	clamp := func(v *big.Int) int64 {
		if v.Sign() < 0 {
			return 0
		}
		if !v.IsInt64() {
			return math.MaxInt64
		}
		return v.Int64()
	}
	judge := func(c tri, o *fw.Obs) error {
		t, u, d := types.Timestamp(c.T), types.Timestamp(c.U), types.Duration(c.D)
		sum := new(big.Int).Add(bi(int64(t)), bi(int64(d)))
		dif := new(big.Int).Sub(bi(int64(t)), bi(int64(d)))
		o.NTIf(sum.Sign() < 0 || !sum.IsInt64() || dif.Sign() < 0 || !dif.IsInt64())
		if got, want := t.Add(d), clamp(sum); int64(got) != want {
			return fw.Errf("%d + %d = %d, want %d", int64(t), int64(d), int64(got), want)
		}
		if got, want := t.Sub(d), clamp(dif); int64(got) != want {
			return fw.Errf("%d - %d = %d, want %d", int64(t), int64(d), int64(got), want)
		}
		s := t.Since(u)
		if int64(s) != int64(t)-int64(u) {
			return fw.Errf("%d since %d is %d", int64(t), int64(u), int64(s))
		}
		if u.Add(s) != t || t.Sub(s) != u {
			return fw.Errf("%d since %d is %d, but adding it gives %d and subtracting it %d", int64(t), int64(u), int64(s), int64(u.Add(s)), int64(t.Sub(s)))
		}
		sign := 0
		if s > 0 {
			sign = 1
		} else if s < 0 {
			sign = -1
		}
		if t.Compare(u) != sign || u.Compare(t) != -sign {
			return fw.Errf("Compare(%d, %d) = %d, reversed %d", int64(t), int64(u), t.Compare(u), u.Compare(t))
		}
		return nil
	}
	es := []fw.I{0, 1, 2, 1e6, math.MaxInt64/2 - 1, math.MaxInt64 / 2, math.MaxInt64/2 + 1, math.MaxInt64 - 1, math.MaxInt64}
	return fw.Property{
		ID:          "C30",
		Rule:        "sums or differences outside the range of timestamps",
		Assumptions: []string{shimNote},
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("triples", 1500000, 40000000, func(t *rapid.T) tri {
				a, b := fw.NonNeg(t, "t", 86400e6), fw.NonNeg(t, "u", 86400e6)
				d := fw.Signed(t, "d", 86400e6)
				off := int64(fw.Int(t, 0, 4, "o")) - 2
				switch fw.Int(t, 0, 5, "rel") {
				case 0:
					d = a + off
				case 1:
					d = -a + off
				case 2:
					d = math.MaxInt64 - a + off
				case 3:
					d = a - math.MaxInt64 + off
				}
				if fw.Chance(t, 1, 4, "near") {
					b = a + off
					if b < 0 {
						b = a
					}
				}
				return tri{fw.I(a), fw.I(b), fw.I(d)}
			}, judge), func(c *tri) bool {
				c.T &= math.MaxInt64
				c.U &= math.MaxInt64
				return true
			}),
			fw.Enum("edges", func() []tri {
				var out []tri
				ds := append([]fw.I{math.MinInt64}, es...)
				for _, e := range es {
					ds = append(ds, -e)
				}
				for _, t := range es {
					for _, u := range es {
						for _, d := range ds {
							out = append(out, tri{t, u, d})
						}
					}
				}
				return out
			}, judge),
		},
	}
}

// ---- C31

type step struct{ Since, Qty fw.I }
type waaCase struct {
	Age, Balance fw.I
	Steps        []step
}

func c31() fw.Property {
	judge := func(c waaCase, o *fw.Obs) error {
		age := types.Duration(c.Age)
		bal := int64(c.Balance)
		received, sent := false, false
		for i, st := range c.Steps {
			sum := new(big.Int).Add(bi(int64(age)), bi(int64(st.Since)))
			if !sum.IsInt64() || bal < 0 {
				// outside the property
				o.Label("cut")
				break
			}
			want := new(big.Int).Set(sum)
			nb := new(big.Int).Add(bi(bal), bi(int64(st.Qty)))
			fails := false
			if st.Qty >= 0 {
				switch {
				case !nb.IsInt64():
					fails = true
				case nb.Sign() > 0:
					want.Mul(want, bi(bal)).Quo(want, nb)
					received = received || (st.Qty > 0 && bal > 0 && sum.Sign() != 0)
				}
			} else {
				sent = true
			}
			before := age
			err := age.UpdateWeightedAverageAge(types.Duration(st.Since), types.Ndau(st.Qty), types.Ndau(bal))
			if fails {
				o.Label("overflow")
				if err == nil {
					return fw.Errf("step %d: age %d, since %d, balance %d, received %d: new balance too large, but no error", i, int64(before), int64(st.Since), bal, int64(st.Qty))
				}
				if age != before {
					return fw.Errf("step %d failed but changed the age from %d to %d", i, int64(before), int64(age))
				}
				continue
			}
			if err != nil || bi(int64(age)).Cmp(want) != 0 {
				return fw.Errf("step %d: age %d, since %d, balance %d, moved %d: new age %d, %v; want %v", i, int64(before), int64(st.Since), bal, int64(st.Qty), int64(age), err, want)
			}
			if before >= 0 && st.Since >= 0 && (age < 0 || bi(int64(age)).Cmp(sum) > 0) {
				return fw.Errf("step %d: the age went from %d to %d in %d", i, int64(before), int64(age), int64(st.Since))
			}
			bal = nb.Int64()
		}
		o.NTIf(received)
		o.LabelIf(received, "received")
		o.LabelIf(sent, "sent")
		return nil
	}
	gen := func(t *rapid.T) waaCase {
		wild := fw.Chance(t, 1, 3, "wild")
		span := func(label string) int64 {
			if wild {
				if fw.Chance(t, 1, 6, label+"neg") {
					return fw.Signed(t, label)
				}
				return fw.NonNeg(t, label, 86400e6)
			}
			return fw.NonNeg(t, label, 86400e6) % (30 * 365 * 86400e6)
		}
		c := waaCase{Age: fw.I(span("age"))}
		amount := func(label string) int64 {
			if wild {
				return fw.NonNeg(t, label, 1e8)
			}
			return fw.NonNeg(t, label, 1e8) % 1e15
		}
		bal := amount("bal")
		c.Balance = fw.I(bal)
		for k := fw.Int(t, 1, 8, "steps"); k > 0; k-- {
			var q int64
			switch fw.Int(t, 0, 7, "move") {
			case 0:
				q = 0
			case 1:
				q = -bal
			case 2, 3:
				if bal > 0 {
					q = -(amount("q") % (bal + 1))
				}
			case 4:
				q = math.MaxInt64 - bal + int64(fw.Int(t, 0, 2, "qo")) - 1
				if q < 0 || !wild {
					q = amount("q")
				}
			default:
				q = amount("q")
			}
			c.Steps = append(c.Steps, step{fw.I(span("since")), fw.I(q)})
			if nb := bal + q; nb >= 0 && (q <= 0 || nb >= bal) {
				bal = nb
			}
		}
		return c
	}
	// amounts of any sign: exact, or an error and nothing changed
	type anyCase struct{ Age, Since, Qty, Bal fw.I }
	anyJudge := func(c anyCase, o *fw.Obs) error {
		sum := new(big.Int).Add(bi(int64(c.Age)), bi(int64(c.Since)))
		if !sum.IsInt64() {
			o.Label("cut")
			return nil
		}
		nb := new(big.Int).Add(bi(int64(c.Bal)), bi(int64(c.Qty)))
		want := new(big.Int).Set(sum)
		fails := false
		if c.Qty >= 0 {
			fails = !nb.IsInt64()
			if !fails && nb.Sign() > 0 {
				want.Mul(want, bi(int64(c.Bal))).Quo(want, nb)
				fails = !want.IsInt64()
				o.NTIf(c.Bal < 0)
				o.LabelIf(fails, "too-large")
			}
		}
		age := types.Duration(c.Age)
		err := age.UpdateWeightedAverageAge(types.Duration(c.Since), types.Ndau(c.Qty), types.Ndau(c.Bal))
		if fails {
			if err == nil || int64(age) != int64(c.Age) {
				return fw.Errf("age %d, since %d, balance %d, moved %d: new age %d, %v; want an error and no change", c.Age, c.Since, c.Bal, c.Qty, int64(age), err)
			}
			return nil
		}
		if err != nil || bi(int64(age)).Cmp(want) != 0 {
			return fw.Errf("age %d, since %d, balance %d, moved %d: new age %d, %v; want %v", c.Age, c.Since, c.Bal, c.Qty, int64(age), err, want)
		}
		return nil
	}
	anyGen := func(t *rapid.T) anyCase {
		c := anyCase{fw.I(fw.Signed(t, "age")), fw.I(fw.Signed(t, "since")), fw.I(fw.Signed(t, "qty")), fw.I(fw.Signed(t, "bal"))}
		if fw.Chance(t, 2, 3, "overdrawn") {
			// a transfer which makes good for a negative balance
			c.Bal = fw.I(-fw.NonNeg(t, "debt", 1e8))
			c.Qty = -c.Bal
			if more := fw.I(fw.NonNeg(t, "more", 1e8)); c.Qty >= 0 && c.Qty <= math.MaxInt64-more {
				c.Qty += more
			}
		}
		return c
	}
	return fw.Property{
		ID:          "C31",
		Rule:        "histories in which an account with a balance and an age receives a transfer; transfers which make good for a negative balance",
		Assumptions: []string{shimNote},
		Subs: []fw.Sub{
			fw.Prop("histories", 300000, 8000000, gen, judge),
			fw.Prop("any-amounts", 150000, 4000000, anyGen, anyJudge),
		},
	}
}
