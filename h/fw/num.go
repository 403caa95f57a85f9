package fw

import (
	"math"
	"strconv"

	"pgregory.net/rapid"
)

// U is an unsigned number which survives JSON.
type U uint64

// MarshalText implements encoding.TextMarshaler
func (u U) MarshalText() ([]byte, error) { return strconv.AppendUint(nil, uint64(u), 10), nil }

// UnmarshalText implements encoding.TextUnmarshaler
func (u *U) UnmarshalText(t []byte) error {
	v, err := strconv.ParseUint(string(t), 10, 64)
	*u = U(v)
	return err
}

// I is a signed number which survives JSON.
type I int64

// MarshalText implements encoding.TextMarshaler
func (u I) MarshalText() ([]byte, error) { return strconv.AppendInt(nil, int64(u), 10), nil }

// UnmarshalText implements encoding.TextUnmarshaler
func (u *I) UnmarshalText(t []byte) error {
	v, err := strconv.ParseInt(string(t), 10, 64)
	*u = I(v)
	return err
}

// Word draws a 64-bit pattern: uniform in length, edges, powers of two and
// round numbers. The units are additional interesting values, which are
// multiplied and offset.
func Word(t *rapid.T, label string, units ...uint64) uint64 {
	v := U64(t, label)
	if f, ok := favoured(t); ok {
		if len(units) > 0 && uniform(t, 3, label+"fu") == 2 {
			return f * units[uniform(t, len(units), label+"u")]
		}
		return f
	}
	if len(units) > 0 && Chance(t, 1, 2, label+"u?") {
		u := units[Int(t, 0, len(units)-1, label+"u")]
		k := uint64(1)
		if u > 0 {
			k = math.MaxUint64/u + 1
		}
		switch Int(t, 0, 2, label+"uk") {
		case 0:
			k = uint64(Int(t, 0, 20, label+"um"))
		case 1:
			if k > 0 {
				k = v % k
			}
		default:
			if k > 0 {
				k = (v >> uint(Int(t, 0, 63, label+"us"))) % k
			}
		}
		return k*u + uint64(Int(t, 0, 4, label+"uo")) - 2
	}
	switch Int(t, 0, 7, label+"?") {
	case 0:
		return Pick[uint64](t, label+"e", 0, 1, 2, 3, 10, math.MaxInt64, math.MaxInt64-1, 1<<63, 1<<63+1, math.MaxUint64, math.MaxUint64-1, math.MaxUint32, 1<<32, 1<<31, 1e8, 1e10)
	case 1:
		return uint64(1)<<uint(Int(t, 0, 63, label+"b")) + uint64(Int(t, 0, 4, label+"o")) - 2
	case 2:
		p := uint64(1)
		for n := Int(t, 0, 19, label+"d"); n > 0; n-- {
			p *= 10
		}
		return p*uint64(Int(t, 1, 9, label+"m")) + uint64(Int(t, 0, 2, label+"o")) - 1
	case 3:
		return uint64(Int(t, 0, 100, label+"s"))
	case 4:
		return v
	}
	return v >> uint(Int(t, 0, 63, label+"sh"))
}

// NonNeg draws a non-negative 63-bit number.
func NonNeg(t *rapid.T, label string, units ...uint64) int64 {
	return int64(Word(t, label, units...) & math.MaxInt64)
}

// Signed draws a number of either sign.
func Signed(t *rapid.T, label string, units ...uint64) int64 {
	v := int64(Word(t, label, units...))
	if Chance(t, 1, 2, label+"neg") {
		return -v
	}
	return v
}

// Digits draws n digits, sometimes all alike.
func Digits(t *rapid.T, n int, label string) string {
	b := make([]byte, n)
	style := Int(t, 0, 4, label+"?")
	for i := range b {
		switch style {
		case 0:
			b[i] = '0'
		case 1:
			b[i] = '9'
		default:
			b[i] = byte('0' + Int(t, 0, 9, label))
		}
	}
	return string(b)
}

// Mutate changes one or two characters of s: replaces, inserts, deletes,
// doubles, or cuts.
func Mutate(t *rapid.T, s string, alphabet string, label string) string {
	for k := Int(t, 1, 2, label+"n"); k > 0; k-- {
		b := []byte(s)
		c := alphabet[Int(t, 0, len(alphabet)-1, label+"c")]
		if favour.on && uniform(t, 6, label+"fav") == 5 {
			if len(favour.ints) > 0 && favour.ints[0] < 256 {
				c = byte(favour.ints[0])
			}
			if len(favour.strs) > 0 {
				i := Int(t, 0, len(b), label+"i")
				s = string(b[:i]) + favour.strs[0] + string(b[i:])
				continue
			}
		}
		i := Int(t, 0, len(b), label+"i")
		switch op := Int(t, 0, 4, label+"op"); {
		case op == 0 || i == len(b):
			s = string(b[:i]) + string(c) + string(b[i:])
		case op == 1:
			b[i] = c
			s = string(b)
		case op == 2:
			s = string(b[:i]) + string(b[i+1:])
		case op == 3:
			s = string(b[:i]) + string(b[i]) + string(b[i:])
		default:
			s = string(b[:i])
		}
	}
	return s
}
