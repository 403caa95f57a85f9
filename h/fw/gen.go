package fw

import (
	"strings"

	"pgregory.net/rapid"
)

// Hex is a byte slice which is written as hex in cases.
type Hex []byte

const hexd = "0123456789abcdef"

// MarshalText implements encoding.TextMarshaler
func (h Hex) MarshalText() ([]byte, error) {
	out := make([]byte, 0, 2*len(h))
	for _, b := range h {
		out = append(out, hexd[b>>4], hexd[b&15])
	}
	return out, nil
}

// UnmarshalText implements encoding.TextUnmarshaler
func (h *Hex) UnmarshalText(t []byte) error {
	out := make([]byte, 0, len(t)/2)
	for i := 0; i+1 < len(t); i += 2 {
		out = append(out, byte(strings.IndexByte(hexd, t[i])<<4|strings.IndexByte(hexd, t[i+1])))
	}
	*h = out
	return nil
}

// Clone copies.
func (h Hex) Clone() []byte { return append([]byte(nil), h...) }

// Bytes draws lo..hi bytes: usually uniform, sometimes degenerate.
func Bytes(t *rapid.T, lo, hi int, label string) Hex {
	n := Int(t, lo, hi, label+"#")
	return BytesN(t, n, label)
}

// lengths at which byte data may be treated differently
var lengths = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 40, 47, 48, 49, 55, 56, 57, 63, 64, 65, 66, 72, 80, 96, 100,
	111, 112, 113, 119, 120, 127, 128, 129, 191, 192, 193, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193,
	10000, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 262144, 1 << 20, 1<<20 + 1}

// Data draws byte data of any length up to max, where max is only there for
// the cost: short ones mostly, special lengths, and rarely long ones.
func Data(t *rapid.T, max int, label string) Hex {
	hi := min(max, 64)
	switch uniform(t, 16, label+"size") {
	case 6, 7, 8, 9:
		// a special length
		k := 0
		for k < len(lengths) && lengths[k] <= min(max, 300) {
			k++
		}
		return BytesN(t, lengths[uniform(t, k, label+"len")], label)
	case 10, 11, 12:
		hi = min(max, 300)
	case 13:
		hi = min(max, 3000)
	case 14:
		if uniform(t, 8, label+"long") == 7 {
			k := 0
			for k < len(lengths) && lengths[k] <= max {
				k++
			}
			return BytesN(t, lengths[k/2+uniform(t, k-k/2, label+"len")], label)
		}
	case 15:
		if uniform(t, 16, label+"long") == 15 {
			hi = max
		}
	}
	if v, ok := favouredIn(t, 0, max); ok {
		return BytesN(t, v, label)
	}
	return BytesN(t, Int(t, 0, hi, label+"#"), label)
}

// BytesN draws n bytes.
func BytesN(t *rapid.T, n int, label string) Hex {
	out := make(Hex, n)
	if n == 0 {
		return out
	}
	style := uniform(t, 32, label+"?")
	switch style {
	case 20, 21, 22: // constant
		b := Pick[byte](t, label+"c", 0, 0xff, 0x80, 1, 0x7f, 0, ' ', 'a')
		for i := range out {
			out[i] = b
		}
		if style == 22 {
			out[uniform(t, n, label+"i")] = rapid.Byte().Draw(t, label+"b")
		}
	case 23, 24: // sparse
		for k := 0; k < 3; k++ {
			out[uniform(t, n, label+"i")] = rapid.Byte().Draw(t, label+"b")
		}
	case 25, 26: // text
		al := Pick(t, label+"al", "abcdefghijkmnpqrstuvwxyz23456789", "0123456789abcdef", "0123456789ABCDEF", "abcdefghijklmnopqrstuvwxyz", " \n\t\r=/+-.,;:'\"{}[]<>", "0123456789", "npubnpvt")
		x := U64(t, label)
		for i := range out {
			x = x*6364136223846793005 + 1442695040888963407
			out[i] = al[int(x>>33)%len(al)]
		}
	case 27: // a repeated block
		w := 1 + uniform(t, min(n, 16), label+"w")
		for i := range out {
			if i < w {
				out[i] = rapid.Byte().Draw(t, label+"b")
			} else {
				out[i] = out[i-w]
			}
		}
	case 28: // counting up or down
		d := Pick[byte](t, label+"d", 1, 0xff, 3)
		v := rapid.Byte().Draw(t, label+"b")
		for i := range out {
			out[i] = v
			v += d
		}
	default:
		if n > 400 {
			x := U64(t, label)
			for i := range out {
				x = x*6364136223846793005 + 1442695040888963407
				out[i] = byte(x >> 33)
			}
		} else {
			// eight bytes per draw: fast, still shrinkable
			i := 0
			for i < n {
				v := rapid.Uint64().Draw(t, label)
				if style < 16 {
					// rapid's integers are biased to small values; spread them
					v *= 0x9E3779B97F4A7C15
					v ^= v >> 29
				}
				for k := 0; k < 8 && i < n; k++ {
					out[i] = byte(v >> (8 * uint(k)))
					i++
				}
			}
		}
		switch style {
		case 9: // leading zeros or ones
			b := Pick[byte](t, label+"c", 0, 0, 0, 0xff)
			for k := uniform(t, min(n, 8), label+"z"); k >= 0; k-- {
				out[k] = b
			}
		case 10: // trailing zeros or ones
			b := Pick[byte](t, label+"c", 0, 0, 0, 0xff)
			for k := uniform(t, min(n, 8), label+"z"); k >= 0; k-- {
				out[n-1-k] = b
			}
		case 11, 12: // a first or last byte of note
			at := 0
			if style == 12 {
				at = n - 1
			}
			out[at] = Pick[byte](t, label+"c", 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0a, 0x20, 0x30, 0x3d, 0x61, 0x6e, 0x7f, 0x80, 0x90, 0x92, 0xa0, 0xc0, 0xc4, 0xc5, 0xc6, 0xcc, 0xfe, 0xff)
		case 13: // zeros in the middle
			at := uniform(t, n, label+"i")
			for k := uniform(t, 6, label+"z"); k >= 0 && at < n; k-- {
				out[at] = 0
				at++
			}
		case 14: // two equal halves
			copy(out[n/2:], out[:n/2])
		}
	}
	favouredBytes(t, out)
	return out
}

// U64 draws a uniform-ish 64-bit word.
func U64(t *rapid.T, label string) uint64 {
	v := rapid.Uint64().Draw(t, label)
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 32
	v *= 0xD6E8FEB86659FD93
	v ^= v >> 29
	return v
}

var boolGen = rapid.Bool()

// uniform draws 0..n-1 without rapid's bias to small values (rapid draws
// single bits uniformly); it still shrinks to 0.
func uniform(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	v := 0
	for b := n - 1; b > 0; b >>= 1 {
		v <<= 1
		if boolGen.Draw(t, label) {
			v |= 1
		}
	}
	if v >= n {
		v -= n
	}
	return v
}

// Pick draws one of the options.
func Pick[T any](t *rapid.T, label string, opts ...T) T {
	return opts[uniform(t, len(opts), label)]
}

// Chance draws true about num times in den.
func Chance(t *rapid.T, num, den int, label string) bool {
	return uniform(t, den, label) >= den-num
}

// Int draws uniformly from lo to hi.
func Int(t *rapid.T, lo, hi int, label string) int {
	if v, ok := favouredIn(t, lo, hi); ok {
		return v
	}
	return lo + uniform(t, hi-lo+1, label)
}

// Str is a string that survives JSON even if it is not UTF-8.
type Str string

// MarshalText escapes non-ASCII and control bytes as %XX.
func (s Str) MarshalText() ([]byte, error) {
	var out []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c >= 0x7f || c == '%' {
			out = append(out, '%', hexd[c>>4], hexd[c&15])
		} else {
			out = append(out, c)
		}
	}
	return out, nil
}

// UnmarshalText undoes MarshalText.
func (s *Str) UnmarshalText(t []byte) error {
	var out []byte
	for i := 0; i < len(t); i++ {
		if t[i] == '%' && i+2 < len(t) {
			out = append(out, byte(strings.IndexByte(hexd, t[i+1])<<4|strings.IndexByte(hexd, t[i+2])))
			i += 2
		} else {
			out = append(out, t[i])
		}
	}
	*s = Str(out)
	return nil
}

// Junk draws a string which is unlikely to be well-formed.
func Junk(t *rapid.T, label string, maxLen int) Str {
	if favour.on && len(favour.strs) > 0 && uniform(t, 4, label+"fav") == 3 {
		return Str(favour.strs[uniform(t, len(favour.strs), label+"favs")])
	}
	switch Int(t, 0, 3, label+"?") {
	case 0:
		return Str(rapid.StringN(0, maxLen, maxLen*4).Draw(t, label))
	case 1:
		return Str(Bytes(t, 0, maxLen, label))
	case 2:
		n := Int(t, 0, maxLen, label+"#")
		al := Pick(t, label+"a", "abcdefghijkmnpqrstuvwxyz23456789", "abcdefghijkmnpqrstuvwxyz23456789=\n\r", "0123456789", " \n\t=-+/'.:%")
		b := make([]byte, n)
		for i := range b {
			b[i] = al[Int(t, 0, len(al)-1, label+"c")]
		}
		return Str(b)
	default:
		return Str(Pick(t, label, "", " ", "\x00", "=", "========", "\n", "null", "a", "npub", "npvt", "nd", "/", "\xff\xfe", "ndaa", "{}"))
	}
}
