// Package ref holds independent reference implementations used as oracles.
// Nothing in it calls ndaumath.
package ref

import (
	"crypto/sha256"
	"errors"
)

// Alphabet is the ndau base-32 alphabet.
const Alphabet = "abcdefghijkmnpqrstuvwxyz23456789"

// CRC16 is CRC-16/AUG-CCITT (poly 0x1021, init 0x1D0F, no reflection), bit by bit.
func CRC16(b []byte) uint16 {
	c := uint32(0x1D0F)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := uint32(x>>uint(i)) & 1
			top := c >> 15 & 1
			c = c << 1 & 0xFFFF
			if top^bit == 1 {
				c ^= 0x1021
			}
		}
	}
	return uint16(c)
}

// CRCBytes is the big-endian CRC.
func CRCBytes(b []byte) []byte {
	c := CRC16(b)
	return []byte{byte(c >> 8), byte(c)}
}

// B32 encodes without line breaks, padded with '=' to a multiple of eight.
func B32(b []byte) string {
	nbits := len(b) * 8
	var out []byte
	for p := 0; p < nbits; p += 5 {
		v := 0
		for k := 0; k < 5; k++ {
			v <<= 1
			q := p + k
			if q < nbits && b[q/8]>>(7-uint(q%8))&1 == 1 {
				v |= 1
			}
		}
		out = append(out, Alphabet[v])
	}
	for len(out)%8 != 0 {
		out = append(out, '=')
	}
	return string(out)
}

// B32Val is the value of a lower-case letter, or -1.
func B32Val(c byte) int {
	for i := 0; i < len(Alphabet); i++ {
		if Alphabet[i] == c {
			return i
		}
	}
	return -1
}

// LowerASCII lower-cases ASCII letters only.
func LowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// ErrB32 is returned for anything but the strict form.
var ErrB32 = errors.New("not canonical base-32")

// B32Strict decodes text made of whole groups of eight letters, without
// padding or anything else.
func B32Strict(s string) ([]byte, error) {
	if len(s)%8 != 0 {
		return nil, ErrB32
	}
	var out []byte
	acc, n := 0, 0
	for i := 0; i < len(s); i++ {
		v := B32Val(s[i])
		if v < 0 {
			return nil, ErrB32
		}
		acc = acc<<5 | v
		n += 5
		if n >= 8 {
			out = append(out, byte(acc>>uint(n-8)))
			n -= 8
			acc &= 1<<uint(n) - 1
		}
	}
	return out, nil
}

// Kinds are the recognised account kinds.
const Kinds = "anexbm"

// IsKind reports a recognised kind.
func IsKind(k byte) bool {
	for i := 0; i < len(Kinds); i++ {
		if Kinds[i] == k {
			return true
		}
	}
	return false
}

// Address builds an address as the format defines.
func Address(kind byte, key []byte) (string, bool) {
	if !IsKind(kind) || len(key) < 12 {
		return "", false
	}
	h := sha256.Sum256(key)
	hdr := B32Val('n')<<11 | B32Val('d')<<6 | B32Val(kind)<<1
	body := append([]byte{byte(hdr >> 8), byte(hdr)}, h[6:]...)
	body = append(body, CRCBytes(body)...)
	return B32(body), true
}

// ValidAddress is the acceptance rule for address text (ASCII case ignored).
// It returns the canonical text.
func ValidAddress(s string) (string, bool) {
	s = LowerASCII(s)
	if len(s) != 48 || !IsKind(s[2]) {
		return "", false
	}
	b, err := B32Strict(s)
	if err != nil || len(b) != 30 {
		return "", false
	}
	c := CRCBytes(b[:28])
	if b[28] != c[0] || b[29] != c[1] {
		return "", false
	}
	return s, true
}

// IsASCII reports whether s is pure ASCII.
func IsASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
