package ref

import (
	_ "embed"
	"math/big"
	"strings"
)

//go:embed bip39-english.txt
var bip39 string

// Words is the BIP-39 English list.
var Words = strings.Fields(bip39)

var wordIndex = map[string]int{}

func init() {
	for i, w := range Words {
		wordIndex[w] = i
	}
}

// WordIndex is the number of a word, or -1.
func WordIndex(w string) int {
	if i, ok := wordIndex[w]; ok {
		return i
	}
	return -1
}

// CRC8 is the CRC with polynomial 0x1D, start value 0, most significant bit
// first.
func CRC8(b []byte) byte {
	// polynomial division over the bits of b followed by eight zeros
	rem := 0
	for i := 0; i < len(b)*8+8; i++ {
		bit := 0
		if i < len(b)*8 {
			bit = int(b[i/8]>>(7-uint(i%8))) & 1
		}
		rem = rem<<1 | bit
		if rem&0x100 != 0 {
			rem ^= 0x11D
		}
	}
	return byte(rem)
}

// WordsNeeded is the least number of 11-bit words for n bytes and at least 4
// checksum bits.
func WordsNeeded(n int) int { return (n*8 + 4 + 10) / 11 }

// WordNumbers encodes bytes: the data, then the last bits of the CRC-8 (with
// zeros before it if more than eight are needed).
func WordNumbers(b []byte) []int {
	k := WordsNeeded(len(b))
	spare := uint(k*11 - len(b)*8)
	n := new(big.Int).SetBytes(b)
	n.Lsh(n, spare)
	c := big.NewInt(int64(CRC8(b)))
	m := new(big.Int).Lsh(big.NewInt(1), spare)
	m.Sub(m, big.NewInt(1))
	n.Or(n, c.And(c, m))
	out := make([]int, k)
	low := big.NewInt(2047)
	for i := k - 1; i >= 0; i-- {
		out[i] = int(new(big.Int).And(n, low).Int64())
		n.Rsh(n, 11)
	}
	return out
}

// Phrase encodes bytes as words.
func Phrase(b []byte) []string {
	var out []string
	for _, n := range WordNumbers(b) {
		out = append(out, Words[n])
	}
	return out
}

// Unphrase decodes word numbers. The shorter of two sequences which give the
// same words is taken.
func Unphrase(ws []string) ([]byte, bool) {
	n := new(big.Int)
	for _, w := range ws {
		i := WordIndex(w)
		if i < 0 {
			return nil, false
		}
		n.Lsh(n, 11)
		n.Or(n, big.NewInt(int64(i)))
	}
	bits := len(ws) * 11
	for l := 0; l*8 < bits; l++ {
		if WordsNeeded(l) != len(ws) {
			continue
		}
		b := new(big.Int).Rsh(n, uint(bits-8*l)).FillBytes(make([]byte, l))
		same := true
		for i, w := range Phrase(b) {
			if w != ws[i] {
				same = false
			}
		}
		if same {
			return b, true
		}
	}
	return nil, false
}
