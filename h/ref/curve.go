package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"math/big"
)

// secp256k1 in affine coordinates on math/big: slow and plain.

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

var (
	// P is the field prime.
	P = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	// N is the group order.
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// Point is an affine point; X nil is infinity.
type Point struct{ X, Y *big.Int }

func padd(a, b Point) Point {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		s := new(big.Int).Add(a.Y, b.Y)
		if s.Mod(s, P).Sign() == 0 {
			return Point{}
		}
		l = new(big.Int).Mul(a.X, a.X)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(a.Y, 1)
		l.Mul(l, d.ModInverse(d.Mod(d, P), P))
	} else {
		l = new(big.Int).Sub(b.Y, a.Y)
		d := new(big.Int).Sub(b.X, a.X)
		l.Mul(l, d.ModInverse(d.Mod(d, P), P))
	}
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X).Sub(x, b.X).Mod(x, P)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l).Sub(y, a.Y).Mod(y, P)
	return Point{x, y}
}

var gpow [256]Point

func init() {
	q := Point{gx, gy}
	for i := range gpow {
		gpow[i] = q
		q = padd(q, q)
	}
}

// BaseMult is k*G.
func BaseMult(k *big.Int) Point {
	var r Point
	for i := 0; i < k.BitLen() && i < 256; i++ {
		if k.Bit(i) == 1 {
			r = padd(r, gpow[i])
		}
	}
	return r
}

// Add is a+b.
func Add(a, b Point) Point { return padd(a, b) }

// Mult is k*q.
func Mult(q Point, k *big.Int) Point {
	var r Point
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = padd(r, r)
		if k.Bit(i) == 1 {
			r = padd(r, q)
		}
	}
	return r
}

// B32Int is the 32-byte big-endian form.
func B32Int(n *big.Int) []byte { return n.FillBytes(make([]byte, 32)) }

// Compress is SEC1 compressed form.
func Compress(p Point) []byte {
	h := byte(2)
	if p.Y.Bit(0) == 1 {
		h = 3
	}
	return append([]byte{h}, B32Int(p.X)...)
}

// ErrPoint is returned for text that is not a compressed curve point.
var ErrPoint = errors.New("not a point")

// Decompress parses SEC1 compressed form.
func Decompress(b []byte) (Point, error) {
	if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
		return Point{}, ErrPoint
	}
	x := new(big.Int).SetBytes(b[1:])
	if x.Cmp(P) >= 0 {
		return Point{}, ErrPoint
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), P)
	y2.Add(y2, big.NewInt(7)).Mod(y2, P)
	y := new(big.Int).ModSqrt(y2, P)
	if y == nil {
		return Point{}, ErrPoint
	}
	if y.Bit(0) != uint(b[0]&1) {
		y.Sub(P, y)
	}
	return Point{x, y}, nil
}

// XKey is a BIP-32 extended key as ndau defines it.
type XKey struct {
	Priv  bool
	Key   []byte // 32-byte scalar or 33-byte point
	Chain []byte
	Depth int
	FP    []byte
	Num   uint32
}

// Master derives the master key of a seed.
func Master(seed []byte) (XKey, error) {
	if len(seed) < 16 || len(seed) > 64 {
		return XKey{}, errors.New("seed length")
	}
	m := hmac.New(sha512.New, []byte("ndau seed"))
	m.Write(seed)
	i := m.Sum(nil)
	return XKey{Priv: true, Key: i[:32], Chain: i[32:], FP: []byte{0, 0, 0}}, nil
}

// Pub is the compressed public key.
func (k XKey) Pub() []byte {
	if !k.Priv {
		return k.Key
	}
	return Compress(BaseMult(new(big.Int).SetBytes(k.Key)))
}

// Neuter makes the key public.
func (k XKey) Neuter() XKey {
	if !k.Priv {
		return k
	}
	r := k
	r.Priv = false
	r.Key = k.Pub()
	return r
}

// ErrChild is returned where no child exists.
var ErrChild = errors.New("no such child")

// Child derives child i.
func (k XKey) Child(i uint32) (XKey, error) {
	if k.Depth == 255 {
		return XKey{}, ErrChild
	}
	hard := i>>31 == 1
	if hard && !k.Priv {
		return XKey{}, ErrChild
	}
	pub := k.Pub()
	var data []byte
	if hard {
		data = append([]byte{0}, k.Key...)
	} else {
		data = append([]byte{}, pub...)
	}
	data = binary.BigEndian.AppendUint32(data, i)
	m := hmac.New(sha512.New, k.Chain)
	m.Write(data)
	I := m.Sum(nil)
	il := new(big.Int).SetBytes(I[:32])
	if il.Sign() == 0 || il.Cmp(N) >= 0 {
		return XKey{}, ErrChild
	}
	h1 := sha256.Sum256(pub)
	h2 := sha256.Sum256(h1[:])
	c := XKey{Priv: k.Priv, Chain: I[32:], Depth: k.Depth + 1, FP: h2[:3], Num: i}
	if k.Priv {
		s := new(big.Int).SetBytes(k.Key)
		s.Add(s, il).Mod(s, N)
		if s.Sign() == 0 {
			return XKey{}, ErrChild
		}
		c.Key = B32Int(s)
	} else {
		p, err := Decompress(k.Key)
		if err != nil {
			return XKey{}, err
		}
		q := padd(BaseMult(il), p)
		if q.X == nil {
			return XKey{}, ErrChild
		}
		c.Key = Compress(q)
	}
	return c, nil
}

// Extra is the 40 bytes stored with the key.
func (k XKey) Extra() []byte {
	b := append([]byte{byte(k.Depth)}, k.FP...)
	b = binary.BigEndian.AppendUint32(b, k.Num)
	return append(b, k.Chain...)
}

// Clone copies deeply.
func (k XKey) Clone() XKey {
	k.Key = append([]byte(nil), k.Key...)
	k.Chain = append([]byte(nil), k.Chain...)
	k.FP = append([]byte(nil), k.FP...)
	return k
}

// Legacy is the pre-October-2018 text of the key.
func (k XKey) Legacy(version []byte) string {
	b := append([]byte(nil), version...)
	b = append(b, byte(k.Depth))
	b = append(b, k.FP...)
	b = binary.BigEndian.AppendUint32(b, k.Num)
	b = append(b, k.Chain...)
	if k.Priv {
		b = append(b, 0)
	}
	b = append(b, k.Key...)
	return B32(append(b, Dsha4(b)...))
}

// Dsha4 is the first four bytes of the double SHA-256.
func Dsha4(b []byte) []byte {
	a := sha256.Sum256(b)
	c := sha256.Sum256(a[:])
	return append([]byte(nil), c[:4]...)
}

// Text is the modern text of the key.
func (k XKey) Text() string { return KeyText(k.Priv, 2, k.Key, k.Extra()) }
