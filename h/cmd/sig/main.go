// Command sig decides C13..C17: signatures, keys as data, checksum frames and
// the algorithm registry.
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"testing/iotest"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/signature", "pkg/signature/algorithms/secp256k1", "pkg/signature/algorithms/ed25519", "pkg/signature/algorithms/null", "pkg/b32"}
	registryChild()
	fw.Main(c13, c14, c15, c16, c17, c41)
}

// algs are the built-in algorithms by their fixed numbers.
var algs = []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}

// Pair is a key pair in a case: the algorithm's number and what the private
// key is made from.
type Pair struct {
	Al   int
	Seed fw.Hex // 32 bytes
}

func (p Pair) raw() (pub, priv []byte) {
	switch p.Al {
	case 1:
		k := ed25519.NewKeyFromSeed(p.Seed.Clone())
		return append([]byte(nil), k[32:]...), k
	case 2:
		n := new(big.Int).SetBytes(p.Seed)
		n.Mod(n, ref.N)
		if n.Sign() == 0 {
			n.SetInt64(1)
		}
		return ref.Compress(ref.BaseMult(n)), ref.B32Int(n)
	}
	return []byte{}, []byte{}
}

// fit makes an altered pair a pair again.
func (p *Pair) fit() bool {
	if p.Al == 0 {
		return true
	}
	n := new(big.Int).SetBytes(p.Seed)
	n.Mod(n, new(big.Int).Lsh(big.NewInt(1), 256))
	p.Seed = ref.B32Int(n)
	return true
}

func (p Pair) keys(extra []byte) (*signature.PublicKey, *signature.PrivateKey, error) {
	a, b := p.raw()
	pub, err := signature.RawPublicKey(algs[p.Al], a, append([]byte(nil), extra...))
	if err != nil {
		return nil, nil, fw.Errf("RawPublicKey(%d, %x): %v", p.Al, a, err)
	}
	priv, err := signature.RawPrivateKey(algs[p.Al], b, append([]byte(nil), extra...))
	if err != nil {
		return nil, nil, fw.Errf("RawPrivateKey(%d, %x): %v", p.Al, b, err)
	}
	return pub, priv, nil
}

func genPair(t *rapid.T, als ...int) Pair {
	p := Pair{Al: fw.Pick(t, "al", als...)}
	if p.Al == 0 {
		return p
	}
	switch fw.Int(t, 0, 7, "seed?") {
	case 7: // a key pair with zeros at an end of a coordinate or hash
		if rs := ref.RareSet["scalar"]; len(rs) > 0 {
			p.Seed = ref.B32Int(ref.RareScalar(rs[fw.Int(t, 0, len(rs)-1, "rare")].N))
			return p
		}
		p.Seed = fw.BytesN(t, 32, "seed")
	case 6: // close to the order of the curve, both sides
		n := new(big.Int).Sub(ref.N, big.NewInt(int64(fw.Int(t, 0, 6, "below"))-3))
		if p.Al == 2 {
			n.Mod(n, ref.N)
		}
		p.Seed = ref.B32Int(n)
	case 0: // small scalars, leading zeros
		p.Seed = make(fw.Hex, 32)
		copy(p.Seed[32-8:], fw.BytesN(t, 8, "tail"))
		for k := fw.Int(t, 0, 7, "z"); k > 0; k-- {
			p.Seed[24+k-1] = 0
		}
	case 1:
		p.Seed = fw.BytesN(t, 32, "seed")
		p.Seed[0] = 0
	default:
		p.Seed = fw.BytesN(t, 32, "seed")
	}
	return p
}

func message(t *rapid.T, label string) fw.Hex {
	return fw.Data(t, 2200000, label)
}

// ---------------------------------------------------------------- C13

// equivalent says whether b is another encoding of the ECDSA signature a.
func equivalent(a, b []byte) bool {
	x, err1 := btcec.ParseSignature(a, btcec.S256())
	y, err2 := btcec.ParseSignature(b, btcec.S256())
	if err1 != nil || err2 != nil {
		return false
	}
	neg := new(big.Int).Sub(ref.N, x.S)
	return x.R.Cmp(y.R) == 0 && (x.S.Cmp(y.S) == 0 || neg.Cmp(y.S) == 0)
}

// ecdsaOK verifies independently: DER r and s, SHA-256 of the message.
func ecdsaOK(pub, msg, der []byte) bool {
	if len(der) < 8 || der[0] != 0x30 || int(der[1]) != len(der)-2 || der[2] != 2 {
		return false
	}
	rl := int(der[3])
	if 4+rl+2 > len(der) || der[4+rl] != 2 || 6+rl+int(der[5+rl]) != len(der) {
		return false
	}
	r := new(big.Int).SetBytes(der[4 : 4+rl])
	s := new(big.Int).SetBytes(der[6+rl:])
	q, err := ref.Decompress(pub)
	if err != nil || r.Sign() == 0 || s.Sign() == 0 || r.Cmp(ref.N) >= 0 || s.Cmp(ref.N) >= 0 {
		return false
	}
	h := sha256.Sum256(msg)
	w := new(big.Int).ModInverse(s, ref.N)
	u1 := new(big.Int).Mul(new(big.Int).SetBytes(h[:]), w)
	u2 := new(big.Int).Mul(r, w)
	p := ref.Add(ref.BaseMult(u1.Mod(u1, ref.N)), ref.Mult(q, u2.Mod(u2, ref.N)))
	if p.X == nil {
		return false
	}
	return new(big.Int).Mod(p.X, ref.N).Cmp(r) == 0
}

func c13() fw.Property {
	type scase struct {
		K     Pair
		Other Pair
		Msg   fw.Hex
		Msg2  fw.Hex
		Sig2  []edit
		Extra fw.Hex
	}
	gen := func(t *rapid.T) scase {
		c := scase{K: genPair(t, 1, 2), Other: genPair(t, 1, 2, 1, 2, 0), Msg: message(t, "msg")}
		c.Extra = fw.Data(t, 2000, "extra")
		switch fw.Int(t, 0, 8, "other") {
		case 0:
			c.Other = Pair{K1(c.K.Al), c.K.Seed} // same seed, other algorithm
		case 1: // neighbouring scalar
			s := c.K.Seed.Clone()
			s[31] ^= 1
			c.Other = Pair{c.K.Al, s}
		case 2: // negated scalar
			if c.K.Al == 2 {
				n := new(big.Int).Mod(new(big.Int).SetBytes(c.K.Seed), ref.N)
				if n.Sign() == 0 {
					n.SetInt64(1)
				}
				c.Other = Pair{2, ref.B32Int(new(big.Int).Sub(ref.N, n))}
			}
		}
		if rs := ref.RareSet["signature"]; len(rs) > 0 && fw.Chance(t, 1, 12, "rare") {
			// a signature with zeros at an end of r or s
			c.K = Pair{2, ref.RareParent().Key}
			c.Msg = ref.RareMessage(rs[fw.Int(t, 0, len(rs)-1, "raremsg")].N)
		}
		m := c.Msg.Clone()
		switch fw.Int(t, 0, 9, "msg2") {
		case 0:
			m = append(m, 0)
		case 1:
			m = append([]byte{0}, m...)
		case 2:
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		case 3:
			m = append(m, fw.Bytes(t, 1, 70, "tail")...)
		case 4:
			m = fw.Bytes(t, 0, 100, "m2").Clone()
		case 5: // the digest instead of the message
			h := sha256.Sum256(m)
			m = h[:]
		default:
			if len(m) > 0 {
				m[fw.Pick(t, "at", fw.Int(t, 0, len(m)-1, "i"), 0, len(m)-1)] ^= 1 << uint(fw.Int(t, 0, 7, "bit"))
			}
		}
		c.Msg2 = m
		c.Sig2 = genEdits(t, 1, 3)
		return c
	}
	judge := func(c scase, o *fw.Obs) error {
		pub, priv, err := c.K.keys(c.Extra)
		if err != nil {
			return err
		}
		opub, opriv, err := c.Other.keys(nil)
		if err != nil {
			return err
		}
		o.NT()
		o.Label([]string{"null", "ed25519", "secp256k1"}[c.K.Al])
		al := algs[c.K.Al]
		rawPub, rawPriv := c.K.raw()
		if got := al.Public(rawPriv); !bytes.Equal(got, rawPub) {
			return fw.Errf("Public(%x) = %x, want %x", rawPriv, got, rawPub)
		}
		msg := c.Msg.Clone()
		sig := priv.Sign(msg)
		if !bytes.Equal(msg, c.Msg) {
			return fw.Errf("Sign changed the message")
		}
		good := append([]byte(nil), sig.Bytes()...)
		if !signature.SameAlgorithm(sig.Algorithm(), al) {
			return fw.Errf("signature of another algorithm")
		}
		if !pub.Verify(msg, sig) || !sig.Verify(msg, *pub) {
			return fw.Errf("a signature does not verify: key %x message %x signature %x", rawPriv, c.Msg, good)
		}
		// the standard algorithms
		if c.K.Al == 1 && !ed25519.Verify(rawPub, c.Msg, good) {
			return fw.Errf("not an Ed25519 signature of the message: %x", good)
		}
		if c.K.Al == 2 && !ecdsaOK(rawPub, c.Msg, good) {
			return fw.Errf("not an ECDSA signature of the message's SHA-256: key %x message %x signature %x", rawPub, c.Msg, good)
		}
		s2, err := signature.RawSignature(al, append([]byte(nil), good...))
		if err != nil {
			return fw.Errf("RawSignature: %v", err)
		}
		if !pub.Verify(msg, *s2) {
			return fw.Errf("the signature's bytes do not verify")
		}
		if !signature.Match(*pub, *priv) {
			return fw.Errf("Match is false for a key pair: %x", rawPriv)
		}
		// other messages
		if !bytes.Equal(c.Msg2, c.Msg) {
			if pub.Verify(c.Msg2, sig) || sig.Verify(c.Msg2, *pub) {
				return fw.Errf("a signature of %x verifies for %x", c.Msg, c.Msg2)
			}
			// and the other way round
			g2 := priv.Sign(c.Msg2)
			if !pub.Verify(c.Msg2, g2) || pub.Verify(c.Msg, g2) {
				return fw.Errf("a signature of %x does not verify, or verifies for %x", c.Msg2, c.Msg)
			}
			o.Label("other-message")
		}
		// other keys
		orawPub, _ := c.Other.raw()
		if c.Other.Al != c.K.Al || !bytes.Equal(orawPub, rawPub) {
			if opub.Verify(c.Msg, sig) || sig.Verify(c.Msg, *opub) {
				return fw.Errf("a signature by key %x verifies under key %x", rawPub, orawPub)
			}
			og := opriv.Sign(c.Msg)
			if pub.Verify(c.Msg, og) || og.Verify(c.Msg, *pub) {
				return fw.Errf("a signature by %x verifies under key %x", orawPub, rawPub)
			}
			if signature.Match(*opub, *priv) || signature.Match(*pub, *opriv) {
				return fw.Errf("keys %x and %x match", rawPub, orawPub)
			}
			o.Label("other-key")
			o.LabelIf(c.Other.Al != c.K.Al, "other-algorithm-key")
		}
		// other algorithms: the same bytes as a signature of each
		for i, a := range algs {
			if i == c.K.Al {
				continue
			}
			x, err := signature.RawSignature(a, append([]byte(nil), good...))
			if err == nil && (pub.Verify(c.Msg, *x) || x.Verify(c.Msg, *pub)) {
				return fw.Errf("a signature of algorithm %d verifies under a key of %d", i, c.K.Al)
			}
		}
		// altered signatures
		bad := applyEdits(c.Sig2, good)
		if !bytes.Equal(bad, good) && !(c.K.Al == 2 && equivalent(good, bad)) {
			x, err := signature.RawSignature(al, append([]byte(nil), bad...))
			if err == nil {
				o.Label("altered-signature")
				if pub.Verify(c.Msg, *x) || x.Verify(c.Msg, *pub) {
					return fw.Errf("signature %x altered to %x verifies", good, bad)
				}
			}
		}
		// nothing
		var unset signature.Signature
		if pub.Verify(c.Msg, unset) || unset.Verify(c.Msg, *pub) {
			return fw.Errf("an unset signature verifies")
		}
		var nokey signature.PublicKey
		if nokey.Verify(c.Msg, sig) || sig.Verify(c.Msg, nokey) || nokey.Verify(c.Msg, unset) || unset.Verify(c.Msg, nokey) {
			return fw.Errf("a signature verifies under an unset key")
		}
		var nopriv signature.PrivateKey
		ns := nopriv.Sign(c.Msg)
		if pub.Verify(c.Msg, ns) || nokey.Verify(c.Msg, ns) || signature.Match(*pub, nopriv) || signature.Match(nokey, nopriv) || signature.Match(nokey, *priv) {
			return fw.Errf("an unset key's signature verifies")
		}
		z := *pub
		z.Zeroize()
		if z.Verify(c.Msg, sig) {
			return fw.Errf("a signature verifies under a cleared key")
		}
		if !pub.Verify(c.Msg, sig) || !bytes.Equal(sig.Bytes(), good) {
			return fw.Errf("a signature no longer verifies after others were tried")
		}
		return nil
	}
	type gcase struct {
		Al   int
		Rand fw.Hex
		Msg  fw.Hex
		At   int // bit to flip, bytes to have
	}
	gjudge := func(c gcase, o *fw.Obs) error {
		o.NT()
		al := algs[c.Al]
		pub, priv, err := signature.Generate(al, bytes.NewReader(c.Rand.Clone()))
		if err != nil {
			return fw.Errf("Generate: %v", err)
		}
		if !bytes.Equal(al.Public(priv.KeyBytes()), pub.KeyBytes()) {
			return fw.Errf("Public(%x) = %x, generated with %x", priv.KeyBytes(), al.Public(priv.KeyBytes()), pub.KeyBytes())
		}
		if len(pub.KeyBytes()) != pub.Size() || len(priv.KeyBytes()) != priv.Size() {
			return fw.Errf("generated keys have lengths %d, %d", len(pub.KeyBytes()), len(priv.KeyBytes()))
		}
		if !signature.Match(pub, priv) {
			return fw.Errf("generated keys do not match: %x %x", pub.KeyBytes(), priv.KeyBytes())
		}
		s := priv.Sign(c.Msg)
		if !pub.Verify(c.Msg, s) {
			return fw.Errf("generated key's signature does not verify")
		}
		// every bit of the 32 bytes counts
		flipped := c.Rand.Clone()
		flipped[c.At/8%32] ^= 1 << (c.At % 8)
		pub2, priv2, err := signature.Generate(al, bytes.NewReader(flipped))
		if err != nil {
			return fw.Errf("Generate: %v", err)
		}
		if bytes.Equal(pub2.KeyBytes(), pub.KeyBytes()) || bytes.Equal(priv2.KeyBytes(), priv.KeyBytes()) {
			return fw.Errf("%x and %x generate the same keys", c.Rand, flipped)
		}
		if pub2.Verify(c.Msg, s) || signature.Match(pub2, priv) {
			return fw.Errf("the keys generated from %x and %x match", c.Rand, flipped)
		}
		return nil
	}
	// a source of randomness which fails
	fjudge := func(c gcase, o *fw.Obs) error {
		have := c.At % 32
		fails := errors.New("no randomness")
		if c.Al == 0 {
			if _, _, err := signature.Generate(algs[0], bytes.NewReader(c.Rand.Clone())); err == nil {
				return fw.Errf("a key pair of the null algorithm is generated")
			}
			return nil
		}
		o.NT()
		for _, src := range []io.Reader{
			bytes.NewReader(c.Rand.Clone()[:have]),
			io.MultiReader(bytes.NewReader(c.Rand.Clone()[:have]), iotest.ErrReader(fails)),
			iotest.TimeoutReader(iotest.OneByteReader(bytes.NewReader(c.Rand.Clone()))),
		} {
			pub, priv, err := signature.Generate(algs[c.Al], src)
			if err == nil {
				return fw.Errf("a source which fails after %d bytes generates the keys %x, %x", have, pub.KeyBytes(), priv.KeyBytes())
			}
		}
		// in pieces, or from the system
		for _, src := range []io.Reader{iotest.OneByteReader(bytes.NewReader(c.Rand.Clone())), iotest.DataErrReader(bytes.NewReader(c.Rand.Clone()[:32])), nil} {
			pub, priv, err := signature.Generate(algs[c.Al], src)
			if err != nil {
				return fw.Errf("Generate: %v", err)
			}
			if !signature.Match(pub, priv) {
				return fw.Errf("generated keys do not match: %x %x", pub.KeyBytes(), priv.KeyBytes())
			}
		}
		return nil
	}
	return fw.Property{
		ID:   "C13",
		Rule: "a signature made by a key pair and tried against its own message and key, another message, another key, other algorithms, an altered form and unset objects",
		Assumptions: []string{
			"ECDSA's equivalent forms of one signature (other DER encodings of the same r and of s or -s) count as the same signature",
			"independent verification: crypto/ed25519, and secp256k1 ECDSA over math/big",
		},
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("sign-verify", 3000, 120000, gen, judge), func(c *scase) bool { return c.K.Al != 0 && c.K.fit() && c.Other.fit() }),
			fw.Fit(fw.Prop("generate", 800, 40000, func(t *rapid.T) gcase {
				return gcase{fw.Pick(t, "al", 1, 2), fw.BytesN(t, 64, "rand"), message(t, "msg"), fw.Int(t, 0, 255, "at")}
			}, gjudge), func(c *gcase) bool { return len(c.Rand) == 64 && c.At >= 0 }),
			fw.Fit(fw.Prop("sources", 300, 10000, func(t *rapid.T) gcase {
				return gcase{fw.Int(t, 0, 2, "al"), fw.BytesN(t, 64, "rand"), nil, fw.Int(t, 0, 31, "at")}
			}, fjudge), func(c *gcase) bool { return len(c.Rand) == 64 && c.At >= 0 && c.Al >= 0 && c.Al <= 2 }),
		},
	}
}

// K1 is another algorithm.
func K1(al int) int { return 3 - al }

type edit struct {
	Op  int // 0 flip a bit, 1 set, 2 delete, 3 insert, 4 cut, 5 append, 6 swap with next
	Pos int // modulo the length
	Val int
}

func genEdits(t *rapid.T, lo, hi int) []edit {
	var out []edit
	for n := fw.Int(t, lo, hi, "edits"); n > 0; n-- {
		out = append(out, edit{fw.Pick(t, "op", 0, 0, 0, 1, 1, 2, 3, 4, 5, 6), fw.Pick(t, "pos", fw.Int(t, 0, 200, "p"), fw.Int(t, 0, 8, "p2"), fw.Int(t, 60, 72, "p3"), fw.Int(t, 0, 1<<20, "p4")), fw.Int(t, 0, 255, "v")})
	}
	return out
}

func applyEdits(es []edit, in []byte) []byte {
	b := append([]byte(nil), in...)
	for _, e := range es {
		if len(b) == 0 {
			b = append(b, byte(e.Val))
			continue
		}
		p := e.Pos % len(b)
		switch e.Op {
		case 0:
			b[p] ^= 1 << uint(e.Val&7)
		case 1:
			b[p] = byte(e.Val)
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b = append(b[:p], append([]byte{byte(e.Val)}, b[p:]...)...)
		case 4:
			b = b[:p]
		case 5:
			b = append(b, byte(e.Val))
		case 6:
			q := (p + 1) % len(b)
			b[p], b[q] = b[q], b[p]
		}
	}
	return b
}

// ---------------------------------------------------------------- C14

type serKey interface {
	signature.Key
	Size() int
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
	MarshalString() (string, error)
	FullString() string
	IsZero() bool
}

func emptyKey(priv bool) serKey {
	if priv {
		return new(signature.PrivateKey)
	}
	return new(signature.PublicKey)
}

// used is a receiver which holds another key.
func used(priv bool, al int) serKey {
	s := make(fw.Hex, 32)
	s[3] = 7
	pub, pvt, err := Pair{al, s}.keys([]byte("previous extra"))
	if err != nil {
		panic(err)
	}
	if priv {
		return pvt
	}
	return pub
}

func sameKey(got serKey, al int, key, extra []byte) error {
	if !signature.SameAlgorithm(got.Algorithm(), algs[al]) || signature.NameOf(got.Algorithm()) != signature.NameOf(algs[al]) {
		return fw.Errf("algorithm %s, want %s", signature.NameOf(got.Algorithm()), signature.NameOf(algs[al]))
	}
	if !bytes.Equal(got.KeyBytes(), key) || !bytes.Equal(got.ExtraBytes(), extra) {
		return fw.Errf("key %x extra %x, want %x extra %x", got.KeyBytes(), got.ExtraBytes(), key, extra)
	}
	return nil
}

func c14() fw.Property {
	type kcase struct {
		K      Pair
		Priv   bool
		Extra  fw.Hex
		Tail   fw.Hex
		Head   fw.Hex
		Cap    int
		Prev   int // -1: fresh receiver, else algorithm of the key it holds
		Msg    fw.Hex
		XDat   bool
		BigExt int // extra data of this many bytes instead
	}
	gen := func(t *rapid.T) kcase {
		c := kcase{K: genPair(t, 0, 1, 2, 1, 2), Priv: rapid.Bool().Draw(t, "priv"),
			Extra: fw.Bytes(t, 0, fw.Pick(t, "xmax", 0, 45, 45, 260), "extra"), XDat: fw.Chance(t, 1, 4, "xdat"), Tail: fw.Data(t, 5000, "tail"),
			Head: fw.Data(t, 5000, "head"), Cap: fw.Int(t, 0, 300, "cap"), Prev: fw.Int(t, -1, 2, "prev"), Msg: fw.Bytes(t, 0, 40, "msg")}
		if c.XDat {
			c.Extra = fw.Data(t, 70000, "xdata")
		}
		if fw.Chance(t, 1, 4, "edge") {
			// packed data close to the one-byte and two-byte length limits
			a, b := c.K.raw()
			l := len(a)
			if c.Priv {
				l = len(b)
			}
			c.Extra = fw.BytesN(t, 255-l-1+fw.Int(t, -2, 3, "edge"), "extra")
		}
		if fw.Chance(t, 1, 60, "big") {
			c.BigExt = fw.Pick(t, "bigext", 65400, 65470, 65501, 65502, 65503, 65504, 65535, 65536, 70000, 100000)
		}
		return c
	}
	judge := func(c kcase, o *fw.Obs) error {
		extra := c.Extra.Clone()
		if c.BigExt > 0 {
			extra = bytes.Repeat([]byte{0xa7, 1, 2}, c.BigExt)[:c.BigExt]
		}
		pub, pvt, err := c.K.keys(extra)
		if err != nil {
			return err
		}
		raw, rawPriv := c.K.raw()
		var k serKey = pub
		if c.Priv {
			k, raw = pvt, rawPriv
		}
		o.NTIf(c.K.Al != 0)
		o.Label([]string{"null", "ed25519", "secp256k1"}[c.K.Al])
		o.LabelIf(len(raw)+len(extra) >= 255, "long")
		want := ref.Container(byte(c.K.Al), ref.Packed(raw, extra))
		wantText := ref.KeyText(c.Priv, byte(c.K.Al), raw, extra)
		receiver := func() serKey {
			if c.Prev < 0 {
				return emptyKey(c.Priv)
			}
			return used(c.Priv, c.Prev)
		}
		if e := sameKey(k, c.K.Al, raw, extra); e != nil {
			return fmt.Errorf("raw key: %w", e)
		}
		b, err := k.Marshal()
		if err != nil || !bytes.Equal(b, want) {
			return fw.Errf("Marshal: %x, %v, want %x", b, err, want)
		}
		head := make([]byte, len(c.Head), len(c.Head)+c.Cap)
		copy(head, c.Head)
		m, err := k.MarshalMsg(head)
		if err != nil || !bytes.Equal(m, append(c.Head.Clone(), want...)) {
			return fw.Errf("MarshalMsg onto %x: %x, %v", c.Head, m, err)
		}
		if !bytes.Equal(head, c.Head) {
			return fw.Errf("MarshalMsg changed the buffer's contents")
		}
		if k.Msgsize() < len(want) {
			return fw.Errf("Msgsize() = %d, MarshalMsg produces %d bytes", k.Msgsize(), len(want))
		}
		txt, err := k.MarshalText()
		if err != nil || string(txt) != wantText {
			return fw.Errf("MarshalText: %s, %v, want %s", txt, err, wantText)
		}
		if s, err := k.MarshalString(); err != nil || s != wantText {
			return fw.Errf("MarshalString: %s, %v, want %s", s, err, wantText)
		}
		if s := k.FullString(); s != wantText {
			return fw.Errf("FullString: %s, want %s", s, wantText)
		}
		if signature.IsPrivate(k) != c.Priv || signature.IsPublic(k) == c.Priv {
			return fw.Errf("IsPrivate %v", signature.IsPrivate(k))
		}
		if signature.MaybePrivate(wantText) != c.Priv || signature.MaybePublic(wantText) == c.Priv {
			return fw.Errf("MaybePrivate(%s) = %v", wantText, signature.MaybePrivate(wantText))
		}
		check := func(how string, got serKey, err error) error {
			if err != nil {
				return fw.Errf("%s: %v", how, err)
			}
			if e := sameKey(got, c.K.Al, raw, extra); e != nil {
				return fmt.Errorf("%s: %w", how, e)
			}
			t2, err := got.MarshalText()
			if err != nil || string(t2) != wantText {
				return fw.Errf("%s: writes %s, %v; want %s", how, t2, err, wantText)
			}
			if c.Priv {
				p := got.(*signature.PrivateKey)
				g1, g2 := pvt.Sign(c.Msg), p.Sign(c.Msg)
				if !bytes.Equal(g1.Bytes(), g2.Bytes()) || (c.K.Al != 0 && !pub.Verify(c.Msg, g2)) {
					return fw.Errf("%s: signs differently", how)
				}
			} else if c.K.Al != 0 {
				if !got.(*signature.PublicKey).Verify(c.Msg, pvt.Sign(c.Msg)) {
					return fw.Errf("%s: does not verify the signature of its private key", how)
				}
			}
			return nil
		}
		r := receiver()
		in := append([]byte(nil), want...)
		err = r.Unmarshal(in)
		scribble(in)
		if e := check("Unmarshal", r, err); e != nil {
			return e
		}
		r = receiver()
		in = append(append([]byte(nil), want...), c.Tail...)
		left, err := r.UnmarshalMsg(in)
		if err == nil && !bytes.Equal(left, c.Tail) {
			return fw.Errf("UnmarshalMsg left %x, want %x", left, c.Tail)
		}
		scribble(in)
		if e := check("UnmarshalMsg", r, err); e != nil {
			return e
		}
		r = receiver()
		in = append([]byte(nil), txt...)
		err = r.UnmarshalText(in)
		scribble(in)
		if e := check("UnmarshalText", r, err); e != nil {
			return e
		}
		r = receiver()
		err = r.UnmarshalText(append(append([]byte(nil), txt[:4]...), bytes.ToUpper(txt[4:])...))
		if e := check("UnmarshalText of capitals", r, err); e != nil {
			return e
		}
		pk, err := signature.ParseKey(wantText)
		if err != nil {
			return fw.Errf("ParseKey: %v", err)
		}
		if signature.IsPrivate(pk) != c.Priv {
			return fw.Errf("ParseKey gives the other kind")
		}
		if e := check("ParseKey", pk.(serKey), nil); e != nil {
			return e
		}
		if c.Priv {
			p, err := signature.ParsePrivateKey(wantText)
			if e := check("ParsePrivateKey", p, err); e != nil {
				return e
			}
			if _, err := signature.ParsePublicKey(wantText); err == nil {
				return fw.Errf("ParsePublicKey reads a private key")
			}
		} else {
			p, err := signature.ParsePublicKey(wantText)
			if e := check("ParsePublicKey", p, err); e != nil {
				return e
			}
			if _, err := signature.ParsePrivateKey(wantText); err == nil {
				return fw.Errf("ParsePrivateKey reads a public key")
			}
		}
		j, err := json.Marshal(k)
		if err != nil {
			return fw.Errf("json: %v", err)
		}
		r = receiver()
		if e := check("JSON", r, json.Unmarshal(j, r)); e != nil {
			return e
		}
		// truncation
		k2 := emptyKey(c.Priv)
		if err := k2.Unmarshal(want); err != nil {
			return fw.Errf("Unmarshal: %v", err)
		}
		k2.Truncate()
		if e := sameKey(k2, c.K.Al, raw, nil); e != nil {
			return fmt.Errorf("Truncate: %w", e)
		}
		if t2, err := k2.MarshalText(); err != nil || string(t2) != ref.KeyText(c.Priv, byte(c.K.Al), raw, nil) {
			return fw.Errf("truncated key writes %s, %v", t2, err)
		}
		k2.Zeroize()
		if !k2.IsZero() || len(k2.KeyBytes()) != 0 || len(k2.ExtraBytes()) != 0 {
			return fw.Errf("Zeroize leaves contents")
		}
		return sameKey(k, c.K.Al, raw, extra)
	}
	// signatures
	type gcase struct {
		Al   int
		Data fw.Hex
		Head fw.Hex
		Tail fw.Hex
		Prev bool
		K    Pair
		Msg  fw.Hex
	}
	ggen := func(t *rapid.T) gcase {
		c := gcase{Al: fw.Pick(t, "al", 0, 1, 2, 1, 2), Head: fw.Data(t, 3000, "head"), Tail: fw.Data(t, 3000, "tail"), Prev: rapid.Bool().Draw(t, "prev")}
		switch c.Al {
		case 1:
			c.Data = fw.BytesN(t, 64, "data")
		case 2:
			c.Data = fw.Bytes(t, 0, fw.Pick(t, "max", 80, 80, 300), "data")
			if fw.Chance(t, 1, 3, "der") {
				c.K = genPair(t, 2)
				c.Msg = message(t, "msg")
				if rs := ref.RareSet["signature"]; len(rs) > 0 && fw.Chance(t, 1, 4, "rare") {
					c.K = Pair{2, ref.RareParent().Key}
					c.Msg = ref.RareMessage(rs[fw.Int(t, 0, len(rs)-1, "raremsg")].N)
				}
			} else if fw.Chance(t, 1, 3, "long") {
				c.Data = fw.Data(t, 1200000, "longdata")
			}
		}
		return c
	}
	gjudge := func(c gcase, o *fw.Obs) error {
		data := c.Data.Clone()
		if c.K.Al == 2 {
			_, pvt, err := c.K.keys(nil)
			if err != nil {
				return err
			}
			g := pvt.Sign(c.Msg)
			data = append([]byte(nil), g.Bytes()...)
			o.Label("real")
		}
		o.NTIf(c.Al != 0)
		s, err := signature.RawSignature(algs[c.Al], data)
		if err != nil {
			return fw.Errf("RawSignature(%d, %x): %v", c.Al, data, err)
		}
		want := ref.Container(byte(c.Al), data)
		wantText := ref.SigText(byte(c.Al), data)
		b, err := s.Marshal()
		if err != nil || !bytes.Equal(b, want) {
			return fw.Errf("Marshal: %x, %v, want %x", b, err, want)
		}
		head := make([]byte, len(c.Head), len(c.Head)+100)
		copy(head, c.Head)
		m, err := s.MarshalMsg(head)
		if err != nil || !bytes.Equal(m, append(c.Head.Clone(), want...)) || !bytes.Equal(head, c.Head) {
			return fw.Errf("MarshalMsg onto %x: %x, %v", c.Head, m, err)
		}
		if s.Msgsize() < len(want) {
			return fw.Errf("Msgsize() = %d < %d", s.Msgsize(), len(want))
		}
		txt, err := s.MarshalText()
		if err != nil || string(txt) != wantText {
			return fw.Errf("MarshalText: %s, %v, want %s", txt, err, wantText)
		}
		if x, err := s.MarshalString(); err != nil || x != wantText {
			return fw.Errf("MarshalString: %s, %v", x, err)
		}
		receiver := func() *signature.Signature {
			r := new(signature.Signature)
			if c.Prev {
				if err := r.Unmarshal(ref.Container(1, make([]byte, 64))); err != nil {
					panic(err)
				}
			}
			return r
		}
		check := func(how string, r *signature.Signature, err error) error {
			if err != nil {
				return fw.Errf("%s of %x: %v", how, want, err)
			}
			if !signature.SameAlgorithm(r.Algorithm(), algs[c.Al]) || !bytes.Equal(r.Bytes(), data) {
				return fw.Errf("%s: %x, want %x", how, r.Bytes(), data)
			}
			b, err := r.Marshal()
			if err != nil || !bytes.Equal(b, want) {
				return fw.Errf("%s: writes %x, %v", how, b, err)
			}
			if c.K.Al == 2 {
				pub, _, _ := c.K.keys(nil)
				if !pub.Verify(c.Msg, *r) {
					return fw.Errf("%s: no longer verifies", how)
				}
			}
			return nil
		}
		r := receiver()
		in := append([]byte(nil), want...)
		err = r.Unmarshal(in)
		scribble(in)
		if e := check("Unmarshal", r, err); e != nil {
			return e
		}
		r = receiver()
		in = append(append([]byte(nil), want...), c.Tail...)
		left, err := r.UnmarshalMsg(in)
		if err == nil && !bytes.Equal(left, c.Tail) {
			return fw.Errf("UnmarshalMsg left %x, want %x", left, c.Tail)
		}
		scribble(in)
		if e := check("UnmarshalMsg", r, err); e != nil {
			return e
		}
		r = receiver()
		in = append([]byte(nil), txt...)
		err = r.UnmarshalText(in)
		scribble(in)
		if e := check("UnmarshalText", r, err); e != nil {
			return e
		}
		r = receiver()
		if e := check("UnmarshalText of capitals", r, r.UnmarshalText(bytes.ToUpper(txt))); e != nil {
			return e
		}
		r, err = signature.ParseSignature(wantText)
		if e := check("ParseSignature", r, err); e != nil {
			return e
		}
		return nil
	}
	return fw.Property{
		ID:   "C14",
		Rule: "a key or signature of a real algorithm (not the null one) taken through every serialization, into fresh and used receivers, against an independently written container, frame and base-32; a history in which keys or signatures were copied and others truncated, cleared or loaded",
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("keys", 4000, 150000, gen, judge), func(c *kcase) bool { return c.K.fit() }),
			fw.Fit(fw.Prop("signatures", 4000, 150000, ggen, gjudge), func(c *gcase) bool {
				if c.K.Al == 2 && c.Al != 2 {
					c.K = Pair{}
				}
				switch {
				case c.Al == 0:
					c.Data = nil
				case c.Al == 1 && len(c.Data) != 64:
					c.Data = append(c.Data, make(fw.Hex, 64)...)[:64]
				}
				return c.K.fit()
			}),
			fw.NoNear(fw.Prop("copies", 1500, 60000, objGen, objJudge)),
		},
	}
}

// scribble overwrites an input buffer after it was read.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// ---------------------------------------------------------------- C16

func c16() fw.Property {
	type fcase struct {
		Msg   fw.Hex
		Edits []edit
		// W is the checksum width to use instead of the right one (-1: none)
		W int
	}
	gen := func(t *rapid.T) fcase {
		c := fcase{Msg: fw.Data(t, 1100000, "msg"), W: -1}
		if fw.Chance(t, 1, 3, "width") {
			c.W = fw.Pick(t, "w", fw.Int(t, 0, 40, "w1"), fw.Int(t, 0, 8, "w2"), fw.Int(t, 0, 255, "w3"), 28, 29, 255)
			if fw.Chance(t, 1, 2, "w5") {
				// a frame of a multiple of five all the same
				for (1+len(c.Msg)+c.W)%5 != 0 {
					c.W++
				}
				c.W &= 255
			}
		}
		if fw.Chance(t, 2, 3, "edited") {
			c.Edits = genEdits(t, 1, 3)
		}
		return c
	}
	judge := func(c fcase, o *fw.Obs) error {
		in := c.Msg.Clone()
		f := signature.AddChecksum(in)
		want := ref.Frame(c.Msg)
		if !bytes.Equal(f, want) {
			return fw.Errf("AddChecksum(%x) = %x, want %x", c.Msg, f, want)
		}
		if !bytes.Equal(in, c.Msg) {
			return fw.Errf("AddChecksum changed its input")
		}
		if len(f)%5 != 0 {
			return fw.Errf("frame of %d bytes", len(f))
		}
		scribble(in)
		if !bytes.Equal(f, want) {
			return fw.Errf("the frame shares memory with the message")
		}
		m, ok := signature.CheckChecksum(f)
		if !ok || !bytes.Equal(m, c.Msg) {
			return fw.Errf("CheckChecksum of the frame of %x: %x, %v", c.Msg, m, ok)
		}
		o.NT()
		b := append([]byte(nil), want...)
		if c.W >= 0 {
			s := sha256.Sum224(c.Msg)
			w := c.W & 255
			b = append([]byte{byte(w)}, c.Msg...)
			if w <= 28 {
				b = append(b, s[28-w:]...)
			} else {
				b = append(b, bytes.Repeat(s[:], 10)[:w]...)
			}
			o.Label("other-width")
		}
		b = applyEdits(c.Edits, b)
		keep := append([]byte(nil), b...)
		m, ok = signature.CheckChecksum(b)
		if !bytes.Equal(b, keep) {
			return fw.Errf("CheckChecksum changed its input")
		}
		wm, wok := ref.Unframe(b)
		o.LabelIf(wok, "is-a-frame")
		o.LabelIf(!wok, "is-not-a-frame")
		o.LabelIf(!wok && len(b)%5 == 0, "is-not-a-frame-length-ok")
		if ok != wok {
			return fw.Errf("CheckChecksum(%x) = %v, want %v", b, ok, wok)
		}
		if ok && !bytes.Equal(m, wm) {
			return fw.Errf("CheckChecksum(%x) = %x, want %x", b, m, wm)
		}
		return nil
	}
	type acase struct{ B fw.Hex }
	return fw.Property{
		ID:   "C16",
		Rule: "a message framed and checked, and the frame then rebuilt with another checksum width or edited and compared with the reference check",
		Subs: []fw.Sub{
			fw.Prop("frames", 40000, 3000000, gen, judge),
			fw.Prop("arbitrary", 20000, 1500000, func(t *rapid.T) acase {
				b := fw.Bytes(t, 0, 60, "b")
				if fw.Chance(t, 1, 6, "long") {
					b = fw.Data(t, 1200000, "long")
				}
				if len(b) > 0 && fw.Chance(t, 2, 3, "len") {
					b[0] = byte(fw.Int(t, 0, 40, "n"))
				}
				return acase{b}
			}, func(c acase, o *fw.Obs) error {
				o.NTIf(len(c.B) > 0)
				wm, wok := ref.Unframe(c.B)
				m, ok := signature.CheckChecksum(c.B.Clone())
				if ok != wok || (ok && !bytes.Equal(m, wm)) {
					return fw.Errf("CheckChecksum(%x) = %x, %v, want %v", c.B, m, ok, wok)
				}
				return nil
			}),
		},
	}
}
