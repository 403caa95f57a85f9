// Command hd decides C08..C12: wallet keys against an independent BIP-32.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"testing/iotest"

	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/key", "pkg/bip32", "pkg/b32", "pkg/signature"}
	fw.Main(c08, c09, c10, c11, c12)
}

// K is a wallet key in a case.
type K struct {
	Priv  bool
	Key   fw.Hex
	Chain fw.Hex
	FP    fw.Hex
	Depth int
	Num   uint32
}

func fromRef(x ref.XKey) K {
	return K{x.Priv, x.Key, x.Chain, x.FP, x.Depth, x.Num}
}

// fit makes an altered key a key again.
func (k *K) fit() bool {
	if len(k.Chain) != 32 || len(k.FP) != 3 {
		return false
	}
	k.Depth &= 255
	if !k.Priv && len(k.Key) == 33 {
		_, err := ref.Decompress(k.Key)
		return err == nil
	}
	if len(k.Key) == 33 { // the scalar where the coordinate was
		k.Key = k.Key[1:]
	}
	n := new(big.Int).SetBytes(k.Key)
	n.Mod(n, ref.N)
	if n.Sign() == 0 {
		n.SetInt64(1)
	}
	k.Key = ref.B32Int(n)
	if !k.Priv {
		k.Key = ref.Compress(ref.BaseMult(n))
	}
	return true
}

func (k K) ref() ref.XKey {
	return ref.XKey{Priv: k.Priv, Key: k.Key.Clone(), Chain: k.Chain.Clone(), FP: k.FP.Clone(), Depth: k.Depth, Num: k.Num}
}

// code builds the ndaumath key.
func code(x ref.XKey) *key.ExtendedKey {
	c := x.Clone()
	return key.NewExtendedKey(c.Key, c.Chain, c.FP, uint8(c.Depth), c.Num, c.Priv)
}

func scalar(t *rapid.T) *big.Int {
	var n *big.Int
	switch fw.Int(t, 0, 11, "scalar?") {
	case 10: // zeros at an end of the public key's coordinates or fingerprint
		if rs := ref.RareSet["scalar"]; len(rs) > 0 {
			return ref.RareScalar(rs[fw.Int(t, 0, len(rs)-1, "rare")].N)
		}
		n = big.NewInt(1)
	case 11: // trailing zeros
		b := fw.BytesN(t, 32, "tz").Clone()
		for k := fw.Int(t, 1, 31, "tz#"); k > 0; k-- {
			b[32-k] = 0
		}
		n = new(big.Int).SetBytes(b)
	case 0: // tiny: many leading zeros
		n = new(big.Int).SetBytes(fw.Bytes(t, 1, 8, "tiny"))
	case 1, 2: // one to four leading zero bytes
		n = new(big.Int).SetBytes(fw.BytesN(t, 32-fw.Int(t, 1, 4, "lz"), "short"))
	case 3: // close to the order
		n = new(big.Int).Sub(ref.N, big.NewInt(int64(fw.Int(t, 1, 300, "below"))))
	default:
		n = new(big.Int).SetBytes(fw.BytesN(t, 32, "scalar"))
	}
	n.Mod(n, ref.N)
	if n.Sign() == 0 {
		n.SetInt64(1)
	}
	return n
}

// rareChild draws the index of a child of ref.RareParent with zeros at an end
// of its key, chain code or HMAC half.
func rareChild(t *rapid.T, hard bool) uint32 {
	set, base := "normal", uint32(0)
	if hard {
		set, base = "hardened", 1<<31
	}
	rs := ref.RareSet[set]
	if len(rs) == 0 {
		return base
	}
	return base + rs[fw.Int(t, 0, len(rs)-1, "rare")].N
}

func genKey(t *rapid.T, priv bool) K {
	if fw.Chance(t, 1, 12, "rarekey") {
		x, err := ref.RareParent().Child(rareChild(t, rapid.Bool().Draw(t, "rarehard")))
		if err != nil {
			panic(err)
		}
		if !priv {
			x = x.Neuter()
		}
		return fromRef(x)
	}
	x := ref.XKey{Priv: true, Key: ref.B32Int(scalar(t)), Chain: fw.BytesN(t, 32, "chain"), FP: fw.BytesN(t, 3, "fp")}
	x.Depth = fw.Pick(t, "depth", 0, 0, 1, 2, 3, 100, 253, 254, 255, fw.Int(t, 0, 255, "anydepth"))
	x.Num = index(t)
	if !priv {
		x = x.Neuter()
	}
	return fromRef(x)
}

func index(t *rapid.T) uint32 {
	switch fw.Int(t, 0, 5, "ix?") {
	case 0:
		return fw.Pick[uint32](t, "ix", 0, 1, 2, 255, 256, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x7ffffffe, 0xfffffffe, 65535, 65536)
	case 1, 2:
		return uint32(fw.Int(t, 0, 50, "ix"))
	case 3:
		return 0x80000000 + uint32(fw.Int(t, 0, 50, "ix"))
	}
	return binary.BigEndian.Uint32(fw.BytesN(t, 4, "ix"))
}

// same compares everything observable about a key.
func same(k *key.ExtendedKey, x ref.XKey) error {
	return sameP(k, x, x.Pub())
}

func sameP(k *key.ExtendedKey, x ref.XKey, pub []byte) error {
	if k == nil {
		return fw.Errf("nil key")
	}
	if k.IsPrivate() != x.Priv {
		return fw.Errf("IsPrivate() = %v, want %v", k.IsPrivate(), x.Priv)
	}
	if !bytes.Equal(k.Bytes(), x.Key) {
		return fw.Errf("key %x, want %x", k.Bytes(), x.Key)
	}
	if !bytes.Equal(k.PubKeyBytes(), pub) {
		return fw.Errf("public key %x, want %x", k.PubKeyBytes(), pub)
	}
	if int(k.Depth()) != x.Depth {
		return fw.Errf("depth %d, want %d", k.Depth(), x.Depth)
	}
	if w := binary.BigEndian.Uint32(append([]byte{0}, x.FP...)); k.ParentFingerprint() != w {
		return fw.Errf("parent fingerprint %06x, want %06x", k.ParentFingerprint(), w)
	}
	sk, err := k.AsSignatureKey()
	if err != nil {
		return fw.Errf("AsSignatureKey: %v", err)
	}
	if !bytes.Equal(sk.KeyBytes(), x.Key) || !bytes.Equal(sk.ExtraBytes(), x.Extra()) {
		return fw.Errf("signature key %x extra %x, want %x extra %x (depth, fingerprint, child number, chain code)", sk.KeyBytes(), sk.ExtraBytes(), x.Key, x.Extra())
	}
	if signature.IsPrivate(sk) != x.Priv || signature.IsPublic(sk) == x.Priv {
		return fw.Errf("signature key is of the wrong kind")
	}
	return nil
}

// ---------------------------------------------------------------- C08

func c08() fw.Property {
	type mcase struct {
		Seed fw.Hex
		Ix   []uint32
	}
	mgen := func(t *rapid.T) mcase {
		c := mcase{}
		n := fw.Pick(t, "len", 16, 32, 64, 15, 65, 0, fw.Int(t, 0, 80, "n"), fw.Int(t, 16, 64, "n2"), fw.Int(t, 16, 64, "n3"))
		c.Seed = fw.BytesN(t, n, "seed")
		if rs := ref.RareSet["master"]; len(rs) > 0 && fw.Chance(t, 1, 6, "rareseed") {
			c.Seed = ref.RareSeed(rs[fw.Int(t, 0, len(rs)-1, "rare")].N)
		}
		for i := fw.Int(t, 0, 3, "d"); i > 0; i-- {
			c.Ix = append(c.Ix, index(t))
		}
		return c
	}
	mjudge := func(c mcase, o *fw.Obs) error {
		seed := c.Seed.Clone()
		k, err := key.NewMaster(seed)
		il, ir, berr := bip32.NewMaster(seed)
		if !bytes.Equal(seed, c.Seed) {
			return fw.Errf("NewMaster changed the seed")
		}
		x, xerr := ref.Master(c.Seed)
		if (err != nil) != (xerr != nil) || (berr != nil) != (xerr != nil) {
			return fw.Errf("seed of %d bytes: key.NewMaster error %v, bip32.NewMaster error %v", len(seed), err, berr)
		}
		if err != nil {
			o.Label("seed-refused")
			o.NT()
			if k != nil {
				return fw.Errf("key and error")
			}
			return nil
		}
		if !bytes.Equal(il[:], x.Key) || !bytes.Equal(ir[:], x.Chain) {
			return fw.Errf("bip32.NewMaster = %x, %x; want %x, %x", il, ir, x.Key, x.Chain)
		}
		if err := same(k, x); err != nil {
			return fmt.Errorf("master: %w", err)
		}
		for d, i := range c.Ix {
			k2, err := k.Child(i)
			x2, xerr := x.Child(i)
			if err != nil || xerr != nil {
				return fw.Errf("child %d at step %d: %v (reference %v)", i, d, err, xerr)
			}
			if err := same(k2, x2); err != nil {
				return fmt.Errorf("child %d at step %d: %w", i, d, err)
			}
			k, x = k2, x2
		}
		o.NTIf(len(c.Ix) > 0)
		o.Label("derived")
		return nil
	}
	type ccase struct {
		K  K
		Ix uint32
		H  bool // use HardenedChild
		// children derived from the same object before, and after
		Before, After []uint32
	}
	cgen := func(t *rapid.T) ccase {
		c := ccase{K: genKey(t, fw.Chance(t, 2, 3, "priv"))}
		c.Ix = index(t)
		c.H = fw.Chance(t, 1, 4, "hard")
		if fw.Chance(t, 1, 3, "used") {
			for i := fw.Int(t, 1, 4, "before"); i > 0; i-- {
				c.Before = append(c.Before, fw.Pick(t, "sib", index(t), c.Ix, c.Ix^1<<31, c.Ix+1))
			}
			for i := fw.Int(t, 0, 2, "after"); i > 0; i-- {
				c.After = append(c.After, fw.Pick(t, "sib", index(t), c.Ix, c.Ix^1<<31, c.Ix-1))
			}
		}
		if fw.Chance(t, 1, 5, "rare") {
			x := ref.RareParent()
			hard := rapid.Bool().Draw(t, "rarehard")
			if !hard && rapid.Bool().Draw(t, "rarepub") {
				x = x.Neuter()
			}
			c.K, c.Ix = fromRef(x), rareChild(t, hard)
			c.K.Depth = fw.Int(t, 0, 254, "d")
			c.H = hard && rapid.Bool().Draw(t, "hardcall")
			if c.H {
				c.Ix &= 0x7fffffff
			}
		}
		return c
	}
	cjudge := func(c ccase, o *fw.Obs) error {
		x := c.K.ref()
		k := code(x)
		var got *key.ExtendedKey
		var err error
		for _, i := range c.Before {
			if s, err := k.Child(i); err == nil && s.IsPrivate() {
				s.Bytes()
				s.PubKeyBytes()
			}
		}
		what := "Child"
		wantErr := false
		var want ref.XKey
		if c.H {
			what = "HardenedChild"
			got, err = k.HardenedChild(c.Ix)
			if c.Ix>>31 == 1 {
				wantErr = true
				o.Label("hardened-range")
			} else {
				var xerr error
				want, xerr = x.Child(c.Ix | 1<<31)
				wantErr = xerr != nil
			}
		} else {
			got, err = k.Child(c.Ix)
			var xerr error
			want, xerr = x.Child(c.Ix)
			wantErr = xerr != nil
		}
		if (err != nil) != wantErr {
			return fw.Errf("%s(%d) of %+v: error %v, want error %v", what, c.Ix, c.K, err, wantErr)
		}
		pub := x.Pub()
		if e := sameP(k, x, pub); e != nil {
			return fmt.Errorf("%s changed the parent: %w", what, e)
		}
		o.NT()
		if err != nil {
			o.Label("refused")
			if got != nil {
				return fw.Errf("key and error")
			}
			return nil
		}
		o.LabelIf(want.Priv && want.Key[0] == 0, "leading-zero-child")
		o.LabelIf(x.Priv && x.Key[0] == 0, "leading-zero-parent")
		o.LabelIf(!x.Priv, "public")
		if e := same(got, want); e != nil {
			return fmt.Errorf("%s(%d) of %+v: %w", what, c.Ix, c.K, e)
		}
		for _, i := range c.After {
			s, err := k.Child(i)
			w, werr := x.Child(i)
			if (err != nil) != (werr != nil) {
				return fw.Errf("Child(%d) after Child(%d) of %+v: %v", i, c.Ix, c.K, err)
			}
			if err == nil {
				if e := same(s, w); e != nil {
					return fmt.Errorf("Child(%d) after Child(%d) of %+v: %w", i, c.Ix, c.K, e)
				}
			}
		}
		if len(c.Before)+len(c.After) > 0 {
			o.Label("siblings")
			if e := same(got, want); e != nil {
				return fmt.Errorf("after deriving siblings: %s(%d) of %+v: %w", what, c.Ix, c.K, e)
			}
		}
		if want.Priv {
			ep, err := got.ECPrivKey()
			if err != nil || ep.D.Cmp(new(big.Int).SetBytes(want.Key)) != 0 {
				return fw.Errf("ECPrivKey: %v, %v", ep, err)
			}
		}
		q, err := got.ECPubKey()
		if err != nil || !bytes.Equal(q.SerializeCompressed(), want.Pub()) {
			return fw.Errf("ECPubKey: %v, %v", q, err)
		}
		return nil
	}
	pjudge := func(c struct{ S fw.Hex }, o *fw.Obs) error {
		o.NT()
		x := ref.XKey{Priv: true, Key: c.S}
		in := c.S.Clone()
		got := bip32.PrivateToPublic(in)
		if !bytes.Equal(in, c.S) {
			return fw.Errf("PrivateToPublic changed its input")
		}
		if !bytes.Equal(got, x.Pub()) {
			return fw.Errf("PrivateToPublic(%x) = %x, want %x", c.S, got, x.Pub())
		}
		return nil
	}
	type scase struct {
		Len  int
		Src  fw.Hex
		Have int
	}
	sjudge := func(c scase, o *fw.Obs) error {
		o.NT()
		var src io.Reader = bytes.NewReader(c.Src)
		switch c.Have % 3 {
		case 1: // readers may give less than they are asked for
			src = iotest.OneByteReader(src)
		case 2:
			src = iotest.HalfReader(src)
		}
		s, err := bip32.GenerateSeed(uint8(c.Len), src)
		ok := c.Len >= 16 && c.Len <= 64
		switch {
		case !ok && err == nil:
			return fw.Errf("GenerateSeed(%d) succeeded", c.Len)
		case ok && len(c.Src) < c.Len && err == nil:
			return fw.Errf("GenerateSeed(%d) from %d random bytes succeeded", c.Len, len(c.Src))
		case ok && len(c.Src) >= c.Len:
			if err != nil || !bytes.Equal(s, c.Src[:c.Len]) {
				return fw.Errf("GenerateSeed(%d) = %x, %v from %x", c.Len, s, err, c.Src)
			}
		}
		g, err := key.GenerateSeed(uint8(c.Len))
		if (err == nil) != ok || (ok && len(g) != c.Len) {
			return fw.Errf("key.GenerateSeed(%d) = %d bytes, %v", c.Len, len(g), err)
		}
		return nil
	}
	return fw.Property{
		ID:          "C08",
		Rule:        "a seed derived at least one level or refused; every single-child case (crafted parents with leading zeros, scalars near the order, depths to 255, public and private) is non-trivial",
		Assumptions: []string{"the 2^-127 branches (HMAC output outside the scalar range, child at infinity) cannot be reached by generation"},
		Subs: []fw.Sub{
			fw.Prop("chain", 2500, 120000, mgen, mjudge),
			fw.Fit(fw.Prop("child", 6000, 300000, cgen, cjudge), func(c *ccase) bool { return c.K.fit() }),
			fw.Fit(fw.Prop("pubkey", 2000, 80000, func(t *rapid.T) struct{ S fw.Hex } { return struct{ S fw.Hex }{ref.B32Int(scalar(t))} }, pjudge), func(c *struct{ S fw.Hex }) bool {
				k := K{Priv: true, Key: c.S, Chain: make(fw.Hex, 32), FP: make(fw.Hex, 3)}
				k.fit()
				c.S = k.Key
				return true
			}),
			fw.Prop("seed", 1000, 20000, func(t *rapid.T) scase {
				return scase{Len: fw.Pick(t, "l", 15, 16, 64, 65, 32, fw.Int(t, 0, 255, "len")), Src: fw.Bytes(t, 0, 80, "src"), Have: fw.Int(t, 0, 2, "reader")}
			}, sjudge),
		},
	}
}

// ---------------------------------------------------------------- C09

func c09() fw.Property {
	type ncase struct {
		K   K
		Ix  []uint32
		Msg fw.Hex
	}
	gen := func(t *rapid.T) ncase {
		c := ncase{K: genKey(t, true), Msg: fw.Data(t, 5000, "msg")}
		for i := fw.Int(t, 1, 5, "n"); i > 0; i-- {
			c.Ix = append(c.Ix, index(t)&0x7fffffff)
		}
		if c.K.Depth+len(c.Ix) > 255 && fw.Chance(t, 3, 4, "shallow") {
			c.K.Depth = 255 - len(c.Ix)
		}
		if fw.Chance(t, 1, 8, "rare") {
			c.K = fromRef(ref.RareParent())
			c.Ix[0] = rareChild(t, false)
		}
		return c
	}
	judge := func(c ncase, o *fw.Obs) error {
		x := c.K.ref()
		priv := code(x)
		pub, err := priv.Public()
		if err != nil {
			return fw.Errf("Public: %v", err)
		}
		for d, i := range c.Ix {
			p2, err1 := priv.Child(i)
			q2, err2 := pub.Child(i)
			if (err1 != nil) != (err2 != nil) {
				return fw.Errf("step %d: private derivation %v, public derivation %v", d, err1, err2)
			}
			if err1 != nil {
				o.Label("depth-limit")
				if c.K.Depth+d < 255 {
					return fw.Errf("step %d at depth %d: %v", d, c.K.Depth+d, err1)
				}
				break
			}
			priv, pub = p2, q2
			np, err := priv.Public()
			if err != nil {
				return fw.Errf("Public: %v", err)
			}
			for what, g := range map[string][2]any{
				"public key":  {fw.Hex(pub.Bytes()), fw.Hex(np.Bytes())},
				"PubKeyBytes": {fw.Hex(pub.PubKeyBytes()), fw.Hex(priv.PubKeyBytes())},
				"depth":       {pub.Depth(), np.Depth()},
				"fingerprint": {pub.ParentFingerprint(), np.ParentFingerprint()},
			} {
				if err := fw.Diff(fmt.Sprintf("step %d: %s derived publicly vs privately", d, what), g[0], g[1]); err != nil {
					return err
				}
			}
			s1, e1 := pub.AsSignatureKey()
			s2, e2 := np.AsSignatureKey()
			if e1 != nil || e2 != nil || !bytes.Equal(s1.ExtraBytes(), s2.ExtraBytes()) || !bytes.Equal(s1.KeyBytes(), s2.KeyBytes()) {
				return fw.Errf("step %d: public derivation %x %x, private derivation %x %x (%v %v)", d, s1.KeyBytes(), s1.ExtraBytes(), s2.KeyBytes(), s2.ExtraBytes(), e1, e2)
			}
			if pub.IsPrivate() || np.IsPrivate() {
				return fw.Errf("a public key says it is private")
			}
			if _, err := pub.ECPrivKey(); err == nil {
				return fw.Errf("a private key was extracted from a public one")
			}
			if _, err := pub.SPrivKey(); err == nil {
				return fw.Errf("a private signature key was extracted from a public key")
			}
			if _, err := pub.HardenedChild(i); err == nil {
				return fw.Errf("hardened child of a public key")
			}
			pp, err := pub.Public()
			if err != nil || pp.IsPrivate() || !bytes.Equal(pp.Bytes(), pub.Bytes()) || pp.Depth() != pub.Depth() {
				return fw.Errf("Public is not idempotent: %v", err)
			}
		}
		o.NT()
		o.LabelIf(len(c.Ix) > 2, "deep")
		// signatures cross over
		sk, err := priv.SPrivKey()
		if err != nil {
			return fw.Errf("SPrivKey: %v", err)
		}
		vk, err := pub.SPubKey()
		if err != nil {
			return fw.Errf("SPubKey: %v", err)
		}
		vk2, err := priv.SPubKey()
		if err != nil {
			return fw.Errf("SPubKey of a private key: %v", err)
		}
		sig := sk.Sign(c.Msg.Clone())
		if !vk.Verify(c.Msg, sig) || !vk2.Verify(c.Msg, sig) {
			return fw.Errf("a signature by the derived private key does not verify under the derived public key")
		}
		if !bytes.Equal(vk.KeyBytes(), vk2.KeyBytes()) {
			return fw.Errf("SPubKey differs")
		}
		return nil
	}
	return fw.Property{
		ID:   "C09",
		Rule: "a private key derived at least one normal step both ways and compared after every step (or both refused at depth 255)",
		Subs: []fw.Sub{fw.Fit(fw.Prop("commute", 2500, 150000, gen, judge), func(c *ncase) bool {
			for i := range c.Ix {
				c.Ix[i] &= 0x7fffffff
			}
			return c.K.Priv && c.K.fit()
		})},
	}
}
