package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func c11() fw.Property {
	type rcase struct {
		K    K
		Prev bool // receiver holds another key
		Ix   uint32
		Msg  fw.Hex
		Ver  fw.Hex
		Up   bool
	}
	prev, err := ref.Master([]byte("some other seed, entirely other"))
	if err != nil {
		panic(err)
	}
	prevText := []byte(prev.Text())
	receiver := func(prev bool) *key.ExtendedKey {
		r := new(key.ExtendedKey)
		if prev {
			if err := r.UnmarshalText(prevText); err != nil {
				panic(err)
			}
			r.PubKeyBytes() // memoize
		}
		return r
	}
	gen := func(t *rapid.T) rcase {
		return rcase{K: genKey(t, fw.Chance(t, 2, 3, "priv")), Prev: rapid.Bool().Draw(t, "prev"), Ix: index(t), Msg: fw.Data(t, 5000, "msg"),
			Ver: fw.Hex(fw.Pick(t, "ver", "\x63\x67\x1f", "\x63\x64\x10", "\x8b\x67\x1f", "\x8b\x64\x10")), Up: fw.Chance(t, 1, 4, "up")}
	}
	judge := func(c rcase, o *fw.Obs) error {
		x := c.K.ref()
		pub := x.Pub()
		k := code(x)
		o.NT()
		o.LabelIf(x.Priv, "private")
		o.LabelIf(!x.Priv, "public")
		txt, err := k.MarshalText()
		if err != nil {
			return fw.Errf("MarshalText: %v", err)
		}
		if string(txt) != x.Text() {
			return fw.Errf("MarshalText of %+v = %s, want %s", c.K, txt, x.Text())
		}
		sk, err := k.AsSignatureKey()
		if err != nil {
			return fw.Errf("AsSignatureKey: %v", err)
		}
		forms := map[string]func() (*key.ExtendedKey, error){
			"text": func() (*key.ExtendedKey, error) {
				r := receiver(c.Prev)
				return r, r.UnmarshalText(append([]byte(nil), txt...))
			},
			"signature key": func() (*key.ExtendedKey, error) { return key.FromSignatureKey(sk) },
			"signature key into receiver": func() (*key.ExtendedKey, error) {
				r := receiver(c.Prev)
				return r, r.FromSignatureKey(sk)
			},
			"signature key via text": func() (*key.ExtendedKey, error) {
				st, err := sk.MarshalText()
				if err != nil {
					return nil, err
				}
				p, err := signature.ParseKey(string(st))
				if err != nil {
					return nil, err
				}
				return key.FromSignatureKey(p)
			},
			"JSON": func() (*key.ExtendedKey, error) {
				b, err := json.Marshal(map[string]any{"k": k})
				if err != nil {
					return nil, err
				}
				r := map[string]*key.ExtendedKey{"k": receiver(c.Prev)}
				return r["k"], json.Unmarshal(b, &r)
			},
			"legacy text": func() (*key.ExtendedKey, error) {
				l := x.Legacy(c.Ver)
				if c.Up {
					l = string(bytes.ToUpper([]byte(l)))
				}
				return key.FromOldSerialization(l)
			},
		}

		for name, f := range forms {
			k2, err := f()
			if err != nil {
				return fw.Errf("%s: %v", name, err)
			}
			if name == "JSON" {
				// json may allocate a new receiver for a map value
				b, _ := json.Marshal(map[string]any{"k": k})
				r := map[string]*key.ExtendedKey{}
				if err := json.Unmarshal(b, &r); err != nil {
					return fw.Errf("JSON: %v", err)
				}
				k2 = r["k"]
			}
			if e := sameP(k2, x, pub); e != nil {
				return fmt.Errorf("%s: %w", name, e)
			}
			t2, err := k2.MarshalText()
			if err != nil || !bytes.Equal(t2, txt) {
				return fw.Errf("%s: re-exports to %s, %v; want %s", name, t2, err, txt)
			}
			// children
			c1, e1 := k.Child(c.Ix)
			c2, e2 := k2.Child(c.Ix)
			if (e1 != nil) != (e2 != nil) {
				return fw.Errf("%s: child %d: %v, original %v", name, c.Ix, e2, e1)
			}
			if e1 == nil {
				if e := sameKeys(c1, c2); e != nil {
					return fmt.Errorf("%s: child %d: %w", name, c.Ix, e)
				}
			}
			if x.Priv {
				s1, e1 := k.SPrivKey()
				s2, e2 := k2.SPrivKey()
				v2, e3 := k2.SPubKey()
				if e1 != nil || e2 != nil || e3 != nil {
					return fw.Errf("%s: signature keys: %v %v %v", name, e1, e2, e3)
				}
				g1, g2 := s1.Sign(c.Msg), s2.Sign(c.Msg)
				if !bytes.Equal(g1.Bytes(), g2.Bytes()) || !v2.Verify(c.Msg, g1) {
					return fw.Errf("%s: signatures differ", name)
				}
			}
		}
		return nil
	}

	// refusals
	type bcase struct {
		S    fw.Str
		Old  bool
		Prev bool
	}
	bgen := func(t *rapid.T) bcase {
		c := bcase{Old: rapid.Bool().Draw(t, "old"), Prev: rapid.Bool().Draw(t, "prev")}
		x := genKey(t, rapid.Bool().Draw(t, "priv")).ref()
		if c.Old {
			ver := []byte(fw.Pick(t, "ver", "\x63\x67\x1f", "\x63\x64\x10", "\x8b\x67\x1f", "\x00\x00\x00"))
			switch fw.Int(t, 0, 6, "how") {
			case 0: // private key zero, the order, above
				x.Priv = true
				x.Key = fw.Pick(t, "k", make([]byte, 32), ref.B32Int(ref.N), ref.B32Int(new(big.Int).Add(ref.N, big.NewInt(1))), bytes.Repeat([]byte{0xff}, 32), ref.B32Int(new(big.Int).Sub(ref.N, big.NewInt(1))))
			case 1: // any 33 bytes as a public key
				x.Priv = false
				x.Key = fw.BytesN(t, 33, "pk").Clone()
				x.Key[0] = fw.Pick(t, "tag", byte(2), 3, 2, 3, 4, 5, 6, 7, 1, 0xff)
			case 2: // wrong length
				x.Chain = fw.BytesN(t, 32+fw.Pick(t, "dl", -5, 5, 1, -1, 8, -32), "chain")
			}
			c.S = fw.Str(x.Legacy(ver))
		} else {
			switch fw.Int(t, 0, 6, "how") {
			case 0: // another algorithm
				if x.Priv {
					c.S = fw.Str(ref.KeyText(true, 1, fw.BytesN(t, 64, "ed"), x.Extra()))
				} else {
					c.S = fw.Str(ref.KeyText(false, 1, fw.BytesN(t, 32, "ed"), x.Extra()))
				}
			case 1: // too little extra data
				e := x.Extra()
				c.S = fw.Str(ref.KeyText(x.Priv, 2, x.Key, e[:fw.Int(t, 0, 39, "cut")]))
			case 2: // wrong key length
				c.S = fw.Str(ref.KeyText(x.Priv, 2, fw.BytesN(t, fw.Int(t, 0, 40, "kl"), "k"), x.Extra()))
			case 3: // no such algorithm, or none
				c.S = fw.Str(ref.KeyText(x.Priv, fw.Pick(t, "alg", byte(0), 3, 127, 128, 255), x.Key, x.Extra()))
			default:
				c.S = fw.Str(x.Text())
			}
		}
		for n := fw.Pick(t, "edits", 0, 0, 1, 1, 1, 2, 3, 4); n > 0 && len(c.S) > 0; n-- {
			b := []byte(c.S)
			p := fw.Int(t, 0, len(b)-1, "p")
			switch fw.Int(t, 0, 5, "edit") {
			case 0:
				b = append(b[:p], b[p+1:]...)
			case 1:
				b = append(b[:p], append([]byte{ref.Alphabet[fw.Int(t, 0, 31, "ins")]}, b[p:]...)...)
			case 2:
				b = b[:p]
			case 3:
				q := fw.Int(t, 0, len(b)-1, "q")
				b[p], b[q] = b[q], b[p]
			default:
				b[p] = fw.Pick(t, "c", ref.Alphabet[fw.Int(t, 0, 31, "sub")], ref.Alphabet[fw.Int(t, 0, 31, "sub2")], 'l', '0', '=', ' ', 0xff)
			}
			c.S = fw.Str(b)
		}
		if fw.Chance(t, 1, 20, "junk") {
			c.S = fw.Junk(t, "junk", 80)
		}
		return c
	}
	bjudge := func(c bcase, o *fw.Obs) error {
		s := string(c.S)
		if c.Old {
			k, err := key.FromOldSerialization(s)
			want, ok := legacyParse(s)
			o.NTIf(len(s) > 100)
			if bytes.ContainsAny([]byte(s), "=\r\n") || !ref.IsASCII(s) {
				o.Label("undecided")
				return nil
			}
			if !want.Priv && len(want.Key) == 33 && new(big.Int).SetBytes(want.Key[1:]).Cmp(ref.P) >= 0 {
				// an x coordinate which is not reduced: btcec reduces it
				o.Label("unreduced-x")
				return nil
			}
			if ok != (err == nil) {
				return fw.Errf("FromOldSerialization(%q): %v, want success %v", s, err, ok)
			}
			if err != nil {
				o.Label("legacy-refused")
				if k != nil {
					return fw.Errf("key and error")
				}
				return nil
			}
			o.Label("legacy-ok")
			return same(k, want)
		}
		r := receiver(c.Prev)
		err := r.UnmarshalText([]byte(s))
		priv, msg, frameOK := ref.KeyTextOK(s)
		if bytes.ContainsAny([]byte(s), "=\r\n") || !ref.IsASCII(s) {
			o.Label("undecided")
			return nil
		}
		o.NTIf(len(s) > 100)
		want, ok := ref.XKey{}, false
		if frameOK {
			want, ok = modernParse(priv, msg)
		}
		if !ok {
			o.Label("text-refused")
			o.LabelIf(frameOK, "refused-good-checksum")
			if err == nil {
				return fw.Errf("UnmarshalText(%q) succeeded", s)
			}
			return nil
		}
		o.Label("text-ok")
		if err != nil {
			return fw.Errf("UnmarshalText(%q): %v", s, err)
		}
		if !want.Priv {
			if _, e := ref.Decompress(want.Key); e != nil {
				o.Label("off-curve")
				return nil
			}
		}
		if n := new(big.Int).SetBytes(want.Key); want.Priv && (n.Sign() == 0 || n.Cmp(ref.N) >= 0) {
			o.Label("out-of-range")
			return nil
		}
		return same(r, want)
	}
	// keys of other algorithms through FromSignatureKey
	type acase struct {
		Seed  fw.Hex
		Extra fw.Hex
		Priv  bool
		Al    int
	}
	ajudge := func(c acase, o *fw.Obs) error {
		o.NT()
		var sk signature.Key
		ed := ed25519.NewKeyFromSeed(c.Seed)
		var err error
		switch {
		case c.Al == 0 && c.Priv:
			sk, err = signature.RawPrivateKey(signature.Ed25519, ed, c.Extra)
		case c.Al == 0:
			sk, err = signature.RawPublicKey(signature.Ed25519, ed[32:], c.Extra)
		case c.Al == 1 && c.Priv:
			sk, err = signature.RawPrivateKey(signature.Null, nil, c.Extra)
		case c.Al == 1:
			sk, err = signature.RawPublicKey(signature.Null, nil, c.Extra)
		case c.Priv:
			sk, err = signature.RawPrivateKey(signature.Secp256k1, c.Seed, c.Extra)
		default:
			sk, err = signature.RawPublicKey(signature.Secp256k1, ref.Compress(ref.BaseMult(new(big.Int).SetBytes(c.Seed))), c.Extra)
		}
		if err != nil {
			return fw.Errf("raw key: %v", err)
		}
		k, err := key.FromSignatureKey(sk)
		want := c.Al == 2 && len(c.Extra) >= 40
		if (err == nil) != want {
			return fw.Errf("FromSignatureKey(algorithm case %d, %d extra bytes): %v", c.Al, len(c.Extra), err)
		}
		o.LabelIf(want, "accepted")
		if err != nil && k != nil {
			return fw.Errf("key and error")
		}
		return nil
	}
	return fw.Property{
		ID:   "C11",
		Rule: "a key taken through every export form; or a text of more than 100 characters, wrong in a way a reference decides",
		Subs: []fw.Sub{
			fw.Fit(fw.Prop("roundtrip", 1500, 80000, gen, judge), func(c *rcase) bool { return len(c.Ver) == 3 && c.K.fit() }),
			fw.Prop("refuse", 10000, 500000, bgen, bjudge),
			fw.Fit(fw.Prop("algorithms", 2000, 60000, func(t *rapid.T) acase {
				n := fw.Pick(t, "n", 40, 40, 39, 0, fw.Int(t, 0, 45, "len"))
				if n > 40 {
					n = 40
				}
				s := fw.BytesN(t, 32, "seed")
				s[0] &= 0x7f
				s[31] |= 1
				return acase{s, fw.BytesN(t, n, "extra"), rapid.Bool().Draw(t, "priv"), fw.Int(t, 0, 2, "al")}
			}, ajudge), func(c *acase) bool {
				return len(c.Seed) == 32 && len(c.Extra) <= 40 && c.Seed[0] < 128 && c.Seed[31]&1 == 1
			}),
		},
	}
}

// legacyParse is the reference reader of legacy texts.
func legacyParse(s string) (ref.XKey, bool) {
	b, err := ref.B32Strict(ref.LowerASCII(s))
	if err != nil || len(b) != 80 || !bytes.Equal(ref.Dsha4(b[:76]), b[76:]) {
		return ref.XKey{}, false
	}
	x := ref.XKey{Depth: int(b[3]), FP: b[4:7], Num: uint32(b[7])<<24 | uint32(b[8])<<16 | uint32(b[9])<<8 | uint32(b[10]), Chain: b[11:43]}
	if b[43] == 0 {
		x.Priv = true
		x.Key = b[44:76]
		n := new(big.Int).SetBytes(x.Key)
		return x, n.Sign() > 0 && n.Cmp(ref.N) < 0
	}
	x.Key = b[43:76]
	_, err = ref.Decompress(x.Key)
	return x, err == nil
}

// modernParse reads the framed message of a modern wallet key text. Only the
// canonical container (shortest headers) is accepted; longer headers do not
// arise from the generators.
func modernParse(priv bool, m []byte) (ref.XKey, bool) {
	kl := 33
	if priv {
		kl = 32
	}
	if len(m) < 5 || m[0] != 0x92 || m[1] != 2 || m[2] != 0xc4 || int(m[3]) != len(m)-4 || int(m[4]) != kl || len(m) < 5+kl+40 {
		return ref.XKey{}, false
	}
	e := m[5+kl:]
	return ref.XKey{Priv: priv, Key: m[5 : 5+kl], Depth: int(e[0]), FP: e[1:4], Num: uint32(e[4])<<24 | uint32(e[5])<<16 | uint32(e[6])<<8 | uint32(e[7]), Chain: e[8:40]}, true
}
