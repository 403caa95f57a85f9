package main

import (
	"bytes"
	"fmt"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// C12: a history over key objects and the signature keys obtained from them.

type iop struct {
	Op   string
	A, B int
	Ix   uint32
	B0   fw.Hex `json:",omitempty"`
}

type kobj struct {
	k    *key.ExtendedKey
	x    ref.XKey
	live bool // contents are defined
	dead bool // was cleared, and is expected to be empty
}

type sobj struct {
	s     signature.Key
	priv  bool
	key   []byte
	extra []byte
	live  bool
}

type icase struct{ Ops []iop }

var isoOps = []string{"master", "child", "child", "public", "public", "assig", "spub", "spriv", "fromsig", "loadsig", "loadsig", "loadtext", "loadtext", "loadlegacy",
	"zero", "zero", "export", "pubbytes", "pubbytes", "sign", "derive", "ecpub", "ecpriv", "trunc", "zeroize", "badload", "string", "inspect"}

func isoGen(t *rapid.T) icase {
	ops := []iop{{Op: "master", B0: fw.BytesN(t, 16, "seed0")}}
	n := fw.Pick(t, "n", fw.Int(t, 3, 16, "n1"), fw.Int(t, 3, 16, "n2"), fw.Int(t, 3, 40, "n3"))
	for i := 0; i < n; i++ {
		o := iop{Op: isoOps[fw.Int(t, 0, len(isoOps)-1, "op")], A: fw.Int(t, 0, 7, "a"), B: fw.Int(t, 0, 7, "b")}
		switch o.Op {
		case "master":
			o.B0 = fw.BytesN(t, fw.Pick(t, "sl", 16, 32, 64), "seed")
			if rs := ref.RareSet["master"]; len(rs) > 0 && fw.Chance(t, 1, 4, "rare") {
				o.B0 = ref.RareSeed(rs[fw.Int(t, 0, len(rs)-1, "raren")].N)
			}
		case "child":
			o.Ix = index(t)
		case "sign":
			o.B0 = fw.Bytes(t, 0, 12, "msg")
		case "derive":
			o.Ix = uint32(fw.Int(t, 0, 9, "ix"))
		}
		ops = append(ops, o)
	}
	return icase{ops}
}

// peek compares without touching the memoized public key.
func (b *kobj) peek() error {
	if b.dead {
		if b.k.IsPrivate() || b.k.Depth() != 0 || len(bytes.Trim(b.k.Bytes(), "\x00")) != 0 {
			return fw.Errf("a cleared key still has contents: %x", b.k.Bytes())
		}
		return nil
	}
	if !b.live {
		return nil
	}
	if b.k.IsPrivate() != b.x.Priv || int(b.k.Depth()) != b.x.Depth || !bytes.Equal(b.k.Bytes(), b.x.Key) {
		return fw.Errf("private %v, depth %d, key %x; want %v, %d, %x", b.k.IsPrivate(), b.k.Depth(), b.k.Bytes(), b.x.Priv, b.x.Depth, b.x.Key)
	}
	sk, err := b.k.AsSignatureKey()
	if err != nil || !bytes.Equal(sk.KeyBytes(), b.x.Key) || !bytes.Equal(sk.ExtraBytes(), b.x.Extra()) {
		return fw.Errf("exports %v (%v), want key %x, extra %x", sk, err, b.x.Key, b.x.Extra())
	}
	return nil
}

func (s *sobj) check() error {
	if !s.live {
		return nil
	}
	if signature.IsPrivate(s.s) != s.priv || !bytes.Equal(s.s.KeyBytes(), s.key) || !bytes.Equal(s.s.ExtraBytes(), s.extra) {
		return fw.Errf("signature key %x extra %x, want %x extra %x", s.s.KeyBytes(), s.s.ExtraBytes(), s.key, s.extra)
	}
	return nil
}

func c12() fw.Property {
	judge := func(c icase, o *fw.Obs) error {
		var ks []*kobj
		var ss []*sobj
		cl := func(b []byte) []byte { return append([]byte(nil), b...) }
		addK := func(k *key.ExtendedKey, x ref.XKey) {
			for _, b := range ks {
				if b.k == k { // the same object under another name
					ks = append(ks, b)
					return
				}
			}
			ks = append(ks, &kobj{k: k, x: x.Clone(), live: true})
		}
		addS := func(s signature.Key, x ref.XKey) {
			ss = append(ss, &sobj{s: s, priv: x.Priv, key: cl(x.Key), extra: cl(x.Extra()), live: true})
		}
		clears, loads := 0, 0
		for i, p := range c.Ops {
			var b, b2 *kobj
			var s *sobj
			if len(ks) > 0 {
				b, b2 = ks[p.A%len(ks)], ks[p.B%len(ks)]
			}
			if len(ss) > 0 {
				s = ss[p.B%len(ss)]
			}
			err := func() error {
				switch p.Op {
				case "master":
					k, err := key.NewMaster(p.B0.Clone())
					x, xerr := ref.Master(p.B0)
					if err != nil || xerr != nil {
						return fw.Errf("%v %v", err, xerr)
					}
					addK(k, x)
					return nil
				case "loadlegacy":
					if !b.live {
						return nil
					}
					k, err := key.FromOldSerialization(b.x.Legacy([]byte{0x63, 0x67, 0x1f}))
					if err != nil {
						return err
					}
					addK(k, b.x)
					return nil
				case "loadtext":
					if !b2.live {
						return nil
					}
					t, err := b2.k.MarshalText()
					if err != nil {
						return err
					}
					if err := b.k.UnmarshalText(t); err != nil {
						return err
					}
					b.x, b.live, b.dead = b2.x.Clone(), true, false
					loads++
					return nil
				case "badload":
					if b.k.UnmarshalText([]byte("npvtnonsense")) == nil {
						return fw.Errf("nonsense loaded")
					}
					b.live, b.dead = false, false
					return nil
				case "zero":
					b.k.Zero()
					b.live, b.dead = false, true
					clears++
					return nil
				case "fromsig", "loadsig":
					if s == nil {
						return nil
					}
					ok := s.live && len(s.extra) == 40
					x := ref.XKey{}
					if ok {
						e := s.extra
						x = ref.XKey{Priv: s.priv, Key: cl(s.key), Depth: int(e[0]), FP: cl(e[1:4]), Num: uint32(e[4])<<24 | uint32(e[5])<<16 | uint32(e[6])<<8 | uint32(e[7]), Chain: cl(e[8:])}
					}
					if p.Op == "fromsig" {
						k, err := key.FromSignatureKey(s.s)
						if (err == nil) != ok {
							return fw.Errf("FromSignatureKey: %v", err)
						}
						if ok {
							addK(k, x)
						}
						return nil
					}
					err := b.k.FromSignatureKey(s.s)
					if (err == nil) != ok {
						return fw.Errf("FromSignatureKey: %v", err)
					}
					b.live, b.dead, b.x = ok, false, x
					loads++
					return nil
				case "trunc":
					if s == nil || !s.live {
						return nil
					}
					s.s.Truncate()
					s.extra = []byte{}
					return nil
				case "zeroize":
					if s == nil {
						return nil
					}
					s.s.Zeroize()
					s.live = false
					clears++
					return nil
				}
				if !b.live {
					return nil
				}
				switch p.Op {
				case "child":
					k, err := b.k.Child(p.Ix)
					x, xerr := b.x.Child(p.Ix)
					if (err != nil) != (xerr != nil) {
						return fw.Errf("Child(%d): %v, want %v", p.Ix, err, xerr)
					}
					if err == nil {
						addK(k, x)
					}
				case "public":
					k, err := b.k.Public()
					if err != nil {
						return err
					}
					addK(k, b.x.Neuter())
				case "assig":
					sk, err := b.k.AsSignatureKey()
					if err != nil {
						return err
					}
					addS(sk, b.x)
				case "spub":
					sk, err := b.k.SPubKey()
					if err != nil {
						return err
					}
					addS(sk, b.x.Neuter())
				case "spriv":
					sk, err := b.k.SPrivKey()
					if (err == nil) != b.x.Priv {
						return fw.Errf("SPrivKey: %v", err)
					}
					if err == nil {
						addS(sk, b.x)
					}
				case "export":
					t, err := b.k.MarshalText()
					if err != nil || string(t) != b.x.Text() {
						return fw.Errf("MarshalText = %s, %v; want %s", t, err, b.x.Text())
					}
					for k := range t {
						t[k] = 'x'
					}
				case "pubbytes":
					if !bytes.Equal(b.k.PubKeyBytes(), b.x.Pub()) {
						return fw.Errf("PubKeyBytes %x, want %x", b.k.PubKeyBytes(), b.x.Pub())
					}
				case "sign":
					if b.x.Priv {
						sk, err := b.k.SPrivKey()
						if err != nil {
							return err
						}
						pk, err := b.k.SPubKey()
						if err != nil {
							return err
						}
						if !pk.Verify(p.B0, sk.Sign(p.B0)) {
							return fw.Errf("own signature does not verify")
						}
					}
				case "derive":
					path := fmt.Sprintf("/%d", p.Ix)
					k, err := b.k.DeriveFrom("/", path)
					x, xerr := b.x.Child(p.Ix)
					if (err != nil) != (xerr != nil) {
						return fw.Errf("DeriveFrom(/, %s): %v, want %v", path, err, xerr)
					}
					if err == nil {
						addK(k, x)
					}
				case "ecpub":
					q, err := b.k.ECPubKey()
					if err != nil {
						return err
					}
					q.X.SetInt64(1) // the caller's to change
				case "ecpriv":
					if q, err := b.k.ECPrivKey(); err == nil {
						q.D.SetInt64(1)
					}
				case "string":
					_ = fmt.Sprint(b.k.Bytes(), b.k.Depth())
				case "inspect":
					b.k.ParentFingerprint()
					b.k.IsPrivate()
				}
				return nil
			}()
			if err != nil {
				return fmt.Errorf("step %d (%s): %w", i, p.Op, err)
			}
			o.Label(p.Op)
			for n, b := range ks {
				if err := b.peek(); err != nil {
					return fmt.Errorf("after step %d (%s), key %d: %w", i, p.Op, n, err)
				}
			}
			for n, s := range ss {
				if err := s.check(); err != nil {
					return fmt.Errorf("after step %d (%s), signature key %d: %w", i, p.Op, n, err)
				}
			}
		}
		for n, b := range ks {
			if b.live {
				if err := same(b.k, b.x); err != nil {
					return fmt.Errorf("at the end, key %d: %w", n, err)
				}
				g, gerr := b.k.Child(1)
				f, ferr := code(b.x).Child(1)
				if (gerr == nil) != (ferr == nil) {
					return fw.Errf("at the end, key %d: Child(1) %v, of a fresh key %v", n, gerr, ferr)
				}
				if gerr == nil {
					if err := sameKeys(g, f); err != nil {
						return fmt.Errorf("at the end, child of key %d: %w", n, err)
					}
				}
			}
		}
		o.NTIf(clears+loads > 0 && len(ks)+len(ss) > 2)
		return nil
	}
	return fw.Property{
		ID:   "C12",
		Rule: "a history with at least three key objects in which at least one was cleared or loaded anew; a crowd of at least 200 operations",
		Subs: []fw.Sub{
			fw.NoNear(fw.Prop("history", 1600, 100000, isoGen, judge)),
			fw.NoNear(fw.Prop("crowd", 24, 2000, crowdGen, crowd)),
		},
	}
}

// A crowd: the same few operations many times over, on keys which come and
// go, while every key made on the way has to stay what it was.
type crowdCase struct {
	Seed   fw.Hex
	Ops    []int
	Repeat int
}

func crowdGen(t *rapid.T) crowdCase {
	c := crowdCase{Seed: fw.BytesN(t, 16, "seed")}
	n := fw.Int(t, 1, 8, "ops")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, fw.Int(t, 0, 11, "op"))
	}
	c.Repeat = fw.Int(t, 1, fw.Pick(t, "total", 40, 300, 300, 800), "repeat")/n + 1
	return c
}

type snapshot struct {
	k              *key.ExtendedKey
	text           string
	bytes, pub, ex []byte
	fp             uint32
}

func snap(k *key.ExtendedKey) snapshot {
	t, _ := k.MarshalText()
	sk, err := k.AsSignatureKey()
	s := snapshot{k: k, text: string(t), bytes: append([]byte(nil), k.Bytes()...), fp: k.ParentFingerprint()}
	if err == nil {
		s.ex = append([]byte(nil), sk.ExtraBytes()...)
	}
	return s
}

func (s snapshot) check() error {
	n := snap(s.k)
	if n.text != s.text || !bytes.Equal(n.bytes, s.bytes) || n.fp != s.fp || !bytes.Equal(n.ex, s.ex) {
		return fw.Errf("a key has changed from %s (fingerprint %06x) to %s (%06x)", s.text, s.fp, n.text, n.fp)
	}
	return nil
}

func crowd(c crowdCase, o *fw.Obs) error {
	m, err := key.NewMaster(c.Seed.Clone())
	if err != nil {
		return err
	}
	x, err := ref.Master(c.Seed)
	if err != nil {
		return err
	}
	pub, err := m.Public()
	if err != nil {
		return err
	}
	made := []snapshot{snap(m), snap(pub)}
	cur, curPub := m, pub
	ix := uint32(0)
	keep := func(k *key.ExtendedKey, err error) error {
		if err == nil {
			made = append(made, snap(k))
		}
		return err
	}
	do := func(op int) error {
		ix++
		switch op {
		case 0, 1:
			k, err := m.Child(ix)
			return keep(k, err)
		case 2:
			k, err := m.HardenedChild(ix)
			return keep(k, err)
		case 3:
			k, err := pub.Child(ix)
			return keep(k, err)
		case 4: // down the tree
			if cur.Depth() > 200 {
				cur = m
			}
			k, err := cur.Child(ix)
			if err == nil {
				cur = k
			}
			return keep(k, err)
		case 5:
			if curPub.Depth() > 200 {
				curPub = pub
			}
			k, err := curPub.Child(ix)
			if err == nil {
				curPub = k
			}
			return keep(k, err)
		case 6:
			k, err := cur.Public()
			return keep(k, err)
		case 7:
			t, err := cur.MarshalText()
			if err != nil {
				return err
			}
			k := new(key.ExtendedKey)
			if err := k.UnmarshalText(t); err != nil {
				return err
			}
			return keep(k, nil)
		case 8: // made and cleared at once
			k, err := m.Child(ix)
			if err != nil {
				return err
			}
			k.Zero()
			return nil
		case 9:
			sk, err := cur.AsSignatureKey()
			if err != nil {
				return err
			}
			k, err := key.FromSignatureKey(sk)
			return keep(k, err)
		case 10:
			k, err := key.FromOldSerialization(x.Legacy([]byte{0x63, 0x67, 0x1f}))
			return keep(k, err)
		}
		k, err := key.NewMaster([]byte(fmt.Sprintf("another master %08d", ix)))
		return keep(k, err)
	}
	total := 0
	for r := 0; r < c.Repeat; r++ {
		for _, op := range c.Ops {
			if err := do(op); err != nil {
				return fmt.Errorf("operation %d of round %d: %w", op, r, err)
			}
			total++
		}
		if err := made[r%len(made)].check(); err != nil {
			return fmt.Errorf("after round %d: %w", r, err)
		}
	}
	for i, s := range made {
		if err := s.check(); err != nil {
			return fmt.Errorf("after all, key %d of %d: %w", i, len(made), err)
		}
	}
	o.NTIf(total >= 200)
	return nil
}
