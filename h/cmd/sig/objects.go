package main

import (
	"bytes"
	"fmt"

	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// C14: a history over keys and signatures which are copied, truncated, cleared
// and loaded anew. Truncate and Zeroize tell users to make copies first, so a
// copy has to keep what it was.

type oop struct {
	Op    string
	A, B  int
	Pair  Pair
	Priv  bool
	Extra fw.Hex
	Form  int
}

type ocase struct{ Ops []oop }

var objOps = []string{"new", "new", "copy", "copy", "copy", "assign", "trunc", "trunc", "zeroize", "load", "load", "load", "sign", "write", "string", "parse"}

func objGen(t *rapid.T) ocase {
	pool := []Pair{genPair(t, 1, 2), genPair(t, 0, 1, 2), genPair(t, 2)}
	mk := func() oop {
		return oop{Op: "new", Pair: pool[fw.Int(t, 0, 2, "pair")], Priv: rapid.Bool().Draw(t, "priv"), Extra: fw.Bytes(t, 0, fw.Pick(t, "max", 0, 8, 40, 300), "extra")}
	}
	c := ocase{Ops: []oop{mk()}}
	n := fw.Pick(t, "n", fw.Int(t, 2, 12, "n1"), fw.Int(t, 2, 12, "n2"), fw.Int(t, 10, 60, "n3"))
	for i := 0; i < n; i++ {
		p := oop{Op: objOps[fw.Int(t, 0, len(objOps)-1, "op")]}
		if p.Op == "new" {
			p = mk()
		}
		p.A, p.B, p.Form = fw.Int(t, 0, 9, "a"), fw.Int(t, 0, 9, "b"), fw.Int(t, 0, 3, "form")
		c.Ops = append(c.Ops, p)
	}
	return c
}

type held struct {
	pub   *signature.PublicKey
	pvt   *signature.PrivateKey
	sig   *signature.Signature
	al    int
	key   []byte
	extra []byte
}

func (h *held) k() serKey {
	if h.pub != nil {
		return h.pub
	}
	return h.pvt
}

func (h *held) kind() int {
	switch {
	case h.pub != nil:
		return 0
	case h.pvt != nil:
		return 1
	}
	return 2
}

func (h *held) packed() []byte {
	if h.sig != nil {
		return ref.Container(byte(h.al), h.key)
	}
	return ref.Container(byte(h.al), ref.Packed(h.key, h.extra))
}

func (h *held) text() string {
	if h.sig != nil {
		return ref.SigText(byte(h.al), h.key)
	}
	return ref.KeyText(h.pvt != nil, byte(h.al), h.key, h.extra)
}

func (h *held) check() error {
	if h.sig != nil {
		if !signature.SameAlgorithm(h.sig.Algorithm(), algs[h.al]) || !bytes.Equal(h.sig.Bytes(), h.key) {
			return fw.Errf("signature %x, want %x", h.sig.Bytes(), h.key)
		}
		return nil
	}
	return sameKey(h.k(), h.al, h.key, h.extra)
}

func objJudge(c ocase, o *fw.Obs) error {
	var hs []*held
	cl := func(b []byte) []byte { return append([]byte{}, b...) }
	copies, changes := 0, 0
	for i, p := range c.Ops {
		var a, b *held
		if len(hs) > 0 {
			a, b = hs[p.A%len(hs)], hs[p.B%len(hs)]
		}
		if a == nil && p.Op != "new" {
			continue
		}
		err := func() error {
			switch p.Op {
			case "new":
				pub, pvt, err := p.Pair.keys(p.Extra)
				if err != nil {
					return err
				}
				rp, rv := p.Pair.raw()
				if p.Priv {
					hs = append(hs, &held{pvt: pvt, al: p.Pair.Al, key: rv, extra: p.Extra.Clone()})
				} else {
					hs = append(hs, &held{pub: pub, al: p.Pair.Al, key: rp, extra: p.Extra.Clone()})
				}
			case "copy":
				n := &held{al: a.al, key: cl(a.key), extra: cl(a.extra)}
				switch a.kind() {
				case 0:
					v := *a.pub
					n.pub = &v
				case 1:
					v := *a.pvt
					n.pvt = &v
				default:
					v := *a.sig
					n.sig = &v
				}
				hs = append(hs, n)
				copies++
			case "assign":
				if a.kind() != b.kind() {
					return nil
				}
				switch a.kind() {
				case 0:
					*a.pub = *b.pub
				case 1:
					*a.pvt = *b.pvt
				default:
					*a.sig = *b.sig
				}
				a.al, a.key, a.extra = b.al, cl(b.key), cl(b.extra)
				copies++
			case "trunc":
				if a.sig == nil {
					a.k().Truncate()
					a.extra = []byte{}
					changes++
				}
			case "zeroize":
				if a.sig == nil {
					a.k().Zeroize()
					a.al, a.key, a.extra = 0, []byte{}, []byte{}
					if !a.k().IsZero() {
						return fw.Errf("a cleared key is not zero")
					}
					changes++
				}
			case "load":
				if a.kind() != b.kind() {
					return nil
				}
				buf, text := b.packed(), []byte(b.text())
				var err error
				switch {
				case a.sig != nil && p.Form == 0:
					err = a.sig.Unmarshal(buf)
				case a.sig != nil && p.Form == 1:
					_, err = a.sig.UnmarshalMsg(buf)
				case a.sig != nil:
					err = a.sig.UnmarshalText(text)
				case p.Form == 0:
					err = a.k().Unmarshal(buf)
				case p.Form == 1:
					_, err = a.k().UnmarshalMsg(buf)
				default:
					err = a.k().UnmarshalText(text)
				}
				if err != nil {
					return err
				}
				scribble(buf)
				scribble(text)
				a.al, a.key, a.extra = b.al, cl(b.key), cl(b.extra)
				changes++
			case "parse":
				if a.sig != nil {
					g, err := signature.ParseSignature(a.text())
					if err != nil {
						return err
					}
					hs = append(hs, &held{sig: g, al: a.al, key: cl(a.key)})
					return nil
				}
				k, err := signature.ParseKey(a.text())
				if err != nil {
					return err
				}
				n := &held{al: a.al, key: cl(a.key), extra: cl(a.extra)}
				if a.pub != nil {
					n.pub, _ = k.(*signature.PublicKey)
				} else {
					n.pvt, _ = k.(*signature.PrivateKey)
				}
				if n.pub == nil && n.pvt == nil {
					return fw.Errf("ParseKey of %s gives a %T", a.text(), k)
				}
				hs = append(hs, n)
			case "sign":
				if a.pvt != nil && a.al != 0 {
					g := a.pvt.Sign(p.Extra)
					hs = append(hs, &held{sig: &g, al: a.al, key: cl(g.Bytes())})
				}
			case "write":
				var m []byte
				var err error
				if a.sig != nil {
					m, err = a.sig.MarshalMsg(nil)
				} else {
					m, err = a.k().MarshalMsg(nil)
				}
				if err != nil || !bytes.Equal(m, a.packed()) {
					return fw.Errf("MarshalMsg: %x, %v; want %x", m, err, a.packed())
				}
				scribble(m)
			case "string":
				var t []byte
				var err error
				if a.sig != nil {
					t, err = a.sig.MarshalText()
				} else {
					_ = a.k().String()
					t, err = a.k().MarshalText()
				}
				if err != nil || string(t) != a.text() {
					return fw.Errf("MarshalText: %s, %v; want %s", t, err, a.text())
				}
				scribble(t)
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, p.Op, err)
		}
		o.Label(p.Op)
		for n, h := range hs {
			if err := h.check(); err != nil {
				return fmt.Errorf("after step %d (%s), object %d: %w", i, p.Op, n, err)
			}
		}
	}
	for n, h := range hs {
		var t []byte
		var err error
		if h.sig != nil {
			t, err = h.sig.MarshalText()
		} else {
			t, err = h.k().MarshalText()
		}
		if err != nil || string(t) != h.text() {
			return fw.Errf("at the end, object %d writes %s, %v; want %s", n, t, err, h.text())
		}
	}
	o.NTIf(copies > 0 && changes > 0)
	return nil
}
