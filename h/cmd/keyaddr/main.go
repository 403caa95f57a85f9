// Command keyaddr decides C21, C22 and C43: the string-based wallet interface
// against the native packages and an independent reference.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/words"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/keyaddr", "pkg/key", "pkg/words", "pkg/address"}
	fw.Main(c21, c22, c43)
}

// Edit changes one position of a text.
type Edit struct {
	P int
	K string // del ins set swap up pad cut
	B fw.Str
}

func (e Edit) apply(s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return s + string(e.B)
	}
	p := e.P % len(b)
	switch e.K {
	case "del":
		b = append(b[:p], b[p+1:]...)
	case "ins":
		return string(b[:p]) + string(e.B) + string(b[p:])
	case "set":
		if len(e.B) > 0 {
			b[p] = e.B[0]
		}
	case "swap":
		q := (p + 1) % len(b)
		b[p], b[q] = b[q], b[p]
	case "up":
		return strings.ToUpper(s)
	case "pad":
		return s + string(e.B)
	case "cut":
		b = b[:p]
	case "url":
		return strings.NewReplacer("+", "-", "/", "_").Replace(s)
	case "raw":
		return strings.TrimRight(s, "=")
	case "space":
		return strings.ReplaceAll(s, " ", string(e.B)+" ")
	}
	return string(b)
}

// Arg is a text: an earlier result or a literal, possibly edited.
type Arg struct {
	From  int
	Lit   fw.Str
	Edits []Edit `json:",omitempty"`
}

// Step is one call.
type Step struct {
	Op      string
	A, B, C Arg
	N       int32
}

// History is a case.
type History struct {
	Seeds []fw.Str // initial texts
	Steps []Step
}

type result struct {
	s      string // text of the result
	nilled bool   // the result is nil, empty or unusable
	err    error
}

func keyRes(k *keyaddr.Key, err error) result {
	if k == nil {
		return result{nilled: true, err: err}
	}
	return result{s: k.Key, nilled: k.Key == "", err: err}
}

func strRes(s string, err error) result { return result{s: s, nilled: s == "", err: err} }

func b2s(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func ext(k *key.ExtendedKey, err error) (string, error) {
	if err != nil {
		return "", err
	}
	t, err := k.MarshalText()
	return string(t), err
}

func load(s string) (*key.ExtendedKey, error) {
	k := new(key.ExtendedKey)
	if err := k.UnmarshalText([]byte(s)); err != nil {
		return nil, err
	}
	return k, nil
}

// call runs an operation through the string-based interface.
func call(op, a, b, c string, n int32) result {
	k := &keyaddr.Key{Key: a}
	switch op {
	case "new":
		return keyRes(keyaddr.NewKey(a))
	case "from":
		return keyRes(keyaddr.FromString(a))
	case "old":
		return keyRes(keyaddr.FromOldString(a))
	case "derive":
		return keyRes(keyaddr.DeriveFrom(a, b, c))
	case "public":
		return keyRes(k.ToPublic())
	case "child":
		return keyRes(k.Child(n))
	case "hard":
		return keyRes(k.HardenedChild(n))
	case "sign":
		s, err := k.Sign(b)
		if s == nil {
			return result{nilled: true, err: err}
		}
		return strRes(s.Signature, err)
	case "address":
		s, err := k.NdauAddress()
		if s == nil {
			return result{nilled: true, err: err}
		}
		return strRes(s.Address, err)
	case "private":
		p, err := k.IsPrivate()
		return result{s: b2s(p), nilled: !p, err: err}
	case "toext":
		e, err := k.ToExtended()
		if err != nil {
			return result{nilled: e == nil || len(e.Bytes()) == 0, err: err}
		}
		return strRes(ext(e, nil))
	case "topub":
		p, err := k.ToPublicKey()
		if err != nil {
			return result{nilled: len(p.KeyBytes()) == 0, err: err}
		}
		return strRes(p.MarshalString())
	case "topriv":
		p, err := k.ToPrivateKey()
		if err != nil {
			return result{nilled: len(p.KeyBytes()) == 0, err: err}
		}
		return strRes(p.MarshalString())
	case "frompub":
		p := signature.PublicKey{}
		if err := p.UnmarshalText([]byte(a)); err != nil {
			return result{nilled: true, err: err}
		}
		return keyRes(keyaddr.KeyFromPublic(p))
	case "frompriv":
		p := signature.PrivateKey{}
		if err := p.UnmarshalText([]byte(a)); err != nil {
			return result{nilled: true, err: err}
		}
		return keyRes(keyaddr.KeyFromPrivate(p))
	case "sig":
		s, err := keyaddr.Signature{Signature: a}.ToSignature()
		if err != nil {
			return result{nilled: len(s.Bytes()) == 0, err: err}
		}
		ks, err := keyaddr.SignatureFrom(s)
		if ks == nil {
			return result{nilled: true, err: err}
		}
		return strRes(ks.Signature, err)
	case "frombytes":
		return strRes(keyaddr.WordsFromBytes(b, a))
	case "tobytes":
		return strRes(keyaddr.WordsToBytes(b, a))
	case "prefix":
		return strRes(keyaddr.WordsFromPrefix(b, a, int(n)), nil)
	}
	panic(op)
}

// native does the same with the native packages.
func native(op, a, b, c string, n int32) (string, error) {
	switch op {
	case "new":
		seed, err := base64.StdEncoding.DecodeString(a)
		if err != nil {
			return "", err
		}
		return ext(key.NewMaster(seed))
	case "old":
		return ext(key.FromOldSerialization(a))
	case "from":
		k, err := load(a)
		if err != nil {
			return ext(key.FromOldSerialization(a))
		}
		return ext(k, nil)
	case "derive":
		k, err := load(a)
		if err != nil {
			k, err = key.FromOldSerialization(a)
		}
		if err != nil {
			return "", err
		}
		return ext(k.DeriveFrom(b, c))
	case "frompub":
		p := signature.PublicKey{}
		if err := p.UnmarshalText([]byte(a)); err != nil {
			return "", err
		}
		return ext(key.FromSignatureKey(&p))
	case "frompriv":
		p := signature.PrivateKey{}
		if err := p.UnmarshalText([]byte(a)); err != nil {
			return "", err
		}
		return ext(key.FromSignatureKey(&p))
	case "sig":
		s := signature.Signature{}
		if err := s.UnmarshalText([]byte(a)); err != nil {
			return "", err
		}
		t, err := s.MarshalText()
		return string(t), err
	case "frombytes":
		d, err := base64.StdEncoding.DecodeString(a)
		if err != nil {
			return "", err
		}
		ws, err := words.FromBytes(b, d)
		return strings.Join(ws, " "), err
	case "tobytes":
		d, err := words.ToBytes(b, strings.Split(a, " "))
		if err != nil {
			return "", err
		}
		return base64.StdEncoding.EncodeToString(d), nil
	case "prefix":
		return words.FromPrefix(b, a, int(n)), nil
	}
	k, err := load(a)
	if err != nil {
		return "", err
	}
	if (op == "child" || op == "hard") && n < 0 {
		return "", fw.Errf("negative index")
	}
	switch op {
	case "public":
		return ext(k.Public())
	case "child":
		return ext(k.Child(uint32(n)))
	case "hard":
		return ext(k.HardenedChild(uint32(n)))
	case "toext":
		return ext(k, nil)
	case "private":
		return b2s(k.IsPrivate()), nil
	case "sign":
		msg, err := base64.StdEncoding.DecodeString(b)
		if err != nil {
			return "", err
		}
		p, err := k.SPrivKey()
		if err != nil {
			return "", err
		}
		t, err := p.Sign(msg).MarshalText()
		return string(t), err
	case "address":
		ad, err := address.Generate(address.KindUser, k.PubKeyBytes())
		return ad.String(), err
	case "topub":
		p, err := k.SPubKey()
		if err != nil {
			return "", err
		}
		return p.MarshalString()
	case "topriv":
		if !k.IsPrivate() {
			return "", fw.Errf("public")
		}
		p, err := k.SPrivKey()
		if err != nil {
			return "", err
		}
		return p.MarshalString()
	}
	panic(op)
}

// parseX reads the canonical modern text of a wallet key, by the reference.
func parseX(s string) (ref.XKey, bool) {
	var x ref.XKey
	priv, msg, ok := ref.KeyTextOK(s)
	if !ok || len(msg) < 5 || msg[0] != 0x92 || msg[1] != 2 || msg[2] != 0xc4 || int(msg[3]) != len(msg)-4 {
		return x, false
	}
	d := msg[4:]
	n := int(d[0])
	if len(d) != 1+n+40 || (priv && n != 32) || (!priv && n != 33) {
		return x, false
	}
	e := d[1+n:]
	x = ref.XKey{Priv: priv, Key: d[1 : 1+n], Depth: int(e[0]), FP: e[1:4], Num: binary.BigEndian.Uint32(e[4:8]), Chain: e[8:40]}
	if priv {
		v := new(big.Int).SetBytes(x.Key)
		if v.Sign() == 0 || v.Cmp(ref.N) >= 0 {
			return x, false
		}
	} else if _, err := ref.Decompress(x.Key); err != nil {
		return x, false
	}
	return x, true
}

// reference is a third opinion: want text for well-formed input; known is
// false when it has none.
func reference(op, a, b, c string, n int32) (want string, fails, known bool) {
	switch op {
	case "new":
		seed, err := base64.StdEncoding.DecodeString(a)
		if err != nil || len(seed) < 16 || len(seed) > 64 {
			return "", true, true
		}
		x, err := ref.Master(seed)
		if err != nil {
			return "", true, true
		}
		return x.Text(), false, true
	case "frombytes":
		d, err := base64.StdEncoding.DecodeString(a)
		if err != nil || b != "en" {
			return "", true, true
		}
		return strings.Join(ref.Phrase(d), " "), false, true
	case "tobytes":
		if b != "en" {
			return "", true, true
		}
		d, ok := ref.Unphrase(strings.Split(a, " "))
		return base64.StdEncoding.EncodeToString(d), !ok, true
	}
	x, ok := parseX(a)
	if !ok {
		return "", false, false
	}
	xt := func(x ref.XKey, err error) (string, bool, bool) {
		if err != nil {
			return "", true, true
		}
		return x.Text(), false, true
	}
	switch op {
	case "from", "toext":
		return x.Text(), false, true
	case "public", "topub":
		return x.Neuter().Text(), false, true
	case "topriv":
		return x.Text(), !x.Priv, true
	case "private":
		return b2s(x.Priv), false, true
	case "address":
		ad, _ := ref.Address('a', x.Pub())
		return ad, false, true
	case "child":
		if n < 0 {
			return "", true, true
		}
		return xt(x.Child(uint32(n)))
	case "hard":
		if n < 0 || !x.Priv {
			return "", true, true
		}
		return xt(x.Child(uint32(n) | 1<<31))
	}
	return "", false, false
}

func (a Arg) text(pool []string) string {
	s := string(a.Lit)
	if a.From >= 0 && len(pool) > 0 {
		s = pool[a.From%len(pool)]
	}
	for _, e := range a.Edits {
		s = e.apply(s)
	}
	return s
}

func run(h History, each func(i int, op, a, b, c string, n int32, r result) error) error {
	var pool []string
	for _, s := range h.Seeds {
		pool = append(pool, string(s))
	}
	for i, s := range h.Steps {
		a, b, c := s.A.text(pool), s.B.text(pool), s.C.text(pool)
		r := call(s.Op, a, b, c, s.N)
		if err := each(i, s.Op, a, b, c, s.N, r); err != nil {
			return fw.Errf("step %d: %s(%q, %q, %q, %d): %v", i, s.Op, a, b, c, s.N, err)
		}
		if r.err == nil && r.s != "" && s.Op != "private" && s.Op != "prefix" {
			pool = append(pool, r.s)
		}
	}
	return nil
}

var keyOps = []string{"public", "child", "child", "hard", "sign", "address", "private", "toext", "topub", "topriv", "frompub", "frompriv", "from", "derive", "derive"}
var otherOps = []string{"new", "old", "sig", "frombytes", "tobytes", "prefix"}

func scalarKey(t *rapid.T) ref.XKey {
	if fw.Chance(t, 1, 16, "rareparent") {
		return ref.RareParent()
	}
	k := new(big.Int).SetBytes(fw.BytesN(t, fw.Pick(t, "kl", 32, 32, 32, 31, 30, 4, 1), "k"))
	if fw.Chance(t, 1, 10, "top") {
		k = new(big.Int).Sub(ref.N, big.NewInt(int64(fw.Int(t, 1, 9, "below"))))
	}
	k.Mod(k, ref.N)
	if k.Sign() == 0 {
		k.SetInt64(1)
	}
	if rs := ref.RareSet["scalar"]; fw.Chance(t, 1, 12, "rare") {
		k = ref.RareScalar(rs[fw.Int(t, 0, len(rs)-1, "rarek")].N)
	}
	x := ref.XKey{Priv: true, Key: ref.B32Int(k), Chain: fw.BytesN(t, 32, "chain"), FP: fw.BytesN(t, 3, "fp"),
		Depth: fw.Pick(t, "depth", 0, 0, 1, 2, 7, 254, 255), Num: uint32(fw.U64(t, "num"))}
	if fw.Chance(t, 1, 3, "pub") {
		x = x.Neuter()
	}
	return x
}

func b64(t *rapid.T, lo, hi int) fw.Str {
	if fw.Chance(t, 1, 12, "anylen") {
		return fw.Str(base64.StdEncoding.EncodeToString(fw.Data(t, 1<<17, "b64")))
	}
	return fw.Str(base64.StdEncoding.EncodeToString(fw.Bytes(t, lo, hi, "b64")))
}

func index(t *rapid.T) int32 {
	if fw.Chance(t, 1, 10, "rareindex") {
		rs := ref.RareSet[fw.Pick(t, "rareset", "normal", "hardened")]
		return int32(rs[fw.Int(t, 0, len(rs)-1, "raren")].N & 0x7fffffff)
	}
	return fw.Pick(t, "n", int32(fw.Int(t, 0, 20, "small")), int32(fw.Int(t, 0, 20, "small2")), int32(fw.U64(t, "any")), int32(0x7fffffff), int32(0x7ffffffe), int32(-1), int32(-0x80000000))
}

func path(t *rapid.T, pre string) string {
	s := pre
	for n := fw.Pick(t, "levels", 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, fw.Int(t, 4, 9, "deep")); n > 0; n-- {
		s += "/"
		s += big.NewInt(int64(uint32(fw.Pick(t, "el", uint64(fw.Int(t, 0, 200, "small")), fw.U64(t, "any")&0x7fffffff, fw.U64(t, "big"))))).String()
		if fw.Chance(t, 1, 4, "hard") {
			s += "'"
		}
	}
	return s
}

func edits(t *rapid.T, max int) []Edit {
	var out []Edit
	for n := fw.Int(t, 0, max, "edits"); n > 0; n-- {
		out = append(out, Edit{fw.Int(t, 0, 200, "p"), fw.Pick(t, "edit", "del", "ins", "set", "set", "swap", "up", "pad", "cut", "url", "raw", "space"),
			fw.Pick(t, "with", "a", "b", "k", "2", "0", "1", "l", "o", "=", "\n", " ", "'", "/", "\xff", "\x00", "é", "ſ", "K", fw.Junk(t, "junk", 6))})
	}
	return out
}

func history(t *rapid.T, dirty bool) History {
	var h History
	for n := fw.Int(t, 1, 3, "seeds"); n > 0; n-- {
		switch fw.Int(t, 0, 5, "seed") {
		case 0:
			h.Seeds = append(h.Seeds, fw.Str(scalarKey(t).Legacy(fw.Pick(t, "ver", []byte{0x63, 0x67, 0x1f}, []byte{0x63, 0x67, 0x19}, []byte(fw.BytesN(t, 3, "ver"))))))
		case 1:
			h.Seeds = append(h.Seeds, fw.Str(ref.KeyText(fw.Chance(t, 1, 2, "priv"), fw.Pick[byte](t, "alg", 1, 1, 0, 2, 3), fw.BytesN(t, fw.Pick(t, "len", 32, 64, 33, 0, 31), "key"), fw.BytesN(t, fw.Pick(t, "xl", 0, 40, 39, 41), "x"))))
		case 2:
			x := scalarKey(t)
			x.Key = fw.BytesN(t, len(x.Key), "raw").Clone()
			if !x.Priv {
				x.Key[0] = fw.Pick[byte](t, "tag", 2, 3, 2, 3, 4, 0, 6)
			}
			h.Seeds = append(h.Seeds, fw.Str(x.Text()))
		default:
			h.Seeds = append(h.Seeds, fw.Str(scalarKey(t).Text()))
		}
	}
	made := len(h.Seeds)
	maxSteps := 5
	if fw.Chance(t, 1, 50, "long") {
		maxSteps = 60
	}
	for n := fw.Int(t, 1, maxSteps, "steps"); n > 0; n-- {
		var s Step
		if fw.Chance(t, 1, 4, "other") {
			s.Op = fw.Pick(t, "op", otherOps...)
		} else {
			s.Op = fw.Pick(t, "op", keyOps...)
		}
		s.N = index(t)
		lit := func(x fw.Str) Arg { return Arg{From: -1, Lit: x} }
		s.A = Arg{From: fw.Int(t, 0, made+2, "from")}
		lang := lit(fw.Pick[fw.Str](t, "lang", "en", "en", "en", "en", "EN", "", "fr"))
		switch s.Op {
		case "new":
			s.A = lit(b64(t, 14, 66))
			if rs := ref.RareSet["master"]; fw.Chance(t, 1, 8, "rare") {
				s.A = lit(fw.Str(base64.StdEncoding.EncodeToString(ref.RareSeed(rs[fw.Int(t, 0, len(rs)-1, "rareseed")].N))))
			}
		case "sign":
			s.B = lit(b64(t, 0, 80))
			if rs := ref.RareSet["signature"]; fw.Chance(t, 1, 8, "rare") {
				s.A = lit(fw.Str(ref.RareParent().Text()))
				s.B = lit(fw.Str(base64.StdEncoding.EncodeToString(ref.RareMessage(rs[fw.Int(t, 0, len(rs)-1, "raremsg")].N))))
			}
		case "derive":
			p := fw.Pick(t, "base", "/", path(t, ""))
			if p == "" {
				p = "/"
			}
			s.B = lit(fw.Str(p))
			if p == "/" {
				p = ""
			}
			s.C = lit(fw.Str(path(t, p)))
		case "frombytes":
			s.A, s.B = lit(b64(t, 0, 40)), lang
		case "tobytes":
			s.A, s.B = lit(fw.Str(strings.Join(ref.Phrase(fw.Data(t, 3000, "data")), " "))), lang
		case "prefix":
			w := ref.Words[fw.Int(t, 0, 2047, "w")]
			s.A, s.B = lit(fw.Str(w[:fw.Int(t, 0, len(w), "cut")])), lang
		case "old":
			if fw.Chance(t, 1, 2, "legacy") {
				s.A = lit(fw.Str(scalarKey(t).Legacy([]byte{0x63, 0x67, 0x1f})))
			}
		case "sig":
			if fw.Chance(t, 1, 2, "siglit") {
				s.A = lit(fw.Str(ref.SigText(fw.Pick[byte](t, "alg", 1, 2, 0, 9), fw.Bytes(t, 0, 72, "sig"))))
			}
		}
		if dirty || fw.Chance(t, 1, 6, "dirty") {
			switch fw.Int(t, 0, 7, "dirt") {
			case 0, 1, 2:
				s.A.Edits = edits(t, 3)
			case 3:
				s.B.Edits = edits(t, 3)
			case 4:
				s.C.Edits = edits(t, 3)
			case 5:
				s.A = lit(fw.Junk(t, "junkA", fw.Pick(t, "junklen", 60, 60, 60, 200, 2000)))
			case 6:
				s.B, s.C = lit(fw.Junk(t, "junkB", 20)), lit(fw.Junk(t, "junkC", 20))
			case 7:
				s.A, s.B = s.B, s.A
			}
		}
		h.Steps = append(h.Steps, s)
		made++
	}
	return h
}

func c21() fw.Property {
	judge := func(h History, o *fw.Obs) error {
		ok := 0
		err := run(h, func(i int, op, a, b, c string, n int32, r result) error {
			want, werr := native(op, a, b, c, n)
			if (r.err == nil) != (werr == nil) {
				return fw.Errf("%q, %v; the native packages: %q, %v", r.s, r.err, want, werr)
			}
			if rs, fails, known := reference(op, a, b, c, n); known {
				if fails != (r.err != nil) || (!fails && rs != r.s) {
					return fw.Errf("%q, %v; by the reference %q, failure %v", r.s, r.err, rs, fails)
				}
				o.LabelIf(!fails, "reference-"+op)
			}
			if r.err != nil {
				o.Label("error-" + op)
				return nil
			}
			ok++
			o.Label("ok-" + op)
			if r.s != want {
				return fw.Errf("%q; the native packages: %q", r.s, want)
			}
			switch op {
			case "from", "old":
				again := call("from", r.s, "", "", 0)
				if again.err != nil || again.s != r.s {
					return fw.Errf("imported as %q, which is imported as %q, %v", r.s, again.s, again.err)
				}
				if !strings.HasPrefix(r.s, "npub") && !strings.HasPrefix(r.s, "npvt") {
					return fw.Errf("imported as %q", r.s)
				}
			case "address":
				p := call("public", a, "", "", 0)
				if p.err != nil {
					return fw.Errf("has an address but ToPublic: %v", p.err)
				}
				pa := call("address", p.s, "", "", 0)
				if pa.err != nil || pa.s != r.s {
					return fw.Errf("address %q, of its public key %q, %v", r.s, pa.s, pa.err)
				}
			case "sign":
				if _, ok := parseX(a); !ok {
					return nil
				}
				msg, err := base64.StdEncoding.DecodeString(b)
				if err != nil {
					return err
				}
				sig, err := keyaddr.Signature{Signature: r.s}.ToSignature()
				if err != nil {
					return fw.Errf("signature %q: %v", r.s, err)
				}
				pk, err := (&keyaddr.Key{Key: a}).ToPublicKey()
				if err != nil {
					return err
				}
				if !pk.Verify(msg, sig) {
					return fw.Errf("signature %q does not verify", r.s)
				}
				if pk.Verify(append(msg, 'x'), sig) {
					return fw.Errf("signature %q verifies for a longer message", r.s)
				}
			}
			return nil
		})
		o.NTIf(ok >= 2)
		return err
	}
	return fw.Property{
		ID:   "C21",
		Rule: "a history of calls of which at least two succeed",
		Subs: []fw.Sub{
			fw.NoNear(fw.Prop("histories", 48000, 1500000, func(t *rapid.T) History { return history(t, false) }, judge)),
		},
	}
}

// notB64 is a sufficient condition for text not being base-64.
func notB64(s string) bool {
	n := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\r' || c == '\n':
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '+', c == '/', c == '=':
			n++
		default:
			return true
		}
	}
	return n%4 != 0
}

// notKey is a sufficient condition for text not being a key in modern form:
// no prefix, a character outside the alphabet, or a bad frame.
func notKey(s string) bool {
	if len(s) < 12 {
		return true
	}
	if p := ref.LowerASCII(s[:4]); p != "npub" && p != "npvt" {
		return true
	}
	var b strings.Builder
	for i := 4; i < len(s); i++ {
		if c := s[i]; c != '\r' && c != '\n' && c != '=' {
			b.WriteByte(c)
		}
	}
	d := ref.LowerASCII(b.String())
	if !ref.IsASCII(d) {
		return false // letters outside ASCII: left to C02, C04 and C14
	}
	for i := 0; i < len(d); i++ {
		if ref.B32Val(d[i]) < 0 {
			return true
		}
	}
	if len(d)%8 != 0 || len(d) != len(s)-4 {
		return false // incomplete last group or extra characters: left open
	}
	raw, err := ref.B32Strict(d)
	if err != nil {
		return true
	}
	_, ok := ref.Unframe(raw)
	return !ok
}

func c22() fw.Property {
	judge := func(h History, o *fw.Obs) error {
		bad := false
		err := run(h, func(i int, op, a, b, c string, n int32, r result) error {
			if r.err != nil {
				o.Label("error-" + op)
				if !r.nilled {
					return fw.Errf("a usable result %q together with the error %v", r.s, r.err)
				}
				return nil
			}
			o.Label("ok-" + op)
			if r.nilled && op != "private" && op != "prefix" && !(op == "frombytes" && a == "") && !(op == "tobytes") && op != "sig" {
				return fw.Errf("neither a result nor an error")
			}
			must := ""
			switch op {
			case "new":
				if notB64(a) {
					must = "not base-64"
				}
			case "frombytes":
				if notB64(a) {
					must = "not base-64"
				}
			case "child", "hard":
				if n < 0 {
					must = "negative index"
				}
			case "sign":
				if notB64(b) {
					must = "not base-64"
				}
			}
			switch op {
			case "public", "child", "hard", "sign", "address", "private", "toext", "topub", "topriv", "frompub", "frompriv":
				if notKey(a) {
					must = "not a key"
				}
			case "from", "derive":
				if notKey(a) && len(a) < 120 { // too short for legacy text as well
					must = "not a key"
				}
			}
			if op == "sign" || op == "hard" || op == "topriv" || op == "frompriv" {
				if len(a) >= 4 && ref.LowerASCII(a[:4]) == "npub" {
					must = "a public key"
				}
			}
			if must != "" {
				return fw.Errf("%s, but the result is %q", must, r.s)
			}
			return nil
		})
		for _, s := range h.Steps {
			bad = bad || len(s.A.Edits)+len(s.B.Edits)+len(s.C.Edits) > 0 || s.A.From < 0 || s.N < 0
		}
		o.NTIf(bad)
		return err
	}
	return fw.Property{
		ID:   "C22",
		Rule: "a history with at least one altered, junk, mistyped or negative argument",
		Subs: []fw.Sub{
			fw.NoNear(fw.Prop("histories", 160000, 5000000, func(t *rapid.T) History { return history(t, true) }, judge)),
		},
	}
}

// C43: what errors say.
func c43() fw.Property {
	judge := func(h History, o *fw.Obs) error {
		tried := false
		err := run(h, func(i int, op, a, b, c string, n int32, r result) error {
			if r.err == nil {
				return nil
			}
			var secrets []ref.Secret
			switch op {
			case "new", "frombytes":
				secrets = ref.SeedSecrets(a)
			case "tobytes":
				secrets = ref.PhraseSecrets(a)
			case "prefix", "sig":
			default:
				secrets = ref.PrivateSecrets(a)
			}
			if len(secrets) == 0 {
				return nil
			}
			tried = true
			o.Label("refused-" + op)
			public := b + " " + c
			msgs := []string{r.err.Error(), fmt.Sprintf("%v %s", r.err, r.err), fmt.Sprintf("%q", r.err)}
			// the same text through the packages below
			add := func(err error) {
				if err != nil {
					msgs = append(msgs, err.Error())
				}
			}
			switch op {
			case "new":
				if d, err := base64.StdEncoding.DecodeString(a); err == nil {
					_, err = key.NewMaster(d)
					add(err)
				}
			case "frombytes":
				if d, err := base64.StdEncoding.DecodeString(a); err == nil {
					_, err = words.FromBytes(b, d)
					add(err)
				}
			case "tobytes":
				_, err := words.ToBytes(b, strings.Split(a, " "))
				add(err)
			default:
				var x key.ExtendedKey
				add(x.UnmarshalText([]byte(a)))
				var p signature.PrivateKey
				add(p.UnmarshalText([]byte(a)))
				var q signature.PublicKey
				add(q.UnmarshalText([]byte(a)))
				_, err := signature.ParsePrivateKey(a)
				add(err)
				_, err = signature.ParsePublicKey(a)
				add(err)
				_, err = signature.ParseKey(a)
				add(err)
				_, err = key.FromOldSerialization(a)
				add(err)
			}
			for _, m := range msgs {
				for _, s := range secrets {
					if w := s.Shows(m, public, fw.InSource); w != "" {
						return fw.Errf("the error %q has %q of %s", m, w, s.What)
					}
				}
			}
			return nil
		})
		o.NTIf(tried)
		return err
	}
	return fw.Property{
		ID:          "C43",
		Rule:        "histories in which a call with a secret is refused",
		Assumptions: []string{"secrets are private keys, recovery bytes and phrases passed as such, in their text, hexadecimal, base-64 or number forms; 14 characters or four words in a row count as showing them"},
		Subs: []fw.Sub{
			fw.NoNear(fw.Prop("errors", 150000, 3000000, func(t *rapid.T) History { return history(t, true) }, judge)),
		},
	}
}

var _ = bytes.Equal
