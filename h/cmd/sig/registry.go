package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// Toy algorithms to register: values and pointers.

type toy struct{ size int }

func (a toy) PublicKeySize() int  { return a.size }
func (a toy) PrivateKeySize() int { return a.size }
func (a toy) SignatureSize() int  { return 32 }
func (a toy) Public(private []byte) []byte {
	out := make([]byte, len(private))
	for i := range out {
		out[i] = private[i] ^ 0x3c
	}
	return out
}
func (a toy) Generate(r io.Reader) (pub, priv []byte, err error) {
	priv = make([]byte, a.size)
	_, err = io.ReadFull(r, priv)
	return a.Public(priv), priv, err
}
func (a toy) Sign(private, message []byte) []byte {
	h := sha256.Sum256(append(a.Public(private), message...))
	return h[:]
}
func (a toy) Verify(public, message, sig []byte) bool {
	h := sha256.Sum256(append(append([]byte(nil), public...), message...))
	return bytes.Equal(h[:], sig)
}

// AlphaScheme is used as a value.
type AlphaScheme struct{}

// BetaScheme is used as a value.
type BetaScheme struct{}

// GammaScheme is used as a pointer.
type GammaScheme struct{ _ int }

// DeltaScheme is used as a pointer.
type DeltaScheme struct{}

// Alphascheme has nearly the name of another.
type Alphascheme struct{}

func (Alphascheme) PublicKeySize() int                          { return 9 }
func (Alphascheme) PrivateKeySize() int                         { return 9 }
func (Alphascheme) SignatureSize() int                          { return 32 }
func (Alphascheme) Public(p []byte) []byte                      { return toy{9}.Public(p) }
func (Alphascheme) Sign(p, m []byte) []byte                     { return toy{9}.Sign(p, m) }
func (Alphascheme) Verify(p, m, s []byte) bool                  { return toy{9}.Verify(p, m, s) }
func (Alphascheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{9}.Generate(r) }

func (AlphaScheme) PublicKeySize() int                          { return 8 }
func (AlphaScheme) PrivateKeySize() int                         { return 8 }
func (AlphaScheme) SignatureSize() int                          { return 32 }
func (AlphaScheme) Public(p []byte) []byte                      { return toy{8}.Public(p) }
func (AlphaScheme) Sign(p, m []byte) []byte                     { return toy{8}.Sign(p, m) }
func (AlphaScheme) Verify(p, m, s []byte) bool                  { return toy{8}.Verify(p, m, s) }
func (AlphaScheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{8}.Generate(r) }

func (BetaScheme) PublicKeySize() int                          { return 20 }
func (BetaScheme) PrivateKeySize() int                         { return 20 }
func (BetaScheme) SignatureSize() int                          { return -1 }
func (BetaScheme) Public(p []byte) []byte                      { return toy{20}.Public(p) }
func (BetaScheme) Sign(p, m []byte) []byte                     { return toy{20}.Sign(p, m) }
func (BetaScheme) Verify(p, m, s []byte) bool                  { return toy{20}.Verify(p, m, s) }
func (BetaScheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{20}.Generate(r) }

func (*GammaScheme) PublicKeySize() int                          { return 11 }
func (*GammaScheme) PrivateKeySize() int                         { return 11 }
func (*GammaScheme) SignatureSize() int                          { return 32 }
func (*GammaScheme) Public(p []byte) []byte                      { return toy{11}.Public(p) }
func (*GammaScheme) Sign(p, m []byte) []byte                     { return toy{11}.Sign(p, m) }
func (*GammaScheme) Verify(p, m, s []byte) bool                  { return toy{11}.Verify(p, m, s) }
func (*GammaScheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{11}.Generate(r) }

func (*DeltaScheme) PublicKeySize() int                          { return 3 }
func (*DeltaScheme) PrivateKeySize() int                         { return 3 }
func (*DeltaScheme) SignatureSize() int                          { return 32 }
func (*DeltaScheme) Public(p []byte) []byte                      { return toy{3}.Public(p) }
func (*DeltaScheme) Sign(p, m []byte) []byte                     { return toy{3}.Sign(p, m) }
func (*DeltaScheme) Verify(p, m, s []byte) bool                  { return toy{3}.Verify(p, m, s) }
func (*DeltaScheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{3}.Generate(r) }

// wide is a toy with keys of two lengths.
type wide struct{ pub, priv int }

func (a wide) Public(private []byte) []byte {
	out := make([]byte, a.pub)
	for i := range out {
		out[i] = private[i%len(private)] ^ byte(i)
	}
	return out
}
func (a wide) Sign(private, message []byte) []byte {
	h := sha256.Sum256(append(a.Public(private), message...))
	return h[:]
}

// FullScheme has keys as long as a container can hold.
type FullScheme struct{}

// OverScheme has public keys longer than that.
type OverScheme struct{}

// HugeScheme has private keys longer than that.
type HugeScheme struct{}

func (FullScheme) PublicKeySize() int                          { return 255 }
func (FullScheme) PrivateKeySize() int                         { return 255 }
func (FullScheme) SignatureSize() int                          { return 32 }
func (FullScheme) Public(p []byte) []byte                      { return wide{255, 255}.Public(p) }
func (FullScheme) Sign(p, m []byte) []byte                     { return wide{255, 255}.Sign(p, m) }
func (FullScheme) Verify(p, m, s []byte) bool                  { return toy{255}.Verify(p, m, s) }
func (FullScheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{255}.Generate(r) }

func (OverScheme) PublicKeySize() int                          { return 256 }
func (OverScheme) PrivateKeySize() int                         { return 32 }
func (OverScheme) SignatureSize() int                          { return 32 }
func (OverScheme) Public(p []byte) []byte                      { return wide{256, 32}.Public(p) }
func (OverScheme) Sign(p, m []byte) []byte                     { return wide{256, 32}.Sign(p, m) }
func (OverScheme) Verify(p, m, s []byte) bool                  { return toy{256}.Verify(p, m, s) }
func (OverScheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{256}.Generate(r) }

func (HugeScheme) PublicKeySize() int                          { return 32 }
func (HugeScheme) PrivateKeySize() int                         { return 300 }
func (HugeScheme) SignatureSize() int                          { return 32 }
func (HugeScheme) Public(p []byte) []byte                      { return wide{32, 300}.Public(p) }
func (HugeScheme) Sign(p, m []byte) []byte                     { return wide{32, 300}.Sign(p, m) }
func (HugeScheme) Verify(p, m, s []byte) bool                  { return toy{32}.Verify(p, m, s) }
func (HugeScheme) Generate(r io.Reader) (a, b []byte, e error) { return toy{32}.Generate(r) }

// all algorithms a history may use; the first three are the built-in ones
func allAlgs() []signature.Algorithm {
	return []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1, AlphaScheme{}, BetaScheme{}, &GammaScheme{}, &DeltaScheme{}, Alphascheme{}, FullScheme{}, OverScheme{}, HugeScheme{}}
}

type regOp struct {
	ID int // number
	Al int // index in allAlgs
}

type regCase struct {
	Ops []regOp
	Msg fw.Hex
	// Ptr uses a pointer to a value algorithm when making keys
	Ptr bool
}

func registryChild() {
	s := os.Getenv("VERIF_SIG_HISTORY")
	if s == "" {
		return
	}
	var c regCase
	if err := json.Unmarshal([]byte(s), &c); err != nil {
		panic(err)
	}
	if err := fw.Catch(func() error { return registryJudge(c) }); err != nil {
		fmt.Println("FAIL " + err.Error())
	} else {
		fmt.Println("PASS")
	}
	os.Exit(0)
}

// registryJudge runs in a process of its own: the registry is global.
func registryJudge(c regCase) error {
	all := allAlgs()
	names := make([]string, len(all))
	for i, a := range all {
		names[i] = signature.NameOf(a)
	}
	model := map[int]int{0: 0, 1: 1, 2: 2} // number -> algorithm
	holder := map[int]map[int]bool{0: {0: true}, 1: {1: true}, 2: {2: true}}
	for step, op := range c.Ops {
		al := all[op.Al]
		err := signature.RegisterAlgorithm(signature.AlgorithmID(op.ID), al)
		cur, taken := model[op.ID]
		switch {
		case op.ID < 128, taken && cur != op.Al:
			if err == nil {
				return fw.Errf("step %d: registering %s under %d succeeds", step, names[op.Al], op.ID)
			}
		case taken: // the same again
			if err != nil {
				return fw.Errf("step %d: registering %s again under %d: %v", step, names[op.Al], op.ID, err)
			}
		case len(holder[op.Al]) > 0:
			// a second number for one algorithm: either answer, as long
			// as everything below holds
			if err == nil {
				model[op.ID] = op.Al
				holder[op.Al][op.ID] = true
			}
		default:
			if err != nil {
				return fw.Errf("step %d: registering %s under %d: %v", step, names[op.Al], op.ID, err)
			}
			model[op.ID] = op.Al
			holder[op.Al] = map[int]bool{op.ID: true}
		}
		if e := registryState(c, all, names, model, holder); e != nil {
			return fmt.Errorf("after step %d: %w", step, e)
		}
	}
	return registryState(c, all, names, model, holder)
}

func registryState(c regCase, all []signature.Algorithm, names []string, model map[int]int, holder map[int]map[int]bool) error {
	use := append([]signature.Algorithm(nil), all...)
	if c.Ptr {
		a, b := AlphaScheme{}, BetaScheme{}
		use[3], use[4] = &a, &b
		e, s := signature.Ed25519, signature.Secp256k1
		use[1], use[2] = &e, &s
	}
	for i, a := range use {
		reg := len(holder[i]) > 0
		for j, b := range all {
			want := i == j && reg
			if got := signature.SameAlgorithm(a, b); got != want && (reg || i != j) {
				return fw.Errf("SameAlgorithm(%s, %s) = %v", names[i], names[j], got)
			}
			if signature.SameAlgorithm(b, a) != signature.SameAlgorithm(a, b) {
				return fw.Errf("SameAlgorithm(%s, %s) is not symmetric", names[i], names[j])
			}
		}
		privRaw := bytes.Repeat([]byte{9, 1, 0x7f}, 120)[:a.PrivateKeySize()]
		var pubRaw []byte
		if i == 1 || i == 2 {
			p := Pair{i, bytes.Repeat([]byte{5}, 32)}
			pubRaw, privRaw = p.raw()
		} else {
			pubRaw = a.Public(privRaw)
		}
		pub, err := signature.RawPublicKey(a, pubRaw, []byte("x"))
		if err != nil {
			return fw.Errf("RawPublicKey of %s: %v", names[i], err)
		}
		priv, err := signature.RawPrivateKey(a, privRaw, nil)
		if err != nil {
			return fw.Errf("RawPrivateKey of %s: %v", names[i], err)
		}
		sig := priv.Sign(c.Msg)
		if i != 0 && !pub.Verify(c.Msg, sig) {
			return fw.Errf("%s: signature does not verify", names[i])
		}
		b, err := pub.Marshal()
		if !reg {
			_, e2 := priv.MarshalText()
			_, e3 := sig.MarshalMsg(nil)
			if err == nil || e2 == nil || e3 == nil {
				return fw.Errf("%s is not registered, but serializes: %x %v %v %v", names[i], b, err, e2, e3)
			}
			continue
		}
		if len(pubRaw) > 255 || len(privRaw) > 255 {
			// the length has one byte: refused, or back as it was
			if err := tooLong(*pub, *priv, c.Msg); err != nil {
				return fw.Errf("%s: %v", names[i], err)
			}
			continue
		}
		if err != nil {
			return fw.Errf("%s: public key does not serialize: %v", names[i], err)
		}
		num := -1
		for id := range holder[i] {
			if bytes.Equal(b, ref.Container(byte(id), ref.Packed(pubRaw, []byte("x")))) {
				num = id
			}
		}
		if num < 0 || (i <= 2 && num != i) {
			return fw.Errf("%s, registered under %v, serializes as %x", names[i], holder[i], b)
		}
		// again: always the same number
		for k := 0; k < 3; k++ {
			if b2, err := pub.Marshal(); err != nil || !bytes.Equal(b, b2) {
				return fw.Errf("%s serializes as %x and as %x, %v", names[i], b, b2, err)
			}
		}
		var pub2 signature.PublicKey
		if err := pub2.Unmarshal(b); err != nil {
			return fw.Errf("%s: public key does not read back: %v", names[i], err)
		}
		if !signature.SameAlgorithm(pub2.Algorithm(), all[i]) || !bytes.Equal(pub2.KeyBytes(), pubRaw) || !bytes.Equal(pub2.ExtraBytes(), []byte("x")) {
			return fw.Errf("%s: public key reads back as %s %x", names[i], signature.NameOf(pub2.Algorithm()), pub2.KeyBytes())
		}
		pt, err := priv.MarshalText()
		if err != nil {
			return fw.Errf("%s: private key text: %v", names[i], err)
		}
		priv2, err := signature.ParsePrivateKey(string(pt))
		if err != nil {
			return fw.Errf("%s: private key does not read back: %v", names[i], err)
		}
		sm, err := sig.MarshalMsg([]byte("head"))
		if err != nil {
			return fw.Errf("%s: signature: %v", names[i], err)
		}
		var sig2 signature.Signature
		left, err := sig2.UnmarshalMsg(append(sm[4:], 'T'))
		if err != nil || string(left) != "T" {
			return fw.Errf("%s: signature does not read back: %v, left %q", names[i], err, left)
		}
		if sig.Msgsize() < len(sm)-4 || pub.Msgsize() < len(b) {
			return fw.Errf("%s: announced sizes too small", names[i])
		}
		st, err := sig.MarshalText()
		if err != nil {
			return fw.Errf("%s: signature text: %v", names[i], err)
		}
		sig3, err := signature.ParseSignature(string(st))
		if err != nil {
			return fw.Errf("%s: signature text does not read back: %v", names[i], err)
		}
		if i != 0 {
			g := priv2.Sign(c.Msg)
			if !pub2.Verify(c.Msg, sig2) || !pub2.Verify(c.Msg, *sig3) || !pub.Verify(c.Msg, g) || !pub2.Verify(c.Msg, g) || !pub.Verify(c.Msg, sig2) {
				return fw.Errf("%s: what was read back does not verify", names[i])
			}
			if pub2.Verify(append([]byte("no"), c.Msg...), sig2) {
				return fw.Errf("%s: a signature verifies for another message", names[i])
			}
			if !signature.Match(pub2, *priv2) {
				return fw.Errf("%s: keys read back do not match", names[i])
			}
		}
		// signatures and keys of different algorithms
		for j, other := range all {
			if j == i {
				continue
			}
			if x, err := signature.RawSignature(other, append([]byte(nil), sig.Bytes()...)); err == nil && pub.Verify(c.Msg, *x) {
				return fw.Errf("a signature of %s verifies under a key of %s", names[j], names[i])
			}
		}
	}
	// numbers nobody holds
	for _, id := range []int{3, 64, 127, 128, 129, 130, 200, 254, 255} {
		if _, ok := model[id]; ok {
			continue
		}
		var p signature.PublicKey
		if err := p.Unmarshal(ref.Container(byte(id), ref.Packed(make([]byte, 8), nil))); err == nil {
			return fw.Errf("a key of algorithm %d, which is not registered, is read", id)
		}
		var s signature.Signature
		if _, err := s.UnmarshalMsg(ref.Container(byte(id), make([]byte, 32))); err == nil {
			return fw.Errf("a signature of algorithm %d, which is not registered, is read", id)
		}
	}
	// numbers somebody holds give that algorithm
	for id, i := range model {
		var s signature.Signature
		n := all[i].SignatureSize()
		if n < 0 {
			n = 32
		}
		if err := s.Unmarshal(ref.Container(byte(id), make([]byte, n))); err != nil {
			return fw.Errf("a signature of algorithm %d (%s): %v", id, names[i], err)
		}
		if signature.NameOf(s.Algorithm()) != names[i] || !signature.SameAlgorithm(s.Algorithm(), all[i]) {
			return fw.Errf("algorithm %d is %s, want %s", id, signature.NameOf(s.Algorithm()), names[i])
		}
	}
	return nil
}

// tooLong looks at a key pair of which one key is too long to be written.
func tooLong(pub signature.PublicKey, priv signature.PrivateKey, msg []byte) error {
	same := func(what string, k, back signature.Key, err error) error {
		if err == nil && (!bytes.Equal(k.KeyBytes(), back.KeyBytes()) || !bytes.Equal(k.ExtraBytes(), back.ExtraBytes())) {
			return fw.Errf("%s: %x/%x is read back as %x/%x", what, k.KeyBytes(), k.ExtraBytes(), back.KeyBytes(), back.ExtraBytes())
		}
		if err == nil || len(k.KeyBytes()) > 255 {
			return nil
		}
		return fw.Errf("%s: %v", what, err)
	}
	var p signature.PublicKey
	var s signature.PrivateKey
	b, err := pub.Marshal()
	if err == nil {
		err = p.Unmarshal(b)
	}
	if err := same("Marshal of the public key", &pub, &p, err); err != nil {
		return err
	}
	b, err = priv.Marshal()
	if err == nil {
		err = s.Unmarshal(b)
	}
	if err := same("Marshal of the private key", &priv, &s, err); err != nil {
		return err
	}
	b, err = pub.MarshalText()
	if err == nil {
		err = p.UnmarshalText(b)
	}
	if err := same("text of the public key", &pub, &p, err); err != nil {
		return err
	}
	b, err = priv.MarshalText()
	if err == nil {
		err = s.UnmarshalText(b)
	}
	if err := same("text of the private key", &priv, &s, err); err != nil {
		return err
	}
	b, err = pub.MarshalMsg(nil)
	if err == nil {
		_, err = p.UnmarshalMsg(b)
	}
	if err := same("MessagePack of the public key", &pub, &p, err); err != nil {
		return err
	}
	b, err = priv.MarshalMsg(nil)
	if err == nil {
		_, err = s.UnmarshalMsg(b)
	}
	if err := same("MessagePack of the private key", &priv, &s, err); err != nil {
		return err
	}
	_, _, _, _ = pub.String(), priv.String(), pub.FullString(), priv.FullString() // must not crash
	// the other serializations of what is not too long
	sig := priv.Sign(msg)
	t, err := sig.MarshalText()
	if err != nil {
		return fw.Errf("signature text: %v", err)
	}
	back, err := signature.ParseSignature(string(t))
	if err != nil || !pub.Verify(msg, *back) {
		return fw.Errf("the signature read back does not verify: %v", err)
	}
	return nil
}

func c17() fw.Property {
	gen := func(t *rapid.T) regCase {
		c := regCase{Msg: fw.Bytes(t, 0, 20, "msg"), Ptr: rapid.Bool().Draw(t, "ptr")}
		for n := fw.Int(t, 1, 8, "ops"); n > 0; n-- {
			op := regOp{ID: fw.Pick(t, "id", 128, 129, 130, 200, 255, 128, 129, fw.Int(t, 0, 255, "any"), 127, 0, 1, 2, 3), Al: fw.Int(t, 0, 10, "al")}
			if op.Al <= 2 && fw.Chance(t, 1, 2, "custom") {
				op.Al = fw.Int(t, 3, 10, "al2")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
	judge := func(c regCase, o *fw.Obs) error {
		o.NT()
		seen := map[int]int{}
		for _, op := range c.Ops {
			o.LabelIf(op.ID < 128, "reserved-number")
			o.LabelIf(op.Al <= 2, "built-in-again")
			if p, ok := seen[op.ID]; ok {
				o.LabelIf(p != op.Al, "number-taken")
			}
			seen[op.ID] = op.Al
		}
		j, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
		defer cancel()
		cmd := exec.CommandContext(ctx, self)
		cmd.Env = append(os.Environ(), "VERIF_SIG_HISTORY="+string(j))
		var out, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &eb
		rerr := cmd.Run()
		s := strings.TrimSpace(out.String())
		if rerr == nil && s == "PASS" {
			return nil
		}
		if strings.HasPrefix(s, "FAIL ") {
			return fw.Errf("%s", s[5:])
		}
		if strings.Contains(eb.String(), "ndaumath") {
			return fw.Errf("the process died: %v %s", rerr, eb.String())
		}
		panic(fmt.Sprintf("registry child: %v %s %s", rerr, s, eb.String()))
	}
	return fw.Property{
		ID:          "C17",
		Rule:        "a history of registrations, each run in a fresh process, with the registry compared with a model after every step",
		Assumptions: []string{"algorithms are identified by their type's name, so types of equal name in different packages count as one"},
		Subs:        []fw.Sub{fw.NoNear(fw.Prop("histories", 1600, 30000, gen, judge))},
	}
}
