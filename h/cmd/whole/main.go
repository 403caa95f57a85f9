// Command whole decides C44, C45 and C47: a wallet from its recovery bytes to
// verified signatures, documents made of all the text types, and what calls
// take.
package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/keyaddr", "pkg/key", "pkg/words", "pkg/address", "pkg/signature", "pkg/types", "pkg/eai"}
	fw.CPULimit = 20
	fw.Main(c44, c45, c47)
}

// ---- C44

type walletCase struct {
	Entropy fw.Hex
	Path    []uint32 // with the hardened bit
	Cut     int      // where the path is interrupted
	How     int      // what happens to the key there
	Msg     fw.Hex
	Flip    int // the bit in which another wallet's bytes differ
}

func pathText(p []uint32) string {
	if len(p) == 0 {
		return "/"
	}
	s := ""
	for _, n := range p {
		s += fmt.Sprintf("/%d", n&0x7fffffff)
		if n>>31 == 1 {
			s += "'"
		}
	}
	return s
}

func genWallet(t *rapid.T) walletCase {
	c := walletCase{How: fw.Int(t, 0, 3, "how"), Flip: fw.Int(t, 0, 511, "flip")}
	n := fw.Pick(t, "len", 16, 16, 20, 24, 28, 32, 32, fw.Int(t, 16, 64, "other"))
	c.Entropy = fw.BytesN(t, n, "entropy")
	if rs := ref.RareSet["master"]; fw.Chance(t, 1, 10, "rare") {
		c.Entropy = ref.RareSeed(rs[fw.Int(t, 0, len(rs)-1, "rareseed")].N)
	}
	levels := fw.Pick(t, "levels", 1, 2, 3, 4, 5, 6, 8)
	if fw.Chance(t, 1, 3, "standard") {
		c.Path = []uint32{44 | 1<<31, 20036 | 1<<31, 100, uint32(fw.Int(t, 1, 2000, "account"))}
		levels = fw.Pick(t, "more", 0, 0, 1, 4)
	}
	for i := 0; i < levels; i++ {
		k := uint32(fw.Pick(t, "el", uint64(fw.Int(t, 0, 200, "small")), fw.U64(t, "any"))) & 0x7fffffff
		if fw.Chance(t, 1, 3, "hard") {
			k |= 1 << 31
		}
		c.Path = append(c.Path, k)
	}
	c.Cut = fw.Int(t, 0, len(c.Path), "cut")
	c.Msg = fw.Data(t, 3000, "msg")
	return c
}

func judgeWallet(c walletCase, o *fw.Obs) error {
	b64 := base64.StdEncoding.EncodeToString
	phrase := strings.Join(ref.Phrase(c.Entropy), " ")
	// the owner writes down the phrase and makes the wallet
	got, err := keyaddr.WordsFromBytes("en", b64(c.Entropy))
	if err != nil || got != phrase {
		return fw.Errf("the phrase of %x is %q, %v; want %q", []byte(c.Entropy), got, err, phrase)
	}
	x, err := ref.Master(c.Entropy)
	if err != nil {
		return nil
	}
	chain := []ref.XKey{x}
	for _, n := range c.Path {
		if x, err = x.Child(n); err != nil {
			return nil
		}
		chain = append(chain, x)
	}
	last := chain[len(chain)-1]
	want := last.Text()
	addr, ok := ref.Address('a', last.Pub())
	if !ok {
		return fw.Errf("no address for %x", last.Pub())
	}
	full := pathText(c.Path)
	direct := func(seed string) (*keyaddr.Key, error) {
		m, err := keyaddr.NewKey(seed)
		if err != nil {
			return nil, err
		}
		return keyaddr.DeriveFrom(m.Key, "/", full)
	}
	k1, err := direct(b64(c.Entropy))
	if err != nil || k1.Key != want {
		return fw.Errf("the key at %s of %x is %v, %v; want %s", full, []byte(c.Entropy), k1, err, want)
	}
	a1, err := k1.NdauAddress()
	if err != nil || a1.Address != addr {
		return fw.Errf("the address of %s is %v, %v; want %s", want, a1, err, addr)
	}
	s1, err := k1.Sign(b64(c.Msg))
	if err != nil {
		return fw.Errf("Sign: %v", err)
	}
	// somebody restores it from the phrase, interrupted half way
	restored, err := keyaddr.WordsToBytes("en", phrase)
	read, ok := ref.Unphrase(strings.Split(phrase, " "))
	if !ok || err != nil || restored != b64(read) {
		return fw.Errf("the phrase %q gives %s, %v; want %s", phrase, restored, err, b64(read))
	}
	if string(read) != string(c.Entropy) {
		// the phrase of two wallets, as C18 describes: the owner has to
		// know how many bytes there were
		o.Label("ambiguous")
		restored = b64(c.Entropy)
	}
	m, err := keyaddr.NewKey(restored)
	if err != nil || m.Key != chain[0].Text() {
		return fw.Errf("the master key of %s is %v, %v", restored, m, err)
	}
	k := m
	step := func(n uint32) (err error) {
		if n>>31 == 1 {
			k, err = k.HardenedChild(int32(n & 0x7fffffff))
		} else {
			k, err = k.Child(int32(n))
		}
		return
	}
	for i := 0; i < c.Cut; i++ {
		if err := step(c.Path[i]); err != nil {
			return fw.Errf("step %d of %s: %v", i, full, err)
		}
	}
	if k.Key != chain[c.Cut].Text() {
		return fw.Errf("after %d steps of %s: %s, want %s", c.Cut, full, k.Key, chain[c.Cut].Text())
	}
	public := false
	switch c.How {
	case 1: // kept as text
		if k, err = keyaddr.FromString(k.Key); err != nil {
			return fw.Errf("FromString: %v", err)
		}
	case 2: // kept in the form of old versions
		if k, err = keyaddr.FromString(chain[c.Cut].Legacy([]byte{0x99, 0xbc, 0x53})); err != nil {
			return fw.Errf("FromString(legacy): %v", err)
		}
	case 3: // only the public key, if the rest can do with it
		public = true
		for _, n := range c.Path[c.Cut:] {
			public = public && n>>31 == 0
		}
		if public {
			if k, err = k.ToPublic(); err != nil {
				return fw.Errf("ToPublic: %v", err)
			}
		}
	}
	at, wantK := chain[c.Cut], want
	if public {
		at, wantK = at.Neuter(), last.Neuter().Text()
	}
	if k.Key != at.Text() {
		return fw.Errf("kept as %s, want %s", k.Key, at.Text())
	}
	mid := k
	for i := c.Cut; i < len(c.Path); i++ {
		if err := step(c.Path[i]); err != nil {
			return fw.Errf("step %d of %s: %v", i, full, err)
		}
	}
	if k.Key != wantK {
		return fw.Errf("restored by steps of %s, interrupted at %d: %s, want %s", full, c.Cut, k.Key, wantK)
	}
	k2 := k
	if c.Cut < len(c.Path) { // nothing is derived from itself
		k2, err = keyaddr.DeriveFrom(mid.Key, pathText(c.Path[:c.Cut]), full)
	}
	if err != nil || k2.Key != wantK {
		return fw.Errf("restored from %s to %s: %v, %v, want %s", pathText(c.Path[:c.Cut]), full, k2, err, wantK)
	}
	a2, err := k2.NdauAddress()
	if err != nil || a2.Address != addr {
		return fw.Errf("the restored address is %v, %v; want %s", a2, err, addr)
	}
	if v, err := address.Validate(a2.Address); err != nil || v.String() != addr {
		return fw.Errf("the address %s: %v", addr, err)
	}
	// what the owner signed is verified with the restored key's public half
	pk, err := k2.ToPublicKey()
	if err != nil {
		return fw.Errf("ToPublicKey: %v", err)
	}
	sig, err := s1.ToSignature()
	if err != nil {
		return fw.Errf("ToSignature: %v", err)
	}
	if !pk.Verify(c.Msg, sig) {
		return fw.Errf("the signature of %x by %s is not verified by %s", []byte(c.Msg), want, wantK)
	}
	if pk.Verify(append(c.Msg.Clone(), 1), sig) {
		return fw.Errf("the signature is verified for another message")
	}
	if !public {
		s2, err := k2.Sign(b64(c.Msg))
		if err != nil {
			return fw.Errf("Sign: %v", err)
		}
		sg, err := s2.ToSignature()
		if err != nil {
			return fw.Errf("ToSignature: %v", err)
		}
		p1, err := k1.ToPublicKey()
		if err != nil || !p1.Verify(c.Msg, sg) {
			return fw.Errf("a signature by the restored key is not verified, %v", err)
		}
	}
	// bytes which differ in one bit are another wallet
	e := c.Entropy.Clone()
	e[c.Flip/8%len(e)] ^= 1 << (c.Flip % 8)
	k3, err := direct(b64(e))
	if err == nil {
		a3, err := k3.NdauAddress()
		if err != nil || a3.Address == addr || k3.Key == want {
			return fw.Errf("the wallet of %x is that of %x: %v, %v", e, []byte(c.Entropy), a3, err)
		}
		if p3, err := k3.ToPublicKey(); err != nil || p3.Verify(c.Msg, sig) {
			return fw.Errf("another wallet verifies the signature, %v", err)
		}
	}
	o.NTIf(len(c.Path) > 1)
	o.Label([]string{"steps", "text", "legacy", "private"}[c.How] + map[bool]string{true: "-public"}[public])
	return nil
}

func c44() fw.Property {
	return fw.Property{
		ID:          "C44",
		Rule:        "wallets with paths of at least two levels",
		Assumptions: []string{"recovery bytes of 16 to 64 bytes; where two numbers of bytes have one phrase (C18), the owner knows which"},
		Subs: []fw.Sub{fw.Fit(fw.Prop("wallets", 6000, 120000, genWallet, judgeWallet), func(c *walletCase) bool {
			for len(c.Entropy) < 16 {
				c.Entropy = append(c.Entropy, 1)
			}
			if len(c.Entropy) > 64 {
				c.Entropy = c.Entropy[:64]
			}
			if len(c.Path) == 0 {
				c.Path = []uint32{1}
			}
			if len(c.Path) > 8 {
				c.Path = c.Path[:8]
			}
			c.Cut = (c.Cut & 0xffff) % (len(c.Path) + 1)
			c.How &= 3
			c.Flip &= 511
			return true
		})},
	}
}
