package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
)

type elem struct {
	N *big.Int
	H bool
}

// parsePath is the reference grammar: "/" or ("/" digits "'"?)+, spaces ignored.
func parsePath(s string) ([]elem, bool) {
	s = strings.ReplaceAll(s, " ", "")
	if s == "/" {
		return nil, true
	}
	if s == "" || s[0] != '/' {
		return nil, false
	}
	var out []elem
	for i := 0; i < len(s); {
		if s[i] != '/' {
			return nil, false
		}
		i++
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j == i {
			return nil, false
		}
		n, _ := new(big.Int).SetString(s[i:j], 10)
		e := elem{N: n}
		if j < len(s) && s[j] == '\'' {
			e.H = true
			j++
		}
		if n.BitLen() > 32 || (e.H && n.BitLen() > 31) {
			return nil, false
		}
		out = append(out, e)
		i = j
	}
	return out, true
}

func renderElem(t *rapid.T) string {
	var s string
	switch fw.Int(t, 0, 7, "n?") {
	case 0:
		s = fw.Pick(t, "n", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999", "007", "0", "00", "2147483649")
	case 1:
		s = fmt.Sprint(uint32(fw.U64(t, "big")) >> uint(fw.Int(t, 1, 20, "sh")))
	default:
		s = fmt.Sprint(fw.Int(t, 0, 100, "n"))
	}
	if fw.Chance(t, 2, 5, "hard") {
		s += "'"
	}
	return "/" + s
}

func spaces(t *rapid.T, s string) string {
	if !fw.Chance(t, 1, 4, "spaced") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		for fw.Chance(t, 1, 6, "sp") {
			b.WriteByte(' ')
		}
		b.WriteByte(s[i])
	}
	if rapid.Bool().Draw(t, "spend") {
		b.WriteByte(' ')
	}
	return b.String()
}

type pcase struct {
	K      K
	Parent fw.Str
	Mid    fw.Str
	Child  fw.Str
	// children derived from the same object before
	Used []uint32
}

func pgen(t *rapid.T) pcase {
	c := pcase{K: genKey(t, fw.Chance(t, 3, 4, "priv"))}
	if c.K.Depth > 240 && fw.Chance(t, 3, 4, "shallow") {
		c.K.Depth = fw.Int(t, 0, 240, "d")
	}
	parent, mid, child := "", "", ""
	for i := fw.Pick(t, "np", 0, 1, 2, 3, 0, 1, 2, fw.Int(t, 0, 12, "npl")); i > 0; i-- {
		parent += renderElem(t)
	}
	mid = parent
	for i := fw.Int(t, 0, 2, "nm"); i > 0; i-- {
		mid += renderElem(t)
	}
	child = mid
	for i := fw.Pick(t, "nc", 0, 1, 2, 3, 1, 1, 2, fw.Int(t, 0, 12, "ncl")); i > 0; i-- {
		child += renderElem(t)
	}
	if fw.Chance(t, 1, 3, "used") {
		for i := fw.Int(t, 1, 4, "used#"); i > 0; i-- {
			c.Used = append(c.Used, index(t))
		}
	}
	if parent == "" {
		parent = "/"
	}
	if mid == "" {
		mid = "/"
	}
	if child == "" {
		child = "/"
	}
	switch fw.Int(t, 0, 11, "twist") {
	case 0: // unrelated parent
		parent = renderElem(t) + renderElem(t)
	case 1: // child and parent exchanged
		parent, child = child, parent
	case 2: // hardness of one element differs
		if i := strings.LastIndexByte(parent, '\''); i >= 0 {
			parent = parent[:i] + parent[i+1:]
		} else if parent != "/" {
			parent += "'"
		}
	case 3, 4: // malformed
		bad := fw.Pick(t, "bad", "", "//", "/'", "/1''", "1", "/a", "/-1", "/1/", "/1'2", "/1.5", "/0x10", "m/1", "/+1", "/1\n", "\n/1", "/1\t", "/ '", "'", "/1/2'/", "/１", "/1 /", "/1_0", "/1e3")
		switch fw.Int(t, 0, 2, "which") {
		case 0:
			child = bad
		case 1:
			child += bad
		default:
			parent = bad
		}
	case 5:
		child = string(fw.Junk(t, "junk", 12))
	}
	c.Parent, c.Mid, c.Child = fw.Str(spaces(t, parent)), fw.Str(spaces(t, mid)), fw.Str(spaces(t, child))
	return c
}

func extends(p, c []elem) bool {
	if len(c) <= len(p) {
		return false
	}
	for i := range p {
		if p[i].H != c[i].H || p[i].N.Cmp(c[i].N) != 0 {
			return false
		}
	}
	return true
}

// sameKeys compares two keys of the library.
func sameKeys(a, b *key.ExtendedKey) error {
	if a == nil || b == nil {
		return fw.Errf("nil key")
	}
	sa, err1 := a.AsSignatureKey()
	sb, err2 := b.AsSignatureKey()
	if err1 != nil || err2 != nil {
		return fw.Errf("AsSignatureKey: %v, %v", err1, err2)
	}
	if a.IsPrivate() != b.IsPrivate() || a.Depth() != b.Depth() || a.ParentFingerprint() != b.ParentFingerprint() ||
		!bytes.Equal(a.Bytes(), b.Bytes()) || !bytes.Equal(a.PubKeyBytes(), b.PubKeyBytes()) ||
		!bytes.Equal(sa.ExtraBytes(), sb.ExtraBytes()) || !bytes.Equal(sa.KeyBytes(), sb.KeyBytes()) || signature.IsPrivate(sa) != signature.IsPrivate(sb) {
		return fw.Errf("keys differ: %x %x and %x %x", sa.KeyBytes(), sa.ExtraBytes(), sb.KeyBytes(), sb.ExtraBytes())
	}
	return nil
}

func c10() fw.Property {
	judge := func(c pcase, o *fw.Obs) error {
		x := c.K.ref()
		k := code(x)
		pp, pok := parsePath(string(c.Parent))
		cp, cok := parsePath(string(c.Child))
		for _, i := range c.Used {
			k.Child(i)
		}
		got, err := k.DeriveFrom(string(c.Parent), string(c.Child))
		if e := sameKeys(k, code(x)); e != nil {
			return fmt.Errorf("DeriveFrom changed the starting key: %w", e)
		}
		if !pok || !cok || !extends(pp, cp) {
			o.Label("refused-path")
			o.NT()
			if err == nil {
				return fw.Errf("DeriveFrom(%q, %q) succeeded", c.Parent, c.Child)
			}
			if got != nil {
				return fw.Errf("key and error")
			}
			return nil
		}
		// one child per remaining element
		step := code(x)
		var serr error
		for _, e := range cp[len(pp):] {
			if e.H {
				step, serr = step.HardenedChild(uint32(e.N.Uint64()))
			} else {
				step, serr = step.Child(uint32(e.N.Uint64()))
			}
			if serr != nil {
				break
			}
		}
		if (serr != nil) != (err != nil) {
			return fw.Errf("DeriveFrom(%q, %q) of %+v: %v; step by step: %v", c.Parent, c.Child, c.K, err, serr)
		}
		o.NT()
		if err != nil {
			o.Label("refused-step")
			if got != nil {
				return fw.Errf("key and error")
			}
			return nil
		}
		o.Label("derived")
		o.LabelIf(len(cp)-len(pp) > 1, "several-steps")
		if e := sameKeys(got, step); e != nil {
			return fmt.Errorf("DeriveFrom(%q, %q) and step by step: %w", c.Parent, c.Child, e)
		}
		if int(got.Depth()) != c.K.Depth+len(cp)-len(pp) {
			return fw.Errf("DeriveFrom(%q, %q) went from depth %d to %d", c.Parent, c.Child, c.K.Depth, got.Depth())
		}
		mp, mok := parsePath(string(c.Mid))
		if mok && extends(pp, mp) && extends(mp, cp) {
			o.Label("via-intermediate")
			m, err := k.DeriveFrom(string(c.Parent), string(c.Mid))
			if err != nil {
				return fw.Errf("DeriveFrom(%q, %q): %v", c.Parent, c.Mid, err)
			}
			g2, err := m.DeriveFrom(string(c.Mid), string(c.Child))
			if err != nil {
				return fw.Errf("DeriveFrom(%q, %q): %v", c.Mid, c.Child, err)
			}
			if e := sameKeys(got, g2); e != nil {
				return fmt.Errorf("%q to %q via %q: %w", c.Parent, c.Child, c.Mid, e)
			}
		}
		// the parent path is only a label: the same steps from the root
		rel := ""
		for _, e := range cp[len(pp):] {
			rel += "/" + e.N.String()
			if e.H {
				rel += "'"
			}
		}
		g3, err := k.DeriveFrom("/", rel)
		if err != nil {
			return fw.Errf("DeriveFrom(/, %q): %v", rel, err)
		}
		if e := sameKeys(got, g3); e != nil {
			return fmt.Errorf("%q to %q and / to %q: %w", c.Parent, c.Child, rel, e)
		}
		return nil
	}
	return fw.Property{
		ID:   "C10",
		Rule: "a pair of paths either refused for a reason the reference grammar gives or derived and compared with single steps, an intermediate path and the same steps from the root",
		Subs: []fw.Sub{fw.Fit(fw.Prop("paths", 6000, 300000, pgen, judge), func(c *pcase) bool { return c.K.fit() })},
	}
}
