// Command bitset decides C06 and C07: 256-bit sets against a model set, over histories.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/bitset256"
	"pgregory.net/rapid"
	"verif/h/fw"
)

func main() {
	fw.Packages = []string{"pkg/bitset256"}
	fw.Main(c06, c07)
}

type set [256]bool

func (s *set) members() []byte {
	out := []byte{}
	for i := 0; i < 256; i++ {
		if s[i] {
			out = append(out, byte(i))
		}
	}
	return out
}

func (s *set) num() *big.Int {
	n := new(big.Int)
	for i := 0; i < 256; i++ {
		if s[i] {
			n.SetBit(n, i, 1)
		}
	}
	return n
}

// layout: member n is bit n%8 of byte layout(n).
func layout(n int) int { return (7-n/8%8)*4 + (3 - n/64) }

func (s *set) bytes() []byte {
	b := make([]byte, 32)
	for i := 0; i < 256; i++ {
		if s[i] {
			b[layout(i)] |= 1 << uint(i%8)
		}
	}
	return b
}

type op struct {
	Op   string
	D    int // destination register
	A, B int // operand registers
	Ix   fw.Hex
}

const nreg = 5

var opNames = []string{"set", "clear", "toggle", "clone", "union", "intersect", "new", "frombytes", "fromhex", "assign"}

func ix(t *rapid.T) byte {
	return fw.Pick(t, "ixs", byte(0), 1, 7, 8, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 254, 255,
		byte(fw.Int(t, 0, 255, "ix")), byte(fw.Int(t, 0, 255, "ix2")), byte(fw.Int(t, 0, 255, "ix3")), byte(fw.Int(t, 0, 255, "ix4")), byte(fw.Int(t, 0, 255, "ix5")))
}

func hist(t *rapid.T) []op {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) op {
		o := op{Op: fw.Pick(t, "op", opNames...), D: fw.Int(t, 0, nreg-1, "d"), A: fw.Int(t, 0, nreg-1, "a"), B: fw.Int(t, 0, nreg-1, "b")}
		switch o.Op {
		case "set", "clear", "toggle":
			o.Ix = fw.Hex{ix(t)}
		case "new", "frombytes", "fromhex":
			switch fw.Int(t, 0, 5, "how") {
			case 0: // few
				for i := 0; i < fw.Int(t, 0, 12, "n"); i++ {
					o.Ix = append(o.Ix, ix(t))
				}
			case 1: // all but few
				var miss set
				for i := 0; i < fw.Int(t, 0, 4, "n"); i++ {
					miss[ix(t)] = true
				}
				for i := 0; i < 256; i++ {
					if !miss[i] {
						o.Ix = append(o.Ix, byte(i))
					}
				}
			case 2: // a range
				lo, hi := int(ix(t)), int(ix(t))
				for i := lo; i <= hi; i++ {
					o.Ix = append(o.Ix, byte(i))
				}
			default: // random
				for _, b := range fw.BytesN(t, fw.Int(t, 0, 200, "n"), "ixs") {
					o.Ix = append(o.Ix, b)
				}
			}
		}
		return o
	}), 1, 40).Draw(t, "ops")
}

// run applies the history to the code and the model, checking after every step.
func run(ops []op, check func(i int, r []*bitset256.Bitset256, m []set) error) ([]*bitset256.Bitset256, []set, error) {
	r := make([]*bitset256.Bitset256, nreg)
	m := make([]set, nreg)
	for i := range r {
		r[i] = bitset256.New()
	}
	for i, o := range ops {
		a, b := r[o.A], r[o.B]
		var res *bitset256.Bitset256
		var ms set
		mutates := false
		switch o.Op {
		case "set", "clear", "toggle":
			mutates = true
			var got *bitset256.Bitset256
			ms = m[o.D]
			x := o.Ix[0]
			switch o.Op {
			case "set":
				got = r[o.D].Set(x)
				ms[x] = true
			case "clear":
				got = r[o.D].Clear(x)
				ms[x] = false
			default:
				got = r[o.D].Toggle(x)
				ms[x] = !ms[x]
			}
			if got != r[o.D] {
				return nil, nil, fw.Errf("step %d: %s does not return its receiver", i, o.Op)
			}
			res = r[o.D]
		case "clone":
			res, ms = a.Clone(), m[o.A]
		case "union":
			res = a.Union(b)
			for k := range ms {
				ms[k] = m[o.A][k] || m[o.B][k]
			}
		case "intersect":
			res = a.Intersect(b)
			for k := range ms {
				ms[k] = m[o.A][k] && m[o.B][k]
			}
		case "new", "frombytes", "fromhex":
			in := o.Ix.Clone()
			for _, x := range o.Ix {
				ms[x] = true
			}
			switch o.Op {
			case "new":
				res = bitset256.New(in...)
				if !bytes.Equal(in, o.Ix) {
					return nil, nil, fw.Errf("step %d: New changed its arguments", i)
				}
			case "frombytes":
				bs := ms.bytes()
				var err error
				res, err = bitset256.FromBytes(bs)
				if err != nil {
					return nil, nil, fw.Errf("step %d: FromBytes: %v", i, err)
				}
				for k := range bs {
					bs[k] ^= 0xff
				}
			default:
				var err error
				res, err = bitset256.FromHex(hex.EncodeToString(ms.bytes()))
				if err != nil {
					return nil, nil, fw.Errf("step %d: FromHex: %v", i, err)
				}
			}
		case "assign": // two registers name the same set
			res, ms = a, m[o.A]
		}
		if res == nil {
			return nil, nil, fw.Errf("step %d: %s returned nil", i, o.Op)
		}
		if !mutates && o.Op != "assign" {
			for k := range r {
				if r[k] == res {
					return nil, nil, fw.Errf("step %d: %s returned an existing set instead of a new one", i, o.Op)
				}
			}
		}
		if mutates {
			// every register naming this set sees the change
			for k := range r {
				if r[k] == res {
					m[k] = ms
				}
			}
		} else {
			r[o.D], m[o.D] = res, ms
		}
		if err := check(i, r, m); err != nil {
			return nil, nil, fmt.Errorf("step %d (%s): %w", i, o.Op, err)
		}
	}
	return r, m, nil
}

func fullCheck(r []*bitset256.Bitset256, m []set) error {
	for k := range r {
		mem := m[k].members()
		got := r[k].Indices()
		if !bytes.Equal(got, mem) {
			return fw.Errf("register %d: Indices() = %v, want %v", k, got, mem)
		}
		if r[k].Count() != len(mem) {
			return fw.Errf("register %d: Count() = %d, want %d", k, r[k].Count(), len(mem))
		}
		for i := range got { // the list is the caller's
			got[i] ^= 0xff
		}
		for i := 0; i < 256; i++ {
			if r[k].Get(byte(i)) != m[k][i] {
				return fw.Errf("register %d: Get(%d) = %v", k, i, r[k].Get(byte(i)))
			}
		}
		for j := range r {
			eq, sub := m[k] == m[j], true
			for i := range m[k] {
				if m[k][i] && !m[j][i] {
					sub = false
				}
			}
			if r[k].Equals(r[j]) != eq {
				return fw.Errf("registers %d, %d: Equals = %v", k, j, !eq)
			}
			if r[k].IsSubsetOf(r[j]) != sub {
				return fw.Errf("registers %d, %d: IsSubsetOf = %v", k, j, !sub)
			}
		}
		// inspecting changed nothing
		if !bytes.Equal(r[k].Indices(), mem) {
			return fw.Errf("register %d: inspection changed the set", k)
		}
	}
	return nil
}

type hcase struct{ Ops []op }

func c06() fw.Property {
	return fw.Property{
		ID:   "C06",
		Rule: "a history of at least three steps over five named sets, at least one of them combining or cloning sets",
		Subs: []fw.Sub{
			fw.Prop("history", 4000, 250000, func(t *rapid.T) hcase { return hcase{hist(t)} }, func(c hcase, o *fw.Obs) error {
				comb := false
				for _, p := range c.Ops {
					o.Label(p.Op)
					comb = comb || p.Op == "union" || p.Op == "intersect" || p.Op == "clone"
				}
				o.NTIf(comb && len(c.Ops) >= 3)
				_, _, err := run(c.Ops, func(i int, r []*bitset256.Bitset256, m []set) error { return fullCheck(r, m) })
				return err
			}),
			fw.Enum("singletons", func() []int {
				var l []int
				for i := 0; i < 256; i++ {
					l = append(l, i)
				}
				return l
			}, func(i int, o *fw.Obs) error {
				o.NT()
				for j := 0; j < 256; j++ {
					a, b := bitset256.New(byte(i)), bitset256.New(byte(j))
					u, x := a.Union(b), a.Intersect(b)
					wantU, wantX := 2, 0
					if i == j {
						wantU, wantX = 1, 1
					}
					if u.Count() != wantU || x.Count() != wantX || !u.Get(byte(i)) || !u.Get(byte(j)) || a.Equals(b) != (i == j) ||
						a.IsSubsetOf(b) != (i == j) || !a.IsSubsetOf(u) || !x.IsSubsetOf(a) {
						return fw.Errf("singletons %d and %d", i, j)
					}
				}
				return nil
			}),
		},
	}
}

func c07() fw.Property {
	ser := func(c hcase, o *fw.Obs) error {
		r, m, err := run(c.Ops, func(int, []*bitset256.Bitset256, []set) error { return nil })
		if err != nil {
			return err
		}
		for k := range r {
			o.NTIf(r[k].Count() > 0)
			want := m[k].bytes()
			b := r[k].AsBytes()
			if !bytes.Equal(b, want) {
				return fw.Errf("AsBytes of %v = %x, want %x", m[k].members(), b, want)
			}
			h := r[k].AsHex()
			if h != hex.EncodeToString(want) || r[k].String() != h || fmt.Sprint(r[k]) != h {
				return fw.Errf("AsHex of %v = %q, String %q, want %x", m[k].members(), h, r[k].String(), want)
			}
			fb, err := bitset256.FromBytes(b)
			if err != nil || !fb.Equals(r[k]) {
				return fw.Errf("FromBytes(%x): %v, %v", b, fb, err)
			}
			if !bytes.Equal(b, want) {
				return fw.Errf("FromBytes changed its input")
			}
			for i := range b {
				b[i] ^= 0xff
			}
			if !fb.Equals(r[k]) || !bytes.Equal(r[k].AsBytes(), want) {
				return fw.Errf("a set shares memory with its bytes")
			}
			for _, hs := range []string{h, strings.ToUpper(h)} {
				fh, err := bitset256.FromHex(hs)
				if err != nil || !fh.Equals(r[k]) {
					return fw.Errf("FromHex(%q): %v, %v", hs, fh, err)
				}
			}
			for j := range r {
				lt := m[k].num().Cmp(m[j].num()) < 0
				if r[k].Less(r[j]) != lt {
					return fw.Errf("%v.Less(%v) = %v", m[k].members(), m[j].members(), !lt)
				}
				if (m[k] == m[j]) != (h == r[j].AsHex()) {
					return fw.Errf("%v and %v have forms %s and %s", m[k].members(), m[j].members(), h, r[j].AsHex())
				}
			}
		}
		return nil
	}
	type bad struct {
		B   fw.Hex
		Pos int
		C   byte
	}
	badj := func(c bad, o *fw.Obs) error {
		o.NT()
		s, err := bitset256.FromBytes(c.B.Clone())
		if (err == nil) != (len(c.B) == 32) {
			return fw.Errf("FromBytes of %d bytes: %v", len(c.B), err)
		}
		if err != nil && s != nil {
			return fw.Errf("FromBytes: set and error")
		}
		if err == nil && !bytes.Equal(s.AsBytes(), c.B) {
			return fw.Errf("FromBytes(%x).AsBytes() = %x", c.B, s.AsBytes())
		}
		h := hex.EncodeToString(c.B)
		s, err = bitset256.FromHex(h)
		if (err == nil) != (len(c.B) == 32) {
			return fw.Errf("FromHex(%q): %v", h, err)
		}
		if err != nil && s != nil {
			return fw.Errf("FromHex: set and error")
		}
		if len(h) > 0 {
			p := c.Pos % len(h)
			if !strings.ContainsRune("0123456789abcdefABCDEF", rune(c.C)) {
				o.Label("not-hex")
				g := h[:p] + string([]byte{c.C}) + h[p+1:]
				if _, err := bitset256.FromHex(g); err == nil {
					return fw.Errf("FromHex(%q) succeeded", g)
				}
			}
			g := h[:p] + h[p+1:]
			if _, err := bitset256.FromHex(g); err == nil {
				return fw.Errf("FromHex(%q) succeeded", g)
			}
			for _, g := range []string{"0x" + h, h + "\n", " " + h, h + "0", "0" + h, h + "00", "00" + h} {
				if _, err := bitset256.FromHex(g); err == nil && len(g) != 64 {
					return fw.Errf("FromHex(%q) succeeded", g)
				}
			}
		}
		return nil
	}
	return fw.Property{
		ID:   "C07",
		Rule: "a history leaving at least one non-empty set to serialize, restore and compare with the others; or bytes and text of a tried length",
		Subs: []fw.Sub{
			fw.Prop("roundtrip", 6000, 400000, func(t *rapid.T) hcase { return hcase{hist(t)} }, ser),
			fw.Prop("order", 6000, 400000, func(t *rapid.T) hcase {
				// two close sets: the second is the first with few changes
				ops := []op{{Op: "new", D: 0, Ix: fw.Bytes(t, 0, 100, "base")}, {Op: "clone", D: 1, A: 0}, {Op: "clone", D: 2, A: 0}}
				for i := 0; i < fw.Int(t, 1, 5, "n"); i++ {
					ops = append(ops, op{Op: "toggle", D: fw.Int(t, 0, 2, "d"), Ix: fw.Hex{ix(t)}})
				}
				return hcase{ops}
			}, ser),
			fw.Prop("refuse", 6000, 300000, func(t *rapid.T) bad {
				n := fw.Pick(t, "n", 32, 32, 31, 33, 0, 1, 16, 64, fw.Int(t, 0, 80, "len"))
				return bad{fw.BytesN(t, n, "b"), fw.Int(t, 0, 1000, "p"), rapid.Byte().Draw(t, "c")}
			}, badj),
		},
	}
}
