package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// verdict of the reference reader
const (
	refuse = iota
	accept
	undecided
)

// contents is what an accepted input holds.
type contents struct {
	al    int
	key   []byte // or the signature's data
	extra []byte
}

// container reads a MessagePack array of a number and bytes. Headers other
// than the usual ones leave it undecided.
func container(b []byte) (al uint64, data, rest []byte, v int) {
	if len(b) == 0 {
		return 0, nil, nil, refuse
	}
	var n uint64
	switch {
	case b[0]&0xf0 == 0x90:
		n, b = uint64(b[0]&15), b[1:]
	case b[0] == 0xdc && len(b) >= 3:
		n, b = uint64(binary.BigEndian.Uint16(b[1:])), b[3:]
	case b[0] == 0xdd && len(b) >= 5:
		n, b = uint64(binary.BigEndian.Uint32(b[1:])), b[5:]
	default:
		return 0, nil, nil, refuse
	}
	if n != 2 || len(b) == 0 {
		return 0, nil, nil, refuse
	}
	switch {
	case b[0] < 128:
		al, b = uint64(b[0]), b[1:]
	case b[0] == 0xcc && len(b) >= 2:
		al, b = uint64(b[1]), b[2:]
	case b[0] >= 0xcc && b[0] <= 0xd3:
		return 0, nil, nil, undecided
	default:
		return 0, nil, nil, refuse
	}
	if len(b) == 0 {
		return 0, nil, nil, refuse
	}
	var l uint64
	switch {
	case b[0] == 0xc4 && len(b) >= 2:
		l, b = uint64(b[1]), b[2:]
	case b[0] == 0xc5 && len(b) >= 3:
		l, b = uint64(binary.BigEndian.Uint16(b[1:])), b[3:]
	case b[0] == 0xc6 && len(b) >= 5:
		l, b = uint64(binary.BigEndian.Uint32(b[1:])), b[5:]
	case b[0]&0xe0 == 0xa0, b[0] == 0xd9, b[0] == 0xda, b[0] == 0xdb, b[0] == 0xc0:
		return 0, nil, nil, undecided
	default:
		return 0, nil, nil, refuse
	}
	if uint64(len(b)) < l {
		return 0, nil, nil, refuse
	}
	return al, b[:l], b[l:], accept
}

var sizes = map[string][3]int{
	"public":    {0, 32, 33},
	"private":   {0, 64, 32},
	"signature": {0, 64, -1},
}

// readRef is the reference reader; tail says that other data may follow.
func readRef(kind string, b []byte, tail bool) (contents, []byte, int) {
	al, data, rest, v := container(b)
	if v != accept {
		return contents{}, nil, v
	}
	if al > 2 || (!tail && len(rest) > 0) {
		return contents{}, nil, refuse
	}
	c := contents{al: int(al)}
	if kind == "signature" {
		c.key = data
	} else if len(data) > 0 {
		n := int(data[0])
		if len(data) < 1+n {
			return contents{}, nil, refuse
		}
		c.key, c.extra = data[1:1+n], data[1+n:]
	}
	if w := sizes[kind][al]; w >= 0 && len(c.key) != w {
		return contents{}, nil, refuse
	}
	return c, rest, accept
}

func readRefText(kind, s string) (contents, int) {
	body := s
	if kind != "signature" {
		want := map[string]string{"public": "npub", "private": "npvt"}[kind]
		if len(s) < 4 || s[:4] != want {
			return contents{}, refuse
		}
		body = s[4:]
	}
	if bytes.ContainsAny([]byte(body), "=\r\n") || !ref.IsASCII(body) {
		return contents{}, undecided
	}
	b, err := ref.B32Strict(ref.LowerASCII(body))
	if err != nil {
		return contents{}, refuse
	}
	msg, ok := ref.Unframe(b)
	if !ok {
		return contents{}, refuse
	}
	c, _, v := readRef(kind, msg, false)
	return c, v
}

// thing is what is read into.
type thing interface {
	Unmarshal([]byte) error
	UnmarshalMsg([]byte) ([]byte, error)
	UnmarshalText([]byte) error
	Marshal() ([]byte, error)
	MarshalText() ([]byte, error)
	Size() int
}

func newThing(kind string, prev int) thing {
	switch kind {
	case "public", "private":
		if prev < 0 {
			return emptyKey(kind == "private")
		}
		return used(kind == "private", prev)
	}
	s := new(signature.Signature)
	if prev >= 0 {
		n := []int{0, 64, 70}[prev]
		if err := s.Unmarshal(ref.Container(byte(prev), bytes.Repeat([]byte{7}, n))); err != nil {
			panic(err)
		}
	}
	return s
}

func thingContents(th thing) (signature.Algorithm, []byte, []byte) {
	switch x := th.(type) {
	case *signature.PublicKey:
		return x.Algorithm(), x.KeyBytes(), x.ExtraBytes()
	case *signature.PrivateKey:
		return x.Algorithm(), x.KeyBytes(), x.ExtraBytes()
	case *signature.Signature:
		return x.Algorithm(), x.Bytes(), nil
	}
	panic("kind")
}

func c15() fw.Property {
	type mcase struct {
		Kind  string
		Form  string // bytes, msg, text, parse
		Al    int    // as written: 0..255
		Data  fw.Hex // signature data, or key
		Extra fw.Hex
		NoLen bool // key data empty: not even the length byte
		Lie   int  // difference of the length byte from the key's length
		Edits []edit
		Tail  fw.Hex
		Pre   string // text prefix
		TEd   []edit // edits of the text
		Raw   fw.Hex // use this instead
		UseR  bool
		Prev  int
	}
	gen := func(t *rapid.T) mcase {
		c := mcase{Kind: fw.Pick(t, "kind", "public", "private", "signature"), Form: fw.Pick(t, "form", "bytes", "msg", "text", "text", "parse"), Prev: fw.Int(t, -1, 2, "prev")}
		c.Al = fw.Pick(t, "al", 0, 1, 2, 1, 2, 1, 2, fw.Int(t, 3, 255, "unknown"), 127, 128, 255)
		want := -1
		if c.Al <= 2 {
			want = sizes[c.Kind][c.Al]
		}
		if want < 0 || fw.Chance(t, 1, 3, "wronglen") {
			want = fw.Pick(t, "len", 0, 1, 31, 32, 33, 34, 63, 64, 65, 70, fw.Int(t, 0, 120, "anylen"), 255)
		}
		c.Data = fw.BytesN(t, want, "data")
		c.Extra = fw.Bytes(t, 0, fw.Pick(t, "xmax", 0, 3, 45), "extra")
		if fw.Chance(t, 1, 10, "xdat") {
			c.Extra = fw.Data(t, 70000, "xdata")
		}
		c.NoLen = fw.Chance(t, 1, 12, "nolen")
		if fw.Chance(t, 1, 8, "lie") {
			c.Lie = fw.Pick(t, "lied", -1, 1, -5, 200, 32, -32)
		}
		if fw.Chance(t, 1, 3, "edits") {
			c.Edits = genEdits(t, 1, 2)
			for i := range c.Edits {
				if fw.Chance(t, 1, 2, "headers") {
					c.Edits[i].Pos = fw.Int(t, 0, 5, "hpos")
					c.Edits[i].Val = fw.Pick(t, "hval", 0x92, 0x91, 0x93, 0xdc, 0xdd, 0xc0, 0xc4, 0xc5, 0xc6, 0xcc, 0xcd, 0xd9, 0xa0, 0x80, 0xff, 0, 1, 2, 3, 255)
				}
			}
		}
		if fw.Chance(t, 1, 6, "tail") {
			c.Tail = append(fw.Hex{fw.Pick(t, "t0", byte(0), 0xc0, 0x92, 1)}, fw.Data(t, 5000, "tail")...)
		}
		c.Pre = fw.Pick(t, "pre", "", "", "", "", "other", "none", "short", "upper")
		if fw.Chance(t, 1, 3, "tedits") {
			c.TEd = genEdits(t, 1, 3)
		}
		if fw.Chance(t, 1, 12, "junk") {
			c.UseR, c.Raw = true, fw.Hex(fw.Junk(t, "raw", 60))
		}
		return c
	}
	judge := func(c mcase, o *fw.Obs) error {
		var data []byte
		if c.Kind == "signature" {
			data = c.Data.Clone()
		} else if !c.NoLen {
			data = ref.Packed(c.Data, c.Extra)
			data[0] = byte(int(data[0]) + c.Lie)
		}
		in := applyEdits(c.Edits, append(ref.Container(byte(c.Al), data), c.Tail...))
		text := ""
		if c.Form == "text" || c.Form == "parse" {
			body := ref.B32(ref.Frame(in))
			own, other := "", ""
			switch c.Kind {
			case "public":
				own, other = "npub", "npvt"
			case "private":
				own, other = "npvt", "npub"
			default:
				other = "npub"
			}
			switch c.Pre {
			case "other":
				own = other
			case "none":
				own = ""
			case "upper":
				own = string(bytes.ToUpper([]byte(own)))
			}
			text = own + body
			if c.Pre == "short" {
				text = text[:c.Al%6]
			}
			if len(c.TEd) > 0 {
				// edits of the text stay within the alphabet mostly
				es := append([]edit(nil), c.TEd...)
				for i := range es {
					if es[i].Val%8 != 0 {
						es[i].Val = int(ref.Alphabet[es[i].Val&31])
						if es[i].Op == 0 {
							es[i].Op = 1
						}
					}
				}
				text = string(applyEdits(es, []byte(text)))
			}
			if c.UseR {
				text = string(c.Raw)
			}
		} else if c.UseR {
			in = c.Raw.Clone()
		}
		o.NT()
		th := newThing(c.Kind, c.Prev)
		var want contents
		var v int
		var err error
		var left, wleft []byte
		given := ""
		switch c.Form {
		case "bytes":
			want, _, v = readRef(c.Kind, in, false)
			given = fmt.Sprintf("%x", in)
			err = th.Unmarshal(append([]byte(nil), in...))
		case "msg":
			want, wleft, v = readRef(c.Kind, in, true)
			given = fmt.Sprintf("%x", in)
			left, err = th.UnmarshalMsg(append([]byte(nil), in...))
		case "text":
			want, v = readRefText(c.Kind, text)
			given = fmt.Sprintf("%q", text)
			err = th.UnmarshalText([]byte(text))
		case "parse":
			want, v = readRefText(c.Kind, text)
			given = fmt.Sprintf("%q", text)
			switch c.Kind {
			case "public":
				th, err = signature.ParsePublicKey(text)
			case "private":
				th, err = signature.ParsePrivateKey(text)
			default:
				th, err = signature.ParseSignature(text)
			}
			k, kerr := signature.ParseKey(text)
			if c.Kind != "signature" {
				same := len(text) >= 4 && (text[:4] == "npub") == (c.Kind == "public") && (text[:4] == "npvt") == (c.Kind == "private")
				if same && (kerr == nil) != (err == nil) {
					return fw.Errf("ParseKey(%s): %v, but reading the %s key: %v", given, kerr, c.Kind, err)
				}
			}
			if kerr == nil && !signature.IsPublic(k) && !signature.IsPrivate(k) {
				return fw.Errf("ParseKey gives neither kind")
			}
		}
		o.Label(c.Form)
		o.LabelIf(v == accept, "well-formed")
		o.LabelIf(v == refuse, "malformed")
		o.LabelIf(v == undecided, "unusual-header")
		o.LabelIf(v == refuse && c.Al > 2, "unknown-algorithm")
		if v == accept && err != nil {
			return fw.Errf("reading a %s from %s: %v", c.Kind, given, err)
		}
		if v == refuse && err == nil {
			return fw.Errf("a %s is read from %s without an error", c.Kind, given)
		}
		if err != nil {
			return nil
		}
		al, key, extra := thingContents(th)
		n := -1
		for i := range algs {
			if signature.SameAlgorithm(al, algs[i]) {
				n = i
			}
		}
		if n < 0 {
			return fw.Errf("a %s of no known algorithm is read from %s", c.Kind, given)
		}
		if w := sizes[c.Kind][n]; w >= 0 && (len(key) != w || th.Size() != w) {
			return fw.Errf("a %s of algorithm %d and %d bytes is read from %s", c.Kind, n, len(key), given)
		}
		if v == accept {
			if n != want.al || !bytes.Equal(key, want.key) || !bytes.Equal(extra, want.extra) {
				return fw.Errf("a %s is read from %s as algorithm %d, %x, extra %x; want %d, %x, %x", c.Kind, given, n, key, extra, want.al, want.key, want.extra)
			}
			if c.Form == "msg" && !bytes.Equal(left, wleft) {
				return fw.Errf("reading %s leaves %x, want %x", given, left, wleft)
			}
		}
		b, err := th.Marshal()
		if err != nil {
			return fw.Errf("what was read from %s does not serialize: %v", given, err)
		}
		again := newThing(c.Kind, -1)
		if err := again.Unmarshal(b); err != nil {
			return fw.Errf("what was read from %s does not read back: %v", given, err)
		}
		al2, key2, extra2 := thingContents(again)
		if !signature.SameAlgorithm(al, al2) || !bytes.Equal(key, key2) || !bytes.Equal(extra, extra2) {
			return fw.Errf("what was read from %s changes when written and read", given)
		}
		return nil
	}
	// raw contents
	type rcase struct {
		Kind string
		Al   int
		Data fw.Hex
		Nil  bool
	}
	rjudge := func(c rcase, o *fw.Obs) error {
		o.NT()
		data := []byte(c.Data.Clone())
		if c.Nil && len(data) == 0 {
			data = nil
		}
		w := sizes[c.Kind][c.Al]
		ok := w < 0 || len(data) == w
		o.LabelIf(ok, "right-length")
		var err error
		var th thing
		switch c.Kind {
		case "public":
			var k *signature.PublicKey
			k, err = signature.RawPublicKey(algs[c.Al], data, nil)
			th = k
			if err != nil && k != nil {
				return fw.Errf("key and error")
			}
		case "private":
			var k *signature.PrivateKey
			k, err = signature.RawPrivateKey(algs[c.Al], data, nil)
			th = k
			if err != nil && k != nil {
				return fw.Errf("key and error")
			}
		default:
			var k *signature.Signature
			k, err = signature.RawSignature(algs[c.Al], data)
			th = k
			if err != nil && k != nil {
				return fw.Errf("signature and error")
			}
		}
		if (err == nil) != ok {
			return fw.Errf("raw %s of algorithm %d from %d bytes: %v", c.Kind, c.Al, len(data), err)
		}
		if err == nil {
			_, key, _ := thingContents(th)
			if !bytes.Equal(key, data) {
				return fw.Errf("raw %s holds %x, want %x", c.Kind, key, data)
			}
		}
		return nil
	}
	return fw.Property{
		ID:   "C15",
		Rule: "an input derived from a serialized key or signature by an unknown algorithm number, a wrong length, length byte, header, prefix, checksum, tail or edit, or arbitrary, decided by an independent reader",
		Subs: []fw.Sub{
			fw.Prop("malformed", 30000, 2000000, gen, judge),
			fw.Prop("raw", 3000, 200000, func(t *rapid.T) rcase {
				c := rcase{Kind: fw.Pick(t, "kind", "public", "private", "signature"), Al: fw.Int(t, 0, 2, "al"), Nil: rapid.Bool().Draw(t, "nil")}
				w := sizes[c.Kind][c.Al]
				if w < 0 || rapid.Bool().Draw(t, "wrong") {
					w = fw.Pick(t, "w", 0, 1, 31, 32, 33, 63, 64, 65, fw.Int(t, 0, 100, "any"))
				}
				c.Data = fw.BytesN(t, w, "data")
				return c
			}, rjudge),
		},
	}
}
