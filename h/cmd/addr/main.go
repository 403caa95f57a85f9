// Command addr decides C01..C05: addresses, base-32, checksums, over generated inputs.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"reflect"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/tinylib/msgp/msgp"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/address", "pkg/b32"}
	fw.Main(c01, c02, c03, c04, c05)
}

// announces32 says whether there is a byte which may be the header of a
// 32-bit length.
func announces32(b []byte) bool {
	for _, x := range b {
		switch x {
		case 0xdb, 0xc6, 0xdd, 0xdf, 0xc9:
			return true
		}
	}
	return false
}

func kind(t *rapid.T) byte {
	if fw.Chance(t, 9, 10, "kindok") {
		return ref.Kinds[fw.Int(t, 0, len(ref.Kinds)-1, "kind")]
	}
	return rapid.Byte().Draw(t, "kindbyte")
}

// grind changes the last bytes of a key until its address's checksum or hash
// is unusual.
func grind(key []byte, goal int) {
	for i := 0; i < 150000; i++ {
		n := len(key)
		key[n-1], key[n-2], key[n-3] = byte(i), byte(i>>8), key[n-3]+byte(i>>16)
		h := sha256.Sum256(key)
		ok := false
		switch goal {
		case 0, 1, 2:
			body := append([]byte{0x5d, 0x80}, h[6:]...)
			switch c := ref.CRC16(body); goal {
			case 0:
				ok = c == 0
			case 1:
				ok = c>>8 == 0 && c&0xff < 4
			case 2:
				ok = c&0xff == 0 && c>>8 >= 0xfc
			}
		case 3:
			ok = h[6] == 0 && h[7] == 0
		case 4:
			ok = h[31] == 0 && h[30] == 0
		}
		if ok {
			return
		}
	}
}

// ---------------------------------------------------------------- C01

type genCase struct {
	Kind  byte
	Key   fw.Hex
	Kind2 byte
	Flip  int // bit of Key flipped for the second address
}

func c01() fw.Property {
	gen := func(t *rapid.T) genCase {
		c := genCase{Kind: kind(t), Kind2: kind(t)}
		n := fw.Pick(t, "len", -1, -1, -2, 33, 33, 32, 64, 12, 11, 13, 0, 55, 56, 119, 128, 65)
		switch n {
		case -1:
			c.Key = fw.Data(t, 1200000, "key")
		case -2:
			c.Key = fw.Bytes(t, 0, 200, "key")
		default:
			c.Key = fw.BytesN(t, n, "key")
		}
		if len(c.Key) >= 12 && fw.Chance(t, 1, 300, "grind") {
			// a key whose address has an unusual checksum or hash
			grind(c.Key, fw.Int(t, 0, 4, "goal"))
		}
		if len(c.Key) > 0 {
			c.Flip = fw.Int(t, 0, len(c.Key)*8-1, "flip")
		}
		return c
	}
	judge := func(c genCase, o *fw.Obs) error {
		in := c.Key.Clone()
		a, err := address.Generate(c.Kind, in)
		want, ok := ref.Address(c.Kind, c.Key)
		if !bytes.Equal(in, c.Key) {
			return fw.Errf("Generate changed its input")
		}
		if !ok {
			if err == nil {
				return fw.Errf("Generate(kind %q, %d bytes) accepted: %s", c.Kind, len(in), a)
			}
			if a != (address.Address{}) {
				return fw.Errf("Generate returned an address together with an error")
			}
			o.Label("refused")
			o.NTIf(ref.IsKind(c.Kind) || len(in) >= 12)
			return nil
		}
		o.NT()
		if err != nil {
			return fw.Errf("Generate(kind %q, %x): %v", c.Kind, c.Key, err)
		}
		if a.String() != want {
			return fw.Errf("Generate(kind %q, %x) = %s, want %s", c.Kind, c.Key, a, want)
		}
		a2, err := address.Generate(c.Kind, c.Key.Clone())
		if err != nil || a2 != a {
			return fw.Errf("second Generate: %v %v, first %v", a2, err, a)
		}
		if a.Kind() != c.Kind {
			return fw.Errf("Kind() = %q, want %q", a.Kind(), c.Kind)
		}
		if err := a.Revalidate(); err != nil {
			return fw.Errf("Revalidate(%s): %v", a, err)
		}
		v, err := address.Validate(a.String())
		if err != nil || v != a {
			return fw.Errf("Validate(%s) = %v, %v", a, v, err)
		}
		if ref.IsKind(c.Kind2) && c.Kind2 != c.Kind {
			b, err := address.Generate(c.Kind2, in)
			if err != nil || b == a || b.String() == a.String() {
				return fw.Errf("kinds %q and %q give %v and %v (%v)", c.Kind, c.Kind2, a, b, err)
			}
			o.Label("other-kind")
		}
		k2 := c.Key.Clone()
		k2[c.Flip/8] ^= 1 << uint(c.Flip%8)
		b, err := address.Generate(c.Kind, k2)
		if err != nil || b.String() == a.String() {
			return fw.Errf("keys differing in bit %d give %v and %v (%v)", c.Flip, a, b, err)
		}
		o.Label("generated")
		return nil
	}
	type pk struct {
		Type string
		S    fw.Str
		N    int32
	}
	names := map[string]byte{"u": 'a', "user": 'a', "ndau": 'n', "endowment": 'e', "exchange": 'x', "bpc": 'b', "marketmaker": 'm',
		"a": 'a', "n": 'n', "e": 'e', "x": 'x', "b": 'b', "m": 'm'}
	kgen := func(t *rapid.T) pk {
		c := pk{Type: fw.Pick(t, "type", "string", "string", "string", "rune", "byte", "int8", "int", "nil")}
		switch c.Type {
		case "string":
			if fw.Chance(t, 1, 2, "named") {
				keys := []string{"u", "user", "ndau", "endowment", "exchange", "bpc", "marketmaker", "a", "n", "e", "x", "b", "m"}
				s := []byte(keys[fw.Int(t, 0, len(keys)-1, "name")])
				for i := range s {
					if rapid.Bool().Draw(t, "up") {
						s[i] -= 32
					}
				}
				c.S = fw.Str(s)
			} else {
				c.S = fw.Junk(t, "s", 12)
			}
		default:
			c.N = int32(fw.Int(t, 0, 127, "n"))
			if c.Type == "rune" && fw.Chance(t, 1, 4, "wide") {
				c.N = rapid.Int32Range(-1, 0x110000).Draw(t, "r")
				if rapid.Bool().Draw(t, "lookalike") { // the low byte is that of a kind
					c.N = c.N&^0xff | int32(ref.Kinds[fw.Int(t, 0, 5, "k")])&^(32*int32(fw.Int(t, 0, 1, "up")))
				}
			}
			if c.Type == "byte" {
				c.N = int32(fw.Int(t, 0, 255, "nb"))
			}
			if c.Type == "int8" {
				c.N = int32(fw.Int(t, -128, 127, "n8"))
			}
		}
		return c
	}
	kjudge := func(c pk, o *fw.Obs) error {
		var in interface{}
		switch c.Type {
		case "string":
			in = string(c.S)
		case "rune":
			in = rune(c.N)
		case "byte":
			in = byte(c.N)
		case "int8":
			in = int8(c.N)
		case "int":
			in = int(c.N)
		}
		k, err := address.ParseKind(in)
		if err == nil && !ref.IsKind(k) {
			return fw.Errf("ParseKind(%T %v) = %q, not a recognised kind", in, in, k)
		}
		if err == nil && !address.IsValidKind(k) {
			return fw.Errf("IsValidKind(%q) is false", k)
		}
		var want byte
		decided, wantErr := false, false
		switch c.Type {
		case "string":
			s := ref.LowerASCII(string(c.S))
			if w, ok := names[s]; ok {
				decided, want = true, w
			} else if s == "" {
				decided, wantErr = true, true
			} else if !ref.IsKind(s[0]) {
				decided, wantErr = true, true
			}
		case "rune":
			if c.N < 0 || c.N >= 128 { // none has a kind for its lower case
				decided, wantErr = true, true
			} else {
				s := ref.LowerASCII(string(rune(c.N)))
				decided, want = true, s[0]
				wantErr = !ref.IsKind(s[0])
			}
		case "byte", "int8":
			decided, want = true, byte(c.N)
			wantErr = !ref.IsKind(byte(c.N))
		default:
			decided, wantErr = true, true
		}
		if !decided {
			o.Label("undecided")
			return nil
		}
		o.NT()
		o.LabelIf(wantErr, "kind-refused")
		o.LabelIf(!wantErr, "kind-ok")
		if wantErr != (err != nil) || (!wantErr && k != want) {
			return fw.Errf("ParseKind(%T %v) = %q, %v; want %q, error %v", in, in, k, err, want, wantErr)
		}
		return nil
	}
	return fw.Property{
		ID:   "C01",
		Rule: "a generated address compared with the reference, or a refusal where exactly one of kind and key length is at fault; for kind names, an input with a defined outcome",
		Subs: []fw.Sub{
			fw.Prop("generate", 12000, 600000, gen, judge),
			fw.Prop("parsekind", 3000, 100000, kgen, kjudge),
			fw.Enum("isvalidkind", func() []int {
				var l []int
				for i := 0; i < 256; i++ {
					l = append(l, i)
				}
				return l
			}, func(i int, o *fw.Obs) error {
				o.NT()
				if address.IsValidKind(byte(i)) != ref.IsKind(byte(i)) {
					return fw.Errf("IsValidKind(%d) = %v", i, address.IsValidKind(byte(i)))
				}
				_, err := address.Generate(byte(i), make([]byte, 33))
				if (err == nil) != ref.IsKind(byte(i)) {
					return fw.Errf("Generate(kind %d): %v", i, err)
				}
				return nil
			}),
		},
	}
}

const otherChecks = 12

// otherCheck is a two-byte checksum of b which is close to the right one, or
// another well-known one.
func otherCheck(b []byte, n int) []byte {
	c := ref.CRCBytes(b)
	crc := func(init uint16) []byte {
		for _, x := range b {
			init ^= uint16(x) << 8
			for i := 0; i < 8; i++ {
				if init&0x8000 != 0 {
					init = init<<1 ^ 0x1021
				} else {
					init <<= 1
				}
			}
		}
		return []byte{byte(init >> 8), byte(init)}
	}
	switch n {
	case 0:
		return []byte{c[1], c[0]}
	case 1:
		return []byte{^c[0], ^c[1]}
	case 2:
		return []byte{0, 0}
	case 3:
		return []byte{0xff, 0xff}
	case 4: // XMODEM
		return crc(0)
	case 5: // CCITT-FALSE
		return crc(0xffff)
	case 6:
		return []byte{c[0], c[1] ^ 1}
	case 7:
		return []byte{c[0] ^ 0x80, c[1]}
	case 8:
		return []byte{c[0], 0}
	case 9:
		return []byte{0, c[1]}
	case 10: // of the data without its last byte
		if len(b) > 0 {
			return ref.CRCBytes(b[:len(b)-1])
		}
	case 11: // of the data and its checksum
		return ref.CRCBytes(append(append([]byte(nil), b...), c...))
	}
	h := sha256.Sum256(b)
	return h[:2]
}

// ---------------------------------------------------------------- address text generator (C02, C03)

// body draws a 30-byte address body with a good checksum, or nearly so.
func addrText(t *rapid.T) fw.Str {
	var s string
	switch fw.Int(t, 0, 9, "base") {
	case 0, 1, 2, 3, 4: // a real address
		s, _ = ref.Address(ref.Kinds[fw.Int(t, 0, 5, "kind")], fw.BytesN(t, 33, "key"))
	case 5, 6: // well-formed with any prefix and possibly any kind, right checksum
		b := fw.BytesN(t, 28, "raw").Clone()
		if fw.Chance(t, 3, 4, "kindok") {
			k := ref.B32Val(ref.Kinds[fw.Int(t, 0, 5, "kind")])
			// third letter: bits 10..14
			b[1] = b[1]&0xC1 | byte(k<<1)
		}
		b = append(b, ref.CRCBytes(b)...)
		if fw.Chance(t, 1, 4, "otherck") {
			// the right header and a checksum of another kind
			w := otherCheck(b[:28], fw.Int(t, 0, otherChecks-1, "ck"))
			b[28], b[29] = w[0], w[1]
		}
		s = ref.B32(b)
	case 7: // right checksum over the wrong length, filled up to 48 characters
		n := fw.Pick(t, "n", 25, 20, 15, 10, 5, 24, 26, 27, 28, 29, 22)
		b := fw.BytesN(t, n-2, "raw").Clone()
		if len(b) > 1 {
			k := ref.B32Val(ref.Kinds[fw.Int(t, 0, 5, "kind")])
			b[1] = b[1]&0xC1 | byte(k<<1)
		}
		b = append(b, ref.CRCBytes(b)...)
		s = ref.B32(b)
		if fw.Chance(t, 1, 4, "nopad") {
			s = strings.TrimRight(s, "=")
		}
		fill := fw.Pick(t, "fill", "\n", "\r", "=", "\r\n", "a", " ")
		for len(s) < 48 {
			if fill == "=" || rapid.Bool().Draw(t, "end") {
				s += fill
			} else {
				p := fw.Int(t, 3, len(s), "at")
				s = s[:p] + fill + s[p:]
			}
		}
	case 8: // random letters
		b := make([]byte, 48)
		for i := range b {
			b[i] = ref.Alphabet[fw.Int(t, 0, 31, "c")]
		}
		if rapid.Bool().Draw(t, "k") {
			b[2] = ref.Kinds[fw.Int(t, 0, 5, "kind")]
		}
		s = string(b)
	default:
		s = string(fw.Junk(t, "junk", 60))
	}
	switch fw.Int(t, 0, 12, "mut") {
	case 0, 1, 2: // none
	case 3: // some upper case
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && rapid.Bool().Draw(t, "up") {
				b[i] -= 32
			}
		}
		s = string(b)
	case 4: // all upper case
		s = strings.ToUpper(s)
	case 5, 6: // up to three neighbouring characters
		if len(s) > 3 {
			b := []byte(s)
			p := fw.Int(t, 0, len(b)-3, "pos")
			for k := 0; k < fw.Int(t, 1, 3, "w"); k++ {
				b[p+k] = ref.Alphabet[fw.Int(t, 0, 31, "r")]
			}
			s = string(b)
		}
	case 7: // swap two characters
		if len(s) > 2 {
			b := []byte(s)
			i, j := fw.Int(t, 0, len(b)-1, "i"), fw.Int(t, 0, len(b)-1, "j")
			b[i], b[j] = b[j], b[i]
			s = string(b)
		}
	case 8: // truncate
		if len(s) > 0 {
			s = s[:len(s)-fw.Int(t, 1, min(9, len(s)), "cut")]
		}
	case 9: // extend
		s += string(fw.Pick(t, "ext", "a", "aa", "\n", "=", " ", "========", "aaaaaaaa", "\x00"))
	case 10: // surround
		s = string(fw.Pick(t, "pre", " ", "\n", "nd", "\t")) + s
	case 11: // replace one character by something odd
		if len(s) > 0 {
			b := []byte(s)
			b[fw.Int(t, 0, len(b)-1, "p")] = fw.Pick(t, "odd", byte('\n'), byte('\r'), byte('='), byte(' '), byte('l'), byte('o'), byte('0'), byte('1'), byte(0), byte(0xC4), byte('L'), byte('O'))
			s = string(b)
		}
	case 12: // change the kind letter only
		if len(s) > 3 {
			b := []byte(s)
			b[2] = ref.Alphabet[fw.Int(t, 0, 31, "k2")]
			s = string(b)
		}
	}
	return fw.Str(s)
}

type textCase struct{ S fw.Str }

func c02() fw.Property {
	judge := func(c textCase, o *fw.Obs) error {
		s := string(c.S)
		a, err := address.Validate(s)
		want, ok := ref.ValidAddress(s)
		if !ok && !ref.IsASCII(s) {
			// letters outside ASCII with an ASCII lower case: either way, but
			// only in the canonical form
			if err == nil {
				w, ok2 := ref.ValidAddress(strings.ToLower(s))
				if !ok2 || a.String() != w {
					return fw.Errf("Validate(%q) = %q", s, a)
				}
			}
			o.Label("non-ascii")
			return nil
		}
		// the same text read from binary data, where it is not checked
		var z address.Address
		if left, zerr := z.UnmarshalMsg(msgp.AppendString([]byte{0x91}, s)); zerr == nil {
			if len(left) != 0 || z.String() != s && !(ok && z.String() == want) {
				return fw.Errf("the address %q, read from binary data, is %q, %d bytes left", s, z, len(left))
			}
			if err := z.Revalidate(); (err == nil) != ok {
				return fw.Errf("Revalidate of the address %q, read from binary data: %v, want valid %v", s, err, ok)
			}
		} else if ok {
			return fw.Errf("the address %q cannot be read from binary data: %v", s, zerr)
		}
		o.NTIf(ok || len(s) == 48)
		if ok {
			o.Label("accepted")
			if err != nil {
				return fw.Errf("Validate(%q) refused a well-formed address: %v", s, err)
			}
			if a.String() != want {
				return fw.Errf("Validate(%q) = %q, want %q", s, a, want)
			}
			if a.Kind() != want[2] {
				return fw.Errf("Kind of %q = %q", want, a.Kind())
			}
			if err := a.Revalidate(); err != nil {
				return fw.Errf("Revalidate: %v", err)
			}
			return nil
		}
		o.Label("refused")
		if err == nil {
			return fw.Errf("Validate(%q) accepted a malformed address as %q", s, a)
		}
		if a != (address.Address{}) {
			return fw.Errf("Validate(%q) returned an address with an error", s)
		}
		return nil
	}
	// every alteration of up to three neighbouring characters of a valid
	// address must be refused; done exhaustively for one window
	type win struct {
		Kind byte
		Key  fw.Hex
		Pos  int
		Two  int // which of 32*32 follow-ups
	}
	wgen := func(t *rapid.T) win {
		return win{ref.Kinds[fw.Int(t, 0, 5, "kind")], fw.BytesN(t, 33, "key"), fw.Int(t, 0, 45, "pos"), fw.Int(t, 0, 31, "two")}
	}
	wjudge := func(c win, o *fw.Obs) error {
		s, _ := ref.Address(c.Kind, c.Key)
		b := []byte(s)
		o.NT()
		for i := 0; i < 32; i++ {
			for j := 0; j < 32; j++ {
				b[c.Pos], b[c.Pos+1], b[c.Pos+2] = ref.Alphabet[i], ref.Alphabet[j], ref.Alphabet[c.Two]
				if string(b) == s {
					continue
				}
				if a, err := address.Validate(string(b)); err == nil {
					return fw.Errf("%q is %q altered at %d and validates as %v", b, s, c.Pos, a)
				}
			}
		}
		return nil
	}
	return fw.Property{
		ID:   "C02",
		Rule: "the text has 48 characters, or the reference accepts it; a window case alters 1023 neighbouring triples",
		Subs: []fw.Sub{
			fw.Prop("validate", 40000, 2000000, func(t *rapid.T) textCase { return textCase{addrText(t)} }, judge),
			fw.Prop("bursts", 250, 15000, wgen, wjudge),
		},
	}
}

// ---------------------------------------------------------------- C03

type serCase struct {
	S     fw.Str // text
	Prev  bool   // receiver already holds an address
	Trail fw.Hex
	Head  fw.Hex
	Cut   int
	Mut   int
	MutB  byte
}

type holder struct {
	A address.Address
	P *address.Address
	M map[string]address.Address
}

func c03() fw.Property {
	gen := func(t *rapid.T) serCase {
		return serCase{S: addrText(t), Prev: rapid.Bool().Draw(t, "prev"), Trail: fw.Data(t, 5000, "trail"), Head: fw.Data(t, 5000, "head"),
			Cut: fw.Int(t, 0, 60, "cut"), Mut: fw.Int(t, -10, 52, "mut"), MutB: rapid.Byte().Draw(t, "mutb")}
	}
	other, _ := address.Generate('m', []byte("another key altogether"))
	judge := func(c serCase, o *fw.Obs) error {
		s := string(c.S)
		var r address.Address
		if c.Prev {
			r = other
		}
		before := r
		txt := []byte(s)
		err := r.UnmarshalText(txt)
		if string(txt) != s {
			return fw.Errf("UnmarshalText changed its input")
		}
		va, verr := address.Validate(s)
		if (err == nil) != (verr == nil) {
			return fw.Errf("UnmarshalText(%q): %v but Validate: %v", s, err, verr)
		}
		want, ok := ref.ValidAddress(s)
		if ref.IsASCII(s) && ok != (err == nil) {
			return fw.Errf("UnmarshalText(%q): %v, well-formed: %v", s, err, ok)
		}
		if err != nil {
			o.Label("text-refused")
			o.NTIf(len(s) == 48)
			if r != before {
				return fw.Errf("a failed UnmarshalText(%q) changed the receiver from %v to %v", s, before, r)
			}
			return nil
		}
		o.NT()
		o.Label("text-ok")
		if r != va || (ok && r.String() != want) || r.Kind() != va.Kind() {
			return fw.Errf("UnmarshalText(%q) = %q, Validate gives %q", s, r, va)
		}
		a := r
		out, err := a.MarshalText()
		if err != nil || string(out) != a.String() {
			return fw.Errf("MarshalText(%v) = %q, %v", a, out, err)
		}
		// the returned text must be the caller's to modify
		for i := range out {
			out[i] = '?'
		}
		if a != va {
			return fw.Errf("modifying the marshalled text changed the address")
		}
		// JSON, as value, pointer and map value
		h := holder{A: a, P: &a, M: map[string]address.Address{"k": a}}
		jb, err := json.Marshal(h)
		if err != nil {
			return fw.Errf("json: %v", err)
		}
		var h2 holder
		if err := json.Unmarshal(jb, &h2); err != nil || !reflect.DeepEqual(h, h2) {
			return fw.Errf("json round trip of %s: %+v, %v", jb, h2, err)
		}
		// MessagePack
		buf, err := a.MarshalMsg(c.Head.Clone())
		if err != nil {
			return fw.Errf("MarshalMsg: %v", err)
		}
		if !bytes.HasPrefix(buf, c.Head) {
			return fw.Errf("MarshalMsg(%x) lost the buffer's contents: %x", c.Head, buf)
		}
		enc := append([]byte(nil), buf[len(c.Head):]...)
		if len(enc) > a.Msgsize() {
			return fw.Errf("Msgsize %d but %d bytes", a.Msgsize(), len(enc))
		}
		var sb bytes.Buffer
		if err := msgp.Encode(&sb, a); err != nil || !bytes.Equal(sb.Bytes(), enc) {
			return fw.Errf("EncodeMsg %x, MarshalMsg %x, %v", sb.Bytes(), enc, err)
		}
		// a stream which fails, for good or once
		for _, once := range []bool{false, true} {
			bad := &fw.FailingWriter{Room: c.Cut % len(enc), Once: once}
			w := msgp.NewWriterSize(bad, 18+c.Cut%50)
			err := a.EncodeMsg(w)
			if err == nil {
				err = w.Flush()
			}
			if err == nil && (!once || !bytes.Equal(bad.Got, enc)) {
				return fw.Errf("EncodeMsg to a stream which fails after %d bytes (once: %v) reports success with %x written, want %x", c.Cut%len(enc), once, bad.Got, enc)
			}
		}
		in := append(append([]byte(nil), enc...), c.Trail...)
		inCopy := append([]byte(nil), in...)
		var b address.Address
		if c.Prev {
			b = other
		}
		rest, err := b.UnmarshalMsg(in)
		if err != nil || b != a || b.Kind() != a.Kind() || !bytes.Equal(rest, c.Trail) {
			return fw.Errf("UnmarshalMsg(%x) = %v, rest %x, %v; want %v, rest %x", inCopy, b, rest, err, a, c.Trail)
		}
		for i := range in {
			in[i] ^= 0x55
		}
		if b != a {
			return fw.Errf("the address shares memory with the buffer it was read from")
		}
		var d address.Address
		rd := msgp.NewReader(bytes.NewReader(inCopy))
		if err := d.DecodeMsg(rd); err != nil || d != a {
			return fw.Errf("DecodeMsg = %v, %v", d, err)
		}
		left := make([]byte, len(c.Trail))
		if n, _ := rd.ReadFull(left); n != len(c.Trail) || !bytes.Equal(left, c.Trail) {
			return fw.Errf("DecodeMsg consumed too much or too little: %x left", left[:n])
		}
		re, err := b.MarshalMsg(nil)
		if err != nil || !bytes.Equal(re, enc) {
			return fw.Errf("re-serialized %x, was %x (%v)", re, enc, err)
		}
		// truncation
		cut := c.Cut % len(enc)
		var x address.Address
		if _, err := x.UnmarshalMsg(enc[:cut:cut]); err == nil {
			return fw.Errf("UnmarshalMsg of %d of %d bytes succeeded", cut, len(enc))
		}
		if err := x.DecodeMsg(msgp.NewReader(bytes.NewReader(enc[:cut:cut]))); err == nil {
			return fw.Errf("DecodeMsg of %d of %d bytes succeeded", cut, len(enc))
		}
		// wrong structure: an array of another size, another type of element
		for _, bad := range [][]byte{
			append([]byte{0x90}, enc[1:]...), append([]byte{0x92}, enc[1:]...), enc[1:], {0x91, 0x05}, {0x91, 0xc0}, {0x91, 0xc4, 1, 1}, {0x80}, {0xc0}, {0x91, 0x91, 0xa0},
		} {
			var y address.Address
			if _, err := y.UnmarshalMsg(bad); err == nil {
				return fw.Errf("UnmarshalMsg(%x) succeeded", bad)
			}
			var z address.Address
			if err := z.DecodeMsg(msgp.NewReader(bytes.NewReader(bad))); err == nil {
				return fw.Errf("DecodeMsg(%x) succeeded", bad)
			}
		}
		if c.Mut >= 0 {
			m := append([]byte(nil), enc...)
			m[c.Mut%len(m)] = c.MutB
			var y address.Address
			y.UnmarshalMsg(m) // must not crash
		}
		return nil
	}
	// junk must not crash, and what is accepted must be a list of one string,
	// which becomes the address
	type bin struct{ B fw.Hex }
	junk := func(c bin, o *fw.Obs) error {
		in := []byte(c.B)
		m, refRest, isMsg := ref.ReadMsg(in)
		legal := isMsg && m.Type == 'a' && len(m.List) == 1 && (m.List[0].Type == 's' || m.List[0].Type == 'b')
		check := func(how string, y address.Address, left int) error {
			if !legal {
				return fw.Errf("%s accepts %x, which is not a list of one string, as %q", how, in, y)
			}
			if y.String() != string(m.List[0].Bytes) {
				return fw.Errf("%s reads %x as %q, want %q", how, in, y, m.List[0].Bytes)
			}
			if left != len(refRest) {
				return fw.Errf("%s of %x leaves %d bytes, want %d", how, in, left, len(refRest))
			}
			return nil
		}
		o.NTIf(len(in) > 2)
		var y address.Address
		rest, err := y.UnmarshalMsg(append([]byte{}, in...))
		if err == nil {
			o.Label("accepted")
			if !bytes.HasSuffix(in, rest) {
				return fw.Errf("rest %x is not the end of %x", rest, in)
			}
			if err := check("UnmarshalMsg", y, len(rest)); err != nil {
				return err
			}
		} else {
			o.Label("refused")
		}
		// the stream reader of the msgp library makes room for announced
		// lengths before it reads on, so no 32-bit ones
		if announces32(in[:min(len(in), 6)]) {
			return nil
		}
		var z address.Address
		r := bytes.NewReader(in)
		rd := msgp.NewReader(r)
		if err := z.DecodeMsg(rd); err == nil {
			return check("DecodeMsg", z, rd.Buffered()+r.Len())
		}
		return nil
	}
	edits := func() []bin {
		var out []bin
		for _, e := range [][]byte{[]byte("abc"), bytes.Repeat([]byte{'x'}, 40), nil} {
			text := other.String()
			if e != nil {
				text = string(e)
			}
			head := append([]byte{0x91}, 0xa0|byte(len(text)))
			if len(text) > 31 {
				head = []byte{0x91, 0xd9, byte(len(text))}
			}
			enc := append(head, text...)
			for at := 0; at < 5; at++ {
				for x := 0; x < 256; x++ {
					ins := append(append(append([]byte{}, enc[:at]...), byte(x)), enc[at:]...)
					rep := append([]byte{}, enc...)
					rep[at] = byte(x)
					out = append(out, bin{ins}, bin{rep}, bin{append(append([]byte{}, ins...), 0xc0, 1, 2)})
				}
				out = append(out, bin{append(append([]byte{}, enc[:at]...), enc[at+1:]...)})
			}
			for x := 0; x < 256; x++ { // every header of the string, and of the list
				for _, l := range [][]byte{{}, {byte(len(text))}, {0, byte(len(text))}, {0, 0, 0, byte(len(text))}, {0, 0, 0, 0, 0, 0, 0, byte(len(text))}} {
					out = append(out, bin{append(append([]byte{0x91, byte(x)}, l...), text...)})
				}
				for _, l := range [][]byte{{}, {1}, {0, 1}, {0, 0, 0, 1}, {1, 0}} {
					out = append(out, bin{append(append([]byte{byte(x)}, l...), enc[1:]...)})
				}
			}
		}
		return out
	}
	return fw.Property{
		ID:   "C03",
		Rule: "the text is a valid address in some letter case and went through every serialization, or is 48 characters long and was refused",
		Subs: []fw.Sub{
			fw.Prop("roundtrip", 20000, 800000, gen, judge),
			fw.Enum("header edits", edits, junk),
			fw.Prop("junkmsg", 5000, 300000, func(t *rapid.T) bin {
				b := fw.Bytes(t, 0, 70, "b").Clone()
				if len(b) > 3 && rapid.Bool().Draw(t, "arr") {
					b[0] = 0x91
					b[1] = fw.Pick(t, "tag", byte(0xd9), byte(0xda), byte(0xdb), byte(0xa5), byte(0xbf), byte(0xc4))
				}
				return bin{b}
			}, junk),
		},
	}
}

// ---------------------------------------------------------------- C04

// canonicalB32 says whether a text is what some data encodes to.
func canonicalB32(s string) bool {
	body := strings.TrimRight(s, "=")
	b, err := ref.B32Strict(body + strings.Repeat("a", (8-len(body)%8)%8))
	return err == nil && ref.B32(b[:len(body)*5/8]) == s
}

func c04() fw.Property {
	type enc struct {
		B    fw.Hex
		Case fw.Hex
	}
	gen := func(t *rapid.T) enc {
		max := 140000
		if fw.Chance(t, 1, 64, "huge") {
			max = 1200000
		}
		return enc{fw.Data(t, max, "b"), fw.BytesN(t, 32, "case")}
	}
	judge := func(c enc, o *fw.Obs) error {
		in := c.B.Clone()
		s := b32.Encode(in)
		if !bytes.Equal(in, c.B) {
			return fw.Errf("Encode changed its input")
		}
		o.NTIf(len(in) > 0)
		o.LabelIf(len(in)%5 == 0, "whole-groups")
		if want := ref.B32(c.B); s != want {
			return fw.Errf("Encode(%x) = %q, want %q", c.B, s, want)
		}
		m := []byte(s)
		for i := range m {
			if m[i] >= 'a' && m[i] <= 'z' && len(c.Case) > 0 && c.Case[i%len(c.Case)]>>uint(i/len(c.Case)%8)&1 == 1 {
				m[i] -= 32
			}
		}
		for _, v := range []string{s, string(m), strings.ToUpper(s)} {
			d, err := b32.Decode(v)
			if err != nil || !bytes.Equal(d, c.B) {
				return fw.Errf("Decode(%q) = %x, %v; want %x", v, d, err, c.B)
			}
		}
		return nil
	}
	type bad struct {
		S    fw.Str
		Pos  int
		C    byte
		Mode int
	}
	bgen := func(t *rapid.T) bad {
		b := fw.Data(t, 5000, "b")
		if len(b) == 0 {
			b = fw.Hex{7}
		}
		s := ref.B32(b)
		return bad{fw.Str(s), fw.Int(t, 0, len(s)-1, "pos"), rapid.Byte().Draw(t, "c"), fw.Int(t, 0, 6, "mode")}
	}
	bjudge := func(c bad, o *fw.Obs) error {
		s := string(c.S)
		pad := len(s) - len(strings.TrimRight(s, "="))
		mode := c.Mode
		if pad == 0 && (mode == 2 || mode == 3) {
			mode = 4
		}
		switch mode {
		case 2: // without all of its padding
			s = s[:len(s)-1-int(c.C)%pad]
			o.Label("missing-padding")
		case 3: // padding in the wrong place
			b := []byte(s)
			i, j := c.Pos%(len(s)-pad), len(s)-pad
			b[i], b[j] = b[j], b[i]
			s = string(b)
			o.Label("misplaced-padding")
		case 4: // too much padding
			s += strings.Repeat("=", 1+int(c.C)%16)
			o.Label("surplus-padding")
		case 5: // something after the padding, or a whole group and a part
			s += strings.Repeat("a", []int{1, 2, 3, 4, 5, 6, 7}[int(c.C)%7])
			o.Label("partial-group")
		case 6: // cut short
			k := len(s) - 1 - c.Pos%8
			if k <= 0 || k%8 == 0 {
				k = len(s) - 1
			}
			s = s[:k]
			o.Label("cut")
		case 0:
			// one character outside the alphabet
			ch := c.C
			if ref.B32Val(ref.LowerASCII(string([]byte{ch}))[0]) >= 0 || ch == '=' || ch == '\n' || ch == '\r' || ch >= 0x80 {
				ch = fw.Hex("l1o0 !LO\t-")[int(c.C)%10]
			}
			p := c.Pos
			for p > 0 && s[p] == '=' {
				p--
			}
			s = s[:p] + string([]byte{ch}) + s[p+1:]
			o.Label("foreign-character")
		default:
			// no base-32 text without padding has 1, 3 or 6 characters mod 8
			s = strings.TrimRight(s, "=")
			for n := len(s) % 8; n != 1 && n != 3 && n != 6; n = len(s) % 8 {
				s += "b"
			}
			o.Label("impossible-length")
		}
		o.NT()
		if d, err := b32.Decode(s); err == nil {
			return fw.Errf("Decode(%q) = %x without an error", s, d)
		}
		return nil
	}
	jjudge := func(c textCase, o *fw.Obs) error {
		d, err := b32.Decode(string(c.S))
		o.NTIf(len(c.S) > 0)
		if err == nil {
			o.Label("decoded")
			// whatever was decoded is preserved by the codec
			e := b32.Encode(d)
			d2, err2 := b32.Decode(e)
			if err2 != nil || !bytes.Equal(d, d2) {
				return fw.Errf("Decode(%q) = %x, which encodes to %q and decodes to %x, %v", c.S, d, e, d2, err2)
			}
		}
		if ref.IsASCII(string(c.S)) {
			if w, werr := ref.B32Strict(ref.LowerASCII(string(c.S))); werr == nil {
				o.Label("canonical")
				if err != nil || !bytes.Equal(w, d) {
					return fw.Errf("Decode(%q) = %x, %v; want %x", c.S, d, err, w)
				}
			}
		}
		return nil
	}
	return fw.Property{
		ID:   "C04",
		Rule: "non-empty data or text",
		Subs: []fw.Sub{
			fw.Prop("codec", 30000, 1500000, gen, judge),
			fw.Fit(fw.Prop("refuse", 15000, 600000, bgen, bjudge), func(c *bad) bool { return len(c.S) > 0 && canonicalB32(string(c.S)) }),
			fw.Prop("decode", 15000, 600000, func(t *rapid.T) textCase {
				if rapid.Bool().Draw(t, "letters") {
					b := make([]byte, 8*fw.Int(t, 0, 8, "n"))
					for i := range b {
						b[i] = ref.Alphabet[fw.Int(t, 0, 31, "c")]
					}
					return textCase{fw.Str(b)}
				}
				return textCase{fw.Junk(t, "j", 60)}
			}, jjudge),
			fw.Enum("index", func() []int {
				var l []int
				for i := 0; i < 256; i++ {
					l = append(l, i)
				}
				return l
			}, func(i int, o *fw.Obs) error {
				o.NT()
				if b32.NdauAlphabet != ref.Alphabet {
					return fw.Errf("alphabet is %q", b32.NdauAlphabet)
				}
				if got, want := b32.Index(string([]byte{byte(i)})), ref.B32Val(byte(i)); got != want {
					return fw.Errf("Index(%q) = %d, want %d", byte(i), got, want)
				}
				return nil
			}),
		},
	}
}

// ---------------------------------------------------------------- C05

func c05() fw.Property {
	type ck struct {
		B     fw.Hex
		Wrong fw.Hex // two bytes
		Start int    // first bit of a burst
		Burst fw.Hex // two bytes of burst pattern
	}
	gen := func(t *rapid.T) ck {
		c := ck{B: fw.Data(t, 1200000, "b"), Wrong: fw.BytesN(t, 2, "w"), Burst: fw.BytesN(t, 2, "burst")}
		if len(c.B) > 3 && len(c.B) < 200 && fw.Chance(t, 1, 100, "grind") {
			// data whose checksum has zero bytes
			goal := fw.Pick(t, "goal", 0xffff, 0xff00, 0x00ff)
			for i := 0; i < 150000 && int(ref.CRC16(c.B))&goal != 0; i++ {
				c.B[len(c.B)-1], c.B[len(c.B)-2] = byte(i), byte(i>>8)
				c.B[0] += byte(i >> 16)
			}
		}
		if fw.Chance(t, 1, 8, "own") {
			// data which ends in its own checksum, or holds another
			c.B = append(c.B, ref.CRCBytes(c.B)...)
		}
		if fw.Chance(t, 1, 4, "other") {
			c.Wrong = otherCheck(c.B, fw.Int(t, 0, otherChecks-1, "ck"))
		} else if rapid.Bool().Draw(t, "near") {
			w := ref.CRCBytes(c.B)
			w[fw.Int(t, 0, 1, "wb")] ^= 1 << uint(fw.Int(t, 0, 7, "bit"))
			c.Wrong = w
		}
		c.Start = fw.Int(t, 0, len(c.B)*8, "start")
		return c
	}
	judge := func(c ck, o *fw.Obs) error {
		in := c.B.Clone()
		k16 := b32.Checksum16(in)
		if !bytes.Equal(k16, ref.CRCBytes(c.B)) {
			return fw.Errf("Checksum16(%x) = %x, want %x", c.B, k16, ref.CRCBytes(c.B))
		}
		h := sha256.Sum256(c.B)
		k24 := b32.Checksum24(in)
		if !bytes.Equal(k24, h[:3]) {
			return fw.Errf("Checksum24(%x) = %x, want %x", c.B, k24, h[:3])
		}
		if !b32.Check(in, k16) {
			return fw.Errf("Check(%x, own checksum) = false", c.B)
		}
		if !bytes.Equal(in, c.B) || !bytes.Equal(k16, ref.CRCBytes(c.B)) {
			return fw.Errf("input changed")
		}
		o.NTIf(len(in) > 0)
		if !bytes.Equal(c.Wrong, k16) {
			if b32.Check(in, c.Wrong.Clone()) {
				return fw.Errf("Check(%x, %x) = true; the checksum is %x", c.B, c.Wrong, k16)
			}
			o.Label("wrong-checksum")
		}
		// a burst of up to 16 bits anywhere in data+checksum
		if c.Burst[0]|c.Burst[1] != 0 {
			all := append(append([]byte(nil), in...), k16...)
			for i := 0; i < 16; i++ {
				if c.Burst[i/8]>>(7-uint(i%8))&1 == 1 {
					if p := c.Start + i; p < len(all)*8 {
						all[p/8] ^= 1 << (7 - uint(p%8))
					}
				}
			}
			if b32.Check(all[:len(all)-2], all[len(all)-2:]) && !(bytes.Equal(all[:len(in)], in) && bytes.Equal(all[len(in):], k16)) {
				return fw.Errf("burst %x at bit %d of %x%x goes unnoticed", c.Burst, c.Start, c.B, k16)
			}
			o.Label("burst")
		}
		return nil
	}
	return fw.Property{
		ID:   "C05",
		Rule: "non-empty data",
		Subs: []fw.Sub{fw.Fit(fw.Prop("checksums", 30000, 1500000, gen, judge), func(c *ck) bool { return len(c.Wrong) == 2 && len(c.Burst) == 2 })},
	}
}
