// Command words decides C18..C20: recovery words.
package main

import (
	"bytes"
	"math"
	"math/big"
	"reflect"
	"strings"

	"github.com/ndau/ndaumath/pkg/words"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

func main() {
	fw.Packages = []string{"pkg/words"}
	fw.Main(c18, c19, c20)
}

func language(t *rapid.T) fw.Str {
	if fw.Chance(t, 1, 12, "lang?") {
		return fw.Pick[fw.Str](t, "lang", "", "EN", "en ", "fr", "de", "english", "e", "\x00", "en-US", fw.Junk(t, "junk", 4))
	}
	return "en"
}

func data(t *rapid.T) fw.Hex {
	b := fw.Bytes(t, 0, fw.Pick(t, "max", 4, 16, 24, 40, 64, 200), "data")
	switch fw.Int(t, 0, 15, "special") {
	case 0:
		b = fw.Data(t, 3000, "long")
	case 1: // the usual lengths
		b = fw.BytesN(t, fw.Pick(t, "usual", 16, 20, 24, 28, 32, 64), "usuals")
	case 2, 3: // bytes whose words may be those of a shorter sequence too
		for ref.WordsNeeded(len(b)) != ref.WordsNeeded(len(b)+1) {
			b = append(b, byte(len(b)))
		}
		v := new(big.Int)
		for _, n := range ref.WordNumbers(b) {
			v.Lsh(v, 11)
			v.Or(v, big.NewInt(int64(n)))
		}
		l := len(b) + 1
		b = v.Rsh(v, uint(ref.WordsNeeded(l)*11-8*l)).FillBytes(make([]byte, l))
	case 4: // with its own checksum at the end, so that the checksum is zero
		b = append(b, ref.CRC8(b))
	}
	return b
}

func c18() fw.Property {
	type dcase struct {
		B    fw.Hex
		Lang fw.Str
	}
	judge := func(c dcase, o *fw.Obs) error {
		in := make([]byte, len(c.B), len(c.B)+16)
		copy(in, c.B)
		ws, err := words.FromBytes(string(c.Lang), in)
		if !bytes.Equal(in, c.B) || !bytes.Equal(in[:cap(in)][len(in):], make([]byte, 16)) {
			return fw.Errf("FromBytes changed its input")
		}
		if c.Lang != "en" {
			o.Label("unknown-language")
			if err == nil {
				return fw.Errf("FromBytes(%q, %x): no error", c.Lang, c.B)
			}
			if len(ws) != 0 {
				return fw.Errf("words and error")
			}
			if _, err := words.ToBytes(string(c.Lang), ref.Phrase(c.B)); err == nil {
				return fw.Errf("ToBytes(%q): no error", c.Lang)
			}
			return nil
		}
		o.NT()
		if err != nil {
			return fw.Errf("FromBytes(%x): %v", c.B, err)
		}
		want := ref.Phrase(c.B)
		if !reflect.DeepEqual(ws, want) {
			return fw.Errf("FromBytes(%x) = %q, want %q", c.B, ws, want)
		}
		again, err := words.FromBytes("en", in)
		if err != nil || !reflect.DeepEqual(again, want) {
			return fw.Errf("FromBytes(%x) a second time = %q", c.B, again)
		}
		keep := append([]string(nil), ws...)
		b, err := words.ToBytes("en", ws)
		if err != nil {
			return fw.Errf("ToBytes(%q): %v", ws, err)
		}
		if !reflect.DeepEqual(ws, keep) {
			return fw.Errf("ToBytes changed its input")
		}
		if !bytes.Equal(b, c.B) {
			if len(c.B) == 0 || !bytes.Equal(b, c.B[:len(c.B)-1]) || !reflect.DeepEqual(ref.Phrase(b), ws) {
				return fw.Errf("%x becomes %q, which reads back as %x", c.B, ws, b)
			}
			o.Label("ambiguous")
		}
		return nil
	}
	return fw.Property{
		ID:   "C18",
		Rule: "bytes written as words of the English list, compared with a reference encoding and read back",
		Subs: []fw.Sub{
			fw.Prop("roundtrip", 150000, 2000000, func(t *rapid.T) dcase { return dcase{data(t), language(t)} }, judge),
			fw.Enum("short", func() []dcase {
				// every sequence of up to one byte, and two-byte sequences
				out := []dcase{{nil, "en"}}
				for i := 0; i < 256; i++ {
					out = append(out, dcase{fw.Hex{byte(i)}, "en"})
				}
				for i := 0; i < 65536; i += 7 {
					out = append(out, dcase{fw.Hex{byte(i >> 8), byte(i)}, "en"})
				}
				return out
			}, judge),
		},
	}
}

func c19() fw.Property {
	type wcase struct {
		W    []fw.Str
		Lang fw.Str
	}
	gen := func(t *rapid.T) wcase {
		c := wcase{Lang: "en"}
		var ws []string
		if fw.Chance(t, 1, 4, "random") {
			for n := fw.Int(t, 0, fw.Pick(t, "max", 3, 12, 24, 60), "n"); n > 0; n-- {
				ws = append(ws, ref.Words[fw.Int(t, 0, 2047, "w")])
			}
		} else {
			ws = ref.Phrase(data(t))
		}
		for n := fw.Pick(t, "edits", 0, 1, 1, 1, 2, 3, 4); n > 0; n-- {
			if len(ws) == 0 {
				ws = append(ws, ref.Words[fw.Int(t, 0, 2047, "w")])
				continue
			}
			p := fw.Pick(t, "p", fw.Int(t, 0, len(ws)-1, "pos"), len(ws)-1)
			w := ws[p]
			switch fw.Int(t, 0, 10, "edit") {
			case 10: // a piece of the word, or of one next to it
				if q := p + fw.Pick(t, "of", 0, -1, 1); q >= 0 && q < len(ws) && len(ws[q]) > 0 {
					w = ws[q]
				}
				if len(w) > 0 {
					a := fw.Int(t, 0, len(w)-1, "from")
					b := fw.Int(t, a, len(w), "to")
					ws[p] = fw.Pick(t, "piece", w[:b], w[a:], w[a:b], w[:min(4, len(w))])
				}
			case 0:
				ws = append(ws[:p], ws[p+1:]...)
			case 1:
				ws = append(ws[:p], append([]string{ref.Words[fw.Int(t, 0, 2047, "w")]}, ws[p:]...)...)
			case 2:
				q := fw.Int(t, 0, len(ws)-1, "q")
				ws[p], ws[q] = ws[q], ws[p]
			case 3: // a word which is not in the list
				ws[p] = fw.Pick(t, "bad", strings.ToUpper(w), strings.Title(w), w+" ", " "+w, "", w[:max(len(w)-1, 0)], w+"s", "zzz", "aaa", "zoo\x00", "\xff", string(fw.Junk(t, "junk", 8)))
			case 4: // a few bits
				ws[p] = ref.Words[(ref.WordIndex(w)&2047)^(1<<uint(fw.Int(t, 0, 10, "bit")))&2047]
			case 5: // the neighbouring word
				ws[p] = ref.Words[(ref.WordIndex(w)+1)&2047]
			case 6:
				ws = ws[:p]
			case 7:
				ws = append(ws, ws[p])
			default:
				ws[p] = ref.Words[fw.Int(t, 0, 2047, "w")]
			}
		}
		for _, w := range ws {
			c.W = append(c.W, fw.Str(w))
		}
		return c
	}
	judge := func(c wcase, o *fw.Obs) error {
		var ws []string
		for _, w := range c.W {
			ws = append(ws, string(w))
		}
		keep := append([]string(nil), ws...)
		b, err := words.ToBytes("en", ws)
		if !reflect.DeepEqual(ws, keep) {
			return fw.Errf("ToBytes changed its input")
		}
		want, ok := ref.Unphrase(ws)
		unknown := false
		for _, w := range ws {
			unknown = unknown || ref.WordIndex(w) < 0
		}
		o.NTIf(!ok)
		o.LabelIf(ok, "a-phrase")
		o.LabelIf(!ok && !unknown, "not-a-phrase")
		o.LabelIf(unknown, "unknown-word")
		o.LabelIf(len(ws) == 0, "no-words")
		if ok != (err == nil) {
			return fw.Errf("ToBytes(%q) = %x, %v; want success %v", ws, b, err, ok)
		}
		if err != nil {
			if len(b) != 0 {
				return fw.Errf("bytes and error")
			}
			return nil
		}
		back, err := words.FromBytes("en", b)
		if err != nil || !reflect.DeepEqual(back, ws) {
			return fw.Errf("ToBytes(%q) = %x, which is written as %q, %v", ws, b, back, err)
		}
		if !bytes.Equal(b, want) {
			return fw.Errf("ToBytes(%q) = %x, want %x", ws, b, want)
		}
		return nil
	}
	return fw.Property{
		ID:   "C19",
		Rule: "a list which is not the encoding of any bytes by the reference, mostly one to four edits away from a phrase",
		Subs: []fw.Sub{
			fw.Prop("lists", 200000, 2500000, gen, judge),
			fw.Enum("short", func() []wcase {
				out := []wcase{{nil, "en"}, {[]fw.Str{}, "en"}}
				for i := 0; i < 2048; i++ {
					out = append(out, wcase{[]fw.Str{fw.Str(ref.Words[i])}, "en"})
				}
				for i := 0; i < 2048; i += 17 {
					for k := 0; k < 2048; k += 19 {
						out = append(out, wcase{[]fw.Str{fw.Str(ref.Words[i]), fw.Str(ref.Words[k])}, "en"})
					}
				}
				return out
			}, judge),
		},
	}
}

func c20() fw.Property {
	type pcase struct {
		Prefix fw.Str
		Max    int
		Lang   fw.Str
	}
	judge := func(c pcase, o *fw.Obs) error {
		got := words.FromPrefix(string(c.Lang), string(c.Prefix), c.Max)
		var want []string
		if c.Lang == "en" {
			for _, w := range ref.Words {
				if strings.HasPrefix(w, string(c.Prefix)) && (c.Max <= 0 || len(want) < c.Max) {
					want = append(want, w)
				}
			}
		}
		o.NTIf(len(want) > 0)
		o.LabelIf(len(want) == 0, "no-match")
		o.LabelIf(c.Max > 0 && len(want) == c.Max, "limited")
		if got != strings.Join(want, " ") {
			return fw.Errf("FromPrefix(%q, %q, %d) = %q, want %q", c.Lang, c.Prefix, c.Max, got, strings.Join(want, " "))
		}
		return nil
	}
	gen := func(t *rapid.T) pcase {
		c := pcase{Lang: language(t)}
		w := ref.Words[fw.Int(t, 0, 2047, "w")]
		c.Prefix = fw.Str(w[:fw.Int(t, 0, len(w), "cut")])
		switch fw.Int(t, 0, 9, "how") {
		case 0:
			c.Prefix += fw.Str(rune('a' + fw.Int(t, 0, 25, "c")))
		case 1:
			c.Prefix = fw.Pick[fw.Str](t, "odd", "", "z", "zo", "zoo", "zooz", "a", "A", "Ab", " ", "x", "xa", "{", "\xff", "\x00", "`", "ab andon", "abandon ", fw.Junk(t, "junk", 4))
		}
		n := 0
		for _, w := range ref.Words {
			if strings.HasPrefix(w, string(c.Prefix)) {
				n++
			}
		}
		c.Max = fw.Pick(t, "max", 0, -1, 1, 2, 5, n-1, n, n+1, 2047, 2048, 2049, 1<<31, -1<<31, math.MaxInt64, math.MinInt64, fw.Int(t, 0, 300, "any"))
		return c
	}
	type icase struct{ I int }
	return fw.Property{
		ID:   "C20",
		Rule: "a prefix which some word of the list starts with",
		Subs: []fw.Sub{
			fw.Prop("prefixes", 60000, 1000000, gen, judge),
			fw.Enum("list", func() []icase {
				out := []icase{}
				for i := 0; i < 2048; i++ {
					out = append(out, icase{i})
				}
				return out
			}, func(c icase, o *fw.Obs) error {
				o.NT()
				all := strings.Split(words.FromPrefix("en", "", 0), " ")
				if len(all) != 2048 {
					return fw.Errf("the list has %d words", len(all))
				}
				w := all[c.I]
				if w != ref.Words[c.I] {
					return fw.Errf("word %d is %q, want %q", c.I, w, ref.Words[c.I])
				}
				if c.I > 0 && all[c.I-1] >= w {
					return fw.Errf("%q comes after %q", w, all[c.I-1])
				}
				// looked up by itself
				l := strings.Split(words.FromPrefix("en", w, 1), " ")
				if l[0] != w {
					return fw.Errf("FromPrefix(%q, 1) = %q", w, l)
				}
				// decoded: a phrase of two words starting with this one
				for k := 0; k < 32; k++ {
					b := []byte{byte(c.I >> 3), byte(c.I<<5 | k)}
					ph, err := words.FromBytes("en", b)
					if err != nil || ph[0] != w {
						return fw.Errf("FromBytes(%x) = %q, %v; want first word %q", b, ph, err, w)
					}
					got, err := words.ToBytes("en", ph)
					if err != nil || (!bytes.Equal(got, b) && !bytes.Equal(got, b[:1])) {
						return fw.Errf("ToBytes(%q) = %x, %v", ph, got, err)
					}
				}
				return nil
			}),
			fw.Enum("two-letters", func() []pcase {
				out := []pcase{}
				for a := 'a'; a <= 'z'; a++ {
					for _, m := range []int{0, 1, 3} {
						out = append(out, pcase{fw.Str(a), m, "en"})
						for b := 'a'; b <= 'z'; b++ {
							out = append(out, pcase{fw.Str([]rune{a, b}), m, "en"})
						}
					}
				}
				return out
			}, judge),
		},
	}
}
