package main

import (
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/signature"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// C41: the short form of a key, by itself and wherever fmt finds a key.

type shortCase struct {
	K     Pair
	Priv  bool
	Extra fw.Hex
	// State: 0 as made, 1 loaded from text, 2 loaded from binary, 3 truncated,
	// 4 cleared, 5 never set
	State int
	Other fw.Hex // extra data of a second key of the same pair
}

// short is the documented form: the first eight characters, an ellipsis and the
// last four. A text which is no longer than that stands for itself.
func short(s string) string {
	if len(s) <= 15 {
		return s
	}
	return s[:8] + "..." + s[len(s)-4:]
}

func c41() fw.Property {
	gen := func(t *rapid.T) shortCase {
		c := shortCase{K: genPair(t, 0, 1, 1, 2, 2, 2), Priv: rapid.Bool().Draw(t, "priv"), State: fw.Int(t, 0, 5, "state")}
		c.Extra = fw.Bytes(t, 0, fw.Pick(t, "max", 0, 3, 41, 300), "extra")
		c.Other = fw.Bytes(t, 0, 41, "other")
		return c
	}
	judge := func(c shortCase, o *fw.Obs) error {
		pub, pvt, err := c.K.keys(c.Extra)
		if err != nil {
			return err
		}
		rp, rv := c.K.raw()
		raw, extra, al := rp, c.Extra.Clone(), c.K.Al
		if c.Priv {
			raw = rv
		}
		var k serKey = pub
		if c.Priv {
			k = pvt
		}
		fresh := func() {
			pub, pvt, k = new(signature.PublicKey), nil, nil
			pvt = new(signature.PrivateKey)
			k = pub
			if c.Priv {
				k = pvt
			}
		}
		switch c.State {
		case 1:
			text := ref.KeyText(c.Priv, byte(al), raw, extra)
			fresh()
			if err := k.UnmarshalText([]byte(text)); err != nil {
				return fw.Errf("UnmarshalText(%s): %v", text, err)
			}
		case 2:
			fresh()
			if err := k.Unmarshal(ref.Container(byte(al), ref.Packed(raw, extra))); err != nil {
				return fw.Errf("Unmarshal: %v", err)
			}
		case 3:
			pub.Truncate()
			pvt.Truncate()
			extra = nil
		case 4:
			pub.Zeroize()
			pvt.Zeroize()
			raw, extra, al = nil, nil, 0
		case 5:
			fresh()
			raw, extra, al = nil, nil, 0
		}
		text := ref.KeyText(c.Priv, byte(al), raw, extra)
		want := short(text)
		o.NTIf(want != text)
		o.Label(fmt.Sprintf("alg-%d", al))
		o.LabelIf(want == text, "short enough")
		if full := k.FullString(); full != text {
			return fw.Errf("the full string is %s, want %s", full, text)
		}
		type box struct {
			Name string
			Pub  signature.PublicKey
			Pvt  signature.PrivateKey
			P    *signature.PrivateKey
		}
		var forms []string
		if c.Priv {
			forms = []string{pvt.String(), (*pvt).String(), fmt.Sprint(pvt), fmt.Sprint(*pvt), fmt.Sprintf("%s", pvt), fmt.Sprintf("%v", *pvt), fmt.Sprintf("%+v", pvt)}
			all := fmt.Sprintf("%v", box{Name: "x", Pub: *pub, Pvt: *pvt})
			if !strings.Contains(all, " "+want+" ") {
				return fw.Errf("a structure with the key %s prints as %s", want, all)
			}
			if all := fmt.Sprintf("%v", []signature.PrivateKey{*pvt, *pvt}); all != "["+want+" "+want+"]" {
				return fw.Errf("a list of the key %s prints as %s", want, all)
			}
		} else {
			forms = []string{pub.String(), (*pub).String(), fmt.Sprint(pub), fmt.Sprint(*pub), fmt.Sprintf("%s", pub), fmt.Sprintf("%v", *pub), fmt.Sprintf("%+v", pub)}
			if all := fmt.Sprintf("%v", []*signature.PublicKey{pub, pub}); all != "["+want+" "+want+"]" {
				return fw.Errf("a list of the key %s prints as %s", want, all)
			}
		}
		for i, f := range forms {
			if f != want {
				return fw.Errf("form %d of the key is %q, want %q", i, f, want)
			}
		}
		// the short form is of this key and no other, and leaves the key alone
		_, other, err := c.K.keys(c.Other)
		if err != nil {
			return err
		}
		if f, w := other.String(), short(ref.KeyText(true, byte(c.K.Al), rv, c.Other)); f != w {
			return fw.Errf("the key with extra %x is %q, want %q", []byte(c.Other), f, w)
		}
		if f := fmt.Sprint(k); f != want {
			return fw.Errf("the key prints as %q when asked again, want %q", f, want)
		}
		return sameKey(k, al, raw, extra)
	}
	return fw.Property{
		ID:          "C41",
		Rule:        "keys whose text is longer than its short form",
		Assumptions: []string{"the forms are those of String, Print and the verbs %s, %v and %+v; %#v shows the fields of any structure and is not judged"},
		Subs: []fw.Sub{fw.Fit(fw.Prop("forms", 60000, 700000, gen, judge), func(c *shortCase) bool {
			c.State = (c.State%6 + 6) % 6
			return c.K.fit()
		})},
	}
}
