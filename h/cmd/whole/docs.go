package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/types"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// ---- C45

// document holds every type which has a text or number form, as value, pointer,
// list element, map value and map key.
type document struct {
	Addr    address.Address
	AddrP   *address.Address
	Funds   map[address.Address]types.Ndau
	Pub     signature.PublicKey
	PubP    *signature.PublicKey
	Pvt     signature.PrivateKey
	PvtP    *signature.PrivateKey
	Sigs    []signature.Signature
	SigP    *signature.Signature
	X       key.ExtendedKey
	XP      *key.ExtendedKey
	At      types.Timestamp
	AtP     *types.Timestamp
	For     types.Duration
	ForP    *types.Duration
	Times   []types.Timestamp
	Spans   []types.Duration
	ByTime  map[types.Timestamp]types.Ndau
	BySpan  map[types.Duration]eai.Rate
	N       types.Ndau
	Price   pricecurve.Nanocent
	Row     eai.RTRow
	RowP    *eai.RTRow
	Table   eai.RateTable
	Steps   eai.RateSlice
	Set     bitset256.Bitset256
	Nothing *types.Timestamp
}

type docCase struct {
	Kind       int
	Seed       fw.Hex
	Al         int
	Extra, Msg fw.Hex
	Chain      fw.Hex
	Depth      int
	Public     bool
	T1, T2     fw.I
	D1, D2     fw.I
	N1, P1     fw.I
	R1, R2     fw.I
	B1, B2     fw.U
}

const end9999 = 8000*365*86400e6 + 1940*86400e6 - 1 // the last microsecond of the year 9999

func genDoc(t *rapid.T) docCase {
	c := docCase{Kind: fw.Int(t, 0, len(ref.Kinds)-1, "kind"), Seed: fw.BytesN(t, 32, "seed"), Al: fw.Int(t, 1, 2, "al"), Extra: fw.Bytes(t, 0, 50, "extra"), Msg: fw.Bytes(t, 0, 40, "msg"),
		Chain: fw.BytesN(t, 32, "chain"), Depth: fw.Int(t, 0, 255, "depth"), Public: rapid.Bool().Draw(t, "public")}
	c.T1, c.T2 = fw.I(fw.NonNeg(t, "t1", 86400e6, 1e6)%end9999), fw.I(fw.NonNeg(t, "t2", 86400e6, 1e6)%end9999)
	units := []uint64{365 * 86400e6, 30 * 86400e6, 86400e6, 3600e6, 60e6, 1e6}
	c.D1, c.D2 = fw.I(fw.Signed(t, "d1", units...)), fw.I(fw.Signed(t, "d2", units...))
	c.N1, c.P1 = fw.I(fw.Signed(t, "n", 1e8)), fw.I(fw.Signed(t, "p", 1e11))
	c.R1, c.R2 = fw.I(fw.NonNeg(t, "r1", 1e10)), fw.I(fw.NonNeg(t, "r2", 1e10, 1e8))
	if fw.Chance(t, 1, 8, "zero") {
		c.R1, c.R2 = 0, 0
	}
	c.B1, c.B2 = fw.U(fw.U64(t, "b1")), fw.U(fw.U64(t, "b2"))
	return c
}

// make builds the document and the texts by which some of it has to appear.
func (c docCase) make() (d document, want map[string]string, err error) {
	n := new(big.Int).SetBytes(c.Seed)
	n.Mod(n, ref.N)
	if n.Sign() == 0 {
		n.SetInt64(1)
	}
	x := ref.XKey{Priv: true, Key: ref.B32Int(n), Chain: c.Chain, FP: c.Chain[:3], Depth: c.Depth, Num: uint32(c.B1)}
	want = map[string]string{}
	text, _ := ref.Address(ref.Kinds[c.Kind], append(x.Pub(), c.Extra...))
	if d.Addr, err = address.Validate(text); err != nil {
		return
	}
	a2 := d.Addr
	d.AddrP, d.Funds = &a2, map[address.Address]types.Ndau{a2: types.Ndau(c.N1)}
	want["Addr"], want["AddrP"] = text, text
	if c.Al == 2 {
		pub, err := signature.RawPublicKey(signature.Secp256k1, x.Pub(), c.Extra.Clone())
		if err != nil {
			return d, nil, err
		}
		pvt, err := signature.RawPrivateKey(signature.Secp256k1, x.Key, c.Extra.Clone())
		if err != nil {
			return d, nil, err
		}
		d.Pub, d.Pvt = *pub, *pvt
	} else {
		pub, pvt, err := signature.Generate(signature.Ed25519, bytes.NewReader(append(c.Seed.Clone(), c.Seed...)))
		if err != nil {
			return d, nil, err
		}
		d.Pub, d.Pvt = pub, pvt
	}
	want["Pub"] = ref.KeyText(false, byte(c.Al), d.Pub.KeyBytes(), d.Pub.ExtraBytes())
	want["Pvt"] = ref.KeyText(true, byte(c.Al), d.Pvt.KeyBytes(), d.Pvt.ExtraBytes())
	want["PubP"], want["PvtP"] = want["Pub"], want["Pvt"]
	p1, p2 := d.Pub, d.Pvt
	d.PubP, d.PvtP = &p1, &p2
	sig := d.Pvt.Sign(c.Msg)
	d.Sigs, d.SigP = []signature.Signature{sig, sig}, &sig
	want["SigP"] = ref.SigText(byte(c.Al), sig.Bytes())
	if c.Public {
		x = x.Neuter()
	}
	want["X"], want["XP"] = x.Text(), x.Text()
	if err = d.X.UnmarshalText([]byte(x.Text())); err != nil {
		return
	}
	d.XP = new(key.ExtendedKey)
	if err = d.XP.UnmarshalText([]byte(x.Text())); err != nil {
		return
	}
	d.At, d.For = types.Timestamp(c.T1), types.Duration(c.D1)
	t2, d2 := types.Timestamp(c.T2), types.Duration(c.D2)
	d.AtP, d.ForP = &t2, &d2
	stamp := func(v fw.I) string {
		return time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(0).AddDate(0, 0, int(int64(v)/86400e6)).Add(time.Duration(int64(v)%86400e6) * time.Microsecond).Format("2006-01-02T15:04:05.000000Z")
	}
	want["At"], want["AtP"] = stamp(c.T1), stamp(c.T2)
	d.Times, d.Spans = []types.Timestamp{d.At, t2, d.At}, []types.Duration{d.For, d2}
	d.ByTime = map[types.Timestamp]types.Ndau{d.At: 1, t2: types.Ndau(c.N1)}
	d.BySpan = map[types.Duration]eai.Rate{d.For: 1, d2: eai.Rate(c.R1)}
	d.N, d.Price = types.Ndau(c.N1), pricecurve.Nanocent(c.P1)
	want["N"], want["Price"] = fmt.Sprint(int64(c.N1)), fmt.Sprint(int64(c.P1))
	d.Row = eai.RTRow{From: d2, Rate: eai.Rate(c.R2)}
	row := d.Row
	d.RowP = &row
	d.Table = eai.RateTable{{From: d.For, Rate: eai.Rate(c.R1)}, row, {}}
	d.Steps = eai.RateSlice{{Duration: d2, Rate: eai.Rate(c.R2)}, {}}
	d.Set = bitset256.Bitset256{uint64(c.B1), uint64(c.B2), 0, 1}
	return
}

func judgeDoc(c docCase, o *fw.Obs) error {
	d, want, err := c.make()
	if err != nil {
		return fw.Errf("%v", err)
	}
	j, err := json.Marshal(d)
	if err != nil {
		return fw.Errf("json: %v", err)
	}
	// what it looks like
	dec := json.NewDecoder(bytes.NewReader(j))
	dec.UseNumber()
	var m map[string]any
	if err := dec.Decode(&m); err != nil {
		return fw.Errf("%s: %v", j, err)
	}
	for f, w := range want {
		if got := fmt.Sprint(m[f]); got != w {
			return fw.Errf("%s appears as %q, want %q", f, got, w)
		}
	}
	if _, text := m["For"].(string); !text {
		return fw.Errf("For appears as %v", m["For"])
	}
	// what is read back
	var back document
	if err := json.Unmarshal(j, &back); err != nil {
		return fw.Errf("%s: %v", j, err)
	}
	if err := same(d, back); err != nil {
		return fw.Errf("read back from %s: %v", j, err)
	}
	j2, err := json.Marshal(&back)
	if err != nil || !bytes.Equal(j, j2) {
		return fw.Errf("written as %s, again as %s, %v", j, j2, err)
	}
	// over a document with other contents
	alt := c
	alt.Seed = append(alt.Seed[1:].Clone(), alt.Seed[0]^1)
	alt.Al, alt.Public, alt.Extra = 3-c.Al, !c.Public, fw.Hex("another")
	alt.T1, alt.D1, alt.N1, alt.P1, alt.D2, alt.T2 = c.T2, c.D2, c.P1, c.N1^1, 77, 99
	alt.R1, alt.R2, alt.B1, alt.B2 = c.R2/3, c.R1/7+1, ^c.B1, c.B1
	used, _, err := alt.make()
	if err != nil {
		return fw.Errf("%v", err)
	}
	used.Funds, used.ByTime, used.BySpan = nil, nil, nil // these are added to
	if err := json.Unmarshal(j, &used); err != nil {
		return fw.Errf("%s: %v", j, err)
	}
	if err := same(d, used); err != nil {
		return fw.Errf("read from %s over another document: %v", j, err)
	}
	// copies of what was read stay when the variable is used again and the
	// text is gone
	text := bytes.Clone(j)
	var kept, next document
	if err := json.Unmarshal(text, &kept); err != nil {
		return fw.Errf("%s: %v", text, err)
	}
	next = kept
	next.X = key.ExtendedKey{} // wipes what it held, copies included
	next.AddrP, next.PubP, next.PvtP, next.Sigs, next.SigP, next.XP, next.AtP, next.ForP = nil, nil, nil, nil, nil, nil, nil, nil
	next.Funds, next.ByTime, next.BySpan, next.Times, next.Spans, next.RowP, next.Table, next.Steps = nil, nil, nil, nil, nil, nil, nil, nil
	other, _, err := alt.make()
	if err != nil {
		return fw.Errf("%v", err)
	}
	jo, err := json.Marshal(other)
	if err != nil {
		return fw.Errf("json: %v", err)
	}
	if err := json.Unmarshal(jo, &next); err != nil {
		return fw.Errf("%s: %v", jo, err)
	}
	for i := range text {
		text[i] = 'x'
	}
	if err := same(d, kept); err != nil {
		return fw.Errf("a copy of what was read from %s, after another document was read: %v", j, err)
	}
	if err := same(other, next); err != nil {
		return fw.Errf("read from %s over the first document: %v", jo, err)
	}
	o.NT()
	o.Label(fmt.Sprintf("alg-%d", c.Al))
	return nil
}

// same compares documents field by field; keys and signatures by what they
// hold.
func same(a, b document) error {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < va.NumField(); i++ {
		name := va.Type().Field(i).Name
		x, y := va.Field(i).Interface(), vb.Field(i).Interface()
		if tm, ok := x.(interface{ MarshalText() ([]byte, error) }); ok && name != "Nothing" {
			tx, e1 := tm.MarshalText()
			ty, e2 := y.(interface{ MarshalText() ([]byte, error) }).MarshalText()
			if e1 != nil || e2 != nil || !bytes.Equal(tx, ty) {
				return fw.Errf("%s is %s, %v, want %s, %v", name, ty, e2, tx, e1)
			}
			continue
		}
		if name == "Sigs" {
			if len(a.Sigs) != len(b.Sigs) {
				return fw.Errf("%d signatures, want %d", len(b.Sigs), len(a.Sigs))
			}
			for k := range a.Sigs {
				if !bytes.Equal(a.Sigs[k].Bytes(), b.Sigs[k].Bytes()) || !signature.SameAlgorithm(a.Sigs[k].Algorithm(), b.Sigs[k].Algorithm()) {
					return fw.Errf("signature %d is %x, want %x", k, b.Sigs[k].Bytes(), a.Sigs[k].Bytes())
				}
			}
			continue
		}
		if !reflect.DeepEqual(x, y) {
			return fw.Errf("%s is %v, want %v", name, y, x)
		}
	}
	for _, k := range [][2]signature.Key{{&a.Pub, &b.Pub}, {&a.Pvt, &b.Pvt}, {a.PubP, b.PubP}, {a.PvtP, b.PvtP}} {
		if !signature.SameAlgorithm(k[0].Algorithm(), k[1].Algorithm()) || !bytes.Equal(k[0].KeyBytes(), k[1].KeyBytes()) || !bytes.Equal(k[0].ExtraBytes(), k[1].ExtraBytes()) {
			return fw.Errf("a key is %x %x, want %x %x", k[1].KeyBytes(), k[1].ExtraBytes(), k[0].KeyBytes(), k[0].ExtraBytes())
		}
	}
	if a.At != b.At || a.For != b.For || *a.AtP != *b.AtP || *a.ForP != *b.ForP || a.Row != b.Row || a.Addr != b.Addr {
		return fw.Errf("times %d %d %d %d, want %d %d %d %d; rows %v, %v", b.At, b.For, *b.AtP, *b.ForP, a.At, a.For, *a.AtP, *a.ForP, b.Row, a.Row)
	}
	return nil
}

func c45() fw.Property {
	return fw.Property{
		ID:          "C45",
		Rule:        "documents which are written, looked at and read back twice",
		Assumptions: []string{"the decimal library is replaced by /verif/shim/decimal (exact integers), because its source is not available offline", "timestamps up to the year 9999, rates not negative; copies of an extended key are not kept, because it wipes what it held; maps are read into empty maps, because encoding/json adds to what is there"},
		Subs: []fw.Sub{fw.Fit(fw.Prop("documents", 12000, 240000, genDoc, judgeDoc), func(c *docCase) bool {
			c.Kind = (c.Kind & 0xffff) % len(ref.Kinds)
			fit := func(h *fw.Hex, n int) {
				*h = append(*h, make([]byte, n)...)[:n]
			}
			fit(&c.Seed, 32)
			fit(&c.Chain, 32)
			c.Al = 1 + c.Al&1
			c.Depth &= 255
			c.T1 = c.T1 & (1<<62 - 1) % end9999
			c.T2 = c.T2 & (1<<62 - 1) % end9999
			c.R1 &= 1<<63 - 1
			c.R2 &= 1<<63 - 1
			return true
		})},
	}
}
