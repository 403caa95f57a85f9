package main

import (
	"encoding/base64"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/ndau/ndaumath/pkg/words"
	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// ---- C47: what calls take

// costCase is a call with a long or odd input: Pre, N times Unit, Post.
type costCase struct {
	Fn              string
	Pre, Unit, Post fw.Hex
	N               int
	A, B, C         fw.I
}

func (c costCase) data() []byte {
	out := make([]byte, 0, len(c.Pre)+len(c.Unit)*c.N+len(c.Post))
	out = append(out, c.Pre...)
	for i := 0; i < c.N; i++ {
		out = append(out, c.Unit...)
	}
	return append(out, c.Post...)
}

type costLock struct {
	notice types.Duration
	uo     *types.Timestamp
	bonus  eai.Rate
}

func (l costLock) GetNoticePeriod() types.Duration { return l.notice }
func (l costLock) GetUnlocksOn() *types.Timestamp  { return l.uo }
func (l costLock) GetBonusRate() eai.Rate          { return l.bonus }

// costFn is what is called; example inputs are cut, repeated and altered.
type costFn struct {
	call     func(s string, b []byte, a, x, y int64)
	examples []string
	none     bool // takes numbers only
}

var (
	costFns   map[string]*costFn
	costNames []string
	costOnce  sync.Once
)

func costInit() {
	seed := []byte("recovery bytes..")
	x, err := ref.Master(seed)
	if err != nil {
		panic(err)
	}
	pub := x
	pub.Priv, pub.Key = false, x.Pub()
	addr, _ := ref.Address('a', x.Pub())
	npvt, npub := x.Text(), pub.Text()
	phrase := strings.Join(ref.Phrase(seed), " ")
	b64 := base64.StdEncoding.EncodeToString
	epub, epvt, err := signature.Generate(signature.Ed25519, nil)
	if err != nil {
		panic(err)
	}
	sig := epvt.Sign(seed)
	text := func(v interface{ MarshalText() ([]byte, error) }) string { b, _ := v.MarshalText(); return string(b) }
	mbin := func(v interface{ Marshal() ([]byte, error) }) string { b, _ := v.Marshal(); return string(b) }
	msg := func(v interface {
		MarshalMsg([]byte) ([]byte, error)
	}) string {
		b, _ := v.MarshalMsg(nil)
		return string(b)
	}
	keys := []string{npvt, npub, text(epub), text(epvt)}
	master, err := key.NewMaster(seed)
	if err != nil {
		panic(err)
	}
	table := eai.RateTable{{From: 5, Rate: 7}, {From: 1 << 40, Rate: 1 << 41}, {From: 1 << 50, Rate: 1 << 50}}
	numbers := []string{"\xcf\xff\xff\xff\xff\xff\xff\xff\xff", "\xd3\x80\x00\x00\x00\x00\x00\x00\x00", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff"}
	rows := []string{msg(table), msg(&table[1]), "\x93\x92\x05\x07", "\xdc\x00\x01\x92\x05\x07"}
	T := func(ex []string, f func(s string)) *costFn {
		return &costFn{call: func(s string, _ []byte, _, _, _ int64) { f(s) }, examples: ex}
	}
	B := func(ex []string, f func(b []byte)) *costFn {
		return &costFn{call: func(_ string, b []byte, _, _, _ int64) { f(b) }, examples: ex}
	}
	N := func(f func(a, x, y int64)) *costFn {
		return &costFn{call: func(_ string, _ []byte, a, x, y int64) { f(a, x, y) }, none: true}
	}
	dates := []string{"2019-05-06T07:08:09.123456Z", "2000-01-01T00:00:00Z"}
	spans := []string{"1y2m3dt4h5m6s7us", "-3dt7us", "99y"}
	costFns = map[string]*costFn{
		"b32.Decode":             T([]string{"abcdefgh", "a6======"}, func(s string) { b32.Decode(s) }),
		"b32.Encode":             B([]string{addr}, func(b []byte) { b32.Encode(b) }),
		"b32.Checksum":           B([]string{addr}, func(b []byte) { b32.Checksum16(b); b32.Checksum24(b); b32.Check(b, b) }),
		"address.Validate":       T([]string{addr}, func(s string) { address.Validate(s) }),
		"address.UnmarshalText":  B([]string{addr}, func(b []byte) { new(address.Address).UnmarshalText(b) }),
		"address.UnmarshalMsg":   B([]string{"\x81\xa4Addr\xd9\x30" + addr, "\x81\xa4Addr\xdb\xff\xff\xff\xff"}, func(b []byte) { new(address.Address).UnmarshalMsg(b) }),
		"address.Generate":       B([]string{string(x.Pub())}, func(b []byte) { address.Generate('a', b) }),
		"address.ParseKind":      T([]string{"user", "ndau", "a"}, func(s string) { address.ParseKind(s) }),
		"bitset256.FromHex":      T([]string{strings.Repeat("0f", 32)}, func(s string) { bitset256.FromHex(s) }),
		"bitset256.FromBytes":    B([]string{strings.Repeat("\x0f", 32)}, func(b []byte) { bitset256.FromBytes(b) }),
		"bitset256.New":          B([]string{"\x01\xff"}, func(b []byte) { bitset256.New(b...).Indices() }),
		"key.UnmarshalText":      B(keys, func(b []byte) { new(key.ExtendedKey).UnmarshalText(b) }),
		"key.FromOld":            T(keys, func(s string) { key.FromOldSerialization(s) }),
		"key.NewMaster":          B([]string{string(seed)}, func(b []byte) { key.NewMaster(b) }),
		"key.DeriveFrom":         T([]string{"/44'/20036'/100/1", "/1", "/"}, func(s string) { master.DeriveFrom("/", s) }),
		"key.DeriveFromParent":   T([]string{"/44'/20036'/100/1", "/1", "/"}, func(s string) { master.DeriveFrom(s, s+"/1") }),
		"signature.ParseKey":     T(keys, func(s string) { signature.ParseKey(s) }),
		"signature.ParsePublic":  T(keys, func(s string) { signature.MaybePublic(s); signature.ParsePublicKey(s) }),
		"signature.ParsePrivate": T(keys, func(s string) { signature.MaybePrivate(s); signature.ParsePrivateKey(s) }),
		"signature.Parse":        T([]string{text(sig)}, func(s string) { signature.ParseSignature(s) }),
		"signature.Unmarshal": B([]string{mbin(sig), mbin(epub), mbin(epvt)}, func(b []byte) {
			new(signature.Signature).Unmarshal(b)
			new(signature.PublicKey).Unmarshal(b)
			new(signature.PrivateKey).Unmarshal(b)
		}),
		"signature.UnmarshalMsg": B([]string{msg(&sig), msg(&epub), msg(&epvt)}, func(b []byte) {
			new(signature.Signature).UnmarshalMsg(b)
			new(signature.PublicKey).UnmarshalMsg(b)
			new(signature.PrivateKey).UnmarshalMsg(b)
		}),
		"signature.Checksum": B([]string{"\x05abcde"}, func(b []byte) { signature.CheckChecksum(b); signature.AddChecksum(b) }),
		"signature.Raw": B([]string{string(epub.KeyBytes())}, func(b []byte) {
			if p, err := signature.RawPublicKey(signature.Ed25519, epub.KeyBytes(), b); err == nil {
				bin, _ := p.Marshal()
				new(signature.PublicKey).Unmarshal(bin)
				text, _ := p.MarshalText()
				signature.ParseKey(string(text))
				_ = p.String()
			}
			if p, err := signature.RawSignature(signature.Secp256k1, b); err == nil {
				text, _ := p.MarshalText()
				signature.ParseSignature(string(text))
			}
		}),
		"signature.Sign":        B([]string{"message"}, func(b []byte) { s := epvt.Sign(b); s.Verify(b, epub) }),
		"keyaddr.NewKey":        T([]string{b64(seed)}, func(s string) { keyaddr.NewKey(s) }),
		"keyaddr.FromString":    T(keys, func(s string) { keyaddr.FromString(s) }),
		"keyaddr.FromOldString": T(keys, func(s string) { keyaddr.FromOldString(s) }),
		"keyaddr.DeriveFrom":    T([]string{"/44'/20036'/100/1", "/1"}, func(s string) { keyaddr.DeriveFrom(npvt, "/", s) }),
		"keyaddr.DeriveFromKey": T(keys, func(s string) { keyaddr.DeriveFrom(s, "/", "/1") }),
		"keyaddr.Key": T(keys, func(s string) {
			k := &keyaddr.Key{Key: s}
			k.ToPublic()
			k.IsPrivate()
			k.NdauAddress()
			k.Sign("YWJj")
			k.Child(1)
		}),
		"keyaddr.Sign":           T([]string{b64(seed)}, func(s string) { (&keyaddr.Key{Key: npvt}).Sign(s) }),
		"keyaddr.WordsFromBytes": T([]string{b64(seed)}, func(s string) { w, _ := keyaddr.WordsFromBytes("en", s); keyaddr.WordsToBytes("en", w) }),
		"keyaddr.WordsToBytes":   T([]string{phrase}, func(s string) { keyaddr.WordsToBytes("en", s) }),
		"keyaddr.Language":       T([]string{"en", "EN"}, func(s string) { keyaddr.WordsToBytes(s, phrase); keyaddr.WordsFromPrefix(s, "a", 3) }),
		"words.FromBytes":        B([]string{string(seed)}, func(b []byte) { w, _ := words.FromBytes("en", b); words.ToBytes("en", w) }),
		"words.ToBytes":          T([]string{phrase}, func(s string) { words.ToBytes("en", strings.Split(s, " ")) }),
		"words.FromPrefix": {examples: []string{"ab", "zoo"}, call: func(s string, _ []byte, a, _, _ int64) {
			words.FromPrefix("en", s, int(a))
			keyaddr.WordsFromPrefix("en", s, int(a))
		}},
		"types.ParseDuration":  T(spans, func(s string) { types.ParseDuration(s); new(types.Duration).UnmarshalText([]byte(s)) }),
		"types.ParseTimestamp": T(dates, func(s string) { types.ParseTimestamp(s); new(types.Timestamp).UnmarshalText([]byte(s)) }),
		"types.ParseNdau":      T([]string{"12.34567891", "-0.5", "7"}, func(s string) { types.ParseNdau(s) }),
		"types.UnmarshalMsg": B(numbers, func(b []byte) {
			new(types.Ndau).UnmarshalMsg(b)
			new(types.Duration).UnmarshalMsg(b)
			new(types.Timestamp).UnmarshalMsg(b)
			new(pricecurve.Nanocent).UnmarshalMsg(b)
		}),
		"eai.ParseRate": T([]string{"12.0345678912%", "7%"}, func(s string) { eai.ParseRate(s) }),
		"eai.RTRow":     B([]string{"3m:7%", "1y2m3dt4h5m6s7us:0.5%"}, func(b []byte) { new(eai.RTRow).UnmarshalText(b) }),
		"eai.UnmarshalMsg": B(append(rows, numbers...), func(b []byte) {
			new(eai.RTRow).UnmarshalMsg(b)
			new(eai.RSRow).UnmarshalMsg(b)
			new(eai.Rate).UnmarshalMsg(b)
			if len(b) == 0 || b[0] != 0xdd {
				new(eai.RateTable).UnmarshalMsg(b)
				new(eai.RateSlice).UnmarshalMsg(b)
			}
		}),
		"signature.Container": B(append([]string{"\x92\x01\xc4\x03abc", "\x92\x01\xc6\xff\xff\xff\xff"}, numbers...), func(b []byte) {
			new(signature.IdentifiedData).UnmarshalMsg(b)
			new(signature.AlgorithmID).UnmarshalMsg(b)
		}),
		"pricecurve.ParseDollars": T([]string{"$12.34", "1,234,567.89", "7", "-0.12345678901"}, func(s string) { pricecurve.ParseDollars(s) }),
		"pricecurve.Price": N(func(a, x, _ int64) {
			pricecurve.PriceAtUnit(types.Ndau(a))
			pricecurve.PriceAtUnit10000(types.Ndau(x))
			pricecurve.ApproxPriceAtUnit(types.Ndau(a))
		}),
		"pricecurve.UnitAt": N(func(a, _, _ int64) { pricecurve.ApproxUnitAtPrice(float64(a)) }),
		"types.Numbers": N(func(a, x, y int64) {
			_ = types.Ndau(a).String()
			_ = types.Duration(x).String()
			_ = types.Timestamp(y).String()
			d := types.Duration(a)
			d.UpdateWeightedAverageAge(types.Duration(x), types.Ndau(y), types.Ndau(a))
		}),
		"math.Numbers": N(func(a, x, y int64) {
			signed.MulDiv(a, x, y)
			unsigned.MulDiv(uint64(a), uint64(x), uint64(y))
			signed.ExpFrac(a, x)
			unsigned.ExpFrac(uint64(a), uint64(x))
			if a > 0 {
				unsigned.LnInt(uint64(a))
			}
		}),
		"key.Child": N(func(a, _, _ int64) { master.Child(uint32(a)); master.HardenedChild(uint32(a)) }),
		"eai.Tables": B([]string{"\x01\x02\x03"}, func(b []byte) {
			var rt eai.RateTable
			for i, x := range b[:min(len(b), 2000)] {
				rt = append(rt, eai.RTRow{From: types.Duration(i) << 20, Rate: eai.Rate(x)})
			}
			rt.RateAt(1 << 60)
			sl := rt.SliceF(1<<20, 1<<60, 5, 1<<25)
			rt.MarshalMsg(nil)
			sl.MarshalMsg(nil)
		}),
		"eai.Slice": N(func(a, x, y int64) {
			eai.DefaultUnlockedEAI.SliceF(types.Duration(a), types.Duration(x), types.Duration(y), types.Duration(a^y))
		}),
		"eai.Calculate": N(func(a, x, y int64) {
			u := types.Timestamp(a ^ x)
			l := costLock{types.Duration(y & (1<<50 - 1)), &u, 3}
			if y&1 == 0 {
				l.uo = nil
			}
			fw.Panics(func() {
				eai.Calculate(types.Ndau(a), types.Timestamp(x), types.Timestamp(y), types.Duration(a^y), l, eai.DefaultUnlockedEAI, y&2 == 0)
			})
			eai.CalculateEAIRate(types.Duration(a), l, eai.DefaultUnlockedEAI, types.Timestamp(x))
		}),
	}
	for n := range costFns {
		costNames = append(costNames, n)
	}
	sort.Strings(costNames)
	// what is made once
	for _, n := range costNames {
		f := costFns[n]
		for _, e := range append(f.examples, "") {
			fw.Panics(func() { f.call(e, []byte(e), 3, 2, 1) })
		}
	}
}

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func judgeCost(c costCase, o *fw.Obs) error {
	costOnce.Do(costInit)
	f := costFns[c.Fn]
	if f == nil || c.N < 0 {
		return nil
	}
	b := c.data()
	s := string(b)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t0 := cpu()
	fw.Panics(func() { f.call(s, b, int64(c.A), int64(c.B), int64(c.C)) }) // crashes are judged elsewhere
	t := cpu() - t0
	runtime.ReadMemStats(&m1)
	room := m1.TotalAlloc - m0.TotalAlloc
	o.Label(c.Fn)
	o.NTIf(len(b) > 10000 || f.none)
	if most := uint64(64<<20 + 1000*len(b)); room > most {
		return fw.Errf("%s allocates %d bytes for an input of %d, more than %d", c.Fn, room, len(b), most)
	}
	if most := 2*time.Second + time.Duration(len(b))*10*time.Microsecond; t > most {
		return fw.Errf("%s takes %v for an input of %d bytes, more than %v", c.Fn, t, len(b), most)
	}
	return nil
}

func genCost(t *rapid.T) costCase {
	costOnce.Do(costInit)
	c := costCase{Fn: costNames[fw.Int(t, 0, len(costNames)-1, "fn")]}
	f := costFns[c.Fn]
	c.A, c.B, c.C = fw.I(fw.Signed(t, "a", 1e8, 1<<40)), fw.I(fw.Signed(t, "b", 1e8, 1e12)), fw.I(fw.Signed(t, "c", 1e8, 1e12))
	if f.none {
		return c
	}
	ex := fw.Pick(t, "example", f.examples...)
	i := fw.Int(t, 0, len(ex), "i")
	j := fw.Int(t, i, len(ex), "j")
	c.Pre, c.Unit, c.Post = fw.Hex(ex[:i]), fw.Hex(ex[i:j]), fw.Hex(ex[j:])
	switch fw.Int(t, 0, 7, "unit") {
	case 3, 4:
		// a part between separators
		at := []int{0}
		for i := range ex {
			if strings.IndexByte(" /:.-", ex[i]) >= 0 {
				at = append(at, i+1)
			}
		}
		at = append(at, len(ex))
		i := fw.Int(t, 0, len(at)-2, "from")
		j := fw.Int(t, i+1, len(at)-1, "to")
		c.Pre, c.Unit, c.Post = fw.Hex(ex[:at[i]]), fw.Hex(ex[at[i]:at[j]]), fw.Hex(ex[at[i]:])
	case 0:
		c.Unit = fw.Hex(fw.Pick(t, "one", " ", "0", "9", "a", "=", "/", "/1", "'", ".", ":", "\x00", "\xff", "\n", "-", "%", "é", "\xdd\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff"))
	case 1:
		c.Unit = fw.Bytes(t, 1, 12, "any")
	case 2:
		if i < len(ex) {
			c.Unit = fw.Hex(ex[i : i+1])
		}
	}
	if len(c.Unit) == 0 {
		c.Unit = fw.Hex(ex)
	}
	size := fw.Pick(t, "size", 0, 100, 5000, 60000, 200000, 400000)
	c.N = size / len(c.Unit)
	if fw.Chance(t, 1, 3, "nopost") {
		c.Post = nil
	}
	if fw.Chance(t, 1, 3, "nopre") {
		c.Pre = nil
	}
	return c
}

func c47() fw.Property {
	return fw.Property{
		ID:   "C47",
		Rule: "inputs of more than ten thousand bytes, and numbers of any size",
		Assumptions: []string{
			"room: bytes allocated during the call, at most 64 MB and a thousand times the input; time: the process's own, at most 2 s and 10 us per byte of input",
			"stream readers (DecodeMsg) and lists of rates with a 32-bit length are not judged here (see C32)",
		},
		Subs: []fw.Sub{fw.NoNear(fw.Prop("calls", 20000, 300000, genCost, judgeCost))},
	}
}
