package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/ndau/ndaumath/pkg/words"
	"github.com/tinylib/msgp/msgp"
)

// padded is the argument brought to n bytes; if it already has them, it is
// the argument itself.
func (a *arena) padded(i, n int) []byte {
	b := a.bytes(i)
	if len(b) >= n {
		return b[:n:n]
	}
	p := make([]byte, n)
	copy(p, b)
	for k := len(b); k < n; k++ {
		p[k] = byte(k)
	}
	return a.give(p)
}

var kinds = []byte("anextbm")

var algs = []signature.Algorithm{signature.Ed25519, signature.Secp256k1, signature.Null}

// keypair makes a key pair from a byte argument.
func (a *arena) keypair(i int, n int64) (*signature.PublicKey, *signature.PrivateKey, error) {
	switch n % 3 {
	case 0:
		// generation need not be a function of the reader, so only the
		// relation of the two keys is a result
		pub, pvt, err := signature.Generate(signature.Ed25519, bytes.NewReader(a.padded(i, 64)))
		a.out(err)
		if err == nil {
			a.out(signature.Match(pub, pvt), len(pub.KeyBytes()), len(pvt.KeyBytes()))
		}
		seed := a.padded(i, 32)
		pvb := append(append([]byte(nil), seed...), edPublic(seed)...)
		p2, err := signature.RawPrivateKey(signature.Ed25519, pvb, nil)
		if err != nil {
			return nil, nil, err
		}
		if err != nil {
			return nil, nil, err
		}
		q2, err := signature.RawPublicKey(signature.Ed25519, edPublic(seed), nil)
		return q2, p2, err
	case 1:
		k, err := key.NewMaster(a.padded(i, 32))
		if err != nil {
			return nil, nil, err
		}
		pv, err := k.SPrivKey()
		if err != nil {
			return nil, nil, err
		}
		pb, err := k.SPubKey()
		return pb, pv, err
	}
	pb, err := signature.RawPublicKey(signature.Null, nil, a.bytes(i))
	if err != nil {
		return nil, nil, err
	}
	pv, err := signature.RawPrivateKey(signature.Null, nil, a.bytes(i+1))
	return pb, pv, err
}

func (a *arena) outKey(k signature.Key, err error) {
	a.out(err)
	if err == nil && k != nil {
		a.out(signature.NameOf(k.Algorithm()), k.KeyBytes(), k.ExtraBytes(), signature.IsPublic(k), signature.IsPrivate(k))
	}
}

func (a *arena) outXKey(k *key.ExtendedKey, err error) {
	a.out(err)
	if err == nil {
		t, terr := k.MarshalText()
		a.out(t, terr, k.Bytes(), k.Depth(), k.IsPrivate(), k.ParentFingerprint(), k.PubKeyBytes())
	}
}

func (a *arena) outWKey(k *keyaddr.Key, err error) {
	a.out(err)
	if k != nil {
		a.out(k.Key)
	}
}

func (a *arena) wallet(c Call) string {
	s := a.text(c.A)
	if strings.HasPrefix(s, "npvt") || strings.HasPrefix(s, "npub") {
		return s
	}
	k, err := key.NewMaster(a.padded(c.A, 32))
	if err != nil {
		return s
	}
	if c.N%2 == 1 {
		k, _ = k.Public()
	}
	t, _ := k.MarshalText()
	return string(t)
}

type lock struct {
	notice types.Duration
	bonus  eai.Rate
	uo     *types.Timestamp
}

func (l lock) GetNoticePeriod() types.Duration { return l.notice }
func (l lock) GetUnlocksOn() *types.Timestamp  { return l.uo }
func (l lock) GetBonusRate() eai.Rate          { return l.bonus }

// table makes a rate table from a byte argument.
func (a *arena) table(i int) eai.RateTable {
	var rt eai.RateTable
	from := types.Duration(0)
	for _, b := range a.padded(i, 6)[:6] {
		rt = append(rt, eai.RTRow{From: from, Rate: eai.RateFromPercent(uint64(b % 12))})
		from += types.Duration(types.Day) * types.Duration(1+b%64)
	}
	// spare capacity, and a record of it all
	rt = append(rt, make(eai.RateTable, 4)...)[:6]
	a.keep("rate table", rt[:10])
	return rt
}

func (a *arena) lock(c Call) eai.Lock {
	if c.N%3 == 0 {
		return nil
	}
	l := lock{notice: types.Duration(types.Day) * types.Duration(c.N%400), bonus: eai.RateFromPercent(uint64(c.N % 5))}
	if c.N%3 == 2 {
		u := types.Timestamp(types.Year) * types.Timestamp(2+c.N%3)
		l.uo = &u
	}
	return l
}

func w64(b []byte) (v uint64) {
	for i := 0; i < 8 && i < len(b); i++ {
		v = v<<8 | uint64(b[i])
	}
	return v >> (b0(b) % 64)
}

func b0(b []byte) byte {
	if len(b) == 0 {
		return 0
	}
	return b[len(b)-1]
}

var catalogue = map[string]func(a *arena, c Call){
	"address.Generate": func(a *arena, c Call) {
		x, err := address.Generate(kinds[c.N%int64(len(kinds))], a.bytes(c.A))
		a.out(x.String(), err)
		if err == nil {
			t, terr := x.MarshalText()
			m, merr := x.MarshalMsg(nil)
			a.out(x.Kind(), t, terr, m, merr, x.Revalidate())
		}
	},
	"address.Validate": func(a *arena, c Call) {
		x, err := address.Validate(a.text(c.A))
		a.out(x.String(), err)
	},
	"address.UnmarshalText": func(a *arena, c Call) {
		var x address.Address
		err := x.UnmarshalText(a.give([]byte(a.text(c.A))))
		a.out(err)
		if err == nil {
			a.out(x.String())
		}
		if g, gerr := address.Generate('a', a.padded(c.B, 40)); gerr == nil {
			m, _ := g.MarshalMsg(nil)
			left, uerr := x.UnmarshalMsg(a.give(m))
			a.out(x.String(), len(left), uerr)
			var buf bytes.Buffer
			a.out(msgp.Encode(&buf, g))
			var y address.Address
			a.out(msgp.Decode(&buf, &y), y.String())
		}
	},
	"address.Kinds": func(a *arena, c Call) {
		a.out(address.IsValidKind(byte(c.N)))
		k, err := address.ParseKind(a.text(c.A))
		a.out(k, err)
		k, err = address.ParseKind(byte(c.N))
		a.out(k, err)
	},
	"b32.Encode": func(a *arena, c Call) { a.out(b32.Encode(a.bytes(c.A))) },
	"b32.Decode": func(a *arena, c Call) {
		b, err := b32.Decode(a.text(c.A))
		a.out(b, err)
		b, err = b32.Decode(b32.Encode(a.bytes(c.B)))
		a.out(b, err)
	},
	"b32.Index": func(a *arena, c Call) {
		s := a.text(c.A)
		if len(s) > 0 && s[0] < 0x80 {
			a.out(b32.Index(s[:1]))
		}
	},
	"b32.Checksum": func(a *arena, c Call) {
		k2, k3 := b32.Checksum16(a.bytes(c.A)), b32.Checksum24(a.bytes(c.A))
		a.out(k2, k3, b32.Check(a.bytes(c.A), k2), b32.Check(a.bytes(c.B), k2), b32.Check(a.bytes(c.A), a.padded(c.B, 2)))
	},
	"bitset.New": func(a *arena, c Call) {
		s := bitset256.New(a.bytes(c.A)...)
		a.out(s.Indices(), s.AsBytes(), s.AsHex(), s.String(), s.Count(), s.Get(byte(c.N)))
	},
	"bitset.From": func(a *arena, c Call) {
		s, err := bitset256.FromBytes(a.padded(c.A, 32))
		a.out(err)
		if err == nil {
			x := s.AsHex()
			a.out(x)
			r, err := bitset256.FromHex(x)
			a.out(err, r.Equals(s), r.Indices())
		}
		_, err = bitset256.FromBytes(a.bytes(c.B))
		a.out(err)
		_, err = bitset256.FromHex(a.text(c.B))
		a.out(err)
	},
	"bitset.Ops": func(a *arena, c Call) {
		s, r := bitset256.New(a.bytes(c.A)...), bitset256.New(a.bytes(c.B)...)
		before := s.AsBytes()
		a.out(before)
		u, x := s.Union(r), s.Intersect(r)
		a.out(u.Indices(), x.Indices(), s.Less(r), s.Equals(r), x.IsSubsetOf(s), s.IsSubsetOf(r))
		k := s.Clone().Set(byte(c.N)).Toggle(byte(c.N >> 3)).Clear(byte(c.N >> 5))
		a.out(k.Indices(), s.Indices(), u.Count())
		s.Toggle(byte(c.N))
		a.out(s.AsBytes(), u.AsBytes(), x.AsBytes(), r.AsBytes())
	},
	"bip32": func(a *arena, c Call) {
		l, r, err := bip32.NewMaster(a.bytes(c.A))
		a.out(fmt.Sprintf("%x %x", l, r), err)
		a.out(bip32.PrivateToPublic(a.padded(c.B, 32)))
		b, err := bip32.GenerateSeed(uint8(16+c.N%49), bytes.NewReader(a.padded(c.A, 64)))
		a.out(b, err)
	},
	"key.Master": func(a *arena, c Call) {
		k, err := key.NewMaster(a.bytes(c.A))
		a.outXKey(k, err)
	},
	"key.Child": func(a *arena, c Call) {
		k, err := key.NewMaster(a.padded(c.A, 16))
		a.out(err)
		if err != nil {
			return
		}
		if c.N%2 == 0 {
			k, err = k.Public()
			a.out(err)
		}
		t, err := k.Child(uint32(c.N))
		a.outXKey(t, err)
		h, err := k.HardenedChild(uint32(c.N))
		a.outXKey(h, err)
		a.outXKey(k, nil)
	},
	"key.Derive": func(a *arena, c Call) {
		k, err := key.NewMaster(a.padded(c.A, 16))
		a.out(err)
		if err != nil {
			return
		}
		d, err := k.DeriveFrom("/", a.text(c.B))
		a.outXKey(d, err)
		d, err = k.DeriveFrom("/", fmt.Sprintf("/%d/%d'", c.N%7, c.N%11))
		a.outXKey(d, err)
	},
	"key.Text": func(a *arena, c Call) {
		k := new(key.ExtendedKey)
		err := k.UnmarshalText(a.give([]byte(a.wallet(c))))
		a.outXKey(k, err)
		if err == nil {
			sk, err := k.AsSignatureKey()
			a.outKey(sk, err)
			if err == nil {
				k2, err := key.FromSignatureKey(sk)
				a.outXKey(k2, err)
			}
		}
		err = new(key.ExtendedKey).UnmarshalText(a.give([]byte(a.text(c.B))))
		a.out(err)
	},
	"key.Old": func(a *arena, c Call) {
		k, err := key.FromOldSerialization(a.text(c.A))
		a.out(err)
		if err == nil {
			a.outXKey(k, err)
		}
	},
	"key.EC": func(a *arena, c Call) {
		k, err := key.NewMaster(a.padded(c.A, 32))
		if err != nil {
			a.out(err)
			return
		}
		p, err := k.ECPrivKey()
		a.out(err)
		if err == nil {
			a.out(p.Serialize())
		}
		q, err := k.ECPubKey()
		a.out(err)
		if err == nil {
			a.out(q.SerializeCompressed())
		}
	},
	"sig.Sign": func(a *arena, c Call) {
		pb, pv, err := a.keypair(c.A, c.N)
		a.out(err)
		if err != nil {
			return
		}
		s := pv.Sign(a.bytes(c.B))
		a.out(s.Bytes(), pb.Verify(a.bytes(c.B), s), s.Verify(a.bytes(c.A), *pb), signature.Match(*pb, *pv))
		t, err := s.MarshalText()
		a.out(t, err)
		m, err := s.Marshal()
		a.out(m, err)
		m, err = s.MarshalMsg(nil)
		a.out(m, err)
		var r signature.Signature
		a.out(r.UnmarshalText(a.give(t)), r.Bytes())
		a.out(r.Unmarshal(a.give(m)), r.Bytes())
	},
	"sig.Keys": func(a *arena, c Call) {
		pb, pv, err := a.keypair(c.A, c.N)
		a.out(err)
		if err != nil {
			return
		}
		type full interface {
			signature.Key
			FullString() string
			Marshal() ([]byte, error)
		}
		for _, k := range []full{pb, pv} {
			a.outKey(k, nil)
			t, err := k.MarshalText()
			a.out(t, err, fmt.Sprint(k), k.FullString())
			back, err := signature.ParseKey(string(t))
			a.outKey(back, err)
			m, err := k.Marshal()
			a.out(m, err)
			m, err = k.MarshalMsg(nil)
			a.out(m, err)
		}
		var q signature.PublicKey
		m, _ := pb.MarshalMsg(nil)
		left, err := q.UnmarshalMsg(a.give(append(m, a.bytes(c.B)...)))
		a.out(left, err)
		a.outKey(&q, err)
		q.Truncate()
		a.outKey(&q, nil)
	},
	"sig.Raw": func(a *arena, c Call) {
		al := algs[c.N%3]
		pb, err := signature.RawPublicKey(al, a.padded(c.A, al.PublicKeySize()), a.bytes(c.B))
		a.out(err)
		if err == nil {
			t, terr := pb.MarshalText()
			a.out(t, terr)
		}
		pv, err := signature.RawPrivateKey(al, a.padded(c.A, al.PrivateKeySize()), a.bytes(c.B))
		a.out(err)
		if err == nil {
			t, terr := pv.MarshalText()
			a.out(t, terr)
		}
		s, err := signature.RawSignature(al, a.bytes(c.B))
		a.out(err)
		if err == nil {
			t, terr := s.MarshalText()
			a.out(t, terr, pb.Verify(a.bytes(c.A), *s))
		}
	},
	"sig.Parse": func(a *arena, c Call) {
		s := a.text(c.A)
		k, err := signature.ParseKey(s)
		if err != nil {
			k = nil
		}
		a.outKey(k, err)
		x, err := signature.ParsePublicKey(s)
		if err == nil {
			a.outKey(x, err)
		} else {
			a.out(err)
		}
		y, err := signature.ParsePrivateKey(s)
		if err == nil {
			a.outKey(y, err)
		} else {
			a.out(err)
		}
		_, err = signature.ParseSignature(s)
		a.out(err, signature.MaybePublic(s), signature.MaybePrivate(s))
		var p signature.PublicKey
		a.out(p.Unmarshal(a.bytes(c.B)))
		var g signature.Signature
		a.out(g.Unmarshal(a.bytes(c.B)))
	},
	"sig.Checksum": func(a *arena, c Call) {
		f := signature.AddChecksum(a.bytes(c.A))
		a.out(f)
		m, ok := signature.CheckChecksum(f)
		a.out(m, ok)
		m, ok = signature.CheckChecksum(a.bytes(c.B))
		a.out(m, ok)
	},
	"sig.Names": func(a *arena, c Call) {
		for _, x := range algs {
			for _, y := range algs {
				a.out(signature.SameAlgorithm(x, y))
			}
			a.out(signature.NameOf(x), x.PublicKeySize(), x.PrivateKeySize())
		}
	},
	"words.FromBytes": func(a *arena, c Call) {
		w, err := words.FromBytes("en", a.bytes(c.A))
		a.out(err)
		if err == nil {
			a.out(w)
			a.keep("phrase", w)
			b, err := words.ToBytes("en", w)
			a.out(b, err)
		}
	},
	"words.ToBytes": func(a *arena, c Call) {
		w := strings.Fields(a.text(c.A))
		a.keep("phrase", w)
		b, err := words.ToBytes("en", w)
		a.out(b, err)
	},
	"words.Prefix": func(a *arena, c Call) {
		a.out(words.FromPrefix("en", a.text(c.A), int(c.N%9)))
		p := string([]byte{'a' + byte(c.N%26), 'a' + byte(c.N>>3)%26})
		a.out(words.FromPrefix("en", p[:1+c.N%2], int(c.N%13)), words.FromPrefix("en", p, 5000))
	},
	"wallet.Key": func(a *arena, c Call) {
		k, err := keyaddr.FromString(a.wallet(c))
		a.outWKey(k, err)
		if err != nil || k == nil {
			return
		}
		p, err := k.ToPublic()
		a.outWKey(p, err)
		ch, err := k.Child(int32(c.N))
		a.outWKey(ch, err)
		ch, err = k.HardenedChild(int32(c.N))
		a.outWKey(ch, err)
		is, err := k.IsPrivate()
		a.out(is, err)
		ad, err := k.NdauAddress()
		a.out(err)
		if err == nil {
			a.out(ad.Address)
		}
		a.out(k.Key)
	},
	"wallet.Derive": func(a *arena, c Call) {
		k, err := keyaddr.DeriveFrom(a.wallet(c), "/", a.text(c.B))
		a.outWKey(k, err)
		k, err = keyaddr.DeriveFrom(a.wallet(c), "/", fmt.Sprintf("/44'/20036'/%d", c.N))
		a.outWKey(k, err)
	},
	"wallet.Sign": func(a *arena, c Call) {
		k, err := keyaddr.FromString(a.wallet(c))
		if err != nil {
			a.out(err)
			return
		}
		s, err := k.Sign(a.text(c.B))
		a.out(err)
		if err == nil {
			a.out(s.Signature)
			sg, err := s.ToSignature()
			a.out(err)
			if err == nil {
				a.out(sg.Bytes())
			}
		}
	},
	"wallet.Words": func(a *arena, c Call) {
		s, err := keyaddr.WordsFromBytes("en", b32.Encode(a.bytes(c.A)))
		a.out(s, err)
		s, err = keyaddr.WordsFromBytes("en", a.text(c.A))
		a.out(s, err)
		s, err = keyaddr.WordsToBytes("en", a.text(c.B))
		a.out(s, err)
		a.out(keyaddr.WordsFromPrefix("en", a.text(c.B), int(c.N%7)))
		k, err := keyaddr.NewKey(a.text(c.A))
		a.outWKey(k, err)
		k, err = keyaddr.FromOldString(a.text(c.A))
		a.outWKey(k, err)
	},
	"unsigned": func(a *arena, c Call) {
		x, y := w64(a.bytes(c.A)), w64(a.bytes(c.B))
		for _, f := range []func(a, b uint64) (uint64, error){unsigned.Add, unsigned.Sub, unsigned.Mul} {
			v, err := f(x, y)
			a.out(v, err)
		}
		v, err := unsigned.MulDiv(x, y, uint64(c.N)+1)
		a.out(v, err, unsigned.LnInt(x))
		if y != 0 {
			q, r, err := unsigned.DivMod(x, y)
			a.out(q, r, err)
		}
		v, err = unsigned.ExpFrac(x%50000, uint64(c.N)+20000)
		a.out(v, err)
	},
	"signed": func(a *arena, c Call) {
		x, y := int64(w64(a.bytes(c.A))), int64(w64(a.bytes(c.B)))
		if c.N%2 == 1 {
			x = -x
		}
		for _, f := range []func(a, b int64) (int64, error){signed.Add, signed.Sub, signed.Mul, signed.Div, signed.Mod} {
			v, err := f(x, y)
			a.out(v, err)
		}
		v, err := signed.MulDiv(x, y, c.N+1)
		a.out(v, err)
		v, err = signed.ExpFrac(x%50000, c.N+20000)
		a.out(v, err)
	},
	"types.Parse": func(a *arena, c Call) {
		s := a.text(c.A)
		n, err := types.ParseNdau(s)
		a.out(int64(n), err)
		d, err := types.ParseDuration(s)
		a.out(int64(d), err)
		ts, err := types.ParseTimestamp(s)
		a.out(int64(ts), err)
		r, err := eai.ParseRate(s)
		a.out(int64(r), err)
		p, err := pricecurve.ParseDollars(s)
		a.out(int64(p), err)
		var d2 types.Duration
		a.out(d2.UnmarshalText(a.give([]byte(s))), int64(d2))
		var t2 types.Timestamp
		a.out(t2.UnmarshalText(a.give([]byte(s))), int64(t2))
		var row eai.RTRow
		err = row.UnmarshalText(a.give([]byte(s)))
		a.out(err)
		if err == nil {
			a.out(int64(row.From), int64(row.Rate))
		}
	},
	"types.Print": func(a *arena, c Call) {
		v := int64(w64(a.bytes(c.A)) >> 1)
		a.out(types.Ndau(v).String(), types.Duration(v).String(), types.Timestamp(v).String(), eai.Rate(v).String())
		t, err := types.Duration(v).MarshalText()
		a.out(t, err)
		t, err = types.Timestamp(v).MarshalText()
		a.out(t, err)
		m, err := types.Ndau(v).MarshalMsg(nil)
		a.out(m, err)
		ts, err := types.TimestampFrom(time.UnixMicro(v % (1 << 60)).UTC())
		a.out(int64(ts), err, types.Timestamp(v).AsTime().UTC().String())
		d := types.Duration(v % (1 << 50))
		err = d.UpdateWeightedAverageAge(types.Duration(c.N)*types.Day, types.Ndau(c.N), types.Ndau(v%(1<<50)))
		a.out(int64(d), err)
	},
	"eai.Table": func(a *arena, c Call) {
		rt := a.table(c.A)
		at := types.Duration(types.Day) * types.Duration(c.N%400)
		a.out(int64(rt.RateAt(at)))
		s := rt.Slice(at/3, at, at/5)
		a.out(fmt.Sprint(s))
		a.keep("rate slice", s)
		f := rt.SliceF(at/3, at, at/5, at/7)
		a.out(fmt.Sprint(f))
		a.keep("rate slice", f)
		m, err := rt.MarshalMsg(nil)
		a.out(m, err)
		var back eai.RateTable
		_, err = back.UnmarshalMsg(a.give(m))
		a.out(err, fmt.Sprint(back))
	},
	"eai.Calculate": func(a *arena, c Call) {
		rt := a.table(c.A)
		bt := types.Timestamp(types.Year)*2 + types.Timestamp(c.N)*types.Timestamp(types.Day)/7
		last := bt - types.Timestamp(types.Day)*types.Timestamp(c.N%300)
		waa := types.Duration(types.Day) * types.Duration(c.N%500)
		v, err := eai.Calculate(types.Ndau(w64(a.bytes(c.B))%(1<<50)), bt, last, waa, a.lock(c), rt, c.N%2 == 0)
		a.out(int64(v), err)
		a.out(int64(eai.CalculateEAIRate(waa, a.lock(c), rt, bt)))
	},
	"price": func(a *arena, c Call) {
		n := types.Ndau(w64(a.bytes(c.A)) % (40000000 * 100000000))
		p, err := pricecurve.PriceAtUnit(n)
		a.out(int64(p), err)
		p, err = pricecurve.PriceAtUnit9999(n)
		a.out(int64(p), err)
		p, err = pricecurve.PriceAtUnit10000(n)
		a.out(int64(p), err)
		a.out(pricecurve.ApproxPriceAtUnit(n))
		u, err := pricecurve.ParseDollars(fmt.Sprintf("%d.%02d", c.N, c.N%100))
		a.out(int64(u), err)
	},
}

var names []string

func init() {
	for n := range catalogue {
		names = append(names, n)
	}
	sort.Strings(names)
}
