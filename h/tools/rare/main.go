// Command rare searches, once, for inputs whose derived values have an
// unusual form that random generation would not meet (two to four zero bytes
// at an end of a key, chain code, fingerprint, point coordinate or signature
// half), and prints them as JSON. The output is h/ref/rare.json. Nothing
// here calls ndaumath.
//
//	go run ./tools/rare > ref/rare.json
package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"verif/h/ref"
)

type hit struct {
	What string // which value and how it is unusual
	N    uint32 // the counter it arises from
}

// shapes names the unusual features of a value.
func shapes(v []byte) []string {
	var out []string
	l, t, f := 0, 0, 0
	for l < len(v) && v[l] == 0 {
		l++
	}
	for t < len(v) && v[len(v)-1-t] == 0 {
		t++
	}
	for f < len(v) && v[f] == 0xff {
		f++
	}
	add := func(s string, n int) {
		if n >= 2 {
			out = append(out, s+strconv.Itoa(n))
		}
	}
	add("lead0x", l)
	add("trail0x", t)
	add("leadffx", f)
	return out
}

var limits = map[byte]int{'2': 4, '3': 4, '4': 2, '5': 1}

func search(n uint32, f func(i uint32, emit func(string, []byte))) []hit {
	var mu sync.Mutex
	var hits []hit
	var wg sync.WaitGroup
	const W = 8
	for w := uint32(0); w < W; w++ {
		wg.Add(1)
		go func(w uint32) {
			defer wg.Done()
			for i := w; i < n; i += W {
				f(i, func(what string, v []byte) {
					for _, s := range shapes(v) {
						mu.Lock()
						hits = append(hits, hit{what + " " + s, i})
						mu.Unlock()
					}
				})
			}
		}(w)
	}
	wg.Wait()
	sort.Slice(hits, func(i, j int) bool {
		if hits[i].What != hits[j].What {
			return hits[i].What < hits[j].What
		}
		return hits[i].N < hits[j].N
	})
	var out []hit
	k := 0
	for i, h := range hits {
		if i > 0 && h.What != hits[i-1].What {
			k = 0
		}
		if k < limits[h.What[len(h.What)-1]] {
			out = append(out, h)
		}
		k++
	}
	return out
}

func seedOf(i uint32) []byte { return ref.RareSeed(i) }

func main() {
	scale := uint32(24)
	if len(os.Args) > 1 {
		n, _ := strconv.Atoi(os.Args[1])
		scale = uint32(n)
	}
	full := uint32(1) << scale
	res := map[string][]hit{}
	res["master"] = search(4*full, func(i uint32, emit func(string, []byte)) {
		m := hmac.New(sha512.New, []byte("ndau seed"))
		m.Write(seedOf(i))
		I := m.Sum(nil)
		emit("key", I[:32])
		emit("chain", I[32:])
	})
	fmt.Fprintln(os.Stderr, "master", len(res["master"]))
	p := ref.RareParent()
	for _, mode := range []string{"normal", "hardened"} {
		var data []byte
		base := uint32(0)
		if mode == "hardened" {
			data = append([]byte{0}, p.Key...)
			base = 1 << 31
		} else {
			data = p.Pub()
		}
		k := new(big.Int).SetBytes(p.Key)
		res[mode] = search(4*full, func(i uint32, emit func(string, []byte)) {
			m := hmac.New(sha512.New, p.Chain)
			m.Write(data)
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], base+i)
			m.Write(b[:])
			I := m.Sum(nil)
			emit("il", I[:32])
			emit("chain", I[32:])
			s := new(big.Int).SetBytes(I[:32])
			s.Add(s, k)
			if s.Cmp(ref.N) >= 0 {
				s.Sub(s, ref.N)
			}
			emit("key", ref.B32Int(s))
		})
		fmt.Fprintln(os.Stderr, mode, len(res[mode]))
	}
	curve := btcec.S256()
	res["scalar"] = search(full, func(i uint32, emit func(string, []byte)) {
		if i == 0 {
			return
		}
		k := ref.RareScalar(i)
		x, y := curve.ScalarBaseMult(ref.B32Int(k))
		emit("x", ref.B32Int(x))
		emit("y", ref.B32Int(y))
		pub := ref.Compress(ref.Point{X: x, Y: y})
		a := sha256.Sum256(pub)
		b := sha256.Sum256(a[:])
		emit("fp", b[:3])
		emit("sha", a[:])
	})
	fmt.Fprintln(os.Stderr, "scalar", len(res["scalar"]))
	priv, _ := btcec.PrivKeyFromBytes(curve, p.Key)
	res["signature"] = search(full, func(i uint32, emit func(string, []byte)) {
		h := sha256.Sum256(ref.RareMessage(i))
		s, err := priv.Sign(h[:])
		if err != nil {
			return
		}
		emit("r", ref.B32Int(s.R))
		emit("s", ref.B32Int(s.S))
	})
	fmt.Fprintln(os.Stderr, "signature", len(res["signature"]))
	out := map[string][]string{}
	for k, v := range res {
		for _, h := range v {
			out[k] = append(out[k], fmt.Sprintf("%d %s", h.N, h.What))
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(append(b, '\n'))
	_ = hex.EncodeToString
}
