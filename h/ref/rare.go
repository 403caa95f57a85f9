package ref

import (
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
)

// rare.json lists counters found by tools/rare.
//
//go:embed rare.json
var rareJSON []byte

// Rare is one counter and what is unusual about what it gives.
type Rare struct {
	N    uint32
	What string
}

// RareSet are the counters by what they count: "master" seeds, "normal" and
// "hardened" children of RareParent, "scalar" private keys, "signature"
// messages signed by RareParent's key.
var RareSet = loadRare()

func loadRare() map[string][]Rare {
	var m map[string][]string
	if err := json.Unmarshal(rareJSON, &m); err != nil {
		panic(err)
	}
	out := map[string][]Rare{}
	for k, v := range m {
		for _, s := range v {
			var r Rare
			var a, b string
			if _, err := fmt.Sscanf(s, "%d %s %s", &r.N, &a, &b); err != nil {
				panic(err)
			}
			r.What = a + " " + b
			out[k] = append(out[k], r)
		}
	}
	return out
}

// RareSeed is seed number i.
func RareSeed(i uint32) []byte {
	b := []byte("a seed of thirty-two bytes, 0000")
	binary.BigEndian.PutUint32(b[28:], i)
	return b
}

// RareParent is the parent of the "normal" and "hardened" children.
func RareParent() XKey {
	k, err := Master([]byte("the parent of the rare children"))
	if err != nil {
		panic(err)
	}
	return k
}

// RareScalar is private key number i.
func RareScalar(i uint32) *big.Int {
	k := hexInt("3b1f0d2c4a596877869504f3e2d1c0bfae9d8c7b6a5948372615f4e3d2c1b0a9")
	return k.Add(k, big.NewInt(int64(i)))
}

// RareMessage is message number i.
func RareMessage(i uint32) []byte {
	return binary.BigEndian.AppendUint32([]byte("message "), i)
}
