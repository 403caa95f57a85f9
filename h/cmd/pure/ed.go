package main

import "golang.org/x/crypto/ed25519"

func edPublic(seed []byte) []byte {
	k := ed25519.NewKeyFromSeed(seed)
	return append([]byte(nil), k[32:]...)
}
