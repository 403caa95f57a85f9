package ref

import "crypto/sha256"

// Container is the MessagePack form of algorithm and data, with the shortest
// headers.
func Container(alg byte, data []byte) []byte {
	out := []byte{0x92}
	if alg < 128 {
		out = append(out, alg)
	} else {
		out = append(out, 0xcc, alg)
	}
	n := len(data)
	switch {
	case n < 256:
		out = append(out, 0xc4, byte(n))
	case n < 65536:
		out = append(out, 0xc5, byte(n>>8), byte(n))
	default:
		out = append(out, 0xc6, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return append(out, data...)
}

// Packed is the data of a key: length, key, extra.
func Packed(key, extra []byte) []byte {
	return append(append([]byte{byte(len(key))}, key...), extra...)
}

// FrameWidth is the number of checksum bytes for a message of n bytes.
func FrameWidth(n int) int {
	w := 3
	for (1+n+w)%5 != 0 {
		w++
	}
	return w
}

// Frame adds length byte and checksum.
func Frame(msg []byte) []byte {
	w := FrameWidth(len(msg))
	s := sha256.Sum224(msg)
	out := append([]byte{byte(w)}, msg...)
	return append(out, s[28-w:]...)
}

// Unframe is the strict inverse of Frame.
func Unframe(b []byte) ([]byte, bool) {
	if len(b) < 5 || len(b)%5 != 0 {
		return nil, false
	}
	w := int(b[0])
	if w < 3 || w > 7 || 1+w > len(b) {
		return nil, false
	}
	msg := b[1 : len(b)-w]
	f := Frame(msg)
	if string(f) != string(b) {
		return nil, false
	}
	return msg, true
}

// KeyText is the text of a key.
func KeyText(priv bool, alg byte, key, extra []byte) string {
	p := "npub"
	if priv {
		p = "npvt"
	}
	return p + B32(Frame(Container(alg, Packed(key, extra))))
}

// SigText is the text of a signature.
func SigText(alg byte, data []byte) string { return B32(Frame(Container(alg, data))) }

// KeyTextOK says whether text is the canonical text of a key, ignoring the
// case of the letters after the prefix: prefix, whole base-32 groups, good
// frame. It returns the framed message.
func KeyTextOK(s string) (priv bool, msg []byte, ok bool) {
	if len(s) < 4 {
		return
	}
	switch s[:4] {
	case "npvt":
		priv = true
	case "npub":
	default:
		return
	}
	b, err := B32Strict(LowerASCII(s[4:]))
	if err != nil {
		return
	}
	msg, ok = Unframe(b)
	return
}
