package ref

import "math/big"

// Msg is a value read from MessagePack data.
type Msg struct {
	Type  byte // 'i' integer, 's' string, 'b' binary, 'a' array, 'm' map, 'n' nil, 't' truth value, 'f' float, 'x' extension
	Int   *big.Int
	Bytes []byte
	List  []Msg // of arrays, and keys and values of maps
}

// ReadMsg reads one value written by the rules of MessagePack from the start
// of b, whether or not in its shortest form. It returns false where b does not
// start with a whole value.
func ReadMsg(b []byte) (m Msg, rest []byte, ok bool) { return readMsg(b, 40) }

func readMsg(b []byte, depth int) (m Msg, rest []byte, ok bool) {
	if len(b) == 0 || depth == 0 {
		return m, nil, false
	}
	h := b[0]
	b = b[1:]
	num := func(n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		v := uint64(0)
		for _, x := range b[:n] {
			v = v<<8 | uint64(x)
		}
		b = b[n:]
		return v, true
	}
	take := func(typ byte, n uint64) (Msg, []byte, bool) {
		if uint64(len(b)) < n {
			return Msg{}, nil, false
		}
		return Msg{Type: typ, Bytes: b[:n]}, b[n:], true
	}
	list := func(typ byte, n uint64) (Msg, []byte, bool) {
		if uint64(len(b)) < n {
			return Msg{}, nil, false
		}
		l := Msg{Type: typ}
		for ; n > 0; n-- {
			var e Msg
			if e, b, ok = readMsg(b, depth-1); !ok {
				return Msg{}, nil, false
			}
			l.List = append(l.List, e)
		}
		return l, b, true
	}
	integer := func(v int64) (Msg, []byte, bool) { return Msg{Type: 'i', Int: big.NewInt(v)}, b, true }
	switch {
	case h < 0x80:
		return integer(int64(h))
	case h >= 0xe0:
		return integer(int64(h) - 256)
	case h < 0x90:
		return list('m', 2*uint64(h&15))
	case h < 0xa0:
		return list('a', uint64(h&15))
	case h < 0xc0:
		return take('s', uint64(h&31))
	}
	var n uint64
	switch h {
	case 0xc0:
		return Msg{Type: 'n'}, b, true
	case 0xc2, 0xc3:
		return Msg{Type: 't'}, b, true
	case 0xc4, 0xc5, 0xc6:
		if n, ok = num(1 << (h - 0xc4)); ok {
			return take('b', n)
		}
	case 0xc7, 0xc8, 0xc9:
		if n, ok = num(1 << (h - 0xc7)); ok {
			return take('x', n+1)
		}
	case 0xca:
		return take('f', 4)
	case 0xcb:
		return take('f', 8)
	case 0xcc, 0xcd, 0xce, 0xcf:
		if n, ok = num(1 << (h - 0xcc)); ok {
			return Msg{Type: 'i', Int: new(big.Int).SetUint64(n)}, b, true
		}
	case 0xd0, 0xd1, 0xd2, 0xd3:
		size := 1 << (h - 0xd0)
		if n, ok = num(size); ok {
			shift := 64 - 8*size
			return integer(int64(n<<shift) >> shift)
		}
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return take('x', 1+uint64(1)<<(h-0xd4))
	case 0xd9, 0xda, 0xdb:
		if n, ok = num(1 << (h - 0xd9)); ok {
			return take('s', n)
		}
	case 0xdc, 0xdd:
		if n, ok = num(2 << (h - 0xdc)); ok {
			return list('a', n)
		}
	case 0xde, 0xdf:
		if n, ok = num(2 << (h - 0xde)); ok {
			return list('m', 2*n)
		}
	}
	return Msg{}, nil, false
}
