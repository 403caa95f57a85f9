package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"reflect"
	"syscall"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/tinylib/msgp/msgp"
	"pgregory.net/rapid"
	"verif/h/fw"
	refs "verif/h/ref"
)

// codec is what the generated code gives every value type.
type codec interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
	msgp.Sizer
}

type msgRow struct{ A, B fw.I }

// msgCase is a value of one of the types, with its surroundings.
type msgCase struct {
	Kind   string
	N      fw.I
	Rows   []msgRow
	Data   fw.Hex
	Head   fw.Hex // already in the buffer
	Tail   fw.Hex // follows in the buffer or stream
	Spare  int    // spare capacity of the buffer
	Dirty  []msgRow
	DirtyN fw.I
	Cut    int // where to truncate
	Swap   int // which other kind to mistake it for
}

var msgKinds = []string{"ndau", "duration", "timestamp", "nanocent", "rate", "rtrow", "rsrow", "table", "slice", "algorithm", "data"}

func build(kind string, n fw.I, rows []msgRow, data []byte) codec {
	row := msgRow{}
	if len(rows) > 0 {
		row = rows[0]
	}
	switch kind {
	case "ndau":
		v := types.Ndau(n)
		return &v
	case "duration":
		v := types.Duration(n)
		return &v
	case "timestamp":
		v := types.Timestamp(n)
		return &v
	case "nanocent":
		v := pricecurve.Nanocent(n)
		return &v
	case "rate":
		v := eai.Rate(n)
		return &v
	case "rtrow":
		return &eai.RTRow{From: types.Duration(row.A), Rate: eai.Rate(row.B)}
	case "rsrow":
		return &eai.RSRow{Duration: types.Duration(row.A), Rate: eai.Rate(row.B)}
	case "table":
		v := make(eai.RateTable, 0, len(rows))
		for _, r := range rows {
			v = append(v, eai.RTRow{From: types.Duration(r.A), Rate: eai.Rate(r.B)})
		}
		return &v
	case "slice":
		v := make(eai.RateSlice, 0, len(rows))
		for _, r := range rows {
			v = append(v, eai.RSRow{Duration: types.Duration(r.A), Rate: eai.Rate(r.B)})
		}
		return &v
	case "algorithm":
		v := signature.AlgorithmID(n)
		return &v
	default:
		return &signature.IdentifiedData{Algorithm: signature.AlgorithmID(n), Data: append([]byte{}, data...)}
	}
}

// norm makes empty and missing lists alike.
func norm(v codec) any {
	switch x := v.(type) {
	case *eai.RateTable:
		if len(*x) == 0 {
			return "empty table"
		}
	case *eai.RateSlice:
		if len(*x) == 0 {
			return "empty slice"
		}
	case *signature.IdentifiedData:
		if len(x.Data) == 0 {
			return x.Algorithm
		}
	}
	return v
}

// one-piece reader, to exercise refills
type trickle struct {
	b []byte
	n int
}

func (r *trickle) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(r.b) {
		n = len(r.b)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// announces32 says whether there is a byte which may be the header of a
// 32-bit length.
func announces32(b []byte) bool {
	for _, x := range b {
		switch x {
		case 0xdb, 0xc6, 0xdd, 0xdf, 0xc9:
			return true
		}
	}
	return false
}

// probeCase is a few bytes announcing more than there is.
type probeCase struct {
	Kind   string
	Stream bool
	Data   fw.Hex
}

const probeEnv = "VERIF_PROBE"

// probe reads the case in the environment, with little memory to take.
func probe() {
	var c probeCase
	if err := json.Unmarshal([]byte(os.Getenv(probeEnv)), &c); err != nil {
		panic(err)
	}
	for _, what := range []int{syscall.RLIMIT_AS, syscall.RLIMIT_DATA} {
		var lim syscall.Rlimit
		if err := syscall.Getrlimit(what, &lim); err != nil {
			panic(err)
		}
		lim.Cur = min(lim.Max, 16<<30)
		if err := syscall.Setrlimit(what, &lim); err != nil {
			panic(err)
		}
	}
	r := build(c.Kind, 0, nil, nil)
	var err error
	if c.Stream {
		err = r.DecodeMsg(msgp.NewReader(bytes.NewReader(c.Data)))
	} else {
		_, err = r.UnmarshalMsg(c.Data)
	}
	if err == nil {
		fmt.Println("accepted")
	} else {
		fmt.Println("refused")
	}
	os.Exit(0)
}

// announced runs the probe in a process of its own, as running out of memory
// ends the process.
func announced(c probeCase, o *fw.Obs) error {
	o.NT()
	j, err := json.Marshal(c)
	if err != nil {
		return err
	}
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), probeEnv+"="+string(j))
	out, err := cmd.CombinedOutput()
	if err == nil && string(out) == "refused\n" {
		return nil
	}
	if err != nil && (c.Kind == "table" || c.Kind == "slice") && c.Data[0] == 0xdd && bytes.Contains(out, []byte("out of memory")) && o.Known("announced-rows") {
		return nil
	}
	if len(out) > 200 {
		out = out[:200]
	}
	return fw.Errf("reading %x as a %s (stream: %v): %v, %q; want an error", []byte(c.Data), c.Kind, c.Stream, err, out)
}

func c32() fw.Property {
	judge := func(c msgCase, o *fw.Obs) error {
		v := build(c.Kind, c.N, c.Rows, c.Data)
		ref := build(c.Kind, c.N, c.Rows, c.Data)
		o.Label(c.Kind)
		o.NTIf(c.N > 127 || c.N < -32 || len(c.Rows) > 1 || len(c.Data) > 0)
		plain, err := v.MarshalMsg(nil)
		if err != nil {
			return fw.Errf("MarshalMsg: %v", err)
		}
		if len(plain) > v.Msgsize() {
			return fw.Errf("Msgsize is %d but %d bytes are produced", v.Msgsize(), len(plain))
		}
		// appended to what is there
		buf := make([]byte, len(c.Head), len(c.Head)+c.Spare)
		copy(buf, c.Head)
		app, err := v.MarshalMsg(buf)
		if err != nil || !bytes.Equal(app, append(append([]byte{}, c.Head...), plain...)) {
			return fw.Errf("MarshalMsg onto %x gives %x, %v; want it followed by %x", []byte(c.Head), app, err, plain)
		}
		// to a stream
		var st bytes.Buffer
		w := msgp.NewWriter(&st)
		if err := v.EncodeMsg(w); err != nil {
			return fw.Errf("EncodeMsg: %v", err)
		}
		if err := w.Flush(); err != nil {
			return fw.Errf("Flush: %v", err)
		}
		if !bytes.Equal(st.Bytes(), plain) {
			return fw.Errf("EncodeMsg gives %x, MarshalMsg %x", st.Bytes(), plain)
		}
		// to a stream which fails, for good or once
		for _, once := range []bool{false, true} {
			bad := &fw.FailingWriter{Room: c.Cut % len(plain), Once: once}
			w := msgp.NewWriterSize(bad, 18+c.Spare%30)
			err := v.EncodeMsg(w)
			if err == nil {
				err = w.Flush()
			}
			if err == nil && !bytes.Equal(bad.Got, plain) {
				return fw.Errf("EncodeMsg to a stream which fails after %d bytes (once: %v) reports success with %x written, want %x", c.Cut%len(plain), once, bad.Got, plain)
			}
			if err == nil && !once {
				return fw.Errf("EncodeMsg to a stream which takes only %d bytes reports success", c.Cut%len(plain))
			}
		}
		if !reflect.DeepEqual(v, ref) {
			return fw.Errf("encoding changed the value to %+v", v)
		}
		// read back from a buffer, into fresh and used receivers
		whole := append(append([]byte{}, plain...), c.Tail...)
		keep := append([]byte{}, whole...)
		for _, fresh := range []bool{true, false} {
			mk := func() codec {
				if fresh {
					return build(c.Kind, 0, nil, nil)
				}
				return build(c.Kind, c.DirtyN, c.Dirty, []byte("dirty data of a used receiver"))
			}
			r := mk()
			rest, err := r.UnmarshalMsg(whole)
			if err != nil {
				return fw.Errf("UnmarshalMsg(%x): %v", whole, err)
			}
			if !bytes.Equal(rest, c.Tail) {
				return fw.Errf("UnmarshalMsg(%x) leaves %x, want %x", whole, rest, []byte(c.Tail))
			}
			if !bytes.Equal(whole, keep) {
				return fw.Errf("UnmarshalMsg changed its input")
			}
			if !reflect.DeepEqual(norm(r), norm(ref)) {
				return fw.Errf("%+v was written as %x and read back as %+v (used receiver: %v)", ref, plain, r, !fresh)
			}
			r = mk()
			rd := msgp.NewReaderSize(&trickle{append([]byte{}, whole...), 1 + c.Spare%40}, 32)
			if err := r.DecodeMsg(rd); err != nil {
				return fw.Errf("DecodeMsg(%x): %v", whole, err)
			}
			if !reflect.DeepEqual(norm(r), norm(ref)) {
				return fw.Errf("%+v was written as %x and decoded as %+v (used receiver: %v)", ref, plain, r, !fresh)
			}
			left := make([]byte, len(c.Tail))
			if n, _ := rd.ReadFull(left); n != len(c.Tail) || !bytes.Equal(left, c.Tail) {
				return fw.Errf("DecodeMsg leaves %x of the stream, want %x", left[:n], []byte(c.Tail))
			}
		}
		// truncated
		if len(plain) > 0 {
			cut := plain[:c.Cut%len(plain)]
			if _, err := build(c.Kind, 0, nil, nil).UnmarshalMsg(append([]byte{}, cut...)); err == nil {
				return fw.Errf("UnmarshalMsg accepts %x, the start of %x", cut, plain)
			}
			if err := build(c.Kind, 0, nil, nil).DecodeMsg(msgp.NewReader(bytes.NewReader(cut))); err == nil {
				return fw.Errf("DecodeMsg accepts %x, the start of %x", cut, plain)
			}
		}
		return nil
	}
	// shape says which encodings a kind takes: numbers, or arrays of a size
	shape := func(kind string) string {
		switch kind {
		case "table", "slice":
			return "list"
		case "rtrow", "rsrow":
			return "row"
		case "data":
			return "data"
		}
		return "number"
	}
	mistyped := func(c msgCase, o *fw.Obs) error {
		other := msgKinds[c.Swap%len(msgKinds)]
		if shape(other) == shape(c.Kind) {
			o.Label("same-shape")
			return nil
		}
		if shape(c.Kind) == "list" && len(c.Rows) == 0 {
			c.Rows = []msgRow{{1, 2}, {3, 4}, {5, 6}}
		}
		o.NT()
		o.Label(c.Kind + "-as-" + other)
		plain, err := build(c.Kind, c.N, c.Rows, c.Data).MarshalMsg(nil)
		if err != nil {
			return fw.Errf("MarshalMsg: %v", err)
		}
		r := build(other, 0, nil, nil)
		if _, err := r.UnmarshalMsg(append([]byte{}, plain...)); err == nil {
			return fw.Errf("%x, a %s, is read as the %s %+v", plain, c.Kind, other, r)
		}
		r = build(other, 0, nil, nil)
		if err := r.DecodeMsg(msgp.NewReader(bytes.NewReader(plain))); err == nil {
			return fw.Errf("%x, a %s, is decoded as the %s %+v", plain, c.Kind, other, r)
		}
		return nil
	}
	// meaning says whether data may be read as a kind, and what it then holds
	meaning := func(kind string, in []byte) (codec, []byte, bool) {
		m, rest, ok := refs.ReadMsg(in)
		if !ok {
			return nil, nil, false
		}
		number := func(m refs.Msg) (fw.I, bool) {
			if m.Type != 'i' || !m.Int.IsInt64() {
				return 0, false
			}
			return fw.I(m.Int.Int64()), true
		}
		row := func(m refs.Msg) (r msgRow, ok bool) {
			if m.Type != 'a' || len(m.List) != 2 {
				return r, false
			}
			var ok2 bool
			r.A, ok = number(m.List[0])
			r.B, ok2 = number(m.List[1])
			return r, ok && ok2
		}
		switch shape(kind) {
		case "number":
			n, ok := number(m)
			if kind == "algorithm" && (n < 0 || n > 255) {
				return nil, nil, false
			}
			return build(kind, n, nil, nil), rest, ok
		case "row":
			r, ok := row(m)
			return build(kind, 0, []msgRow{r}, nil), rest, ok
		case "list":
			if m.Type != 'a' {
				return nil, nil, false
			}
			var rows []msgRow
			for _, e := range m.List {
				r, ok := row(e)
				if !ok {
					return nil, nil, false
				}
				rows = append(rows, r)
			}
			return build(kind, 0, rows, nil), rest, true
		}
		if m.Type != 'a' || len(m.List) != 2 || (m.List[1].Type != 'b' && m.List[1].Type != 's') {
			return nil, nil, false
		}
		n, ok := number(m.List[0])
		return build(kind, n, nil, m.List[1].Bytes), rest, ok && n >= 0 && n <= 255
	}
	// junk must not crash, and what is accepted must be consistent between
	// the two decoders and writable again
	junk := func(c msgCase, o *fw.Obs) error {
		in := []byte(c.Data)
		if shape(c.Kind) == "list" && len(in) >= 5 && in[0] == 0xdd && binary.BigEndian.Uint32(in[1:]) > 1<<20 {
			o.Label("huge-list") // see announced
			return nil
		}
		a := build(c.Kind, 0, nil, nil)
		rest, err := a.UnmarshalMsg(append([]byte{}, in...))
		if err != nil {
			o.Label("refused")
			if _, _, legal := meaning(c.Kind, in); !legal && !announces32(in) {
				b := build(c.Kind, 0, nil, nil)
				if err := b.DecodeMsg(msgp.NewReader(bytes.NewReader(in))); err == nil {
					return fw.Errf("%x, which is no %s, is decoded from a stream as the %s %+v", in, c.Kind, c.Kind, b)
				}
			}
			return nil
		}
		o.NT()
		o.Label("accepted")
		if !bytes.HasSuffix(in, rest) {
			return fw.Errf("UnmarshalMsg(%x) leaves %x, which is not its end", in, rest)
		}
		want, wantRest, legal := meaning(c.Kind, in)
		if !legal {
			return fw.Errf("%x, which is no %s, is read as the %s %+v", in, c.Kind, c.Kind, a)
		}
		if !reflect.DeepEqual(norm(a), norm(want)) || len(rest) != len(wantRest) {
			return fw.Errf("%x is read as the %s %+v with %d bytes left, want %+v with %d left", in, c.Kind, a, len(rest), want, len(wantRest))
		}
		// the stream reader of the msgp library makes room for announced
		// lengths before it reads on
		if announces32(in) {
			return nil
		}
		b := build(c.Kind, 0, nil, nil)
		if err := b.DecodeMsg(msgp.NewReader(bytes.NewReader(in))); err != nil {
			return fw.Errf("%x is read from a buffer as the %s %+v, but from a stream: %v", in, c.Kind, a, err)
		}
		if !reflect.DeepEqual(norm(a), norm(b)) {
			return fw.Errf("%x is read from a buffer as the %s %+v, from a stream as %+v", in, c.Kind, a, b)
		}
		out, err := a.MarshalMsg(nil)
		if err != nil {
			return fw.Errf("%x is read as the %s %+v, which does not encode: %v", in, c.Kind, a, err)
		}
		d := build(c.Kind, 0, nil, nil)
		if rest, err := d.UnmarshalMsg(out); err != nil || len(rest) != 0 || !reflect.DeepEqual(norm(d), norm(a)) {
			return fw.Errf("%x is read as the %s %+v, written as %x and read back as %+v, %v", in, c.Kind, a, out, d, err)
		}
		return nil
	}
	num := func(t *rapid.T, label string) fw.I {
		if fw.Chance(t, 1, 3, label+"edge") {
			e := fw.Pick[int64](t, label+"e", 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32+1, math.MaxUint32, math.MaxUint32+1, math.MaxInt64, 32, 33)
			if fw.Chance(t, 1, 2, label+"neg") {
				e = -e - int64(fw.Int(t, 0, 1, label+"one"))
			}
			return fw.I(e)
		}
		return fw.I(fw.Signed(t, label))
	}
	rows := func(t *rapid.T, label string) []msgRow {
		n := fw.Int(t, 0, 6, label+"#")
		switch fw.Int(t, 0, 30, label+"size") {
		case 0:
			n = fw.Int(t, 14, 18, label+"#")
		case 1:
			n = fw.Int(t, 30, 60, label+"#")
		}
		out := make([]msgRow, n)
		for i := range out {
			out[i] = msgRow{num(t, label+"a"), num(t, label+"b")}
		}
		return out
	}
	gen := func(t *rapid.T) msgCase {
		c := msgCase{
			Kind: msgKinds[fw.Int(t, 0, len(msgKinds)-1, "kind")],
			N:    num(t, "n"),
			Head: fw.Bytes(t, 0, 12, "head"), Tail: fw.Bytes(t, 0, 12, "tail"),
			Spare: fw.Int(t, 0, 120, "spare"), DirtyN: num(t, "dn"),
			Cut: fw.Int(t, 0, 5000, "cut"), Swap: fw.Int(t, 0, len(msgKinds)-1, "swap"),
		}
		switch c.Kind {
		case "algorithm", "data":
			c.N &= 255
			c.DirtyN &= 255
			switch fw.Int(t, 0, 20, "size") {
			case 0:
				c.Data = fw.Bytes(t, 250, 260, "data")
			case 1:
				c.Data = make(fw.Hex, fw.Pick(t, "big", 65535, 65536, 70000))
				for i := range c.Data {
					c.Data[i] = byte(i * 7)
				}
			default:
				c.Data = fw.Bytes(t, 0, 40, "data")
			}
		case "table", "slice":
			c.Rows, c.Dirty = rows(t, "r"), rows(t, "d")
		case "rtrow", "rsrow":
			c.Rows, c.Dirty = []msgRow{{num(t, "a"), num(t, "b")}}, []msgRow{{num(t, "da"), num(t, "db")}}
		}
		return c
	}
	junkGen := func(t *rapid.T) msgCase {
		c := gen(t)
		// an encoding, altered
		b, _ := build(c.Kind, c.N, c.Rows, c.Data).MarshalMsg(nil)
		if len(b) > 400 {
			b = b[:400]
		}
		for k := fw.Int(t, 0, 3, "muts"); k > 0; k-- {
			i := fw.Int(t, 0, len(b), "i")
			x := byte(fw.Int(t, 0, 255, "x"))
			if fw.Chance(t, 1, 2, "marker") {
				x = fw.Pick[byte](t, "m", 0x90, 0x91, 0x92, 0x93, 0x9f, 0x80, 0x82, 0xa0, 0xc0, 0xc2, 0xc4, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xdc, 0xd9, 0x7f, 0xe0)
			}
			switch {
			case i == len(b) || fw.Chance(t, 1, 4, "ins"):
				b = append(b[:i:i], append([]byte{x}, b[i:]...)...)
			case fw.Chance(t, 1, 4, "del"):
				b = append(b[:i:i], b[i+1:]...)
			default:
				b[i] = x
			}
		}
		// 32-bit lengths make both decoders allocate before they look at the
		// data, which is the encoding library's doing
		for i := range b {
			switch b[i] {
			case 0xdb, 0xc6, 0xdd, 0xdf, 0xc9:
				b[i] = 0x91
			}
		}
		return msgCase{Kind: c.Kind, Data: b}
	}
	return fw.Property{
		ID:   "C32",
		Rule: "values outside the one-byte encodings, lists of at least two rows, non-empty data; altered encodings which are accepted",
		Assumptions: []string{
			shimNote,
			"the msgp library's stream reader allocates announced lengths first: 32-bit ones are tried in processes of their own only",
		},
		Subs: []fw.Sub{
			fw.Prop("values", 60000, 1500000, gen, judge),
			fw.Prop("mistyped", 30000, 500000, gen, mistyped),
			fw.Enum("announced", func() []probeCase {
				var out []probeCase
				for _, k := range msgKinds {
					for _, stream := range []bool{false, true} {
						heads := [][]byte{{0xdd}, {0xdf}, {0xdb}, {0xc6}, {0xc9}}
						if k == "data" {
							heads = append(heads, []byte{0x92, 1, 0xc6}, []byte{0x92, 1, 0xdb})
						}
						for _, h := range heads {
							for _, n := range [][]byte{{0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0, 1, 0, 0}} {
								out = append(out, probeCase{k, stream, append(append([]byte{}, h...), n...)})
							}
						}
					}
				}
				return out
			}, announced),
			fw.Enum("edits", func() []msgCase {
				// every byte inserted and replaced anywhere in a few encodings
				var out []msgCase
				lists := [][]byte{{0x90}, {0x91, 0x92, 5, 7}, {0x92, 0x92, 5, 0xcd, 1, 2, 0x92, 0xff, 7}}
				for _, k := range msgKinds {
					var encs [][]byte
					switch shape(k) {
					case "number":
						encs = [][]byte{{5}, {0xcc, 200}, {0xcd, 1, 0}, {0xd1, 0x80, 0}, {0xce, 1, 2, 3, 4}, {0xcf, 1, 2, 3, 4, 5, 6, 7, 8}, {0xd3, 0x80, 2, 3, 4, 5, 6, 7, 8}}
					case "row":
						encs = [][]byte{{0x92, 5, 7}, {0x92, 0xd1, 0xff, 0, 0xce, 9, 8, 7, 6}}
					case "list":
						encs = lists
					default:
						encs = [][]byte{{0x92, 1, 0xc4, 0}, {0x92, 2, 0xc4, 5, 1, 2, 3, 4, 5}, {0x92, 0xcc, 200, 0xc5, 0, 3, 1, 2, 3}}
					}
					for _, e := range encs {
						e = append(append([]byte{}, e...), 1, 2, 3)
						for at := 0; at < len(e)-2; at++ {
							for x := 0; x < 256; x++ {
								rep := append([]byte{}, e...)
								rep[at] = byte(x)
								out = append(out, msgCase{Kind: k, Data: append(append(append([]byte{}, e[:at]...), byte(x)), e[at:]...)}, msgCase{Kind: k, Data: rep})
							}
							out = append(out, msgCase{Kind: k, Data: append(append([]byte{}, e[:at]...), e[at+1:]...)})
						}
					}
				}
				return out
			}, junk),
			fw.Prop("altered", 100000, 2000000, junkGen, junk),
		},
	}
}
