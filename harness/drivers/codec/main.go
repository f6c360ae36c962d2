// Built inside the module under test through an overlay (directory
// zz_verif_codec). Encodes and decodes random RESP values with the real codec
// and compares with an independent encoding.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"strconv"
	"sync"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/resp"
)

// val is a RESP value in the driver's own representation.
type val struct {
	kind byte // + - : $ *
	s    string
	n    int64
	null bool
	arr  []val
}

func (v val) enc(b *bytes.Buffer) {
	switch v.kind {
	case '+', '-':
		b.WriteByte(v.kind)
		b.WriteString(v.s)
		b.WriteString("\r\n")
	case ':':
		b.WriteString(":" + strconv.FormatInt(v.n, 10) + "\r\n")
	case '$':
		if v.null {
			b.WriteString("$-1\r\n")
			return
		}
		b.WriteString("$" + strconv.Itoa(len(v.s)) + "\r\n" + v.s + "\r\n")
	case '*':
		if v.null {
			b.WriteString("*-1\r\n")
			return
		}
		b.WriteString("*" + strconv.Itoa(len(v.arr)) + "\r\n")
		for _, e := range v.arr {
			e.enc(b)
		}
	}
}

func (v val) real() resp.RedisData {
	switch v.kind {
	case '+':
		return resp.NewSimpleString(v.s)
	case '-':
		return resp.NewSimpleError(v.s)
	case ':':
		return resp.NewInteger(v.n)
	case '$':
		if v.null {
			return resp.NewBulkString(nil)
		}
		return resp.NewBulkString([]byte(v.s))
	}
	if v.null {
		return resp.NewArray(nil)
	}
	l := make([]resp.RedisData, 0, len(v.arr))
	for _, e := range v.arr {
		l = append(l, e.real())
	}
	return resp.NewArray(l)
}

func (v val) String() string {
	var b bytes.Buffer
	v.enc(&b)
	s := b.String()
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return strconv.Quote(s)
}

// same compares a decoded value.
func (v val) same(d resp.RedisData) string {
	switch x := d.(type) {
	case *resp.SimpleString:
		if v.kind != '+' || x.GetData() != v.s {
			return fmt.Sprintf("simple string %q", x.GetData())
		}
	case *resp.SimpleError:
		if v.kind != '-' || x.GetData() != v.s {
			return fmt.Sprintf("error %q", x.GetData())
		}
	case *resp.Integer:
		if v.kind != ':' || x.GetData() != v.n {
			return fmt.Sprintf("integer %d", x.GetData())
		}
	case *resp.BulkString:
		if v.kind != '$' || v.null != (x.GetData() == nil) || string(x.GetData()) != v.s {
			s := x.GetData()
			if len(s) > 100 {
				s = s[:100]
			}
			return fmt.Sprintf("bulk string (null: %v) of %d bytes %q", x.GetData() == nil, len(x.GetData()), s)
		}
	case *resp.RedisArray:
		if v.kind != '*' || v.null != (x.GetData() == nil) || len(x.GetData()) != len(v.arr) {
			return fmt.Sprintf("array (null: %v) of %d", x.GetData() == nil, len(x.GetData()))
		}
		for i, e := range x.GetData() {
			if w := v.arr[i].same(e); w != "" {
				return fmt.Sprintf("array with element %d being %s", i, w)
			}
		}
	default:
		return fmt.Sprintf("%T", d)
	}
	return ""
}

type gen struct{ r *rand.Rand }

func (g gen) bytes(line bool) string {
	r := g.r
	var n int
	switch r.IntN(20) {
	case 0:
		n = 0
	case 1:
		n = 4070 + r.IntN(60) // around the reader's buffer
	case 2:
		n = r.IntN(20000)
	default:
		n = r.IntN(40)
	}
	frag := []string{"\r\n", "\r", "\n", "$", "*", "$3\r\n", "*2\r\n", "+", "-1", "\x00", "\xff", "a", "0", ":"}
	var b []byte
	mode := r.IntN(3)
	for len(b) < n {
		switch mode {
		case 0:
			b = append(b, byte(r.Uint32()))
		case 1:
			b = append(b, frag[r.IntN(len(frag))]...)
		default:
			b = append(b, byte('a'+r.IntN(26)))
		}
	}
	if line {
		b = bytes.ReplaceAll(bytes.ReplaceAll(b, []byte("\r"), []byte("_")), []byte("\n"), []byte("_"))
	}
	return string(b)
}

func (g gen) scalar() val {
	r := g.r
	switch r.IntN(6) {
	case 0:
		return val{kind: '+', s: g.bytes(true)}
	case 1:
		return val{kind: '-', s: g.bytes(true)}
	case 2:
		n := r.Int64()
		switch r.IntN(5) {
		case 0:
			n = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, -10}[r.IntN(7)]
		case 1:
			n = -n
		case 2:
			n %= 1000
		}
		return val{kind: ':', n: n}
	case 3:
		return val{kind: '$', null: true}
	}
	return val{kind: '$', s: g.bytes(false)}
}

func (g gen) value() val {
	r := g.r
	switch r.IntN(8) {
	case 0:
		return val{kind: '*', null: true}
	case 1:
		return val{kind: '*', arr: []val{}}
	case 2, 3, 4:
		n := 1 + r.IntN(6)
		if r.IntN(12) == 0 {
			n = 100 + r.IntN(1000)
		}
		v := val{kind: '*'}
		for i := 0; i < n; i++ {
			e := g.scalar()
			if n > 50 && len(e.s) > 100 {
				e.s = e.s[:100]
			}
			v.arr = append(v.arr, e)
		}
		return v
	}
	return g.scalar()
}

// chunked returns data in pieces, sometimes together with the end of the
// stream, as an io.Reader may.
type chunked struct {
	b   []byte
	r   *rand.Rand
	max int
	cut int // first piece ends here if > 0
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if c.cut > 0 {
		n, c.cut = c.cut, 0
	} else if c.max > 0 {
		n = 1 + c.r.IntN(c.max)
	}
	n = least(least(n, len(p)), len(c.b))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.r.IntN(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type result struct {
	Streams, Values, Cuts int
	Violation             string
	Sample                []string
}

var (
	mu  sync.Mutex
	res result
)

func fail(f string, a ...any) {
	mu.Lock()
	if res.Violation == "" {
		res.Violation = fmt.Sprintf(f, a...)
	}
	mu.Unlock()
}

func run(vals []val, rd *chunked, raw []byte, how string) bool {
	rd.b = raw
	var got []*resp.RedisResp
	for x := range resp.ParseStream(rd) {
		if x.Err != nil {
			if x.Err != io.EOF {
				fail("decoding %d values (%s): error %v after %d values; next value %v", len(vals), how, x.Err, len(got), vals[least(len(got), len(vals)-1)])
				return false
			}
			break
		}
		got = append(got, x)
		if len(got) > len(vals) {
			fail("decoding %d values (%s) yields more", len(vals), how)
			return false
		}
	}
	if len(got) != len(vals) {
		fail("decoding %d values (%s) yields only %d; first missing: %v", len(vals), how, len(got), vals[len(got)])
		return false
	}
	for i, x := range got {
		if w := vals[i].same(x.Data); w != "" {
			fail("value %d of %d, %v, decodes (%s) as %s", i+1, len(vals), vals[i], how, w)
			return false
		}
		var b bytes.Buffer
		vals[i].enc(&b)
		if e := x.Data.ToRedisFormat(); !bytes.Equal(e, b.Bytes()) {
			fail("value %v decoded (%s) and encoded again gives %q", vals[i], how, clip(e))
			return false
		}
	}
	return true
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// ladder: every small integer, every length of strings and arrays up to a
// bound, and the neighbours of the powers of two beyond.
func ladder() {
	var vals []val
	flush := func() bool {
		var raw bytes.Buffer
		for _, v := range vals {
			var one bytes.Buffer
			v.enc(&one)
			if e := v.real().ToRedisFormat(); !bytes.Equal(e, one.Bytes()) {
				fail("%v is encoded as %q", v, clip(e))
				return false
			}
			raw.Write(one.Bytes())
		}
		ok := run(vals, &chunked{r: rand.New(rand.NewPCG(1, 1))}, raw.Bytes(), "as one piece")
		res.Streams++
		res.Values += len(vals)
		vals = nil
		return ok
	}
	ints := []int64{}
	for n := int64(-70000); n <= 70000; n++ {
		ints = append(ints, n)
	}
	for p := uint(16); p < 63; p++ {
		for d := int64(-2); d <= 2; d++ {
			ints = append(ints, int64(1)<<p+d, -(int64(1)<<p)+d)
		}
	}
	for n := int64(10); n < math.MaxInt64/10; n *= 10 {
		ints = append(ints, n-1, n, n+1, -n+1, -n, -n-1)
	}
	for _, n := range ints {
		vals = append(vals, val{kind: ':', n: n})
		if len(vals) == 20000 && !flush() {
			return
		}
	}
	if !flush() {
		return
	}
	lens := []int{}
	for n := 0; n <= 2100; n++ {
		lens = append(lens, n)
	}
	for p := uint(12); p <= 20; p++ {
		for d := -3; d <= 3; d++ {
			lens = append(lens, 1<<p+d)
		}
	}
	lens = append(lens, 1<<24+1)
	for _, n := range lens {
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab\r\n$*c"[(i*7+n)%7]
		}
		vals = append(vals, val{kind: '$', s: string(b)}, val{kind: ':', n: int64(n)})
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		vals = append(vals, val{kind: '+', s: string(b)}, val{kind: '-', s: string(b)})
		if n < 2100 || n > 4000 && n < 70000 && n%2 == 0 || n == 1<<20+1 {
			a := val{kind: '*', arr: []val{}}
			for i := 0; i < n; i++ {
				a.arr = append(a.arr, val{kind: '$', s: strconv.Itoa(i)})
			}
			vals = append(vals, a)
		}
		if len(vals) > 300 && !flush() {
			return
		}
	}
	flush()
}

func main() {
	seed, _ := strconv.ParseUint(os.Args[1], 10, 64)
	n, _ := strconv.Atoi(os.Args[2])
	if err := logger.Init(&config.Config{LogDir: os.Args[3], LogLevel: "info"}); err != nil {
		fmt.Fprintln(os.Stderr, "logger:", err)
		os.Exit(3)
	}
	ladder()
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		w := w
		go func() {
			defer wg.Done()
			for i := w; i < n; i += 8 {
				r := rand.New(rand.NewPCG(seed, uint64(i)))
				g := gen{r}
				var vals []val
				for k := 1 + r.IntN(12); k > 0; k-- {
					vals = append(vals, g.value())
				}
				var raw bytes.Buffer
				for _, v := range vals {
					var one bytes.Buffer
					v.enc(&one)
					d := v.real()
					e1 := d.ToRedisFormat()
					e2 := d.ToRedisFormat()
					if !bytes.Equal(e1, one.Bytes()) {
						fail("%v is encoded as %q", v, clip(e1))
						return
					}
					if !bytes.Equal(e1, e2) {
						fail("%v is encoded as %q first and as %q the second time", v, clip(e1), clip(e2))
						return
					}
					raw.Write(e1)
				}
				max := []int{0, 1, 2, 5, 17, 300, 4096}[r.IntN(7)]
				if !run(vals, &chunked{r: r, max: max}, raw.Bytes(), fmt.Sprintf("arriving in pieces of up to %d bytes", max)) {
					return
				}
				cuts := 0
				if raw.Len() < 400 {
					for c := 1; c < raw.Len(); c++ {
						if !run(vals, &chunked{r: r, cut: c}, raw.Bytes(), fmt.Sprintf("cut after byte %d", c)) {
							return
						}
						cuts++
					}
				}
				mu.Lock()
				res.Streams++
				res.Values += len(vals)
				res.Cuts += cuts
				if len(res.Sample) < 4 {
					res.Sample = append(res.Sample, vals[0].String())
				}
				stop := res.Violation != ""
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	f, err := os.Create(os.Args[4])
	if err != nil {
		panic(err)
	}
	json.NewEncoder(f).Encode(res)
	f.Close()
}
