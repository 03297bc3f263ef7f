package main

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	k431 "github.com/sa6mwa/krypto431"
	"github.com/sa6mwa/krypto431/crand"
)

// ------------------------------------------------------------------- C16 ---

func init() {
	register(&Prop{ID: "C16", Race: true,
		Rule:        "Built with the race detector. The system's random source is substituted by recorded streams: every function of the package is called in random sequences, replayed, replayed with reseeding, replayed with other streams and with single bits of the stream flipped, with sources that read short; values are range checked and chi-square tested per function and argument (large and not power of two ranges, low bits of floats, permutations, quantiles); each function and each generator built on them is run in its own process with a source that fails after k bytes; goroutines share the package under the race detector with the real source, and with a source that notices overlapping reads, and all wide outputs are compared. Non-trivial: distinct call sequence and stream.",
		Assumptions: []string{"statistics: thresholds at a false alarm rate below 1e-12", "the operating system's source itself is trusted"},
		Need:        []string{"replayed", "seeded", "bits_flipped", "short_reads", "failures", "distributions", "concurrent_outputs", "overlap_watched", "buffers_filled"},
		Sections: []Section{
			{Name: "replay", Quick: 160, Thorough: 4000, Run: c16Replay},
			{Name: "bits", Quick: 60, Thorough: 1000, Run: c16Bits},
			{Name: "fill", Quick: 60, Thorough: 800, Run: c16Fill},
			{Name: "distribution", Quick: 40, Thorough: 400, Run: c16Distribution},
			{Name: "failing", Quick: 96, Thorough: 600, Run: c16Failing},
			{Name: "concurrent", Quick: 16, Thorough: 300, Run: c16Concurrent},
			{Name: "overlap", Quick: 12, Thorough: 200, Run: c16Overlap},
		}})
}

type randFn struct {
	name string
	bits float64 // of output; 0: no value to compare
	call func(r *mrand.Rand) string
}

// randFns calls every function of the package with arguments taken from r.
var randFns = []randFn{
	{"Int63", 63, func(*mrand.Rand) string { return fmt.Sprint(crand.Int63()) }},
	{"Uint32", 32, func(*mrand.Rand) string { return fmt.Sprint(crand.Uint32()) }},
	{"Uint64", 64, func(*mrand.Rand) string { return fmt.Sprint(crand.Uint64()) }},
	{"Int31", 31, func(*mrand.Rand) string { return fmt.Sprint(crand.Int31()) }},
	{"Int", 63, func(*mrand.Rand) string { return fmt.Sprint(crand.Int()) }},
	{"Int63n", 4, func(r *mrand.Rand) string { return fmt.Sprint(crand.Int63n(1<<40 + r.Int64N(1<<62))) }},
	{"Int31n", 4, func(r *mrand.Rand) string { return fmt.Sprint(crand.Int31n(1<<20 + r.Int32N(1<<30))) }},
	{"Intn", 4, func(r *mrand.Rand) string { return fmt.Sprint(crand.Intn(26 + r.IntN(1<<20))) }},
	{"Float64", 52, func(*mrand.Rand) string { return fmt.Sprint(crand.Float64()) }},
	{"Float32", 23, func(*mrand.Rand) string { return fmt.Sprint(crand.Float32()) }},
	{"Perm", 20, func(r *mrand.Rand) string { return fmt.Sprint(crand.Perm(20 + r.IntN(10))) }},
	{"Shuffle", 20, func(r *mrand.Rand) string {
		x := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19}
		crand.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		return fmt.Sprint(x)
	}},
	{"Read", 64, func(r *mrand.Rand) string {
		b := make([]byte, 8+r.IntN(60))
		n, err := crand.Read(b)
		return fmt.Sprint(b, n, err)
	}},
	{"ReadRunes", 64, func(r *mrand.Rand) string {
		b := make([]rune, 4+r.IntN(60))
		n, err := crand.ReadRunes(b)
		return fmt.Sprint(b, n, err)
	}},
	{"NormFloat64", 20, func(*mrand.Rand) string { return fmt.Sprint(crand.NormFloat64()) }},
	{"ExpFloat64", 20, func(*mrand.Rand) string { return fmt.Sprint(crand.ExpFloat64()) }},
	{"GeneratePFK", 256, func(*mrand.Rand) string { return k431.GeneratePFK() }},
	{"GenerateSalt", 256, func(*mrand.Rand) string { return k431.GenerateSalt() }},
	{"RandomAlnumRunes", 70, func(r *mrand.Rand) string { return string(k431.RandomAlnumRunes(12 + r.IntN(20))) }},
	{"NewKey", 200, func(r *mrand.Rand) string {
		var k k431.Krypto431
		k.GroupSize, k.KeyLength = 5, 50+r.IntN(50)
		key := k.NewKey(time.Unix(2000000000, 0))
		return string(key.Id) + string(key.Runes)
	}},
}

// shortReader hands out its source in small pieces.
type shortReader struct {
	r io.Reader
	x *mrand.Rand
	n int
}

func (s *shortReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	s.n++
	return s.r.Read(p[:1+s.x.IntN(min(len(p), 7))])
}

type countReader struct {
	r io.Reader
	n int
}

func (s *countReader) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	s.n += n
	return n, err
}

func c16Replay(c *Case) {
	r := c.R
	var seq []int
	for i := 5 + r.IntN(60); i > 0; i-- {
		seq = append(seq, r.IntN(len(randFns)))
	}
	seed, args := r.Uint64(), r.Uint64()
	run := func(rd io.Reader, reseed bool) (out []string) {
		rand.Reader = rd
		x := mrand.New(mrand.NewPCG(args, 1))
		s := mrand.New(mrand.NewPCG(args, 2))
		for _, i := range seq {
			if reseed && s.IntN(2) == 0 {
				crand.Seed(int64(s.IntN(4)))
			}
			before := 0
			cr, _ := rd.(*countReader)
			if cr != nil {
				before = cr.n
			}
			out = append(out, randFns[i].name+" "+randFns[i].call(x))
			if cr != nil {
				if got := float64(cr.n-before) * 8; got < randFns[i].bits {
					c.Fatal("not-fresh", "%s took %.0f bits from the random source and returned %.0f", randFns[i].name, got, randFns[i].bits)
				}
			}
		}
		return
	}
	a := run(&countReader{r: newDRBG(seed)}, false)
	cmp := func(what string, b []string) {
		for i := range a {
			if a[i] != b[i] {
				c.Fatal(what, "call %d: %s instead of %s (%s)", i, b[i], a[i], what)
			}
		}
	}
	cmp("not-replayed", run(newDRBG(seed), false))
	cmp("seed-has-effect", run(newDRBG(seed), true))
	cmp("short-reads-differ", run(&shortReader{r: newDRBG(seed), x: r}, false))
	c.Count("replayed", len(seq))
	c.Count("seeded", len(seq))
	c.Count("short_reads", len(seq))
	b := run(newDRBG(seed+1), r.IntN(2) == 0)
	diffs := 0
	for i := range a {
		if a[i] != b[i] {
			diffs++
		} else if randFns[seq[i]].bits >= 52 {
			c.Fatal("repeats", "other random bytes, the same result: %s", a[i])
		}
	}
	if diffs < len(seq)/2 {
		c.Fatal("repeats", "other random bytes, but %d of %d results are the same", len(seq)-diffs, len(seq))
	}
	// Seeding twice alike does not repeat anything.
	rand.Reader = newDRBG(seed)
	crand.Seed(1)
	u := crand.Uint64()
	crand.Seed(1)
	if crand.Uint64() == u {
		c.Fatal("seed-has-effect", "seeding repeats the output")
	}
	// With the system's own source nothing repeats.
	if x, y := run(osReader, true), run(osReader, true); strings.Join(x, " ") == strings.Join(y, " ") {
		c.Fatal("repeats", "the system's source gave the same results twice")
	}
	c.Distinct(seq, seed)
	c.Sample(map[string]any{"calls": len(seq), "first": a[0], "same with other bytes": len(seq) - diffs})
	c.Eval(len(seq) * 5)
}

// flipReader flips one bit of the stream.
type flipReader struct {
	r   io.Reader
	pos int
	bit int
}

func (f *flipReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if q := f.bit / 8; q >= f.pos && q < f.pos+n {
		p[q-f.pos] ^= 1 << (f.bit % 8)
	}
	f.pos += n
	return n, err
}

// c16Bits: every bit of the source shows in the outputs that can carry it.
func c16Bits(c *Case) {
	r := c.R
	seed := r.Uint64()
	fns := []struct {
		name string
		bits int
		f    func() string
	}{
		{"Uint64", 64, func() string { return fmt.Sprint(crand.Uint64()) }},
		{"Read", 0, nil}, {"ReadRunes", 0, nil},
	}
	for _, fn := range fns {
		n := 1 + r.IntN(40)
		if fn.name == "Read" {
			fn.bits = n * 8
			fn.f = func() string { b := make([]byte, n); crand.Read(b); return fmt.Sprint(b) }
		}
		if fn.name == "ReadRunes" {
			fn.bits = n * 32
			fn.f = func() string { b := make([]rune, n); crand.ReadRunes(b); return fmt.Sprint(b) }
		}
		rand.Reader = newDRBG(seed)
		want := fn.f()
		for bit := 0; bit < fn.bits; bit++ {
			rand.Reader = &flipReader{r: newDRBG(seed), bit: bit}
			if fn.f() == want {
				c.Fatal("bit-lost", "bit %d of the random source does not show in %s of %d bits", bit, fn.name, fn.bits)
			}
		}
		c.Count("bits_flipped", fn.bits)
		c.Eval(fn.bits)
	}
	c.Distinct(seed)
}

// c16Fill: buffers are filled to the end, none of the rest is touched.
func c16Fill(c *Case) {
	r := c.R
	n := pick(r, 0, 1, 2, 3, 7, 31, 32, 33, 63, 255, 256, 1023, 4095, 4096, 4097, r.IntN(20000))
	short := r.IntN(2) == 0
	setReader := func() {
		rand.Reader = newDRBG(r.Uint64())
		if short {
			rand.Reader = &shortReader{r: rand.Reader, x: r}
			c.Count("short_reads", 1)
		}
	}
	back := make([]byte, n+16)
	or := make([]byte, n)
	for i := 0; i < 12; i++ {
		for j := range back {
			back[j] = 0
		}
		setReader()
		m, err := crand.Read(back[:n])
		if err != nil || m != n {
			c.Fatal("read", "Read of %d bytes: %d, %v", n, m, err)
		}
		for j := range or {
			or[j] |= back[j]
		}
		if !bytes.Equal(back[n:], make([]byte, 16)) {
			c.Fatal("read-beyond", "Read wrote beyond its buffer")
		}
	}
	for j := range or {
		if or[j] == 0 {
			c.Fatal("not-filled", "byte %d of %d stays 0", j, n)
		}
	}
	rback := make([]rune, n+4)
	ror := make([]rune, n)
	for i := 0; i < 12; i++ {
		for j := range rback {
			rback[j] = 0
		}
		setReader()
		m, err := crand.ReadRunes(rback[:n])
		if err != nil || m != n {
			c.Fatal("read", "ReadRunes of %d runes: %d, %v", n, m, err)
		}
		for j := range ror {
			ror[j] |= rback[j]
		}
		for _, x := range rback[n:] {
			if x != 0 {
				c.Fatal("read-beyond", "ReadRunes wrote beyond its buffer")
			}
		}
	}
	for j := range ror {
		for b := 0; b < 4; b++ {
			if ror[j]>>(8*b)&0xff == 0 {
				c.Fatal("not-filled", "byte %d of rune %d of %d stays 0", b, j, n)
			}
		}
	}
	c.Count("buffers_filled", 20)
	c.Distinct(n, short)
	c.Eval(20)
}

func c16Distribution(c *Case) {
	r := c.R
	rand.Reader = newDRBG(r.Uint64())
	n := 30000
	if c.Thorough {
		n = 150000
	}
	test := func(name string, buckets int, f func() int) {
		counts := make([]int, buckets)
		m := max(n, buckets*20)
		for i := 0; i < m; i++ {
			b := f()
			if b < 0 || b >= buckets {
				c.Fatal("range", "%s is out of range: %d of %d", name, b, buckets)
			}
			counts[b]++
		}
		if z, bad := chiBad(counts); bad {
			c.Fatal("not-uniform", "%s: %v, %.1f standard deviations from uniform", name, counts, z)
		}
		c.Count("distributions", 1)
		c.Distinct(name)
		c.Eval(m)
	}
	switch c.Idx % 10 {
	case 0:
		for _, m := range []int{1, 2, 3, 26, 62, 100, 1000} {
			test(fmt.Sprintf("Intn(%d)", m), m, func() int { return crand.Intn(m) })
			test(fmt.Sprintf("Int31n(%d)", m), m, func() int { return int(crand.Int31n(int32(m))) })
			test(fmt.Sprintf("Int63n(%d)", m), m, func() int { return int(crand.Int63n(int64(m))) })
		}
	case 1: // ranges for which a plain remainder is visibly biased
		const third = int64(1) << 61
		test("Int63n(3<<61) in thirds", 3, func() int { return int(crand.Int63n(3*third) / third) })
		test("Intn(3<<61) in thirds", 3, func() int { return int(int64(crand.Intn(int(3*third))) / third) })
		test("Int31n(3<<29) in thirds", 3, func() int { return int(crand.Int31n(3<<29) >> 29) })
		test("Intn(3<<29) in thirds", 3, func() int { return crand.Intn(3<<29) >> 29 })
		test("Int63n(5<<60) in fifths", 5, func() int { return int(crand.Int63n(5<<60) >> 60) })
		test("Int31n(1<<30)", 16, func() int { return int(crand.Int31n(1<<30) >> 26) })
		test("Int63n(1<<62)", 16, func() int { return int(crand.Int63n(1<<62) >> 58) })
		test("Intn(1<<40+7)", 16, func() int { return int(int64(crand.Intn(1<<40+16)) / (1<<36 + 1)) })
	case 2:
		test("Uint64 high byte", 256, func() int { return int(crand.Uint64() >> 56) })
		test("Uint64 low byte", 256, func() int { return int(crand.Uint64() & 255) })
		test("Uint32 high byte", 256, func() int { return int(crand.Uint32() >> 24) })
		test("Uint32 low byte", 256, func() int { return int(crand.Uint32() & 255) })
		test("Int63 high byte", 128, func() int { return int(crand.Int63() >> 56) })
		test("Int63 low byte", 256, func() int { return int(crand.Int63() & 255) })
		test("Int31 high byte", 128, func() int { return int(crand.Int31() >> 24) })
		test("Int31 low byte", 256, func() int { return int(crand.Int31() & 255) })
		test("Int high byte", 128, func() int { return int(int64(crand.Int()) >> 56) })
		test("Int low byte", 256, func() int { return crand.Int() & 255 })
	case 3:
		test("Float64", 100, func() int { return int(crand.Float64() * 100) })
		test("Float32", 100, func() int { return int(float64(crand.Float32()) * 100) })
		test("Float64 low bits", 128, func() int { return int(int64(crand.Float64()*(1<<53)) & 127) })
		test("Float32 low bits", 128, func() int { return int(int64(crand.Float32()*(1<<24)) & 127) })
	case 4:
		for m := 1; m <= 5; m++ {
			test(fmt.Sprintf("Perm(%d)", m), fact(m), func() int { return permIndex(c, crand.Perm(m), m) })
		}
	case 5:
		for m := 1; m <= 5; m++ {
			test(fmt.Sprintf("Shuffle(%d)", m), fact(m), func() int {
				x := make([]int, m)
				for i := range x {
					x[i] = i
				}
				crand.Shuffle(m, func(i, j int) { x[i], x[j] = x[j], x[i] })
				return permIndex(c, x, m)
			})
		}
		permIndex(c, crand.Perm(1000), 1000)
	case 6:
		test("NormFloat64 quantile", 50, func() int {
			return min(49, int(50*0.5*math.Erfc(-crand.NormFloat64()/math.Sqrt2)))
		})
		test("ExpFloat64 quantile", 50, func() int { return min(49, int(50*(1-math.Exp(-crand.ExpFloat64())))) })
	case 7:
		for _, m := range []int{1, 7, 64} {
			b := make([]byte, m)
			test(fmt.Sprintf("Read(%d) last byte", m), 256, func() int { crand.Read(b); return int(b[m-1]) })
			test(fmt.Sprintf("Read(%d) first byte", m), 256, func() int { crand.Read(b); return int(b[0]) })
			x := make([]rune, m)
			test(fmt.Sprintf("ReadRunes(%d) high byte", m), 256, func() int { crand.ReadRunes(x); return int(uint32(x[m-1]) >> 24) })
			test(fmt.Sprintf("ReadRunes(%d) low byte", m), 256, func() int { crand.ReadRunes(x); return int(x[0] & 255) })
		}
	case 8:
		const an = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
		test("RandomAlnumRunes", 62, func() int {
			x := k431.RandomAlnumRunes(4)
			if len(x) != 4 {
				c.Fatal("range", "RandomAlnumRunes(4) has %d", len(x))
			}
			return strings.IndexRune(an, x[r.IntN(4)])
		})
	case 9:
		test("GeneratePFK digit", 16, func() int {
			s := k431.GeneratePFK()
			if len(s) != 64 {
				c.Fatal("range", "GeneratePFK has %d characters", len(s))
			}
			return strings.IndexByte("0123456789abcdef", s[r.IntN(64)])
		})
		test("GenerateSalt digit", 16, func() int {
			s := k431.GenerateSalt()
			if len(s) != 64 {
				c.Fatal("range", "GenerateSalt has %d characters", len(s))
			}
			return strings.IndexByte("0123456789abcdef", s[r.IntN(64)])
		})
	}
}

func fact(n int) int {
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

func permIndex(c *Case, x []int, n int) int {
	seen := make([]bool, n)
	if len(x) != n {
		c.Fatal("range", "a permutation of %d has %d elements", n, len(x))
	}
	for _, v := range x {
		if v < 0 || v >= n || seen[v] {
			c.Fatal("range", "%v is not a permutation", x)
		}
		seen[v] = true
	}
	if n > 8 {
		return 0
	}
	idx := 0
	for i := range x {
		smaller := 0
		for j := i + 1; j < n; j++ {
			if x[j] < x[i] {
				smaller++
			}
		}
		idx += smaller * fact(n-1-i)
	}
	return idx
}

// failReader fails after n bytes.
type failReader struct {
	r   io.Reader
	n   int
	err error
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, f.err
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	n, err := f.r.Read(p)
	f.n -= n
	if err == nil && f.n == 0 && f.err != nil && f.err.Error() == "with the last byte" {
		err = f.err
	}
	return n, err
}

// helperRandom runs one function with a failing source: name k kind
func helperRandom(args []string) {
	k, _ := strconv.Atoi(args[1])
	errs := map[string]error{"error": errors.New("no randomness"), "eof": io.EOF, "unexpected": io.ErrUnexpectedEOF, "last": errors.New("with the last byte")}
	rand.Reader = &failReader{r: newDRBG(7), n: k, err: errs[args[2]]}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC", r)
			os.Exit(0)
		}
	}()
	x := mrand.New(mrand.NewPCG(1, 1))
	switch args[0] {
	case "Read":
		b := make([]byte, 32)
		n, err := crand.Read(b)
		if err != nil {
			fmt.Println("ERROR", err)
			return
		}
		fmt.Println("OUTPUT", n, b)
	case "ReadRunes":
		b := make([]rune, 32)
		n, err := crand.ReadRunes(b)
		if err != nil {
			fmt.Println("ERROR", err)
			return
		}
		fmt.Println("OUTPUT", n, b)
	default:
		for _, f := range randFns {
			if f.name == args[0] {
				fmt.Println("OUTPUT", f.call(x))
			}
		}
	}
}

func c16Failing(c *Case) {
	r := c.R
	f := randFns[c.Idx%len(randFns)]
	// Fewer bytes than the output needs.
	need := map[string]int{"Read": 32, "ReadRunes": 128, "GeneratePFK": 32, "GenerateSalt": 32, "NewKey": 32, "RandomAlnumRunes": 8, "Perm": 8, "Shuffle": 8}[f.name]
	if need == 0 {
		need = max(1, int(f.bits/8))
	}
	k := pick(r, 0, need-1, r.IntN(need))
	kind := pick(r, "error", "eof", "unexpected", "last")
	if kind == "last" && k == 0 {
		kind = "error"
	}
	c.Note("function", f.name)
	c.Note("source", fmt.Sprintf("fails with %s after %d bytes", kind, k))
	x := c.run(cmdOpt{timeout: 60 * time.Second}, self(), "-helper", "random", f.name, fmt.Sprint(k), kind)
	if strings.Contains(x.out, "OUTPUT") {
		c.Fatal("failure-hidden", "%s returned %.200q although the random source failed (%s) after %d bytes", f.name, strings.TrimSpace(x.out), kind, k)
	}
	c.Count("failures", 1)
	c.Distinct(f.name, k, kind)
	c.Eval(1)
}

func c16Concurrent(c *Case) {
	r := c.R
	rand.Reader = osReader
	workers := pick(r, 2, 4, 8, 16, 32)
	per := 3000 / workers
	if c.Thorough {
		per *= 3
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(pick(r, 1, 2, 4, 8)))
	outs := make([][]string, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	bad := make([]string, workers)
	for w := 0; w < workers; w++ {
		x := mrand.New(mrand.NewPCG(r.Uint64(), uint64(w)))
		only := -1
		if r.IntN(3) == 0 {
			only = r.IntN(len(randFns))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad[w] = fmt.Sprint("panic: ", p)
				}
			}()
			<-start
			for i := 0; i < per; i++ {
				j := x.IntN(len(randFns))
				if only >= 0 {
					j = only
				}
				if x.IntN(20) == 0 {
					crand.Seed(1)
				}
				if x.IntN(200) == 0 { // large buffers take other ways
					b := make([]byte, 4000+x.IntN(70000))
					if n, err := crand.Read(b); n != len(b) || err != nil {
						bad[w] = fmt.Sprintf("%d bytes of %d: %v", n, len(b), err)
					}
					outs[w] = append(outs[w], fmt.Sprint("large ", b[:64]))
				}
				s := randFns[j].call(x)
				if randFns[j].bits >= 63 {
					outs[w] = append(outs[w], randFns[j].name+" "+s)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	seen := map[string]bool{}
	n := 0
	for w := range outs {
		if bad[w] != "" {
			c.Fatal("concurrent-panic", "%s", bad[w])
		}
		for _, s := range outs[w] {
			n++
			if seen[s] {
				c.Fatal("handed-out-twice", "two calls returned %.200s", s)
			}
			seen[s] = true
		}
	}
	c.Count("concurrent_outputs", n)
	c.Sample(map[string]any{"goroutines": workers, "calls each": per, "wide outputs compared": n})
	c.Max("goroutines", workers)
	c.Distinct(workers, c.Idx)
	c.Eval(workers * per)
}

// onceReader hands out a counter and notices overlapping reads.
type onceReader struct {
	busy    atomic.Int32
	overlap atomic.Int32
	ctr     atomic.Uint64
}

func (o *onceReader) Read(p []byte) (int, error) {
	if o.busy.Add(1) > 1 {
		o.overlap.Add(1)
	}
	n := (len(p) + 7) / 8
	base := o.ctr.Add(uint64(n)) - uint64(n)
	var b [8]byte
	for i := 0; i < n; i++ {
		v := (base + uint64(i)) * 0x9E3779B97F4A7C15 // a bijection
		v ^= v >> 32
		binary.BigEndian.PutUint64(b[:], v)
		copy(p[i*8:], b[:])
	}
	runtime.Gosched()
	o.busy.Add(-1)
	return len(p), nil
}

func c16Overlap(c *Case) {
	r := c.R
	o := &onceReader{}
	rand.Reader = o
	workers := 2 + r.IntN(14)
	var wg sync.WaitGroup
	start := make(chan struct{})
	outs := make([][]uint64, workers)
	kind := c.Idx % 5
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < 400; i++ {
				k := kind
				if k == 3 {
					k = (i + w) % 3
				}
				switch k {
				case 0:
					outs[w] = append(outs[w], crand.Uint64())
				case 1:
					b := make([]byte, 32)
					crand.Read(b)
					for j := 0; j < 4; j++ {
						outs[w] = append(outs[w], binary.BigEndian.Uint64(b[8*j:]))
					}
				case 4:
					randFns[(i*7+w)%14].call(mrand.New(mrand.NewPCG(uint64(i), uint64(w))))
				case 2:
					x := make([]rune, 16)
					crand.ReadRunes(x)
					for j := 0; j < 8; j++ {
						outs[w] = append(outs[w], uint64(uint32(x[2*j]))<<32|uint64(uint32(x[2*j+1])))
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	rand.Reader = osReader
	if n := o.overlap.Load(); n > 0 {
		c.Fatal("overlapping-reads", "%d goroutines were let into the random source at the same time", n)
	}
	seen := map[uint64]bool{}
	for w := range outs {
		for _, v := range outs[w] {
			if seen[v] {
				c.Fatal("handed-out-twice", "the 64 bits %x were handed out twice", v)
			}
			seen[v] = true
		}
	}
	c.Count("overlap_watched", len(seen))
	c.Distinct(workers, kind)
	c.Eval(len(seen))
}
