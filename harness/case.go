package main

import (
	"crypto/rand"
	"fmt"
	"hash/fnv"
	"io"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
)

// Case is one generated case: its random numbers depend on the seed, the
// property, the section and the index only.
type Case struct {
	P        *Prop
	S        *Section
	Idx      int
	R        *mrand.Rand
	Thorough bool
	seed     uint64
	evals    int64
	label    string
	notes    map[string]any
	scratch  string
	dir      string
	external atomic.Int32 // >0 while waiting for a child process
	mu       sync.Mutex
	sub      *subRun // set in a case that is a part of another one
	typed    bool    // something was typed at a terminal: a verdict needs confirmation
	held     int     // verdicts that await confirmation
}

// confirmed is set when this process need not hold verdicts back any more.
var confirmed atomic.Bool

// hold tells if a verdict has to be confirmed by another run of the case. What
// is typed at a terminal can get lost when the machine is very busy.
func (c *Case) hold() bool {
	if !c.typed || confirmed.Load() {
		return false
	}
	c.held++
	return true
}

// of is the number of cases of the section.
func (c *Case) of() int {
	if c.Thorough {
		return c.S.Thorough
	}
	return c.S.Quick
}

var osReader = rand.Reader

func newCase(p *Prop, s *Section, i int, seed, h uint64, scratch string) *Case {
	s2 := h ^ (uint64(i)+1)*0x9E3779B97F4A7C15
	return &Case{P: p, S: s, Idx: i, R: mrand.New(mrand.NewPCG(seed, s2)), Thorough: *fTier == "thorough",
		seed: seed*0x9E3779B97F4A7C15 ^ s2, scratch: scratch, notes: map[string]any{}}
}

// subRun collects what a part of a case found. Its counters are dropped and it
// takes no lock, which could order accesses that nothing else orders.
type subRun struct {
	fails  []subFail
	errors []string
}

type subFail struct{ sig, msg string }

// inParallel is set while cases run at the same time in this process: they
// leave process-wide settings alone.
var inParallel bool

// install replaces the system's random source by a deterministic one so that a
// case can be replayed.
func (c *Case) install() {
	if raceBuild {
		rand.Reader = osReader
		return
	}
	rand.Reader = newDRBG(c.seed)
}

func (c *Case) cleanup() {
	rand.Reader = osReader
	if c.dir != "" {
		os.RemoveAll(c.dir)
		c.dir = ""
	}
}

// Dir returns a scratch directory of the case, removed when the case ends.
func (c *Case) Dir() string {
	if c.dir == "" {
		c.dir = filepath.Join(c.scratch, fmt.Sprintf("c-%s-%d", c.S.Name, c.Idx))
		if err := os.MkdirAll(c.dir, 0700); err != nil {
			panic(err)
		}
	}
	return c.dir
}

func (c *Case) Path(name string) string { return filepath.Join(c.Dir(), name) }

// Fail records a violation; only the first of each signature is kept.
func (c *Case) Fail(sig, format string, a ...any) { c.fail(sig, fmt.Sprintf(format, a...)) }

// Fatal records a violation and ends the case.
func (c *Case) Fatal(sig, format string, a ...any) {
	c.fail(sig, fmt.Sprintf(format, a...))
	panic(abort{})
}

func (c *Case) fail(sig, msg string) {
	if c.sub != nil {
		c.sub.fails = append(c.sub.fails, subFail{strings.ReplaceAll(sig, " ", "_"), msg})
		return
	}
	if c.hold() {
		return
	}
	resMu.Lock()
	defer resMu.Unlock()
	sig = strings.ReplaceAll(sig, " ", "_")
	sigs[sig]++
	if sigs[sig] > 1 {
		return
	}
	notes := map[string]any{}
	c.mu.Lock()
	for k, v := range c.notes {
		notes[k] = v
	}
	c.mu.Unlock()
	res.Violations = append(res.Violations, Violation{Property: c.P.ID, Sig: sig, Section: c.S.Name, Index: c.Idx,
		Seed: *fSeed, Tier: *fTier, Message: msg, Notes: notes})
	saveViolations()
}

// Error records that the check itself could not do its work.
func (c *Case) Error(format string, a ...any) {
	if c.sub != nil {
		c.sub.errors = append(c.sub.errors, fmt.Sprintf(format, a...))
		panic(abort{})
	}
	if c.hold() {
		panic(abort{})
	}
	resMu.Lock()
	res.Errors = append(res.Errors, fmt.Sprintf("%s:%d: ", c.S.Name, c.Idx)+fmt.Sprintf(format, a...))
	resMu.Unlock()
	panic(abort{})
}

func (c *Case) Check(ok bool, sig, format string, a ...any) bool {
	if !ok {
		c.Fail(sig, format, a...)
	}
	return ok
}

func (c *Case) Must(ok bool, sig, format string, a ...any) {
	if !ok {
		c.Fatal(sig, format, a...)
	}
}

func (c *Case) Note(k string, v any) {
	c.mu.Lock()
	c.notes[k] = v
	c.mu.Unlock()
}

func (c *Case) Eval(n int) { c.evals += int64(n) }

func (c *Case) Count(name string, n int) {
	if c.sub != nil {
		return
	}
	resMu.Lock()
	res.Counters[name] += int64(n)
	resMu.Unlock()
}

func (c *Case) Max(name string, n int) {
	if c.sub != nil {
		return
	}
	resMu.Lock()
	if res.Counters["max:"+name] < int64(n) {
		res.Counters["max:"+name] = int64(n)
	}
	resMu.Unlock()
}

// Distinct counts a non-trivial case by its content.
func (c *Case) Distinct(parts ...any) {
	if c.sub != nil {
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, c.S.Name)
	for _, p := range parts {
		fmt.Fprintf(h, "\x00%v", p)
	}
	resMu.Lock()
	distinct[h.Sum64()] = struct{}{}
	if c.label == "" {
		c.label = strings.TrimSpace(fmt.Sprintf("%.300s", fmt.Sprintln(parts...)))
	}
	resMu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (c *Case) Sample(v any) {
	if c.sub != nil {
		return
	}
	resMu.Lock()
	if len(res.Samples) < 2 {
		res.Samples = append(res.Samples, map[string]any{"section": c.S.Name, "index": c.Idx, "case": v})
	}
	resMu.Unlock()
}

var frameRe = regexp.MustCompile(`(?m)^(github\.com/sa6mwa/krypto431[^\n]*)\(`)

func (c *Case) recordPanic(r any, stack []byte) {
	fn := "harness"
	if m := frameRe.FindSubmatch(stack); m != nil {
		fn = string(m[1])
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		if i := strings.LastIndex(fn, "("); i > 0 && strings.Contains(fn[i:], "0x") {
			fn = fn[:i]
		}
	}
	c.fail("panic:"+fn, fmt.Sprintf("panic: %v\n%s", r, stack))
}

// catch runs f and reports a panic of it, without ending the case.
func (c *Case) catch(sig string, f func()) (ok bool) {
	ok = true
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(abort); is {
				panic(r)
			}
			ok = false
			buf := make([]byte, 8192)
			buf = buf[:runtimeStack(buf)]
			c.Fail(sig, "panic: %v\n%s", r, buf)
		}
	}()
	f()
	return
}

// drbg is a deterministic stand-in for the system's random source.
type drbg struct {
	mu  sync.Mutex
	src *mrand.ChaCha8
	n   int64
}

func newDRBG(seed uint64) *drbg {
	var k [32]byte
	for i := 0; i < 4; i++ {
		v := seed + uint64(i)*0xD1B54A32D192ED03
		v ^= v >> 29
		v *= 0xBF58476D1CE4E5B9
		for j := 0; j < 8; j++ {
			k[i*8+j] = byte(v >> (8 * j))
		}
	}
	return &drbg{src: mrand.NewChaCha8(k)}
}

func (d *drbg) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n += int64(len(p))
	return d.src.Read(p)
}

var _ io.Reader = (*drbg)(nil)

func pick[T any](r *mrand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }
