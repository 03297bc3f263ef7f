// Command harness runs the runtime monitors of /verif against the code in
// /repo. The parent process starts one child per shard, the children execute
// the cases of one property and report violations, counters and samples; the
// parent merges them, writes the evidence file and prints the verdict.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Section is one family of cases of a property. Case i runs in shard i%shards.
type Section struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Run      func(c *Case)
	// Serial sections run in shard 0 only (they use all cores themselves).
	Serial bool
}

// Prop is the monitor of one property.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Sections    []Section
	// Need names counters that must be above zero, otherwise the run observed
	// nothing and is inconclusive.
	Need []string
	// Race properties are run with a race detector build.
	Race bool
	// CPU is the CPU seconds one case may use before it counts as runaway.
	CPU float64
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.CPU == 0 {
		p.CPU = 90
	}
	props[p.ID] = p
}

type Violation struct {
	Property string         `json:"property"`
	Sig      string         `json:"sig"`
	Section  string         `json:"section"`
	Index    int            `json:"index"`
	Seed     int64          `json:"seed"`
	Tier     string         `json:"tier"`
	Message  string         `json:"message"`
	Notes    map[string]any `json:"notes,omitempty"`
	Replay   string         `json:"replay_cmd"`
}

type Result struct {
	Evaluations int64            `json:"evaluations"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Errors      []string         `json:"errors"`
	MaxCaseMS   int64            `json:"max_case_ms"`
	MaxCase     string           `json:"max_case"`
	Done        bool             `json:"done"`
}

var (
	fProp     = flag.String("prop", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Int64("seed", 1, "seed")
	fShards   = flag.Int("shards", 0, "number of shards (0 = number of cpus)")
	fShard    = flag.Int("shard", -1, "run this shard (child)")
	fWork     = flag.String("work", "", "scratch directory")
	fCLI      = flag.String("cli", "", "the built krypto431 program")
	fOut      = flag.String("out", "", "directory for replay files")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fKnown    = flag.String("known", "", "known findings file")
	fData     = flag.String("data", "", "directory with committed fixtures")
	fOnly     = flag.String("only", "", "section:index to replay")
	fTimeout  = flag.Int("timeout", 840, "overall wall clock limit in seconds")
	fList     = flag.Bool("list", false, "list properties")
	fHelper   = flag.String("helper", "", "internal: run a helper operation in this process")
)

func main() {
	flag.Parse()
	if *fHelper != "" {
		runHelper(*fHelper, flag.Args())
		return
	}
	if *fList {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	if *fShard >= 0 {
		child(p)
		return
	}
	os.Exit(parent(p))
}

// ---------------------------------------------------------------- child ----

type abort struct{}

var (
	curCase   atomic.Pointer[Case]
	caseStart atomic.Int64 // unix nano
	caseCPU   atomic.Int64 // process cpu at start of the case (ns)
	stateFile *os.File
	resMu     sync.Mutex
	res       = &Result{Counters: map[string]int64{}}
	distinct  = map[uint64]struct{}{}
	sigs      = map[string]int{}
)

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// saveViolations keeps what was found if the process does not live to tell.
// Called with resMu held.
func saveViolations() {
	b, err := json.Marshal(res.Violations)
	if err != nil {
		for i := range res.Violations {
			res.Violations[i].Notes = nil
		}
		b, _ = json.Marshal(res.Violations)
	}
	name := filepath.Join(*fWork, fmt.Sprintf("shard-%d.violations", *fShard))
	os.WriteFile(name+".tmp", b, 0600)
	os.Rename(name+".tmp", name)
}

// savedViolations reads what a shard had found when it was stopped.
func savedViolations(shard int) (out []Violation) {
	b, err := os.ReadFile(filepath.Join(*fWork, fmt.Sprintf("shard-%d.violations", shard)))
	if err == nil {
		json.Unmarshal(b, &out)
	}
	return
}

func child(p *Prop) {
	shard, shards := *fShard, *fShards
	debug.SetGCPercent(400)
	base := filepath.Join(*fWork, fmt.Sprintf("shard-%d", shard))
	var err error
	stateFile, err = os.OpenFile(base+".state", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0600)
	if err != nil {
		panic(err)
	}
	if cf, err := os.Create(base + ".crash"); err == nil {
		debug.SetCrashOutput(cf, debug.CrashOptions{})
	}
	scratch := filepath.Join(*fWork, fmt.Sprintf("s%d", shard))
	os.MkdirAll(scratch, 0700)
	os.Setenv("HOME", scratch)
	os.Setenv("TMPDIR", scratch)
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "KRYPTO_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	go watchdog(p, base)
	onlySec, onlyIdx := "", -1
	if *fOnly != "" {
		s := strings.LastIndex(*fOnly, ":")
		if s < 0 {
			fmt.Fprintln(os.Stderr, "-only wants section:index")
			os.Exit(2)
		}
		onlySec = (*fOnly)[:s]
		if i, err := strconv.Atoi((*fOnly)[s+1:]); err == nil {
			onlyIdx = i
		} // else the whole section
	}
	for si := range p.Sections {
		s := &p.Sections[si]
		n := s.Quick
		if *fTier == "thorough" {
			n = s.Thorough
		}
		if *fOnly != "" && s.Name != onlySec {
			continue
		}
		if onlyIdx >= 0 {
			if shard == 0 {
				runCase(p, s, onlyIdx, scratch)
			}
			continue
		}
		for i := 0; i < n; i++ {
			if s.Serial {
				if shard != 0 {
					break
				}
			} else if (i+si)%shards != shard {
				continue
			}
			runCase(p, s, i, scratch)
			if len(sigs) >= 8 {
				break
			}
		}
		if len(sigs) >= 8 {
			break
		}
	}
	res.Done = true
	writeResult(base)
	os.Exit(0)
}

func writeResult(base string) {
	resMu.Lock()
	defer resMu.Unlock()
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	hb := make([]byte, 0, len(distinct)*8)
	for h := range distinct {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(base+".distinct", hb, 0600)
	os.WriteFile(base+".result.tmp", b, 0600)
	os.Rename(base+".result.tmp", base+".result")
}

func runCase(p *Prop, s *Section, i int, scratch string) {
	for again := 0; ; again++ {
		c := runCaseOnce(p, s, i, scratch)
		if c.held == 0 {
			return
		}
		// Found after typing at a terminal: reported if it happens again, and
		// again.
		c.Count("unconfirmed", 1)
		if again == 1 {
			confirmed.Store(true)
			runCaseOnce(p, s, i, scratch)
			resMu.Lock()
			found := len(res.Violations) + len(res.Errors)
			resMu.Unlock()
			confirmed.Store(found > 0)
			return
		}
		time.Sleep(time.Second)
	}
}

func runCaseOnce(p *Prop, s *Section, i int, scratch string) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s", p.ID, s.Name)
	c := newCase(p, s, i, uint64(*fSeed), h.Sum64(), scratch)
	st := fmt.Sprintf("%-120s", s.Name+" "+strconv.Itoa(i))
	stateFile.WriteAt([]byte(st), 0)
	t0 := time.Now()
	caseStart.Store(t0.UnixNano())
	caseCPU.Store(cpuNow())
	curCase.Store(c)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				c.recordPanic(r, debug.Stack())
			}
		}()
		c.install()
		s.Run(c)
	}()
	c.cleanup()
	curCase.Store(nil)
	ms := time.Since(t0).Milliseconds()
	resMu.Lock()
	if ms > res.MaxCaseMS {
		res.MaxCaseMS, res.MaxCase = ms, s.Name+":"+strconv.Itoa(i)
	}
	if c.evals == 0 {
		c.evals = 1
	}
	res.Evaluations += c.evals
	if len(res.Samples) == 0 && c.label != "" {
		what := map[string]any{"what": c.label}
		for k, v := range c.notes {
			what[k] = v
		}
		res.Samples = append(res.Samples, map[string]any{"section": s.Name, "index": i, "case": what})
	}
	res.Counters["section:"+s.Name]++
	resMu.Unlock()
	return c
}

// watchdog turns a case that uses too much CPU or memory, or is blocked on a
// lock nobody will release, into a violation. Anything else that takes too
// long is left to the parent's wall clock limit, which is inconclusive.
func watchdog(p *Prop, base string) {
	page := int64(os.Getpagesize())
	idleTicks := 0
	var last *Case
	for {
		time.Sleep(250 * time.Millisecond)
		c := curCase.Load()
		if c == nil {
			idleTicks, last = 0, nil
			continue
		}
		fail := func(sig, msg string) {
			buf := make([]byte, 1<<18)
			buf = buf[:runtime.Stack(buf, true)]
			confirmed.Store(true)
			c.fail(sig, msg+"\n"+string(buf))
			res.Done = true
			writeResult(base)
			os.Exit(0)
		}
		cpu := float64(cpuNow()-caseCPU.Load()) / 1e9
		if cpu > p.CPU {
			fail("runaway-cpu", fmt.Sprintf("the case used more than %.0f s of CPU without finishing", p.CPU))
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			f := strings.Fields(string(b))
			if len(f) > 1 {
				rss, _ := strconv.ParseInt(f[1], 10, 64)
				if rss*page > 3<<30 {
					fail("runaway-memory", "the case used more than 3 GB of memory")
				}
			}
		}
		if c != last {
			idleTicks, last = 0, c
		}
		wall := float64(time.Now().UnixNano()-caseStart.Load()) / 1e9
		if wall > 60 && cpu < 5 && c.external.Load() == 0 {
			idleTicks++
			if idleTicks > 80 {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				if blockedOnLock(string(buf)) {
					fail("deadlock", "the case is blocked on a lock and uses no CPU")
				}
			}
		}
	}
}

var lockRe = regexp.MustCompile(`(?m)^goroutine \d+ \[(sync\.Mutex\.Lock|sync\.RWMutex\.R?Lock|semacquire|sync\.WaitGroup\.Wait|chan receive|chan send|select)(, \d+ minutes)?[^\]]*\]:`)

func blockedOnLock(stacks string) bool {
	for _, g := range strings.Split(stacks, "\n\n") {
		if lockRe.MatchString(g) && strings.Contains(g, "sa6mwa/krypto431") {
			return true
		}
	}
	return false
}

// --------------------------------------------------------------- parent ----

func parent(p *Prop) int {
	t0 := time.Now()
	shards := *fShards
	if shards <= 0 {
		shards = runtime.NumCPU()
	}
	if *fOnly != "" && !strings.HasSuffix(*fOnly, ":*") {
		shards = 1
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	type outcome struct {
		shard int
		err   error
	}
	ch := make(chan outcome, shards)
	var procs []*exec.Cmd
	for i := 0; i < shards; i++ {
		args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-shards", fmt.Sprint(shards),
			"-shard", fmt.Sprint(i), "-work", *fWork, "-cli", *fCLI, "-data", *fData}
		if *fOnly != "" {
			args = append(args, "-only", *fOnly)
		}
		cmd := exec.Command(self, args...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if os.Getenv("VERIF_DEBUG") != "" {
			cmd.Stderr = os.Stderr
			cmd.Stdout = os.Stderr
		}
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=2500MiB",
			"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(*fWork, fmt.Sprintf("race-%d", i)))
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		procs = append(procs, cmd)
		go func(i int, cmd *exec.Cmd) { ch <- outcome{i, cmd.Wait()} }(i, cmd)
	}
	killAll := func() {
		for _, c := range procs {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
	}
	defer killAll()
	total := &Result{Counters: map[string]int64{}}
	seen := map[uint64]struct{}{}
	known := readKnown(*fKnown, p.ID)
	deadline := time.After(time.Duration(*fTimeout) * time.Second)
	// A defect can make every case slow. There is no need to wait for all of
	// them when it has been found.
	enough := time.NewTicker(10 * time.Second)
	defer enough.Stop()
	finished := make([]bool, shards)
	stopped := func() {
		killAll()
		for i := range finished {
			if !finished[i] {
				total.Violations = append(total.Violations, savedViolations(i)...)
			}
		}
	}
	timedOut := false
	for left := shards; left > 0; {
		select {
		case o := <-ch:
			left--
			finished[o.shard] = true
			base := filepath.Join(*fWork, fmt.Sprintf("shard-%d", o.shard))
			var r Result
			b, err := os.ReadFile(base + ".result")
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			if err != nil || !r.Done {
				total.Violations = append(total.Violations, savedViolations(o.shard)...)
				mergeCrash(p, total, o.shard, base, o.err)
				continue
			}
			total.Evaluations += r.Evaluations
			for k, v := range r.Counters {
				if strings.HasPrefix(k, "max:") {
					if total.Counters[k] < v {
						total.Counters[k] = v
					}
					continue
				}
				total.Counters[k] += v
			}
			total.Violations = append(total.Violations, r.Violations...)
			total.Errors = append(total.Errors, r.Errors...)
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			if r.MaxCaseMS > total.MaxCaseMS {
				total.MaxCaseMS, total.MaxCase = r.MaxCaseMS, r.MaxCase
			}
			hb, _ := os.ReadFile(base + ".distinct")
			for i := 0; i+8 <= len(hb); i += 8 {
				seen[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
			}
		case <-deadline:
			timedOut = true
			stopped()
			left = 0
		case <-enough.C:
			if time.Since(t0) < 100*time.Second || *fTier == "thorough" && time.Since(t0) < 20*time.Minute {
				continue
			}
			found := false
			for i := range finished {
				for _, v := range savedViolations(i) {
					_, ok := known[v.Sig]
					found = found || !ok
				}
			}
			if found {
				timedOut = true
				stopped()
				left = 0
			}
		}
	}
	if p.Race {
		mergeRaces(p, total)
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	sort.SliceStable(total.Violations, func(i, j int) bool { return total.Violations[i].Sig < total.Violations[j].Sig })
	reported := map[string]bool{}
	nviol, nknown := 0, 0
	for _, v := range total.Violations {
		if reported[v.Sig] {
			continue
		}
		reported[v.Sig] = true
		if what, ok := known[v.Sig]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
			nknown++
			continue
		}
		nviol++
		if nviol > 6 {
			continue
		}
		path := filepath.Join(*fOut, fmt.Sprintf("%s-%d.json", p.ID, nviol))
		v.Replay = fmt.Sprintf("cd /verif && VERIF_SEED=%d bash run.sh %s %s -only '%s:%d'", *fSeed, p.ID, *fTier, v.Section, v.Index)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0600)
		first := v.Message
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		if len(first) > 300 {
			first = first[:300] + "..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  [%s:%d] %s: %s\n", v.Section, v.Index, v.Sig, first)
	}
	for _, e := range total.Errors {
		fmt.Fprintf(os.Stderr, "error of the check: %s\n", e)
	}
	missing := []string{}
	if *fOnly == "" {
		for _, n := range p.Need {
			if total.Counters[n] == 0 {
				missing = append(missing, n)
			}
		}
	}
	wall := time.Since(t0).Seconds()
	cov := map[string]any{
		"evaluations": total.Evaluations, "distinct_nontrivial": len(seen), "rule": p.Rule,
		"samples": total.Samples, "observed": total.Counters, "shards": shards,
		"slowest_case":        fmt.Sprintf("%s (%d ms)", total.MaxCase, total.MaxCaseMS),
		"known_findings_seen": nknown,
	}
	ev := map[string]any{"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{}, p.Assumptions...), "wall_s": wall, "violations": nviol}
	if *fEvidence != "" && *fOnly == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*fEvidence, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct, %d violations, %.1f s\n", p.ID, *fTier, total.Evaluations, len(seen), nviol, wall)
	switch {
	case nviol > 0:
		return 1
	case timedOut:
		fmt.Fprintf(os.Stderr, "inconclusive: wall clock limit of %d s reached\n", *fTimeout)
		return 2
	case len(total.Errors) > 0:
		return 2
	case len(missing) > 0:
		fmt.Fprintf(os.Stderr, "inconclusive: nothing observed for %s\n", strings.Join(missing, ", "))
		return 2
	}
	return 0
}

func mergeCrash(p *Prop, total *Result, shard int, base string, err error) {
	st, _ := os.ReadFile(base + ".state")
	f := strings.Fields(string(st))
	section, idx := "?", 0
	if len(f) == 2 {
		section = f[0]
		idx, _ = strconv.Atoi(f[1])
	}
	crash, _ := os.ReadFile(base + ".crash")
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && len(crash) == 0 {
			total.Errors = append(total.Errors, fmt.Sprintf("shard %d was killed in %s:%d (out of memory?)", shard, section, idx))
			return
		}
	}
	if section == "?" {
		total.Errors = append(total.Errors, fmt.Sprintf("shard %d ended before its first case: %v %s", shard, err, crash))
		return
	}
	sig := "process-exit"
	msg := fmt.Sprintf("the process ended in the middle of the case (%v)", err)
	if len(crash) > 0 {
		sig = "crash"
		if len(crash) > 6000 {
			crash = crash[:6000]
		}
		msg = string(bytes.TrimSpace(crash))
	}
	total.Violations = append(total.Violations, Violation{Property: p.ID, Sig: sig, Section: section, Index: idx,
		Seed: *fSeed, Tier: *fTier, Message: msg})
}

var raceFn = regexp.MustCompile(`^  ([^\s(]+(?:\([^)]*\)[^\s(]*)*)\(`)

// mergeRaces turns the reports of the race detector into violations, one per
// pair of innermost functions of the code under test.
func mergeRaces(p *Prop, total *Result) {
	files, _ := filepath.Glob(filepath.Join(*fWork, "race-*"))
	n := int64(0)
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			n++
			var names []string
			sc := bufio.NewScanner(strings.NewReader(blk))
			want := false
			for sc.Scan() {
				l := sc.Text()
				if strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine") {
					want = true
					continue
				}
				if want && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") && strings.Contains(l, "sa6mwa/krypto431") {
					name := strings.TrimSpace(l)
					if i := strings.LastIndex(name, "("); i > 0 {
						name = name[:i]
					}
					names = append(names, name)
					want = false
				}
			}
			if len(names) == 0 {
				// A race between two accesses of the harness itself would be a
				// fault of the harness.
				total.Errors = append(total.Errors, "race report without a frame of the code under test: "+blk)
				continue
			}
			sort.Strings(names)
			total.Violations = append(total.Violations, Violation{Property: p.ID, Sig: "race:" + strings.Join(names, "|"),
				Section: "race", Seed: *fSeed, Tier: *fTier, Message: "the race detector reports unsynchronised access in " + strings.Join(names, " and ") + "\n" + blk})
		}
	}
	total.Counters["race_reports"] = n
}

// readKnown reads the findings that are recorded rather than repaired:
// "finding: property=<id> sig=<signature> <what fails>". Lines that start with
// "fixed:" suppress nothing.
func readKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "sig=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
	}
	return m
}
