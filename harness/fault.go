package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C13 ---

func init() {
	register(&Prop{ID: "C13", Level: "fault_enumeration",
		Rule:        "A store is loaded, changed (grown, shrunk, same size) and saved over in a process of its own, while at every file system call it makes on the store's directory, one after the other, that call fails (no space, I/O error, quota, too large, read-only) or the process is killed there (strace injection); at every file size limit (real partial writes); killed at arbitrary moments; onto a full device, into a missing directory and through symbolic links. Afterwards the file must load as the previous or the new store, as success claims. Non-trivial: distinct (fault, call, position) that took effect.",
		Assumptions: []string{"strace is used where it works; the file size limit and the kills need no privilege", "power loss is not simulated, only the process dies"},
		Need:        []string{"limit", "limit_failed", "limit_ok", "killed", "still_old", "is_new", "special", "retry_ok", "long_name"},
		Sections: []Section{
			{Name: "syscalls", Quick: 24, Thorough: 300, Run: c13Syscalls},
			{Name: "limit", Quick: 60, Thorough: 1500, Run: c13Limit},
			{Name: "kill", Quick: 60, Thorough: 2000, Run: c13Kill},
			{Name: "special", Quick: 40, Thorough: 600, Run: c13Special},
		}})
}

type c13Store struct {
	file, pfk  string
	seed       uint64
	old, new   snap
	oldBytes   []byte
	dir        string
	real, link string
}

func c13Setup(c *Case, nkeys int) *c13Store {
	r := c.R
	s := &c13Store{dir: filepath.Join(c.Dir(), "st"), pfk: hexKey(r), seed: r.Uint64()}
	os.MkdirAll(s.dir, 0700)
	s.file = filepath.Join(s.dir, "store")
	if r.IntN(3) == 0 { // as long as a name can be
		s.file = filepath.Join(s.dir, strings.Repeat("s", 235+r.IntN(21)))
		c.Count("long_name", 1)
	}
	s.real = s.file
	k := fileStation("OLD", cfg{5, 80}, s.file, s.pfk)
	for i := 0; i < nkeys; i++ {
		addKeyLen(r, k, 5, 80, "AA", "BB")
	}
	for i := r.IntN(3); i > 0; i-- {
		k.Messages = append(k.Messages, anyMessage(r, k))
	}
	if err := k.Save(); err != nil {
		c.Fatal("save", "saving failed: %v", err)
	}
	s.old = snapOf(k)
	s.oldBytes, _ = os.ReadFile(s.file)
	c13Modify(k, s.seed)
	s.new = snapOf(k)
	if r.IntN(4) == 0 { // through a symbolic link
		s.real = filepath.Join(s.dir, "real")
		os.Rename(s.file, s.real)
		os.Symlink("real", s.file)
	}
	return s
}

// restore puts the previous store back and removes what was left behind.
func (s *c13Store) restore(c *Case) {
	es, _ := os.ReadDir(s.dir)
	for _, e := range es {
		p := filepath.Join(s.dir, e.Name())
		if p != s.file && p != s.real {
			os.Remove(p)
		}
	}
	if s.real != s.file {
		if t, err := os.Readlink(s.file); err != nil || t != "real" {
			os.Remove(s.file)
			os.Symlink("real", s.file)
		}
	}
	os.Remove(s.real)
	if err := os.WriteFile(s.real, s.oldBytes, 0600); err != nil {
		c.Error("%v", err)
	}
}

// verdict judges the file after a fault; success tells what the save reported
// (nil: the process died).
func (s *c13Store) verdict(c *Case, what string, success *bool, reportedErr string) {
	k, err := reopen(s.file, s.pfk)
	if err != nil {
		c.Fatal("store-lost", "%s: the file does not load any more: %v (the save reported %v %s)", what, err, success != nil && *success, reportedErr)
	}
	got := snapOf(k)
	isOld, isNew := diff(s.old, got) == "", diff(s.new, got) == ""
	if !isOld && !isNew {
		c.Fatal("mixed", "%s: the file is neither the previous nor the new store: %s", what, diff(s.old, got))
	}
	if strings.Contains(reportedErr, "RETRY ok") {
		c.Count("retry_ok", 1)
		if !isNew {
			c.Fatal("false-success", "%s: saving once more reported success, but the file is the previous store", what)
		}
	}
	if strings.Contains(reportedErr, "RETRY error") {
		c.Fatal("retry", "%s: saving once more fails as well though nothing has changed: %s", what, reportedErr)
	}
	if success != nil && *success && !isNew {
		c.Fatal("false-success", "%s: saving reported success, but the file is the previous store", what)
	}
	if isNew {
		c.Count("is_new", 1)
	} else {
		c.Count("still_old", 1)
	}
}

func (s *c13Store) helper(c *Case, what string, r ran) (success *bool, msg string) {
	i := strings.Index(r.out, "RESULT ")
	t, f := true, false
	switch {
	case r.signal == syscall.SIGKILL && i < 0:
		c.Count("killed", 1)
		return nil, ""
	case i < 0:
		if strings.Contains(r.err, "panic") || strings.Contains(r.err, "goroutine ") {
			c.Fatal("panic", "%s: saving panics: %s", what, shortText([]rune(r.err)))
		}
		if r.signal != 0 || r.code > 128 {
			c.Count("killed", 1)
			return nil, ""
		}
		return nil, "" // died without a word
	}
	msg = strings.TrimSpace(r.out[i:])
	if strings.HasPrefix(msg, "RESULT ok") {
		return &t, msg
	}
	if strings.HasPrefix(msg, "RESULT rlimit-error") {
		c.Error("%s", msg)
	}
	return &f, msg
}

func c13Limit(c *Case) {
	r := c.R
	s := c13Setup(c, 5+r.IntN(40))
	size := len(s.oldBytes)
	var limits []int
	for i := 0; i < 12; i++ {
		limits = append(limits, r.IntN(size+size/2+200))
	}
	limits = append(limits, 0, 1, 3, 4, 40, size-1, size-4, size)
	if r.IntN(3) == 0 {
		limits = append(limits, size*4) // large enough
	}
	for _, n := range limits {
		if n < 0 {
			continue
		}
		what := fmt.Sprintf("file size limited to %d bytes (previous store %d)", n, size)
		c.Note("fault", what)
		ok, msg := s.helper(c, what, c.run(cmdOpt{}, self(), "-helper", pick(r, "save", "retry"), s.file, s.pfk, fmt.Sprint(s.seed), fmt.Sprint(n)))
		c.Count("limit", 1)
		if ok != nil && *ok {
			c.Count("limit_ok", 1)
		} else {
			c.Count("limit_failed", 1)
			c.Distinct(c.Idx, n)
		}
		s.verdict(c, what, ok, msg)
		c.Eval(1)
		s.restore(c)
	}
}

func c13Kill(c *Case) {
	r := c.R
	s := c13Setup(c, 100+r.IntN(600))
	for i := 0; i < 6; i++ {
		wait := time.Duration(r.IntN(30000)) * time.Microsecond
		cmd := exec.Command(self(), "-helper", "save", s.file, s.pfk, fmt.Sprint(s.seed))
		cmd.Env = []string{"HOME=" + c.Dir(), "TMPDIR=" + c.Dir(), "GOMAXPROCS=2"}
		p, err := cmd.StdoutPipe()
		if err != nil {
			c.Error("%v", err)
		}
		c.external.Add(1)
		if err := cmd.Start(); err != nil {
			c.Error("%v", err)
		}
		timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
		br := bufio.NewReader(p)
		line, _ := br.ReadString('\n')
		if strings.HasPrefix(line, "SAVING") {
			time.Sleep(wait)
		}
		cmd.Process.Kill()
		rest, _ := br.ReadString(0)
		cmd.Wait()
		c.external.Add(-1)
		if !timer.Stop() {
			c.Error("the helper ran for too long")
		}
		what := fmt.Sprintf("killed %v into saving", wait)
		c.Note("fault", what)
		ok, msg := s.helper(c, what, ran{out: line + rest, signal: syscall.SIGKILL})
		s.verdict(c, what, ok, msg)
		c.Eval(1)
		c.Distinct(c.Idx, i)
		s.restore(c)
	}
}

var (
	straceLine   = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)$`)
	fileSyscalls = []string{"openat", "open", "creat", "write", "pwrite64", "writev", "fsync", "fdatasync", "sync_file_range", "ftruncate", "truncate", "fallocate", "fchmod", "fchmodat", "fchmodat2", "chmod", "close", "rename", "renameat", "renameat2", "link", "linkat", "unlink", "unlinkat", "copy_file_range", "fchown", "fchownat", "utimensat", "msync"}
	stracePath   = "/usr/bin/strace"
	straceErrors = map[string][]string{
		"write": {"ENOSPC", "EIO", "EDQUOT", "EFBIG"}, "pwrite64": {"ENOSPC", "EIO"}, "writev": {"ENOSPC"}, "fsync": {"EIO", "ENOSPC"}, "fdatasync": {"EIO"},
		"close": {"EIO"}, "rename": {"EACCES", "ENOSPC"}, "renameat": {"EACCES", "EIO", "ENOSPC"}, "renameat2": {"EACCES"}, "openat": {"EACCES", "EMFILE", "ENOSPC", "EROFS"},
		"fchmodat": {"EPERM"}, "fchmod": {"EPERM"}, "chmod": {"EPERM"}, "unlinkat": {"EACCES"}, "ftruncate": {"EIO"}, "link": {"EIO"}, "linkat": {"EIO"}, "copy_file_range": {"EIO", "ENOSPC"},
	}
)

type call struct {
	name string
	n    int // occurrence of this call in the thread
	args string
	dead bool // the call is made after writing to the path
}

// traceCalls lists the calls of the helper on the given directory; nil if
// strace can not be used here.
func traceCalls(c *Case, dir string, cmd []string) (out []call) {
	log := c.Path("trace.log")
	os.Remove(log)
	args := append([]string{"-f", "-y", "-qq", "-s", "200", "-o", log, "-e", "trace=" + "?" + strings.Join(fileSyscalls, ",?")}, cmd...)
	r := c.run(cmdOpt{env: []string{"GOMAXPROCS=1"}}, stracePath, args...)
	b, _ := os.ReadFile(log)
	if len(b) == 0 || r.code != 0 {
		return nil
	}
	counts := map[string]int{}
	written := map[string]bool{}
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		m := straceLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		key := m[1] + m[2]
		counts[key]++
		if !strings.Contains(m[3], dir+"/") && !strings.Contains(m[3], "<"+dir+">") {
			continue
		}
		x := call{name: m[2], n: counts[key], args: m[3]}
		if q := quoted.FindStringSubmatch(m[3]); strings.HasPrefix(m[2], "openat") && q != nil && strings.Contains(m[3], "O_RDONLY") {
			delete(written, q[1]) // written through another descriptor
		}
		if p := fdPath.FindStringSubmatch(m[3]); p != nil {
			if strings.HasPrefix(m[2], "write") || strings.HasPrefix(m[2], "pwrite") {
				written[p[1]] = true
			}
			x.dead = written[p[1]]
		}
		out = append(out, x)
	}
	return
}

func c13Syscalls(c *Case) {
	r := c.R
	if _, err := os.Stat(stracePath); err != nil {
		c.Count("strace_missing", 1)
		return
	}
	s := c13Setup(c, 3+r.IntN(8))
	helper := []string{self(), "-helper", pick(r, "save", "retry"), s.file, s.pfk, fmt.Sprint(s.seed)}
	calls := traceCalls(c, s.dir, helper)
	if calls == nil {
		c.Count("strace_unusable", 1)
		return
	}
	s.verdict(c, "no fault", nil, "")
	s.restore(c)
	c.Count("strace_calls", len(calls))
	c13Flushed(c, s.file, calls)
	kinds := map[string]int{}
	for _, x := range calls {
		kinds[x.name]++
	}
	type fault struct {
		call
		how string
	}
	var fs []fault
	seenOpen := false
	for _, x := range calls {
		if strings.HasPrefix(x.name, "openat") && (strings.Contains(x.args, "O_CREAT") || strings.Contains(x.args, "O_WRONLY") || strings.Contains(x.args, "O_RDWR")) {
			seenOpen = true
		}
		if !seenOpen {
			continue // loading
		}
		es := straceErrors[x.name]
		if len(es) == 0 {
			es = []string{"EIO"}
		}
		fs = append(fs, fault{x, "error=" + es[(c.Idx+x.n)%len(es)]}, fault{x, "signal=KILL"})
	}
	limit := 90
	if len(fs) > limit && !c.Thorough {
		// keep all but some of the writes
		var keep []fault
		for _, f := range fs {
			if f.name != "write" || kinds["write"] <= 10 || r.IntN(len(fs)) < limit {
				keep = append(keep, f)
			}
		}
		fs = keep
	}
	log := c.Path("inject.log")
	for _, f := range fs {
		os.Remove(log)
		inj := fmt.Sprintf("inject=%s:%s:when=%d", f.name, f.how, f.n)
		args := append([]string{"-f", "-y", "-qq", "-s", "60", "-o", log, "-e", "trace=" + f.name, "-e", inj}, helper...)
		what := fmt.Sprintf("%s at %s number %d (%.100s)", f.how, f.name, f.n, f.args)
		c.Note("fault", what)
		res := c.run(cmdOpt{env: []string{"GOMAXPROCS=1"}}, stracePath, args...)
		ok, msg := s.helper(c, what, res)
		lb, _ := os.ReadFile(log)
		hit := ""
		for _, l := range strings.Split(string(lb), "\n") {
			if strings.Contains(l, "(INJECTED)") && strings.Contains(l, s.dir+"/") {
				hit = l
			}
		}
		s.verdict(c, what, ok, msg)
		if strings.HasPrefix(f.how, "error=") && hit != "" {
			c.Count("strace_errors_hit", 1)
			c.Count("hit_"+f.name, 1)
			// The data or its place on disk was refused: that can not be a success.
			essential := map[string]bool{"write": true, "pwrite64": true, "writev": true, "fsync": true, "fdatasync": true, "rename": true, "renameat": true, "renameat2": true}
			if (essential[f.name] || f.name == "close" && f.dead) && ok != nil && *ok {
				c.Fatal("error-ignored", "%s: saving reported success", what)
			}
		} else if strings.HasPrefix(f.how, "signal") && ok == nil {
			c.Count("strace_kills", 1)
		}
		c.Distinct(c.Idx, f.name, f.n, f.how)
		c.Eval(1)
		s.restore(c)
	}
	if c.Idx < 2 {
		var l []string
		for _, x := range calls {
			l = append(l, x.name)
		}
		c.Sample(map[string]any{"file_system_calls_of_a_save": strings.Join(l, " ")})
	}
}

var fdPath = regexp.MustCompile(`<([^>]*)>`)

// c13Flushed expects what is renamed to the store to be flushed to disk first,
// or the name may be on disk before the data is.
func c13Flushed(c *Case, file string, calls []call) {
	type state struct{ written, dirty bool }
	files := map[string]*state{}
	named := false // but not on disk yet
	defer func() {
		if named {
			c.Fatal("name-not-flushed", "a save ends without the new name of the store being flushed to disk: the old store, its keys unused, may be back after a power failure")
		}
	}()
	for _, x := range calls {
		if strings.HasPrefix(x.name, "rename") {
			q := quoted.FindAllStringSubmatch(x.args, -1)
			if len(q) == 2 && q[1][1] == file && files[q[0][1]] != nil && files[q[0][1]].written {
				if files[q[0][1]].dirty {
					c.Fatal("not-flushed", "%s takes the place of the store before its data is flushed to disk", q[0][1])
				}
				c.Count("flushed_first", 1)
				named = true
			}
			continue
		}
		m := fdPath.FindStringSubmatch(x.args)
		if m == nil {
			continue
		}
		f := files[m[1]]
		if f == nil {
			f = &state{}
			files[m[1]] = f
		}
		switch x.name {
		case "write", "pwrite64", "writev", "copy_file_range":
			f.written, f.dirty = true, true
		case "fsync", "fdatasync":
			f.dirty = false
			if named && m[1] == filepath.Dir(file) {
				named = false
				c.Count("name_flushed", 1)
			}
		}
	}
}

var quoted = regexp.MustCompile(`"([^"]*)"`)

func c13Special(c *Case) {
	r := c.R
	pfk := hexKey(r)
	k := fileStation("SA6MWA", cfg{5, 80}, "", pfk)
	for i := 0; i < 1+r.IntN(60); i++ {
		addKeyLen(r, k, 5, 80)
	}
	switch c.Idx % 5 {
	case 0: // a full device
		k.SetPersistence("/dev/full")
		if err := k.Save(); err == nil {
			c.Fatal("full-device", "saving onto a full device reports success")
		}
	case 1: // no such directory
		k.SetPersistence(c.Path("no/such/dir/store"))
		if err := k.Save(); err == nil {
			c.Fatal("no-directory", "saving into a missing directory reports success")
		}
	case 2: // a directory
		d := c.Path("adir")
		os.Mkdir(d, 0700)
		os.WriteFile(filepath.Join(d, "x"), []byte("x"), 0600)
		k.SetPersistence(d)
		if err := k.Save(); err == nil {
			c.Fatal("directory", "saving over a directory reports success")
		}
		if b, _ := os.ReadFile(filepath.Join(d, "x")); string(b) != "x" {
			c.Fatal("directory", "saving over a directory destroyed it")
		}
	case 3: // no file name or no key
		k.SetPersistence("")
		if err := k.Save(); err == nil {
			c.Fatal("no-name", "saving without a file name reports success")
		}
		n := newStation(k431.WithPersistence(c.Path("nokey")), k431.WithOverwritePersistenceIfExists(true))
		if err := n.Save(); err == nil {
			c.Fatal("no-key", "saving without a key reports success")
		}
	case 4: // success means it is there, through relative and linked names
		f := c.Path("store")
		os.Symlink("target", f)
		if r.IntN(2) == 0 {
			os.WriteFile(c.Path("target"), []byte("old"), 0600)
		}
		k.SetPersistence(f)
		if err := k.Save(); err == nil {
			n, err := reopen(f, pfk)
			if err != nil {
				c.Fatal("false-success", "saved through a symbolic link, but it does not load: %v", err)
			}
			if d := diff(snapOf(k), snapOf(n)); d != "" {
				c.Fatal("false-success", "saved through a symbolic link: %s", d)
			}
		}
	}
	c.Count("special", 1)
	c.Distinct(c.Idx)
}
