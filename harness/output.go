package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// ------------------------------------------------------------------- C35 ---

func init() {
	register(&Prop{ID: "C35", Level: "fault_enumeration",
		Rule:        "Keys and messages are printed as text and PDF, by the library and by the program, onto a new file, an older longer or shorter print-out or through a symbolic link, while each file system call made on the print-out in turn fails (strace injection), at file size limits (real partial writes), onto a full device, a directory and into a missing directory. What is reported as printed is compared with an undisturbed print-out of the same store; a write or close that failed must be reported; the store itself never changes. Non-trivial: distinct (kind, existing file, fault, position) that took effect.",
		Assumptions: []string{"a failing close stands for data the file system (NFS, quota) refuses at the end, unless the file was flushed before"},
		Need:        []string{"limit_failed", "limit_ok", "refused_place", "replaced"},
		Sections: []Section{
			{Name: "calls", Quick: 64, Thorough: 400, Run: c35Calls},
			{Name: "limit", Quick: 160, Thorough: 1200, Run: c35Limit},
			{Name: "place", Quick: 64, Thorough: 300, Run: c35Place},
		}})
}

// printJob prints a store in one way.
type printJob struct {
	kind, file, pfk, dir string
	pdf, cli             bool
	stored, text         []byte
	runs                 []pdfRun
}

var c35Kinds = []string{"keystext", "keyspdf", "messagestext", "messagespdf"}

func c35Job(c *Case) *printJob {
	r := c.R
	j := &printJob{dir: filepath.Join(c.Dir(), "w"), kind: c35Kinds[c.Idx%4], cli: c.Idx/4%2 == 1}
	j.pdf = strings.HasSuffix(j.kind, "pdf")
	st := filepath.Join(c.Dir(), "store")
	os.MkdirAll(st, 0700)
	os.MkdirAll(j.dir, 0700)
	j.file, j.pfk = c23Store(c, st)
	if n := pick(r, 0, 0, 5, 30); n > 0 { // more than one write buffer
		k, err := reopen(j.file, j.pfk)
		if err != nil {
			c.Error("%v", err)
		}
		for ; n > 0; n-- {
			addKeyLen(r, k, 5, 200, "QJ")
			m := newMsg(k, []rune(printText(r)), "QJ")
			m.Id = k.NewUniqueMessageId()
			k.Messages = append(k.Messages, *m)
		}
		if err := k.Save(); err != nil {
			c.Error("%v", err)
		}
	}
	j.stored, _ = os.ReadFile(j.file)
	return j
}

// cmd is the command that prints onto the target.
func (j *printJob) cmd(target string, limit ...string) []string {
	if !j.cli {
		return append([]string{self(), "-helper", "files", j.kind, j.file, j.pfk, target}, limit...)
	}
	what, typ := "keys", "txt"
	if strings.HasPrefix(j.kind, "messages") {
		what = "messages"
	}
	if j.pdf {
		typ = "pdf"
	}
	return []string{*fCLI, "--file", j.file, "--pfk", j.pfk, what, "-o", target, "--type", typ}
}

// reference prints undisturbed, onto a file of its own.
func (j *printJob) reference(c *Case) {
	target := filepath.Join(j.dir, "undisturbed")
	x := c.run(cmdOpt{}, j.cmd(target)[0], j.cmd(target)[1:]...)
	b, err := os.ReadFile(target)
	if x.code != 0 || err != nil {
		c.Fatal("refused", "%s exits with %d: %s %v", j.kind, x.code, x.err, err)
	}
	os.Remove(target)
	j.text = b
	if j.pdf {
		if j.runs, _, err = readPDF(b); err != nil {
			c.Fatal("damaged", "%s: %v", j.kind, err)
		}
	}
	if len(b) < 100 || j.pdf && len(j.runs) == 0 {
		c.Fatal("empty", "%s: the print-out has %d bytes, %d lines", j.kind, len(b), len(j.runs))
	}
}

// complete compares a file with the undisturbed print-out.
func (j *printJob) complete(target string) error {
	b, err := os.ReadFile(target)
	if err != nil {
		return err
	}
	if !j.pdf {
		if !bytes.Equal(b, j.text) {
			return fmt.Errorf("it has %d bytes instead of the %d of the print-out, or others", len(b), len(j.text))
		}
		return nil
	}
	runs, _, err := readPDF(b)
	if err != nil {
		return err
	}
	if fmt.Sprint(runs) != fmt.Sprint(j.runs) {
		return fmt.Errorf("it shows %d pieces of text instead of %d, or others", len(runs), len(j.runs))
	}
	return nil
}

// target prepares what is at the place of the print-out.
func (j *printJob) target(c *Case, kind int) (target, existed string) {
	target = filepath.Join(j.dir, "print-out")
	os.Remove(target)
	os.Remove(target + ".real")
	switch kind % 4 {
	case 0:
		return target, "a new file"
	case 1:
		os.WriteFile(target, bytes.Repeat([]byte("older print-out\n"), len(j.text)/8+10), 0600)
		c.Count("replaced", 1)
		return target, "an older longer print-out"
	case 2:
		os.WriteFile(target, []byte("short"), 0600)
		c.Count("replaced", 1)
		return target, "an older shorter print-out"
	default:
		os.WriteFile(target+".real", bytes.Repeat([]byte("older print-out\n"), len(j.text)/8+10), 0600)
		os.Symlink("print-out.real", target)
		c.Count("replaced", 1)
		return target, "a link to an older print-out"
	}
}

// verdict judges a print-out by what it reported.
func (j *printJob) verdict(c *Case, what, target string, x ran) (ok bool) {
	if strings.Contains(x.err, "goroutine ") && !strings.Contains(x.err, "SIGXFSZ") {
		c.Fatal("panic", "%s panics: %s", what, shortText([]rune(x.err)))
	}
	ok = x.code == 0 && x.signal == 0
	if ok {
		if err := j.complete(target); err != nil {
			c.Fatal("incomplete", "%s was reported as successful, but the file is not the print-out: %v", what, err)
		}
	}
	if b, err := os.ReadFile(j.file); err != nil || !bytes.Equal(b, j.stored) {
		c.Fatal("store-changed", "%s changed the store: %v", what, err)
	}
	return
}

func (j *printJob) by() string {
	if j.cli {
		return j.kind + " by the program"
	}
	return j.kind + " by the library"
}

func c35Calls(c *Case) {
	r := c.R
	if _, err := os.Stat(stracePath); err != nil {
		c.Count("strace_missing", 1)
		return
	}
	j := c35Job(c)
	j.reference(c)
	kind := c.Idx / 8
	target, existed := j.target(c, kind)
	calls := traceCalls(c, j.dir, j.cmd(target))
	if calls == nil {
		c.Count("strace_unusable", 1)
		return
	}
	j.verdict(c, j.by()+" without a fault onto "+existed, target, ran{})
	c.Count("calls", len(calls))
	type fault struct {
		call
		how   string
		vital bool
	}
	var fs []fault
	flushed := map[string]bool{}
	opened := false
	for _, x := range calls {
		if strings.HasPrefix(x.name, "openat") && (strings.Contains(x.args, "O_CREAT") || strings.Contains(x.args, "O_WRONLY") || strings.Contains(x.args, "O_RDWR")) {
			opened = true
		}
		if !opened {
			continue
		}
		path := ""
		if p := fdPath.FindStringSubmatch(x.args); p != nil {
			path = p[1]
		}
		vital := false
		switch x.name {
		case "write", "pwrite64", "writev", "copy_file_range", "rename", "renameat", "renameat2":
			vital = true
			flushed[path] = false
		case "fsync", "fdatasync":
			flushed[path] = true
		case "close":
			vital = x.dead && !flushed[path]
		}
		es := straceErrors[x.name]
		if len(es) == 0 {
			es = []string{"EIO"}
		}
		if x.name == "close" {
			es = []string{"EIO", "ENOSPC", "EDQUOT"}
		}
		fs = append(fs, fault{x, "error=" + pick(r, es...), vital})
		if x.name == "write" {
			fs = append(fs, fault{x, "error=EINTR", false})
		}
	}
	log := c.Path("inject.log")
	for _, f := range fs {
		target, existed := j.target(c, kind)
		os.Remove(log)
		what := fmt.Sprintf("%s onto %s with %s at %s number %d (%.80s)", j.by(), existed, f.how, f.name, f.n, f.args)
		c.Note("fault", what)
		x := c.run(cmdOpt{env: []string{"GOMAXPROCS=1"}}, stracePath, append([]string{"-f", "-y", "-qq", "-s", "60", "-o", log, "-e", "trace=" + f.name, "-e", fmt.Sprintf("inject=%s:%s:when=%d", f.name, f.how, f.n)}, j.cmd(target)...)...)
		lb, _ := os.ReadFile(log)
		hit := false
		for _, l := range strings.Split(string(lb), "\n") {
			hit = hit || strings.Contains(l, "(INJECTED)") && strings.Contains(l, j.dir+"/") && !strings.Contains(l, "(1<") && !strings.Contains(l, "(2<")
		}
		ok := j.verdict(c, what, target, x)
		if hit {
			c.Count("hit_"+f.name, 1)
			if ok && f.vital {
				c.Fatal("error-ignored", "%s was reported as successful", what)
			}
			c.Distinct(j.by(), existed, f.name, f.n, f.how)
		}
		c.Eval(1)
	}
}

func c35Limit(c *Case) {
	r := c.R
	j := c35Job(c)
	j.reference(c)
	for i := 0; i < 6; i++ {
		target, existed := j.target(c, r.IntN(4))
		n := pick(r, 0, 1, 511, 512, 4095, 4096, len(j.text)-1, r.IntN(len(j.text)), len(j.text)+600, 4*len(j.text))
		var x ran
		if j.cli {
			n /= 512 // blocks
			cmd := j.cmd(target)
			x = c.run(cmdOpt{}, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -f %d; ulimit -c 0; trap '' XFSZ; exec \"$@\"", n), "sh"}, cmd...)...)
		} else {
			cmd := j.cmd(target, fmt.Sprint(n))
			x = c.run(cmdOpt{}, cmd[0], cmd[1:]...)
		}
		what := fmt.Sprintf("%s onto %s with files limited to %d (the print-out has %d bytes)", j.by(), existed, n, len(j.text))
		c.Note("fault", what)
		if j.verdict(c, what, target, x) {
			c.Count("limit_ok", 1)
		} else {
			c.Count("limit_failed", 1)
		}
		c.Distinct(j.by(), existed, n)
		c.Eval(1)
	}
}

func c35Place(c *Case) {
	j := c35Job(c)
	j.reference(c)
	dir := filepath.Join(j.dir, "directory")
	os.Mkdir(dir, 0700)
	full := filepath.Join(j.dir, "full")
	os.Symlink("/dev/full", full)
	loop := filepath.Join(j.dir, "loop")
	os.Symlink("loop", loop)
	places := []string{dir, filepath.Join(j.dir, "missing", "print-out"), loop, dir + "/", filepath.Join(j.file, "below")}
	if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
		places = append(places, full)
	}
	for _, p := range places {
		cmd := j.cmd(p)
		x := c.run(cmdOpt{}, cmd[0], cmd[1:]...)
		what := fmt.Sprintf("%s onto %s", j.by(), strings.TrimPrefix(p, c.Dir()))
		if j.verdict(c, what, p, x) {
			if p == full { // the place does not hold what was printed
				c.Fatal("incomplete", "%s, a full device, was reported as successful", what)
			}
			c.Count("placed", 1)
		} else {
			if x.signal == syscall.SIGKILL {
				c.Error("%s was killed", what)
			}
			c.Count("refused_place", 1)
		}
		c.Distinct(j.by(), filepath.Base(p))
		c.Eval(1)
	}
}
