package main

import (
	"bytes"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C23 ---

func init() {
	register(&Prop{ID: "C23",
		Rule:        "Every operation that writes a file (first save, saving over, export, text and PDF print-outs of keys and messages, by the library in a process of its own and by the commands init, keys, messages, pfk) under many umasks, onto absent files, existing files of many modes and symbolic links, traced at the system call level: the mode of every file is judged at its creation and at every change of mode, and again when the operation returned, together with the list of files; and saves that fail at a file size limit or at an injected error. Non-trivial: distinct (operation, umask, what existed, outcome).",
		Assumptions: []string{"where strace can not be used, modes are judged after the operation only", "the mode an existing file had may be kept"},
		Need:        []string{"created", "rewritten", "failed", "cli", "print_outs", "stores", "without_yes"},
		Sections: []Section{
			{Name: "library", Quick: 600, Thorough: 4000, Run: c23Library},
			{Name: "cli", Quick: 330, Thorough: 2000, Run: c23CLI},
			{Name: "fail", Quick: 240, Thorough: 1200, Run: c23Fail},
		}})
}

var helperFilesOps = []string{"save", "export", "keystext", "keyspdf", "messagestext", "messagespdf"}

// helperFiles performs one operation: op store pfk target [limit].
func helperFiles(args []string) {
	op, store, pfk, target := args[0], args[1], args[2], args[3]
	k, err := reopen(store, pfk)
	if err != nil {
		fmt.Println("RESULT load-error", err)
		os.Exit(3)
	}
	if len(args) > 4 {
		n, _ := strconv.ParseUint(args[4], 10, 64)
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	// A file that does not exist needs no permission to be overwritten.
	_, err = os.Lstat(target)
	over := err == nil || pfk[0]%2 == 0
	err = nil
	os.Stat("/OPERATION-BEGINS")
	switch op {
	case "save":
		if target == store {
			k.Keys[0].Used = true
		} else {
			k.SetPersistence(target)
			k431.WithOverwritePersistenceIfExists(over)(k)
		}
		err = k.Save()
	case "export":
		e := k.ExportKeys(all, k431.WithPersistence(target), k431.WithPFKString(pfk), k431.WithOverwritePersistenceIfExists(over))
		err = e.Save()
	case "keystext":
		err = k.KeysTextFile(all, target)
	case "keyspdf":
		err = k.KeysPDF(all, target)
	case "messagestext":
		err = k.MessagesTextFile(allMsg, target)
	case "messagespdf":
		err = k.MessagesPDF(allMsg, target)
	}
	if err != nil {
		fmt.Println("RESULT error", err)
		os.Exit(1)
	}
	fmt.Println("RESULT ok")
}

// modes are the permissions of everything in a directory.
func modes(dirs ...string) map[string]os.FileMode {
	m := map[string]os.FileMode{}
	for _, d := range dirs {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if fi, err := e.Info(); err == nil && !fi.IsDir() {
				m[filepath.Join(d, e.Name())] = fi.Mode()
			}
		}
	}
	return m
}

var (
	reQuoted = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
	reMode   = regexp.MustCompile(`, (0[0-7]*)\)\s+= `)
	reFD     = regexp.MustCompile(`^\d+<([^>]*)>`)
)

// c23Watch runs a command under strace (where possible), judges each creation
// and each change of mode, and judges the directory afterwards.
//
// allowed maps a path to the mode it had before. watch are the directories the
// command may write to.
func (c *Case) c23Watch(what string, umask int, dir string, mayCreate []string, stdin string, inject []string, cmd ...string) (r ran, traced bool) {
	before := modes(dir)
	log := c.Path("trace.log")
	os.Remove(log)
	args := []string{"-c", fmt.Sprintf("umask %04o; exec \"$@\"", umask), "sh"}
	_, serr := os.Stat(stracePath)
	if serr == nil {
		args = append(args, stracePath, "-f", "-y", "-qq", "-s", "300", "-o", log, "-e", "trace=?openat,?open,?creat,?openat2,?chmod,?fchmod,?fchmodat,?fchmodat2,?mknod,?mknodat,?umask,?newfstatat,?stat,?rename,?renameat,?renameat2,?link,?linkat,?fsync")
		args = append(args, inject...)
	}
	tmp := filepath.Join(dir, "tmp")
	os.MkdirAll(tmp, 0700)
	o := cmdOpt{stdin: stdin, dir: dir, env: []string{"TMPDIR=" + tmp, "HOME=" + filepath.Join(dir, "home"), "GOMAXPROCS=1"}}
	os.MkdirAll(filepath.Join(dir, "home"), 0700)
	r = c.run(o, "/bin/sh", append(args, cmd...)...)
	b, _ := os.ReadFile(log)
	if serr == nil && len(b) == 0 {
		if len(inject) > 0 {
			return r, false
		}
		// strace does not work here
		r = c.run(o, "/bin/sh", append([]string{"-c", fmt.Sprintf("umask %04o; exec \"$@\"", umask), "sh"}, cmd...)...)
		c.Count("strace_unusable", 1)
	}
	traced = len(b) > 0
	old := func(p string) (os.FileMode, bool) {
		if m, ok := before[p]; ok {
			if m&os.ModeSymlink != 0 {
				if fi, err := os.Stat(p); err == nil {
					return fi.Mode().Perm(), true
				}
			}
			return m.Perm(), true
		}
		return 0, false
	}
	// The widest mode any existing file of the directory had bounds what a
	// temporary file that replaces it may get.
	var widest os.FileMode = 0600
	for p := range before {
		if m, ok := old(p); ok {
			for _, x := range mayCreate {
				if x == p {
					widest |= m
				}
			}
		}
	}
	known := map[string]bool{}
	for p := range before {
		known[p] = true
	}
	for _, line := range strings.Split(string(b), "\n") {
		m := straceLine.FindStringSubmatch(line)
		if m == nil || strings.Contains(line, " = -1 ") {
			continue
		}
		name, rest := m[2], m[3]
		q := reQuoted.FindStringSubmatch(rest)
		path := ""
		if q != nil {
			path = q[1]
			if !filepath.IsAbs(path) {
				path = filepath.Join(dir, path)
			}
		}
		switch {
		case strings.HasPrefix(name, "open") || name == "creat":
			if !strings.Contains(rest, "O_CREAT") && name != "creat" && !strings.Contains(rest, "O_TMPFILE") {
				continue
			}
			if strings.HasPrefix(path, "/dev/") || strings.HasPrefix(path, "/proc/") {
				continue
			}
			mm := reMode.FindStringSubmatch(rest)
			if mm == nil {
				continue
			}
			mode64, _ := strconv.ParseUint(mm[1], 8, 32)
			mode := os.FileMode(mode64) &^ os.FileMode(umask)
			if known[path] && !strings.Contains(rest, "O_TMPFILE") {
				continue
			}
			known[path] = true
			c.Count("creations_seen", 1)
			if mode&0077 != 0 {
				c.Fatal("created-wide", "%s (umask %04o): %s is created with mode %04o: %s", what, umask, filepath.Base(path), mode, line)
			}
		case strings.Contains(name, "chmod"):
			if path == "" {
				if f := reFD.FindStringSubmatch(rest); f != nil {
					path = f[1]
				}
			}
			mm := regexp.MustCompile(`, (0[0-7]*)`).FindAllStringSubmatch(rest, -1)
			if mm == nil {
				continue
			}
			mode64, _ := strconv.ParseUint(mm[0][1], 8, 32)
			mode := os.FileMode(mode64)
			c.Count("mode_changes_seen", 1)
			limit := widest
			if was, ok := old(path); ok {
				limit = was
			}
			if mode&0077&^limit != 0 {
				c.Fatal("chmod-wide", "%s (umask %04o): the mode of %s is changed to %04o: %s", what, umask, filepath.Base(path), mode, line)
			}
		}
	}
	if traced {
		c.Count("traced", 1)
	}
	after := modes(dir, tmp)
	var names []string
	for p := range after {
		names = append(names, p)
	}
	sort.Strings(names)
	allowed := map[string]bool{}
	for _, p := range mayCreate {
		allowed[p] = true
	}
	for _, p := range names {
		m := after[p]
		if m&os.ModeSymlink != 0 {
			continue
		}
		was, existed := before[p]
		if !existed {
			if !allowed[p] {
				data, _ := os.ReadFile(p)
				c.Fatal("left-behind", "%s (umask %04o): %s with %d bytes is left behind (exit %d %s)", what, umask, p, len(data), r.code, r.err)
			}
			if m.Perm()&0077 != 0 || m&(os.ModeSetuid|os.ModeSetgid) != 0 {
				c.Fatal("left-wide", "%s (umask %04o): %s was created with mode %v", what, umask, filepath.Base(p), m)
			}
			c.Count("created", 1)
			continue
		}
		if m.Perm()&^was.Perm() != 0 {
			c.Fatal("widened", "%s (umask %04o): the mode of %s was %v and is %v", what, umask, filepath.Base(p), was, m)
		}
	}
	return
}

// c23Store makes a store with keys and messages to print.
func c23Store(c *Case, dir string) (file, pfk string) {
	r := c.R
	file, pfk = filepath.Join(dir, "main"), hexKey(r)
	k := fileStation("AA", cfg{5, 60}, file, pfk)
	for i := 2 + r.IntN(4); i > 0; i-- {
		addKey(r, k, "QJ")
	}
	for i := 1 + r.IntN(3); i > 0; i-- {
		m := newMsg(k, []rune("TEXT"), "QJ")
		m.Id = k.NewUniqueMessageId()
		k.Messages = append(k.Messages, *m)
	}
	if err := k.Save(); err != nil {
		c.Error("%v", err)
	}
	os.Chmod(file, 0600)
	return
}

func c23Umask(r *mrand.Rand) int {
	return pick(r, 0, 0, 022, 077, 002, 027, 007, 0111, 055, 0377&^0200)
}

var c23Modes = []os.FileMode{0600, 0644, 0640, 0660, 0666, 0400, 0604, 0700, 0755}

// c23Target prepares what exists at the target.
func c23Target(c *Case, target string) (existed string) {
	r := c.R
	switch r.IntN(3) {
	case 0:
		return "absent"
	case 1:
		m := pick(r, c23Modes...)
		os.WriteFile(target, bytes.Repeat([]byte("x"), r.IntN(5000)), 0600)
		os.Chmod(target, m)
		return fmt.Sprintf("file %04o", m)
	default:
		m := pick(r, c23Modes...)
		os.WriteFile(target+".real", []byte("x"), 0600)
		os.Chmod(target+".real", m)
		os.Symlink(filepath.Base(target)+".real", target)
		return fmt.Sprintf("link to a file %04o", m)
	}
}

func c23Library(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	file, pfk := c23Store(c, dir)
	op := helperFilesOps[c.Idx%len(helperFilesOps)]
	target := filepath.Join(dir, "target")
	existed := "the store itself"
	umask := c23Umask(r)
	if op == "save" && r.IntN(2) == 0 {
		target = file
		m := pick(r, c23Modes...)
		os.Chmod(file, m)
		existed = fmt.Sprintf("the store itself %04o", m)
	} else {
		existed = c23Target(c, target)
	}
	what := fmt.Sprintf("%s onto: %s", op, existed)
	c.Note("what", what)
	x, _ := c.c23Watch(what, umask, dir, []string{target, target + ".real"}, "", nil, self(), "-helper", "files", op, file, pfk, target)
	if !strings.Contains(x.out, "RESULT ok") {
		c.Fatal("refused", "%s (umask %04o) failed: %s %s", what, umask, x.out, x.err)
	}
	if b, err := os.ReadFile(target); err != nil || len(b) < 100 {
		c.Fatal("nothing-written", "%s succeeded, but the file has %d bytes: %v", what, len(b), err)
	}
	if existed != "absent" {
		c.Count("rewritten", 1)
	}
	if op == "save" || op == "export" {
		c.Count("stores", 1)
	} else {
		c.Count("print_outs", 1)
	}
	c.Distinct(op, existed, umask)
	c.Eval(1)
}

func c23CLI(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	file, pfk := c23Store(c, dir)
	umask := c23Umask(r)
	target := filepath.Join(dir, "target")
	may := []string{target, target + ".real", file}
	g := []string{"--file", file, "--pfk", pfk}
	var args []string
	stdin := ""
	existed := "absent"
	rewrite := false // the store itself is written
	switch c.Idx % 11 {
	case 0:
		existed = c23Target(c, target)
		args = []string{"--file", target, "--pfk", pfk, "init", "-c", "NEW", "-n", "2", "-y"}
		if existed == "absent" && r.IntN(2) == 0 {
			args = args[:len(args)-1]
			c.Count("without_yes", 1)
		}
	case 1:
		args = append(g, "keys", "-n", "2")
		rewrite = true
	case 2:
		existed = c23Target(c, target)
		args = append(g, "keys", "-E", target, "-y")
		if existed == "absent" && r.IntN(2) == 0 {
			args = args[:len(args)-1]
			c.Count("without_yes", 1)
		}
	case 3, 4, 5, 6:
		cmd := pick(r, "keys", "messages")
		ext := pick(r, ".txt", ".pdf", "", ".TXT", ".PDF", ".dat")
		target = filepath.Join(dir, "target"+ext)
		may = []string{target, target + ".real", file}
		existed = c23Target(c, target)
		args = append(g, cmd, "-o", target)
		if ext == ".dat" || ext == "" {
			args = append(args, "--type", pick(r, "txt", "pdf"))
		}
		c.Count("print_outs", 1)
	case 7:
		args = append(g, "messages", "-n")
		stdin = "QJ DE AA = HELLO = K"
		rewrite = true
	case 8:
		args = append(g, "messages", "-n")
		stdin = "AA DE QJ = HELLO = K"
		rewrite = true
	case 9:
		args = []string{"--pfk", pfk, "pfk", "-c", file, "-k", hexKey(r), "-y"}
		rewrite = true
	case 10:
		k, _ := reopen(file, pfk)
		args = append(g, "keys", "-d", "-y", "-i", string(k.Keys[0].Id))
		rewrite = true
	}
	if rewrite {
		m := pick(r, c23Modes...)
		os.Chmod(file, m)
		existed = fmt.Sprintf("store %04o", m)
	}
	what := fmt.Sprintf("%s (target: %s)", strings.Join(args[len(args)-min(len(args), 5):], " "), existed)
	c.Note("args", args)
	x, _ := c.c23Watch(what, umask, dir, may, stdin, nil, append([]string{*fCLI}, args...)...)
	if x.code != 0 {
		c.Fatal("refused", "%s (umask %04o) exits with %d: %s", what, umask, x.code, x.err)
	}
	c.Count("cli", 1)
	if existed != "absent" {
		c.Count("rewritten", 1)
	}
	c.Distinct(c.Idx%11, existed, umask, args[len(args)-1])
	c.Eval(1)
}

// c23Fail: an operation that fails leaves nothing behind.
func c23Fail(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	file, pfk := c23Store(c, dir)
	umask := c23Umask(r)
	op := pick(r, "save", "save", "export")
	target := file
	existed := "the store itself"
	if op == "export" || r.IntN(2) == 0 {
		target = filepath.Join(dir, "target")
		existed = c23Target(c, target)
	}
	helper := []string{self(), "-helper", "files", op, file, pfk, target}
	var inject []string
	kind := r.IntN(5)
	what := fmt.Sprintf("failing %s onto: %s", op, existed)
	switch kind {
	case 0, 1:
		n := pick(r, 0, 1, 40, 100, 300, 700)
		helper = append(helper, fmt.Sprint(n))
		what += fmt.Sprintf(", at %d bytes", n)
	case 2:
		inject = []string{"-e", "inject=rename,renameat,renameat2,link,linkat:error=" + pick(r, "EIO", "EACCES", "ENOSPC")}
		what += ", renaming fails"
	case 3:
		inject = []string{"-e", "inject=fsync:error=" + pick(r, "EIO", "ENOSPC")}
		what += ", syncing fails"
	case 4:
		inject = []string{"-e", "inject=chmod,fchmod,fchmodat,fchmodat2:error=EPERM"}
		what += ", changing the mode fails"
	}
	c.Note("what", what)
	may := []string{}
	if existed != "absent" {
		may = []string{target, target + ".real"}
	}
	if kind == 4 {
		may = []string{target, target + ".real"} // it need not fail then
	}
	if kind == 3 || kind == 2 {
		may = []string{target, target + ".real"} // nor without that call
	}
	x, traced := c.c23Watch(what, umask, dir, may, "", inject, helper...)
	if kind > 1 && !traced {
		return
	}
	if strings.Contains(x.out, "RESULT ok") {
		c.Count("not_failed", 1)
	} else if strings.Contains(x.out, "RESULT error") {
		c.Count("failed", 1)
	} else {
		c.Fatal("panic", "%s: %s %s", what, x.out, x.err)
	}
	c.Distinct(what, umask)
	c.Eval(1)
}
