package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C14 ---

func init() {
	register(&Prop{ID: "C14",
		Rule:        "Every combination of what already exists at the path (a store under the same key, a store under another key, text, an empty file, a symbolic link, a directory) with every way to write a store there (saving a new, a loaded or a changed station, exporting keys, the init and export commands, with a terminal and an answer or without) while the file's bytes, inode and time stamps and the directory listing are compared before and after; and the allowed cases, which have to write. Non-trivial: a refused operation on an existing file, distinct by case and contents.",
		Assumptions: []string{"a symbolic link that points nowhere is not an existing file", "print-outs are written over existing files by design and not covered"},
		Need:        []string{"refused", "allowed", "created", "cli_refused", "cli_allowed", "declined", "other_than_loaded"},
		Sections: []Section{
			{Name: "library", Quick: 400, Thorough: 8000, Run: c14Library},
			{Name: "cli", Quick: 96, Thorough: 1200, Run: c14CLI},
			{Name: "terminal", Quick: 16, Thorough: 120, Run: c14Terminal},
		}})
}

type fileState struct {
	data   []byte
	mode   os.FileMode
	ino    uint64
	mtime  int64
	target string
	dir    string
}

// stateOf is everything a reader of a path can see.
func stateOf(path string) fileState {
	var s fileState
	fi, err := os.Lstat(path)
	if err != nil {
		return s
	}
	s.mode = fi.Mode()
	if st, ok := fi.Sys().(*syscall.Stat_t); ok {
		s.ino, s.mtime = st.Ino, st.Mtim.Nano()
	}
	s.target, _ = os.Readlink(path)
	if fi2, err := os.Stat(path); err == nil && fi2.Mode().IsRegular() {
		s.data, _ = os.ReadFile(path)
	}
	s.dir = listing(filepath.Dir(path))
	return s
}

func listing(dir string) string {
	es, _ := os.ReadDir(dir)
	var n []string
	for _, e := range es {
		n = append(n, e.Name())
	}
	return strings.Join(n, "\n")
}

func (a fileState) diff(b fileState) string {
	switch {
	case !bytes.Equal(a.data, b.data):
		return fmt.Sprintf("its %d bytes became other %d bytes", len(a.data), len(b.data))
	case a.mode != b.mode:
		return fmt.Sprintf("mode %v became %v", a.mode, b.mode)
	case a.ino != b.ino:
		return "it was replaced by another file"
	case a.mtime != b.mtime:
		return "it was written to"
	case a.target != b.target:
		return "the link points elsewhere"
	case a.dir != b.dir:
		return fmt.Sprintf("the directory had %q and now has %q", a.dir, b.dir)
	}
	return ""
}

// existing puts something at the path and tells what.
func c14Existing(c *Case, r *rand.Rand, kind int, path, pfk string) (what string, loadable bool) {
	put := func(p, key string) {
		k := fileStation("OLD"+string(letters(r, 3)), cfg{5, 50}, p, key)
		for i := r.IntN(4); i > 0; i-- {
			addKey(r, k, "QJ")
		}
		if err := k.Save(); err != nil {
			c.Fatal("create", "can not create a store where nothing existed: %v", err)
		}
		c.Count("created", 1)
	}
	switch kind {
	case 0:
		put(path, pfk)
		return "a store", true
	case 1:
		put(path, hexKey(r))
		return "a store under another key", false
	case 2:
		os.WriteFile(path, []byte("my notes\n"+string(letters(r, r.IntN(9000)))), 0644)
		return "a text file", false
	case 3:
		os.WriteFile(path, nil, 0600)
		return "an empty file", false
	case 4:
		put(path+".real", pfk)
		os.Symlink(path+".real", path)
		return "a symbolic link to a store", true
	case 5:
		os.WriteFile(path+".real", []byte("other file"), 0600)
		os.Symlink(filepath.Base(path)+".real", path)
		return "a symbolic link to a file", false
	}
	os.Mkdir(path, 0700)
	return "a directory", false
}

func c14Library(c *Case) {
	r := c.R
	kind := c.Idx % 7
	op := c.Idx / 7 % 6
	path := c.Path(pick(r, "store", "with space", ".gob", "å"))
	pfk := hexKey(r)
	what, loadable := c14Existing(c, r, kind, path, pfk)
	old := time.Now().Add(-time.Hour)
	os.Chtimes(path, old, old)
	before := stateOf(path)
	c.Note("existing", what)
	c.Note("operation", op)
	station := func(opts ...k431.Option) *k431.Krypto431 {
		k := newStation(append([]k431.Option{k431.WithCallSign("NEW"), k431.WithPersistence(path), k431.WithPFKString(pfk), k431.WithInteractive(r.IntN(2) == 0)}, opts...)...)
		for i := r.IntN(5); i > 0; i-- {
			addKey(r, k, "QJ")
		}
		return k
	}
	refused := func(name string, err error) {
		if d := before.diff(stateOf(path)); d != "" {
			c.Fatal("overwritten", "%s: %s exists and was not allowed to be overwritten, but %s (err %v)", name, what, d, err)
		}
		c.Check(err != nil, "no-error", "%s onto %s was refused without an error", name, what)
		c.Count("refused", 1)
		c.Sample(map[string]any{"operation": name, "existing": what, "error": fmt.Sprint(err)})
		c.Distinct(kind, op, fmt.Sprint(before.data))
	}
	switch op {
	case 0:
		k := station()
		err := k.Save()
		refused("saving a new station", err)
		err = k.Save()
		refused("saving a new station again", err)
		if r.IntN(2) == 0 {
			err = station(k431.WithOverwritePersistenceIfExists(false)).Save()
			refused("saving with the option off", err)
		}
	case 1: // saving elsewhere does not allow this file
		k := station()
		k.SetPersistence(c.Path("first"))
		if err := k.Save(); err != nil {
			c.Fatal("create", "saving to a new file: %v", err)
		}
		c.Count("created", 1)
		before.dir = listing(c.Dir())
		k.SetPersistence(path)
		refused("saving to a second file", k.Save())
	case 2: // loading another file does not allow this one
		k := station()
		k.SetPersistence(c.Path("first"))
		if err := k.Save(); err != nil {
			c.Fatal("create", "saving to a new file: %v", err)
		}
		before.dir = listing(c.Dir())
		l := newStation(k431.WithPersistence(c.Path("first")), k431.WithPFKString(pfk))
		if err := l.Load(); err != nil {
			c.Fatal("load", "loading: %v", err)
		}
		addKey(r, l, "QJ")
		l.SetPersistence(path)
		refused("saving elsewhere than loaded from", l.Save())
		c.Count("other_than_loaded", 1)
		// Nor is a copy of it, the same in contents and name, the file it was loaded from.
		os.Mkdir(c.Path("copy"), 0700)
		b, err := os.ReadFile(c.Path("first"))
		if err != nil {
			c.Error("%v", err)
		}
		for _, name := range []string{"copy/first", "copy/second"} {
			if err := os.WriteFile(c.Path(name), b, 0600); err != nil {
				c.Error("%v", err)
			}
			cb := stateOf(c.Path(name))
			l.SetPersistence(c.Path(name))
			err = l.Save()
			if d := cb.diff(stateOf(c.Path(name))); d != "" {
				c.Fatal("overwritten", "a copy of the store in another place exists and was not allowed to be overwritten, but %s (err %v)", d, err)
			}
			c.Check(err != nil, "no-error", "saving over a copy of the store was refused without an error")
			c.Count("copies", 1)
		}
		l.SetPersistence(c.Path("first"))
		if err := l.Save(); err != nil {
			c.Fatal("loaded-refused", "saving to the file it was loaded from: %v", err)
		}
		c.Count("allowed", 1)
	case 3: // a failed load allows nothing
		if loadable {
			k := newStation(k431.WithPersistence(path), k431.WithPFKString(hexKey(r)))
			if k.Load() == nil {
				c.Fatal("load", "loaded with a wrong key")
			}
			k.SetCallSign("NEW")
			refused("saving after failing to load", k.Save())
			return
		}
		k := station()
		if k.Load() == nil {
			c.Fatal("load", "loaded %s", what)
		}
		refused("saving after failing to load", k.Save())
	case 4: // exporting
		k := station(k431.WithOverwritePersistenceIfExists(true), k431.WithPersistence(c.Path("main")))
		addKey(r, k, "QJ")
		if err := k.Save(); err != nil {
			c.Fatal("create", "saving: %v", err)
		}
		main := k
		if r.IntN(2) == 0 {
			main = newStation(k431.WithPersistence(c.Path("main")), k431.WithPFKString(pfk))
			if err := main.Load(); err != nil {
				c.Fatal("load", "loading: %v", err)
			}
		}
		before.dir = listing(c.Dir())
		e := main.ExportKeys(all, k431.WithPersistence(path))
		err := e.Save()
		refused("saving an export", err)
		// The exported instance does not take over the permission for the main store.
		mb := stateOf(c.Path("main"))
		e = main.ExportKeys(all, k431.WithPersistence(c.Path("main")))
		err = e.Save()
		if d := mb.diff(stateOf(c.Path("main"))); d != "" {
			c.Fatal("overwritten", "the export was saved over the store it came from: %s", d)
		}
		c.Check(err != nil, "no-error", "saving an export over the store was refused without an error")
	case 5: // allowed
		k := station(k431.WithOverwritePersistenceIfExists(true))
		if kind == 6 {
			err := k.Save()
			refused("saving onto a directory", err)
			return
		}
		if loadable && r.IntN(2) == 0 {
			k = newStation(k431.WithPersistence(path), k431.WithPFKString(pfk))
			if err := k.Load(); err != nil {
				c.Fatal("load", "loading: %v", err)
			}
			addKey(r, k, "QJ")
		}
		for i := 0; i < 2; i++ {
			addKey(r, k, "QJ")
			if err := k.Save(); err != nil {
				c.Fatal("allowed-refused", "saving over %s was allowed, but: %v", what, err)
			}
			l, err := reopen(path, pfk)
			if err != nil {
				c.Fatal("allowed-lost", "saved over %s, but it does not load: %v", what, err)
			}
			if d := diff(snapOf(k), snapOf(l)); d != "" {
				c.Fatal("allowed-lost", "saved over %s, but: %s", what, d)
			}
		}
		c.Count("allowed", 1)
	}
	c.Eval(1)
}

func c14CLI(c *Case) {
	r := c.R
	kind := c.Idx % 7
	op := c.Idx / 7 % 4
	path := c.Path("target")
	pfk := hexKey(r)
	what, _ := c14Existing(c, r, kind, path, pfk)
	main := c.Path("main")
	if op >= 2 {
		k := fileStation("AA", cfg{5, 50}, main, pfk)
		for i := 1 + r.IntN(4); i > 0; i-- {
			addKey(r, k, "QJ")
		}
		if err := k.Save(); err != nil {
			c.Fatal("create", "%v", err)
		}
	}
	before := stateOf(path)
	mainBefore := stateOf(main)
	yes := op%2 == 1
	var args []string
	if op < 2 {
		args = []string{"--file", path, "--pfk", pfk, "init", "-c", "NEW", "-n", "2"}
	} else {
		args = []string{"--file", main, "--pfk", pfk, "keys", "-E", path}
	}
	if yes {
		args = append(args, pick(r, "-y", "--yes", "--yes=true"))
	} else if r.IntN(2) == 0 {
		args = append(args, pick(r, "-y=false", "--yes=false"))
	}
	// Whatever else is asked for in the same command allows nothing.
	if op < 2 {
		for i := r.IntN(3); i > 0; i-- {
			args = append(args, pick(r, []string{"-k", "QJ"}, []string{"--expire", "010101ZJAN39"}, []string{"-l", "60"}, []string{"-g", "4"}, []string{"--columns", "90"}, []string{"--key-columns", "40"})...)
		}
	} else {
		for i := r.IntN(4); i > 0; i-- {
			args = append(args, pick(r, []string{"--all"}, []string{"--all"}, []string{"-l"}, []string{"-u"}, []string{"-U"}, []string{"--invalid"}, []string{"--expired"}, []string{"-C"}, []string{"--valid", "3"}, []string{"--or"}, []string{"-k", "QJ"}, []string{"-i", "ABCDE"}, []string{"-o", "/dev/null", "-t", "txt", "--all"}, []string{"-t", "txt"}, []string{"-n", "0"}, []string{"-d=false"}, []string{"-x", "010101ZJAN39"})...)
		}
	}
	env := []string(nil)
	if r.IntN(3) == 0 { // the same by environment
		env = []string{"KRYPTO_FILE=" + args[1], "KRYPTO_PFK=" + pfk}
		args = args[4:]
	}
	c.Note("args", args)
	c.Note("existing", what)
	x := c.run(cmdOpt{env: env}, *fCLI, args...)
	after := stateOf(path)
	if yes && kind != 6 {
		if x.code != 0 {
			c.Fatal("allowed-refused", "%v over %s: exit %d: %s", args, what, x.code, x.err)
		}
		l, err := reopen(path, pfk)
		if err != nil {
			c.Fatal("allowed-lost", "%v over %s exited 0, but it does not load: %v", args, what, err)
		}
		if op < 2 {
			c.Check(string(l.CallSign) == "NEW" && len(l.Keys) == 2, "allowed-lost", "init over %s left call-sign %q and %d keys", what, string(l.CallSign), len(l.Keys))
		}
		c.Count("cli_allowed", 1)
	} else {
		if d := before.diff(after); d != "" {
			c.Fatal("cli-overwritten", "%v: %s exists, but %s (exit %d: %s)", args, what, d, x.code, x.err)
		}
		c.Check(x.code != 0, "cli-exit", "%v was refused with exit status 0: %s", args, x.err)
		c.Count("cli_refused", 1)
		c.Distinct(args, what)
	}
	if op >= 2 {
		mainBefore.dir = ""
		m := stateOf(main)
		m.dir = ""
		if d := mainBefore.diff(m); d != "" {
			c.Fatal("cli-main", "exporting wrote to the store itself: %s", d)
		}
		// Onto itself.
		x := c.run(cmdOpt{}, *fCLI, "--file", main, "--pfk", pfk, "keys", "-E", main)
		m = stateOf(main)
		m.dir = ""
		if d := mainBefore.diff(m); d != "" {
			c.Fatal("cli-main", "exporting onto the store itself changed it: %s", d)
		}
		c.Check(x.code != 0, "cli-exit", "exporting onto the store itself was refused with exit status 0")
	}
	c.Eval(1)
}

// c14Terminal answers the question whether to overwrite.
func c14Terminal(c *Case) {
	r := c.R
	path := c.Path("target")
	pfk := hexKey(r)
	kind := r.IntN(6)
	what, _ := c14Existing(c, r, kind, path, pfk)
	args := []string{"--file", path, "--pfk", pfk, "init", "-c", "NEW", "-n", "1"}
	if c.Idx%2 == 1 {
		k := fileStation("AA", cfg{5, 50}, c.Path("main"), pfk)
		addKey(r, k, "QJ")
		if err := k.Save(); err != nil {
			c.Fatal("create", "%v", err)
		}
		args = []string{"--file", c.Path("main"), "--pfk", pfk, "keys", "-E", path}
	}
	before := stateOf(path)
	answer := pick(r, "n\r", "\r", "y\r", "\x03")
	c.Note("answer", answer)
	c.Note("args", args)
	x, done := c.runPTY(cmdOpt{}, []step{{"Overwrite", answer}}, *fCLI, args...)
	c.Note("output", x.out)
	if d := before.diff(stateOf(path)); answer != "y\r" {
		if d != "" {
			c.Fatal("declined-overwritten", "overwriting %s was declined (%q), but %s", what, answer, d)
		}
		c.Check(x.code != 0, "declined-exit", "overwriting %s was declined (%q), but the exit status is 0: %s", what, answer, x.out)
		c.Count("declined", 1)
		c.Distinct(kind, answer, c.Idx%2)
	} else if done == 1 {
		c.Check(d != "" && x.code == 0, "confirmed-refused", "overwriting %s was confirmed, exit %d: %s", what, x.code, x.out)
		if _, err := reopen(path, pfk); err != nil {
			c.Fatal("confirmed-lost", "overwriting %s was confirmed, but it does not load: %v", what, err)
		}
	} else {
		c.Fatal("no-question", "the program on a terminal did not ask before overwriting (exit %d): %s", x.code, x.out)
	}
	c.Eval(1)
}
