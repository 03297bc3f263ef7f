package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C34 ---

func init() {
	register(&Prop{ID: "C34", Race: false,
		Rule:        "Several instances of the library, and several runs of the built program, on one store. Library: random interleavings of opening, changing (enciphering, generating, deleting, receiving) and saving by up to five instances; a reference numbers the versions of the file and each save is judged by the version its instance was based on. Program: up to four runs are held between loading and saving (waiting for their radiogram, on a pipe or a pseudo terminal) while others change the store; and up to ten runs started together on eight processors, some killed. Often they know the store by different names (spellings of the path, symbolic links to the file, to a link or to its directory). A log of what every run claimed (exit status, cipher text shown) is checked against the final store: each claim is there, no key enciphered two messages, refused runs changed nothing. Creating the same new file at once: one wins and the store is what that one made. Non-trivial: distinct interleavings.",
		Assumptions: []string{"all runs work on one machine and a file system with advisory locks and hard links", "overwriting was not allowed by option (-y, WithOverwritePersistenceIfExists)"},
		Need:        []string{"lib_saved", "lib_refused", "lib_copied", "lib_foreign", "held_refused", "held_saved", "typed_refused", "stampede_ok", "stampede_refused", "killed", "other_names", "created", "create_refused", "exported", "export_refused"},
		Sections: []Section{
			{Name: "library", Quick: 1500, Thorough: 40000, Run: c34Library},
			{Name: "held", Quick: 120, Thorough: 3000, Run: c34Held},
			{Name: "typed", Quick: 24, Thorough: 400, Run: c34Typed},
			{Name: "stampede", Quick: 80, Thorough: 2000, Run: c34Stampede},
			{Name: "create", Quick: 60, Thorough: 1500, Run: c34Create},
		}})
}

// otherNames returns names of the same file: itself, spelled differently,
// through symbolic links to it (also relative ones and a link to a link) or to
// its directory.
func otherNames(c *Case, file string) []string {
	if c.R.IntN(3) > 0 {
		return []string{file}
	}
	c.Count("other_names", 1)
	dir, base := filepath.Split(file)
	links := filepath.Join(c.Dir(), "links")
	os.MkdirAll(links, 0700)
	ln := func(to, name string) string {
		p := filepath.Join(links, name)
		if err := os.Symlink(to, p); err != nil {
			c.Error("%v", err)
		}
		return p
	}
	rel, err := filepath.Rel(links, file)
	if err != nil {
		c.Error("%v", err)
	}
	return []string{file, file, dir + "./" + base, filepath.Clean(dir) + "//" + base, ln(file, "abs"), ln(rel, "rel"), ln("rel", "twice"), filepath.Join(ln(filepath.Clean(dir), "dir"), base)}
}

// c34Library interleaves instances that have the same store open.
func c34Library(c *Case) {
	r := c.R
	cs := genCalls(r, 3)
	f := cfg{pick(r, 5, 4, 3), pick(r, 30, 40, 60)}
	file, pfk := c.Path("store"), hexKey(r)
	first := fileStation(cs[0], f, file, pfk)
	for i := 6 + r.IntN(20); i > 0; i-- {
		addKey(r, first, subset(r, cs[1:])...)
	}
	if err := first.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	version := 0
	stored := snapOf(first)
	type inst struct {
		k    *k431.Krypto431
		base int
	}
	names := otherNames(c, file)
	open := func() inst {
		k, err := reopen(pick(r, names...), pfk)
		if err != nil {
			c.Fatal("load", "%v", err)
		}
		if d := diff(stored, snapOf(k)); d != "" {
			c.Fatal("changed", "the store is not what was saved last: %s", d)
		}
		return inst{k, version}
	}
	insts := make([]inst, 2+r.IntN(4))
	for i := range insts {
		insts[i] = open()
	}
	var log []string
	enciphered := map[string]string{} // key: cipher text, of saved stations
	for step := 5 + r.IntN(25); step > 0; step-- {
		i := r.IntN(len(insts))
		x := &insts[i]
		switch op := r.IntN(8); op {
		case 0:
			log = append(log, fmt.Sprintf("%d opens", i))
			*x = open()
		case 1:
			log = append(log, fmt.Sprintf("%d loads", i))
			if err := x.k.Load(); err != nil {
				c.Fatal("load", "%v", err)
			}
			x.base = version
			if d := diff(stored, snapOf(x.k)); d != "" {
				c.Fatal("changed", "%v: the store is not what was saved last: %s", log, d)
			}
		case 2, 3, 4:
			log = append(log, fmt.Sprintf("%d enciphers", i))
			x.k.NewTextMessage(fmt.Sprintf("%s DE %s = %s = K", strings.Join(subset(r, cs[1:]), " "), cs[0], plainText(r, 1+r.IntN(f.KL))))
		case 5:
			switch r.IntN(4) {
			case 3: // saves a copy somewhere else, and goes on with the store
				log = append(log, fmt.Sprintf("%d saves a copy", i))
				name := x.k.GetPersistence()
				x.k.SetPersistence(c.Path(fmt.Sprintf("copy%d", step)))
				if err := x.k.Save(); err != nil {
					c.Fatal("copy", "%v: saving to a new file: %v", log, err)
				}
				if r.IntN(3) == 0 { // and changes that
					x.k.GenerateKeys(1, nil)
					copied, err := os.ReadFile(x.k.GetPersistence())
					if err != nil {
						c.Error("%v", err)
					}
					if err := x.k.Save(); err == nil {
						c.Fatal("copy-overwritten", "%v: a file that was not loaded is replaced", log)
					} else if now, _ := os.ReadFile(x.k.GetPersistence()); !bytes.Equal(copied, now) {
						c.Fatal("copy-overwritten", "%v: a file that was not loaded is changed", log)
					}
				}
				x.k.SetPersistence(name)
				c.Count("lib_copied", 1)
			case 0:
				log = append(log, fmt.Sprintf("%d generates", i))
				x.k.GenerateKeys(1+r.IntN(3), nil, subset(r, cs[1:])...)
			case 1:
				if len(x.k.Messages) > 0 {
					log = append(log, fmt.Sprintf("%d deletes", i))
					x.k.DeleteMessage(append([]rune(nil), x.k.Messages[r.IntN(len(x.k.Messages))].Id...))
				}
			}
			fallthrough
		default:
			before, _ := os.ReadFile(file)
			err := x.k.Save()
			log = append(log, fmt.Sprintf("%d saves (based on %d, is %d): %v", i, x.base, version, err))
			c.Note("log", log)
			after, _ := os.ReadFile(file)
			if err != nil {
				if x.base == version {
					c.Fatal("refused", "saving is refused though nobody else saved: %v: %v", log, err)
				}
				if !bytes.Equal(before, after) {
					c.Fatal("refused-changed", "saving is refused, but the file changed: %v", log)
				}
				c.Count("lib_refused", 1)
				break
			}
			if x.base != version {
				c.Fatal("lost-update", "an instance that loaded version %d replaces version %d of the store: %v: %s", x.base, version, log, diff(stored, snapOf(x.k)))
			}
			version++
			x.base = version
			stored = snapOf(x.k)
			keys := keyMap(x.k)
			for _, m := range stored.Messages {
				if m.Cipher == "" {
					continue
				}
				d, err := refDecipher(keys, f.GS, m.KeyID, []rune(m.Cipher))
				if err != nil {
					continue
				}
				for _, id := range d.Chain {
					if e, ok := enciphered[id]; ok && e != m.Cipher {
						c.Fatal("key-reused", "key %s enciphered two messages of the store's history: %v", id, log)
					}
					enciphered[id] = m.Cipher
				}
			}
			c.Count("lib_saved", 1)
		}
		c.Eval(1)
	}
	names = names[:1]
	open()
	// A program that knows nothing of all this changes the file.
	good, err := os.ReadFile(file)
	if err != nil {
		c.Error("%v", err)
	}
	foreign := [][]byte{{}, good[:len(good)/2], append(append([]byte(nil), good...), 'x'), append([]byte(nil), good...)}
	foreign[3][len(good)-1-r.IntN(len(good)/2)] ^= 1
	for i := range insts {
		if insts[i].base != version {
			continue
		}
		data := foreign[r.IntN(len(foreign))]
		if err := os.WriteFile(file, data, 0600); err != nil {
			c.Error("%v", err)
		}
		err := insts[i].k.Save()
		if now, _ := os.ReadFile(file); !bytes.Equal(now, data) || err == nil {
			c.Fatal("foreign", "%v: the store was changed from %d to %d bytes by something else after %d loaded it, and is replaced: %v", log, len(good), len(data), i, err)
		}
		c.Count("lib_foreign", 1)
		if err := os.WriteFile(file, good, 0600); err != nil {
			c.Error("%v", err)
		}
	}
	if err := os.WriteFile(file, good, 0600); err != nil {
		c.Error("%v", err)
	}
	es, _ := os.ReadDir(filepath.Dir(file))
	for _, e := range es {
		if e.Name() != "store" && strings.Contains(e.Name(), "store") {
			c.Fatal("left-behind", "%s is left behind: %v", e.Name(), log)
		}
	}
	c.Distinct(log)
	if c.Idx < 2 {
		c.Sample(log)
	}
}

// program is a run of the program that waits for its input.
type program struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out, err bytes.Buffer
	deed     deed
	ended    chan struct{}
	killed   bool
}

func (c *Case) launch(dir string, args ...string) *program {
	p := &program{cmd: exec.Command(*fCLI, args...), ended: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "TZ=" + c.zone(), "GOMAXPROCS=2"}
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
	var err error
	p.in, err = p.cmd.StdinPipe()
	if err == nil {
		err = p.cmd.Start()
	}
	if err != nil {
		c.Error("can not run %s: %v", *fCLI, err)
	}
	go func() { p.cmd.Wait(); close(p.ended) }()
	return p
}

// loaded waits until the program waits for its input.
func (p *program) loaded(c *Case) {
	for i := 0; ; i++ {
		if r, known := reading(p.cmd.Process.Pid); r || !known && i > 100 {
			return
		}
		select {
		case <-p.ended:
			return
		case <-time.After(5 * time.Millisecond):
		}
		if i > 10000 {
			c.Error("%v does not read its input", p.cmd.Args)
		}
	}
}

func (p *program) wait(c *Case) ran {
	select {
	case <-p.ended:
	case <-time.After(120 * time.Second):
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		c.Error("%v does not end", p.cmd.Args)
	}
	x := ran{out: p.out.String(), err: p.err.String(), code: p.cmd.ProcessState.ExitCode()}
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		x.signal = ws.Signal()
	}
	return x
}

// shareStore makes a store for several programs.
func shareStore(c *Case) (cs []string, f cfg, dir, file, pfk string, other *k431.Krypto431) {
	r := c.R
	cs = genCalls(r, 3)
	f = cfg{pick(r, 5, 5, 4), pick(r, 40, 60, 100)}
	pfk = hexKey(r)
	dir = filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	file = filepath.Join(dir, "store")
	k := fileStation(cs[0], f, file, pfk)
	for i := 60 + r.IntN(10); i > 0; i-- {
		addKey(r, k, cs[1])
	}
	for i := 3 + r.IntN(3); i > 0; i-- {
		m := newMsg(k, []rune("old"), cs[1])
		m.Id = k.NewUniqueMessageId()
		k.Messages = append(k.Messages, *m)
	}
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	return cs, f, dir, file, pfk, cipherStation(cs[1], f)
}

// c34Held holds programs between loading and saving while others save.
func c34Held(c *Case) {
	r := c.R
	cs, f, dir, file, pfk, other := shareStore(c)
	names := otherNames(c, file)
	global := func() []string { return []string{"-f", pick(r, names...), "-K", pfk} }
	var log []string
	used := map[string]string{}
	var cur snap
	load := func() *k431.Krypto431 {
		k, err := reopen(file, pfk)
		if err != nil {
			c.Fatal("store-lost", "%v: the store does not open any more: %v", log, err)
		}
		return k
	}
	cur = snapOf(load())
	type run struct {
		p    *program
		d    deed
		base []byte
	}
	var held []run
	newDeed := func() deed {
		if r.IntN(4) == 0 {
			d, _ := c26Receive(r, cs[0], other, plainText(r, 1+r.IntN(f.KL)))
			return d
		}
		return c26Encipher(r, cs[0], cs[1], plainText(r, 1+r.IntN(f.KL)), f.GS)
	}
	judge := func(what string, d deed, x ran, stale bool, before []byte) {
		log = append(log, fmt.Sprintf("%s exits with %d", what, x.code))
		c.Note("log", log)
		if x.signal != 0 || strings.Contains(x.err, "goroutine ") {
			c.Fatal("crash", "%v: %s", log, x.err)
		}
		now, _ := os.ReadFile(file)
		if x.code != 0 {
			if !stale {
				c.Fatal("refused", "%v: refused though nobody else saved: %s", log, x.err)
			}
			if !bytes.Equal(now, before) {
				c.Fatal("refused-changed", "%v: refused, but the store changed", log)
			}
			if d.text != "" && groupsRe.MatchString(x.out) {
				c.Fatal("cipher-shown", "%v: cipher text is shown, but the store does not know of it: %s", log, x.out)
			}
			c.Count("held_refused", 1)
			return
		}
		k := load()
		after := snapOf(k)
		d.judge(c, what, x, cur, after, keyMap(k), true)
		keys := keyMap(k)
		for _, m := range after.Messages {
			if d, err := refDecipher(keys, f.GS, m.KeyID, []rune(m.Cipher)); err == nil && m.Cipher != "" {
				for _, id := range d.Chain {
					if e, ok := used[id]; ok && e != m.Cipher {
						c.Fatal("key-reused", "%v: key %s enciphered two messages", log, id)
					}
					used[id] = m.Cipher
				}
			}
		}
		cur = after
		c.Count("held_saved", 1)
	}
	for step := 4 + r.IntN(6); step > 0; step-- {
		before, _ := os.ReadFile(file)
		switch op := r.IntN(3); {
		case op == 0 && len(held) < 4: // start and hold
			d := newDeed()
			p := c.launch(dir, append(global(), d.args...)...)
			p.loaded(c)
			held = append(held, run{p, d, before})
			log = append(log, d.name+" is started and waits")
		case op == 1 && len(held) > 0:
			i := r.IntN(len(held))
			h := held[i]
			held = append(held[:i], held[i+1:]...)
			io.WriteString(h.p.in, h.d.stdin)
			h.p.in.Close()
			judge(h.d.name+" that waited", h.d, h.p.wait(c), !bytes.Equal(before, h.base), before)
		default: // another program in the meantime
			var d deed
			switch r.IntN(4) {
			case 0:
				d = c26Generate(r, subset(r, cs[1:]))
			case 1:
				if len(cur.Messages) > 0 {
					d = c26DeleteMessages(r, cur)
					break
				}
				fallthrough
			default:
				d = newDeed()
			}
			x := c.run(cmdOpt{stdin: d.stdin, dir: dir}, *fCLI, append(global(), d.args...)...)
			judge(d.name, d, x, false, before)
		}
		c.Eval(1)
	}
	for _, h := range held {
		h.p.in.Close()
		syscall.Kill(-h.p.cmd.Process.Pid, syscall.SIGKILL)
		<-h.p.ended
	}
	if len(modes(dir)) != 1 {
		c.Fatal("left-behind", "%v: files are left behind: %v", log, modes(dir))
	}
	c.Distinct(log)
	if c.Idx < 2 {
		c.Sample(log)
	}
}

// c34Typed lets another program save while a radiogram is being typed.
func c34Typed(c *Case) {
	r := c.R
	cs, f, dir, file, pfk, _ := shareStore(c)
	names := otherNames(c, file)
	d := c26Encipher(r, cs[0], cs[1], plainText(r, 1+r.IntN(f.KL)), f.GS)
	e := c26Encipher(r, cs[0], cs[1], plainText(r, 1+r.IntN(f.KL)), f.GS)
	var shown string
	var now []byte
	var between snap
	meanwhile := func() {
		x := c.run(cmdOpt{stdin: e.stdin, dir: dir}, *fCLI, append([]string{"-f", pick(r, names...), "-K", pfk}, e.args...)...)
		if x.code != 0 {
			c.Fatal("refused", "enciphering while another program waits for its message is refused: %s", x.err)
		}
		shown = x.out
		now, _ = os.ReadFile(file)
		k, err := reopen(file, pfk)
		if err != nil {
			c.Fatal("store-lost", "%v", err)
		}
		between = snapOf(k)
	}
	steps := []step{{"to finish]", d.stdin + "\r"}, {"", "\r"}, {"", "\r"}}
	x, done := c.runPTY(cmdOpt{dir: dir, before: map[int]func(){r.IntN(3): meanwhile}}, steps, *fCLI, append([]string{"-f", file, "-K", pfk}, d.args...)...)
	c.Note("output", x.out)
	if done < len(steps) {
		c.Fatal("no-question", "ended (exit %d) before all was typed: %s", x.code, x.out)
	}
	after, _ := os.ReadFile(file)
	if x.code != 0 {
		if !bytes.Equal(now, after) {
			c.Fatal("refused-changed", "the typed message is refused, but the store changed")
		}
		if i := strings.Index(x.out, "to finish]"); i >= 0 && groupsRe.MatchString(x.out[i:]) {
			c.Fatal("cipher-shown", "the typed message is refused, but cipher text is shown: %s", x.out)
		}
		c.Count("typed_refused", 1)
	} else {
		k, err := reopen(file, pfk)
		if err != nil {
			c.Fatal("store-lost", "%v", err)
		}
		if err := d.done(between, snapOf(k), keyMap(k)); err != nil {
			c.Fatal("lost-update", "another program enciphered a message (%s) while one was being typed; now: %v", strings.TrimSpace(shown), err)
		}
	}
	c.Distinct(d.stdin, e.stdin)
	c.Eval(1)
}

// c34Stampede starts programs together.
func c34Stampede(c *Case) {
	r := c.R
	cs, f, dir, file, pfk, _ := shareStore(c)
	names := otherNames(c, file)
	k0, err := reopen(file, pfk)
	if err != nil {
		c.Error("%v", err)
	}
	before := snapOf(k0)
	n := 2 + r.IntN(9)
	ps := make([]*program, n)
	for i := range ps {
		d := c26Encipher(r, cs[0], cs[1], plainText(r, 1+r.IntN(f.KL)), f.GS)
		if r.IntN(4) == 0 {
			d = c26Generate(r, subset(r, cs[1:]))
		}
		ps[i] = c.launch(dir, append([]string{"-f", pick(r, names...), "-K", pfk}, d.args...)...)
		ps[i].deed = d
	}
	aligned := r.IntN(3) > 0
	if aligned { // all have loaded
		for _, p := range ps {
			if p.deed.stdin != "" {
				p.loaded(c)
			}
		}
	}
	var wg sync.WaitGroup
	kill := -1
	if r.IntN(3) == 0 {
		kill = r.IntN(n)
	}
	delay := time.Duration(r.IntN(12000)) * time.Microsecond
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			io.WriteString(p.in, p.deed.stdin)
			p.in.Close()
			if i == kill {
				time.Sleep(delay)
				syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
			}
		}()
	}
	wg.Wait()
	var log []string
	xs := make([]ran, n)
	for i, p := range ps {
		xs[i] = p.wait(c)
		log = append(log, fmt.Sprintf("%s %v: exit %d signal %d: %s", p.deed.name, p.deed.args, xs[i].code, xs[i].signal, shortText([]rune(xs[i].err))))
	}
	c.Note("log", log)
	k, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("store-lost", "%v: the store does not open any more: %v", log, err)
	}
	after := snapOf(k)
	keys := keyMap(k)
	by := map[string]string{}
	texts := map[string]bool{}
	for i, m := range after.Messages {
		if i < len(before.Messages) {
			if m != before.Messages[i] {
				c.Fatal("lost-update", "%v: message %s: %s", log, m.ID, fieldDiff(fmt.Sprint(before.Messages[i]), fmt.Sprint(m)))
			}
			continue
		}
		d, err := refDecipher(keys, f.GS, m.KeyID, []rune(m.Cipher))
		if err != nil {
			c.Fatal("cipher", "%v: message %s does not decipher: %v", log, m.ID, err)
		}
		for _, id := range d.Chain {
			if by[id] != "" {
				c.Fatal("key-reused", "%v: key %s enciphered messages %s and %s", log, id, by[id], m.ID)
			}
			by[id] = m.ID
			if !after.key(id).Used {
				c.Fatal("unused", "%v: key %s of message %s is not marked used", log, id, m.ID)
			}
		}
		texts[m.Plain] = true
	}
	generated := 0
	winners := 0
	for i, p := range ps {
		x := xs[i]
		if x.signal == 0 && strings.Contains(x.err, "goroutine ") {
			c.Fatal("crash", "%v: %s", log, x.err)
		}
		if x.code == 0 && x.signal == 0 {
			winners++
			if p.deed.text != "" && !texts[p.deed.text] {
				c.Fatal("lost-update", "%v: run %d enciphered %q and exits with 0, but the store does not have the message", log, i, p.deed.text)
			}
			if p.deed.name == "generate" {
				for j, a := range p.deed.args {
					if a == "-n" {
						var g int
						fmt.Sscan(p.deed.args[j+1], &g)
						generated += g
					}
				}
			}
			c.Count("stampede_ok", 1)
		} else if x.signal == 0 {
			if groupsRe.MatchString(x.out) && p.deed.text != "" {
				c.Fatal("cipher-shown", "%v: run %d failed, but shows cipher text: %s", log, i, x.out)
			}
			if p.deed.text != "" && texts[p.deed.text] {
				c.Fatal("failed-stored", "%v: run %d failed, but its message is in the store", log, i)
			}
			c.Count("stampede_refused", 1)
		} else {
			c.Count("killed", 1)
			if p.deed.text != "" && groupsRe.MatchString(x.out) && !texts[p.deed.text] {
				c.Fatal("cipher-shown", "%v: run %d was killed after it showed cipher text that is not in the store: %s", log, i, x.out)
			}
		}
	}
	if winners == 0 && kill < 0 {
		c.Fatal("refused", "%v: nobody could save", log)
	}
	if got := len(after.Keys) - len(before.Keys); got < generated || got > generated && kill < 0 {
		c.Fatal("lost-update", "%v: %d keys were generated, the store has %d more", log, generated, got)
	}
	if kill < 0 && len(modes(dir)) != 1 {
		c.Fatal("left-behind", "%v: files are left behind: %v", log, modes(dir))
	}
	// Nothing is locked for ever.
	d := c26Generate(r, nil)
	x := c.run(cmdOpt{dir: dir}, *fCLI, append([]string{"-f", file, "-K", pfk}, d.args...)...)
	if x.code != 0 {
		c.Fatal("refused", "%v: afterwards, generating a key fails: %s", log, x.err)
	}
	c.Distinct(n, kill, winners, aligned, c.Idx)
	c.Eval(n)
}

// c34Create creates the same new file by several programs at once.
func c34Create(c *Case) {
	r := c.R
	n := 2 + r.IntN(6)
	calls := genCalls(r, n+1)
	pfk := hexKey(r)
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	target := filepath.Join(dir, "new")
	export := c.Idx%2 == 1
	ps := make([]*program, n)
	wants := make([]snap, n)
	var argss [][]string
	for i := range ps {
		args := []string{"-f", target, "-K", pfk, "init", "-c", calls[i], "-n", fmt.Sprint(1 + r.IntN(5))}
		if export {
			k := fileStation(calls[i], cfg{5, 50}, c.Path(fmt.Sprint("store", i)), pfk)
			for j := 1 + r.IntN(5); j > 0; j-- {
				addKey(r, k, calls[n])
			}
			if err := k.Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
			wants[i] = snapOf(k)
			args = []string{"-f", c.Path(fmt.Sprint("store", i)), "-K", pfk, "keys", "-E", target}
		}
		argss = append(argss, args)
	}
	for i := range ps {
		ps[i] = c.launch(dir, argss[i]...)
		ps[i].in.Close()
	}
	var log []string
	winner := -1
	for i, p := range ps {
		x := p.wait(c)
		log = append(log, fmt.Sprintf("%v: exit %d: %s", argss[i][4:], x.code, strings.TrimSpace(x.err)))
		if x.signal != 0 || strings.Contains(x.err, "goroutine ") {
			c.Fatal("crash", "%v", log)
		}
		if x.code == 0 {
			if winner >= 0 {
				c.Fatal("overwritten", "%d programs made the same new file and none was refused: %v", n, log)
			}
			winner = i
			if export {
				c.Count("exported", 1)
			} else {
				c.Count("created", 1)
			}
		} else if export {
			c.Count("export_refused", 1)
		} else {
			c.Count("create_refused", 1)
		}
	}
	c.Note("log", log)
	if winner < 0 {
		c.Fatal("refused", "nobody could make the new file: %v", log)
	}
	k, err := reopen(target, pfk)
	if err != nil {
		c.Fatal("store-lost", "%v: the new file does not open: %v", log, err)
	}
	if string(k.CallSign) != calls[winner] {
		c.Fatal("overwritten", "%v: the new file is the one of %s, not of %s", log, string(k.CallSign), calls[winner])
	}
	if s := snapOf(k); export && len(s.Keys) != len(wants[winner].Keys) {
		c.Fatal("overwritten", "%v: the new file has %d of %d keys", log, len(s.Keys), len(wants[winner].Keys))
	}
	if len(modes(dir)) != 1 {
		c.Fatal("left-behind", "%v: files are left behind: %v", log, modes(dir))
	}
	c.Distinct(n, winner, export, c.Idx)
	c.Eval(n)
}
