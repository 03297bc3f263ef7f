package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C27 ---

func init() {
	register(&Prop{ID: "C27", Level: "fault_enumeration", CPU: 200,
		Rule:        "The key-change command run on stores with arbitrary contents: every way of naming the old credentials (key, password, old password; by option or environment; default or own salt) with every way of naming the new ones (key, password, random, asked for on a terminal; own salt, default salt or the salt in force), all of them also wrong, malformed, too short, contradictory, missing, declined on a terminal or left unanswered. After exit 0 the store must open with the new key (computed by an independent PBKDF2) to the same snapshot and not with the old; otherwise the file must be byte-identical and open with the old key. The same with each file system call of the save failing or the process killed there (strace injection): the store opens with exactly one of the two keys, and if that is a random one it has been shown. The same with an output that can not be written to. Generated keys and salts are checked for form, repetition and usability. Non-trivial: distinct option combinations that changed or refused, distinct faults.",
		Assumptions: []string{"strace is used where it works", "power loss is not simulated, only the process dies"},
		Need:        []string{"changed", "refused", "declined", "interactive", "library", "generated", "fault_old", "fault_new"},
		Sections: []Section{
			{Name: "change", Quick: 96, Thorough: 2400, Run: c27Change},
			{Name: "refuse", Quick: 128, Thorough: 3000, Run: c27Refuse},
			{Name: "terminal", Quick: 48, Thorough: 600, Run: c27Terminal},
			{Name: "library", Quick: 60, Thorough: 1500, Run: c27Library},
			{Name: "fault", Quick: 16, Thorough: 160, Run: c27Fault},
			{Name: "unseen", Quick: 32, Thorough: 300, Run: c27Unseen},
			{Name: "generate", Quick: 24, Thorough: 300, Run: c27Generate},
		}})
}

func pbkdf(password, saltHex string) string {
	s, err := hex.DecodeString(saltHex)
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(refPBKDF2([]byte(password), s, 310000, 32))
}

// rekey is a store and the credentials it was made with.
type rekey struct {
	dir, file, salt, pw, key string
	snap                     snap
	old                      bool     // the old password is given as such
	global, env, sub         []string // how the old credentials are given
}

func c27Store(c *Case) *rekey {
	r := c.R
	s := &rekey{dir: c.Path("d"), salt: k431.DefaultSalt}
	os.Mkdir(s.dir, 0700)
	s.file = filepath.Join(s.dir, "store")
	if r.IntN(2) == 0 {
		s.salt = hex.EncodeToString(c.salt())
		if r.IntN(2) == 0 {
			s.global = append(s.global, pick(r, "-S", "--salt"), s.salt)
		} else {
			s.env = append(s.env, "KRYPTO_SALT="+s.salt)
		}
	}
	s.pw = string(letters(r, 4)) + pick(r, strongTail, "", " Åäö "+strongTail)
	kind := r.IntN(6)
	switch kind {
	case 0, 1:
		s.pw, s.key = "", hexKey(r)
	default:
		s.key = pbkdf(s.pw, s.salt)
	}
	switch kind {
	case 0:
		s.global = append(s.global, pick(r, "-K", "--pfk"), pick(r, s.key, strings.ToUpper(s.key)))
	case 1:
		s.env = append(s.env, "KRYPTO_PFK="+s.key)
	case 2:
		s.global = append(s.global, pick(r, "-P", "--password"), s.pw)
	case 3:
		s.env = append(s.env, "KRYPTO_PASSWORD="+s.pw)
	case 4:
		s.old = true
		s.sub = append(s.sub, pick(r, "-P", "--old"), s.pw)
	case 5:
		s.old = true
		s.env = append(s.env, "KRYPTO_OLD_PASSWORD="+s.pw)
	}
	k := fileStation("AA", cfg{5, 50}, s.file, s.key)
	anyContents(r, k)
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	if r.IntN(4) == 0 {
		os.Chmod(s.file, pick(r, os.FileMode(0400), 0600, 0640))
	}
	l, err := reopen(s.file, s.key)
	if err != nil {
		c.Fatal("save", "the store does not load: %v", err)
	}
	s.snap = snapOf(l)
	if d := diff(snapOf(k), s.snap); d != "" {
		c.Fatal("save", "%s", d)
	}
	return s
}

func (s *rekey) command(c *Case, more ...string) []string {
	a := append([]string(nil), s.global...)
	sub := [][]string{{pick(c.R, "-c", "--change"), s.file}, s.sub}
	for i := 0; i < len(more); i++ {
		if (more[i] == "-y" || more[i] == "-r" || strings.HasPrefix(more[i], "--") && strings.Contains(more[i], "=")) || i+1 == len(more) {
			sub = append(sub, more[i:i+1])
			continue
		}
		sub = append(sub, more[i:i+2])
		i++
	}
	c.R.Shuffle(len(sub), func(i, j int) { sub[i], sub[j] = sub[j], sub[i] })
	a = append(a, "pfk")
	for _, x := range sub {
		a = append(a, x...)
	}
	return a
}

// opens says whether the store opens with a key to the same contents.
func (s *rekey) opens(c *Case, what, key string) bool {
	l, err := reopen(s.file, key)
	if err != nil {
		return false
	}
	if d := diff(s.snap, snapOf(l)); d != "" {
		c.Fatal("contents", "%s: the store has changed: %s", what, d)
	}
	return true
}

// changed judges a store that must have the new key.
func (s *rekey) changed(c *Case, what, key string) {
	if !s.opens(c, what, key) {
		old := "nor with the old one"
		if s.opens(c, what, s.key) {
			old = "but with the old one"
		}
		c.Fatal("not-changed", "%s: the store does not open with the new key %s, %s", what, key, old)
	}
	if key != s.key {
		if _, err := reopen(s.file, s.key); err == nil {
			c.Fatal("old-key", "%s: the store still opens with the old key", what)
		}
	}
	if l := listing(s.dir); l != "store" {
		c.Fatal("leftovers", "%s: the directory now has %q", what, l)
	}
}

// same judges a store that must be unchanged.
func (s *rekey) same(c *Case, what string, before fileState) {
	if d := before.diff(stateOf(s.file)); d != "" {
		old := "does not open with the old key any more"
		if s.opens(c, what, s.key) {
			old = "still opens with the old key"
		}
		c.Fatal("changed", "%s: %s; it %s", what, d, old)
	}
	if !s.opens(c, what, s.key) {
		c.Fatal("lost", "%s: the store does not open with the old key any more", what)
	}
}

var hex64 = regexp.MustCompile(`\b[0-9a-f]{64}\b`)

// c27New is a correct way of naming the new key; the key is "" when it is a
// random one that the command shows.
func c27New(c *Case, s *rekey) (args, env []string, key string) {
	r := c.R
	salt := s.salt
	switch r.IntN(4) {
	case 0:
		salt = hex.EncodeToString(c.salt())
		args = append(args, pick(r, "-s", "--new-salt"), pick(r, salt, strings.ToUpper(salt)))
	case 1:
		salt = k431.DefaultSalt
		args = append(args, pick(r, "-s", "--new-salt"), "default")
	}
	pw := string(letters(r, 5)) + pick(r, strongTail, "", "ä "+strongTail, " ", strongTail+" ", strongTail+"\t")
	if r.IntN(8) == 0 {
		pw = " " + pw
	}
	switch r.IntN(5) {
	case 0, 1:
		return append(args, pick(r, "-N", "--new"), pw), nil, pbkdf(pw, salt)
	case 2:
		return args, []string{"KRYPTO_NEW_PASSWORD=" + pw}, pbkdf(pw, salt)
	case 3:
		key = hexKey(r)
		return append(args, pick(r, "-k", "--new-pfk"), pick(r, key, strings.ToUpper(key))), nil, key
	}
	return append(args, "-r"), nil, ""
}

func c27Change(c *Case) {
	r := c.R
	s := c27Store(c)
	args, env, key := c27New(c, s)
	if key != "" && r.IntN(8) == 0 {
		args = append([]string{"--random=false"}, args...)
	}
	if r.IntN(8) == 0 {
		args = append([]string{pick(r, "--gen-pfk=false", "--gen-salt=false")}, args...)
	}
	if s.old && r.IntN(2) == 0 {
		// What is set for another store is not used, this one's was given.
		env = append(env, pick(r, "KRYPTO_PFK="+hexKey(r), "KRYPTO_PASSWORD="+string(letters(r, 6))))
		c.Count("other_credentials", 1)
	}
	cmd := s.command(c, append(args, pick(r, "-y", "-y", "--yes=true"))...)
	what := fmt.Sprintf("%v %v", append(append([]string(nil), s.env...), env...), cmd)
	c.Note("command", what)
	mode := stateOf(s.file).mode
	x := c.run(cmdOpt{env: append(append([]string(nil), s.env...), env...)}, *fCLI, cmd...)
	if x.code != 0 {
		c.Fatal("refused", "%s: exits with %d: %s", what, x.code, x.err)
	}
	if key == "" {
		if key = hex64.FindString(strings.ReplaceAll(x.out, s.file, "")); key == "" {
			c.Fatal("not-shown", "%s: the random key is not shown: %q", what, x.out)
		}
		c.Count("random", 1)
	}
	s.changed(c, what, key)
	if m := stateOf(s.file).mode; m != mode {
		c.Fatal("mode", "%s: mode %v became %v", what, mode, m)
	}
	// With the program, too.
	if y := c.run(cmdOpt{env: []string{"KRYPTO_PFK=" + key}}, *fCLI, "-f", s.file, "messages", "-l"); y.code != 0 || strings.Count(y.out, "\n") == 0 && len(s.snap.Messages) > 0 {
		c.Fatal("not-changed", "%s: the program does not open the store with the new key: exit %d: %s", what, y.code, y.err)
	}
	c.Count("changed", 1)
	c.Distinct(len(args), len(env), len(s.env), len(s.global), len(s.sub), key == "", c.Idx)
	c.Eval(1)
}

func c27Refuse(c *Case) {
	r := c.R
	s := c27Store(c)
	args, env, _ := c27New(c, s)
	if r.IntN(3) > 0 {
		args = append(args, "-y")
	}
	env = append(append([]string(nil), s.env...), env...)
	stdin := ""
	kind := c.Idx % 9
	name := ""
	noNUL := func(x string) string { return strings.ReplaceAll(x, "\x00", "q") }
	badKey := func() string { return noNUL(badHex(c, func(n int) bool { return n == 32 })) }
	badSalt := func() string {
		for {
			if x := noNUL(badHex(c, func(n int) bool { return n >= 32 })); x != "default" {
				return x
			}
		}
	}
	fresh := func() []string { // a plain new key
		return []string{"--new-pfk=" + hexKey(r), "-y"}
	}
	base := func(e []string) (out []string) { // without a new password
		for _, x := range e {
			if !strings.HasPrefix(x, "KRYPTO_NEW") {
				out = append(out, x)
			}
		}
		return
	}
	switch kind {
	case 0: // wrong old credentials
		name = "wrong old credentials"
		if len(s.sub) > 0 {
			s.sub[1] += pick(r, "x", " ")
		} else if i := len(s.global) - 2; i >= 0 && s.global[i] != "-S" && s.global[i] != "--salt" {
			if s.pw == "" {
				s.global[i+1] = hexKey(r)
			} else {
				s.global[i+1] = s.pw + "x"
			}
		} else {
			for i, e := range env {
				if strings.HasPrefix(e, "KRYPTO_PFK=") {
					env[i] = "KRYPTO_PFK=" + hexKey(r)
				} else if strings.HasPrefix(e, "KRYPTO_PASSWORD=") || strings.HasPrefix(e, "KRYPTO_OLD_PASSWORD=") {
					env[i] += "x"
				}
			}
		}
	case 1: // malformed new key
		name = "malformed new key"
		env, args = base(env), []string{"--new-pfk=" + badKey(), "-y"}
	case 2: // malformed new salt
		name = "malformed new salt"
		env = base(env)
		args = append([]string{"--new-salt=" + pick(r, "", badSalt(), badSalt(), badSalt())}, pick(r, []string{"--new=" + string(letters(r, 4)) + strongTail, "-y"}, []string{"-r", "-y"}, fresh())...)
	case 3: // random and a password
		name = "random and a password"
		env = base(env)
		if args = []string{"-r", "-y"}; r.IntN(2) == 0 {
			args = append(args, "--new="+strongTail)
		} else {
			env = append(env, "KRYPTO_NEW_PASSWORD="+strongTail)
		}
	case 4: // random and a key
		name = "random and a key"
		env, args = base(env), append(fresh(), "-r")
	case 5: // a password and a key
		name = "a password and a key"
		env = base(env)
		if args = fresh(); r.IntN(2) == 0 {
			args = append(args, "--new="+strongTail)
		} else {
			env = append(env, "KRYPTO_NEW_PASSWORD="+strongTail)
		}
	case 6: // not confirmed: the question can not be asked
		name = "not confirmed"
		var a []string
		for _, x := range args {
			if x != "-y" {
				a = append(a, x)
			}
		}
		args = a
		if r.IntN(2) == 0 {
			args = append(args, pick(r, "--yes=false", "--yes=0"))
		}
		stdin = pick(r, "", "y\n", "n\n", "\n")
	case 7: // wrong salt for a password
		name = "wrong salt"
		if s.pw == "" {
			name = "bad salt"
			s.global = append(s.global, "--salt="+badSalt())
		} else {
			s.global = append(s.global, "--salt="+hexKey(r))
		}
		if r.IntN(2) == 0 {
			env, args = base(env), fresh()
		}
	case 8: // nothing new, another file, nothing old
		switch r.IntN(4) {
		case 0:
			name, env, args = "no new key", base(env), nil
			if r.IntN(2) == 0 {
				args = []string{"-y"}
			}
		case 1:
			name = "no old key"
			s.sub = nil
			var g []string
			for i := 0; i < len(s.global); i += 2 {
				if s.global[i] == "-S" || s.global[i] == "--salt" {
					g = append(g, s.global[i:i+2]...)
				}
			}
			s.global = g
			var e []string
			for _, x := range env {
				if strings.HasPrefix(x, "KRYPTO_SALT") || strings.HasPrefix(x, "KRYPTO_NEW") {
					e = append(e, x)
				}
			}
			env = e
		case 2:
			name = "key and password"
			s.global = append(s.global, "--pfk="+s.key, "--password="+strongTail)
		case 3:
			name = "a store of another key"
			s.global, s.sub, env = []string{"--pfk=" + hexKey(r)}, nil, base(nil)
			args = fresh()
		}
	}
	cmd := s.command(c, args...)
	what := fmt.Sprintf("%s: %q %q", name, env, cmd)
	c.Note("command", what)
	before := stateOf(s.file)
	x := c.run(cmdOpt{env: env, stdin: stdin}, *fCLI, cmd...)
	s.same(c, what, before)
	if x.code == 0 && !(kind == 6 && strings.HasPrefix(stdin, "n")) {
		c.Fatal("accepted", "%s: exits with 0: %s", what, x.out)
	}
	c.Count("refused", 1)
	c.Count("refused:"+name, 1)
	c.Distinct(name, len(s.env), len(s.global), len(s.sub), c.Idx)
	c.Eval(1)
}

func c27Terminal(c *Case) {
	r := c.R
	s := c27Store(c)
	before := stateOf(s.file)
	args, env, key := c27New(c, s)
	env = append(append([]string(nil), s.env...), env...)
	if c.Idx%2 == 0 { // asked for confirmation
		cmd := s.command(c, args...)
		answer := pick(r, "y\r", "y\r", "n\r", "\r", "\x03")
		what := fmt.Sprintf("%q answered by %q", cmd, answer)
		c.Note("command", what)
		x, done := c.runPTY(cmdOpt{env: env}, []step{{"Change encryption key", answer}}, *fCLI, cmd...)
		c.Note("output", x.out)
		if done == 0 {
			if d := before.diff(stateOf(s.file)); d != "" {
				c.Fatal("no-question", "%s: the program on a terminal did not ask before changing the key", what)
			}
			c.Fatal("refused", "%s: exits with %d without a question: %s", what, x.code, x.out)
		}
		if answer != "y\r" {
			s.same(c, what, before)
			c.Count("declined", 1)
		} else {
			if x.code != 0 {
				c.Fatal("refused", "%s: exits with %d: %s", what, x.code, x.out)
			}
			if key == "" {
				key = hex64.FindString(strings.ReplaceAll(x.out, s.file, ""))
			}
			s.changed(c, what, key)
			c.Count("changed", 1)
		}
		c.Distinct("confirm", answer, c.Idx)
		c.Eval(1)
		return
	}
	// The new key (and sometimes the old password) is typed.
	salt := s.salt
	cmd := s.command(c)
	switch r.IntN(3) {
	case 0:
		salt = hex.EncodeToString(c.salt())
		cmd = s.command(c, "--new-salt="+salt)
	case 1:
		salt = k431.DefaultSalt
		cmd = s.command(c, "--new-salt=default")
	}
	env = s.env
	pw := string(letters(r, 5)) + strongTail
	var steps []step
	if s.pw != "" && r.IntN(2) == 0 {
		// No old credentials given, they are asked for.
		s.sub, env = nil, nil
		if s.salt != k431.DefaultSalt {
			env = []string{"KRYPTO_SALT=" + s.salt}
		}
		s.global, cmd = nil, []string{"pfk", "-c", s.file}
		salt = s.salt
		steps = append(steps, step{"Enter decryption key", s.pw + "\r"})
	}
	ok := true
	switch r.IntN(4) {
	case 0: // mistyped once
		steps = append(steps, step{"Enter new encryption key", pw + "\r"}, step{"(repeat)", mistype(c, pw) + "\r"}, step{"Enter new encryption key", pw + "\r"}, step{"(repeat)", pw + "\r"})
	case 1: // too weak
		steps = append(steps, step{"Enter new encryption key", "abc\r"}, step{"Enter new encryption key", pw + "\r"}, step{"(repeat)", pw + "\r"})
	case 2: // interrupted
		ok = false
		steps = append(steps, step{"Enter new encryption key", pick(r, "\x03", pw+"\x03")})
	case 3:
		steps = append(steps, step{"Enter new encryption key", pw + "\r"}, step{"(repeat)", pw + "\r"})
	}
	if ok && r.IntN(4) == 0 {
		steps[len(steps)-1].send, ok = "\x03", false
	}
	what := fmt.Sprintf("%q with %q", cmd, steps)
	c.Note("command", what)
	x, done := c.runPTY(cmdOpt{env: env}, steps, *fCLI, cmd...)
	c.Note("output", x.out)
	if !ok {
		s.same(c, what, before)
		c.Check(x.code != 0, "interrupted", "%s: exits with 0", what)
		c.Count("declined", 1)
	} else {
		if done < len(steps) || x.code != 0 {
			c.Fatal("refused", "%s: exits with %d after %d of %d answers: %s", what, x.code, done, len(steps), x.out)
		}
		s.changed(c, what, pbkdf(pw, salt))
		c.Count("changed", 1)
	}
	if strings.Contains(x.out, pw) || s.pw != "" && len(s.pw) > 8 && strings.Contains(x.out, s.pw) {
		c.Fatal("echo", "%s: the password is shown: %s", what, x.out)
	}
	c.Count("interactive", 1)
	c.Distinct("typed", len(steps), ok, c.Idx)
	c.Eval(1)
}

// c27Library changes keys by the functions of the library, several times.
func c27Library(c *Case) {
	r := c.R
	s := c27Store(c)
	k, err := reopen(s.file, s.key)
	if err != nil {
		c.Fatal("load", "%v", err)
	}
	var olds []string
	salt := k431.DefaultSalt
	for i := 0; i < 2+r.IntN(3); i++ {
		what := fmt.Sprintf("change %d", i)
		before := stateOf(s.file)
		if r.IntN(2) == 0 { // refused
			var err error
			switch r.IntN(4) {
			case 0:
				err = k.SetPFKFromString(badHex(c, func(n int) bool { return n == 32 }))
			case 1:
				err = k.SetSaltFromString(badHex(c, func(n int) bool { return n >= 32 }))
			case 2:
				pw := []byte("weak")
				err = k.DerivePFKFromPasswordWithValidation(&pw)
			case 3:
				err = k.DerivePFKFromPassword(nil)
			}
			if err == nil {
				c.Fatal("accepted", "%s: a bad key or salt is accepted", what)
			}
			s.same(c, what+" refused", before)
			if r.IntN(2) == 0 {
				if err := k.Save(); err != nil {
					c.Fatal("save", "%s: saving after a refused key: %v", what, err)
				}
				s.changed(c, what+" refused and saved", s.key)
			}
			c.Count("refused", 1)
		}
		var key, how string
		if r.IntN(3) == 0 {
			salt = hex.EncodeToString(c.salt())
			if err := k.SetSaltFromString(salt); err != nil {
				c.Fatal("salt", "%v", err)
			}
		}
		pw := string(letters(r, 5)) + strongTail
		switch r.IntN(4) {
		case 0:
			key, how = hexKey(r), "SetPFKFromString"
			err = k.SetPFKFromString(key)
		case 1:
			key, how = pbkdf(pw, salt), "SetPFKFromPassword"
			err = k.SetPFKFromPassword(pw)
		case 2:
			key, how = pbkdf(pw, salt), "DerivePFKFromPassword"
			b := []byte(pw)
			err = k.DerivePFKFromPassword(&b)
		case 3:
			how = "GeneratePFK"
			key = k431.GeneratePFK()
			err = k.SetPFKFromString(key)
		}
		c.Note("change", how)
		if err != nil {
			c.Fatal("refused", "%s: %s: %v", what, how, err)
		}
		s.same(c, what+" not yet saved", stateOf(s.file))
		if err := k.Save(); err != nil {
			c.Fatal("save", "%s: %s: %v", what, how, err)
		}
		s.changed(c, what+" by "+how, key)
		olds = append(olds, s.key)
		s.key = key
		for _, o := range olds {
			if o != key && s.opens(c, what, o) {
				c.Fatal("old-key", "%s: the store still opens with an old key", what)
			}
		}
		if d := diff(s.snap, snapOf(k)); d != "" {
			c.Fatal("contents", "%s: the station has changed: %s", what, d)
		}
		if r.IntN(2) == 0 { // go on from the file
			if k, err = reopen(s.file, key); err != nil {
				c.Fatal("load", "%v", err)
			}
			salt = k431.DefaultSalt
		}
		c.Count("library", 1)
		c.Distinct(how, i, c.Idx)
	}
	c.Eval(1)
}

func c27Fault(c *Case) {
	r := c.R
	s := c27Store(c)
	os.Chmod(s.file, 0600)
	s.global, s.sub = []string{"-K", s.key}, nil
	key := hexKey(r)
	args := []string{"-k", key, "-y"}
	name := "change to a given key"
	if c.Idx%2 == 1 {
		key, args, name = "", []string{"-r", "-y"}, "change to a random key"
	}
	cmd := append([]string{*fCLI}, s.command(c, args...)...)
	c.faults(name, s.dir, s.file, "", cmd, func(what string, x ran, hit bool) {
		k := key
		if k == "" {
			k = hex64.FindString(strings.ReplaceAll(x.out, s.file, ""))
		}
		old := s.opens(c, what, s.key)
		new := k != "" && s.opens(c, what, k)
		switch {
		case old && new:
			c.Fatal("both", "%s: the store opens with both keys", what)
		case !old && !new && k == "":
			c.Fatal("not-shown", "%s: the key was changed to one that was never shown", what)
		case !old && !new:
			c.Fatal("lost", "%s: the store opens with neither key", what)
		case x.code == 0 && !new:
			c.Fatal("not-changed", "%s: exits with 0, but the store has the old key", what)
		case x.code != 0 && x.signal == 0 && !old:
			c.Fatal("changed", "%s: exits with %d, but the store has the new key", what, x.code)
		case x.code != 0 && x.signal != syscall.SIGKILL && x.signal != 0:
			c.Fatal("signal", "%s: killed by %v", what, x.signal)
		}
		if new {
			c.Count("fault_new", 1)
		} else {
			c.Count("fault_old", 1)
		}
	})
}

// c27Unseen: the output is full (a closed one is /dev/null to a Go program). A random key that nobody has seen
// must not be the key of the store.
func c27Unseen(c *Case) {
	r := c.R
	s := c27Store(c)
	os.Chmod(s.file, 0600)
	before := stateOf(s.file)
	key := hexKey(r)
	args := []string{"-k", key, "-y"}
	if c.Idx%4 > 0 {
		key, args = "", []string{"-r", "-y"}
	}
	if fi, err := os.Stat("/dev/full"); err != nil || fi.Mode()&os.ModeCharDevice == 0 {
		return
	}
	to := pick(r, ">/dev/full", "</dev/null >/dev/full", ">/dev/full 2>&1")
	cmd := append([]string{*fCLI}, s.command(c, args...)...)
	what := fmt.Sprintf("%v with output %s", cmd[1:], to)
	c.Note("command", what)
	x := c.run(cmdOpt{env: s.env}, "/bin/sh", append([]string{"-c", "exec \"$@\" " + to, "sh"}, cmd...)...)
	switch {
	case key == "":
		if x.code == 0 {
			c.Fatal("unseen-success", "%s: exits with 0, but nobody has seen the new key", what)
		}
		s.same(c, what, before)
	case x.code == 0:
		s.changed(c, what, key)
	default:
		s.same(c, what, before)
	}
	c.Count("unseen", 1)
	c.Distinct(to, key == "", c.Idx)
	c.Eval(1)
}

func c27Generate(c *Case) {
	r := c.R
	seen := map[string]bool{}
	for i := 0; i < 6; i++ {
		args := pick(r, []string{"pfk", "-g", "-r"}, []string{"pfk", "-g", "-r", "--gen-salt=false"}, []string{"pfk", "--gen-pfk", "--random"}, []string{"pfk", "-G"}, []string{"pfk", "--gen-salt"})
		c.Note("args", args)
		x := c.run(cmdOpt{}, *fCLI, args...)
		v := strings.TrimSpace(x.out)
		if b, err := hex.DecodeString(v); x.code != 0 || err != nil || len(b) != 32 {
			c.Fatal("generate", "%v prints %q (exit %d)", args, x.out, x.code)
		}
		if seen[v] {
			c.Fatal("repeated", "%v prints %s again", args, v)
		}
		seen[v] = true
		// They are of use.
		file := c.Path(fmt.Sprintf("s%d", i))
		env := []string{"KRYPTO_PFK=" + v}
		key := v
		if args[1] == "-G" || args[1] == "--gen-salt" {
			pw := string(letters(r, 5)) + strongTail
			env = []string{"KRYPTO_SALT=" + v, "KRYPTO_PASSWORD=" + pw}
			key = pbkdf(pw, v)
		}
		if x := c.run(cmdOpt{env: env}, *fCLI, "-f", file, "init", "-c", "AA"); x.code != 0 {
			c.Fatal("unusable", "%v printed %s, which is refused: %s", args, v, x.err)
		}
		if _, err := reopen(file, key); err != nil {
			c.Fatal("unusable", "%v printed %s, but the store made with it does not open: %v", args, v, err)
		}
		c.Count("generated", 1)
	}
	// Derived keys.
	salt, pw := hex.EncodeToString(c.salt()), string(letters(r, 5))+strongTail
	old := pick(r, k431.DefaultSalt, hexKey(r))
	for _, t := range []struct {
		args []string
		key  string
	}{
		{[]string{"-S", old, "-P", pw, "pfk", "-g"}, pbkdf(pw, old)},
		{[]string{"-S", old, "-P", pw, "pfk", "-g", "--random=false"}, pbkdf(pw, old)},
		{[]string{"-S", old, "-P", pw, "pfk", "-g", "-s", salt}, pbkdf(pw, salt)},
		{[]string{"-S", old, "-P", pw, "pfk", "-g", "-s", "default"}, pbkdf(pw, k431.DefaultSalt)},
	} {
		c.Note("args", t.args)
		if x := c.run(cmdOpt{}, *fCLI, t.args...); x.code != 0 || strings.TrimSpace(x.out) != t.key {
			c.Fatal("derive", "%v prints %q (exit %d), expected %s", t.args, x.out, x.code, t.key)
		}
	}
	for _, a := range [][]string{{"pfk", "-g", "-G"}, {"-P", "abc", "pfk", "-g"}, {"-P", pw, "pfk", "-g", "-s", "00"}, {"-P", pw, "pfk", "-g", "-s", strings.Repeat("zz", 32)}} {
		c.Note("args", a)
		if x := c.run(cmdOpt{}, *fCLI, a...); x.code == 0 || hex64.MatchString(x.out) {
			c.Fatal("accepted", "%v exits with %d and prints %q", a, x.code, x.out)
		}
		c.Count("refused", 1)
	}
	c.Distinct(c.Idx)
	c.Eval(1)
}
