package main

import (
	"bufio"
	"bytes"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C26 ---

func init() {
	register(&Prop{ID: "C26", Level: "fault_enumeration",
		Rule:        "Histories of commands of the built program (enciphering, receiving clear and enciphered traffic, keys arriving later and listing, generating, deleting keys and messages, and commands that must fail), the store file loaded after each: what exit status 0 claims is in the file, a non-zero exit left the file as it was byte by byte, and cipher text was shown only if its keys are marked used in the file. And each of the changing commands with every file system call of its save made to fail or the process killed there, one after the other (strace injection), or killed by a file size limit. And the selection dialog for deleting messages on a pseudo terminal, whose list deciphers: answered, left empty or interrupted. And radiograms typed line by line on a pseudo terminal: outgoing, incoming, such that must fail, and typing that is interrupted. And commands that ask for several things at once (delete, generate, import, export, list, print; delete, write or receive, list, print), whose outcome is judged as a whole. Non-trivial: distinct (command, fault) that took effect and distinct histories.",
		Assumptions: []string{"strace is used where it works; the file size limit needs no privilege", "power loss is not simulated, only the process dies"},
		Need:        []string{"enciphered", "received", "received_deciphered", "list_deciphered", "generated", "deleted_keys", "deleted_messages", "failed_commands", "limit", "still_old", "is_new", "cipher_shown", "dialog_deciphered", "typed_sent", "typed_received", "typed_interrupted", "typed_failed", "combined_keys", "combined_messages", "combined_deleted", "combined_imported"},
		Sections: []Section{
			{Name: "history", Quick: 160, Thorough: 4000, Run: c26History},
			{Name: "fault", Quick: 48, Thorough: 700, Run: c26Fault},
			{Name: "limit", Quick: 48, Thorough: 700, Run: c26Limit},
			{Name: "terminal", Quick: 16, Thorough: 200, Run: c26Terminal},
			{Name: "typed", Quick: 32, Thorough: 400, Run: c26Typed},
			{Name: "combined", Quick: 160, Thorough: 3000, Run: c26Combined},
		}})
}

// deed is a command and the judgement of what it should have done to the
// store.
type deed struct {
	name  string
	args  []string
	stdin string
	done  func(before, after snap, keys map[string][]rune) error // nil: the command must fail
	may   bool                                                   // it may also fail
	text  string                                                 // enciphered text
}

// plainText is text that can not be taken for groups of letters.
func plainText(r *mrand.Rand, n int) string {
	var w []string
	for l := 0; l < n; {
		x := strings.ToLower(string(letters(r, 1+r.IntN(8))))
		x = strings.ReplaceAll(x, "k", "q")
		if r.IntN(6) == 0 {
			x = fmt.Sprint(r.IntN(10000))
		}
		w = append(w, x)
		l += len(x) + 1
	}
	return strings.Join(w, " ") + " 0"
}

// onlyMessages compares all but the messages, and the first messages.
func otherwiseSame(before, after snap, keysToo bool) error {
	b, a := before, after
	if !keysToo {
		b.Keys, a.Keys = nil, nil
	}
	if len(a.Messages) > len(b.Messages) {
		a.Messages = a.Messages[:len(b.Messages)]
	}
	if d := diff(b, a); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

// usedNow compares keys that may differ in their used mark only; exactly the
// given ones are to be newly used.
func usedNow(before, after snap, chain map[string]bool) error {
	if len(before.Keys) != len(after.Keys) {
		return fmt.Errorf("%d keys became %d", len(before.Keys), len(after.Keys))
	}
	for i, b := range before.Keys {
		a := after.Keys[i]
		if chain[b.ID] {
			if !a.Used {
				return fmt.Errorf("key %s enciphered or deciphered the message, but is not marked used", b.ID)
			}
			b.Used = true
		}
		if a != b {
			return fmt.Errorf("key %s: %s", b.ID, fieldDiff(fmt.Sprint(b), fmt.Sprint(a)))
		}
	}
	return nil
}

// c26Encipher writes a message.
func c26Encipher(r *mrand.Rand, me, to, text string, gs int) deed {
	return deed{name: "encipher", args: []string{pick(r, "messages", "m", "msg"), pick(r, "-n", "--new")}, stdin: fmt.Sprintf("%s DE %s = %s = K", to, me, text), text: text,
		done: func(before, after snap, keys map[string][]rune) error {
			if len(after.Messages) != len(before.Messages)+1 {
				return fmt.Errorf("%d messages became %d", len(before.Messages), len(after.Messages))
			}
			if err := otherwiseSame(before, after, false); err != nil {
				return err
			}
			m := after.Messages[len(after.Messages)-1]
			if m.Plain != text || m.Cipher == "" {
				return fmt.Errorf("the message is stored as %q with cipher text %q", m.Plain, m.Cipher)
			}
			d, err := refDecipher(keys, gs, m.KeyID, []rune(m.Cipher))
			if err != nil || strings.TrimRight(string(d.Text), " ") != text {
				return fmt.Errorf("the message deciphers to %q instead of %q: %v", string(d.Text), text, err)
			}
			for _, id := range d.Chain {
				if before.key(id).Used {
					return fmt.Errorf("key %s had been used before", id)
				}
			}
			return usedNow(before, after, setOf(d.Chain))
		}}
}

// c26Receive receives enciphered traffic of another station.
func c26Receive(r *mrand.Rand, me string, other *k431.Krypto431, text string) (d deed, chain []string) {
	f := cfg{other.GroupSize, other.KeyLength}
	fillKeys(r, other, f, needKeys(len(text), f), false, me)
	m := newMsg(other, []rune(text), me)
	if err := m.Encipher(); err != nil {
		panic(err)
	}
	g, _ := m.Groups()
	dec, _ := refDecipher(keyMap(other), f.GS, string(m.KeyId), m.CipherText)
	chain = dec.Chain
	others := keyMap(other)
	groups := string(*g)
	to := me
	if r.IntN(4) == 0 { // traffic to others, overheard
		to = pick(r, "QQQQ", "QQQQ RRRR")
	}
	d = deed{name: "receive", args: []string{pick(r, "messages", "m", "msg"), pick(r, "-n", "--new")}, stdin: fmt.Sprintf("%s DE %s = %s %s = K", to, string(other.CallSign), string(m.KeyId), groups),
		done: func(before, after snap, keys map[string][]rune) error {
			if len(after.Messages) != len(before.Messages)+1 {
				return fmt.Errorf("%d messages became %d", len(before.Messages), len(after.Messages))
			}
			if err := otherwiseSame(before, after, false); err != nil {
				return err
			}
			have := true
			for _, id := range chain {
				if x := before.key(id); x != nil && x.Runes != string(others[id]) {
					return nil // another key of the same name
				}
				if before.key(id) == nil {
					have = false
				}
			}
			x := after.Messages[len(after.Messages)-1]
			if !have {
				if strings.Join(strings.Fields(x.Plain), "") != string(m.KeyId)+string(m.CipherText) {
					return fmt.Errorf("undecipherable traffic %q is stored as %q", groups, x.Plain)
				}
				if before.key(chain[0]) != nil { // the first keys are held
					return nil
				}
				return usedNow(before, after, nil)
			}
			if strings.TrimRight(x.Plain, " ") != text || x.Cipher == "" || x.KeyID != string(m.KeyId) {
				return fmt.Errorf("received %q, deciphered %q (key %q)", text, x.Plain, x.KeyID)
			}
			return usedNow(before, after, setOf(chain))
		}}
	return
}

// c26Bare receives a radiogram without text.
func c26Bare(r *mrand.Rand, me, from string) deed {
	return deed{name: "receive nothing", args: []string{"messages", "-n"}, stdin: fmt.Sprintf("%s DE %s = = K", me, from),
		done: func(before, after snap, keys map[string][]rune) error {
			if len(after.Messages) != len(before.Messages)+1 {
				return fmt.Errorf("%d messages became %d", len(before.Messages), len(after.Messages))
			}
			if x := after.Messages[len(after.Messages)-1]; x.Plain != "" || x.Cipher != "" || x.KeyID != "" {
				return fmt.Errorf("a radiogram without text is stored as %+v", x)
			}
			return otherwiseSame(before, after, true)
		}}
}

func c26Generate(r *mrand.Rand, keepers []string) deed {
	n := 1 + r.IntN(5)
	args := []string{pick(r, "keys", "k"), "-n", fmt.Sprint(n)}
	for _, x := range keepers {
		args = append(args, "-k", x)
	}
	return deed{name: "generate", args: args, done: func(before, after snap, keys map[string][]rune) error {
		if len(after.Keys) != len(before.Keys)+n {
			return fmt.Errorf("%d keys became %d, asked for %d more", len(before.Keys), len(after.Keys), n)
		}
		a := after
		a.Keys = a.Keys[:len(before.Keys)]
		if d := diff(before, a); d != "" {
			return fmt.Errorf("%s", d)
		}
		for _, k := range after.Keys[len(before.Keys):] {
			if k.Used || k.Compromised || len(k.Runes) < after.KeyLength {
				return fmt.Errorf("generated %+v", k)
			}
		}
		return nil
	}}
}

func without(s snap, keyIDs, msgIDs map[string]bool) (out snap) {
	out = s
	out.Keys, out.Messages = nil, nil
	for _, k := range s.Keys {
		if !keyIDs[k.ID] {
			out.Keys = append(out.Keys, k)
		}
	}
	for _, m := range s.Messages {
		if !msgIDs[m.ID] {
			out.Messages = append(out.Messages, m)
		}
	}
	return
}

func c26DeleteKeys(r *mrand.Rand, s snap) deed {
	ids := map[string]bool{}
	args := []string{"keys", "-d", "-y"}
	for i := 1 + r.IntN(2); i > 0; i-- {
		id := s.Keys[r.IntN(len(s.Keys))].ID
		ids[id] = true
		args = append(args, "-i", randCase(r, id))
	}
	return deed{name: "delete keys", args: args, done: func(before, after snap, keys map[string][]rune) error {
		if d := diff(sortSnap(without(before, ids, nil)), sortSnap(after)); d != "" {
			return fmt.Errorf("%s", d)
		}
		return nil
	}}
}

func c26DeleteMessages(r *mrand.Rand, s snap) deed {
	ids := map[string]bool{}
	args := []string{"messages", "-d", "-y"}
	for i := 1 + r.IntN(2); i > 0; i-- {
		id := s.Messages[r.IntN(len(s.Messages))].ID
		ids[id] = true
		args = append(args, "-i", id)
	}
	return deed{name: "delete messages", args: args, done: func(before, after snap, keys map[string][]rune) error {
		if d := diff(sortSnap(without(before, nil, ids)), sortSnap(after)); d != "" {
			return fmt.Errorf("%s", d)
		}
		return nil
	}}
}

// c26List lists, which deciphers what became decipherable; want tells the
// texts by message id.
func c26List(r *mrand.Rand, other *k431.Krypto431, chains map[string][]string, texts map[string]string) deed {
	others := keyMap(other)
	args := []string{"messages", "-l"}
	if r.IntN(2) == 0 {
		args = append(args, "--all")
	}
	return deed{name: "list", args: args, done: func(before, after snap, keys map[string][]rune) error {
		if len(after.Messages) != len(before.Messages) {
			return fmt.Errorf("%d messages became %d", len(before.Messages), len(after.Messages))
		}
		used := map[string]bool{}
		for i, b := range before.Messages {
			a := after.Messages[i]
			chain, ok := chains[b.ID]
			held := ok && b.KeyID == ""
			for _, id := range chain {
				if x := before.key(id); x != nil && x.Runes != string(others[id]) {
					return nil // another key of the same name
				}
				held = held && before.key(id) != nil
			}
			if !held {
				if a != b {
					return fmt.Errorf("message %s: %s", b.ID, fieldDiff(fmt.Sprint(b), fmt.Sprint(a)))
				}
				continue
			}
			if strings.TrimRight(a.Plain, " ") != texts[b.ID] || a.KeyID != chain[0] || a.Cipher == "" {
				return fmt.Errorf("message %s was to be deciphered to %q and is stored as %q (key %q)", b.ID, texts[b.ID], a.Plain, a.KeyID)
			}
			for _, id := range chain {
				used[id] = true
			}
		}
		return usedNow(before, after, used)
	}}
}

// c26Failing is a command that has to fail.
func c26Failing(c *Case, r *mrand.Rand, me string, s snap) deed {
	text := plainText(r, 30)
	msg := []string{"messages", "-n"}
	existing := c.Path("existing")
	os.WriteFile(existing, []byte("something else"), 0600)
	switch r.IntN(14) {
	case 0:
		return deed{name: "encipher unsupported text", args: msg, stdin: fmt.Sprintf("AA DE %s = %s [%c] = K", me, text, pick(r, '%', '€', '漢')), text: text}
	case 1:
		return deed{name: "encipher without keys", args: msg, stdin: fmt.Sprintf("NOKEYS DE %s = %s = K", me, text), text: text}
	case 2:
		return deed{name: "encipher more than the keys", args: msg, stdin: fmt.Sprintf("AA DE %s = %s = K", me, plainText(r, (len(s.Keys)+1)*(s.KeyLength+s.GroupSize)*2)), text: text}
	case 3:
		return deed{name: "no radiogram", args: msg, stdin: pick(r, "", "\n", "garbage", "AA DE", "= =")}
	case 4:
		return deed{name: "bad date-time group", args: []string{"keys", "-n", "2", "-x", pick(r, "garbage", "320000Z", "310000FEB24", "XX")}}
	case 5:
		return deed{name: "contradiction", args: []string{"--password", "x", "keys", "-n", "2"}}
	case 6:
		return deed{name: "no file name", args: []string{pick(r, "keys", "messages"), "-o", ""}}
	case 7:
		return deed{name: "bad type", args: []string{pick(r, "keys", "messages"), "-o", c.Path("out"), "--type", "doc"}}
	case 8:
		return deed{name: "export onto a file", args: []string{"keys", "-E", existing}}
	case 9:
		return deed{name: "import nothing", args: []string{"keys", "-I", c.Path("no-such-file")}}
	case 10:
		return deed{name: "bad number", args: []string{"keys", "-n", pick(r, "x", "1.5", "")}}
	case 11:
		return deed{name: "unknown flag", args: []string{pick(r, "keys", "messages"), "--no-such-flag"}}
	case 12:
		return deed{name: "initialise without leave", args: []string{"init", "-c", "NEW", "-n", "2"}}
	default:
		kind := "txt"
		if len(s.Keys) > 0 { // printing nothing to a PDF is not an error
			kind = pick(r, "txt", "pdf")
		}
		return deed{name: "print into nowhere", args: []string{"keys", "-o", c.Path("no/such/dir/x." + kind)}}
	}
}

var groupsRe = regexp.MustCompile(`[A-Z]{3,}( [A-Z]{3,}){2,}`)

// judge compares what a command said with what is in the store.
func (d *deed) judge(c *Case, what string, x ran, before, after snap, keys map[string][]rune, changed bool) (isNew bool) {
	if d.done != nil {
		err := d.done(before, after, keys)
		isNew = err == nil
		if x.code == 0 && x.signal == 0 && !isNew {
			c.Fatal("not-stored", "%s: exits with 0, but the store does not hold what it did: %v\n%s", what, err, x.err)
		}
		if !isNew && diff(before, after) != "" {
			c.Fatal("mixed", "%s (exit %d): the store is neither as before nor as it should be: %v; %s", what, x.code, err, diff(before, after))
		}
	}
	if d.text != "" {
		shown := groupsRe.FindString(x.out)
		if shown != "" && !isNew {
			c.Fatal("cipher-shown", "%s (exit %d): cipher text is shown (%q), but the store does not know the message and its used keys", what, x.code, shown)
		}
		if shown != "" {
			c.Count("cipher_shown", 1)
		}
		if x.code == 0 && x.signal == 0 && d.done != nil {
			m := after.Messages[len(after.Messages)-1]
			if !strings.Contains(strings.Join(strings.Fields(x.out), ""), m.KeyID+m.Cipher) {
				c.Fatal("cipher-missing", "%s: the stored cipher text %s %s is not shown: %s", what, m.KeyID, m.Cipher, x.out)
			}
		}
	}
	return
}

func c26History(c *Case) {
	r := c.R
	cs := genCalls(r, 3)
	me := cs[0]
	f := cfg{pick(r, 5, 5, 4, 3), pick(r, 40, 60, 100)}
	pfk := hexKey(r)
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	file := filepath.Join(dir, "store")
	k := fileStation(me, f, file, pfk)
	other := cipherStation(cs[1], f)
	for i := 2 + r.IntN(5); i > 0; i-- {
		addKey(r, k, cs[1])
	}
	if err := k.Save(); err != nil {
		c.Error("%v", err)
	}
	cur := snapOf(k)
	chains, texts := map[string][]string{}, map[string]string{}
	pending := map[string][]string{} // undeciphered: message id to chain
	var names []string
	for step := 0; step < 9; step++ {
		var d deed
		var chain []string
		var text string
		switch r.IntN(10) {
		case 0, 1:
			d = c26Encipher(r, me, cs[1], plainText(r, 1+r.IntN(f.KL)), f.GS)
			d.may = true // there may be too few keys
		case 2, 3:
			if r.IntN(8) == 0 {
				d = c26Bare(r, me, cs[1])
				c.Count("without_text", 1)
				break
			}
			text = plainText(r, 1+r.IntN(f.KL))
			d, chain = c26Receive(r, me, other, text)
			give := pick(r, 0, 2, 2)
			if give == 2 {
				c26Give(c, file, pfk, other, chain)
			}
		case 4:
			if len(pending) > 0 {
				for _, m := range cur.Messages {
					id := m.ID
					if pending[id] != nil && r.IntN(3) > 0 {
						c26Give(c, file, pfk, other, pending[id])
					}
				}
			}
			if len(cur.Messages) == 0 {
				continue
			}
			d = c26List(r, other, chains, texts)
		case 5:
			d = c26Generate(r, subset(r, cs[1:]))
		case 6:
			if len(cur.Keys) < 2 {
				continue
			}
			d = c26DeleteKeys(r, cur)
		case 7:
			if len(cur.Messages) == 0 {
				continue
			}
			d = c26DeleteMessages(r, cur)
		default:
			d = c26Failing(c, r, me, cur)
		}
		names = append(names, d.name)
		c.Note("history", names)
		l, err := reopen(file, pfk)
		if err != nil {
			c.Error("%v", err)
		}
		before := snapOf(l)
		bytesBefore, _ := os.ReadFile(file)
		files := modes(dir)
		what := fmt.Sprintf("%s %v", d.name, d.args)
		x := c.run(cmdOpt{stdin: d.stdin, dir: dir}, *fCLI, append([]string{"-f", file, "-K", pfk}, d.args...)...)
		if x.signal != 0 || strings.Contains(x.err, "goroutine ") {
			c.Fatal("crash", "%s crashes: %s", what, shortText([]rune(x.err)))
		}
		l, err = reopen(file, pfk)
		if err != nil {
			c.Fatal("store-lost", "%s: the store does not open any more: %v", what, err)
		}
		after := snapOf(l)
		if len(modes(dir)) != len(files) {
			c.Fatal("left-behind", "%s left files behind: %v", what, modes(dir))
		}
		isNew := d.judge(c, what, x, before, after, keyMap(l), true)
		if x.code != 0 {
			if d.done != nil && !d.may {
				c.Fatal("refused", "%s exits with %d: %s", what, x.code, x.err)
			}
			now, _ := os.ReadFile(file)
			if !bytes.Equal(now, bytesBefore) {
				c.Fatal("failed-changed", "%s exits with %d, but the store file was changed: %s", what, x.code, diff(before, after))
			}
			if strings.TrimSpace(x.err) == "" {
				c.Fatal("silent", "%s exits with %d without a word", what, x.code)
			}
			if groupsRe.MatchString(x.out) && d.text != "" {
				c.Fatal("cipher-shown", "%s exits with %d and shows cipher text: %s", what, x.code, x.out)
			}
			c.Count("failed_commands", 1)
		} else if d.done == nil {
			c.Fatal("exit", "%s has to fail, but exits with 0: %s %s", what, x.out, x.err)
		} else if isNew {
			switch d.name {
			case "encipher":
				c.Count("enciphered", 1)
			case "receive":
				c.Count("received", 1)
				m := after.Messages[len(after.Messages)-1]
				chains[m.ID], texts[m.ID] = chain, text
				if m.KeyID != "" {
					c.Count("received_deciphered", 1)
				} else {
					pending[m.ID] = chain
				}
			case "list":
				for id := range pending {
					if m := after.msg(id); m == nil || m.KeyID != "" {
						delete(pending, id)
						if m != nil {
							c.Count("list_deciphered", 1)
						}
					}
				}
			case "generate":
				c.Count("generated", 1)
			case "delete keys":
				c.Count("deleted_keys", 1)
			case "delete messages":
				c.Count("deleted_messages", 1)
			}
		}
		cur = after
		c.Eval(1)
	}
	c.Distinct(names)
	if c.Idx < 2 {
		c.Sample(map[string]any{"commands": names})
	}
}

// c26Typed types radiograms at a terminal.
func c26Typed(c *Case) {
	r := c.R
	dir, file, pfk, before, _, d := c26Case(c, c.Idx%3)
	me := before.CallSign
	fails := false
	if c.Idx%4 == 3 {
		for d = c26Failing(c, r, me, before); d.stdin == "" || strings.TrimSpace(d.stdin) == ""; {
			d = c26Failing(c, r, me, before)
		}
		fails = true
	}
	interrupted := !fails && r.IntN(5) == 0
	var steps []step
	wait := "to finish]"
	words := strings.Fields(d.stdin)
	if r.IntN(4) == 0 {
		steps, wait = append(steps, step{wait, "\r"}), ""
	}
	for len(words) > 0 {
		n := min(len(words), 1+r.IntN(len(words)))
		steps = append(steps, step{wait, strings.Join(words[:n], " ") + "\r"})
		words, wait = words[n:], ""
	}
	if interrupted {
		steps = append(steps[:r.IntN(len(steps)+1)], step{"", pick(r, "\x03", "not to be sent\x03")})
		steps[0].wait = "to finish]"
	} else {
		steps = append(steps, step{"", "\r"}, step{"", "\r"})
	}
	what := fmt.Sprintf("%s %v typed as %q", d.name, d.args, steps)
	c.Note("command", what)
	bytesBefore, _ := os.ReadFile(file)
	x, done := c.runPTY(cmdOpt{dir: dir}, steps, *fCLI, append([]string{"-f", file, "-K", pfk}, d.args...)...)
	c.Note("output", x.out)
	if done < len(steps) {
		c.Fatal("no-question", "%s: ended (exit %d) before all was typed: %s", what, x.code, x.out)
	}
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("store-lost", "%s: the store does not open any more: %v", what, err)
	}
	after := snapOf(l)
	if x.signal != 0 || strings.Contains(x.out, "goroutine ") {
		c.Fatal("crash", "%s crashes: %s", what, shortText([]rune(x.out)))
	}
	now, _ := os.ReadFile(file)
	if interrupted || fails {
		if x.code == 0 {
			c.Fatal("exit", "%s: has to fail, but exits with 0: %s", what, x.out)
		}
		if !bytes.Equal(now, bytesBefore) {
			c.Fatal("failed-changed", "%s exits with %d, but the store file was changed: %s", what, x.code, diff(before, after))
		}
		if interrupted {
			c.Count("typed_interrupted", 1)
		} else {
			c.Count("typed_failed", 1)
		}
	} else {
		if x.code != 0 {
			c.Fatal("refused", "%s exits with %d: %s", what, x.code, x.out)
		}
		if i := strings.Index(x.out, "to finish]"); i >= 0 {
			x.out = x.out[i:]
		}
		d.judge(c, what, x, before, after, keyMap(l), true)
		if d.text != "" {
			c.Count("typed_sent", 1)
		} else {
			c.Count("typed_received", 1)
		}
	}
	c.Distinct(steps)
	c.Eval(1)
}

// c26Give hands keys of another station over, as an import does.
func c26Give(c *Case, file, pfk string, other *k431.Krypto431, chain []string) {
	k, err := reopen(file, pfk)
	if err != nil {
		c.Error("%v", err)
	}
	for i := range other.Keys {
		id := string(other.Keys[i].Id)
		if setOf(chain)[id] && !k.ContainsKeyId(&other.Keys[i].Id) {
			copyKey(k, &other.Keys[i], string(other.CallSign))
		}
	}
	if err := k.Save(); err != nil {
		c.Error("%v", err)
	}
}

// c26Case prepares a store and one command that changes it.
func c26Case(c *Case, kind int) (dir, file, pfk string, before snap, keys map[string][]rune, d deed) {
	r := c.R
	cs := genCalls(r, 3)
	f := cfg{pick(r, 5, 5, 4), pick(r, 40, 60, 100)}
	pfk = hexKey(r)
	dir = filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	file = filepath.Join(dir, "store")
	k := fileStation(cs[0], f, file, pfk)
	other := cipherStation(cs[1], f)
	for i := 4 + r.IntN(5); i > 0; i-- {
		addKey(r, k, cs[1])
	}
	for i := 1 + r.IntN(2); i > 0; i-- {
		m := newMsg(k, []rune("old"), cs[1])
		m.Id = k.NewUniqueMessageId()
		k.Messages = append(k.Messages, *m)
	}
	switch kind % 6 {
	case 0, 1:
		d = c26Encipher(r, cs[0], cs[1], plainText(r, 10+r.IntN(f.KL)), f.GS)
	case 2:
		var chain []string
		d, chain = c26Receive(r, cs[0], other, plainText(r, 10+r.IntN(f.KL)))
		for i := range other.Keys {
			if setOf(chain)[string(other.Keys[i].Id)] && !k.ContainsKeyId(&other.Keys[i].Id) {
				copyKey(k, &other.Keys[i], cs[1])
			}
		}
	case 3:
		text := plainText(r, 10+r.IntN(f.KL))
		x, chain := c26Receive(r, cs[0], other, text)
		if _, err := k.NewTextMessage(x.stdin); err != nil {
			c.Error("%v", err)
		}
		id := string(k.Messages[len(k.Messages)-1].Id)
		for i := range other.Keys {
			if setOf(chain)[string(other.Keys[i].Id)] && !k.ContainsKeyId(&other.Keys[i].Id) {
				copyKey(k, &other.Keys[i], cs[1])
			}
		}
		d = c26List(r, other, map[string][]string{id: chain}, map[string]string{id: text})
	case 4:
		d = c26Generate(r, cs[1:2])
	case 5:
		if r.IntN(2) == 0 {
			d = c26DeleteKeys(r, snapOf(k))
		} else {
			d = c26DeleteMessages(r, snapOf(k))
		}
	}
	if err := k.Save(); err != nil {
		c.Error("%v", err)
	}
	return dir, file, pfk, snapOf(k), keyMap(k), d
}

// after judges the store after a fault.
func (d *deed) after(c *Case, what, file, pfk string, x ran, before snap) {
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("store-lost", "%s: the store does not open any more: %v", what, err)
	}
	if x.signal == 0 && (strings.Contains(x.err, "panic: ") || strings.Contains(x.err, "goroutine 1")) {
		c.Fatal("crash", "%s crashes: %s", what, shortText([]rune(x.err)))
	}
	if d.judge(c, what, x, before, snapOf(l), keyMap(l), false) {
		c.Count("is_new", 1)
	} else {
		c.Count("still_old", 1)
	}
}

func c26Fault(c *Case) {
	dir, file, pfk, before, _, d := c26Case(c, c.Idx)
	cmd := append([]string{*fCLI, "-f", file, "-K", pfk}, d.args...)
	c.faults(d.name, dir, file, d.stdin, cmd, func(what string, x ran, hit bool) {
		d.after(c, what, file, pfk, x, before)
		if hit && x.code != 0 && x.signal == 0 && d.text != "" && groupsRe.MatchString(x.out) {
			c.Fatal("cipher-shown", "%s: exits with %d and shows cipher text: %s", what, x.code, x.out)
		}
		if hit && x.code != 0 && x.signal == 0 && strings.Contains(x.out, "=CIPHER=") {
			c.Fatal("shown", "%s: exits with %d, but shows the message: %s", what, x.code, x.out)
		}
	})
}

// faults runs a command that changes the store once as it is and once with
// each file system call of its save failing, or the program killed there; the
// store is put back each time.
func (c *Case) faults(name, dir, file, stdin string, cmd []string, judge func(what string, x ran, hit bool)) {
	r := c.R
	if _, err := os.Stat(stracePath); err != nil {
		c.Count("strace_missing", 1)
		return
	}
	stored, _ := os.ReadFile(file)
	restore := func() {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			os.Remove(filepath.Join(dir, e.Name()))
		}
		if err := os.WriteFile(file, stored, 0600); err != nil {
			c.Error("%v", err)
		}
	}
	opt := cmdOpt{stdin: stdin, env: []string{"GOMAXPROCS=1"}}
	log := c.Path("trace.log")
	x := c.run(opt, stracePath, append([]string{"-f", "-y", "-qq", "-s", "200", "-o", log, "-e", "trace=" + "?" + strings.Join(fileSyscalls, ",?")}, cmd...)...)
	b, _ := os.ReadFile(log)
	if len(b) == 0 {
		c.Count("strace_unusable", 1)
		return
	}
	judge(name+" without a fault", x, false)
	if x.code != 0 {
		c.Fatal("refused", "%s exits with %d: %s", name, x.code, x.err)
	}
	restore()
	type fault struct {
		name, args, how string
		n               int
	}
	var fs []fault
	counts := map[string]int{}
	saving, named, early := false, false, ""
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		m := straceLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		counts[m[1]+m[2]]++
		switch q := quoted.FindAllStringSubmatch(m[3], -1); {
		case strings.HasPrefix(m[2], "rename") && len(q) == 2 && q[1][1] == file:
			named = true
		case m[2] == "fsync" && strings.Contains(m[3], "<"+dir+">") && named:
			named = false
			c.Count("name_flushed", 1)
		case m[2] == "write" && strings.HasPrefix(m[3], "1<") && named:
			early = m[3]
		}
		in := strings.Contains(m[3], dir+"/") && !strings.HasPrefix(m[3], "1<") && !strings.HasPrefix(m[3], "2<")
		if in && (strings.Contains(m[3], "O_CREAT") || strings.Contains(m[3], "O_WRONLY") || strings.Contains(m[3], "O_RDWR")) {
			saving = true
		}
		if !saving || !in && !strings.HasPrefix(m[3], "1<") {
			continue
		}
		es := straceErrors[m[2]]
		if len(es) == 0 {
			es = []string{"EIO"}
		}
		n := counts[m[1]+m[2]]
		if in {
			fs = append(fs, fault{m[2], m[3], "error=" + pick(r, es...), n})
		}
		fs = append(fs, fault{m[2], m[3], "signal=KILL", n})
	}
	if named || early != "" {
		c.Fatal("name-not-flushed", "%s: the new name of the store is not flushed to disk before %s: the old store, its keys unused, may be back after a power failure", name, pick(r, early, "the end"))
	}
	if limit := 40; len(fs) > limit && !c.Thorough {
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		fs = fs[:limit]
	}
	essential := map[string]bool{"write": true, "pwrite64": true, "writev": true, "fsync": true, "fdatasync": true, "rename": true, "renameat": true, "renameat2": true}
	for _, f := range fs {
		os.Remove(log)
		what := fmt.Sprintf("%s with %s at %s number %d (%.80s)", name, f.how, f.name, f.n, f.args)
		c.Note("fault", what)
		x := c.run(opt, stracePath, append([]string{"-f", "-y", "-qq", "-s", "60", "-o", log, "-e", "trace=" + f.name, "-e", fmt.Sprintf("inject=%s:%s:when=%d", f.name, f.how, f.n)}, cmd...)...)
		lb, _ := os.ReadFile(log)
		hit := false
		for _, l := range strings.Split(string(lb), "\n") {
			hit = hit || strings.Contains(l, "(INJECTED)") && strings.Contains(l, dir+"/") && !strings.Contains(l, "(1<") && !strings.Contains(l, "(2<")
		}
		hit = hit && strings.HasPrefix(f.how, "error")
		if outputInjected.Match(lb) && strings.HasPrefix(f.how, "error") {
			// The calls of another thread of the program reached the number
			// too; what a terminal refused to show is no matter here.
			c.Count("output_failed", 1)
			restore()
			continue
		}
		if x.code > 128 { // strace repeats the death of the program
			x.signal = syscall.Signal(x.code - 128)
		}
		judge(what, x, hit)
		if hit {
			c.Count("errors_hit", 1)
			if essential[f.name] && x.code == 0 {
				c.Fatal("error-ignored", "%s: exits with 0", what)
			}
		} else if x.signal == syscall.SIGKILL {
			c.Count("kills", 1)
		}
		c.Distinct(name, f.name, f.n, f.how, c.Idx)
		c.Eval(1)
		restore()
	}
}

var outputInjected = regexp.MustCompile(`\([12]<.*\(INJECTED\)`)

// c26Limit: real partial writes at a file size limit.
func c26Limit(c *Case) {
	r := c.R
	dir, file, pfk, before, _, d := c26Case(c, c.Idx)
	if r.IntN(3) > 0 { // a store of more than one block
		l, _ := reopen(file, pfk)
		for i := 0; i < 10+r.IntN(30); i++ {
			m := newMsg(l, []rune(string(letters(r, 200))), "AA")
			m.Id = l.NewUniqueMessageId()
			l.Messages = append(l.Messages, *m)
		}
		l.Save()
		before = snapOf(l)
	}
	stored, _ := os.ReadFile(file)
	for i := 0; i < 4; i++ {
		blocks := r.IntN(len(stored)/512 + 1)
		what := fmt.Sprintf("%s with files limited to %d blocks (store %d bytes)", d.name, blocks, len(stored))
		c.Note("fault", what)
		x := c.run(cmdOpt{stdin: d.stdin, timeout: 60 * time.Second}, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -f %d; ulimit -c 0; exec \"$@\"", blocks), "sh", *fCLI, "-f", file, "-K", pfk}, d.args...)...)
		if x.code != 0 || x.signal != 0 {
			x.err = "" // the signal kills it
		}
		d.after(c, what, file, pfk, x, before)
		c.Count("limit", 1)
		c.Distinct(d.name, blocks, c.Idx)
		c.Eval(1)
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			os.Remove(filepath.Join(dir, e.Name()))
		}
		os.WriteFile(file, stored, 0600)
	}
}

// c26Terminal lists messages for deletion, which deciphers what became
// decipherable: what was shown is kept, whether or not anything is deleted.
func c26Terminal(c *Case) {
	r := c.R
	cs := genCalls(r, 2)
	f := cfg{pick(r, 5, 5, 4), pick(r, 40, 60, 100)}
	file, pfk := c.Path("store"), hexKey(r)
	k := fileStation(cs[0], f, file, pfk)
	other := cipherStation(cs[1], f)
	chains, texts := map[string][]string{}, map[string]string{}
	var ids []string
	for i := 1 + r.IntN(4); i > 0; i-- {
		if r.IntN(3) == 0 {
			m := newMsg(k, []rune(plainText(r, 10)), cs[1])
			m.Id = k.NewUniqueMessageId()
			k.Messages = append(k.Messages, *m)
			ids = append(ids, string(m.Id))
			continue
		}
		text := plainText(r, 10+r.IntN(f.KL))
		d, chain := c26Receive(r, cs[0], other, text)
		if _, err := k.NewTextMessage(d.stdin); err != nil {
			c.Error("%v", err)
		}
		id := string(k.Messages[len(k.Messages)-1].Id)
		chains[id], texts[id] = chain, text
		ids = append(ids, id)
	}
	for i := range other.Keys {
		if id := string(other.Keys[i].Id); r.IntN(5) > 0 && !k.ContainsKeyId(&other.Keys[i].Id) {
			for _, chain := range chains {
				if setOf(chain)[id] {
					copyKey(k, &other.Keys[i], cs[1])
					break
				}
			}
		}
	}
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	l, err := reopen(file, pfk)
	if err != nil {
		c.Error("%v", err)
	}
	before := snapOf(l)
	gone := map[string]bool{}
	typed, end := "", pick(r, "\r", "\r", "\x03")
	some := end == "\r" && r.IntN(2) == 0
	for _, id := range ids {
		if some && r.IntN(2) == 0 {
			typed += " "
			gone[id] = true
		}
		typed += "\x1b[B"
	}
	what := fmt.Sprintf("messages -d answered with %q", typed+end)
	c.Note("command", what)
	x, done := c.runPTY(cmdOpt{}, []step{{"to delete", typed + end}}, *fCLI, "-f", file, "-K", pfk, "messages", "-d")
	c.Note("output", x.out)
	if done == 0 {
		c.Fatal("no-question", "%s: there was no dialog (exit %d): %s", what, x.code, x.out)
	}
	if l, err = reopen(file, pfk); err != nil {
		c.Fatal("store-lost", "%s: the store does not open any more: %v", what, err)
	}
	after := sortSnap(snapOf(l))
	want := sortSnap(without(before, nil, gone))
	if len(after.Messages) != len(want.Messages) {
		c.Fatal("not-stored", "%s: %d of %d messages selected, %d are left", what, len(gone), len(ids), len(after.Messages))
	}
	// A deleted message was deciphered as well, its keys are used.
	for id := range gone {
		if chains[id] == nil {
			continue
		}
		held := true
		for _, kid := range chains[id] {
			held = held && before.key(kid) != nil
		}
		for _, kid := range chains[id] {
			if b := before.key(kid); held && b != nil {
				if !after.key(kid).Used {
					c.Fatal("unused", "%s: key %s of the deleted message is not marked used", what, kid)
				}
			}
		}
		if held {
			for i := range want.Keys {
				if setOf(chains[id])[want.Keys[i].ID] {
					want.Keys[i].Used = true
				}
			}
		}
	}
	if err := c26List(r, other, chains, texts).done(want, after, keyMap(l)); err != nil {
		c.Fatal("not-kept", "%s (exit %d): the dialog shows deciphered messages, but the store does not have them: %v", what, x.code, err)
	}
	for _, m := range after.Messages {
		if chains[m.ID] != nil && m.KeyID != "" {
			c.Count("dialog_deciphered", 1)
		}
	}
	c.Distinct("dialog", len(ids), len(gone), end, c.Idx)
	c.Eval(1)
}
