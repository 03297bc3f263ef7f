package main

import (
	"crypto/rand"
	"fmt"
	"io"
	mrand "math/rand/v2"
	"regexp"
	"strings"
	"sync"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C28 ---

func init() {
	register(&Prop{ID: "C28", CPU: 200,
		Rule:        "Histories of deletions through every entry point (runes, strings, summary lines of the library; the command's -i options and its selection dialog driven on a pseudo terminal) compared with a set model after every call: the named items that exist are gone, every other one has all its field values (snapshot comparison, any order), nothing else of the station changed and the number reported is the number removed. Names are given in any letter case, repeated, unknown, empty, similar to existing ones, separated by commas and spaces; stores from empty to hundreds of items, also those whose ids differ in letter case only. The file is loaded again after the command. Non-trivial: distinct (entry point, names, store).",
		Assumptions: []string{"the order of the remaining items is not part of the property"},
		Need:        []string{"keys_deleted", "messages_deleted", "unknown", "cli", "dialog", "case_twins", "emptied"},
		Sections: []Section{
			{Name: "library", Quick: 2500, Thorough: 60000, Run: c28Library},
			{Name: "cli", Quick: 60, Thorough: 1200, Run: c28CLI},
			{Name: "terminal", Quick: 24, Thorough: 300, Run: c28Terminal},
		}})
}

// c28Fill makes a store with keys and messages, some message ids differing in
// letter case only.
func c28Fill(c *Case, k *k431.Krypto431, nk, nm int, plain bool) {
	r := c.R
	for i := 0; i < nk; i++ {
		key := addKey(r, k, genCalls(r, r.IntN(3))...)
		variedKey(r, key)
		if plain {
			key.Comment = []rune(string(letters(r, r.IntN(8))))
		}
	}
	for i := 0; i < nm; i++ {
		m := anyMessage(r, k)
		if plain {
			m = *newMsg(k, []rune(plainText(r, 20)), genCalls(r, r.IntN(3))...)
			m.From = []rune(genCall(r))
			m.DTG.Time = randTime(r)
		}
		m.Id = k.NewUniqueMessageId()
		if len(k.Messages) > 0 && r.IntN(4) == 0 {
			twin := []rune(swapCase(r, string(k.Messages[r.IntN(len(k.Messages))].Id)))
			if !k.ContainsMessageId(&twin) {
				m.Id = twin
				c.Count("case_twins", 1)
			}
		}
		k.Messages = append(k.Messages, m)
	}
	// The other columns of a list may look like ids.
	for i := range k.Keys {
		if x := k.Keys[r.IntN(nk)].Id; r.IntN(4) == 0 {
			k.Keys[i].Comment = []rune(pick(r, "", "see ", "not ") + string(x))
		} else if r.IntN(6) == 0 {
			k.Keys[i].Keepers = append(k.Keys[i].Keepers, []rune(string(x)))
		}
	}
	for i := range k.Messages {
		switch x := k.Messages[r.IntN(nm)].Id; r.IntN(6) {
		case 0:
			k.Messages[i].PlainText = []rune(string(x) + pick(r, "", " ack"))
		case 1:
			k.Messages[i].From = []rune(string(x))
		case 2:
			k.Messages[i].Recipients = append(k.Messages[i].Recipients, []rune(string(x)))
		}
	}
}

func swapCase(r *mrand.Rand, s string) string {
	b := []byte(s)
	i := r.IntN(len(b))
	switch x := b[i]; {
	case x >= 'a' && x <= 'z':
		b[i] = x - 32
	case x >= 'A' && x <= 'Z':
		b[i] = x + 32
	}
	return string(b)
}

// c28Names picks ids to delete: existing, repeated, unknown and similar ones.
func c28Names(c *Case, ids []string, fold bool, gs int) (names []string) {
	r := c.R
	for n := r.IntN(6); n > 0; n-- {
		var x string
		if len(ids) > 0 {
			x = ids[r.IntN(len(ids))]
		}
		switch r.IntN(10) {
		case 0:
			x = string(letters(r, gs))
		case 1: // similar
			if x != "" {
				x = pick(r, x+"A", x[:len(x)-1], "A"+x, x[1:], x+x, swapCase(r, x), "."+x, x+".")
			}
		case 2:
			if len(names) > 0 {
				x = names[r.IntN(len(names))]
			}
		case 3:
			x = pick(r, "", "NIL", "*", "ID", "Anonymous", "漢字")
		default:
			if fold {
				x = randCase(r, x)
			}
		}
		names = append(names, x)
	}
	return
}

// named is the set of existing ids that are named.
func named(ids, names []string, fold bool) map[string]bool {
	out := map[string]bool{}
	for _, n := range names {
		for _, id := range ids {
			if id != "" && (id == n || fold && strings.EqualFold(id, n)) {
				out[id] = true
			}
		}
	}
	return out
}

func keyIDs(k *k431.Krypto431) (out []string) {
	for i := range k.Keys {
		out = append(out, string(k.Keys[i].Id))
	}
	return
}

func messageIDs(k *k431.Krypto431) (out []string) {
	for i := range k.Messages {
		out = append(out, string(k.Messages[i].Id))
	}
	return
}

// joinNames spreads names over arguments, separated by commas and spaces.
func joinNames(r *mrand.Rand, names []string) (args []string) {
	for i, n := range names {
		if i > 0 && r.IntN(2) == 0 {
			args[len(args)-1] += pick(r, ",", " ", ", ", " ,", ",,", "  ") + n
			continue
		}
		args = append(args, pick(r, "", "", " ", ",")+n+pick(r, "", "", " ", ","))
	}
	return
}

func c28Library(c *Case) {
	r := c.R
	f := genCfg(r)
	if f.GS < 3 { // room for enough ids
		f.GS = 3
	}
	k := cipherStation("AA", f)
	nk, nm := r.IntN(12), r.IntN(12)
	if r.IntN(10) == 0 {
		nk, nm = r.IntN(150), r.IntN(150)
	}
	c28Fill(c, k, nk, nm, false)
	for step := 0; step < 8; step++ {
		before := snapOf(k)
		keys := r.IntN(2) == 0
		ids, fold := messageIDs(k), false
		gs := 4
		if keys {
			ids, fold, gs = keyIDs(k), true, f.GS
		}
		names := c28Names(c, ids, fold, gs)
		if r.IntN(12) == 0 { // everything
			names = append([]string(nil), ids...)
			r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		}
		how := r.IntN(3)
		if how == 2 {
			_, lines := k.SummaryOfKeys(all)
			if !keys {
				// (listing may decipher)
				_, lines = k.SummaryOfMessages(allMsg)
				before = snapOf(k)
			}
			for i := range names {
				n := []rune(names[i])
				for x := range ids {
					if keys && strings.EqualFold(ids[x], names[i]) || ids[x] == names[i] {
						n = lines[x]
						if r.IntN(4) == 0 {
							n = []rune(strings.TrimSpace(string(n)))
						}
					}
				}
				names[i] = string(n)
			}
		}
		var n int
		var err error
		var call string
		want := named(ids, names, fold)
		switch how {
		case 0:
			var runes [][]rune
			for _, x := range names {
				runes = append(runes, []rune(x))
			}
			if r.IntN(6) == 0 {
				runes = append(runes, nil)
			}
			if keys {
				call = "DeleteKey"
				n, err = k.DeleteKey(runes...)
			} else {
				call = "DeleteMessage"
				n, err = k.DeleteMessage(runes...)
			}
		case 1:
			args := joinNames(r, names)
			if keys {
				call = fmt.Sprintf("DeleteKeyByString(%q)", args)
				n, err = k.DeleteKeyByString(args...)
			} else {
				call = fmt.Sprintf("DeleteMessageByString(%q)", args)
				n, err = k.DeleteMessageByString(args...)
			}
		case 2:
			var first []string
			for _, x := range names {
				a, _, _ := strings.Cut(x, " ")
				first = append(first, a)
			}
			want = named(ids, first, fold)
			if keys {
				call = "DeleteKeysBySummaryString"
				n, err = k.DeleteKeysBySummaryString(names...)
			} else {
				call = "DeleteMessagesBySummaryString"
				n, err = k.DeleteMessagesBySummaryString(names...)
			}
		}
		what := fmt.Sprintf("%s of %q", call, names)
		c.Note("call", what)
		if err != nil {
			c.Fatal("error", "%s: %v", what, err)
		}
		var wantSnap snap
		if keys {
			wantSnap = without(before, want, nil)
			c.Count("keys_deleted", len(want))
		} else {
			wantSnap = without(before, nil, want)
			c.Count("messages_deleted", len(want))
		}
		if d := diff(sortSnap(wantSnap), sortSnap(snapOf(k))); d != "" {
			c.Fatal("not-exact", "%s removed not exactly %s: %s", what, sortedKeys(want), d)
		}
		if n != len(want) {
			c.Fatal("count", "%s reports %d removed, it is %d", what, n, len(want))
		}
		if len(want) == 0 {
			c.Count("unknown", 1)
		} else if len(want) == len(ids) {
			c.Count("emptied", 1)
		}
		for i := range k.Keys {
			if k.Keys[i].GetInstance() != k {
				c.Fatal("instance", "%s: key %s belongs to another station", what, string(k.Keys[i].Id))
			}
		}
		c.Distinct(call[:8], len(ids), len(names), len(want), step, c.Idx)
		c.Eval(1)
	}
}

func c28CLI(c *Case) {
	r := c.R
	file, pfk := c.Path("store"), hexKey(r)
	k := fileStation("AA", cfg{pick(r, 4, 5, 6), 50}, file, pfk)
	c28Fill(c, k, r.IntN(12), r.IntN(12), true)
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	for step := 0; step < 4; step++ {
		l, err := reopen(file, pfk)
		if err != nil {
			c.Fatal("load", "%v", err)
		}
		before, state := snapOf(l), stateOf(file)
		keys := r.IntN(2) == 0
		ids, fold := messageIDs(l), false
		args := []string{"-f", file, "-K", pfk, pick(r, "messages", "m"), "-y"}
		if keys {
			ids, fold = keyIDs(l), true
			args = []string{"-f", file, "-K", pfk, pick(r, "keys", "k"), "-y"}
		}
		args = append(args, pick(r, "-d", "--delete"))
		var names []string
		for _, n := range c28Names(c, ids, fold, 5) {
			if !strings.HasPrefix(n, "-") {
				names = append(names, n)
			}
		}
		flag := pick(r, "-i", "--id")
		for _, a := range joinNames(r, names) {
			args = append(args, flag, a)
		}
		want := named(ids, names, fold)
		x := c.run(cmdOpt{}, *fCLI, args...)
		what := fmt.Sprintf("%q", args[4:])
		c.Note("command", what)
		if x.code != 0 {
			c.Fatal("exit", "%s: exits with %d: %s", what, x.code, x.err)
		}
		after, err := reopen(file, pfk)
		if err != nil {
			c.Fatal("lost", "%s: the store does not load any more: %v", what, err)
		}
		wantSnap := without(before, want, nil)
		if !keys {
			wantSnap = without(before, nil, want)
		}
		if d := diff(sortSnap(wantSnap), sortSnap(snapOf(after))); d != "" {
			c.Fatal("not-exact", "%s removed not exactly %s: %s", what, sortedKeys(want), d)
		}
		if len(want) == 0 {
			if d := state.diff(stateOf(file)); d != "" {
				c.Fatal("not-exact", "%s names nothing that exists: %s", what, d)
			}
		}
		if n := reported(x.err + x.out); n != len(want) {
			c.Fatal("count", "%s reports %d removed, it is %d: %s", what, n, len(want), x.err)
		}
		c.Count("cli", 1)
		c.Distinct(keys, len(ids), len(names), len(want), step, c.Idx)
		c.Eval(1)
	}
}

var deletedRe = regexp.MustCompile(`(?i)deleted (\d+) `)

func reported(s string) (n int) {
	if m := deletedRe.FindStringSubmatch(s); m != nil {
		fmt.Sscan(m[1], &n)
	}
	return
}

// c28Terminal selects lines in the dialog of the command.
func c28Terminal(c *Case) {
	r := c.R
	file, pfk := c.Path("store"), hexKey(r)
	k := fileStation("AA", cfg{5, 50}, file, pfk)
	c28Fill(c, k, 1+r.IntN(15), 1+r.IntN(15), true)
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("load", "%v", err)
	}
	before, state := snapOf(l), stateOf(file)
	keys := c.Idx%2 == 0
	args := []string{"-f", file, "-K", pfk, "messages", "-d"}
	ids := messageIDs(l)
	if keys {
		args[4] = "keys"
		ids = keyIDs(l)
		if r.IntN(2) == 0 { // only those that may be selected
			args = append(args, "-u")
			ids = nil
			for i := range l.Keys {
				if l.Keys[i].Used {
					ids = append(ids, string(l.Keys[i].Id))
				}
			}
		}
	}
	want := map[string]bool{}
	typed := ""
	for _, id := range ids {
		if r.IntN(3) == 0 {
			typed += " "
			want[id] = true
		}
		typed += "\x1b[B"
	}
	end := pick(r, "\r", "\r", "\r", "\x03")
	if end == "\x03" {
		want = map[string]bool{}
	}
	what := fmt.Sprintf("%q with %q", args[4:], typed+end)
	c.Note("command", what)
	steps := []step{{"to delete", typed + end}}
	x, done := c.runPTY(cmdOpt{}, steps, *fCLI, args...)
	c.Note("output", x.out)
	if done == 0 && len(ids) > 0 {
		c.Fatal("no-question", "%s: there was no dialog (exit %d): %s", what, x.code, x.out)
	}
	after, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("lost", "%s: the store does not load any more: %v", what, err)
	}
	wantSnap := without(before, want, nil)
	if !keys {
		wantSnap = without(before, nil, want)
	}
	if d := diff(sortSnap(wantSnap), sortSnap(snapOf(after))); d != "" {
		c.Fatal("not-exact", "%s removed not exactly %s: %s", what, sortedKeys(want), d)
	}
	if len(want) == 0 {
		if d := state.diff(stateOf(file)); d != "" {
			c.Fatal("not-exact", "%s: nothing was selected, but %s", what, d)
		}
	} else if x.code != 0 || reported(x.out) != len(want) {
		c.Fatal("count", "%s: exit %d, %d reported removed, it is %d: %s", what, x.code, reported(x.out), len(want), x.out)
	}
	c.Count("dialog", 1)
	c.Distinct(keys, len(ids), len(want), end, c.Idx)
	c.Eval(1)
}

// ------------------------------------------------------------------- C29 ---

func init() {
	register(&Prop{ID: "C29", CPU: 120,
		Rule:        "Messages enciphered and received while the random source repeats itself (replayed from the start for every message, replayed in blocks, drawn from few different values, stuck for a while), mixed with deleting, failed attempts, deciphering attempts, listing, saving and loading: every id is four letters or digits, unlike every other id of the store and unchanged ever after; looking a message up by its id (library and command, listing and printing) finds that message only, also where ids differ in letter case only. The same through the program over the life of a store. Non-trivial: distinct messages created, of which those with a repeating source are counted.",
		Assumptions: []string{"a source that repeats forever gives no new id, so each replay ends after a while"},
		Need:        []string{"created", "replayed", "stable", "lookups", "cli_created", "received", "enciphered", "without_text"},
		Sections: []Section{
			{Name: "library", Quick: 500, Thorough: 12000, Run: c29Library},
			{Name: "many", Quick: 4, Thorough: 24, Run: c29Many},
			{Name: "cli", Quick: 16, Thorough: 300, Run: c29CLI},
		}})
}

// loopReader repeats what it gave: from the start for each message, in blocks,
// or from a few values only. After enough repetitions it goes on.
type loopReader struct {
	mu     sync.Mutex
	src    io.Reader
	tape   []byte
	pos    int
	rounds int // how often to repeat the tape before going on
	left   int
	hits   int
}

func (l *loopReader) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for i := range p {
		if l.pos == len(l.tape) {
			if l.left > 0 && len(l.tape) > 0 {
				l.left--
				l.pos = 0
			} else {
				var b [8]byte
				io.ReadFull(l.src, b[:])
				l.tape = append(l.tape, b[:]...)
			}
		}
		if l.pos < len(l.tape)-8 {
			l.hits++
		}
		p[i] = l.tape[l.pos]
		l.pos++
	}
	return len(p), nil
}

// rewind starts the tape again, so that the next random values are the first
// ones again.
func (l *loopReader) rewind(rounds int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.pos, l.left = 0, rounds
}

func (l *loopReader) reset() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.tape, l.pos, l.left = nil, 0, 0
}

var idRe = regexp.MustCompile(`^[A-Za-z0-9]{4}$`)

// lastRunes are the texts a message is recognised by.
func c29Check(c *Case, what string, k *k431.Krypto431, ids map[string]string) {
	seen := map[string]bool{}
	for i := range k.Messages {
		m := &k.Messages[i]
		id := string(m.Id)
		if !idRe.MatchString(id) {
			c.Fatal("form", "%s: a message has the id %q", what, id)
		}
		if seen[id] {
			c.Fatal("twice", "%s: two messages have the id %s", what, id)
		}
		seen[id] = true
		if ids[id] != string(m.Radiogram) {
			c.Fatal("unstable", "%s: the message %q has the id %s now, which was of %q", what, string(m.Radiogram), id, ids[id])
		}
	}
	for id := range ids {
		if !seen[id] {
			c.Fatal("unstable", "%s: the message %s (%q) is gone", what, id, ids[id])
		}
	}
	c.Count("stable", len(seen))
}

func c29Library(c *Case) {
	r := c.R
	f := cfg{5, 60}
	pfk := hexKey(r)
	file := c.Path("store")
	k := fileStation("AA", f, file, pfk)
	other := cipherStation("BB", f)
	for i := 0; i < 30; i++ {
		key := addKey(r, other, "AA")
		if i%2 == 0 || r.IntN(3) == 0 {
			copyKey(k, key, "BB")
		}
	}
	for i := 0; i < 20; i++ {
		addKey(r, k, "BB")
	}
	old := rand.Reader
	tape := &loopReader{src: old}
	rand.Reader = tape
	defer func() { rand.Reader = old }()
	ids := map[string]string{}
	serial := 0
	mode := c.Idx % 4
	c.Note("mode", mode)
	for step := 0; step < 24; step++ {
		switch mode {
		case 0: // every message starts from the same random values
			tape.rewind(0)
			c.Count("replayed", 1)
		case 1: // the same ones, several times over
			tape.rewind(1 + r.IntN(5))
			c.Count("replayed", 1)
		case 2: // sometimes
			if r.IntN(2) == 0 {
				tape.rewind(r.IntN(3))
				c.Count("replayed", 1)
			}
		case 3:
			tape.reset()
		}
		text := plainText(r, 10+r.IntN(10))
		serial++
		var m *k431.Message
		var err error
		what := ""
		switch r.IntN(8) {
		case 0, 1: // enciphered
			what = fmt.Sprintf("BB DE AA = %s %d = K", text, serial)
			m, err = k.NewTextMessage(what)
			c.Count("enciphered", 1)
		case 2, 3: // received in clear
			what = fmt.Sprintf("AA DE BB = %s %d = K", text, serial)
			if r.IntN(3) == 0 { // a message without a text
				what = fmt.Sprintf("AA CC%d DE BB = = K", serial)
				c.Count("without_text", 1)
			}
			m, err = k.NewTextMessage(what)
			c.Count("received", 1)
		case 4, 5: // received enciphered, decipherable or not
			o := newMsg(other, []rune(text), "AA")
			if o.Encipher() != nil {
				continue
			}
			o.From, o.DTG.Time = []rune("BB"), randTime(r)
			what = fmt.Sprintf("AA DE BB %d = %s %s = K", 10000+serial, string(o.KeyId), strings.TrimSpace(groupsOf(o.CipherText, f.GS)))
			what = strings.Replace(what, fmt.Sprint(10000+serial), fmt.Sprintf("0112%02d", serial%60), 1)
			m, err = k.NewTextMessage(what)
			c.Count("received", 1)
		case 6: // fails
			if _, err := k.NewTextMessage(pick(r, "garbage", "NOBODY DE AA = hello = K", "BB DE AA = [%] = K", "DE")); err == nil {
				c.Fatal("harness", "accepted")
			}
			c29Check(c, "a failed message", k, ids)
			continue
		case 7: // deleted
			if len(k.Messages) == 0 {
				continue
			}
			id := string(k.Messages[r.IntN(len(k.Messages))].Id)
			if n, err := k.DeleteMessageByString(id); n != 1 || err != nil {
				c.Fatal("lookup", "deleting message %s removes %d: %v", id, n, err)
			}
			delete(ids, id)
			c29Check(c, "deleting "+id, k, ids)
			c.Count("lookups", 1)
			continue
		}
		if err != nil {
			if strings.Contains(what, "DE AA") { // out of keys
				c29Check(c, "out of keys", k, ids)
				continue
			}
			c.Fatal("refused", "%s: %v", what, err)
		}
		stored := &k.Messages[len(k.Messages)-1]
		id := string(stored.Id)
		if string(m.Id) != id {
			c.Fatal("unstable", "the new message is called %s, but %s in the store", string(m.Id), id)
		}
		if x, ok := ids[id]; ok {
			c.Fatal("twice", "the message %q gets the id %s of %q", what, id, x)
		}
		ids[id] = string(stored.Radiogram)
		c29Check(c, fmt.Sprintf("after %q", what), k, ids)
		c.Count("created", 1)
		c.Distinct(c.Idx, step)
		c.Eval(1)
		switch r.IntN(8) {
		case 0: // list
			k.SummaryOfMessages(allMsg)
			c29Check(c, "listing", k, ids)
		case 1: // attempts
			for i := range k.Messages {
				k.Messages[i].TryDecipherPlainText(r.IntN(2) == 0)
				if len(k.Messages[i].CipherText) > 0 && r.IntN(2) == 0 {
					k.Messages[i].Decipher()
				}
			}
			c29Check(c, "deciphering", k, ids)
		case 2: // save and load
			if err := k.Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
			if k, err = reopen(file, pfk); err != nil {
				c.Fatal("load", "%v", err)
			}
			c29Check(c, "saving and loading", k, ids)
		case 3: // print
			k.MessagesAsText(allMsg)
			c29Check(c, "printing", k, ids)
		case 4: // ids
			for id := range ids {
				x := []rune(id)
				if !k.ContainsMessageId(&x) {
					c.Fatal("lookup", "the message %s is not found", id)
				}
				y := []rune(swapCase(r, id))
				if _, ok := ids[string(y)]; k.ContainsMessageId(&y) != ok {
					c.Fatal("lookup", "looking for %s: found %v, exists %v", string(y), !ok, ok)
				}
				n := 0
				k.SummaryOfMessages(func(m *k431.Message) bool {
					if k431.EqualRunes(&m.Id, &x) {
						n++
					}
					return false
				})
				if n != 1 {
					c.Fatal("lookup", "%d messages are called %s", n, id)
				}
				c.Count("lookups", 1)
			}
		}
	}
}

// c29Many fills a store until ids collide by themselves.
func c29Many(c *Case) {
	r := c.R
	k := cipherStation("AA", cfg{5, 60})
	old := rand.Reader
	// Few different values: the ids are drawn from some hundreds.
	few := make([][8]byte, 6)
	for i := range few {
		io.ReadFull(old, few[i][:])
	}
	rand.Reader = fewReader{r, few, old}
	defer func() { rand.Reader = old }()
	seen := map[string]bool{}
	n := 700
	if c.Thorough {
		n = 1000
	}
	for i := 0; i < n; i++ {
		m, err := k.NewTextMessage(fmt.Sprintf("AA DE BB = text %d 0 = K", i))
		if err != nil {
			c.Fatal("refused", "%v", err)
		}
		id := string(m.Id)
		if seen[id] || !idRe.MatchString(id) {
			c.Fatal("twice", "message %d of a store gets the id %q", i, id)
		}
		seen[id] = true
		c.Count("created", 1)
		c.Distinct(id)
	}
	if len(k.Messages) != n {
		c.Fatal("lost", "%d messages became %d", n, len(k.Messages))
	}
	ids := map[string]bool{}
	for _, id := range messageIDs(k) {
		ids[id] = true
	}
	if len(ids) != n {
		c.Fatal("twice", "%d messages have %d ids", n, len(ids))
	}
	c.Count("replayed", n)
	c.Eval(n)
}

// fewReader gives one of few values, and now and then a fresh one so that there
// is always another id to be found.
type fewReader struct {
	r   *mrand.Rand
	few [][8]byte
	src io.Reader
}

func (f fewReader) Read(p []byte) (int, error) {
	for i := 0; i < len(p); i += 8 {
		v := f.few[f.r.IntN(len(f.few))]
		if f.r.IntN(16) == 0 {
			io.ReadFull(f.src, v[:])
		}
		copy(p[i:], v[:])
	}
	return len(p), nil
}

// c29CLI follows the messages of a store through commands.
func c29CLI(c *Case) {
	r := c.R
	file, pfk := c.Path("store"), hexKey(r)
	k := fileStation("AA", cfg{5, 60}, file, pfk)
	for i := 0; i < 20; i++ {
		addKey(r, k, "BB")
	}
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	ids := map[string]string{}
	base := []string{"-f", file, "-K", pfk, "messages"}
	for i := 0; i < 8; i++ {
		g := fmt.Sprintf("BB DE AA = %s %d = K", plainText(r, 12), i)
		if r.IntN(2) == 0 {
			g = fmt.Sprintf("AA DE BB = %s %d = K", plainText(r, 12), i)
		}
		c.Note("radiogram", g)
		if x := c.run(cmdOpt{stdin: g}, *fCLI, append(append([]string(nil), base...), "-n")...); x.code != 0 {
			c.Fatal("refused", "%q: exits with %d: %s", g, x.code, x.err)
		}
		l, err := reopen(file, pfk)
		if err != nil {
			c.Fatal("load", "%v", err)
		}
		if len(l.Messages) != len(ids)+1 {
			c.Fatal("lost", "%d messages, there were %d and one is new", len(l.Messages), len(ids))
		}
		m := &l.Messages[len(l.Messages)-1]
		ids[string(m.Id)] = string(m.Radiogram)
		c29Check(c, "command "+g, l, ids)
		c.Count("cli_created", 1)
		c.Eval(1)
		c.Distinct(c.Idx, i)
		id := messageIDs(l)[r.IntN(len(ids))]
		x := c.run(cmdOpt{}, *fCLI, append(append([]string(nil), base...), "-l", "-i", id)...)
		lines := strings.Split(strings.TrimSpace(x.out), "\n")
		if x.code != 0 || len(lines) != 4 || !strings.HasPrefix(lines[3], id+" ") {
			c.Fatal("lookup", "listing message %s: exit %d: %s", id, x.code, x.out)
		}
		c.Count("lookups", 1)
		if r.IntN(3) == 0 {
			if x := c.run(cmdOpt{}, *fCLI, append(append([]string(nil), base...), "-d", "-y", "-i", id)...); x.code != 0 {
				c.Fatal("lookup", "deleting message %s: exit %d: %s", id, x.code, x.err)
			}
			delete(ids, id)
			if l, err = reopen(file, pfk); err != nil {
				c.Fatal("load", "%v", err)
			}
			c29Check(c, "deleting "+id, l, ids)
		}
	}
}
