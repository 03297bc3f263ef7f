package main

import (
	"fmt"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------- C24 and C25 ---

func init() {
	register(&Prop{ID: "C24",
		Rule:        "The built program selects keys of generated stores (every mixture of used, compromised and expired, expiry near the limits asked for, keepers from a small pool) with random combinations of the selection flags in all their spellings; the list is read row by row, print-outs card by card, exports and imports by loading the stores, each compared with the keys a set model of the flags selects. One section goes through every combination of the boolean flags, another asks keys themselves for how long they are valid. Non-trivial: distinct (arguments without ids, number selected).",
		Assumptions: []string{"ids take precedence over the other flags and --all over everything, all other flags narrow the selection", "no expiry lies within ten minutes of a limit"},
		Need:        []string{"listed", "exported", "printed_txt", "printed_pdf", "imported", "none_selected", "some_selected", "all_selected", "by_id", "by_keeper", "by_any_keeper", "by_valid", "combined", "far_valid", "validity"},
		Sections: []Section{
			{Name: "flags", Quick: 1024, Thorough: 16384, Run: func(c *Case) { c24Flags(c, true) }},
			{Name: "random", Quick: 1200, Thorough: 25000, Run: func(c *Case) { c24Flags(c, false) }},
			{Name: "import", Quick: 60, Thorough: 900, Run: c24Import},
			{Name: "validity", Quick: 4000, Thorough: 200000, Run: c24Validity},
		}})
	register(&Prop{ID: "C25",
		Rule:        "The built program selects messages of generated stores (recipients and senders from a small pool, ids that differ in letter case only, enciphered, clear and undeciphered) with random combinations of the selection flags in all their spellings; the list is read row by row, print-outs message by message and compared with what a set model of the flags selects. Non-trivial: distinct (arguments without ids, number selected).",
		Assumptions: []string{"ids take precedence over the other flags and --all over everything, all other flags narrow the selection"},
		Need:        []string{"listed", "printed_txt", "printed_pdf", "none_selected", "some_selected", "all_selected", "by_id", "near_id", "by_recipient", "by_any_recipient", "by_sender", "combined"},
		Sections: []Section{
			{Name: "random", Quick: 1600, Thorough: 30000, Run: c25Flags},
		}})
}

// c24Validity asks a key itself whether it is valid, as the flags do.
func c24Validity(c *Case) {
	r := c.R
	k := k431.New(k431.WithCallSign("AA"))
	key := addKey(r, &k)
	const day = 24 * time.Hour
	limits := []time.Duration{0, day, 30 * day, 365 * day, time.Duration(r.Int64N(int64(4000 * day)))}
	left := pick(r, limits...) + time.Duration(pick(r, -1, 1)*(1+r.IntN(5000)))*time.Minute
	if r.IntN(4) == 0 { // dates of any year
		left = time.Duration(r.Int64N(2*int64(100*365*day))) - 100*365*day
	}
	for _, l := range limits {
		if d := left - l; d > -50*time.Second && d < 50*time.Second {
			return
		}
	}
	key.Used, key.Compromised = r.IntN(2) == 0, r.IntN(2) == 0
	key.Expires.Time = time.Now().Add(left)
	if r.IntN(2) == 0 { // another zone is the same time
		key.Expires.Time = key.Expires.Time.In(time.FixedZone("", 3600*(r.IntN(25)-12)))
	}
	c.Note("time left", left.String())
	check := func(what string, got, want bool) {
		c.Check(got == want, "validity", "%s of a key that expires in %v (used=%v compromised=%v) is %v", what, left, key.Used, key.Compromised, got)
	}
	check("IsExpired", key.IsExpired(), left < 0)
	check("IsValidOneDay", key.IsValidOneDay(), left > day)
	check("IsValidOneMonth", key.IsValidOneMonth(), left > 30*day)
	check("IsValidOneYear", key.IsValidOneYear(), left > 365*day)
	for _, l := range limits {
		check("IsValid("+l.String()+")", key.IsValid(l), left > l)
	}
	word := map[bool]string{true: "Yes", false: "No"}
	c.Check(key.UsedString() == word[key.Used] && key.CompromisedString() == word[key.Compromised] && (key.UsedOrNotString("u", "n") == "u") == key.Used,
		"mark-words", "a key with used=%v compromised=%v says %q, %q and %q", key.Used, key.Compromised, key.UsedString(), key.CompromisedString(), key.UsedOrNotString("u", "n"))
	c.Count("validity", 1)
	c.Distinct(left, key.Used, key.Compromised)
}

// listArgs spells a list of items as values of a flag in one of the ways the
// program accepts.
// joinShort writes neighbouring one-letter flags without a value as one, -l -u
// as -lu.
func joinShort(r *mrand.Rand, args []string, flags string) (out []string) {
	flag := func(x string) bool {
		return len(x) == 2 && x[0] == '-' && strings.Contains(flags, x[1:])
	}
	plain := 0 // one of them may be the value of the flag before
	for i, x := range args {
		value := i > 0 && strings.HasPrefix(args[i-1], "-") && !flag(args[i-1]) && !strings.Contains(args[i-1], "=")
		if flag(x) && !value {
			if plain++; plain > 1 && r.IntN(4) > 0 {
				out[len(out)-1] += x[1:]
				continue
			}
		} else {
			plain = 0
		}
		out = append(out, x)
	}
	return
}

func listArgs(r *mrand.Rand, flag string, items []string) (args []string) {
	put := func(v string) {
		if strings.HasPrefix(flag, "--") && r.IntN(3) == 0 {
			args = append(args, flag+"="+v)
		} else {
			args = append(args, flag, v)
		}
	}
	switch r.IntN(4) {
	case 0, 1:
		for _, x := range items {
			put(x)
		}
	case 2:
		put(strings.Join(items, pick(r, ",", " ", ", ", "  ")))
	default:
		n := r.IntN(len(items) + 1)
		if n > 0 {
			put(strings.Join(items[:n], pick(r, ",", " ")))
		}
		if n < len(items) {
			put(strings.Join(items[n:], pick(r, ",", " ")))
		}
	}
	return
}

func boolArg(r *mrand.Rand, flag string, v bool) []string {
	if !v {
		return []string{flag + "=false"}
	}
	return []string{pick(r, flag, flag, flag+"=true")}
}

// choosing is a selection and the model of what it selects.
type choosing struct {
	args  []string
	label []string
	sel   func(key *k431.Key) bool
}

func holds(keepers [][]rune, call string) bool {
	for _, x := range keepers {
		if strings.EqualFold(string(x), call) {
			return true
		}
	}
	return false
}

// keyFlags makes a combination of flags. bits >= 0 forces the boolean flags.
func keyFlags(r *mrand.Rand, c *Case, now time.Time, keys []k431.Key, pool []string, bits int) (f choosing) {
	var conds []func(*k431.Key) bool
	add := func(label string, args []string, cond func(*k431.Key) bool) {
		f.label = append(f.label, label)
		f.args = append(f.args, args...)
		if cond != nil {
			conds = append(conds, cond)
		}
	}
	flag := func(i int, p int) bool {
		if bits >= 0 {
			return bits>>i&1 == 1
		}
		return r.IntN(p) == 0
	}
	everything := false
	var ids []string
	expired := func(k *k431.Key) bool { return k.Expires.Time.Before(now) }
	if flag(0, 3) {
		add("used", boolArg(r, pick(r, "-u", "--used"), true), func(k *k431.Key) bool { return k.Used })
	} else if r.IntN(12) == 0 {
		add("used=false", boolArg(r, "--used", false), nil)
	}
	if flag(1, 3) {
		add("unused", boolArg(r, pick(r, "-U", "--unused"), true), func(k *k431.Key) bool { return !k.Used })
	} else if r.IntN(12) == 0 {
		add("unused=false", boolArg(r, "--unused", false), nil)
	}
	if flag(2, 4) {
		add("compromised", boolArg(r, pick(r, "-C", "--compromised"), true), func(k *k431.Key) bool { return k.Compromised })
	} else if r.IntN(12) == 0 {
		add("compromised=false", boolArg(r, "--compromised", false), nil)
	}
	if flag(3, 4) {
		add("expired", boolArg(r, "--expired", true), expired)
	} else if r.IntN(12) == 0 {
		add("expired=false", boolArg(r, "--expired", false), nil)
	}
	if flag(4, 4) {
		add("invalid", boolArg(r, "--invalid", true), func(k *k431.Key) bool { return k.Compromised || expired(k) })
	} else if r.IntN(12) == 0 {
		add("invalid=false", boolArg(r, "--invalid", false), nil)
	}
	if flag(5, 3) {
		days := pick(r, 0, 1, 1, 7, 30, 30, 365, 36500)
		if r.IntN(12) == 0 {
			days = pick(r, 106751, 106752, 200000, 213504, 1<<31, 1<<40, 1<<62)
			c.Count("far_valid", 1)
		}
		args := []string{"--valid", fmt.Sprint(days)}
		if r.IntN(8) == 0 { // expired lately or not at all
			days = -pick(r, 1, 5, 30, 400)
			args = []string{fmt.Sprintf("--valid=%d", days)}
			c.Count("lately_valid", 1)
		}
		c.Count("by_valid", 1)
		add(fmt.Sprintf("valid %d", days), args, func(k *k431.Key) bool {
			return !k.Compromised && float64(k.Expires.Time.Unix()-now.Unix()) > float64(days)*86400
		})
	}
	if flag(6, 3) {
		var want []string
		for i := pick(r, 1, 1, 2, 2, 3); i > 0; i-- {
			want = append(want, pick(r, pool...))
		}
		or := flag(7, 2)
		var spelled []string
		for _, x := range want {
			spelled = append(spelled, randCase(r, x))
		}
		add(fmt.Sprintf("keepers %d or %v", len(setOf(want)), or), listArgs(r, pick(r, "-k", "--keepers"), spelled), func(k *k431.Key) bool {
			n := 0
			for _, x := range want {
				if holds(k.Keepers, x) {
					n++
				}
			}
			return or && n > 0 || n == len(want)
		})
		if or {
			f.args = append(f.args, boolArg(r, "--or", true)...)
			c.Count("by_any_keeper", 1)
		} else {
			if r.IntN(8) == 0 {
				f.args = append(f.args, boolArg(r, "--or", false)...)
			}
			c.Count("by_keeper", 1)
		}
	} else if flag(7, 6) {
		add("or only", []string{"--or"}, nil)
	}
	if flag(8, 5) {
		for i := pick(r, 1, 1, 2, 3, pick(r, 1, 4, 12, 40)); i > 0; i-- {
			if len(keys) > 0 && r.IntN(5) > 0 {
				ids = append(ids, string(keys[r.IntN(len(keys))].Id))
			} else {
				ids = append(ids, string(letters(r, len(string(keys[0].Id)))))
			}
		}
		var spelled []string
		for _, x := range ids {
			spelled = append(spelled, randCase(r, x))
		}
		add(fmt.Sprintf("ids %d", len(ids)), listArgs(r, pick(r, "-i", "--id"), spelled), nil)
		c.Count("by_id", 1)
	}
	if flag(9, 12) {
		everything = true
		add("all", boolArg(r, "--all", true), nil)
	} else if r.IntN(12) == 0 {
		add("all=false", boolArg(r, "--all", false), nil)
	}
	if len(conds) > 1 {
		c.Count("combined", 1)
	}
	f.sel = func(k *k431.Key) bool {
		if everything {
			return true
		}
		if len(ids) > 0 {
			for _, x := range ids {
				if x == string(k.Id) {
					return true
				}
			}
			return false
		}
		for _, cond := range conds {
			if !cond(k) {
				return false
			}
		}
		return true
	}
	return
}

// filterKeys fills a store with keys of every mixture.
func filterKeys(r *mrand.Rand, k *k431.Krypto431, now time.Time, pool []string, n int) {
	for i := 0; i < n; i++ {
		key := addKey(r, k, subset(r, pool)...)
		if r.IntN(6) == 0 {
			key.Keepers = nil
		}
		key.Used, key.Compromised = r.IntN(2) == 0, r.IntN(3) == 0
		day := 24 * time.Hour
		d := pick(r, 0, 0, day, 7*day, 30*day, 365*day, 36500*day)
		off := pick(r, 15*time.Minute, time.Hour, 20*time.Hour, 200*day)
		if r.IntN(2) == 0 {
			off = -off
		}
		key.Expires.Time = now.Add(d + off).Truncate(time.Minute).UTC()
		if r.IntN(10) == 0 {
			key.Expires.Time = pick(r, time.Time{}, time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
		}
	}
}

func c24Flags(c *Case, system bool) {
	r := c.R
	now := time.Now()
	cs := genCalls(r, 5)
	pool := cs[1:4]
	pfk := hexKey(r)
	file := c.Path("main")
	k := fileStation(cs[0], cfg{pick(r, 5, 5, 4, 3), 20 + r.IntN(40)}, file, pfk)
	filterKeys(r, k, now, pool, pick(r, 1, 3, 8, 12, 20))
	if r.IntN(3) == 0 {
		k.Messages = append(k.Messages, *newMsg(k, []rune("X"), cs[1]))
	}
	if err := k.Save(); err != nil {
		c.Error("%v", err)
	}
	src := snapOf(k)
	bits := -1
	if system {
		bits = c.Idx % 1024
	}
	f := keyFlags(r, c, now, k.Keys, append(pool, cs[4], cs[0]), bits)
	var want []*k431.Key
	ids := map[string]bool{}
	for i := range k.Keys {
		if f.sel(&k.Keys[i]) {
			want = append(want, &k.Keys[i])
			ids[string(k.Keys[i].Id)] = true
		}
	}
	switch len(want) {
	case 0:
		c.Count("none_selected", 1)
	case len(k.Keys):
		c.Count("all_selected", 1)
	default:
		c.Count("some_selected", 1)
	}
	global := []string{"-f", file, "-K", pfk, pick(r, "keys", "k")}
	// What the command does, one or more at a time.
	list, export, output := r.IntN(2) == 0, r.IntN(4) == 0, ""
	if r.IntN(4) == 0 {
		output = c.Path(pick(r, "o.txt", "o.TXT", "o.pdf", "o.PDF"))
	}
	if !export && output == "" {
		list = true
	}
	var ops []string
	if list {
		ops = append(ops, pick(r, "-l", "--list"))
	} else if r.IntN(3) == 0 {
		ops = append(ops, pick(r, "-l=false", "--list=false"))
	}
	if r.IntN(8) == 0 {
		ops = append(ops, pick(r, "--delete=false", "-d=false"))
	}
	if r.IntN(8) == 0 {
		ops = append(ops, pick(r, "--yes=false", "-y=false", "-y"))
	}
	if export {
		ops = append(ops, pick(r, "-E", "--export"), c.Path("export"))
	}
	if output != "" {
		ops = append(ops, pick(r, "-o", "--output"), output)
	}
	args := append(ops, f.args...)
	if r.IntN(2) == 0 {
		args = append(append([]string{}, f.args...), ops...)
	}
	if r.IntN(3) == 0 {
		args = joinShort(r, args, "lduUCy")
	}
	c.Note("args", args)
	c.Note("selected", sortedKeys(ids))
	x := c.run(cmdOpt{}, *fCLI, append(global, args...)...)
	empty := len(want) == 0
	if x.signal != 0 || x.code != 0 && !(empty && output != "") {
		c.Fatal("exit", "%v: exit %d: %s%s", args, x.code, x.out, x.err)
	}
	if !list && strings.Contains(x.out, "TOTALKEYS") {
		c.Fatal("list-unasked", "%v: a list that was not asked for: %s", args, x.out)
	}
	if list {
		c.checkKeyList(x.out, file, cs[0], len(k.Keys), len(k.Messages), want)
		c.Count("listed", 1)
	}
	if export {
		c19File(c, src, ids, c.Path("export"), pfk)
		c.Count("exported", 1)
	}
	if output != "" {
		b, err := os.ReadFile(output)
		switch {
		case empty:
			if err == nil && len(b) > 0 {
				if runs, _, e := readPDF(b); e != nil || len(runs) > 0 {
					c.Fatal("empty-output", "printing no key wrote %d bytes", len(b))
				}
			}
		case err != nil:
			c.Fatal("output", "%v: nothing is printed: %v", args, err)
		case strings.EqualFold(filepath.Ext(output), ".txt"):
			c.checkKeysText("output", string(b), want, k.GroupSize, k.KeyColumns)
			c.Count("printed_txt", 1)
		default:
			var items []string
			for _, key := range want {
				items = append(items, key.String())
			}
			c.checkPDF("output", output, items, k.Columns)
			c.Count("printed_pdf", 1)
		}
	}
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("store", "the store does not open afterwards: %v", err)
	}
	if d := diff(src, snapOf(l)); d != "" {
		c.Fatal("store", "%v changed the store: %s", args, d)
	}
	c.Distinct(f.label, len(want), list, export, output)
	c.Eval(1)
}

// checkKeyList reads what keys -l wrote.
func (c *Case) checkKeyList(out, file, call string, total, messages int, want []*k431.Key) {
	if len(want) == 0 {
		if strings.TrimSpace(out) != "" {
			c.Fatal("list-number", "no key is selected, but the list is %q", out)
		}
		return
	}
	l := strings.Split(strings.TrimRight(out, "\n"), "\n")
	if len(l) < 3 {
		c.Fatal("list-number", "%d keys are selected, the list is %q", len(want), out)
	}
	if l[0] != "FILE="+file || l[1] != fmt.Sprintf("KEEPER=%s TOTALKEYS=%d MESSAGES=%d", call, total, messages) {
		c.Fatal("list-head", "the list begins %q %q", l[0], l[1])
	}
	if len(l)-3 != len(want) {
		c.Fatal("list-number", "%d keys are selected, %d are listed:\n%s", len(want), len(l)-3, out)
	}
	for i, key := range want {
		c.checkKeyRow(l[2], l[3+i], key)
	}
}

// c24Import selects what is imported; the password is typed on a terminal.
func c24Import(c *Case) {
	r := c.R
	now := time.Now()
	cs := genCalls(r, 5)
	pool := cs[1:4]
	password := "correct horse battery staple " + string(letters(r, 5))
	f := cfg{pick(r, 5, 4), 30 + r.IntN(60)}
	a := fileStation(cs[0], f, c.Path("a"), hexKey(r))
	if err := a.SetPFKFromPassword(password); err != nil {
		c.Error("password: %v", err)
	}
	filterKeys(r, a, now, pool, 4+r.IntN(12))
	if err := a.Save(); err != nil {
		c.Error("%v", err)
	}
	pfk := hexKey(r)
	b := fileStation(cs[1], f, c.Path("b"), pfk)
	filterKeys(r, b, now, pool, r.IntN(3))
	if err := b.Save(); err != nil {
		c.Error("%v", err)
	}
	sel := keyFlags(r, c, now, a.Keys, append(pool, cs[4], cs[0]), -1)
	want := map[string]keySnap{}
	held := map[string]bool{}
	for i := range b.Keys {
		want[string(b.Keys[i].Id)] = normKey(snapKey(&b.Keys[i]))
		held[string(b.Keys[i].Id)] = true
	}
	n := 0
	for i := range a.Keys {
		if sel.sel(&a.Keys[i]) && !held[string(a.Keys[i].Id)] {
			want[string(a.Keys[i].Id)] = received(snapKey(&a.Keys[i]), cs[0], cs[1])
			n++
		}
	}
	args := append([]string{"-f", c.Path("b"), "-K", pfk, "keys", pick(r, "-I", "--import"), c.Path("a")}, sel.args...)
	c.Note("args", args)
	x, done := c.runPTY(cmdOpt{}, []step{{"Enter decryption key", password + "\r"}}, *fCLI, args...)
	if done < 1 || x.code != 0 {
		c.Fatal("import", "exit %d: %s", x.code, x.out)
	}
	l, err := reopen(c.Path("b"), pfk)
	if err != nil {
		c.Fatal("import", "the importing store does not open: %v", err)
	}
	got := snapOf(l)
	for _, key := range got.Keys {
		w, ok := want[key.ID]
		if !ok {
			c.Fatal("import-other", "%v: key %s was imported, it is not selected", sel.args, key.ID)
		}
		if normKey(key) != w {
			c.Fatal("import-key", "key %s: %s", key.ID, fieldDiff(fmt.Sprintf("expected %+v", w), fmt.Sprintf("%+v", normKey(key))))
		}
		delete(want, key.ID)
	}
	for id := range want {
		c.Fatal("import-missing", "%v: key %s was not imported", sel.args, id)
	}
	c.Count("imported", 1)
	c.Count("imported_keys", n)
	c.Distinct(sel.label, n)
	c.Eval(1)
}

// ------------------------------------------------------------------- C25 ---

func c25Flags(c *Case) {
	r := c.R
	cs := genCalls(r, 6)
	pool := cs[:5]
	pfk := hexKey(r)
	file := c.Path("main")
	k := fileStation(cs[0], cfg{pick(r, 5, 5, 4, 3), 20 + r.IntN(40)}, file, pfk)
	for i := r.IntN(3); i > 0; i-- {
		addKey(r, k, cs[1])
	}
	n := pick(r, 1, 3, 8, 12, 20)
	taken := map[string]bool{}
	for len(k.Messages) < n {
		m := newMsg(k, []rune(strings.ReplaceAll(printText(r), "_", "-")), subset(r, pool)...)
		for {
			m.Id = []rune(pick(r, "aBcD", "AbCd", "abcd", "ABCD", "zz9Z", "ZZ9z", "zZ9Z", string(k.NewUniqueMessageId()), strings.ToLower(string(letters(r, 4)))))
			if !taken[string(m.Id)] {
				break
			}
		}
		taken[string(m.Id)] = true
		m.From = []rune(pick(r, pool...))
		if r.IntN(10) == 0 {
			m.From = nil
		}
		if r.IntN(10) == 0 {
			m.Recipients = nil
		}
		m.DTG.Time = randTime(r)
		switch r.IntN(3) {
		case 0:
			m.KeyId = letters(r, k.GroupSize)
			m.CipherText = letters(r, k.GroupSize*(1+r.IntN(30)))
		case 1: // enciphered with keys nobody holds: stays as it is
			m.PlainText = []rune(groupsOf(letters(r, k.GroupSize*(2+r.IntN(10))), k.GroupSize))
			for i := range k.Keys {
				if strings.HasPrefix(string(m.PlainText), string(k.Keys[i].Id)) {
					m.PlainText[0]++
				}
			}
		}
		k.Messages = append(k.Messages, *m)
	}
	if err := k.Save(); err != nil {
		c.Error("%v", err)
	}
	src := snapOf(k)
	// The flags.
	var args, label []string
	var to, from, ids []string
	or, everything := r.IntN(3) == 0, r.IntN(12) == 0
	spell := func(s []string) (out []string) {
		for _, x := range s {
			out = append(out, randCase(r, x))
		}
		return
	}
	if r.IntN(2) == 0 {
		for i := pick(r, 1, 1, 2, 2, 3); i > 0; i-- {
			to = append(to, pick(r, cs...))
		}
		args = append(args, listArgs(r, pick(r, "-t", "--to"), spell(to))...)
		label = append(label, fmt.Sprintf("to %d", len(setOf(to))))
		c.Count(map[bool]string{true: "by_any_recipient", false: "by_recipient"}[or], 1)
	}
	if r.IntN(3) == 0 {
		for i := pick(r, 1, 1, 2, 3); i > 0; i-- {
			from = append(from, pick(r, cs...))
		}
		args = append(args, listArgs(r, pick(r, "-f", "--from"), spell(from))...)
		label = append(label, fmt.Sprintf("from %d", len(setOf(from))))
		c.Count("by_sender", 1)
		if to != nil {
			c.Count("combined", 1)
		}
	}
	if or {
		args = append(args, boolArg(r, "--or", true)...)
		label = append(label, "or")
	} else if r.IntN(8) == 0 {
		args = append(args, boolArg(r, "--or", false)...)
	}
	if r.IntN(4) == 0 {
		for i := pick(r, 1, 1, 2, 3, pick(r, 1, 4, 12, 40)); i > 0; i-- {
			switch r.IntN(4) {
			case 0:
				ids = append(ids, pick(r, "aBcD", "AbCd", "abcd", "ABCD", "abcD", "zz9Z", "QQQQ"))
			case 1:
				x := []rune(string(k.Messages[r.IntN(n)].Id))
				ids = append(ids, strings.ToLower(string(x)))
				c.Count("near_id", 1)
			default:
				ids = append(ids, string(k.Messages[r.IntN(n)].Id))
			}
		}
		args = append(args, listArgs(r, pick(r, "-i", "--id"), ids)...)
		label = append(label, fmt.Sprintf("ids %d", len(ids)))
		c.Count("by_id", 1)
	}
	if everything {
		args = append(args, boolArg(r, "--all", true)...)
		label = append(label, "all")
	} else if r.IntN(8) == 0 {
		args = append(args, boolArg(r, "--all", false)...)
	}
	selected := func(m *k431.Message) bool {
		if everything {
			return true
		}
		if len(ids) > 0 {
			return setOf(ids)[string(m.Id)]
		}
		if len(to) > 0 {
			have := 0
			for _, x := range to {
				if holds(m.Recipients, x) {
					have++
				}
			}
			if have < len(to) && !(or && have > 0) {
				return false
			}
		}
		return len(from) == 0 || setOf(from)[string(m.From)]
	}
	var want []*msgView
	var items []string
	for i := range k.Messages {
		if selected(&k.Messages[i]) {
			want = append(want, viewOf(&k.Messages[i]))
			items = append(items, k.Messages[i].String(95))
		}
	}
	switch len(want) {
	case 0:
		c.Count("none_selected", 1)
	case n:
		c.Count("all_selected", 1)
	default:
		c.Count("some_selected", 1)
	}
	global := []string{"--file", file, "-K", pfk, pick(r, "messages", "m", "msg")}
	list, output := r.IntN(3) > 0, ""
	if r.IntN(3) == 0 || !list {
		output = c.Path(pick(r, "o.txt", "o.TXT", "o.pdf", "o.PDF"))
	}
	var ops []string
	if list {
		ops = append(ops, pick(r, "-l", "--list"))
	} else if r.IntN(3) == 0 {
		ops = append(ops, pick(r, "-l=false", "--list=false"))
	}
	if r.IntN(8) == 0 {
		ops = append(ops, pick(r, "--delete=false", "-d=false"))
	}
	if r.IntN(8) == 0 {
		ops = append(ops, pick(r, "--yes=false", "-y=false", "-y"))
	}
	if r.IntN(8) == 0 {
		ops = append(ops, pick(r, "--new=false", "-n=false"))
	}
	if output != "" {
		ops = append(ops, pick(r, "-o", "--output"), output)
	}
	if r.IntN(2) == 0 {
		args = append(args, ops...)
	} else {
		args = append(ops, args...)
	}
	c.Note("args", args)
	x := c.run(cmdOpt{}, *fCLI, append(global, args...)...)
	empty := len(want) == 0
	if x.signal != 0 || x.code != 0 && !(empty && output != "") {
		c.Fatal("exit", "%v: exit %d: %s%s", args, x.code, x.out, x.err)
	}
	if !list && strings.Contains(x.out, "TOTALKEYS") {
		c.Fatal("list-unasked", "%v: a list that was not asked for: %s", args, x.out)
	}
	if list {
		c.Count("listed", 1)
		if empty {
			if strings.TrimSpace(x.out) != "" {
				c.Fatal("list-number", "%v: no message is selected, but the list is %q", args, x.out)
			}
		} else {
			l := strings.Split(strings.TrimRight(x.out, "\n"), "\n")
			if len(l)-3 != len(want) {
				c.Fatal("list-number", "%v: %d messages are selected, the list is:\n%s", args, len(want), x.out)
			}
			if l[0] != "FILE="+file || l[1] != fmt.Sprintf("KEEPER=%s TOTALKEYS=%d MESSAGES=%d", cs[0], len(k.Keys), n) {
				c.Fatal("list-head", "the list begins %q %q", l[0], l[1])
			}
			for i, v := range want {
				c.checkMessageRow(l[2], l[3+i], v)
			}
		}
	}
	if output != "" {
		b, err := os.ReadFile(output)
		switch {
		case empty:
			if err == nil && len(b) > 0 {
				if runs, _, e := readPDF(b); e != nil || len(runs) > 0 {
					c.Fatal("empty-output", "printing no message wrote %d bytes", len(b))
				}
			}
		case err != nil:
			if strings.Contains(x.err, "outside the supported range") {
				return
			}
			c.Fatal("output", "%v: nothing is printed: %v", args, err)
		case strings.EqualFold(filepath.Ext(output), ".txt"):
			c.checkMessagesText("output", string(b), want, k.GroupSize)
			c.Count("printed_txt", 1)
		default:
			c.checkPDF("output", output, items, k.Columns)
			c.Count("printed_pdf", 1)
		}
	}
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("store", "the store does not open afterwards: %v", err)
	}
	if d := diff(src, snapOf(l)); d != "" {
		c.Fatal("store", "%v changed the store: %s", args, d)
	}
	c.Distinct(label, len(want), list, output)
	c.Eval(1)
}
