package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// c26Combined asks for several things in one command: what exit status 0
// claims is all of them.
func c26Combined(c *Case) {
	if c.Idx%2 == 0 {
		c26CombinedKeys(c)
	} else {
		c26CombinedMessages(c)
	}
	c.Eval(1)
}

func c26CombinedKeys(c *Case) {
	r := c.R
	cs := genCalls(r, 4)
	f := cfg{pick(r, 5, 5, 4), 30 + r.IntN(60)}
	pfk := hexKey(r)
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0700)
	file := filepath.Join(dir, "store")
	k := fileStation(cs[0], f, file, pfk)
	empty := r.IntN(5) == 0
	if !empty {
		filterKeys(r, k, time.Now(), cs[1:3], 3+r.IntN(8))
	}
	if !empty && r.IntN(2) == 0 {
		populate(r, k, cs[1:])
	}
	if err := k.Save(); err != nil {
		c.Error("%v", err)
	}
	before := snapOf(k)
	var args []string
	var parts [][]string
	// delete
	asks := false
	ids, deleted := map[string]bool{}, map[string]bool{}
	if r.IntN(2) == 0 {
		p := []string{pick(r, "-d", "--delete")}
		asks = r.IntN(4) == 0
		if !asks {
			for i := 1 + r.IntN(3); i > 0 && !empty; i-- {
				ids[string(k.Keys[r.IntN(len(k.Keys))].Id)] = true
			}
			p = append(p, pick(r, "-y", "--yes"))
		}
		if len(ids) == 0 || r.IntN(4) == 0 {
			// If this is all there is nothing to ask about.
			id := string(letters(r, f.GS))
			for before.key(id) != nil {
				id = string(letters(r, f.GS))
			}
			ids[id] = true
		}
		parts = append(parts, append(p, listArgs(r, "-i", sortedStrings(ids))...))
		for id := range ids {
			deleted[id] = true
		}
		c.Count("combined_deleted", 1)
	}
	// generate
	n := 0
	var keepers []string
	if r.IntN(2) == 0 {
		n = 1 + r.IntN(4)
		parts = append(parts, []string{pick(r, "-n", "--new"), fmt.Sprint(n)})
	}
	if r.IntN(3) == 0 {
		keepers = cs[1 : 2+r.IntN(2)]
		parts = append(parts, listArgs(r, "-k", keepers))
	}
	everything := r.IntN(3) > 0 && !asks
	if everything {
		parts = append(parts, []string{"--all"})
	}
	sel := func(id string, held []string) bool {
		if everything {
			return true
		}
		if len(ids) > 0 {
			return ids[id]
		}
		for _, x := range keepers {
			if !setOf(held)[x] {
				return false
			}
		}
		return true
	}
	held := func(key *k431.Key) (out []string) {
		for _, x := range key.Keepers {
			out = append(out, string(x))
		}
		return
	}
	// import
	incoming := map[string]keySnap{}
	imports := r.IntN(2) == 0
	password := "correct horse battery staple " + string(letters(r, 5))
	if imports {
		a := fileStation(cs[3], f, c.Path("a"), hexKey(r))
		if err := a.SetPFKFromPassword(password); err != nil {
			c.Error("password: %v", err)
		}
		filterKeys(r, a, time.Now(), cs[:3], 2+r.IntN(4))
		for i := range k.Keys { // a deleted key comes back
			if id := string(k.Keys[i].Id); deleted[id] && r.IntN(2) == 0 {
				key := copyKey(a, &k.Keys[i], cs[0])
				key.Comment = []rune("from elsewhere")
			}
		}
		for i := 0; i < len(a.Keys); i++ {
			if x := before.key(string(a.Keys[i].Id)); x != nil && !deleted[x.ID] {
				a.DeleteKeyByString(x.ID)
				i--
			}
		}
		if err := a.Save(); err != nil {
			c.Error("%v", err)
		}
		for i := range a.Keys {
			if sel(string(a.Keys[i].Id), held(&a.Keys[i])) {
				incoming[string(a.Keys[i].Id)] = received(snapKey(&a.Keys[i]), cs[3], cs[0])
			}
		}
		parts = append(parts, []string{pick(r, "-I", "--import"), c.Path("a")})
		c.Count("combined_imported", 1)
	}
	export, list, output := r.IntN(2) == 0, r.IntN(2) == 0, ""
	if export {
		parts = append(parts, []string{pick(r, "-E", "--export"), c.Path("export")})
	}
	if list {
		parts = append(parts, []string{pick(r, "-l", "--list")})
	}
	if r.IntN(2) == 0 {
		output = c.Path(pick(r, "o.txt", "o.pdf"))
		parts = append(parts, []string{pick(r, "-o", "--output"), output})
	}
	if len(parts) == 0 {
		return
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	args = append(args, "-f", file, "-K", pfk, pick(r, "keys", "k"))
	for _, p := range parts {
		args = append(args, p...)
	}
	c.Note("args", args)
	var x ran
	if imports {
		var done int
		x, done = c.runPTY(cmdOpt{dir: dir}, []step{{"Enter decryption key", password + "\r"}}, *fCLI, args...)
		if done < 1 {
			c.Fatal("no-question", "%v: ended (exit %d) before the password was asked for: %s", args, x.code, x.out)
		}
	} else {
		x = c.run(cmdOpt{dir: dir}, *fCLI, args...)
	}
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("store-lost", "%v: the store does not open any more: %v", args, err)
	}
	var want []*k431.Key
	chosen := map[string]bool{}
	for i := range l.Keys {
		if sel(string(l.Keys[i].Id), held(&l.Keys[i])) {
			want = append(want, &l.Keys[i])
			chosen[string(l.Keys[i].Id)] = true
		}
	}
	if x.signal != 0 || x.code != 0 && !(output != "" && len(want) == 0) {
		c.Fatal("refused", "%v: exit %d: %s%s", args, x.code, x.out, x.err)
	}
	// The store.
	after := snapOf(l)
	model := map[string]keySnap{}
	for _, key := range without(before, deleted, nil).Keys {
		model[key.ID] = normKey(key)
	}
	for id, key := range incoming {
		model[id] = key
	}
	fresh := 0
	for _, key := range after.Keys {
		if m, ok := model[key.ID]; ok {
			if normKey(key) != m {
				c.Fatal("not-stored", "%v: key %s: %s", args, key.ID, fieldDiff(fmt.Sprintf("%+v", m), fmt.Sprintf("%+v", normKey(key))))
			}
			delete(model, key.ID)
			continue
		}
		fresh++
		if before.key(key.ID) != nil && deleted[key.ID] {
			c.Fatal("not-stored", "%v: key %s was to be deleted", args, key.ID)
		}
		if y := l.Keys[0]; key.Used || key.Compromised || len(key.Runes) < l.KeyLength {
			c.Fatal("not-stored", "%v: generated %+v (%v)", args, key, y.IdString())
		}
		var ks []string
		for _, x := range keepers {
			ks = append(ks, fmt.Sprintf("%q", x))
		}
		sort.Strings(ks)
		if normKey(key).Keepers != strings.Join(ks, ",") {
			c.Fatal("not-stored", "%v: a generated key has the keepers %s", args, key.Keepers)
		}
	}
	if len(model) > 0 {
		c.Fatal("not-stored", "%v: exit 0, but keys %v are not in the store", args, sortedStringsOf(model))
	}
	if fresh != n {
		c.Fatal("not-stored", "%v: exit 0, %d keys were to be generated, %d are new in the store", args, n, fresh)
	}
	rest := after
	rest.Keys, before.Keys = nil, nil
	if d := diff(before, rest); d != "" {
		c.Fatal("not-stored", "%v: something else changed: %s", args, d)
	}
	// The files and the list are of the keys after all that.
	if export {
		c19File(c, after, chosen, c.Path("export"), pfk)
	}
	if list {
		out := x.out
		if i := strings.Index(out, "FILE="); i >= 0 {
			out = strings.ReplaceAll(out[i:], "\r\n", "\n")
		} else if imports {
			out = ""
		}
		if !imports || len(want) > 0 && out != "" {
			c.checkKeyList(out, file, cs[0], len(l.Keys), len(l.Messages), want)
		} else if len(want) > 0 {
			c.Fatal("list-number", "%v: no list: %s", args, x.out)
		}
	}
	if output != "" && len(want) > 0 {
		b, err := os.ReadFile(output)
		if err != nil {
			c.Fatal("output", "%v: nothing is printed: %v", args, err)
		}
		if strings.HasSuffix(output, ".txt") {
			c.checkKeysText("output", string(b), want, l.GroupSize, l.KeyColumns)
		} else {
			var items []string
			for _, key := range want {
				items = append(items, key.String())
			}
			c.checkPDF("output", output, items, l.Columns)
		}
	}
	if len(modes(dir)) != 1 {
		c.Fatal("left-behind", "%v left files behind: %v", args, modes(dir))
	}
	if len(parts) > 2 {
		c.Count("combined_keys", 1)
		c.Distinct(len(deleted), n, len(incoming), export, list, output, args)
	}
}

func c26CombinedMessages(c *Case) {
	r := c.R
	dir, file, pfk, before, _, d := c26Case(c, pick(r, 0, 1, 2))
	l, err := reopen(file, pfk)
	if err != nil {
		c.Error("%v", err)
	}
	gs := l.GroupSize
	empty := r.IntN(5) == 0
	if empty {
		l.Messages = nil
	}
	for i := r.IntN(4); i > 0 && !empty; i-- {
		m := newMsg(l, []rune(plainText(r, 10+r.IntN(100))), "XX")
		m.Id, m.From = l.NewUniqueMessageId(), []rune("YY")
		l.Messages = append(l.Messages, *m)
	}
	if err := l.Save(); err != nil {
		c.Error("%v", err)
	}
	before = snapOf(l)
	var parts [][]string
	ids, asks := map[string]bool{}, false
	if r.IntN(2) == 0 {
		p := []string{pick(r, "-d", "--delete")}
		if asks = r.IntN(4) == 0; asks || empty {
			ids[string(l.NewUniqueMessageId())] = true
		} else {
			for i := 1 + r.IntN(2); i > 0; i-- {
				ids[before.Messages[r.IntN(len(before.Messages))].ID] = true
			}
		}
		if !asks {
			p = append(p, pick(r, "-y", "--yes"))
		}
		parts = append(parts, append(p, listArgs(r, "-i", sortedStrings(ids))...))
	}
	everything := r.IntN(3) > 0 && !asks
	if everything {
		parts = append(parts, []string{"--all"})
	}
	isNew := r.IntN(3) > 0
	if isNew {
		parts = append(parts, []string{pick(r, "-n", "--new")})
	} else {
		d.stdin = ""
	}
	list, output := r.IntN(2) == 0, ""
	if list {
		parts = append(parts, []string{pick(r, "-l", "--list")})
	}
	if r.IntN(2) == 0 {
		output = c.Path("o.txt")
		parts = append(parts, []string{pick(r, "-o", "--output"), output})
	}
	if len(parts) < 2 {
		return
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	args := []string{"-f", file, "-K", pfk, pick(r, "messages", "m", "msg")}
	for _, p := range parts {
		args = append(args, p...)
	}
	c.Note("args", args)
	x := c.run(cmdOpt{dir: dir, stdin: d.stdin}, *fCLI, args...)
	l, err = reopen(file, pfk)
	if err != nil {
		c.Fatal("store-lost", "%v: the store does not open any more: %v", args, err)
	}
	after := snapOf(l)
	var want []*msgView
	for i := range l.Messages {
		if everything || len(ids) == 0 || ids[string(l.Messages[i].Id)] {
			want = append(want, viewOf(&l.Messages[i]))
		}
	}
	if x.signal != 0 || x.code != 0 && !(output != "" && len(want) == 0) {
		c.Fatal("refused", "%v: exit %d: %s%s", args, x.code, x.out, x.err)
	}
	left := without(before, nil, ids)
	if isNew {
		// The messages left are in any order.
		pos := map[string]int{}
		for i, m := range after.Messages {
			pos[m.ID] = i
		}
		sort.SliceStable(left.Messages, func(i, j int) bool { return pos[left.Messages[i].ID] < pos[left.Messages[j].ID] })
		if err := d.done(left, after, keyMap(l)); err != nil {
			c.Fatal("not-stored", "%v: exits with 0, but the store does not hold what it did: %v", args, err)
		}
		m := after.Messages[len(after.Messages)-1]
		if !strings.Contains(strings.Join(strings.Fields(x.out), ""), m.KeyID+m.Cipher) {
			c.Fatal("cipher-missing", "%v: the stored cipher text %s %s is not shown: %s", args, m.KeyID, m.Cipher, x.out)
		}
	} else if d := diff(sortSnap(left), sortSnap(after)); d != "" {
		c.Fatal("not-stored", "%v: exits with 0: %s", args, d)
	}
	if list {
		i := strings.Index(x.out, "FILE=")
		switch {
		case len(want) == 0:
			if i >= 0 {
				c.Fatal("list-number", "%v: no message is selected, but the list is %q", args, x.out[i:])
			}
		case i < 0:
			c.Fatal("list-number", "%v: no list: %s", args, x.out)
		default:
			rows := strings.Split(strings.TrimRight(x.out[i:], "\n"), "\n")
			if len(rows)-3 != len(want) {
				c.Fatal("list-number", "%v: %d messages are selected, the list is:\n%s", args, len(want), x.out)
			}
			for i, v := range want {
				c.checkMessageRow(rows[2], rows[3+i], v)
			}
		}
	}
	if output != "" && len(want) > 0 {
		b, err := os.ReadFile(output)
		if err != nil {
			c.Fatal("output", "%v: nothing is printed: %v", args, err)
		}
		c.checkMessagesText("output", string(b), want, gs)
	}
	if len(modes(dir)) != 1 {
		c.Fatal("left-behind", "%v left files behind: %v", args, modes(dir))
	}
	c.Count("combined_messages", 1)
	c.Distinct(args)
}

func sortedStringsOf(m map[string]keySnap) (out []string) {
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return
}
