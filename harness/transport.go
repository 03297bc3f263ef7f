package main

import (
	"fmt"
	mrand "math/rand/v2"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C19 ---

func init() {
	register(&Prop{ID: "C19", CPU: 150,
		Rule:        "Random stations with keys of every combination of marks, keepers, dates and comments (made by the harness or the program, single and multi-key stores) export any subset of their keys, with the same or a new persistence key and salt; the file is opened and compared with the exporting store, imported with any filter, with and without overwriting, into stations that hold none, some or changed copies of the keys, repeatedly. Fields are compared with a model; both stations then exchange messages in both directions, also after saving and loading. The same through the command line, with the password typed on a terminal and the overwrite question answered. Non-trivial: distinct exporting store, subset and importing store.",
		Assumptions: []string{"exporter and importer have different call-signs and the same group size; keys with another group size are skipped with a message", "the order of keys in the importing store is free"},
		Need:        []string{"exported", "imported", "held_kept", "held_replaced", "exchanged", "unselected", "cli_exported", "cli_imported", "answered", "new_pfk", "thousands"},
		Sections: []Section{
			{Name: "model", Quick: 500, Thorough: 10000, Run: c19Model},
			{Name: "exchange", Quick: 160, Thorough: 3000, Run: c19Exchange},
			{Name: "cli", Quick: 40, Thorough: 400, Run: c19CLI},
			{Name: "terminal", Quick: 16, Thorough: 120, Run: c19Terminal},
		}})
}

// variedKey changes a key's fields to any state a key can be in.
func variedKey(r *mrand.Rand, key *k431.Key) {
	key.Used, key.Compromised = r.IntN(2) == 0, r.IntN(3) == 0
	key.Comment = []rune(pick(r, "", "from the depot", "räksmörgås", string(letters(r, 1+r.IntN(60)))))
	key.Created.Time = time.Date(2001+r.IntN(24), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), r.IntN(1e9), pick(r, time.UTC, time.FixedZone("X", 3600*(r.IntN(24)-12))))
	key.Expires.Time = time.Date(2001+r.IntN(98), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), 0, 0, time.UTC)
}

func subset(r *mrand.Rand, s []string) []string {
	var out []string
	for _, x := range s {
		if r.IntN(2) == 0 {
			out = append(out, x)
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// chooser makes a filter from a set of ids.
func chooser(ids map[string]bool) func(*k431.Key) bool {
	return func(k *k431.Key) bool { return ids[string(k.Id)] }
}

func randomIDs(r *mrand.Rand, k *k431.Krypto431) map[string]bool {
	m := map[string]bool{}
	p := pick(r, 0.0, 0.3, 0.5, 0.8, 1, 1)
	for i := range k.Keys {
		if r.Float64() < p {
			m[string(k.Keys[i].Id)] = true
		}
	}
	return m
}

// keeperSet is a key's snapshot with its keepers as a sorted set.
func normKey(k keySnap) keySnap {
	ks := strings.Split(k.Keepers, ",")
	sort.Strings(ks)
	ks = slices.Compact(ks) // a set
	k.Keepers = strings.Join(ks, ",")
	return k
}

// received is what the importing station should hold of a key.
func received(k keySnap, exporter, importer string) keySnap {
	var ks []string
	seen := map[string]bool{}
	if k.Keepers != "" {
		for _, x := range strings.Split(k.Keepers, ",") {
			if x != fmt.Sprintf("%q", importer) && !seen[x] {
				ks = append(ks, x)
				seen[x] = true
			}
		}
	}
	if x := fmt.Sprintf("%q", exporter); !seen[x] {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	k.Keepers = strings.Join(ks, ",")
	return k
}

func c19Keys(r *mrand.Rand, k *k431.Krypto431, n int, keepers []string) {
	for i := 0; i < n; i++ {
		ks := subset(r, keepers)
		for len(ks) > 0 && r.IntN(8) == 0 { // keepers named more than once
			ks = append(ks, pick(r, ks...))
		}
		if r.IntN(3) == 0 {
			k.NewKey(time.Now().Add(time.Duration(r.IntN(1000)-100)*time.Hour), ks...)
			if r.IntN(2) == 0 {
				continue
			}
		} else {
			addKeyLen(r, k, k.GroupSize, roundUp(k.KeyLength, k.GroupSize)+pick(r, 0, 0, 0, 1, -1, 7), ks...)
		}
		variedKey(r, &k.Keys[len(k.Keys)-1])
	}
}

// c19File checks an export file: the chosen keys complete, nothing else.
func c19File(c *Case, src snap, ids map[string]bool, file, pfk string) *k431.Krypto431 {
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("export-load", "the export does not open: %v", err)
	}
	if len(l.Messages) != 0 {
		c.Fatal("export-messages", "the export holds %d messages", len(l.Messages))
	}
	got := snapOf(l)
	want := src
	want.Keys, want.Messages = nil, nil
	for _, k := range src.Keys {
		if ids[k.ID] {
			want.Keys = append(want.Keys, k)
		}
	}
	if d := diff(sortSnap(want), sortSnap(got)); d != "" {
		c.Fatal("export-contents", "chosen keys and export differ: %s", d)
	}
	return l
}

func c19Model(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 3, 7), 20 + r.IntN(100)}
	cs := genCalls(r, 5)
	from, to := cs[0], cs[1]
	pfk := hexKey(r)
	a := fileStation(from, f, c.Path("a"), pfk)
	if r.IntN(2) == 0 {
		a.Columns, a.KeyColumns = 85+r.IntN(60), 20+r.IntN(40)
	}
	n := r.IntN(12)
	many := c.Idx%125 == 124
	if many { // a year's supply
		f.GS, a.GroupSize, n = max(f.GS, 5), max(f.GS, 5), 1500+r.IntN(1500)
		c.Count("thousands", 1)
	}
	c19Keys(r, a, n, append([]string{to}, cs[2:]...))
	if r.IntN(3) == 0 { // keys of another group size, of no use to the importer
		for i := 1 + r.IntN(3); i > 0; i-- {
			addKeyLen(r, a, pick(r, 1, f.GS-1, f.GS+1, f.GS*2), 60, subset(r, cs[1:])...)
		}
		r.Shuffle(len(a.Keys), func(i, j int) { a.Keys[i], a.Keys[j] = a.Keys[j], a.Keys[i] })
	}
	populate(r, a, cs[2:])
	b := fileStation(to, cfg{f.GS, 20 + r.IntN(100)}, c.Path("b"), hexKey(r))
	c19Keys(r, b, r.IntN(5), append([]string{from}, cs[2:]...))
	populate(r, b, cs[2:])
	// Some keys are already held, as they are or changed.
	for i := range a.Keys {
		if r.IntN(4) == 0 && len(a.Keys[i].Id) == f.GS && !b.ContainsKeyId(&a.Keys[i].Id) {
			k := copyKey(b, &a.Keys[i], subset(r, append([]string{from}, cs[2:]...))...)
			if r.IntN(2) == 0 {
				variedKey(r, k)
				if r.IntN(2) == 0 {
					k.Runes = letters(r, len(k.Runes))
				}
			}
		}
	}
	r.Shuffle(len(b.Keys), func(i, j int) { b.Keys[i], b.Keys[j] = b.Keys[j], b.Keys[i] })
	rounds := 1 + r.IntN(2)
	for round := 0; round < rounds; round++ {
		src := snapOf(a)
		ids := randomIDs(r, a)
		for i := 0; many && i < len(a.Keys); i++ {
			ids[string(a.Keys[i].Id)] = true
		}
		file := c.Path(fmt.Sprintf("e%d", round))
		key := pfk
		opts := []k431.Option{k431.WithPersistence(file)}
		if r.IntN(2) == 0 {
			key = hexKey(r)
			opts = append(opts, k431.WithPFKString(key))
			c.Count("new_pfk", 1)
		}
		var asked []string
		ex := a.ExportKeys(func(k *k431.Key) bool { asked = append(asked, string(k.Id)); return ids[string(k.Id)] }, opts...)
		if err := ex.Save(); err != nil {
			c.Fatal("export", "saving an export: %v", err)
		}
		ex.Wipe()
		if d := diff(src, snapOf(a)); d != "" {
			c.Fatal("export-source", "exporting changed the store: %s", d)
		}
		c19File(c, src, ids, file, key)
		if key != pfk {
			if _, err := reopen(file, pfk); err == nil {
				c.Fatal("export-key", "an export under a new key opens with the old one")
			}
		}
		c.Count("exported", len(ids))
		// import
		before := snapOf(b)
		bPFK, bSalt := b.GetPFKString(), b.GetSaltString()
		over := r.IntN(2) == 0
		want := map[string]bool{}
		for id := range ids {
			if r.IntN(4) > 0 {
				want[id] = true
			} else {
				c.Count("unselected", 1)
			}
		}
		iopts := []k431.Option{k431.WithPersistence(file)}
		switch {
		case r.IntN(2) == 0:
			iopts = append(iopts, k431.WithPFKString(key))
		case key == pfk:
			iopts = append(iopts, k431.WithPFK(a.GetPFK()), k431.WithSalt(a.GetSalt()))
		default:
			bk := []byte(unhex(key))
			iopts = append(iopts, k431.WithPFK(&bk))
		}
		if over {
			if r.IntN(2) == 0 {
				iopts = append(iopts, k431.WithOverwriteExistingKeysOnImport(true))
			} else {
				b.SetOverwriteExistingKeysOnImport(true)
			}
		}
		n, err := b.ImportKeys(chooser(want), iopts...)
		b.SetOverwriteExistingKeysOnImport(false)
		if err != nil {
			c.Fatal("import", "importing: %v", err)
		}
		model := map[string]keySnap{}
		for _, k := range before.Keys {
			model[k.ID] = normKey(k)
		}
		count := 0
		for _, k := range src.Keys {
			if !want[k.ID] {
				continue
			}
			if len([]rune(k.ID)) != f.GS {
				c.Count("other_group_size", 1)
				continue
			}
			if _, held := model[k.ID]; held && !over {
				c.Count("held_kept", 1)
				continue
			} else if held {
				c.Count("held_replaced", 1)
			}
			model[k.ID] = received(k, from, to)
			count++
		}
		after := snapOf(b)
		if n != count {
			c.Fatal("import-count", "%d keys reported imported, %d expected", n, count)
		}
		if len(after.Keys) != len(model) {
			c.Fatal("import-number", "the importing station has %d keys, %d expected", len(after.Keys), len(model))
		}
		for _, k := range after.Keys {
			m, ok := model[k.ID]
			if !ok {
				c.Fatal("import-extra", "key %s was neither held nor selected", k.ID)
			}
			if normKey(k) != m {
				c.Fatal("import-fields", "key %s (overwrite %v): %s", k.ID, over, fieldDiff(fmt.Sprintf("expected %+v", m), fmt.Sprintf("%+v", normKey(k))))
			}
			delete(model, k.ID)
		}
		after.Keys, before.Keys = nil, nil
		if d := diff(before, after); d != "" {
			c.Fatal("import-rest", "importing changed something else: %s", d)
		}
		if b.GetPFKString() != bPFK || b.GetSaltString() != bSalt {
			c.Fatal("import-pfk", "importing changed the persistence key or salt of the importing station")
		}
		if a.GetPFKString() != pfk || a.GetSaltString() != k431.DefaultSalt {
			c.Fatal("import-pfk", "importing changed the persistence key or salt of the exporting station")
		}
		if d := diff(src, snapOf(a)); d != "" {
			c.Fatal("import-source", "importing changed the exporting station: %s", d)
		}
		for i := range b.Keys {
			if b.Keys[i].GetInstance() != b {
				c.Fatal("import-instance", "key %s does not belong to the importing station", string(b.Keys[i].Id))
			}
		}
		c.Count("imported", n)
		c.Distinct(fmt.Sprint(src), fmt.Sprint(want), fmt.Sprint(before))
		// The stores go on living: the exporter's keys change before the second
		// round, the importer may be saved.
		if round+1 < rounds {
			for i := range a.Keys {
				if r.IntN(2) == 0 {
					variedKey(r, &a.Keys[i])
				}
			}
			if r.IntN(2) == 0 {
				s := sortSnap(snapOf(b))
				if err := b.Save(); err != nil {
					c.Fatal("save", "%v", err)
				}
				if err := b.Load(); err != nil {
					c.Fatal("load", "%v", err)
				}
				if d := diff(s, sortSnap(snapOf(b))); d != "" {
					c.Fatal("import-saved", "after saving and loading: %s", d)
				}
			}
		}
	}
	if c.Idx == 0 {
		c.Sample(snapOf(b))
	}
	c.Eval(rounds)
}

func unhex(s string) []byte {
	var b []byte
	fmt.Sscanf(s, "%x", &b)
	return b
}

// c19Exchange: both stations use the transported keys.
func c19Exchange(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 3, 7), 25 + r.IntN(100)}
	cs := genCalls(r, 3)
	a := fileStation(cs[0], f, c.Path("a"), hexKey(r))
	n := 6 + r.IntN(20)
	if r.IntN(2) == 0 {
		if err := a.GenerateKeys(n, nil, append([]string{cs[1]}, subset(r, cs[2:])...)...); err != nil {
			c.Fatal("generate", "%v", err)
		}
	} else {
		for i := 0; i < n; i++ {
			addKey(r, a, append([]string{cs[1]}, subset(r, cs[2:])...)...)
		}
	}
	file, pfk := c.Path("e"), hexKey(r)
	ex := a.ExportKeys(all, k431.WithPersistence(file), k431.WithPFKString(pfk))
	if err := ex.Save(); err != nil {
		c.Fatal("export", "%v", err)
	}
	ex.Wipe()
	b := fileStation(cs[1], f, c.Path("b"), hexKey(r))
	got, err := b.ImportKeys(all, k431.WithPersistence(file), k431.WithPFKString(pfk))
	if err != nil || got != n {
		c.Fatal("import", "%d of %d keys imported: %v", got, n, err)
	}
	st := []*k431.Krypto431{a, b}
	exchanged := 0
	for i := 0; i < 8; i++ {
		d := r.IntN(2)
		x, y := st[d], st[1-d]
		text := radioText(r, 1+r.IntN(3*f.KL))
		m, err := x.NewTextMessage(fmt.Sprintf("%s DE %s 171234ZMAY24 = %s = K", cs[1-d], cs[d], text))
		if err != nil {
			// are there enough keys?
			free := 0
			for i := range x.Keys {
				if !x.Keys[i].Used {
					free++
				}
			}
			if free > needKeys(len([]rune(text)), f) {
				c.Fatal("send", "station %d can not send %d characters with %d unused transported keys: %v", d, len(text), free, err)
			}
			break
		}
		want := string(m.PlainText)
		g, err := m.Groups()
		if err != nil {
			c.Fatal("groups", "%v", err)
		}
		rm, err := y.NewTextMessage(fmt.Sprintf("%s DE %s 171234ZMAY24 = %s %s = K", cs[1-d], cs[d], string(m.KeyId), string(*g)))
		if err != nil {
			c.Fatal("receive", "%v", err)
		}
		if string(rm.PlainText) != want {
			c.Fatal("exchange", "station %d sent %q with a transported key, the other read %q", d, shortText([]rune(want)), shortText(rm.PlainText))
		}
		exchanged++
		c.Count("exchanged", 1)
		if r.IntN(3) == 0 {
			i := r.IntN(2)
			if err := st[i].Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
			if err := st[i].Load(); err != nil {
				c.Fatal("load", "%v", err)
			}
		}
	}
	if exchanged == 0 {
		c.Count("nothing_exchanged", 1)
	}
	c.Distinct(c.Idx, exchanged)
	c.Eval(exchanged)
}

// c19CLI exports with the program.
func c19CLI(c *Case) {
	r := c.R
	cs := genCalls(r, 4)
	f := cfg{pick(r, 5, 4), 30 + r.IntN(60)}
	pfk := hexKey(r)
	a := fileStation(cs[0], f, c.Path("a"), pfk)
	c19Keys(r, a, 1+r.IntN(8), cs[1:])
	populate(r, a, cs[1:])
	if err := a.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	src := snapOf(a)
	stored := stateOf(c.Path("a"))
	file := c.Path("export")
	ids := map[string]bool{}
	args := []string{"-f", c.Path("a"), "-K", pfk, pick(r, "keys", "k"), pick(r, "-E", "--export"), file}
	if r.IntN(3) == 0 {
		for _, k := range src.Keys {
			ids[k.ID] = true
		}
		if r.IntN(2) == 0 {
			args = append(args, "--all")
		}
	} else {
		for _, k := range src.Keys {
			if len(ids) == 0 || r.IntN(2) == 0 {
				ids[k.ID] = true
				args = append(args, "--id", randCase(r, k.ID))
			}
		}
	}
	if r.IntN(3) == 0 {
		args = append(args, "-y")
	}
	c.Note("args", args)
	x := c.run(cmdOpt{}, *fCLI, args...)
	if x.code != 0 {
		c.Fatal("cli-export", "exit %d: %s", x.code, x.err)
	}
	c19File(c, src, ids, file, pfk)
	stored.dir = ""
	now := stateOf(c.Path("a"))
	now.dir = ""
	if d := stored.diff(now); d != "" {
		c.Fatal("cli-source", "exporting changed the store file: %s", d)
	}
	if os.Remove(file) != nil {
		c.Fatal("cli-export", "no file")
	}
	c.Count("cli_exported", len(ids))
	c.Distinct(args)
	c.Eval(1)
}

// c19Terminal imports with the program, the password and the answers typed.
func c19Terminal(c *Case) {
	r := c.R
	cs := genCalls(r, 4)
	f := cfg{pick(r, 5, 4), 30 + r.IntN(60)}
	password := "correct horse battery staple " + string(letters(r, 5))
	a := fileStation(cs[0], f, c.Path("a"), hexKey(r))
	if err := a.SetPFKFromPassword(password); err != nil {
		c.Fatal("password", "%v", err)
	}
	c19Keys(r, a, 1+r.IntN(5), cs[1:])
	if err := a.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	src := snapOf(a)
	// exported by the program
	if x := c.run(cmdOpt{}, *fCLI, "-f", c.Path("a"), "-P", password, "keys", "-E", c.Path("export")); x.code != 0 {
		c.Fatal("cli-export", "exit %d: %s", x.code, x.err)
	}
	pfk := hexKey(r)
	b := fileStation(cs[1], f, c.Path("b"), pfk)
	c19Keys(r, b, r.IntN(3), cs[2:])
	for i := range a.Keys {
		if r.IntN(2) == 0 && !b.ContainsKeyId(&a.Keys[i].Id) {
			k := copyKey(b, &a.Keys[i], cs[0])
			k.Comment = []rune("held")
		}
	}
	if err := b.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	before := snapOf(b)
	steps := []step{{"Enter decryption key", password + "\r"}}
	args := []string{"-f", c.Path("b"), "-K", pfk, "keys", "-I", c.Path("export")}
	sel := map[string]bool{}
	if r.IntN(2) == 0 {
		for _, k := range src.Keys {
			if len(sel) == 0 || r.IntN(2) == 0 {
				sel[k.ID] = true
				args = append(args, "-i", k.ID)
			}
		}
	} else {
		for _, k := range src.Keys {
			sel[k.ID] = true
		}
	}
	model := map[string]keySnap{}
	for _, k := range before.Keys {
		model[k.ID] = normKey(k)
	}
	count := 0
	for _, k := range src.Keys {
		if !sel[k.ID] {
			continue
		}
		if _, held := model[k.ID]; held {
			yes := r.IntN(2) == 0
			steps = append(steps, step{"Key ID " + k.ID + " already exist", pick(r, "n\r", "\r")})
			if yes {
				steps[len(steps)-1].send = "y\r"
			}
			c.Count("answered", 1)
			if !yes {
				continue
			}
		}
		model[k.ID] = received(k, cs[0], cs[1])
		count++
	}
	c.Note("args", args)
	c.Note("steps", steps)
	x, done := c.runPTY(cmdOpt{}, steps, *fCLI, args...)
	c.Note("output", x.out)
	if done < len(steps) || x.code != 0 {
		c.Fatal("cli-import", "%d of %d answers given, exit %d: %s", done, len(steps), x.code, x.out)
	}
	l, err := reopen(c.Path("b"), pfk)
	if err != nil {
		c.Fatal("cli-import", "the importing store does not open: %v", err)
	}
	after := snapOf(l)
	if len(after.Keys) != len(model) {
		c.Fatal("cli-import", "%d keys after importing, %d expected: %s", len(after.Keys), len(model), x.out)
	}
	for _, k := range after.Keys {
		if m := model[k.ID]; normKey(k) != m {
			c.Fatal("cli-import", "key %s: %s", k.ID, fieldDiff(fmt.Sprintf("expected %+v", m), fmt.Sprintf("%+v", normKey(k))))
		}
	}
	plural := "s"
	if count == 1 {
		plural = ""
	}
	if !strings.Contains(x.out, fmt.Sprintf("Imported %d key%s from", count, plural)) {
		c.Fatal("cli-import-count", "%d keys were imported: %s", count, x.out)
	}
	c.Count("cli_imported", count)
	c.Distinct(args, fmt.Sprint(steps))
	c.Eval(1)
}
