package main

import (
	"fmt"
	"sort"
	"strings"
	"unsafe"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C18 ---

func init() {
	register(&Prop{ID: "C18", CPU: 150,
		Rule:        "Histories of 40 operations (generate, encipher, failed encipherment, receive, decipher, list, print, edit, export, import, save, load, wipe, delete) over three stations and a changing set of exported and loaded instances. After each operation every key, message, setting and package table outside the operation's documented effect is compared with its snapshot; after each step the memory extents of all objects are compared, and where two objects meet one is really wiped to see if the other changes. Caller-owned arguments are overwritten after each call. Non-trivial: distinct history.",
		Assumptions: []string{"a *Key or *Message returned by NewKey or NewTextMessage is the same object as the stored one", "a key or salt slice given with WithPFK or WithSalt is shared with the caller as documented"},
		Need:        []string{"same_options", "compared", "wiped_in_place", "deleted", "exported", "imported", "replaced", "failed_encipher", "deciphered", "loaded", "extents", "held"},
		Sections: []Section{
			{Name: "history", Quick: 900, Thorough: 9000, Run: c18History},
			{Name: "export", Quick: 150, Thorough: 2500, Run: c18Export},
			{Name: "copies", Quick: 200, Thorough: 3000, Run: c18Copies},
		}})
}

type c18Station struct {
	name string
	k    *k431.Krypto431
	file string
	pfk  string
}

type c18World struct {
	st     []*c18Station
	tables string
	before []c18Before
}

type c18Before struct {
	k *k431.Krypto431
	s snap
	p string // persistence key and salt
}

func pkgTables() string {
	var b strings.Builder
	for _, t := range k431.CharacterTables {
		b.WriteString(string(t) + "|")
	}
	b.WriteString(string(k431.CharacterTablePrimary) + string(k431.CharacterTableSecondary) + string(k431.NilRunes) + k431.KeyFooter + k431.HelpTextRadiogram)
	b.WriteString(fmt.Sprint(k431.Words["Yes"], k431.Words["No"], len(k431.Words), k431.EncryptionPrompt, k431.DecryptionPrompt, k431.MinimumPasswordEntropyBits))
	return b.String()
}

func (w *c18World) take() {
	w.before = nil
	for _, s := range w.st {
		w.before = append(w.before, c18Before{s.k, snapOf(s.k), s.k.GetPFKString() + " " + s.k.GetSaltString()})
	}
}

// effect is what an operation may do to one station.
type effect struct {
	marks    bool         // used marks may change
	decipher bool         // messages may be deciphered
	keys     map[int]bool // keys (by position before) that may change or go
	msgs     map[int]bool
	all      bool // replaced altogether
	setup    bool // settings may change
}

// compare checks every station against its snapshot.
func (w *c18World) compare(c *Case, what string, eff map[*k431.Krypto431]*effect) {
	if t := pkgTables(); t != w.tables {
		c.Fatal("tables", "%s changed the tables of the package:\n%s\n%s", what, w.tables, t)
	}
	for _, b := range w.before {
		e := eff[b.k]
		if e == nil {
			e = &effect{}
		}
		if e.all {
			continue
		}
		after := snapOf(b.k)
		if !e.setup && (after.GroupSize != b.s.GroupSize || after.KeyLength != b.s.KeyLength || after.Columns != b.s.Columns ||
			after.KeyColumns != b.s.KeyColumns || after.CallSign != b.s.CallSign) {
			c.Fatal("settings", "%s changed settings of a station", what)
		}
		if p := b.k.GetPFKString() + " " + b.k.GetSaltString(); p != b.p {
			c.Fatal("pfk", "%s changed the persistence key or salt of a station: %s became %s", what, b.p, p)
		}
		ks := map[keySnap]int{}
		for _, k := range after.Keys {
			if e.marks {
				k.Used = false
			}
			ks[k]++
		}
		for i, k := range b.s.Keys {
			if e.keys[i] {
				continue
			}
			if e.marks {
				k.Used = false
			}
			if ks[k] == 0 {
				c.Fatal("key", "%s changed another key of %s:\n%+v\nnow the station has\n%+v", what, b.s.CallSign, k, after.Keys)
			}
			ks[k]--
			c.Count("compared", 1)
		}
		ms := map[msgSnap]int{}
		for _, m := range after.Messages {
			ms[m]++
		}
		for i, m := range b.s.Messages {
			if e.msgs[i] {
				continue
			}
			if ms[m] == 0 {
				n := after.msg(m.ID)
				if e.decipher && m.KeyID == "" && n != nil && n.KeyID != "" {
					c.Count("deciphered", 1)
					x := *n
					x.KeyID, x.Plain, x.Cipher = m.KeyID, m.Plain, m.Cipher
					if x == m {
						continue
					}
				}
				c.Fatal("message", "%s changed another message of %s:\n%+v\nnow the station has\n%+v", what, b.s.CallSign, m, after.Messages)
			}
			ms[m]--
			c.Count("compared", 1)
		}
	}
}

type extent struct {
	lo, hi uintptr
	obj    int
	field  string
}

// extents checks that no two objects occupy the same memory in a way that
// wiping one of them shows in the other. It returns a description or "".
func (w *c18World) extents(c *Case) string {
	type object struct {
		name string
		key  *k431.Key
		msg  *k431.Message
	}
	var objs []object
	var ex []extent
	add := func(o int, field string, s []rune) {
		if len(s) > 0 {
			p := uintptr(unsafe.Pointer(unsafe.SliceData(s)))
			ex = append(ex, extent{p, p + uintptr(len(s))*4, o, field})
		}
	}
	for _, s := range w.st {
		for i := range s.k.Keys {
			k := &s.k.Keys[i]
			o := len(objs)
			objs = append(objs, object{fmt.Sprintf("key %s of %s", string(k.Id), s.name), k, nil})
			add(o, "id", k.Id)
			add(o, "letters", k.Runes)
			add(o, "comment", k.Comment)
			for _, x := range k.Keepers {
				add(o, "keeper", x)
			}
			if len(k.Keepers) > 0 {
				p := uintptr(unsafe.Pointer(unsafe.SliceData(k.Keepers)))
				ex = append(ex, extent{p, p + uintptr(len(k.Keepers))*unsafe.Sizeof(k.Keepers[0]), o, "keeper list"})
			}
		}
		for i := range s.k.Messages {
			m := &s.k.Messages[i]
			o := len(objs)
			objs = append(objs, object{fmt.Sprintf("message %s of %s", string(m.Id), s.name), nil, m})
			add(o, "plain text", m.PlainText)
			add(o, "cipher text", m.CipherText)
			add(o, "key id", m.KeyId)
			add(o, "radiogram", m.Radiogram)
			add(o, "id", m.Id)
			add(o, "from", m.From)
			for _, x := range m.Recipients {
				add(o, "recipient", x)
			}
			if len(m.Recipients) > 0 {
				p := uintptr(unsafe.Pointer(unsafe.SliceData(m.Recipients)))
				ex = append(ex, extent{p, p + uintptr(len(m.Recipients))*unsafe.Sizeof(m.Recipients[0]), o, "recipient list"})
			}
			if len(m.Binary) > 0 {
				p := uintptr(unsafe.Pointer(unsafe.SliceData(m.Binary)))
				ex = append(ex, extent{p, p + uintptr(len(m.Binary)), o, "binary"})
			}
		}
	}
	c.Count("extents", len(ex))
	sortExtents(ex)
	show := func(o object) string {
		if o.key != nil {
			return fmt.Sprintf("%+v", snapKey(o.key))
		}
		return fmt.Sprintf("%+v", snapMsg(o.msg))
	}
	for i := 1; i < len(ex); i++ {
		for j := i - 1; j >= 0 && j > i-4; j-- {
			a, b := ex[j], ex[i]
			if a.hi <= b.lo || a.obj == b.obj {
				continue
			}
			// They meet: does wiping one show in the other?
			for _, p := range [][2]int{{a.obj, b.obj}, {b.obj, a.obj}} {
				x, y := objs[p[0]], objs[p[1]]
				was := show(y)
				if x.key != nil {
					x.key.ZeroWipe()
				} else {
					x.msg.ZeroWipe()
				}
				if now := show(y); now != was {
					return fmt.Sprintf("wiping %s damages %s (%s and %s share memory): %s", x.name, y.name, a.field, b.field, fieldDiff(was, now))
				}
				if x.key != nil && y.key != nil {
					x.key.RemoveKeeper(x.key.Keepers...)
					if now := show(y); now != was {
						return fmt.Sprintf("removing the keepers of %s damages %s (%s and %s share memory): %s", x.name, y.name, a.field, b.field, fieldDiff(was, now))
					}
				}
				if x.msg != nil && y.msg != nil {
					x.msg.RemoveRecipient(x.msg.Recipients...)
					if now := show(y); now != was {
						return fmt.Sprintf("removing the recipients of %s damages %s (%s and %s share memory): %s", x.name, y.name, a.field, b.field, fieldDiff(was, now))
					}
				}
			}
			c.Count("harmless_sharing", 1)
			return "-" // objects were wiped to find out: the history ends
		}
	}
	return ""
}

func sortExtents(ex []extent) {
	sort.Slice(ex, func(i, j int) bool { return ex[i].lo < ex[j].lo })
}

func c18History(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 3), 0}
	f.KL = 24 + r.IntN(30)
	cs := genCalls(r, 3)
	w := &c18World{tables: pkgTables()}
	n := 0
	for i := 0; i < 3; i++ {
		s := &c18Station{name: cs[i], file: c.Path(fmt.Sprintf("s%d", i)), pfk: hexKey(r)}
		s.k = fileStation(cs[i], f, s.file, s.pfk)
		w.st = append(w.st, s)
		if err := s.k.Save(); err != nil {
			c.Fatal("save", "%v", err)
		}
	}
	var ops []string
	type sent struct{ from, traffic string }
	var air []sent
	exports := []struct{ file, pfk string }{}
	for step := 0; step < 40; step++ {
		si := r.IntN(3)
		s := w.st[si]
		k := s.k
		others := []string{cs[(si+1)%3], cs[(si+2)%3]}
		w.take()
		eff := map[*k431.Krypto431]*effect{}
		e := &effect{keys: map[int]bool{}, msgs: map[int]bool{}}
		eff[k] = e
		var what string
		do := func(format string, a ...any) {
			what = s.name + ": " + fmt.Sprintf(format, a...)
			ops = append(ops, what)
			c.Note("operations", ops)
		}
		args := func(list ...string) (out [][]rune) {
			for _, x := range list {
				out = append(out, []rune(x))
			}
			return
		}
		switch op := r.IntN(20); op {
		case 0, 1:
			do("generate")
			list := [][]string{{}, {others[0]}, {others[0] + "," + others[1]}, {others[1], others[0]}}
			if err := k.GenerateKeys(1+r.IntN(4), nil, list[r.IntN(len(list))]...); err != nil {
				c.Fatal("generate", "%v", err)
			}
		case 2, 3, 4:
			e.marks = true
			if r.IntN(3) == 0 {
				// fails: a character, or more text than there are keys
				txt := pick(r, "ABC#DEF", strings.Repeat("abcABC", 400))
				do("failing message of %d characters", len(txt))
				marks := usedIDs(k)
				a := []string{pick(r, "", others[0]+" ") + "DE " + cs[si] + " = " + txt + " = K"}
				if len(k.Keys) > 0 && r.IntN(3) == 0 {
					a = append(a, string(k.Keys[r.IntN(len(k.Keys))].Id))
				}
				if _, err := k.NewTextMessage(a...); err != nil {
					if sortedKeys(marks) == sortedKeys(usedIDs(k)) {
						e.marks = false
					}
					c.Count("failed_encipher", 1)
				}
			} else {
				to := pick(r, "", others[0], others[0]+" "+others[1])
				do("message to %q", to)
				m, err := k.NewTextMessage(to + " DE " + cs[si] + " 171234ZMAY24 = " + radioText(r, 1+r.IntN(60)) + " = K")
				if err == nil {
					g, _ := m.Groups()
					air = append(air, sent{cs[si], to + " DE " + cs[si] + " 171234ZMAY24 = " + string(m.KeyId) + " " + string(*g) + " = K"})
					// the groups are a copy to be wiped by the caller
					k431.ZeroWipe(g)
				}
			}
		case 5, 6:
			e.marks = true
			rg := "DE " + others[0] + " = " + radioText(r, 1+r.IntN(40)) + " = K"
			if len(air) > 0 && r.IntN(4) > 0 {
				a := air[r.IntN(len(air))]
				if a.from != cs[si] {
					rg = a.traffic
				}
			}
			do("receive")
			if _, err := k.NewTextMessage(rg); err != nil {
				c.Fatal("receive", "%q: %v", rg, err)
			}
		case 7:
			e.marks, e.decipher = true, true
			do("list")
			_, lm := k.SummaryOfMessages(allMsg)
			_, lk := k.SummaryOfKeys(all)
			for _, l := range append(lm, lk...) {
				scribbleRunes(l)
			}
			for i := range lk {
				scribbleRunes(lk[i])
			}
		case 8:
			do("print")
			_ = k.KeysAsText(all)
			_ = k.MessagesAsText(allMsg)
			for i := range k.Keys {
				g, _ := k.Keys[i].GroupsBlock()
				k431.Wipe(g)
			}
			for i := range k.Messages {
				g, _ := k.Messages[i].GroupsBlock()
				k431.Wipe(g)
			}
		case 9:
			if len(k.Keys) == 0 {
				continue
			}
			i := r.IntN(len(k.Keys))
			key := &k.Keys[i]
			e.keys[i] = true
			do("edit key %s", string(key.Id))
			a := args(others[0], "XYZ"+fmt.Sprint(r.IntN(9)), others[1])
			switch r.IntN(4) {
			case 0:
				key.RemoveKeeper(a[:1+r.IntN(3)]...)
			case 1:
				key.RemoveKeeper(key.Keepers...)
				key.AddKeeper(a...)
			default:
				key.AddKeeper(a[:1+r.IntN(3)]...)
			}
			was := snapKey(key)
			for _, x := range a {
				scribbleRunes(x)
			}
			if snapKey(key) != was {
				c.Fatal("argument", "the key keeps the caller's memory: %+v became %+v", was, snapKey(key))
			}
			if r.IntN(2) == 0 {
				key.Comment = []rune("edited " + fmt.Sprint(step))
			}
		case 10:
			if len(k.Messages) == 0 {
				continue
			}
			i := r.IntN(len(k.Messages))
			m := &k.Messages[i]
			e.msgs[i] = true
			do("edit message %s", string(m.Id))
			a := args(others[0], "XYZ"+fmt.Sprint(r.IntN(9)), others[1])
			switch r.IntN(3) {
			case 0:
				m.RemoveRecipient(a[:1+r.IntN(3)]...)
			case 1:
				m.RemoveRecipient(m.Recipients...)
				m.AddRecipient(a...)
			default:
				m.AddRecipient(a[:1+r.IntN(3)]...)
			}
			was := snapMsg(m)
			for _, x := range a {
				scribbleRunes(x)
			}
			if snapMsg(m) != was {
				c.Fatal("argument", "the message keeps the caller's memory: %+v became %+v", was, snapMsg(m))
			}
		case 11:
			if len(k.Keys) == 0 {
				continue
			}
			i := r.IntN(len(k.Keys))
			e.keys[i] = true
			do("wipe key %s", string(k.Keys[i].Id))
			pick(r, k.Keys[i].Wipe, k.Keys[i].RandomWipe, k.Keys[i].ZeroWipe)()
			c.Count("wiped_in_place", 1)
		case 12:
			if len(k.Messages) == 0 {
				continue
			}
			i := r.IntN(len(k.Messages))
			e.msgs[i] = true
			do("wipe message %s", string(k.Messages[i].Id))
			pick(r, k.Messages[i].Wipe, k.Messages[i].RandomWipe, k.Messages[i].ZeroWipe)()
			c.Count("wiped_in_place", 1)
		case 13:
			if len(k.Keys) > 0 {
				i := r.IntN(len(k.Keys))
				if len(k.Keys[i].Id) > 0 {
					e.keys[i] = true
					do("delete key %s", string(k.Keys[i].Id))
					id := k431.RuneCopy(&k.Keys[i].Id)
					if r.IntN(2) == 0 {
						k.DeleteKey(id)
					} else {
						k.DeleteKeyByString(strings.ToLower(string(id)))
					}
					c.Count("deleted", 1)
				}
			}
		case 14:
			if len(k.Messages) > 0 {
				i := r.IntN(len(k.Messages))
				e.msgs[i] = true
				do("delete message %s", string(k.Messages[i].Id))
				if n, _ := k.DeleteMessage(k431.RuneCopy(&k.Messages[i].Id)); n != 1 {
					c.Fatal("delete", "deleted %d", n)
				}
				c.Count("deleted", 1)
			}
		case 15, 16:
			n++
			file, pfk := c.Path(fmt.Sprintf("e%d", n)), hexKey(r)
			own := r.IntN(3) == 0
			opts := []k431.Option{k431.WithPersistence(file)}
			if own {
				pfk = s.pfk
			} else {
				opts = append(opts, k431.WithPFKString(pfk))
			}
			do("export (own key %v)", own)
			ex := k.ExportKeys(func(key *k431.Key) bool { return len(key.Id) > 0 && r.IntN(3) > 0 }, opts...)
			if err := ex.Save(); err != nil {
				c.Fatal("export", "%v", err)
			}
			exports = append(exports, struct{ file, pfk string }{file, pfk})
			c.Count("exported", 1)
			switch r.IntN(4) {
			case 0:
				ex.Wipe()
			case 1:
				ex.Close()
			case 2:
				for i := range ex.Keys {
					scribble(&ex.Keys[i])
				}
				scribbleRunes(ex.CallSign)
				for i := range *ex.GetPFK() {
					(*ex.GetPFK())[i] = 0
				}
				for i := range *ex.GetSalt() {
					(*ex.GetSalt())[i] = 0
				}
				ex.Keys = nil
			case 3:
				for i := range ex.Keys {
					ex.Keys[i].AddKeeper([]rune("EXTRA"))
					ex.Keys[i].RemoveKeeper(args(others...)...)
				}
			}
		case 17:
			if len(exports) == 0 {
				continue
			}
			x := exports[r.IntN(len(exports))]
			over := r.IntN(2) == 0
			do("import (overwrite %v)", over)
			opts := []k431.Option{k431.WithPersistence(x.file), k431.WithOverwriteExistingKeysOnImport(over)}
			if x.pfk == s.pfk {
				opts = append(opts, k431.WithPFK(k.GetPFK()), k431.WithSalt(k.GetSalt()))
			} else {
				opts = append(opts, k431.WithPFKString(x.pfk))
			}
			sel := map[string]bool{}
			_, err := k.ImportKeys(func(key *k431.Key) bool {
				y := r.IntN(3) > 0
				if y {
					sel[string(key.Id)] = true
				}
				return y
			}, opts...)
			if err != nil {
				c.Fatal("import", "%v", err)
			}
			if over {
				for i := range w.before[si].s.Keys {
					if sel[w.before[si].s.Keys[i].ID] {
						e.keys[i] = true
						c.Count("replaced", 1)
					}
				}
			}
			c.Count("imported", 1)
		case 18:
			do("save")
			if err := k.Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
		case 19:
			old := snapOf(k)
			if err := k.Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
			nk, err := reopen(s.file, s.pfk)
			if err != nil {
				c.Fatal("load", "%v", err)
			}
			// An independent second instance of the same store: working with it
			// leaves the first alone.
			do("load twice")
			nk2, err := reopen(s.file, s.pfk)
			if err != nil {
				c.Fatal("load", "%v", err)
			}
			for i := range nk2.Keys {
				scribble(&nk2.Keys[i])
			}
			for i := range nk2.Messages {
				scribbleMsg(&nk2.Messages[i])
			}
			if d := diff(old, snapOf(nk)); d != "" {
				c.Fatal("loaded", "loading twice: %s", d)
			}
			if r.IntN(2) == 0 {
				nk2.Wipe()
			}
			if r.IntN(2) == 0 {
				was := snapOf(k)
				*nk = k431.New(k431.WithPersistence(s.file), k431.WithPFKString(s.pfk))
				nk.Keys, nk.Messages = nil, nil
				if err := nk.Load(); err != nil {
					c.Fatal("load", "%v", err)
				}
				if d := diff(was, snapOf(k)); d != "" {
					c.Fatal("loaded", "loading a second instance: %s", d)
				}
			}
			c.Count("loaded", 1)
			fresh := fileStation(s.name, f, s.file, s.pfk)
			if err := fresh.Load(); err != nil {
				c.Fatal("load", "%v", err)
			}
			w.compare(c, what, eff)
			if r.IntN(2) == 0 {
				k.Wipe() // the old instance goes
				if d := diff(old, snapOf(fresh)); d != "" {
					c.Fatal("loaded", "wiping the instance a store was saved from: %s", d)
				}
			}
			s.k = fresh
			continue
		}
		if what == "" {
			continue
		}
		w.compare(c, what, eff)
		if step%4 == 3 || step == 39 {
			if d := w.extents(c); d == "-" {
				break
			} else if d != "" {
				c.Fatal("shared", "after %s: %s", what, d)
			}
		}
	}
	if c.Idx < 2 {
		c.Sample(ops)
	}
	c.Distinct(ops)
	c.Eval(len(ops))
}

// c18Export changes everything on one side of an export or import and looks at
// the other.
func c18Export(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 4), 30 + r.IntN(60)}
	cs := genCalls(r, 3)
	file, pfk := c.Path("s"), hexKey(r)
	k := fileStation(cs[0], f, file, pfk)
	for i := 0; i < 1+r.IntN(6); i++ {
		addKey(r, k, cs[1:1+r.IntN(3)]...)
	}
	populate(r, k, cs[1:])
	for i := range k.Keys {
		if r.IntN(2) == 0 {
			// room behind the list of keepers
			k.Keys[i].Keepers = append(make([][]rune, 0, 8), k.Keys[i].Keepers...)
		}
	}
	before := snapOf(k)
	secrets := k.GetPFKString() + k.GetSaltString()
	ex := k.ExportKeys(all, k431.WithPersistence(c.Path("e")))
	exBefore := snapOf(&ex)
	exCards := ""
	for i := range ex.Keys {
		exCards += ex.Keys[i].String() + string(ex.Keys[i].GetCallSign())
	}
	check := func(what string) {
		if d := diff(before, snapOf(k)); d != "" {
			c.Fatal("source", "%s: the exporting station changed: %s", what, d)
		}
		if k.GetPFKString()+k.GetSaltString() != secrets {
			c.Fatal("source-pfk", "%s: the persistence key or salt of the exporting station changed", what)
		}
	}
	check("exporting")
	if r.IntN(2) == 0 {
		// the export first
		for i := range ex.Keys {
			ex.Keys[i].AddKeeper([]rune("NEW"))
		}
		check("adding keepers to the export")
		for i := range k.Keys {
			k.Keys[i].AddKeeper([]rune("OLD"))
		}
		for i := range ex.Keys {
			if strings.Contains(ex.Keys[i].JoinKeepers(","), "OLD") {
				c.Fatal("export", "a keeper added at the source appears in the export")
			}
		}
		for i := range k.Keys {
			k.Keys[i].RemoveKeeper([]rune("OLD"))
		}
		before = snapOf(k)
		for i := range ex.Keys {
			scribble(&ex.Keys[i])
			ex.Keys[i].ZeroWipe()
		}
		check("overwriting the export")
		ex.Wipe()
		check("wiping the export")
		c.Count("exported", 1)
	} else {
		if err := ex.Save(); err != nil {
			c.Fatal("save", "%v", err)
		}
		imp := fileStation(cs[2], f, c.Path("i"), hexKey(r))
		addKey(r, imp, cs[0])
		impBefore := snapOf(imp)
		n, err := imp.ImportKeys(all, k431.WithPersistence(c.Path("e")), k431.WithPFK(k.GetPFK()), k431.WithSalt(k.GetSalt()))
		if err != nil {
			c.Fatal("import", "%v", err)
		}
		check("importing with the exporter's persistence key")
		c.Count("imported", n)
		impAfter := snapOf(imp)
		for _, x := range impBefore.Keys {
			if y := impAfter.key(x.ID); y == nil || *y != x {
				c.Fatal("import", "importing changed key %+v into %+v", x, y)
			}
		}
		for i := range k.Keys {
			scribble(&k.Keys[i])
		}
		for i := range k.Messages {
			scribbleMsg(&k.Messages[i])
		}
		scribbleRunes(k.CallSign)
		k.Wipe()
		if d := diff(exBefore, snapOf(&ex)); d != "" {
			c.Fatal("export", "wiping the exporting station changed the export: %s", d)
		}
		now := ""
		for i := range ex.Keys {
			now += ex.Keys[i].String() + string(ex.Keys[i].GetCallSign())
		}
		if now != exCards {
			c.Fatal("export-cards", "wiping the exporting station changed the cards of the exported keys from %q to %q", exCards, now)
		}
		ex.Wipe()
		if d := diff(impAfter, snapOf(imp)); d != "" {
			c.Fatal("import", "wiping exporter and export changed the importing station: %s", d)
		}
	}
	c.Distinct(fmt.Sprint(before))
	c.Eval(1)
}

// c18Copies: what is handed in and out is not shared.
func c18Copies(c *Case) {
	r := c.R
	f := cfg{5, 60}
	cs := genCalls(r, 3)
	k := cipherStation(cs[0], f)
	for i := 0; i < 4; i++ {
		addKey(r, k, cs[1], cs[2])
	}
	addKey(r, k)
	switch r.IntN(10) {
	case 0: // several keys of one request
		list := []string{cs[1], cs[2] + "," + cs[1]}
		if err := k.GenerateKeys(3, nil, list...); err != nil {
			c.Fatal("generate", "%v", err)
		}
		n := len(k.Keys)
		was := snapOf(k)
		scribble(&k.Keys[n-2])
		k.Keys[n-2].ZeroWipe()
		now := snapOf(k)
		for i := range was.Keys {
			if i != n-2 && was.Keys[i] != now.Keys[i] {
				c.Fatal("generated", "wiping one of three generated keys changed another: %+v became %+v", was.Keys[i], now.Keys[i])
			}
		}
	case 1: // key found for a message
		rec := [][]rune{[]rune(cs[1])}
		m := newMsg(k, genText(r, 20), cs[1])
		if err := m.Encipher(); err != nil {
			c.Fatal("encipher", "%v", err)
		}
		was := snapOf(k)
		m.Wipe()
		for i := range rec {
			scribbleRunes(rec[i])
		}
		if d := diff(was, snapOf(k)); d != "" {
			c.Fatal("encipher", "wiping a message changed a key: %s", d)
		}
	case 2: // failed encipherment
		for i := range k.Keys {
			k.Keys[i].Used = i > 0
		}
		m := newMsg(k, append(genText(r, 10), '#'), cs[1])
		was := snapOf(k)
		if err := m.Encipher(); err == nil {
			c.Fatal("encipher", "enciphered #")
		}
		if d := diff(was, snapOf(k)); d != "" {
			c.Fatal("failed", "failed encipherment: %s", d)
		}
		c.Count("failed_encipher", 1)
	case 3: // deciphering: the message's key id is its own
		var key *k431.Key
		for i := range k.Keys {
			if len(k.Keys[i].Keepers) > 0 {
				key = &k.Keys[i]
			}
		}
		cipher, _, ok := refEncipher(r, []rune("HELLO WORLD"), []refKey{{string(key.Id), key.Runes}}, 5, 0)
		if !ok {
			c.Error("refEncipher")
		}
		m, err := k.NewTextMessage(cs[0] + " DE " + cs[1] + " = " + string(key.Id) + " " + groupsOf(cipher, 5) + " = K")
		if err != nil || string(m.PlainText) != "HELLO WORLD" {
			c.Fatal("receive", "%v %q", err, string(m.PlainText))
		}
		was := snapOf(k)
		m.Wipe()
		now := snapOf(k)
		for i := range was.Keys {
			if was.Keys[i] != now.Keys[i] {
				c.Fatal("receive", "wiping a received message changed a key: %+v became %+v", was.Keys[i], now.Keys[i])
			}
		}
		c.Count("deciphered", 1)
	case 4: // own call-sign in a message without recipients
		m, err := k.NewTextMessage("DE " + cs[1] + " = HELLO = K")
		if err != nil {
			c.Fatal("receive", "%v", err)
		}
		for i := range m.Recipients {
			scribbleRunes(m.Recipients[i])
		}
		scribbleRunes(m.From)
		if k.CallSignString() != cs[0] {
			c.Fatal("call-sign", "changing a message's recipients changed the call-sign of the station to %q", k.CallSignString())
		}
	case 5: // group blocks, summary lines
		was := snapOf(k)
		for i := range k.Keys {
			for _, f := range []func() (*[]rune, error){k.Keys[i].Groups, k.Keys[i].GroupsBlock} {
				if g, err := f(); err == nil {
					scribbleRunes(*g)
				}
			}
		}
		m := newMsg(k, genText(r, 20), cs[1])
		m.SetInstance(k)
		if err := m.Encipher(); err != nil {
			c.Fatal("encipher", "%v", err)
		}
		wm := snapMsg(m)
		for _, f := range []func() (*[]rune, error){m.Groups, m.GroupsBlock} {
			if g, err := f(); err == nil {
				k431.Wipe(g)
			}
		}
		if snapMsg(m) != wm {
			c.Fatal("groups", "wiping the groups of a message changed it")
		}
		h, l := k.SummaryOfKeys(all)
		scribbleRunes(h)
		for i := range l {
			k431.Wipe(&l[i])
		}
		h, l = k.SummaryOfMessages(allMsg)
		scribbleRunes(h)
		for i := range l {
			k431.Wipe(&l[i])
		}
		now := snapOf(k)
		for i := range was.Keys {
			was.Keys[i].Used, now.Keys[i].Used = false, false
			if was.Keys[i] != now.Keys[i] {
				c.Fatal("groups", "wiping groups or list lines changed a key: %+v became %+v", was.Keys[i], now.Keys[i])
			}
		}
	case 6: // stations made with the defaults
		a, b := newStation(k431.WithCallSign(cs[0])), newStation(k431.WithCallSign(cs[1]))
		s := b.GetSaltString()
		a.Wipe()
		d := newStation()
		if b.GetSaltString() != s || d.GetSaltString() != s || s != k431.DefaultSalt {
			c.Fatal("salt", "wiping a station with the default salt changed another station's: %s, a new one has %s", b.GetSaltString(), d.GetSaltString())
		}
	case 7, 8: // stations made with the same list of options
		pfk, salt := hexKey(r), hexKey(r)
		opts := []k431.Option{k431.WithCallSign(cs[0]), k431.WithPFKString(pfk), k431.WithSaltString(salt), k431.WithPersistence(c.Path("o")), k431.WithOverwritePersistenceIfExists(true)}
		a, b := newStation(opts...), newStation(opts...)
		if err := b.Save(); err != nil {
			c.Fatal("options-save", "%v", err)
		}
		how := "wiping"
		if r.IntN(2) == 0 {
			a.Wipe()
		} else {
			how = "changing the call-sign and key of"
			a.SetCallSign(cs[1])
			if err := a.SetPFKFromString(hexKey(r)); err != nil {
				c.Fatal("options-pfk", "%v", err)
			}
			if err := a.SetSaltFromString(hexKey(r)); err != nil {
				c.Fatal("options-salt", "%v", err)
			}
		}
		d := newStation(opts...)
		for _, x := range []*k431.Krypto431{b, d} {
			if x.GetPFKString() != pfk || x.GetSaltString() != salt || x.CallSignString() != cs[0] {
				c.Fatal("options", "%s one station changed another made with the same options: persistence key %s became %s, salt %s became %s, call-sign %s became %s",
					how, pfk, x.GetPFKString(), salt, x.GetSaltString(), cs[0], x.CallSignString())
			}
		}
		if err := d.Load(); err != nil {
			c.Fatal("options-load", "a station made with the same options can not load: %v", err)
		}
		c.Count("same_options", 1)
	case 9: // everything handed out is held on to while more is handed out and wiped
		m := newMsg(k, genText(r, 20+r.IntN(20)), cs[1])
		if err := m.Encipher(); err != nil {
			c.Fatal("encipher", "%v", err)
		}
		k.Messages = append(k.Messages, *m, anyMessage(r, k))
		type out struct {
			what string
			p    *[]rune
			was  string
		}
		var held []out
		hold := func(what string, p *[]rune) {
			held = append(held, out{what, p, string(*p)})
		}
		for _, round := range r.Perm(12) {
			i, j := r.IntN(len(k.Keys)), r.IntN(len(k.Messages))
			key, msg := &k.Keys[i], &k.Messages[j]
			var f []func() (*[]rune, error)
			switch round % 4 {
			case 0:
				f = append(f, key.Groups)
			case 1:
				f = append(f, key.GroupsBlock)
			case 2:
				f = append(f, msg.Groups, msg.GroupsBlock)
			case 3:
				h, l := k.SummaryOfKeys(all)
				hold("heading of keys", &h)
				for i := range l {
					hold("key line", &l[i])
				}
				h2, l2 := k.SummaryOfMessages(allMsg)
				hold("heading of messages", &h2)
				for i := range l2 {
					hold("message line", &l2[i])
				}
				for i := range k.Keys {
					x := []rune(string(k.Keys[i].Id))
					hold("key id", &x)
				}
			}
			for _, f := range f {
				if g, err := f(); err == nil {
					hold(fmt.Sprintf("groups of key %d or message %d (%d)", i, j, round%4), g)
				}
			}
		}
		was := snapOf(k)
		for len(held) > 0 {
			for _, h := range held {
				if string(*h.p) != h.was {
					c.Fatal("held", "%s, handed out as %q, became %q when another result was made or wiped", h.what, h.was, string(*h.p))
				}
			}
			i := r.IntN(len(held))
			scribbleRunes(*held[i].p)
			held = append(held[:i], held[i+1:]...)
		}
		if d := diff(was, snapOf(k)); d != "" {
			c.Fatal("held", "wiping groups and lines: %s", d)
		}
		c.Count("held", 1)
	}
	c.Distinct(c.Idx)
	c.Eval(1)
}
