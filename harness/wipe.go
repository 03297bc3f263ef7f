package main

import (
	"crypto/rand"
	"errors"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C17 ---

func init() {
	register(&Prop{ID: "C17", CPU: 120,
		Rule:        "The backing arrays of every secret (letters, ids, keepers, comments, texts, cipher texts, radiograms, binary contents, persistence key, salt, password) are retained before each wipe entry point is called; the same contents are wiped eight times with different random streams and a place that still holds its value every time was not overwritten. All entry points, with a working source and one that fails after any number of bytes, on stations made by hand, with a real history, and loaded; then every operation of a wiped station is called. Non-trivial: distinct entry point, contents and failure point.",
		Assumptions: []string{"copies returned to the caller (group blocks, strings) are the caller's to wipe", "copies made inside the run time (garbage collector, string conversions) are outside what a program can observe"},
		Need:        []string{"runes_checked", "bytes_checked", "source_failed", "wiped_again", "after_wipe_calls", "passwords", "deleted"},
		Sections: []Section{
			{Name: "slices", Quick: 120, Thorough: 2000, Run: c17Slices},
			{Name: "objects", Quick: 240, Thorough: 5000, Run: c17Objects},
			{Name: "station", Quick: 120, Thorough: 2500, Run: c17Station},
			{Name: "delete", Quick: 160, Thorough: 3000, Run: c17Delete},
			{Name: "password", Quick: 24, Thorough: 160, Run: c17Password},
			{Name: "after", Quick: 120, Thorough: 1500, Run: c17After},
		}})
}

// watch retains memory and counts the places that keep their value.
type watch struct {
	names  []string
	runes  [][]rune
	orig   [][]rune
	bytes  [][]byte
	borig  [][]byte
	bnames []string
}

func (w *watch) r(name string, s []rune) {
	if len(s) == 0 {
		return
	}
	w.names = append(w.names, name)
	w.runes = append(w.runes, s[:len(s):len(s)])
	w.orig = append(w.orig, append([]rune(nil), s...))
}

func (w *watch) b(name string, s []byte) {
	if len(s) == 0 {
		return
	}
	w.bnames = append(w.bnames, name)
	w.bytes = append(w.bytes, s[:len(s):len(s)])
	w.borig = append(w.borig, append([]byte(nil), s...))
}

func (w *watch) key(name string, k *k431.Key) {
	w.r(name+" letters", k.Runes)
	w.r(name+" id", k.Id)
	w.r(name+" comment", k.Comment)
	for i := range k.Keepers {
		w.r(fmt.Sprintf("%s keeper %d", name, i), k.Keepers[i])
	}
}

func (w *watch) msg(name string, m *k431.Message) {
	w.r(name+" plain text", m.PlainText)
	w.r(name+" cipher text", m.CipherText)
	w.r(name+" key id", m.KeyId)
	w.r(name+" radiogram", m.Radiogram)
	w.b(name+" binary", m.Binary)
}

// survivors adds up, over repetitions, which places kept their value.
type survivors struct {
	m    map[string][]bool
	reps int
}

func (s *survivors) add(w *watch) {
	if s.m == nil {
		s.m = map[string][]bool{}
	}
	s.reps++
	note := func(name string, n int, same func(i int) bool) {
		x := s.m[name]
		if x == nil {
			x = make([]bool, n)
			for i := range x {
				x[i] = true
			}
			s.m[name] = x
		}
		for i := 0; i < n && i < len(x); i++ {
			if !same(i) {
				x[i] = false
			}
		}
	}
	for j := range w.runes {
		note(w.names[j], len(w.runes[j]), func(i int) bool { return w.runes[j][i] == w.orig[j][i] && w.orig[j][i] != 0 })
	}
	for j := range w.bytes {
		note("b:"+w.bnames[j], len(w.bytes[j]), func(i int) bool { return w.bytes[j][i] == w.borig[j][i] && w.borig[j][i] != 0 })
	}
}

func (s *survivors) check(c *Case, what string) {
	for name, x := range s.m {
		n := 0
		for _, v := range x {
			if v {
				n++
			}
		}
		label := strings.TrimPrefix(name, "b:")
		if n > 0 {
			f := strings.Fields(label)
			c.Fatal("left:"+what+":"+f[len(f)-1], "%s left %d of %d places of the %s as they were", what, n, len(x), label)
		}
		if label != name {
			c.Count("bytes_checked", len(x))
		} else {
			c.Count("runes_checked", len(x))
		}
	}
}

const c17Reps = 8

// source installs the random source of one repetition: working or failing.
func c17Source(c *Case, mode int, r *mrand.Rand) string {
	switch mode {
	case 0:
		return "working"
	case 1:
		rand.Reader = &failReader{r: newDRBG(r.Uint64()), n: 0, err: errors.New("no randomness")}
	case 2:
		rand.Reader = &failReader{r: newDRBG(r.Uint64()), n: r.IntN(300), err: errors.New("no randomness")}
	case 3:
		rand.Reader = &failReader{r: newDRBG(r.Uint64()), n: r.IntN(3000), err: errors.New("no randomness")}
	}
	c.Count("source_failed", 1)
	return "failing"
}

func someRunes(r *mrand.Rand, n int) []rune {
	s := make([]rune, n, n+r.IntN(4))
	for i := range s {
		s[i] = pick(r, 'A'+rune(r.IntN(26)), rune(32+r.IntN(90)), 'Å', 0x1F600)
	}
	return s
}

func c17Slices(c *Case) {
	r := c.R
	n := pick(r, 1, 2, 5, 17, 350, 1+r.IntN(5000))
	mode := r.IntN(4)
	text := someRunes(r, n)
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = byte(1 + r.IntN(255))
	}
	rf := []struct {
		name string
		f    func(*[]rune) error
	}{{"Wipe", k431.Wipe}, {"RandomWipe", k431.RandomWipe}, {"ZeroWipe", k431.ZeroWipe}}
	bf := []struct {
		name string
		f    func(*[]byte) error
	}{{"WipeBytes", k431.WipeBytes}, {"RandomWipeBytes", k431.RandomWipeBytes}, {"ZeroWipeBytes", k431.ZeroWipeBytes}}
	for i := range rf {
		var s, bs survivors
		for rep := 0; rep < c17Reps; rep++ {
			w, bw := &watch{}, &watch{}
			a, b := append([]rune(nil), text...), append([]byte(nil), raw...)
			w.r("slice runes", a)
			bw.b("slice bytes", b)
			c.install()
			rand.Reader = newDRBG(r.Uint64())
			src := c17Source(c, mode, r)
			err := rf[i].f(&a)
			err2 := bf[i].f(&b)
			rand.Reader = newDRBG(r.Uint64())
			if len(a) != 0 || len(b) != 0 {
				c.Fatal("slice-left", "%s/%s left a slice of %d/%d (source %s, %v %v)", rf[i].name, bf[i].name, len(a), len(b), src, err, err2)
			}
			if src == "working" && (err != nil || err2 != nil) {
				c.Fatal("slice-error", "%s: %v, %s: %v", rf[i].name, err, bf[i].name, err2)
			}
			s.add(w)
			bs.add(bw)
			// Again: the slices are empty now.
			rf[i].f(&a)
			bf[i].f(&b)
			c.Count("wiped_again", 1)
		}
		s.check(c, rf[i].name)
		bs.check(c, bf[i].name)
		if rf[i].f(nil) == nil || bf[i].f(nil) == nil {
			c.Fatal("nil", "%s of nil reports success", rf[i].name)
		}
		if mode > 0 && n > 800 {
			break
		}
	}
	c.Distinct(n, mode, string(text))
	c.Eval(6 * c17Reps)
}

func c17Key(r *mrand.Rand, k *k431.Krypto431) *k431.Key {
	key := addKeyLen(r, k, 5, pick(r, 20, 50, 350), genCalls(r, r.IntN(4))...)
	if len(key.Keepers) > 0 && r.IntN(3) == 0 { // a keeper twice
		key.Keepers = append(key.Keepers, []rune(string(pick(r, key.Keepers...))))
	}
	key.Comment = someRunes(r, r.IntN(30))
	key.Used = r.IntN(2) == 0
	key.Compromised = r.IntN(4) == 0
	switch r.IntN(6) {
	case 0:
		key.Comment = nil
	case 1:
		key.Runes = nil
	}
	return key
}

func c17Msg(r *mrand.Rand, k *k431.Krypto431) k431.Message {
	m := k431.Message{Id: letters(r, 4), Recipients: calls(genCalls(r, 2)...), From: letters(r, 4), KeyId: letters(r, 5),
		PlainText: someRunes(r, r.IntN(400)), CipherText: letters(r, r.IntN(400)), Radiogram: someRunes(r, r.IntN(400))}
	if r.IntN(2) == 0 {
		m.Binary = make([]byte, 1+r.IntN(300))
		for i := range m.Binary {
			m.Binary[i] = byte(1 + r.IntN(255))
		}
	}
	if r.IntN(3) == 0 { // not every message has everything
		switch r.IntN(5) {
		case 0:
			m.PlainText = nil
		case 1:
			m.CipherText, m.KeyId = nil, nil
		case 2:
			m.Radiogram = nil
		case 3:
			m.PlainText, m.Radiogram = nil, nil
		case 4:
			m.KeyId = nil
		}
	}
	m.SetInstance(k)
	return m
}

func c17KeyEmpty(c *Case, what string, k *k431.Key) {
	n := len(k.Id) + len(k.Runes) + len(k.Comment)
	for i := range k.Keepers {
		n += len(k.Keepers[i])
	}
	if n > 0 {
		c.Fatal("key-not-empty", "after %s the key still has fields: %+v", what, snapKey(k))
	}
}

func c17MsgEmpty(c *Case, what string, m *k431.Message) {
	if len(m.PlainText)+len(m.CipherText)+len(m.KeyId)+len(m.Radiogram)+len(m.Binary) > 0 {
		c.Fatal("message-not-empty", "after %s the message still has fields: %+v", what, snapMsg(m))
	}
}

func c17Objects(c *Case) {
	r := c.R
	mode := r.IntN(4)
	entry := c.Idx % 6
	seed := r.Uint64()
	names := []string{"Key.Wipe", "Key.RandomWipe", "Key.ZeroWipe", "Message.Wipe", "Message.RandomWipe", "Message.ZeroWipe"}
	var s survivors
	for rep := 0; rep < c17Reps; rep++ {
		x := mrand.New(mrand.NewPCG(seed, 17)) // the same contents each time
		k := newStation(k431.WithCallSign("AA"))
		key := c17Key(x, k)
		m := c17Msg(x, k)
		w := &watch{}
		if entry < 3 {
			w.key("key", key)
		} else {
			w.msg("message", &m)
		}
		rand.Reader = newDRBG(r.Uint64())
		c17Source(c, mode, r)
		c.Note("entry", names[entry])
		c.Note("source mode", mode)
		do := func() {
			switch entry {
			case 0:
				key.Wipe()
			case 1:
				key.RandomWipe()
			case 2:
				key.ZeroWipe()
			case 3:
				m.Wipe()
			case 4:
				m.RandomWipe()
			case 5:
				m.ZeroWipe()
			}
		}
		do()
		if entry < 3 {
			c17KeyEmpty(c, names[entry], key)
		} else {
			c17MsgEmpty(c, names[entry], &m)
		}
		s.add(w)
		do() // again
		c.Count("wiped_again", 1)
		rand.Reader = newDRBG(r.Uint64())
	}
	s.check(c, names[entry])
	c.Sample(map[string]any{"entry": names[entry], "places": len(s.m), "source": []string{"working", "failing at once", "failing within 300 bytes", "failing within 3000 bytes"}[mode]})
	c.Distinct(entry, mode, seed)
	c.Eval(c17Reps)
}

// c17Fill gives a station contents: by hand or by working with it.
func c17Fill(c *Case, x *mrand.Rand, k *k431.Krypto431, style int) {
	if style == 0 {
		for i := 1 + x.IntN(6); i > 0; i-- {
			c17Key(x, k)
		}
		for i := 1 + x.IntN(5); i > 0; i-- {
			k.Messages = append(k.Messages, c17Msg(x, k))
		}
		return
	}
	for i := 0; i < 6; i++ {
		key := addKey(x, k, "QJ")
		key.Comment = someRunes(x, 10)
	}
	for i := 0; i < 2; i++ {
		if _, err := k.NewTextMessage("QJ DE AA 171234 = " + radioText(x, 20+x.IntN(60)) + " = K"); err != nil {
			c.Fatal("encipher", "%v", err)
		}
	}
	if _, err := k.NewTextMessage("AA DE QJ 171234 = HELLO = K"); err != nil {
		c.Fatal("receive", "%v", err)
	}
}

func c17Station(c *Case) {
	r := c.R
	mode := r.IntN(4)
	entry := c.Idx % 2
	style := c.Idx / 2 % 3
	seed := r.Uint64()
	file := c.Path("store")
	var s survivors
	var pfk, salt []byte
	for i := 0; i < 32; i++ {
		pfk = append(pfk, byte(1+r.IntN(255)))
		salt = append(salt, byte(1+r.IntN(255)))
	}
	for i := pick(r, 0, 0, 1, 32, 100); i > 0; i-- { // a salt may be longer
		salt = append(salt, byte(1+r.IntN(255)))
	}
	name := []string{"Krypto431.Wipe", "Krypto431.Close"}[entry]
	reps := c17Reps
	for rep := 0; rep < reps; rep++ {
		x := mrand.New(mrand.NewPCG(seed, 18))
		rand.Reader = newDRBG(seed)
		p, q := append([]byte(nil), pfk...), append([]byte(nil), salt...)
		k := newStation(k431.WithCallSign("AA"), k431.WithKeyLength(100), k431.WithPFK(&p), k431.WithSalt(&q), k431.WithPersistence(file), k431.WithOverwritePersistenceIfExists(true))
		c17Fill(c, x, k, min(style, 1))
		if style == 2 {
			if err := k.Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
			l := newStation(k431.WithPFK(&p), k431.WithSalt(&q), k431.WithPersistence(file))
			if err := l.Load(); err != nil {
				c.Fatal("load", "%v", err)
			}
			k = l
		}
		w := &watch{}
		w.b("persistence key", p)
		w.b("salt", q)
		keys, msgs := k.Keys, k.Messages
		for i := range keys {
			w.key(fmt.Sprintf("key %d", i), &keys[i])
		}
		for i := range msgs {
			w.msg(fmt.Sprintf("message %d", i), &msgs[i])
		}
		rand.Reader = newDRBG(r.Uint64())
		c17Source(c, mode, r)
		do := func() {
			if entry == 0 {
				k.Wipe()
			} else {
				k.Close()
			}
		}
		do()
		if len(k.Keys) != 0 || len(k.Messages) != 0 || k.GetPFKString() != "" || k.GetSaltString() != "" {
			c.Fatal("station-not-empty", "after %s there are %d keys, %d messages, a persistence key of %d and a salt of %d digits", name, len(k.Keys), len(k.Messages), len(k.GetPFKString()), len(k.GetSaltString()))
		}
		s.add(w)
		do()
		c.Count("wiped_again", 1)
		rand.Reader = newDRBG(r.Uint64())
	}
	s.check(c, name)
	c.Distinct(entry, mode, style, seed)
	c.Eval(reps)
}

func c17Delete(c *Case) {
	r := c.R
	mode := r.IntN(4)
	entry := c.Idx % 6
	names := []string{"DeleteKey", "DeleteKeyByString", "DeleteKeysBySummaryString", "DeleteMessage", "DeleteMessageByString", "DeleteMessagesBySummaryString"}
	seed := r.Uint64()
	style := r.IntN(2)
	var s survivors
	for rep := 0; rep < c17Reps; rep++ {
		x := mrand.New(mrand.NewPCG(seed, 19))
		rand.Reader = newDRBG(seed)
		k := newStation(k431.WithCallSign("AA"), k431.WithKeyLength(100))
		c17Fill(c, x, k, style)
		w := &watch{}
		n := 1 + x.IntN(3)
		var ids []string
		var slot []int
		if entry < 3 {
			for _, i := range x.Perm(len(k.Keys))[:min(n, len(k.Keys))] {
				ids = append(ids, string(k.Keys[i].Id))
				slot = append(slot, i)
				w.key(fmt.Sprintf("key %d", i), &k.Keys[i])
			}
		} else {
			for _, i := range x.Perm(len(k.Messages))[:min(n, len(k.Messages))] {
				ids = append(ids, string(k.Messages[i].Id))
				slot = append(slot, i)
				w.msg(fmt.Sprintf("message %d", i), &k.Messages[i])
			}
		}
		_, lines := k.SummaryOfKeys(all)
		_, mlines := k.SummaryOfMessages(allMsg)
		rand.Reader = newDRBG(r.Uint64())
		c17Source(c, mode, r)
		var err error
		got := 0
		switch entry {
		case 0:
			got, err = k.DeleteKey(calls(ids...)...)
		case 1:
			got, err = k.DeleteKeyByString(ids...)
		case 2:
			var ls []string
			for _, i := range slot {
				ls = append(ls, string(lines[i]))
			}
			got, err = k.DeleteKeysBySummaryString(ls...)
		case 3:
			got, err = k.DeleteMessage(calls(ids...)...)
		case 4:
			got, err = k.DeleteMessageByString(ids...)
		case 5:
			var ls []string
			for _, i := range slot {
				ls = append(ls, string(mlines[i]))
			}
			got, err = k.DeleteMessagesBySummaryString(ls...)
		}
		rand.Reader = newDRBG(r.Uint64())
		if err != nil || got != len(ids) {
			c.Fatal("delete", "%s of %v: %d, %v", names[entry], ids, got, err)
		}
		s.add(w)
		c.Count("deleted", got)
	}
	s.check(c, names[entry])
	c.Distinct(entry, mode, seed)
	c.Eval(c17Reps)
}

// c17Password: the buffer of a password is wiped whatever happens.
func c17Password(c *Case) {
	r := c.R
	kind := c.Idx % 8
	pw := make([]byte, 8+r.IntN(40))
	for i := range pw {
		pw[i] = byte(33 + r.IntN(90))
	}
	fail := c.Idx/8%3 == 2
	what := ""
	var s survivors
	reps := c17Reps
	if kind < 2 {
		reps = 5
	}
	for rep := 0; rep < reps; rep++ {
		k := newStation(k431.WithCallSign("AA"))
		b := append([]byte(nil), pw...)
		w := &watch{}
		f := k.DerivePFKFromPassword
		wantErr := true
		switch kind {
		case 0:
			what, wantErr = "deriving a key", false
		case 1:
			what, f, wantErr = "deriving a key with validation", k.DerivePFKFromPasswordWithValidation, false
			b = append(b, "Kq7!zR#9wLm2@xTv"...)
		case 2:
			what, f = "refusing a weak password", k.DerivePFKFromPasswordWithValidation
			b = []byte("aaaa")
		case 3, 4:
			what = "refusing without salt"
			k = newStation(k431.WithSalt(nil))
			f = k.DerivePFKFromPassword
			if kind == 4 {
				f = k.DerivePFKFromPasswordWithValidation
			}
		case 5, 6:
			what = "refusing a wiped salt"
			k.Wipe()
			f = k.DerivePFKFromPassword
			if kind == 6 {
				f = k.DerivePFKFromPasswordWithValidation
			}
		case 7:
			what = "refusing a short salt"
			*k.GetSalt() = (*k.GetSalt())[:31]
			f = k.DerivePFKFromPassword
		}
		w.b("password", b)
		if fail {
			c17Source(c, 1+r.IntN(2), r)
		}
		err := f(&b)
		rand.Reader = newDRBG(r.Uint64())
		if (err != nil) != wantErr {
			c.Fatal("password-error", "%s: %v", what, err)
		}
		if len(b) != 0 {
			c.Fatal("password-left", "%s: the password slice still has %d bytes", what, len(b))
		}
		s.add(w)
	}
	s.check(c, what)
	c.Count("passwords", 1)
	c.Distinct(kind, fail, string(pw))
	c.Eval(reps)
}

// c17After calls everything on a wiped station, key and message.
func c17After(c *Case) {
	r := c.R
	file := c.Path("store")
	k := fileStation("AA", cfg{5, 100}, file, hexKey(r))
	c17Fill(c, r, k, r.IntN(2))
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	other := c.Path("other")
	pfk2 := hexKey(r)
	o := fileStation("BB", cfg{5, 100}, other, pfk2)
	addKey(r, o, "AA")
	if err := o.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	before, _ := os.ReadFile(file)
	keys, msgs := k.Keys, k.Messages
	key, m := &keys[r.IntN(len(keys))], &msgs[r.IntN(len(msgs))]
	if r.IntN(2) == 0 {
		k.Wipe()
	} else {
		k.Close()
	}
	if r.IntN(2) == 0 {
		k.Wipe()
	}
	s := "x"
	ops := []struct {
		name string
		f    func() error
	}{
		{"Save", func() error {
			if err := k.Save(); err == nil {
				return errors.New("saving a wiped station succeeded")
			}
			return nil
		}},
		{"Load", func() error {
			if err := k.Load(); err == nil {
				return errors.New("loading into a station without key succeeded")
			}
			return nil
		}},
		{"NewTextMessage out", func() error {
			if _, err := k.NewTextMessage("QJ DE AA = HELLO = K"); err == nil {
				return errors.New("a wiped station enciphered a message")
			}
			return nil
		}},
		{"NewTextMessage named", func() error {
			if _, err := k.NewTextMessage("QJ DE AA = HELLO = K", "ABCDE"); err == nil {
				return errors.New("a wiped station enciphered a message")
			}
			return nil
		}},
		{"ParseRadiogram", func() error { k.ParseRadiogram("QJ DE AA = HELLO = K"); return nil }},
		{"SummaryOfKeys", func() error {
			if _, l := k.SummaryOfKeys(all); len(l) != 0 {
				return errors.New("a wiped station lists keys")
			}
			return nil
		}},
		{"SummaryOfMessages", func() error {
			if _, l := k.SummaryOfMessages(allMsg); len(l) != 0 {
				return errors.New("a wiped station lists messages")
			}
			return nil
		}},
		{"KeysAsText", func() error {
			if k.KeysAsText(all) != "" {
				return errors.New("a wiped station prints keys")
			}
			return nil
		}},
		{"MessagesAsText", func() error {
			if k.MessagesAsText(allMsg) != "" {
				return errors.New("a wiped station prints messages")
			}
			return nil
		}},
		{"KeysTextFile", func() error { k.KeysTextFile(all, c.Path("k.txt")); return nil }},
		{"MessagesTextFile", func() error { k.MessagesTextFile(allMsg, c.Path("m.txt")); return nil }},
		{"KeysPDF", func() error { return k.KeysPDF(all, c.Path("k.pdf")) }},
		{"MessagesPDF", func() error { return k.MessagesPDF(allMsg, c.Path("m.pdf")) }},
		{"ExportKeys", func() error {
			e := k.ExportKeys(all, k431.WithPersistence(c.Path("export")))
			if len(e.Keys) != 0 {
				return errors.New("a wiped station exports keys")
			}
			if e.Save() == nil {
				return errors.New("an export of a wiped station was saved under an empty key")
			}
			e.Wipe()
			return nil
		}},
		{"ImportKeys", func() error { k.ImportKeys(all, k431.WithPersistence(other)); return nil }},
		{"DeleteKey", func() error { k.DeleteKey([]rune("ABCDE"), nil); return nil }},
		{"DeleteKeyByString", func() error { k.DeleteKeyByString("ABCDE"); return nil }},
		{"DeleteKeysBySummaryString", func() error { k.DeleteKeysBySummaryString("ABCDE x"); return nil }},
		{"DeleteMessage", func() error { k.DeleteMessage([]rune("ABCD"), nil); return nil }},
		{"DeleteMessageByString", func() error { k.DeleteMessageByString("ABCD"); return nil }},
		{"DeleteMessagesBySummaryString", func() error { k.DeleteMessagesBySummaryString("ABCD x"); return nil }},
		{"GenerateKeys", func() error { k.GenerateKeys(0, &s); return nil }},
		{"SetPFKFromPassword", func() error {
			if k.SetPFKFromPassword("x") == nil {
				return errors.New("a key was derived with a wiped salt")
			}
			return nil
		}},
		{"SetPFKFromString", func() error { k.SetPFKFromString("zz"); return nil }},
		{"SetSaltFromString", func() error { k.SetSaltFromString("00"); return nil }},
		{"getters", func() error {
			if k.GetPFKString() != "" || k.GetSaltString() != "" {
				return errors.New("a wiped station still has a key or salt")
			}
			k.GetPFK()
			k.GetSalt()
			k.GetPersistence()
			k.CallSignString()
			k.GetCallSign()
			k.Assert()
			k.ContainsKeyId(k431.RunePtr([]rune("ABCDE")))
			k.ContainsMessageId(k431.RunePtr([]rune("ABCD")))
			k.NewUniqueMessageId()
			k.IsInteractive()
			return nil
		}},
		{"Wipe", func() error { k.Wipe(); return nil }},
		{"Close", func() error { k.Close(); return nil }},
		{"wiped key", func() error {
			key.SetInstance(k)
			key.Groups()
			key.GroupsBlock()
			key.KeyLength()
			key.IsExpired()
			key.IsValid(time.Hour)
			key.JoinKeepers(",")
			key.IdString()
			key.CommentString()
			key.GoString()
			_ = key.String()
			key.Wipe()
			key.ContainsKeeper([]rune("QJ"))
			key.AddKeeper([]rune("QJ")).RemoveKeeper([]rune("QJ"))
			return nil
		}},
		{"wiped message", func() error {
			m.SetInstance(k)
			m.Groups()
			m.GroupsBlock()
			m.IsMyCall()
			m.GoString()
			_ = m.String()
			if err := m.Encipher(); err == nil {
				return errors.New("a wiped message was enciphered")
			}
			if err := m.Decipher(); err == nil {
				return errors.New("a wiped message was deciphered")
			}
			m.TryDecipherPlainText()
			m.TryDecipherPlainText(true)
			m.EnrichWithKey()
			m.Wipe()
			m.AddRecipient([]rune("QJ")).RemoveRecipient([]rune("QJ"))
			return nil
		}},
	}
	for _, i := range r.Perm(len(ops)) {
		if r.IntN(6) == 0 {
			rand.Reader = &failReader{r: newDRBG(1), n: 400, err: errors.New("no randomness")}
			if strings.Contains(ops[i].name, "NewTextMessage") || ops[i].name == "ParseRadiogram" || ops[i].name == "getters" {
				rand.Reader = newDRBG(r.Uint64()) // new ids need a working source
			}
		}
		c.Note("operation", ops[i].name)
		var err error
		c.catch("after-wipe-panic:"+ops[i].name, func() { err = ops[i].f() })
		rand.Reader = newDRBG(r.Uint64())
		if err != nil {
			c.Fatal("after-wipe:"+ops[i].name, "%v", err)
		}
		c.Count("after_wipe_calls", 1)
	}
	after, _ := os.ReadFile(file)
	if string(before) != string(after) {
		c.Fatal("after-wipe-file", "working with a wiped station changed its file")
	}
	c.Distinct(c.Idx, snapOf(k))
	c.Eval(len(ops))
}
