package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// anyRunes makes arbitrary runes, what a store has to keep whatever they are.
func anyRunes(r *rand.Rand, n int) []rune {
	switch r.IntN(6) {
	case 0:
		return nil
	case 1:
		return []rune{}
	}
	out := make([]rune, n)
	for i := range out {
		switch r.IntN(5) {
		case 0:
			out[i] = rune(r.IntN(0x110000))
			if out[i] >= 0xd800 && out[i] < 0xe000 {
				out[i] = 'å'
			}
		case 1:
			out[i] = pick(r, 0, '\n', 0x7f, 0x10ffff, 'ÿ', '\r', '"')
		default:
			out[i] = rune(32 + r.IntN(95))
		}
	}
	return out
}

func anyTime(r *rand.Rand) time.Time {
	switch r.IntN(8) {
	case 0:
		return time.Time{}
	case 1:
		return time.Now()
	}
	loc := time.UTC
	if r.IntN(2) == 0 {
		loc = time.FixedZone("X", 900*(r.IntN(100)-48))
	}
	return time.Date(1+r.IntN(9998), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), r.IntN(2)*r.IntN(1000000000), loc)
}

func anyRunesList(r *rand.Rand) (out [][]rune) {
	for i := r.IntN(5); i > 0; i-- {
		x := anyRunes(r, 1+r.IntN(8))
		out = append(out, x)
	}
	return
}

func anyKey(r *rand.Rand, k *k431.Krypto431) k431.Key {
	key := k431.Key{Id: letters(r, 1+r.IntN(7)), Runes: letters(r, r.IntN(200)), Keepers: anyRunesList(r), Used: r.IntN(2) == 0, Compromised: r.IntN(3) == 0, Comment: anyRunes(r, r.IntN(30))}
	if r.IntN(4) == 0 {
		key.Runes = anyRunes(r, 30)
	}
	if r.IntN(8) == 0 {
		key.Id = anyRunes(r, 4)
	}
	key.Created.Time, key.Expires.Time = anyTime(r), anyTime(r)
	key.SetInstance(k)
	return key
}

func anyMessage(r *rand.Rand, k *k431.Krypto431) k431.Message {
	m := k431.Message{Id: anyRunes(r, 4), Recipients: anyRunesList(r), From: anyRunes(r, 6), KeyId: anyRunes(r, 5), PlainText: anyRunes(r, r.IntN(200)), CipherText: anyRunes(r, r.IntN(200)), Radiogram: anyRunes(r, r.IntN(200))}
	if r.IntN(2) == 0 {
		m.Id = k.NewUniqueMessageId()
	}
	if r.IntN(3) == 0 {
		m.Binary = make([]byte, r.IntN(300))
		for i := range m.Binary {
			m.Binary[i] = byte(r.IntN(256))
		}
	}
	m.DTG.Time = anyTime(r)
	m.SetInstance(k)
	return m
}

// anyContents fills a station with arbitrary contents.
func anyContents(r *rand.Rand, k *k431.Krypto431) {
	k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = 1+r.IntN(20), r.IntN(2000), r.IntN(300), r.IntN(300)
	if r.IntN(6) == 0 {
		k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = 0, 0, 0, 0
	}
	k.CallSign = []rune(genCalls(r, 1)[0])
	if r.IntN(8) == 0 {
		k.CallSign = anyRunes(r, 6)
	}
	k.Keys, k.Messages = nil, nil
	for i := r.IntN(12); i > 0; i-- {
		k.Keys = append(k.Keys, anyKey(r, k))
	}
	for i := r.IntN(8); i > 0; i-- {
		k.Messages = append(k.Messages, anyMessage(r, k))
	}
}

// ------------------------------------------------------------------- C11 ---

func init() {
	register(&Prop{ID: "C11",
		Rule:        "Stations filled with arbitrary field contents (nil, empty, any code point, any time and zone, zero settings, odd sizes) and stations with a real history are saved and loaded into fresh and into already used instances, in histories of edits, saves, reloads and new sessions compared with a model of what was last saved; wiping one side shows shared memory; fixture stores written by the original commit are loaded and compared with their recorded contents. Non-trivial: distinct store contents.",
		Assumptions: []string{"nil and empty slices are the same, a time is the same instant with the same offset"},
		Need:        []string{"fresh", "into_used", "reload_discards", "cycles", "golden", "memory_checked", "tilde"},
		Sections: []Section{
			{Name: "roundtrip", Quick: 500, Thorough: 12000, Run: c11Roundtrip},
			{Name: "history", Quick: 120, Thorough: 3000, Run: c11History},
			{Name: "golden", Quick: 8, Thorough: 24, Run: c11Golden},
			{Name: "large", Quick: 3, Thorough: 40, Run: c11Large},
		}})
}

func c11Roundtrip(c *Case) {
	r := c.R
	file := c.Path(pick(r, "store", "with space", "åäö", ".hidden", "store.gob", strings.Repeat("n", 255), strings.Repeat("å", 127)))
	pfk := hexKey(r)
	name := file
	if r.IntN(10) == 0 && !inParallel {
		old := os.Getenv("HOME")
		os.Setenv("HOME", c.Dir())
		defer os.Setenv("HOME", old)
		name = "~/" + filepath.Base(file)
		if r.IntN(2) == 0 { // not in the home directory
			if wd, err := os.Getwd(); err == nil && os.Mkdir(c.Path("cwd"), 0700) == nil && os.Chdir(c.Path("cwd")) == nil {
				defer os.Chdir(wd)
				name = pick(r, "~store", "~", "~~", "~.gob", "a~", "-f", "~store/..x", "$HOME", "%d")
				if strings.Contains(name, "/") {
					os.Mkdir(filepath.Dir(name), 0700)
				}
				file = filepath.Join(c.Path("cwd"), name)
				c.Count("relative", 1)
			}
		}
		c.Count("tilde", 1)
	}
	k := fileStation("AA", cfg{5, 50}, name, pfk)
	for round := 0; round < 3; round++ {
		anyContents(r, k)
		want := snapOf(k)
		c.Note("contents", want)
		if err := k.Save(); err != nil {
			c.Fatal("save", "saving failed: %v", err)
		}
		if d := diff(want, snapOf(k)); d != "" {
			c.Fatal("save-changed", "saving changed the station: %s", d)
		}
		if _, err := os.Stat(file); err != nil {
			c.Fatal("elsewhere", "%q was saved, but there is no such file: %v", name, err)
		}
		var l *k431.Krypto431
		var oldKeys []k431.Key
		var oldMsgs []k431.Message
		var oldSnap snap
		used := r.IntN(2) == 0
		if used {
			l = fileStation("BB", cfg{7, 99}, name, pfk)
			anyContents(r, l)
			oldKeys, oldMsgs = l.Keys, l.Messages
			oldSnap = snapOf(l)
		} else {
			l = newStation(k431.WithPersistence(name), k431.WithPFKString(pfk))
		}
		if err := l.Load(); err != nil {
			c.Fatal("load", "loading what was saved failed: %v", err)
		}
		if d := diff(want, snapOf(l)); d != "" {
			c.Fatal("different", "loaded into a used=%v instance: %s", used, d)
		}
		for i := range l.Keys {
			if l.Keys[i].GetInstance() != l {
				c.Fatal("instance", "key %d of the loaded store belongs to another instance", i)
			}
		}
		for i := range l.Messages {
			if l.Messages[i].GetInstance() != l {
				c.Fatal("instance", "message %d of the loaded store belongs to another instance", i)
			}
		}
		if used {
			c.Count("into_used", 1)
			// What was there before must not share memory with what was loaded.
			for i := range oldKeys {
				scribble(&oldKeys[i])
			}
			for i := range oldMsgs {
				scribbleMsg(&oldMsgs[i])
			}
			if d := diff(want, snapOf(l)); d != "" {
				c.Fatal("shared", "writing to what was there before loading changed the loaded store: %s", d)
			}
			_ = oldSnap
		} else {
			c.Count("fresh", 1)
			l2 := newStation(k431.WithPersistence(name), k431.WithPFKString(pfk))
			if err := l2.Load(); err != nil {
				c.Fatal("load", "loading a second time failed: %v", err)
			}
			for i := range l2.Keys {
				scribble(&l2.Keys[i])
			}
			if d := diff(want, snapOf(l)); d != "" {
				c.Fatal("shared", "two loaded instances share memory: %s", d)
			}
		}
		c.Count("memory_checked", 1)
		// Cycles: save what was loaded, load it, ...
		for i := r.IntN(3); i > 0; i-- {
			if err := l.Save(); err != nil {
				c.Fatal("resave", "saving a loaded store failed: %v", err)
			}
			n := newStation(k431.WithPersistence(name), k431.WithPFKString(pfk))
			if err := n.Load(); err != nil {
				c.Fatal("reload", "loading a re-saved store failed: %v", err)
			}
			if d := diff(want, snapOf(n)); d != "" {
				c.Fatal("cycle", "after %d cycles: %s", i, d)
			}
			l = n
			c.Count("cycles", 1)
		}
		c.Distinct(fmt.Sprint(want))
		if c.Idx < 10 && len(want.Keys) < 3 {
			c.Sample(want)
		}
	}
	c.Eval(2)
}

func scribbleRunes(x []rune) {
	for i := range x {
		x[i] = 'x'
	}
}

func scribble(k *k431.Key) {
	scribbleRunes(k.Id)
	scribbleRunes(k.Runes)
	scribbleRunes(k.Comment)
	for _, x := range k.Keepers {
		scribbleRunes(x)
	}
	for i := range k.Keepers {
		k.Keepers[i] = []rune("zz")
	}
	k.Used = !k.Used
}

func scribbleMsg(m *k431.Message) {
	for _, x := range [][]rune{m.Id, m.From, m.KeyId, m.PlainText, m.CipherText, m.Radiogram} {
		scribbleRunes(x)
	}
	for i := range m.Binary {
		m.Binary[i] = 'x'
	}
	for i := range m.Recipients {
		scribbleRunes(m.Recipients[i])
		m.Recipients[i] = []rune("zz")
	}
}

func c11History(c *Case) {
	r := c.R
	file, pfk := c.Path("store"), hexKey(r)
	cs := genCalls(r, 3)
	k := fileStation(cs[0], cfg{5, 40}, file, pfk)
	saved := snapOf(k)
	if err := k.Save(); err != nil {
		c.Fatal("save", "first save failed: %v", err)
	}
	var ops []string
	log := func(s string) { ops = append(ops, s); c.Note("operations", ops) }
	for step := 0; step < 25; step++ {
		switch r.IntN(9) {
		case 0:
			log("generate")
			k.GenerateKeys(1+r.IntN(4), nil, pick(r, "", cs[1], cs[1]+","+cs[2]))
		case 1:
			log("send")
			k.NewTextMessage(pick(r, "", cs[1]+" ") + "DE " + cs[0] + " 171234ZMAY24 = " + radioText(r, 1+r.IntN(80)) + " = K")
		case 2:
			log("receive")
			k.NewTextMessage("DE " + cs[1] + " = " + radioText(r, 1+r.IntN(80)) + " = K")
		case 3:
			log("delete")
			if len(k.Keys) > 0 {
				k.DeleteKey(k431.RuneCopy(&k.Keys[r.IntN(len(k.Keys))].Id))
			}
			if len(k.Messages) > 0 && r.IntN(2) == 0 {
				k.DeleteMessage(k431.RuneCopy(&k.Messages[r.IntN(len(k.Messages))].Id))
			}
		case 4:
			log("edit")
			for i := range k.Keys {
				if r.IntN(3) == 0 {
					k.Keys[i].Comment = anyRunes(r, 10)
					k.Keys[i].Compromised = r.IntN(2) == 0
					k.Keys[i].AddKeeper([]rune(cs[1+r.IntN(2)]))
				}
			}
			if r.IntN(3) == 0 {
				k.Columns, k.KeyColumns = 85+r.IntN(50), 10+r.IntN(50)
			}
		case 5, 6:
			log("save")
			saved = snapOf(k)
			if err := k.Save(); err != nil {
				c.Fatal("save", "saving failed: %v", err)
			}
		case 7:
			log("reload")
			if diff(saved, snapOf(k)) != "" {
				c.Count("reload_discards", 1)
			}
			if err := k.Load(); err != nil {
				c.Fatal("load", "loading failed: %v", err)
			}
			if d := diff(saved, snapOf(k)); d != "" {
				c.Fatal("different", "after reloading: %s", d)
			}
		case 8:
			log("new session")
			n, err := reopen(file, pfk)
			if err != nil {
				c.Fatal("load", "loading failed: %v", err)
			}
			if d := diff(saved, snapOf(n)); d != "" {
				c.Fatal("different", "in a new session: %s", d)
			}
			k = n
			c.Count("cycles", 1)
		}
	}
	c.Distinct(ops, fmt.Sprint(saved))
}

type golden struct {
	PFK, Password, Salt string
	Snap                snap
}

func loadGolden(c *Case, i int) (string, golden) {
	base := filepath.Join(*fData, fmt.Sprintf("golden%d", i))
	var g golden
	b, err := os.ReadFile(base + ".json")
	if err == nil {
		err = json.Unmarshal(b, &g)
	}
	var s []byte
	if err == nil {
		s, err = os.ReadFile(base + ".store")
	}
	if err != nil {
		c.Error("fixture: %v", err)
	}
	file := c.Path(filepath.Base(base))
	if err := os.WriteFile(file, s, 0600); err != nil {
		c.Error("%v", err)
	}
	return file, g
}

func (g golden) open(file string) (*k431.Krypto431, error) {
	k := newStation(k431.WithPersistence(file))
	if g.Salt != "" {
		if err := k.SetSaltFromString(g.Salt); err != nil {
			return k, err
		}
	}
	var err error
	if g.Password != "" {
		err = k.SetPFKFromPassword(g.Password)
	} else {
		err = k.SetPFKFromString(g.PFK)
	}
	if err != nil {
		return k, err
	}
	return k, k.Load()
}

func c11Golden(c *Case) {
	file, g := loadGolden(c, 1+c.Idx%4)
	k, err := g.open(file)
	if err != nil {
		c.Fatal("golden", "a store of the original version does not load: %v", err)
	}
	if d := diff(g.Snap, snapOf(k)); d != "" {
		c.Fatal("golden-different", "a store of the original version loads as: %s", d)
	}
	if err := k.Save(); err != nil {
		c.Fatal("golden-save", "saving it failed: %v", err)
	}
	k, err = g.open(file)
	if err != nil {
		c.Fatal("golden-reload", "re-saved store does not load: %v", err)
	}
	if d := diff(g.Snap, snapOf(k)); d != "" {
		c.Fatal("golden-different", "re-saved, a store of the original version loads as: %s", d)
	}
	c.Count("golden", 1)
	c.Distinct(c.Idx)
}

func c11Large(c *Case) {
	r := c.R
	file, pfk := c.Path("store"), hexKey(r)
	k := fileStation("SA6MWA", cfg{5, 350}, file, pfk)
	for i := 0; i < 2000; i++ {
		key := anyKey(r, k)
		key.Runes = letters(r, 350)
		k.Keys = append(k.Keys, key)
	}
	for i := 0; i < 1200; i++ {
		m := anyMessage(r, k)
		m.PlainText = genText(r, r.IntN(1000))
		k.Messages = append(k.Messages, m)
	}
	want := snapOf(k)
	if err := k.Save(); err != nil {
		c.Fatal("save", "saving a large store failed: %v", err)
	}
	n, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("load", "loading a large store failed: %v", err)
	}
	if d := diff(want, snapOf(n)); d != "" {
		c.Fatal("different", "large store: %s", d)
	}
	for i := range n.Keys {
		if n.Keys[i].GetInstance() != n {
			c.Fatal("instance", "key %d of a large store belongs to another instance", i)
		}
	}
	for i := range n.Messages {
		if n.Messages[i].GetInstance() != n {
			c.Fatal("instance", "message %d of a large store belongs to another instance", i)
		}
	}
	c.Distinct(c.Idx)
}

// ------------------------------------------------------------------- C12 ---

func init() {
	register(&Prop{ID: "C12",
		Rule:        "Stores of several sizes are saved in several versions under one key and under others. Wrong keys (one bit off, other stores', zero, reversed) must fail. Tampered files: bits flipped, bytes cut, inserted, repeated, reordered and dropped; the same on whole encrypted records (found by their length prefixes); records of several stores and versions spliced; every prefix of records. Each result must be an error or equal one complete saved version, in a fresh and in a used instance, which an error must leave as it was. The bytes are searched for key letters, text, call-sign and repeated windows. Non-trivial: distinct tampered file that differs from every saved one.",
		Assumptions: []string{"records carry a four byte little-endian length; if they do not, tampering is by byte only"},
		Need:        []string{"wrong_key", "tampered_bytes", "tampered_records", "spliced", "prefix", "opaque", "rejected"},
		Sections: []Section{
			{Name: "tamper", Quick: 100, Thorough: 2500, Run: c12Tamper},
			{Name: "wrongkey", Quick: 100, Thorough: 2000, Run: c12WrongKey},
			{Name: "opaque", Quick: 150, Thorough: 3000, Run: c12Opaque},
		}})
}

// records splits a store into its encrypted records.
func records(b []byte) (out [][]byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 4 {
			return out, false
		}
		n := int(binary.LittleEndian.Uint32(b))
		if n <= 0 || n > len(b)-4 {
			return out, false
		}
		out = append(out, b[:4+n])
		b = b[4+n:]
	}
	return out, len(out) > 1
}

func join(x [][]byte) []byte { return bytes.Join(x, nil) }

type version struct {
	bytes []byte
	recs  [][]byte
	s     snap
}

func c12Tamper(c *Case) {
	r := c.R
	pfk := hexKey(r)
	file := c.Path("store")
	var vs []version
	k := fileStation("SA6MWA", cfg{5, 60}, file, pfk)
	// versions of one store and other stores under the same key
	n := 3 + r.IntN(2)
	for i := 0; i < n; i++ {
		switch {
		case i == 0 || r.IntN(3) == 0:
			anyContents(r, k)
			if r.IntN(2) == 0 {
				for j := 0; j < 60; j++ {
					addKeyLen(r, k, 5, 60, "AA", "BB")
				}
			}
			if r.IntN(8) == 0 {
				for j := 0; j < 900; j++ { // several write buffers
					addKeyLen(r, k, 5, 200, "AA", "BB")
				}
			}
		case len(k.Keys) > 0: // a small change: same length
			key := &k.Keys[r.IntN(len(k.Keys))]
			if r.IntN(2) == 0 {
				key.Used = !key.Used
			} else if len(key.Runes) > 0 {
				key.Runes[r.IntN(len(key.Runes))] = rune('A' + r.IntN(26))
			}
		default:
			k.CallSign = []rune(genCall(r))
		}
		if err := k.Save(); err != nil {
			c.Fatal("save", "saving failed: %v", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.Error("%v", err)
		}
		recs, ok := records(b)
		if !ok {
			recs = nil
		}
		vs = append(vs, version{b, recs, snapOf(k)})
	}
	tfile := c.Path("tampered")
	fresh := newStation(k431.WithPersistence(tfile), k431.WithPFKString(pfk))
	try := func(b []byte, what string) {
		for _, v := range vs {
			if bytes.Equal(v.bytes, b) {
				return
			}
		}
		if err := os.WriteFile(tfile, b, 0600); err != nil {
			c.Error("%v", err)
		}
		before := snap{}
		if r.IntN(3) == 0 {
			fresh.Keys, fresh.Messages = nil, nil
			fresh.CallSign = []rune("BEFORE")
			fresh.GroupSize = 9
			addKey(r, fresh)
		}
		before = snapOf(fresh)
		var err error
		if !c.catch("panic", func() { err = fresh.Load() }) {
			c.Fatal("panic", "%s: loading panics", what)
		}
		c.Eval(1)
		c.Distinct(c.Idx, what, len(b))
		after := snapOf(fresh)
		if err != nil {
			c.Count("rejected", 1)
			if d := diff(before, after); d != "" {
				c.Fatal("partly-loaded", "%s: loading failed (%v) and changed the instance: %s", what, err, d)
			}
			return
		}
		c.Count("accepted_equal", 1)
		for _, v := range vs {
			if diff(v.s, after) == "" {
				return
			}
		}
		c.Fatal("altered", "%s: a store that was never saved was loaded: %d keys %d messages call-sign %q", what, len(after.Keys), len(after.Messages), after.CallSign)
	}
	byteTries, recTries := 40, 60
	for i := 0; i < byteTries; i++ {
		v := vs[r.IntN(len(vs))]
		b := append([]byte(nil), v.bytes...)
		p := r.IntN(len(b))
		if r.IntN(3) == 0 {
			p = max(0, len(b)-1-r.IntN(80))
		}
		q := p + 1 + r.IntN(min(len(b)-p, 60))
		switch op := r.IntN(8); op {
		case 0:
			b[p] ^= 1 << r.IntN(8)
			try(b, fmt.Sprintf("bit of byte %d of %d flipped", p, len(b)))
		case 1:
			try(b[:p], fmt.Sprintf("cut to %d of %d bytes", p, len(b)))
		case 2:
			try(append(b[:p:p], b[q:]...), fmt.Sprintf("bytes %d-%d of %d removed", p, q, len(b)))
		case 3:
			try(join([][]byte{b[:q], b[p:]}), fmt.Sprintf("bytes %d-%d of %d repeated", p, q, len(b)))
		case 4:
			x := make([]byte, 1+r.IntN(40))
			for i := range x {
				x[i] = byte(r.IntN(256))
			}
			try(join([][]byte{b[:p], x, b[p:]}), fmt.Sprintf("%d random bytes inserted at %d of %d", len(x), p, len(b)))
		case 5:
			x := make([]byte, 1+r.IntN(40)*r.IntN(2))
			try(append(b, x...), fmt.Sprintf("%d zero bytes appended", len(x)))
		case 6:
			o := vs[r.IntN(len(vs))].bytes
			pp := min(p, len(o))
			try(join([][]byte{b[:pp], o[pp:]}), fmt.Sprintf("two versions joined at byte %d", pp))
		case 7:
			o := vs[r.IntN(len(vs))].bytes
			try(join([][]byte{b, o}), "two versions one after the other")
		}
		c.Count("tampered_bytes", 1)
	}
	for i := 0; i < recTries; i++ {
		vi := r.IntN(len(vs))
		v := vs[vi]
		if len(v.recs) == 0 {
			break
		}
		c.Max("records", len(v.recs))
		rec := append([][]byte(nil), v.recs...)
		p, q := r.IntN(len(rec)), r.IntN(len(rec))
		if r.IntN(3) == 0 {
			p = len(rec) - 1 - r.IntN(min(3, len(rec)))
		}
		o := vs[r.IntN(len(vs))]
		switch r.IntN(9) {
		case 0:
			try(join(append(rec[:p:p], rec[p+1:]...)), fmt.Sprintf("record %d of %d dropped", p, len(rec)))
		case 1:
			rec[p], rec[q] = rec[q], rec[p]
			try(join(rec), fmt.Sprintf("records %d and %d exchanged", p, q))
		case 2:
			try(join(append(rec[:p+1:p+1], rec[p:]...)), fmt.Sprintf("record %d repeated", p))
		case 3:
			try(join(rec[:p]), fmt.Sprintf("records from %d on dropped", p))
			c.Count("prefix", 1)
		case 4:
			// the same record of another version
			if p < len(o.recs) {
				rec[p] = o.recs[p]
				try(join(rec), fmt.Sprintf("record %d taken from another version", p))
				c.Count("spliced", 1)
			}
		case 5:
			a := min(p, len(o.recs))
			try(join(append(rec[:a:a], o.recs[a:]...)), fmt.Sprintf("continued with another version from record %d", a))
			c.Count("spliced", 1)
		case 6:
			if len(o.recs) > 0 {
				x := o.recs[r.IntN(len(o.recs))]
				try(join(append(append(rec[:p:p], x), rec[p:]...)), fmt.Sprintf("record of another version inserted at %d", p))
				c.Count("spliced", 1)
			}
		case 7:
			// last records of another version: checksum of the other
			for n := 1; n <= min(3, len(o.recs), len(rec)); n++ {
				try(join(append(rec[:len(rec)-n:len(rec)-n], o.recs[len(o.recs)-n:]...)), fmt.Sprintf("last %d records taken from another version", n))
			}
			c.Count("spliced", 1)
		case 8:
			// an empty or mis-sized record
			x := make([]byte, 4+r.IntN(60))
			binary.LittleEndian.PutUint32(x, uint32(pick(r, 0, len(x)-4, 1, 1<<31, 1<<20, 0xffffffff)))
			try(join(append(append(rec[:p:p], x), rec[p:]...)), fmt.Sprintf("made-up record inserted at %d", p))
		}
		c.Count("tampered_records", 1)
	}
	if c.Idx%10 == 0 { // every prefix of records, and every cut near the end
		v := vs[len(vs)-1]
		for i := range v.recs {
			if len(v.recs) > 60 && i > 20 && i < len(v.recs)-20 {
				continue
			}
			try(join(v.recs[:i]), fmt.Sprintf("cut to %d records", i))
			c.Count("prefix", 1)
		}
		for i := 0; i < min(150, len(v.bytes)); i++ {
			try(v.bytes[:len(v.bytes)-1-i], fmt.Sprintf("last %d bytes cut", i+1))
		}
	}
}

func c12WrongKey(c *Case) {
	r := c.R
	key := make([]byte, 32)
	for i := range key {
		key[i] = byte(r.IntN(256))
	}
	file := c.Path("store")
	k := fileStation("SA6MWA", cfg{5, 60}, file, hex.EncodeToString(key))
	anyContents(r, k)
	if err := k.Save(); err != nil {
		c.Fatal("save", "saving failed: %v", err)
	}
	l := newStation(k431.WithPersistence(file))
	wrong := func(b []byte, what string) {
		if bytes.Equal(b, key) {
			return
		}
		l.Keys, l.Messages, l.CallSign = nil, nil, []rune("BEFORE")
		if err := l.SetPFKFromString(hex.EncodeToString(b)); err != nil {
			c.Fatal("set-key", "%v", err)
		}
		before := snapOf(l)
		var err error
		c.catch("panic", func() { err = l.Load() })
		if err == nil {
			c.Fatal("wrong-key-opens", "%s opens the store", what)
		}
		if d := diff(before, snapOf(l)); d != "" {
			c.Fatal("partly-loaded", "loading with %s failed and changed the instance: %s", what, d)
		}
		c.Count("wrong_key", 1)
	}
	for i := 0; i < 32; i++ {
		b := append([]byte(nil), key...)
		b[i] ^= 1 << r.IntN(8)
		wrong(b, fmt.Sprintf("a key with one bit of byte %d flipped", i))
	}
	wrong(make([]byte, 32), "a zero key")
	b := append([]byte(nil), key...)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	wrong(b, "the reversed key")
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	wrong(b, "another key")
	if err := l.SetPFKFromString(hex.EncodeToString(key)); err != nil {
		c.Fatal("set-key", "%v", err)
	}
	if err := l.Load(); err != nil {
		c.Fatal("right-key", "the right key does not open the store: %v", err)
	}
	if d := diff(snapOf(k), snapOf(l)); d != "" {
		c.Fatal("different", "%s", d)
	}
	c.Eval(35)
	c.Distinct(c.Idx)
}

func c12Opaque(c *Case) {
	r := c.R
	pfk := hexKey(r)
	file := c.Path("store")
	k := fileStation("SA6MWAQQ", cfg{5, 100}, file, pfk)
	if r.IntN(2) == 0 {
		for i := 0; i < 1+r.IntN(40); i++ {
			addKeyLen(r, k, 5, 100, "KEEPERAA", "KEEPERBB")
		}
	} else {
		anyContents(r, k)
		k.CallSign = []rune("SA6MWAQQ")
	}
	for i := r.IntN(3); i > 0; i-- {
		k.Messages = append(k.Messages, k431.Message{Id: letters(r, 4), PlainText: []rune("THE QUICK BROWN FOX " + string(letters(r, 20))), Radiogram: letters(r, 40), CipherText: letters(r, 40)})
	}
	// what must not be seen
	var secrets [][]byte
	add := func(x []rune) {
		if len(x) < 8 {
			return
		}
		x = x[:min(len(x), 12)]
		for _, c := range x {
			if c > 0x7f || c < 32 {
				return
			}
		}
		var u8, u32, g []byte
		for _, c := range x[:8] {
			u8 = append(u8, byte(c))
			u32 = append(u32, byte(c), 0, 0, 0)
			g = append(g, 0xff, byte(c)<<1)
		}
		secrets = append(secrets, u8, u32, g)
	}
	add(k.CallSign)
	for i := range k.Keys {
		add(k.Keys[i].Runes)
		add(k.Keys[i].Comment)
		for _, x := range k.Keys[i].Keepers {
			add(x)
		}
	}
	for i := range k.Messages {
		add(k.Messages[i].PlainText)
		add(k.Messages[i].Radiogram)
		add(k.Messages[i].CipherText)
	}
	secrets = append(secrets, []byte("Krypto431"), []byte("PlainText"), []byte("CallSign"), []byte("\x1f\x8b\x08\x00\x00"))
	kb, _ := hex.DecodeString(pfk)
	secrets = append(secrets, kb[:8], kb[24:], []byte(pfk[:16]))
	const win = 12
	seen := map[string]int{}
	for save := 0; save < 3; save++ {
		if err := k.Save(); err != nil {
			c.Fatal("save", "saving failed: %v", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.Error("%v", err)
		}
		for _, s := range secrets {
			if i := bytes.Index(b, s); i >= 0 {
				c.Fatal("readable", "the file contains %q at %d", s, i)
			}
		}
		for i := 0; i+win <= len(b); i++ {
			w := string(b[i : i+win])
			if s, ok := seen[w]; ok {
				c.Fatal("repeated", "save %d has the bytes %x at %d that save %d has (%d is the same save)", save, w, i, s, save)
			}
			seen[w] = save
		}
		c.Max("windows", len(seen))
	}
	c.Count("opaque", 1)
	c.Distinct(c.Idx, len(seen))
}

func sortedStrings(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

var _ = strings.Join
