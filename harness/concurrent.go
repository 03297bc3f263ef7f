package main

import (
	"crypto/sha256"
	"fmt"
	"hash/fnv"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

func init() {
	register(&Prop{ID: "C30", Race: true, CPU: 1500,
		Rule: "A run of several stations at the same time is non-trivial when every station finished its work; runs differ by the operations and the seeds of the stations.",
		Assumptions: []string{"one instance is never used by two goroutines at the same time",
			"a race is seen when the two accesses are executed and nothing orders them, whatever their timing"},
		Need: []string{"runs_alongside", "first_uses", "related", "file_loads", "overlapping"},
		Sections: []Section{
			{Name: "first", Quick: len(c30Ops) + 3, Thorough: len(c30Ops) * 40, Run: c30First},
			{Name: "same", Quick: len(c30Work), Thorough: len(c30Work) * 60, Run: c30Same},
			{Name: "mixed", Quick: 24, Thorough: 4000, Run: c30Mixed},
			{Name: "related", Quick: 12, Thorough: 1500, Run: c30Related},
			{Name: "files", Quick: 8, Thorough: 400, Run: c30Files},
		}})
}

// c30Work names the monitors of other properties that use nothing but their
// own stations. Run side by side they must find what they find alone.
var c30Work = []string{
	"C01/runes", "C01/append", "C02/random", "C02/pairs", "C02/radiogram", "C03/encode", "C03/decode",
	"C04/history", "C05/store", "C06/fail", "C07/random", "C08/grammar", "C08/nosender", "C08/direction", "C08/hostile",
	"C09/traffic", "C10/missing", "C10/garbled", "C10/clear", "C11/roundtrip", "C11/history", "C12/wrongkey",
	"C14/library", "C15/generate", "C18/history", "C18/export", "C18/copies", "C19/model", "C19/exchange", "C20/refuse",
	"C21/card", "C21/printout", "C22/message", "C22/printout", "C22/list", "C22/keylist", "C28/library",
	"C31/options", "C31/callsign", "C32/random",
}

func c30Section(name string) *Section {
	id, sec, _ := strings.Cut(name, "/")
	p := props[id]
	if p == nil {
		panic("no property " + id)
	}
	for i := range p.Sections {
		if p.Sections[i].Name == sec {
			return &p.Sections[i]
		}
	}
	panic("no section " + name)
}

type c30Task struct {
	name string
	idx  int
	seed uint64
	fail []subFail
	errs []string
	from time.Time
	to   time.Time
}

// alone runs one case of another property.
func (t *c30Task) run(c *Case, dir string) (fails []subFail, errs []string) {
	id, _, _ := strings.Cut(t.name, "/")
	h := fnv.New64a()
	fmt.Fprint(h, t.name)
	s := newCase(props[id], c30Section(t.name), t.idx, t.seed, h.Sum64(), dir)
	s.sub = &subRun{}
	s.dir = filepath.Join(dir, strings.ReplaceAll(t.name, "/", "-")+"-"+strconv.Itoa(t.idx))
	if err := os.MkdirAll(s.dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(s.dir)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				s.recordPanic(r, debug.Stack())
			}
		}()
		s.S.Run(s)
	}()
	return s.sub.fails, s.sub.errors
}

// c30Alongside runs the tasks of every worker one after the other, the workers
// at the same time.
func c30Alongside(c *Case, work [][]*c30Task) {
	procs := pick(c.R, 1, 2, 4, 8, 8)
	old := runtime.GOMAXPROCS(procs)
	inParallel = true
	defer func() {
		inParallel = false
		runtime.GOMAXPROCS(old)
	}()
	c.Note("gomaxprocs", procs)
	var names []string
	for _, w := range work {
		for _, t := range w {
			names = append(names, fmt.Sprintf("%s:%d", t.name, t.idx))
		}
	}
	c.Note("tasks", names)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, w := range work {
		wg.Add(1)
		dir := c.Path(fmt.Sprintf("w%d", i))
		go func() {
			defer wg.Done()
			<-start
			for _, t := range w {
				t.from = time.Now()
				t.fail, t.errs = t.run(c, dir)
				t.to = time.Now()
			}
		}()
	}
	close(start)
	wg.Wait()
	overlap := 0
	for i, w := range work {
		for _, t := range w {
			for j, v := range work {
				for _, u := range v {
					if j > i && t.from.Before(u.to) && u.from.Before(t.to) {
						overlap++
					}
				}
			}
		}
	}
	c.Count("overlapping", overlap)
	c.Count("runs_alongside", len(names))
	c.Eval(len(names))
	dir := c.Path("alone")
	for _, w := range work {
		for _, t := range w {
			for _, e := range t.errs {
				c.Error("%s: %s", t.name, e)
			}
			if len(t.fail) == 0 {
				c.Count("alongside_fine", 1)
				continue
			}
			// What also fails alone is the business of the other property.
			also := map[string]bool{}
			for i := 0; i < 4; i++ {
				f, _ := t.run(c, dir)
				for _, x := range f {
					also[x.sig] = true
				}
			}
			for _, f := range t.fail {
				if also[f.sig] {
					c.Count("fails_alone_too", 1)
					continue
				}
				c.Fail("interference:"+t.name+":"+f.sig, "%s:%d next to other stations: %s (alone it works)", t.name, t.idx, f.msg)
			}
		}
	}
	c.Distinct(names, procs)
}

func (c *Case) task(name string) *c30Task {
	s := c30Section(name)
	return &c30Task{name: name, idx: c.R.IntN(s.Quick), seed: c.R.Uint64()}
}

func c30Same(c *Case) {
	name := c30Work[c.Idx%len(c30Work)]
	work := make([][]*c30Task, 5)
	for i := range work {
		for j := 0; j < 2; j++ {
			work[i] = append(work[i], c.task(name))
		}
	}
	c30Alongside(c, work)
}

func c30Mixed(c *Case) {
	work := make([][]*c30Task, 4+c.R.IntN(9))
	for i := range work {
		for j := 0; j < 3; j++ {
			work[i] = append(work[i], c.task(c30Work[c.R.IntN(len(c30Work))]))
		}
	}
	c30Alongside(c, work)
}

// ------------------------------------------------------------- first use ----

// c30Op is an operation several stations do at the same time, in a process
// that has never done it before. prepare uses no more of the code under test
// than it must; run is what happens at the same time; judge says what is wrong
// with the result, after all have finished.
type c30Op struct {
	name    string
	prepare func(r *mrand.Rand, dir string) *c30Job
}

type c30Job struct {
	run   func() string
	judge func(result string) string
}

func digest(parts ...any) string {
	h := sha256.Sum256([]byte(fmt.Sprintln(parts...)))
	return fmt.Sprintf("%x", h[:8])
}

// c30Station is a station with keys and messages the harness made by itself.
func c30Station(r *mrand.Rand, k *k431.Krypto431) *k431.Krypto431 {
	k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = 5, 100, 100, 36
	for i := 0; i < 6; i++ {
		addKey(r, k, "AA", "BB")
	}
	for i := 0; i < 5; i++ {
		m := k431.Message{Id: letters(r, 6), From: []rune("AA"), Recipients: calls("BB", "CC"), PlainText: []rune(radioText(r, 40)),
			KeyId: append([]rune(nil), k.Keys[i].Id...), CipherText: letters(r, 60)}
		m.DTG.Time = fixedDTG()
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
	return k
}

func bare(call string) *k431.Krypto431 {
	k := &k431.Krypto431{}
	k.CallSign = []rune(call)
	return k
}

const c30PFK = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"

// same is a job whose result has to be what the same job gives alone.
func c30Repeat(r *mrand.Rand, make func(r *mrand.Rand) func() string) *c30Job {
	s1, s2 := r.Uint64(), r.Uint64()
	return &c30Job{run: make(mrand.New(mrand.NewPCG(s1, s2))), judge: func(got string) string {
		if want := make(mrand.New(mrand.NewPCG(s1, s2)))(); got != want {
			return fmt.Sprintf("the result is %.300s, alone it is %.300s", got, want)
		}
		return ""
	}}
}

func okIf(bad string) func(string) string {
	return func(got string) string {
		if got != "" {
			return bad + ": " + got
		}
		return ""
	}
}

func errText(err error) string {
	if err != nil {
		return err.Error()
	}
	return ""
}

// The text of a message and what it becomes under keys, made by the harness.
func c30Cipher(r *mrand.Rand, k *k431.Krypto431, n int) (text, cipher []rune, id string) {
	f := cfg{5, 100}
	for {
		k.Keys = nil
		text = genText(r, n)
		for i := 0; i < needKeys(len(text), f)+2; i++ {
			addKeyLen(r, k, 5, 100, "BB")
		}
		var keys []refKey
		for i := range k.Keys {
			keys = append(keys, refKey{string(k.Keys[i].Id), k.Keys[i].Runes})
		}
		c, chain, ok := refEncipher(r, text, keys, 5, 0.2)
		if ok {
			return text, c, chain[0]
		}
	}
}

var c30Ops = []c30Op{
	{"encipher", func(r *mrand.Rand, dir string) *c30Job {
		k := bare("AA")
		k.GroupSize, k.KeyLength = 5, 100
		text, _, _ := c30Cipher(r, k, 120)
		m := newMsg(k, text, "BB")
		keys := keyMap(k)
		return &c30Job{run: func() string { return errText(m.Encipher()) }, judge: func(got string) string {
			if got != "" {
				return got
			}
			d, err := refDecipher(keys, 5, string(m.KeyId), m.CipherText)
			if err != nil || string(d.Text) != string(text) {
				return fmt.Sprintf("the cipher text means %q (%v), want %q", string(d.Text), err, string(text))
			}
			return ""
		}}
	}},
	{"decipher", func(r *mrand.Rand, dir string) *c30Job {
		k := bare("AA")
		k.GroupSize, k.KeyLength = 5, 100
		text, cipher, id := c30Cipher(r, k, 120)
		m := newMsg(k, nil)
		m.KeyId, m.CipherText = []rune(id), cipher
		return &c30Job{run: func() string { return errText(m.Decipher()) }, judge: func(got string) string {
			if got != "" || string(m.PlainText) != string(text) {
				return fmt.Sprintf("deciphered as %q (%s), want %q", string(m.PlainText), got, string(text))
			}
			return ""
		}}
	}},
	{"traffic", func(r *mrand.Rand, dir string) *c30Job {
		k := bare("AA")
		k.GroupSize, k.KeyLength = 5, 100
		text, cipher, id := c30Cipher(r, k, 60)
		radiogram := "AA DE BB 171234ZMAY24 = " + id + " " + groupsOf(cipher, 5) + " = K"
		var m *k431.Message
		return &c30Job{run: func() string {
			var err error
			m, err = k.NewTextMessage(radiogram)
			return errText(err)
		}, judge: func(got string) string {
			if got != "" || string(m.PlainText) != string(text) || string(m.From) != "BB" {
				return fmt.Sprintf("received as %+v (%s), want %q", m, got, string(text))
			}
			return ""
		}}
	}},
	{"radiogram", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := bare("AA")
			k.GroupSize, k.KeyLength = 5, 100
			s := fmt.Sprintf("AA BB DE CC %02d1234ZMAY24 = %s = K", 1+r.IntN(28), radioText(r, 30))
			return func() string {
				m, err := k.NewTextMessage(s)
				if err != nil {
					return err.Error()
				}
				return fmt.Sprint(string(m.PlainText), joinRunes(m.Recipients), string(m.From), m.DTG.String(), len(m.Id), m.QRZString(), m.IsMyCall())
			}
		})
	}},
	{"parse", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := bare("AA")
			s := []string{genRadiogram(r, time.UTC, "").s, hostileRadiogram(r), "DE X = 1 = K"}
			if strings.Contains(strings.ToUpper(s[0]), "DE") {
				// a radiogram without a date is given the time of day
			}
			return func() string {
				out := ""
				for _, x := range s {
					m, err := k.ParseRadiogram(x)
					if err != nil {
						out += "error: " + err.Error() + "\n"
						continue
					}
					out += fmt.Sprintf("%q %s %q %q\n", string(m.PlainText), joinRunes(m.Recipients), string(m.From), string(m.Radiogram))
				}
				return out
			}
		})
	}},
	{"send", func(r *mrand.Rand, dir string) *c30Job {
		k := c30Station(r, bare("AA"))
		keys := keyMap(k)
		text := radioText(r, 30)
		var m *k431.Message
		return &c30Job{run: func() string {
			var err error
			m, err = k.NewTextMessage("BB DE AA 171234ZMAY24 = " + text + " = K")
			return errText(err)
		}, judge: func(got string) string {
			if got != "" {
				return got
			}
			d, err := refDecipher(keys, 5, string(m.KeyId), m.CipherText)
			if err != nil || string(d.Text) != text {
				return fmt.Sprintf("the cipher text means %q (%v), want %q", string(d.Text), err, text)
			}
			return ""
		}}
	}},
	{"groups", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			return func() string {
				a, e1 := k.Keys[0].GroupsBlock()
				b, e2 := k.Messages[0].GroupsBlock()
				d, e3 := k.Keys[1].Groups()
				if e1 != nil || e2 != nil || e3 != nil {
					return fmt.Sprint(e1, e2, e3)
				}
				return string(*a) + "\n" + string(*b) + "\n" + string(*d)
			}
		})
	}},
	{"summary of keys", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			return func() string {
				h, l := k.SummaryOfKeys(all)
				return string(h) + joinRunes(l)
			}
		})
	}},
	{"summary of messages", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			return func() string {
				h, l := k.SummaryOfMessages(allMsg)
				return string(h) + joinRunes(l)
			}
		})
	}},
	{"key card", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			return func() string { return k.Keys[0].String() + k.KeysAsText(all) }
		})
	}},
	{"message sheet", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			return func() string { return k.Messages[0].String() + k.MessagesAsText(allMsg) }
		})
	}},
	{"text of keys", func(r *mrand.Rand, dir string) *c30Job {
		n := 0
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			n++
			f := filepath.Join(dir, fmt.Sprintf("keys%d.txt", n))
			return func() string {
				err := k.KeysTextFile(all, f)
				b, _ := os.ReadFile(f)
				return errText(err) + string(b)
			}
		})
	}},
	{"text of messages", func(r *mrand.Rand, dir string) *c30Job {
		n := 0
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			n++
			f := filepath.Join(dir, fmt.Sprintf("messages%d.txt", n))
			return func() string {
				err := k.MessagesTextFile(allMsg, f)
				b, _ := os.ReadFile(f)
				return errText(err) + string(b)
			}
		})
	}},
	{"pdf of keys", func(r *mrand.Rand, dir string) *c30Job { return c30PDF(r, dir, true) }},
	{"pdf of messages", func(r *mrand.Rand, dir string) *c30Job { return c30PDF(r, dir, false) }},
	{"save", func(r *mrand.Rand, dir string) *c30Job {
		f := filepath.Join(dir, "store")
		k := c30Station(r, fileStation("AA", cfg{5, 100}, f, c30PFK))
		want := snapOf(k)
		return &c30Job{run: func() string { return errText(k.Save()) }, judge: func(got string) string {
			n, err := reopen(f, c30PFK)
			if got != "" || err != nil {
				return fmt.Sprint(got, err)
			}
			return diff(want, snapOf(n)) + diff(want, snapOf(k))
		}}
	}},
	{"load", func(r *mrand.Rand, dir string) *c30Job {
		want := snapOf(c30Station(r, bare("AA")))
		k := newStation(k431.WithPersistence(filepath.Join(dir, "prepared")), k431.WithPFKString(c30PFK))
		return &c30Job{run: func() string { return errText(k.Load()) }, judge: func(got string) string {
			return got + diff(want, snapOf(k))
		}}
	}},
	{"import", func(r *mrand.Rand, dir string) *c30Job {
		from := snapOf(c30Station(r, bare("AA")))
		k := c30Station(r, bare("ZZ"))
		before := snapOf(k)
		return &c30Job{run: func() string {
			n, err := k.ImportKeys(all, k431.WithPersistence(filepath.Join(dir, "prepared")), k431.WithPFKString(c30PFK))
			if n != len(from.Keys) {
				return fmt.Sprintf("%d of %d keys imported, %v", n, len(from.Keys), err)
			}
			return errText(err)
		}, judge: func(got string) string {
			if got != "" {
				return got
			}
			want := before
			want.Keys = append([]keySnap(nil), before.Keys...)
			for _, x := range from.Keys {
				want.Keys = append(want.Keys, received(x, "AA", "ZZ"))
			}
			after := snapOf(k)
			for i := range want.Keys {
				want.Keys[i] = normKey(want.Keys[i])
			}
			for i := range after.Keys {
				after.Keys[i] = normKey(after.Keys[i])
			}
			return diff(sortSnap(want), sortSnap(after))
		}}
	}},
	{"export", func(r *mrand.Rand, dir string) *c30Job {
		k := c30Station(r, fileStation("AA", cfg{5, 100}, filepath.Join(dir, "store"), c30PFK))
		want := snapOf(k)
		f := filepath.Join(dir, "exported")
		var e k431.Krypto431
		return &c30Job{run: func() string {
			e = k.ExportKeys(all, k431.WithPersistence(f), k431.WithOverwritePersistenceIfExists(true))
			return errText(e.Save())
		}, judge: func(got string) string {
			n, err := reopen(f, c30PFK)
			if got != "" || err != nil {
				return fmt.Sprint(got, err)
			}
			if d := diff(want, snapOf(k)); d != "" {
				return d
			}
			want.Messages = nil
			return diff(want, snapOf(n)) + diff(want, snapOf(&e))
		}}
	}},
	{"new keys", func(r *mrand.Rand, dir string) *c30Job {
		k := c30Station(r, bare("AA"))
		before := snapOf(k)
		return &c30Job{run: func() string { return errText(k.GenerateKeys(5, nil, "BB, CC", "dd")) }, judge: func(got string) string {
			after := snapOf(k)
			if got != "" || len(after.Keys) != len(before.Keys)+5 {
				return fmt.Sprintf("%d keys became %d %s", len(before.Keys), len(after.Keys), got)
			}
			seen := map[string]bool{}
			for _, x := range after.Keys[len(before.Keys):] {
				if len(x.ID) != 5 || len(x.Runes) != 100 || x.Keepers != joinRunes(calls("BB", "CC", "DD")) || seen[x.ID] || seen[x.Runes] {
					return fmt.Sprintf("new key %+v", x)
				}
				for _, ch := range x.ID + x.Runes {
					if ch < 'A' || ch > 'Z' {
						return fmt.Sprintf("new key %+v", x)
					}
				}
				seen[x.ID], seen[x.Runes] = true, true
			}
			after.Keys = after.Keys[:len(before.Keys)]
			return diff(before, after)
		}}
	}},
	{"random", func(r *mrand.Rand, dir string) *c30Job {
		return &c30Job{run: func() string {
			k := bare("AA")
			a, b, d, e := k431.GenerateSalt(), k431.GeneratePFK(), string(k.NewUniqueMessageId()), string(k431.RandomAlnumRunes(12))
			if len(a) < 32 || len(b) != 64 || len(d) == 0 || len(e) != 12 || a == b {
				return fmt.Sprint(a, b, d, e)
			}
			return ""
		}, judge: okIf("random values")}
	}},
	{"delete", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			k := c30Station(r, bare("AA"))
			a, b := string(k.Keys[2].Id), string(k.Messages[1].Id)
			return func() string {
				n, err := k.DeleteKeyByString(a)
				o, err2 := k.DeleteMessageByString(b)
				p, err3 := k.DeleteKeysBySummaryString(string(k.Keys[0].Id) + " whatever")
				return fmt.Sprint(n, err, o, err2, p, err3, snapOf(k))
			}
		})
	}},
	{"wipe", func(r *mrand.Rand, dir string) *c30Job {
		k := c30Station(r, fileStation("AA", cfg{5, 100}, filepath.Join(dir, "store"), c30PFK))
		key, text := k.Keys[0].Runes, k.Messages[0].PlainText
		was, said := string(key), string(text)
		return &c30Job{run: func() string {
			k.Wipe()
			if string(key) == was || string(text) == said || len(k.Keys) != 0 || len(k.Messages) != 0 || k.GetPFKString() == c30PFK {
				return "something is left"
			}
			return ""
		}, judge: okIf("wipe")}
	}},
	{"derive", func(r *mrand.Rand, dir string) *c30Job {
		pw := "correct horse battery staple " + fmt.Sprint(r.Uint64())
		k := newStation()
		salt := k.GetSaltString()
		return &c30Job{run: func() string {
			p := []byte(pw)
			return errText(k.DerivePFKFromPasswordWithValidation(&p))
		}, judge: func(got string) string {
			if want := pbkdf(pw, salt); got != "" || k.GetPFKString() != want {
				return fmt.Sprintf("derived %s (%s), want %s", k.GetPFKString(), got, want)
			}
			return ""
		}}
	}},
	{"lists", func(r *mrand.Rand, dir string) *c30Job {
		return c30Repeat(r, func(r *mrand.Rand) func() string {
			s := strings.Join(genCalls(r, 5), pick(r, ",", " ", ", "))
			k := c30Station(r, bare("AA"))
			return func() string {
				key := &k.Keys[0]
				key.AddKeeper(k431.VettedKeepers(s)...).RemoveKeeper([]rune("BB"))
				m := &k.Messages[0]
				m.AddRecipient(k431.VettedRecipients(s)...)
				m.RemoveRecipient([]rune("CC"))
				x, y := k431.VettedKeys(s), k431.VettedMessageIds(s)
				return fmt.Sprint(joinRunes(key.Keepers), joinRunes(m.Recipients), joinRunes(x), joinRunes(y), k431.AnyNeedleInHaystack(&x, &key.Keepers), k431.AllNeedlesInHaystack(&x, &key.Keepers, true),
					key.JoinKeepers(","), m.JoinRecipients(","), key.UsedString(), key.CompromisedString(), key.IsExpired(), key.IsValid(time.Hour))
			}
		})
	}},
	{"new", func(r *mrand.Rand, dir string) *c30Job {
		call := genCall(r)
		return &c30Job{run: func() string {
			k := k431.New(k431.WithCallSign(call), k431.WithPersistence(filepath.Join(dir, "x")), k431.WithGroupSize(4), k431.WithKeyLength(40), k431.WithSaltString(c30PFK), k431.WithPFKString(c30PFK))
			if string(k.CallSign) != call || k.GroupSize != 4 || k.KeyLength != 40 || k.GetPFKString() != c30PFK || k.GetSaltString() != c30PFK || len(k.Keys)+len(k.Messages) != 0 {
				return fmt.Sprintf("%+v", k)
			}
			o := k431.New(k431.WithCallSign(call))
			if o.GetSaltString() != k431.DefaultSalt {
				return "default salt " + o.GetSaltString()
			}
			return errText(k.Assert())
		}, judge: okIf("new station")}
	}},
}

func c30PDF(r *mrand.Rand, dir string, keys bool) *c30Job {
	k := c30Station(r, bare("AA"))
	f := filepath.Join(dir, "out.pdf")
	return &c30Job{run: func() string {
		if keys {
			return errText(k.KeysPDF(all, f))
		}
		return errText(k.MessagesPDF(allMsg, f))
	}, judge: func(got string) string {
		if got != "" {
			return got
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err.Error()
		}
		runs, _, err := readPDF(b)
		if err != nil {
			return err.Error()
		}
		var sb strings.Builder
		for _, t := range runs {
			sb.WriteString(t.text)
		}
		text := squeeze(sb.String())
		for i := range k.Keys {
			if keys && !strings.Contains(text, string(k.Keys[i].Runes)) {
				return fmt.Sprintf("key %s is not in the document", string(k.Keys[i].Id))
			}
		}
		for i := range k.Messages {
			if !keys && !strings.Contains(text, squeeze(string(k.Messages[i].PlainText))) {
				return fmt.Sprintf("message %s is not in the document", string(k.Messages[i].Id))
			}
		}
		return ""
	}}
}

const c30Workers = 6

// helperFirst runs one operation, or a mixture, for the first time in this
// process in several goroutines at once: operation seed dir
func helperFirst(args []string) {
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	var jobs []*c30Job
	var names []string
	for i := 0; i < c30Workers; i++ {
		r := mrand.New(mrand.NewPCG(seed, uint64(i)))
		op := c30Ops[r.IntN(len(c30Ops))]
		for _, o := range c30Ops {
			if o.name == args[0] {
				r = mrand.New(mrand.NewPCG(seed, uint64(i)))
				op = o
			}
		}
		jobs = append(jobs, op.prepare(r, filepath.Join(args[2], fmt.Sprint(i))))
		names = append(names, op.name)
	}
	results := make([]string, len(jobs))
	panics := make([]string, len(jobs))
	var arrived atomic.Int32
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					panics[i] = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
				}
			}()
			arrived.Add(1)
			for arrived.Load() < int32(len(jobs)) {
				runtime.Gosched()
			}
			results[i] = jobs[i].run()
		}()
	}
	wg.Wait()
	fmt.Println("STARTED")
	for i, j := range jobs {
		bad := panics[i]
		if bad == "" {
			func() {
				defer func() {
					if x := recover(); x != nil {
						bad = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
					}
				}()
				bad = j.judge(results[i])
			}()
		}
		if bad != "" {
			fmt.Printf("WRONG %s %q\n", strings.ReplaceAll(names[i], " ", "_"), bad)
		}
	}
	fmt.Println("RESULT done")
}

func c30First(c *Case) {
	op := "mixture"
	if i := c.Idx % (len(c30Ops) + 3); i < len(c30Ops) {
		op = c30Ops[i].name
	}
	seed := c.R.Uint64()
	// A file for those that load one, as their station would have saved it.
	for i := 0; i < c30Workers; i++ {
		dir := c.Path(fmt.Sprint(i))
		os.MkdirAll(dir, 0700)
		k := newStation(k431.WithCallSign("AA"), k431.WithPersistence(filepath.Join(dir, "prepared")), k431.WithPFKString(c30PFK))
		// The helper's random numbers start alike, or it would expect another
		// station. For a mixture one number is used to choose the operation.
		r := mrand.New(mrand.NewPCG(seed, uint64(i)))
		if op == "mixture" {
			r.IntN(len(c30Ops))
		}
		c30Station(r, k)
		if err := k.Save(); err != nil {
			c.Fatal("save", "saving failed: %v", err)
		}
	}
	procs := pick(c.R, 8, 8, 4, 2)
	c.Note("operation", op)
	r := c.run(cmdOpt{env: []string{"GORACE=" + os.Getenv("GORACE"), fmt.Sprintf("GOMAXPROCS=%d", procs)}}, self(), "-helper", "first", op, fmt.Sprint(seed), c.Dir())
	if !strings.Contains(r.out, "RESULT done") {
		if strings.Contains(r.err, "goroutine ") || strings.Contains(r.out, "STARTED") || r.code == 2 {
			c.Fatal("first-crash:"+op, "the process ended: exit %d, signal %v\n%.4000s", r.code, r.signal, r.err)
		}
		c.Error("helper did not finish: exit %d signal %v %s", r.code, r.signal, r.err)
	}
	for _, l := range strings.Split(r.out, "\n") {
		if rest, ok := strings.CutPrefix(l, "WRONG "); ok {
			name, msg, _ := strings.Cut(rest, " ")
			if u, err := strconv.Unquote(msg); err == nil {
				msg = u
			}
			// Wrong alone as well? Then it is the business of another property.
			alone := c30Alone(strings.ReplaceAll(name, "_", " "), c.R.Uint64(), c.Dir())
			if alone != "" {
				c.Count("fails_alone_too", 1)
				continue
			}
			c.Fail("first:"+name, "done by several stations at once: %s", msg)
		}
	}
	c.Count("first_uses", 1)
	c.Count("runs_alongside", c30Workers)
	c.Eval(c30Workers)
	c.Distinct(op, seed)
}

// c30Alone does an operation once with nothing else going on.
func c30Alone(op string, seed uint64, dir string) (bad string) {
	defer func() {
		if x := recover(); x != nil {
			bad = fmt.Sprint(x)
		}
	}()
	dir = filepath.Join(dir, "alone")
	os.MkdirAll(dir, 0700)
	k := newStation(k431.WithCallSign("AA"), k431.WithPersistence(filepath.Join(dir, "prepared")), k431.WithPFKString(c30PFK), k431.WithOverwritePersistenceIfExists(true))
	c30Station(mrand.New(mrand.NewPCG(seed, 1)), k)
	if err := k.Save(); err != nil {
		return err.Error()
	}
	for _, o := range c30Ops {
		if o.name == op {
			j := o.prepare(mrand.New(mrand.NewPCG(seed, 1)), dir)
			return j.judge(j.run())
		}
	}
	return "no such operation"
}

// --------------------------------------------------------- related stations ----

// c30Family makes stations that come from each other: one is exported, loaded,
// imported and opened again. The same seed gives the same family.
func c30Family(c *Case, seed uint64, dir string) []*k431.Krypto431 {
	r := mrand.New(mrand.NewPCG(seed, 30))
	os.MkdirAll(dir, 0700)
	file := func(s string) string { return filepath.Join(dir, s) }
	must := func(err error) {
		if err != nil {
			c.Fatal("related-prepare", "%v", err)
		}
	}
	over := k431.WithOverwritePersistenceIfExists(true)
	a := c30Station(r, fileStation("AA", cfg{5, 100}, file("a"), c30PFK))
	must(a.Save())
	e := a.ExportKeys(all, k431.WithPersistence(file("e")), over)
	must(e.Save())
	loaded := newStation(k431.WithPersistence(file("a")), k431.WithPFKString(c30PFK), over)
	must(loaded.Load())
	loaded.SetPersistence(file("l"))
	imp := fileStation("BB", cfg{5, 100}, file("i"), c30PFK)
	_, err := imp.ImportKeys(all, k431.WithPersistence(file("e")), k431.WithPFKString(c30PFK))
	must(err)
	e2 := loaded.ExportKeys(all, k431.WithPersistence(file("x")), over)
	e3 := a.ExportKeys(all, k431.WithPersistence(file("y")), over)
	return []*k431.Krypto431{a, &e, loaded, imp, &e2, &e3}
}

// c30Life is what one station does; its log holds nothing random.
func c30Life(k *k431.Krypto431, seed uint64, n int) (log []string) {
	r := mrand.New(mrand.NewPCG(seed, uint64(n)))
	defer func() {
		if x := recover(); x != nil {
			log = append(log, fmt.Sprintf("panic: %v\n%s", x, debug.Stack()))
		}
	}()
	say := func(x ...any) { log = append(log, fmt.Sprint(x...)) }
	state := func() string {
		s := snapOf(k)
		for i := range s.Messages {
			if len(s.Messages[i].ID) != 6 { // ids the program made
				s.Messages[i].ID = ""
			}
		}
		return digest(s)
	}
	for step := 0; step < 14; step++ {
		switch r.IntN(13) {
		case 0:
			m, err := k.NewTextMessage(fmt.Sprintf("BB DE %s 171234ZMAY24 = %s = K", string(k.CallSign), radioText(r, 1+r.IntN(60))))
			if err != nil {
				say("send ", err)
			} else {
				say("send ", string(m.KeyId), string(m.CipherText))
			}
		case 1:
			for i := range k.Messages {
				say("decipher ", k.Messages[i].TryDecipherPlainText() != nil, string(k.Messages[i].PlainText))
			}
		case 2:
			h, l := k.SummaryOfKeys(all)
			say("list ", string(h), joinRunes(l))
		case 3:
			say("print ", digest(k.KeysAsText(all)))
		case 4:
			if len(k.Keys) > 0 {
				key := &k.Keys[r.IntN(len(k.Keys))]
				key.AddKeeper([]rune("NEW")).RemoveKeeper([]rune("BB"))
				key.Used = !key.Used
				say("edit")
			}
		case 5:
			if len(k.Keys) > 3 {
				n, err := k.DeleteKey(k431.RuneCopy(&k.Keys[r.IntN(len(k.Keys))].Id))
				say("delete ", n, err)
			}
		case 6:
			if len(k.Messages) > 0 {
				n, err := k.DeleteMessage(k431.RuneCopy(&k.Messages[r.IntN(len(k.Messages))].Id))
				say("delete message ", n, err)
			}
		case 7:
			if len(k.Keys) > 3 {
				i := r.IntN(len(k.Keys))
				say("wipe key ", k.Keys[i].Wipe())
			}
		case 8, 9:
			say("save ", k.Save() != nil)
		case 10:
			say("load ", k.Load() != nil)
		case 11:
			say("make ", k.GenerateKeys(2, nil, "BB"))
			k.Keys = k.Keys[:len(k.Keys)-2]
		case 12:
			e := k.ExportKeys(all)
			e.Wipe()
			say("export")
		}
		say(state())
	}
	if r.IntN(3) == 0 {
		k.Wipe()
		say("wiped ", state())
	}
	return
}

func c30Related(c *Case) {
	seed := c.R.Uint64()
	var want [][]string
	const n = 6
	for i := 0; i < n; i++ {
		f := c30Family(c, seed, c.Path(fmt.Sprintf("alone%d", i)))
		want = append(want, c30Life(f[i], seed, i))
	}
	f := c30Family(c, seed, c.Path("together"))
	got := make([][]string, n)
	old := runtime.GOMAXPROCS(pick(c.R, 2, 4, 8))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range f {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[i] = c30Life(f[i], seed, i)
		}()
	}
	close(start)
	wg.Wait()
	runtime.GOMAXPROCS(old)
	who := []string{"original", "exported", "loaded", "importing", "exported from the loaded", "exported again"}
	for i := range f {
		for j := range want[i] {
			if j >= len(got[i]) || got[i][j] != want[i][j] {
				g := "nothing"
				if j < len(got[i]) {
					g = got[i][j]
				}
				var before []string
				for _, l := range want[i][:j+1] {
					if len(l) > 16 || !isHex(l) {
						before = append(before, fmt.Sprintf("%.40s", l))
					}
				}
				c.Fail("related", "the %s station: step %d gives %.300s, alone it gives %.300s; its operations: %v", who[i], j, g, want[i][j], before)
				break
			}
		}
	}
	c.Count("related", 1)
	c.Count("runs_alongside", n)
	c.Eval(n)
	c.Distinct(seed)
}

func isHex(s string) bool {
	for _, x := range s {
		if !strings.ContainsRune("0123456789abcdef", x) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ shared files ----

// c30Files: stations of their own that save to and load from one file. What is
// loaded is what one of them saved, whole.
func c30Files(c *Case) {
	r := c.R
	file := c.Path("store")
	savers, loaders, rounds := 2+r.IntN(3), 2+r.IntN(3), 6
	type version struct {
		k    *k431.Krypto431
		snap snap
	}
	mk := func(s, v int) version {
		k := fileStation(fmt.Sprintf("S%dV%d", s, v), cfg{5, 60}, file, c30PFK)
		for i := r.IntN(60); i >= 0; i-- {
			addKey(r, k, fmt.Sprintf("K%d", v))
		}
		return version{k, snapOf(k)}
	}
	known := map[string]snap{}
	plan := make([][]version, savers)
	for s := range plan {
		for v := 0; v < rounds; v++ {
			x := mk(s, v)
			plan[s] = append(plan[s], x)
			known[x.snap.CallSign] = x.snap
		}
	}
	first := mk(9, 9)
	known[first.snap.CallSign] = first.snap
	if err := first.k.Save(); err != nil {
		c.Fatal("files-save", "saving failed: %v", err)
	}
	var wg, saving sync.WaitGroup
	var done atomic.Bool
	saveErr := make([]error, savers)
	type seen struct {
		s   snap
		err error
	}
	loads := make([][]seen, loaders)
	for s := range plan {
		saving.Add(1)
		go func() {
			defer saving.Done()
			for _, v := range plan[s] {
				if err := v.k.Save(); err != nil {
					saveErr[s] = err
				}
			}
		}()
	}
	for l := range loads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for len(loads[l]) < 40 && !(done.Load() && len(loads[l]) > 2) {
				k, err := reopen(file, c30PFK)
				loads[l] = append(loads[l], seen{snapOf(k), err})
			}
		}()
	}
	saving.Wait()
	done.Store(true)
	wg.Wait()
	for s, err := range saveErr {
		if err != nil {
			c.Fail("files-save", "station %d could not save while others save and load: %v", s, err)
		}
	}
	got := map[string]bool{}
	for _, l := range loads {
		for _, x := range l {
			c.Count("file_loads", 1)
			if x.err != nil {
				c.Fail("files-load", "loading failed while others save: %v", x.err)
				continue
			}
			want, ok := known[x.s.CallSign]
			if !ok {
				c.Fail("files-unknown", "loaded a station %q nobody saved", x.s.CallSign)
				continue
			}
			if d := diff(want, x.s); d != "" {
				c.Fail("files-mixed", "what is loaded is not what %s saved: %s", x.s.CallSign, d)
			}
			got[x.s.CallSign] = true
		}
	}
	c.Count("file_versions_seen", len(got))
	ents, _ := os.ReadDir(c.Dir())
	var names []string
	for _, e := range ents {
		if e.Name() != "store" {
			names = append(names, e.Name())
		}
	}
	sort.Strings(names)
	if len(names) > 0 {
		c.Fail("files-left", "files are left behind: %v", names)
	}
	c.Distinct(savers, loaders, len(known), len(got))
}
