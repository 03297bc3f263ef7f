package main

import (
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

func hexKey(r *rand.Rand) string {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	return hex.EncodeToString(b)
}

// fileStation is a station with a store file it may overwrite.
func fileStation(call string, f cfg, file, pfk string) *k431.Krypto431 {
	return newStation(k431.WithCallSign(call), k431.WithGroupSize(f.GS), k431.WithKeyLength(f.KL),
		k431.WithPersistence(file), k431.WithPFKString(pfk), k431.WithOverwritePersistenceIfExists(true))
}

func reopen(file, pfk string) (*k431.Krypto431, error) {
	k := newStation(k431.WithPersistence(file), k431.WithPFKString(pfk))
	err := k.Load()
	return k, err
}

func setOf(s []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

func sortedKeys(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func newly(before, after map[string]bool) map[string]bool {
	m := map[string]bool{}
	for k := range after {
		if !before[k] {
			m[k] = true
		}
	}
	return m
}

func groupsOf(s []rune, gs int) string {
	var b strings.Builder
	for i, c := range s {
		if i > 0 && i%gs == 0 {
			b.WriteByte(' ')
		}
		b.WriteRune(c)
	}
	return b.String()
}

// ------------------------------------------------------------------- C04 ---

func init() {
	register(&Prop{ID: "C04",
		Rule:        "Messages chained over 2-140 keys (mostly just around 20 and 40), sent, received and answered until the keys run out. Histories of 20-60 random operations on two stations with few keys: encipher with an automatic or a named key, fail to encipher, receive, list, delete, generate, export, import a stale export, save and reload. After each operation the cipher text is decoded by the independent decoder to learn the chain of keys, which is compared with everything enciphered before and with the used marks. Non-trivial: a history with at least three messages enciphered, distinct by its operations.",
		Assumptions: []string{"reuse after the user imported a fresh copy of a spent key over it or after deleting it is the user's request and excluded", "loading is preceded by saving"},
		Need:        []string{"enciphered", "enciphered_named", "enciphered_multi_key", "received", "reloaded", "refused", "imported", "received_over_20_keys", "own_deciphered", "empty_tail"},
		Sections: []Section{
			{Name: "history", Quick: 500, Thorough: 12000, Run: c04History},
			{Name: "drain", Quick: 1200, Thorough: 30000, Run: c04Drain},
			{Name: "long", Quick: 400, Thorough: 12000, Run: c04Long},
			{Name: "marks", Quick: 1500, Thorough: 40000, Run: c04Marks},
		}})
}

type useStation struct {
	k         *k431.Krypto431
	call      string
	file, pfk string
	spent     map[string]string // key material -> message that used it
	inbox     []string          // traffic to receive
}

// sent checks one successful encipherment at a station.
func (s *useStation) sent(c *Case, m *k431.Message, keysBefore map[string][]rune, usedBefore map[string]bool, what string) []string {
	gs := s.k.GroupSize
	d, err := refDecipher(keysBefore, gs, string(m.KeyId), m.CipherText)
	if err != nil {
		c.Fatal("undecodable", "%s: the cipher text can not be decoded with the keys of the store: %v", what, err)
	}
	chain := setOf(d.Chain)
	if len(chain) != len(d.Chain) {
		c.Fatal("twice-in-message", "%s: a key is used twice in one message: %v", what, d.Chain)
	}
	for _, id := range d.Chain {
		mat := id + ":" + string(keysBefore[id])
		if prev, ok := s.spent[mat]; ok {
			c.Fatal("key-reused", "%s: key %s already enciphered %s", what, id, prev)
		}
		if usedBefore[id] {
			c.Fatal("used-key-chosen", "%s: key %s was marked used before", what, id)
		}
		s.spent[mat] = what
	}
	if n := newly(usedBefore, usedIDs(s.k)); sortedKeys(n) != sortedKeys(chain) {
		c.Fatal("marks-encipher", "%s: keys newly marked used are [%s], the message is enciphered with [%s]", what, sortedKeys(n), sortedKeys(chain))
	}
	if n := newly(usedIDs(s.k), usedBefore); len(n) > 0 {
		c.Fatal("marks-lost", "%s: used marks of [%s] were cleared", what, sortedKeys(n))
	}
	c.Count("enciphered", 1)
	if len(d.Chain) > 1 {
		c.Count("enciphered_multi_key", 1)
	}
	return d.Chain
}

func (s *useStation) reload(c *Case) {
	before := snapOf(s.k)
	if err := s.k.Save(); err != nil {
		c.Fatal("save", "save failed: %v", err)
	}
	if c.R.IntN(2) == 0 {
		if err := s.k.Load(); err != nil {
			c.Fatal("load", "load failed: %v", err)
		}
	} else {
		k, err := reopen(s.file, s.pfk)
		if err != nil {
			c.Fatal("load", "load failed: %v", err)
		}
		s.k = k
	}
	after := snapOf(s.k)
	for _, kb := range before.Keys {
		if ka := after.key(kb.ID); ka == nil || ka.Used != kb.Used {
			c.Fatal("mark-not-saved", "key %s used=%v before saving, after loading: %+v", kb.ID, kb.Used, ka)
		}
	}
	c.Count("reloaded", 1)
}

func c04History(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 3), 0}
	f.KL = 20 + r.IntN(20)
	cs := genCalls(r, 2)
	var st [2]*useStation
	for i := range st {
		s := &useStation{call: cs[i], file: c.Path(fmt.Sprintf("s%d", i)), pfk: hexKey(r), spent: map[string]string{}}
		s.k = fileStation(cs[i], f, s.file, s.pfk)
		st[i] = s
	}
	for i := 0; i < 6+r.IntN(8); i++ { // keys shared by both, and anonymous ones
		if r.IntN(3) == 0 {
			key := addKey(r, st[0].k)
			copyKey(st[1].k, key)
		} else {
			key := addKey(r, st[0].k, cs[1])
			copyKey(st[1].k, key, cs[0])
		}
	}
	var exports []struct{ file, pfk string }
	var ops []string
	log := func(format string, a ...any) {
		ops = append(ops, fmt.Sprintf(format, a...))
		c.Note("operations", ops)
	}
	sentCount := 0
	steps := 20 + r.IntN(40)
	for step := 0; step < steps; step++ {
		i := r.IntN(2)
		s, o := st[i], st[1-i]
		before, keysBefore := usedIDs(s.k), keyMap(s.k)
		switch op := r.IntN(20); {
		case op < 7: // encipher
			n := 1 + r.IntN(3*f.KL)
			if r.IntN(2) == 0 {
				n = 1 + r.IntN(10)
			}
			text := radioText(r, n)
			if r.IntN(8) == 0 {
				text = text[:len(text)/2] + "!" + text[len(text)/2:]
			}
			to := o.call + " "
			if r.IntN(3) == 0 {
				to = ""
			}
			radiogram := fmt.Sprintf("%sDE %s 171234ZMAY24 = %s = K", to, s.call, text)
			args := []string{radiogram}
			named := ""
			if r.IntN(3) == 0 && len(s.k.Keys) > 0 {
				named = string(s.k.Keys[r.IntN(len(s.k.Keys))].Id)
				args = append(args, pick(r, named, strings.ToLower(named), " "+named+" "))
			}
			log("station %d enciphers %d characters to %q with key %q", i, len(text), to, named)
			m, err := s.k.NewTextMessage(args...)
			if err != nil {
				c.Count("refused", 1)
				if n := newly(usedIDs(s.k), before); len(n) > 0 {
					c.Fatal("marks-lost", "a refused message cleared the used marks of [%s]", sortedKeys(n))
				}
				continue
			}
			if named != "" {
				c.Count("enciphered_named", 1)
				if string(m.KeyId) != named {
					c.Fatal("named-key", "asked for key %s, enciphered with %s", named, string(m.KeyId))
				}
			}
			s.sent(c, m, keysBefore, before, fmt.Sprintf("step %d station %d", step, i))
			sentCount++
			if to != "" || r.IntN(2) == 0 {
				o.inbox = append(o.inbox, fmt.Sprintf("%sDE %s 171234ZMAY24 = %s %s = K", to, s.call, string(m.KeyId), groupsOf(m.CipherText, f.GS)))
			}
		case op < 8: // encipher the message object directly, then again
			m := newMsg(s.k, genText(r, 1+r.IntN(f.KL)), o.call)
			log("station %d enciphers a message object twice", i)
			if err := m.Encipher(); err != nil {
				continue
			}
			s.sent(c, m, keysBefore, before, fmt.Sprintf("step %d station %d object", step, i))
			sentCount++
			// the same object must not be enciphered with the same key again
			before, keysBefore = usedIDs(s.k), keyMap(s.k)
			if err := m.Encipher(); err == nil {
				s.sent(c, m, keysBefore, before, fmt.Sprintf("step %d station %d object again", step, i))
			} else if n := newly(usedIDs(s.k), before); len(n) > 0 {
				c.Fatal("marks-lost", "enciphering an enciphered message again cleared the used marks of [%s]", sortedKeys(n))
			}
		case op < 11: // receive
			if len(s.inbox) == 0 {
				continue
			}
			t := s.inbox[0]
			s.inbox = s.inbox[1:]
			log("station %d receives", i)
			m, err := s.k.NewTextMessage(t)
			if err != nil {
				c.Fatal("receive", "receiving %q failed: %v", t, err)
			}
			after := usedIDs(s.k)
			if n := newly(after, before); len(n) > 0 {
				c.Fatal("marks-lost", "receiving cleared the used marks of [%s]", sortedKeys(n))
			}
			want := map[string]bool{}
			if len(m.KeyId) > 0 {
				d, err := refDecipher(keysBefore, f.GS, string(m.KeyId), m.CipherText)
				if err != nil {
					c.Fatal("undecodable", "received message decodes to nothing: %v", err)
				}
				want = newly(before, setOf(d.Chain))
				c.Count("received", 1)
			}
			if n := newly(before, after); sortedKeys(n) != sortedKeys(want) {
				c.Fatal("marks-decipher", "receiving marked [%s], the message is chained over [%s] (not yet used before)", sortedKeys(n), sortedKeys(want))
			}
		case op < 12:
			log("station %d lists its messages", i)
			s.k.SummaryOfMessages(allMsg)
			s.k.SummaryOfKeys(all)
			if n := newly(usedIDs(s.k), before); len(n) > 0 {
				c.Fatal("marks-lost", "listing cleared the used marks of [%s]", sortedKeys(n))
			}
		case op < 13:
			if len(s.k.Messages) > 0 {
				id := string(s.k.Messages[r.IntN(len(s.k.Messages))].Id)
				log("station %d deletes message %s", i, id)
				s.k.DeleteMessageByString(id)
			}
			if n := newly(usedIDs(s.k), before); len(n) > 0 {
				c.Fatal("marks-lost", "deleting a message cleared the used marks of [%s]", sortedKeys(n))
			}
		case op < 14:
			if len(s.k.Keys) > 3 && r.IntN(3) == 0 {
				id := string(s.k.Keys[r.IntN(len(s.k.Keys))].Id)
				log("station %d deletes key %s", i, id)
				s.k.DeleteKeyByString(id)
				delete(before, id)
				if n := newly(usedIDs(s.k), before); len(n) > 0 {
					c.Fatal("marks-lost", "deleting key %s cleared the used marks of [%s]", id, sortedKeys(n))
				}
			}
		case op < 15 && r.IntN(2) == 0 && len(s.k.Keys) > 0:
			key := &s.k.Keys[r.IntN(len(s.k.Keys))]
			key.Compromised = !key.Compromised
			log("station %d marks key %s compromised=%v", i, key.IdString(), key.Compromised)
		case op < 15:
			log("station %d generates a key", i)
			s.k.GenerateKeys(1, nil, pick(r, "", o.call))
			if n := newly(usedIDs(s.k), before); len(n) > 0 {
				c.Fatal("marks-lost", "generating a key cleared the used marks of [%s]", sortedKeys(n))
			}
		case op < 16:
			file := c.Path(fmt.Sprintf("export%d", step))
			log("station %d exports to export%d", i, step)
			e := s.k.ExportKeys(all, k431.WithPersistence(file))
			if err := e.Save(); err != nil {
				c.Fatal("export", "export failed: %v", err)
			}
			e.Wipe()
			exports = append(exports, struct{ file, pfk string }{file, s.pfk})
		case op < 18:
			if len(exports) == 0 {
				continue
			}
			e := exports[r.IntN(len(exports))]
			overwrite := r.IntN(5) == 0
			log("station %d imports %s overwrite=%v", i, e.file[strings.LastIndex(e.file, "/")+1:], overwrite)
			if _, err := s.k.ImportKeys(all, k431.WithPersistence(e.file), k431.WithPFKString(e.pfk), k431.WithOverwriteExistingKeysOnImport(overwrite)); err != nil {
				c.Fatal("import", "import failed: %v", err)
			}
			c.Count("imported", 1)
			for x := range s.k.Keys {
				key := &s.k.Keys[x]
				id := string(key.Id)
				_, held := keysBefore[id]
				if (!held || overwrite) && !key.Used {
					delete(s.spent, id+":"+string(key.Runes)) // a fresh copy, as requested
				} else if held && !overwrite && before[id] && !key.Used {
					c.Fatal("import-cleared-mark", "importing without overwriting cleared the used mark of key %s", id)
				}
			}
		default:
			log("station %d saves and reloads", i)
			s.reload(c)
		}
	}
	if sentCount >= 3 {
		c.Distinct(ops)
	}
	if c.Idx < 50 {
		c.Sample(ops)
	}
}

// c04Marks deciphers message objects, from others, from the station itself or
// from nobody, with any marks on the keys; the keys of the chain and no others
// must be marked, also a last one that carries nothing.
func c04Marks(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 4, 3, 6, 8), 20 + r.IntN(30)}
	cs := genCalls(r, 3)
	k := cipherStation(cs[0], f)
	for i := 3 + r.IntN(8); i > 0; i-- {
		addKey(r, k, subset(r, cs[1:])...)
	}
	var chain []string
	m := newMsg(k, nil, subset(r, cs[1:])...)
	m.From = []rune(pick(r, cs[0], cs[0], cs[1], "", strings.ToLower(cs[0])))
	if r.IntN(3) == 0 { // written by hand, the last key enciphers nothing or padding only
		n := 2 + r.IntN(len(k.Keys)-1)
		nothing := r.IntN(4) == 0 // no text at all
		if nothing {
			n = 1 + r.IntN(len(k.Keys))
		}
		order := r.Perm(len(k.Keys))[:n]
		for i, x := range order {
			key, enc := &k.Keys[x], []rune(nil)
			chain = append(chain, string(key.Id))
			if i < n-1 {
				for j := 1 + r.IntN(6); j > 0 && !nothing; j-- {
					enc = append(enc, rune('A'+r.IntN(15)))
				}
				enc = append(append(enc, 'Z', 'Y'), k.Keys[order[i+1]].Id...)
			} else {
				j := pick(r, 0, 0, 1, 2, 3)
				if n == 1 {
					j = f.GS + r.IntN(4)
				}
				for ; j > 0; j-- {
					enc = append(enc, 'Z')
				}
				if nothing {
					c.Count("no_text", 1)
				}
				if len(enc) == 0 {
					c.Count("empty_tail", 1)
				}
			}
			for j, e := range enc {
				m.CipherText = append(m.CipherText, rune('A'+refTri(int(key.Runes[j]-'A'), int(e-'A'))))
			}
		}
		m.KeyId = []rune(chain[0])
	} else {
		var keys []refKey
		for _, x := range r.Perm(len(k.Keys)) {
			keys = append(keys, refKey{string(k.Keys[x].Id), k.Keys[x].Runes})
		}
		cipher, ch, ok := refEncipher(r, genText(r, 1+r.IntN(2*f.KL)), keys, f.GS, pick(r, 0.0, 0.3))
		if !ok {
			return
		}
		m.KeyId, m.CipherText, chain = []rune(ch[0]), cipher, ch
	}
	for i := range k.Keys {
		k.Keys[i].Used = r.IntN(4) == 0
		k.Keys[i].Compromised = r.IntN(4) == 0
	}
	before := usedIDs(k)
	c.Note("chain", chain)
	c.Note("from", string(m.From))
	if r.IntN(2) == 0 {
		if err := m.Decipher(); err != nil {
			c.Fatal("marks-refused", "a message over %v does not decipher: %v", chain, err)
		}
	} else {
		m.PlainText = []rune(string(m.KeyId) + " " + groupsOf(m.CipherText, f.GS))
		m.KeyId, m.CipherText = nil, nil
		if err := m.TryDecipherPlainText(); err != nil {
			c.Fatal("marks-refused", "a message over %v does not decipher: %v", chain, err)
		}
	}
	want := setOf(chain)
	for id := range before {
		want[id] = true
	}
	if got := usedIDs(k); sortedKeys(got) != sortedKeys(want) {
		c.Fatal("marks-direct", "deciphering a message from %q over %v: used keys [%s] became [%s]", string(m.From), chain, sortedKeys(before), sortedKeys(got))
	}
	if string(m.From) == cs[0] {
		c.Count("own_deciphered", 1)
	}
	c.Distinct(chain, sortedKeys(before))
}

// c04Drain sends until the keys run out; every key may be used once only.
func c04Drain(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 4, 3, 6), 20 + r.IntN(30)}
	cs := genCalls(r, 3)
	s := &useStation{k: cipherStation(cs[0], f), call: cs[0], spent: map[string]string{}}
	nk := 2 + r.IntN(9)
	for i := 0; i < nk; i++ {
		switch r.IntN(3) {
		case 0:
			addKey(r, s.k)
		case 1:
			addKey(r, s.k, cs[1])
		case 2:
			addKey(r, s.k, cs[1], cs[2])
		}
	}
	n := 0
	for fails := 0; fails < 12; {
		before, keys := usedIDs(s.k), keyMap(s.k)
		m := newMsg(s.k, genText(r, 1+r.IntN(pick(r, 3, 30, 120))))
		switch r.IntN(3) {
		case 0:
			m.Recipients = calls(cs[1])
		case 1:
			m.Recipients = calls(cs[1], cs[2])
		}
		if r.IntN(3) == 0 {
			m.KeyId = k431.RuneCopy(&s.k.Keys[r.IntN(nk)].Id)
		}
		if err := m.Encipher(); err != nil {
			fails++
			if d := newly(usedIDs(s.k), before); len(d) > 0 {
				c.Fatal("marks-lost", "failing to encipher cleared the used marks of [%s]: %v", sortedKeys(d), err)
			}
			c.Count("refused", 1)
			continue
		}
		s.sent(c, m, keys, before, fmt.Sprintf("message %d", n))
		if len(m.KeyId) > 0 && r.IntN(2) == 0 {
			// deciphering one's own message must not free its keys
			if err := m.Decipher(); err != nil {
				c.Fatal("own", "own message does not decipher: %v", err)
			}
			if d := newly(usedIDs(s.k), before); len(d) > 0 {
				c.Fatal("marks-lost", "deciphering cleared used marks of [%s]", sortedKeys(d))
			}
		}
		n++
	}
	c.Distinct(f, nk, n, sortedKeys(usedIDs(s.k)))
	c.Count("drained_messages", n)
}

// ------------------------------------------------------------------- C05 ---

func init() {
	register(&Prop{ID: "C05",
		Rule:        "Random stores of 1-25 keys with every mixture of used, compromised, keepers (none, some, all), odd id sizes, and sequences of messages with 0-3 recipients, automatic or named keys, short or spanning several keys. The chain of each cipher text (independent decoder) is judged against the marks and keepers before the operation. Non-trivial: distinct (store, recipients, chain) or refusal because no eligible key was left.",
		Assumptions: []string{"a key named by the user is exempt from the keeper rule, the keys it changes to are not"},
		Need:        []string{"chains", "chains_multi", "many_recipients", "to_self", "other_length", "refused_none_eligible", "named_ok", "named_refused", "findkey"},
		Sections: []Section{
			{Name: "store", Quick: 12000, Thorough: 300000, Run: c05Store},
		}})
}

func eligible(k *keySnap, keepers map[string]bool, nKeepers int, gs int, recipients []string) bool {
	if k.Used || k.Compromised || len([]rune(k.ID)) != gs {
		return false
	}
	if len(recipients) == 0 {
		return nKeepers == 0
	}
	for _, r := range recipients {
		if !keepers[r] {
			return false
		}
	}
	return true
}

func c05Store(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 4, 3, 6), 20 + r.IntN(40)}
	nets := pick(r, 5, 5, 5, 5, 5, 3, 10, 20, 40) // stations on the net
	cs := genCalls(r, nets)
	me, others := cs[0], cs[1:]
	k := cipherStation(me, f)
	keepers := map[string]map[string]bool{}
	pUsed, pComp, pOdd := pick(r, 0.0, 0.3, 0.7), pick(r, 0.0, 0.3, 0.7), pick(r, 0.0, 0.2)
	for i := 1 + r.IntN(25); i > 0; i-- {
		idLen := f.GS
		if r.Float64() < pOdd {
			idLen = pick(r, f.GS-1, f.GS+1, f.GS*2)
		}
		var kp []string
		switch r.IntN(4) {
		case 0:
		case 1:
			kp = append(kp, others...)
		default:
			most := nets > 5 && r.IntN(3) > 0 // all but some
			for _, o := range others {
				if most && r.IntN(nets) > 0 || !most && r.IntN(2) == 0 {
					kp = append(kp, o)
				}
			}
			// near misses
			if r.IntN(3) == 0 {
				kp = append(kp, others[0]+"X")
			}
			if r.IntN(6) == 0 {
				kp = append(kp, "")
			}
			if r.IntN(3) == 0 {
				kp = append(kp, me)
			}
		}
		r.Shuffle(len(kp), func(i, j int) { kp[i], kp[j] = kp[j], kp[i] })
		key := addKeyLen(r, k, idLen, roundUp(f.KL, f.GS), kp...)
		key.Used = r.Float64() < pUsed
		key.Compromised = r.Float64() < pComp
		keepers[string(key.Id)] = setOf(kp)
		if r.IntN(10) == 0 { // expired keys are still eligible, but it must not matter
			key.Expires.Time = pick(r, fixedDTG().AddDate(-10, 0, 0), time.Time{}, time.Unix(0, 0))
		}
	}
	if r.IntN(3) == 0 { // the length of keys to be generated, not of those at hand
		k.KeyLength += pick(r, f.GS, 5*f.GS, 300, -f.GS)
		c.Count("other_length", 1)
	}
	nKeepers := func(id string) int {
		for i := range k.Keys {
			if string(k.Keys[i].Id) == id {
				return len(k.Keys[i].Keepers)
			}
		}
		return 0
	}
	for msgs := 1 + r.IntN(4); msgs > 0; msgs-- {
		s := snapOf(k)
		keys := keyMap(k)
		var recipients []string
		for i := r.IntN(4); i > 0; i-- {
			recipients = append(recipients, pick(r, others...))
		}
		if nets > 5 && r.IntN(2) == 0 {
			recipients = subset(r, others)
			r.Shuffle(len(recipients), func(i, j int) { recipients[i], recipients[j] = recipients[j], recipients[i] })
			if len(recipients) > 8 {
				c.Count("many_recipients", 1)
			}
		}
		if r.IntN(12) == 0 {
			recipients = append(recipients, "NOBODY")
		}
		if r.IntN(8) == 0 { // the station itself, a keeper like any other
			recipients = append(recipients, me)
			c.Count("to_self", 1)
		}
		elig := map[string]bool{}
		for i := range s.Keys {
			id := s.Keys[i].ID
			if eligible(&s.Keys[i], keepers[id], nKeepers(id), f.GS, recipients) {
				elig[id] = true
			}
		}
		if fk := k.FindKey(calls(recipients...)...); fk == nil {
			c.Check(len(elig) == 0, "findkey-nil", "no key found for %v although [%s] are eligible", recipients, sortedKeys(elig))
		} else {
			c.Check(elig[string(fk.Id)], "findkey-ineligible", "key %s found for %v is not eligible: %+v", string(fk.Id), recipients, snapKey(fk))
			c.Count("findkey", 1)
		}
		named := ""
		if r.IntN(3) == 0 {
			named = string(k.Keys[r.IntN(len(k.Keys))].Id)
			if r.IntN(8) == 0 {
				named = string(letters(r, f.GS))
			}
		}
		n := 1 + r.IntN(8)
		if r.IntN(2) == 0 {
			n = 1 + r.IntN(4*f.KL)
		}
		var m *k431.Message
		var err error
		if r.IntN(2) == 0 {
			m = newMsg(k, genText(r, n), recipients...)
			m.KeyId = []rune(named)
			err = m.Encipher()
		} else {
			args := []string{fmt.Sprintf("%s DE %s 171234ZMAY24 = %s = K", strings.Join(recipients, " "), me, radioText(r, n))}
			if named != "" {
				args = append(args, pick(r, named, named, strings.ToLower(named), " "+named, named+"\n"))
			}
			m, err = k.NewTextMessage(args...)
		}
		c.Note("recipients", recipients)
		c.Note("named", named)
		c.Note("store", fmt.Sprintf("%+v", s.Keys))
		if err != nil {
			// Enough keys left for even the worst text of that length.
			enough := len(elig) >= needKeys(n, f)
			if named != "" {
				if ks := s.key(named); ks != nil && !ks.Used && !ks.Compromised && len([]rune(named)) == f.GS && enough {
					c.Fatal("named-refused", "the named key %s exists, is unused and not compromised, and %d other keys are eligible for %d characters, but: %v", named, len(elig), n, err)
				}
				c.Count("named_refused", 1)
			} else if enough {
				c.Fatal("refused", "%d keys are eligible for %v, more than %d characters need, but: %v", len(elig), recipients, n, err)
			} else if len(elig) == 0 {
				c.Count("refused_none_eligible", 1)
				c.Distinct("refused", fmt.Sprint(s.Keys), recipients)
			}
			continue
		}
		if named == "" && len(elig) == 0 {
			c.Fatal("fell-back", "no key is eligible for %v, but the message was enciphered with %s", recipients, string(m.KeyId))
		}
		d, derr := refDecipher(keys, f.GS, string(m.KeyId), m.CipherText)
		if derr != nil {
			c.Fatal("undecodable", "cipher text can not be decoded: %v", derr)
		}
		for i, id := range d.Chain {
			ks := s.key(id)
			if i == 0 && named != "" {
				if id != named {
					c.Fatal("named-not-used", "the user named key %s, the message is enciphered with %s", named, id)
				}
				if ks.Used || ks.Compromised {
					c.Fatal("named-bad", "the named key %s was used=%v compromised=%v", id, ks.Used, ks.Compromised)
				}
				c.Count("named_ok", 1)
				continue
			}
			if !elig[id] {
				c.Fatal("ineligible", "key %d of the message is %s, which is not eligible for %v: %+v keepers %v", i+1, id, recipients, *ks, sortedKeys(keepers[id]))
			}
		}
		if len(d.Chain) > 1 {
			c.Count("chains_multi", 1)
		}
		c.Count("chains", 1)
		c.Distinct(fmt.Sprint(s.Keys), recipients, d.Chain)
		if c.Idx < 100 && len(s.Keys) < 6 {
			c.Sample(map[string]any{"store": fmt.Sprintf("%+v", s.Keys), "recipients": recipients, "named": named, "chain": d.Chain})
		}
		// change marks between messages
		if r.IntN(2) == 0 {
			x := &k.Keys[r.IntN(len(k.Keys))]
			if r.IntN(2) == 0 {
				x.Compromised = !x.Compromised
			} else {
				u := r.IntN(2) == 0
				if err := k.MarkKeyUsed([]rune(strings.ToLower(string(x.Id))), u); err != nil || x.Used != u {
					c.Fatal("markkeyused", "MarkKeyUsed(%s,%v): %v, used=%v", string(x.Id), u, err, x.Used)
				}
			}
		}
	}
}

// ------------------------------------------------------------------- C06 ---

func init() {
	register(&Prop{ID: "C06",
		Rule:        "Failures after chaining 2-140 keys (mostly around 20 and 40). One failing encipherment per case: an unsupported rune at any position (including letters whose case folding leads into the alphabet), no eligible key, keys running out at the n-th key change, bad or used or compromised or unknown named key, damaged key material (non-letters, truncated, empty), empty text; through the message object and through a radiogram, on a store that also holds other keys and messages. The deep snapshot of the station before and after is compared. Non-trivial: distinct (kind, position, configuration) that returned an error.",
		Assumptions: []string{"supported characters are those of the printed legend in upper and lower case"},
		Need:        []string{"unsupported", "none_eligible", "ran_out", "bad_named", "damaged", "empty", "long_failures"},
		Sections: []Section{
			{Name: "fail", Quick: 12000, Thorough: 300000, Run: c06Fail},
			{Name: "long", Quick: 600, Thorough: 15000, Run: c06Long},
			{Name: "runes", Quick: 128, Thorough: 1100, Run: c06Runes},
		}})
}

// Among them are letters whose case folding or compatibility form leads into
// the alphabet: long s, Kelvin, Angstrom, dotless i.
var unsupportedRunes = func() (out []rune) {
	for _, x := range "!\"#$%&'()*;<>@[]^_`{|}~\u00a4\u00e9\u00c9\u00f1\u00d1\u00df\u0131\u0130\u20ac\u00a7\u00bd\u00e6\u00f8\u00c6\u00d8\u00fc\u00dc\u00ff" +
		"\u017f\u212a\u212b\u0391\u0410\u01c5\u01c6\ufb01\u4e2d\U0001f600\u0000\u0001\u007f\u0085\u00ad\ufeff\ufffd\u2398\u2195\u2192\uff21\uff41\u02da\u030a" {
		if !refSupported(x) {
			out = append(out, x)
		}
	}
	return
}()

// populate adds other keys and messages to a station.
func populate(r *rand.Rand, k *k431.Krypto431, others []string) {
	for i := r.IntN(4); i > 0; i-- {
		key := addKey(r, k, others...)
		key.Used, key.Compromised = true, r.IntN(2) == 0
	}
	for i := r.IntN(3); i > 0; i-- {
		m := k431.Message{Id: k.NewUniqueMessageId(), From: []rune(others[0]), Recipients: calls(string(k.CallSign)), PlainText: genText(r, 20),
			CipherText: letters(r, 20), KeyId: letters(r, k.GroupSize), Radiogram: genText(r, 30), Binary: []byte("binary")}
		m.DTG.Time = fixedDTG()
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
}

func c06Fail(c *Case) {
	r := c.R
	f := genCfg(r)
	cs := genCalls(r, 3)
	k := cipherStation(cs[0], f)
	populate(r, k, cs[1:])
	var recipients []string
	if r.IntN(3) > 0 {
		recipients = cs[1 : 2+r.IntN(2)]
	}
	n := genLen(r, f)
	for n > 1 && needKeys(n, f)+6 > maxKeysFor(f.GS) {
		n /= 2
	}
	text := genText(r, n)
	kind := pick(r, "unsupported", "none_eligible", "ran_out", "bad_named", "damaged", "empty")
	named, mustFail := "", true
	enough := min(needKeys(n, f), maxKeysFor(f.GS)-6)
	switch kind {
	case "unsupported":
		fillKeys(r, k, f, enough, r.IntN(3) == 0, recipients...)
		p := r.IntN(len(text) + 1)
		text = append(text[:p:p], append([]rune{pick(r, unsupportedRunes...)}, text[p:]...)...)
		c.Note("position", p)
		if r.IntN(4) == 0 {
			named = string(k.Keys[len(k.Keys)-1].Id)
		}
	case "none_eligible":
		for i := r.IntN(5); i > 0; i-- {
			key := addKey(r, k, recipients...)
			switch r.IntN(4) {
			case 0:
				key.Used = true
			case 1:
				key.Compromised = true
			case 2:
				if len(recipients) > 0 {
					key.Keepers = key.Keepers[1:]
				} else {
					key.Keepers = calls(cs[1])
				}
			case 3:
				key.Id = letters(r, f.GS+1)
			}
		}
	case "ran_out":
		// Learn how many keys the text takes from an identical station.
		t := cipherStation(cs[0], f)
		fillKeys(r, t, f, enough, false, recipients...)
		m := newMsg(t, text, recipients...)
		if m.Encipher() != nil {
			return
		}
		need := len(usedIDs(t))
		if need < 2 {
			return
		}
		for i, have := 0, 1+r.IntN(need-1); i < have; i++ {
			if k.ContainsKeyId(&t.Keys[i].Id) {
				return
			}
			copyKey(k, &t.Keys[i], recipients...)
		}
		c.Note("keys_needed", need)
	case "bad_named":
		fillKeys(r, k, f, enough, false, recipients...)
		key := &k.Keys[len(k.Keys)-1]
		named = string(key.Id)
		switch r.IntN(4) {
		case 0:
			key.Used = true
		case 1:
			key.Compromised = true
		case 2:
			for named == string(key.Id) || k.ContainsKeyId(k431.RunePtr([]rune(named))) {
				if f.GS < 2 {
					return
				}
				named = string(letters(r, f.GS))
			}
		case 3:
			named = pick(r, named+"A", named[1:]+"", string(letters(r, f.GS+2)), "å")
			if named == "" {
				return
			}
			if len([]rune(named)) == f.GS {
				named += "XX"
			}
		}
	case "damaged":
		mustFail = false
		fillKeys(r, k, f, enough, false, recipients...)
		for i := range k.Keys {
			if k.Keys[i].Used || r.IntN(2) == 0 {
				continue
			}
			switch r.IntN(4) {
			case 0:
				k.Keys[i].Runes[r.IntN(len(k.Keys[i].Runes))] = pick(r, 0, -1, 'a', 'Å', '[', '@', 0x10FFFF)
			case 1:
				k.Keys[i].Runes = k.Keys[i].Runes[:r.IntN(len(k.Keys[i].Runes))]
			case 2:
				k.Keys[i].Runes = nil
			case 3:
				k.Keys[i].Runes = k.Keys[i].Runes[:min(len(k.Keys[i].Runes), r.IntN(f.GS+6))]
			}
		}
	case "empty":
		fillKeys(r, k, f, 2, false, recipients...)
		text = nil
	}
	c.Note("kind", kind)
	c.Note("group_size", f.GS)
	c.Note("key_length", f.KL)
	c.Note("text", string(text))
	before := snapOf(k)
	keys := keyMap(k)
	var err error
	var m *k431.Message
	direct := r.IntN(2) == 0
	if direct {
		m = newMsg(k, text, recipients...)
		m.KeyId = []rune(named)
		err = m.Encipher()
	} else {
		s := string(text)
		if strings.TrimSpace(s) != s || radioUnsafe(s) || strings.ContainsAny(s, "\x00\u0085\ufeff") {
			s = "A" + strings.NewReplacer("=", "-", " ", ".", "\u0085", "!", "\x00", "!").Replace(s) + "B"
			if kind == "empty" {
				s = ""
			}
		}
		if kind == "ran_out" || radioUnsafe(s) || strings.TrimSpace(s) != s {
			direct = true
			m = newMsg(k, text, recipients...)
			m.KeyId = []rune(named)
			err = m.Encipher()
		} else {
			args := []string{fmt.Sprintf("%s DE %s 171234ZMAY24 = %s = K", strings.Join(recipients, " "), cs[0], s)}
			if named != "" {
				args = append(args, named)
			}
			c.Note("radiogram", args[0])
			m, err = k.NewTextMessage(args...)
		}
	}
	if err == nil {
		if mustFail {
			c.Fatal("no-error:"+kind, "enciphering succeeded although it can not (%s): key %s cipher %q", kind, string(m.KeyId), string(m.CipherText))
		}
		if _, derr := refDecipher(keys, f.GS, string(m.KeyId), m.CipherText); derr != nil {
			c.Fatal("success-undecodable", "enciphering with damaged keys succeeded with undecodable cipher text: %v", derr)
		}
		return
	}
	if d := diff(before, snapOf(k)); d != "" {
		c.Fatal("station-changed:"+kind, "after the error %q the station is not as before: %s", err, d)
	}
	if direct {
		c.Check(len(m.CipherText) == 0, "cipher-left:"+kind, "after the error %q the message still has cipher text %q", err, string(m.CipherText))
		c.Check(string(m.PlainText) == string(text), "plain-changed:"+kind, "after the error %q the plain text changed: %s", err, firstDiff(text, m.PlainText))
	}
	c.Count(kind, 1)
	c.Distinct(kind, f, string(text), named)
	if c.Idx < 100 {
		c.Sample(map[string]any{"kind": kind, "config": f, "text": shortText(text), "named": named, "error": err.Error()})
	}
}

// c06Runes walks over the code points: each is either in the alphabet and
// round-trips, or is refused with an error and nothing changes.
func c06Runes(c *Case) {
	f := cfg{5, 25}
	k := cipherStation("AA", f)
	limit := rune(0x3000)
	if c.Thorough {
		limit = 0x20000
	}
	step := rune(128)
	if c.Thorough {
		step = 1100
	}
	n := 0
	for x := rune(c.Idx); x < limit; x += step {
		k.Keys = nil
		fillKeys(c.R, k, f, 2, false)
		before := snapOf(k)
		m := newMsg(k, []rune{'A', x, 'b'})
		err := m.Encipher()
		if refSupported(x) {
			c.Must(err == nil, "alphabet", "supported character %q is refused: %v", x, err)
			continue
		}
		c.Must(err != nil, "no-error:rune", "unsupported character %q (U+%04X) was enciphered", x, x)
		if d := diff(before, snapOf(k)); d != "" || len(m.CipherText) > 0 {
			c.Fatal("station-changed:rune", "refusing %q changed the station: %s", x, d)
		}
		n++
	}
	c.Eval(n)
	c.Count("unsupported", n)
	c.Distinct(c.Idx)
}

// ------------------------------------------------------------------- C07 ---

func init() {
	register(&Prop{ID: "C07",
		Rule:        "Texts with every combination of filler and tail pattern slid over the end of the first key, one letter at a time, for group sizes 1-15 and key lengths 20-350; random texts; stores where eligible keys are interleaved with ineligible ones; then exactly as many keys as were used. Judged with the independent decoder: success, A-Z only, whole groups, letters per key within its length, every consumed key carries text. Non-trivial: distinct (configuration, text) that was enciphered.",
		Assumptions: []string{"key length leaves room for one character and a key change (at least group size + 7)"},
		Need:        []string{"enciphered", "multi_key", "exact_supply", "ended_within_2_of_key_end"},
		Sections: []Section{
			{Name: "slide", Quick: 1500, Thorough: 30000, Run: c07Slide},
			{Name: "random", Quick: 6000, Thorough: 150000, Run: c07Random},
		}})
}

func c07Check(c *Case, k *k431.Krypto431, f cfg, text []rune, recipients []string) int {
	keys := keyMap(k)
	before := usedIDs(k)
	c.Note("text", string(text))
	c.Note("group_size", f.GS)
	c.Note("key_length", f.KL)
	m := newMsg(k, text, recipients...)
	if err := m.Encipher(); err != nil {
		c.Fatal("refused", "%d characters were not enciphered although there are enough keys: %v", len(text), err)
	}
	for i, x := range m.CipherText {
		if x < 'A' || x > 'Z' {
			c.Fatal("not-a-letter", "cipher letter %d is %q", i, x)
		}
	}
	if len(m.CipherText)%f.GS != 0 || len(m.CipherText) == 0 {
		c.Fatal("not-whole-groups", "the cipher text has %d letters, group size %d", len(m.CipherText), f.GS)
	}
	d, err := refDecipher(keys, f.GS, string(m.KeyId), m.CipherText)
	if err != nil {
		c.Fatal("key-overrun", "%v", err)
	}
	if string(d.Text) != string(text) {
		c.Fatal("text-lost", "%s", firstDiff(text, d.Text))
	}
	for i, n := range d.Chars {
		if n == 0 {
			c.Fatal("empty-key", "key %d of %d carries none of the text", i+1, len(d.Chars))
		}
	}
	if n := newly(before, usedIDs(k)); len(n) != len(d.Chain) {
		c.Fatal("wasted-key", "%d keys were consumed, %d carry text", len(n), len(d.Chain))
	}
	last := len(d.Letters) - 1
	if len(keys[d.Chain[last]])-d.Letters[last] <= 2 {
		c.Count("ended_within_2_of_key_end", 1)
	}
	if len(d.Chain) > 1 {
		c.Count("multi_key", 1)
	}
	c.Count("enciphered", 1)
	c.Distinct(f, string(text))
	return len(d.Chain)
}

func c07Slide(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 3, 2, 1, 6, 7, 8, 10, 15), 0}
	f.KL = max(20, f.GS+7) + r.IntN(40)
	if r.IntN(10) == 0 {
		f.KL = 350
	}
	fill, pat := slidePattern(r)
	a := cipherStation("AA", f)
	klen := roundUp(f.KL, f.GS)
	n := 0
	cost := 1
	for l := max(0, klen/cost-f.GS-2-14); l <= klen+3; l++ {
		t := append([]rune(strings.Repeat(string(fill), l)), pat...)
		a.Keys = nil
		fillKeys(r, a, f, min(6, maxKeysFor(f.GS)), false)
		c07Check(c, a, f, t, nil)
		n++
	}
	c.Eval(n)
}

func c07Random(c *Case) {
	r := c.R
	f := genCfg(r)
	n := genLen(r, f)
	for n > 1 && 3*needKeys(n, f) > maxKeysFor(f.GS) {
		n /= 2
	}
	text := genText(r, n)
	cs := genCalls(r, 3)
	k := cipherStation(cs[0], f)
	var recipients []string
	if r.IntN(2) == 0 {
		recipients = cs[1 : 2+r.IntN(2)]
	}
	mixed := r.IntN(3) == 0
	junk := f.GS >= 3 && r.IntN(2) == 0
	for i := min(needKeys(n, f)*2, maxKeysFor(f.GS)); i > 0; i-- {
		for junk && r.IntN(2) == 0 {
			key := addKey(r, k, recipients...)
			switch r.IntN(3) {
			case 0:
				key.Used = true
			case 1:
				key.Compromised = true
			case 2:
				if len(recipients) == 0 {
					key.Keepers = calls("XX")
				} else {
					key.Keepers = nil
				}
			}
		}
		fillKeys(r, k, f, 1, mixed, append(recipients[:len(recipients):len(recipients)], cs[:r.IntN(2)*min(1, len(recipients))]...)...)
	}
	used := c07Check(c, k, f, text, recipients)
	if c.Idx < 100 {
		c.Sample(map[string]any{"config": f, "text": shortText(text), "keys_used": used})
	}
	// The same text with exactly the keys it took.
	ex := cipherStation(cs[0], f)
	before := usedIDs(k)
	_ = before
	for i := range k.Keys {
		key := &k.Keys[i]
		if len(ex.Keys) < used && key.Used && !key.Compromised && chainHas(k, key, recipients) {
			kp := k431.RunesToStrings(&key.Keepers)
			copyKey(ex, key, kp...)
		}
	}
	if len(ex.Keys) == used && !junk {
		m := newMsg(ex, text, recipients...)
		if err := m.Encipher(); err != nil {
			c.Fatal("refused-exact", "the text takes %d keys, but with exactly those it is refused: %v", used, err)
		}
		c.Count("exact_supply", 1)
	}
}

func chainHas(k *k431.Krypto431, key *k431.Key, recipients []string) bool {
	if len(recipients) == 0 {
		return len(key.Keepers) == 0
	}
	for _, r := range recipients {
		found := false
		for _, kp := range key.Keepers {
			if string(kp) == r {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

var _ = os.Getpid
