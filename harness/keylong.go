package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	k431 "github.com/sa6mwa/krypto431"
)

// Messages over many keys: the number of keys of one message passes every
// preallocated capacity of the code (20 chunks) and gets to several hundred.

// chainLen is a number of keys, mostly around 20 and its multiples.
func chainLen(r *rand.Rand) int {
	switch r.IntN(6) {
	case 0:
		return 17 + r.IntN(8)
	case 1:
		return 36 + r.IntN(9)
	case 2:
		return 2 + r.IntN(16)
	case 3:
		return 60 + r.IntN(80)
	case 4:
		return 24 + r.IntN(12)
	}
	return 19 + r.IntN(4)
}

// longStations are two stations sharing n short keys, in different order.
func longStations(r *rand.Rand, n int) (a, b *k431.Krypto431, f cfg, cs []string) {
	f = cfg{pick(r, 5, 4, 3, 6), 20 + r.IntN(6)}
	cs = genCalls(r, 2)
	a, b = cipherStation(cs[0], f), cipherStation(cs[1], f)
	fillKeys(r, a, f, n, false, cs[1])
	for _, i := range r.Perm(n) {
		copyKey(b, &a.Keys[i], cs[0])
	}
	return
}

// textFor is a text that takes about n keys.
func textFor(r *rand.Rand, f cfg, n int) []rune {
	room := roundUp(f.KL, f.GS) - f.GS - 2
	per := 1
	t := genText(r, 40)
	switch r.IntN(3) {
	case 0:
		t, per = letters(r, 40), 1
	case 1:
		t, per = []rune("aBcD1eF2gHiJ"), 3
	default:
		per = 2
	}
	want := max(1, n*room/per)
	var out []rune
	for len(out) < want {
		out = append(out, t...)
	}
	return out[:want]
}

func c04Long(c *Case) {
	r := c.R
	want := chainLen(r)
	a, b, f, cs := longStations(r, want+10+r.IntN(want))
	s, o := &useStation{k: a, call: cs[0], spent: map[string]string{}}, &useStation{k: b, call: cs[1], spent: map[string]string{}}
	// some keys are spent already at either side
	for i := 0; i < r.IntN(6); i++ {
		a.Keys[r.IntN(len(a.Keys))].Used = true
		b.Keys[r.IntN(len(b.Keys))].Used = true
	}
	var cipher []rune
	var chain []string
	if r.IntN(3) == 0 { // a correspondent with another implementation
		keys := refKeysOf(b, r)
		keys = keys[:min(len(keys), want+5)]
		text := textFor(r, f, max(1, want/3))
		var ok bool
		if cipher, chain, ok = refEncipher(r, text, keys, f.GS, pick(r, 0, 0.5)); !ok {
			return
		}
	} else {
		before, keys := usedIDs(a), keyMap(a)
		m := newMsg(a, textFor(r, f, want), cs[1])
		if err := m.Encipher(); err != nil {
			c.Count("refused", 1)
			if n := newly(usedIDs(a), before); len(n) > 0 {
				c.Fatal("marks-lost", "failing to encipher cleared the used marks of [%s]: %v", sortedKeys(n), err)
			}
			return
		}
		chain = s.sent(c, m, keys, before, "long message")
		cipher = m.CipherText
		c.Max("longest_chain_sent", len(chain))
		if r.IntN(3) == 0 { // a copy of the sender's store from before the message
			for i := range a.Keys {
				a.Keys[i].Used = false
			}
			rx := &k431.Message{KeyId: []rune(chain[0]), CipherText: k431.RuneCopy(&cipher)}
			rx.SetInstance(a)
			if err := rx.Decipher(); err != nil {
				c.Fatal("own", "the sender can not decipher the message: %v", err)
			}
			if n := usedIDs(a); sortedKeys(n) != sortedKeys(setOf(chain)) {
				c.Fatal("marks-decipher", "deciphering marked [%s], the message is chained over [%s]", sortedKeys(n), sortedKeys(setOf(chain)))
			}
		}
	}
	c.Note("keys_in_message", len(chain))
	before := usedIDs(b)
	groups := groupsOf(cipher, f.GS)
	if r.IntN(2) == 0 {
		groups = strings.ReplaceAll(groups, " ", pick(r, " ", "\n", "  "))
	}
	m, err := b.NewTextMessage(fmt.Sprintf("%s DE %s 171234ZMAY24 = %s %s = K", cs[1], cs[0], chain[0], groups))
	if err != nil {
		c.Fatal("receive", "receiving failed: %v", err)
	}
	if string(m.KeyId) != chain[0] {
		return // taken for clear text: another property
	}
	after := usedIDs(b)
	if n, w := newly(before, after), newly(before, setOf(chain)); sortedKeys(n) != sortedKeys(w) {
		c.Fatal("marks-decipher", "receiving marked [%s], the message is chained over [%s] (not yet used before)", sortedKeys(n), sortedKeys(w))
	}
	if n := newly(after, before); len(n) > 0 {
		c.Fatal("marks-lost", "receiving cleared the used marks of [%s]", sortedKeys(n))
	}
	c.Count("received", 1)
	c.Max("longest_chain_received", len(chain))
	if len(chain) > 20 {
		c.Count("received_over_20_keys", 1)
	}
	c.Distinct(f, chain)
	// the receiver replies until the keys run out: none of the keys received with
	for _, id := range chain {
		o.spent[id+":"+string(keyMap(b)[id])] = "the received message"
	}
	for n, fails := 0, 0; fails < 2 && n < 60; n++ {
		before, keys := usedIDs(b), keyMap(b)
		m := newMsg(b, textFor(r, f, pick(r, 1, 3, 25)), cs[0])
		if err := m.Encipher(); err != nil {
			fails++
			if d := newly(usedIDs(b), before); len(d) > 0 {
				c.Fatal("marks-lost", "failing to encipher cleared the used marks of [%s]: %v", sortedKeys(d), err)
			}
			c.Count("refused", 1)
			continue
		}
		o.sent(c, m, keys, before, fmt.Sprintf("reply %d", n))
	}
}

// refKeysOf are the unused keys of a station in random order.
func refKeysOf(k *k431.Krypto431, r *rand.Rand) (out []refKey) {
	for _, i := range r.Perm(len(k.Keys)) {
		if !k.Keys[i].Used {
			out = append(out, refKey{string(k.Keys[i].Id), append([]rune(nil), k.Keys[i].Runes...)})
		}
	}
	return
}

// c06Long runs out of keys, or meets an unsupported character, after many keys.
func c06Long(c *Case) {
	r := c.R
	want := chainLen(r)
	a, _, f, cs := longStations(r, want)
	text := textFor(r, f, want*2+4)
	what := "keys run out"
	if r.IntN(2) == 0 {
		fillKeys(r, a, f, 3*want+10, false, cs[1])
		text = append(text[:len(text)*(1+r.IntN(9))/10], pick(r, unsupportedRunes...), 'A')
		what = "unsupported character"
	}
	for i := 0; i < r.IntN(5); i++ {
		a.Keys[r.IntN(len(a.Keys))].Used = true
	}
	populate(r, a, cs[1:])
	c.Note("keys", len(a.Keys))
	c.Note("what", what)
	c.Note("text", shortText(text))
	before := snapOf(a)
	m := newMsg(a, text, cs[1])
	err := m.Encipher()
	if err == nil {
		c.Fatal("must-fail", "enciphering succeeded although %s", what)
	}
	if d := diff(before, snapOf(a)); d != "" {
		c.Fatal("station-changed", "%s after many keys: %v, the station changed: %s", what, err, d)
	}
	if len(m.CipherText) > 0 {
		c.Fatal("cipher-left", "the failed message has cipher text")
	}
	c.Count("long_failures", 1)
	c.Distinct("long", f, want, what, len(text))
}
