package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	k431 "github.com/sa6mwa/krypto431"
)

// needKeys is more than enough keys for n characters at four letters each.
func needKeys(n int, f cfg) int {
	room := f.KL - f.GS - 2 - 4
	if room < 1 {
		room = 1
	}
	return (4*n)/room + 3
}

// fillKeys adds n eligible keys, with other lengths now and then.
func fillKeys(r *rand.Rand, k *k431.Krypto431, f cfg, n int, mixed bool, keepers ...string) {
	for i := 0; i < n; i++ {
		l := roundUp(f.KL, f.GS)
		if mixed && r.IntN(3) == 0 {
			l = max(f.GS+7, roundUp(f.GS+7+r.IntN(2*f.KL), f.GS))
		}
		addKeyLen(r, k, f.GS, l, keepers...)
	}
}

func maxKeysFor(gs int) int {
	switch gs {
	case 1:
		return 24
	case 2:
		return 300
	}
	return 100000
}

// cipherCase is one text with the stations that share its keys.
type cipherCase struct {
	f       cfg
	text    []rune
	a, b    *k431.Krypto431
	keepers []string
}

func genLen(r *rand.Rand, f cfg) int {
	room := max(1, f.KL-f.GS-2)
	switch r.IntN(7) {
	case 0:
		return 1 + r.IntN(8)
	case 1, 2: // around the end of the first key
		return max(1, room-6+r.IntN(13))
	case 3: // around half a key (two letters each) or a third
		return max(1, room/(2+r.IntN(3))-4+r.IntN(9))
	case 4: // several keys
		return 1 + r.IntN(6*room)
	case 5:
		return 1 + r.IntN(2*room)
	}
	return max(1, (1+r.IntN(4))*room-6+r.IntN(13))
}

func genCipherCase(r *rand.Rand) *cipherCase {
	cc := &cipherCase{f: genCfg(r)}
	n := genLen(r, cc.f)
	for n > 1 && needKeys(n, cc.f) > maxKeysFor(cc.f.GS) {
		n /= 2
	}
	cc.text = genText(r, n)
	cs := genCalls(r, 2+r.IntN(3))
	cc.a, cc.b = cipherStation(cs[0], cc.f), cipherStation(cs[1], cc.f)
	if r.IntN(3) > 0 {
		cc.keepers = cs[1:]
	}
	fillKeys(r, cc.a, cc.f, min(needKeys(n, cc.f), maxKeysFor(cc.f.GS)), r.IntN(3) == 0, cc.keepers...)
	perm := r.Perm(len(cc.a.Keys))
	for _, i := range perm {
		copyKey(cc.b, &cc.a.Keys[i], cs[0])
	}
	return cc
}

// materials are the keys without their used marks.
func materials(k *k431.Krypto431) snap {
	s := snapOf(k)
	for i := range s.Keys {
		s.Keys[i].Used = false
	}
	s.Messages = nil
	return s
}

func (cc *cipherCase) note(c *Case) {
	c.Note("group_size", cc.f.GS)
	c.Note("key_length", cc.f.KL)
	c.Note("text", string(cc.text))
	c.Note("recipients", strings.Join(cc.keepers, ","))
}

func shortText(t []rune) string {
	if len(t) > 60 {
		return fmt.Sprintf("%s... (%d characters)", string(t[:60]), len(t))
	}
	return string(t)
}

func firstDiff(a, b []rune) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("ends after %d of %d characters", len(b), len(a))
		}
		if a[i] != b[i] {
			return fmt.Sprintf("character %d is %q instead of %q", i, b[i], a[i])
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("%d extra characters %q", len(b)-len(a), string(b[len(a):]))
	}
	return "equal"
}

// ------------------------------------------------------------------- C02 ---

func init() {
	register(&Prop{ID: "C02",
		Rule:        "A text over the full alphabet (9 styles, lengths biased to the end of keys), a configuration (group size 1-15, key length 20-350, keys of mixed length), 0-3 recipients; plus every single character and every ordered pair of characters, and a text slid across the end of a key for many patterns. Station A enciphers, station B (own copies of the keys in another order) and A itself decipher. Non-trivial: distinct (configuration, text) whose deciphered text was compared character by character.",
		Assumptions: []string{"supported characters are those of the printed legend in upper and lower case", "key length leaves room for one character and a key change (at least group size + 7)"},
		Need:        []string{"deciphered_at_receiver", "deciphered_at_sender", "multi_key", "pairs"},
		Sections: []Section{
			{Name: "random", Quick: 9000, Thorough: 200000, Run: c02Random},
			{Name: "pairs", Quick: len(refAlphabet), Thorough: len(refAlphabet) * 6, Run: c02Pairs},
			{Name: "slide", Quick: 900, Thorough: 14000, Run: c02Slide},
			{Name: "long", Quick: 32, Thorough: 320, Run: c02Long},
			{Name: "radiogram", Quick: 800, Thorough: 20000, Run: c02Radiogram},
		}})
}

// roundTrip enciphers at a and deciphers at both stations.
func roundTrip(c *Case, cc *cipherCase) (chainLen int, ok bool) {
	matA, matB := materials(cc.a), materials(cc.b)
	m := newMsg(cc.a, cc.text, cc.keepers...)
	if err := m.Encipher(); err != nil {
		c.Fail("encipher-error", "enciphering %q failed: %v", shortText(cc.text), err)
		return 0, false
	}
	if string(m.PlainText) != string(cc.text) {
		c.Fail("plaintext-changed", "enciphering changed the plain text: %s", firstDiff(cc.text, m.PlainText))
	}
	cipher, keyID := string(m.CipherText), string(m.KeyId)
	n := len(usedIDs(cc.a))
	if d, err := refDecipher(keyMap(cc.a), cc.f.GS, keyID, m.CipherText); err == nil {
		n = len(d.Chain)
	}
	if n > 1 {
		c.Count("multi_key", 1)
	}
	c.Max("keys_in_one_message", n)
	rx := &k431.Message{KeyId: []rune(keyID), CipherText: []rune(cipher)}
	rx.SetInstance(cc.b)
	if err := rx.Decipher(); err != nil {
		c.Fail("decipher-error", "deciphering %q failed at the receiver: %v", shortText(cc.text), err)
		return n, false
	}
	if string(rx.PlainText) != string(cc.text) {
		c.Fail("roundtrip", "deciphered text differs: %s", firstDiff(cc.text, rx.PlainText))
		return n, false
	}
	if string(rx.CipherText) != cipher || string(rx.KeyId) != keyID {
		c.Fail("cipher-changed", "deciphering changed the cipher text or key id")
	}
	c.Count("deciphered_at_receiver", 1)
	m.PlainText = nil
	if err := m.Decipher(); err != nil || string(m.PlainText) != string(cc.text) || string(m.CipherText) != cipher {
		c.Fail("roundtrip-sender", "deciphering at the sender: %v, %s", err, firstDiff(cc.text, m.PlainText))
	} else {
		c.Count("deciphered_at_sender", 1)
	}
	// and once more, deciphering must be repeatable
	if c.R.IntN(4) == 0 {
		if err := rx.Decipher(); err != nil || string(rx.PlainText) != string(cc.text) {
			c.Fail("roundtrip-again", "deciphering a second time: %v, %s", err, firstDiff(cc.text, rx.PlainText))
		}
	}
	if d := diff(matA, materials(cc.a)); d != "" {
		c.Fail("keys-changed", "the sender's keys changed: %s", d)
	}
	if d := diff(matB, materials(cc.b)); d != "" {
		c.Fail("keys-changed", "the receiver's keys changed: %s", d)
	}
	return n, true
}

func c02Random(c *Case) {
	cc := genCipherCase(c.R)
	cc.note(c)
	n, ok := roundTrip(c, cc)
	c.Distinct(cc.f, string(cc.text))
	if ok && c.Idx < 200 {
		c.Sample(map[string]any{"config": cc.f, "text": shortText(cc.text), "keys_used": n})
	}
}

func c02Pairs(c *Case) {
	gs := []int{5, 4, 1, 7, 3, 2}[(c.Idx/len(refAlphabet))%6]
	f := cfg{gs, 20 + gs}
	x := refAlphabet[c.Idx%len(refAlphabet)]
	texts := [][]rune{{x}}
	for _, y := range refAlphabet {
		texts = append(texts, []rune{x, y}, []rune{y, x, y})
	}
	a, b := cipherStation("AA", f), cipherStation("BB", f)
	for _, t := range texts {
		a.Keys, b.Keys = nil, nil
		fillKeys(c.R, a, f, 3, false)
		for i := range a.Keys {
			copyKey(b, &a.Keys[i])
		}
		cc := &cipherCase{f: f, text: t, a: a, b: b}
		cc.note(c)
		roundTrip(c, cc)
		c.Distinct(gs, string(t))
		c.Count("pairs", 1)
	}
	c.Eval(len(texts))
}

// slidePatterns are appended after a filler whose length slides across the end
// of a key, so that every kind of switch falls on every position there.
func slidePattern(r *rand.Rand) (fill rune, pat []rune) {
	kinds := []rune("Aa1 QqÅåz?")
	fill = pick(r, 'A', 'a', '1', 'Å', 'b', ' ')
	for i := 2 + r.IntN(5); i > 0; i-- {
		pat = append(pat, pick(r, kinds...))
	}
	return
}

func c02Slide(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 3, 2, 1, 6, 7), 0}
	f.KL = max(20, f.GS+7) + r.IntN(30)
	fill, pat := slidePattern(r)
	a, b := cipherStation("AA", f), cipherStation("BB", f)
	klen := roundUp(f.KL, f.GS)
	n := 0
	for l := max(0, klen-f.GS-2-14); l <= klen+3; l++ {
		t := append([]rune(strings.Repeat(string(fill), l)), pat...)
		a.Keys, b.Keys = nil, nil
		fillKeys(r, a, f, min(6, maxKeysFor(f.GS)), false)
		for i := range a.Keys {
			copyKey(b, &a.Keys[i])
		}
		cc := &cipherCase{f: f, text: t, a: a, b: b}
		cc.note(c)
		roundTrip(c, cc)
		c.Distinct(f, string(t))
		n++
	}
	c.Eval(n)
	c.Count("slid", n)
}

func c02Long(c *Case) {
	r := c.R
	f := cfg{5, pick(r, 350, 100, 50, 30)}
	n := 4000 + r.IntN(8000)
	cc := &cipherCase{f: f, text: genText(r, n), a: cipherStation("AA", f), b: cipherStation("BB", f)}
	fillKeys(r, cc.a, f, needKeys(n, f), false)
	for _, i := range r.Perm(len(cc.a.Keys)) {
		copyKey(cc.b, &cc.a.Keys[i])
	}
	cc.note(c)
	roundTrip(c, cc)
	c.Distinct(f, string(cc.text))
}

func c02Radiogram(c *Case) {
	r := c.R
	cc := genCipherCase(r)
	text := radioText(r, min(len(cc.text), 400))
	cc.text = []rune(text)
	cc.note(c)
	to := strings.Join(cc.keepers, " ")
	m, err := cc.a.NewTextMessage(fmt.Sprintf("%s DE %s 171234ZMAY24 = %s = K", to, cc.a.CallSignString(), text))
	if err != nil {
		c.Fatal("encipher-error", "the station could not encipher %q: %v", text, err)
	}
	rx := &k431.Message{KeyId: k431.RuneCopy(&m.KeyId), CipherText: k431.RuneCopy(&m.CipherText)}
	rx.SetInstance(cc.b)
	if err := rx.Decipher(); err != nil || string(rx.PlainText) != string(m.PlainText) {
		c.Fatal("roundtrip", "the receiver deciphered %q: %v", string(rx.PlainText), err)
	}
	c.Count("deciphered_at_receiver", 1)
	c.Must(string(m.PlainText) == text, "radiogram-text", "the station took %q for the text %q", string(m.PlainText), text)
	c.Distinct(cc.f, text)
}

// ------------------------------------------------------------------- C03 ---

func init() {
	register(&Prop{ID: "C03",
		Rule:        "encode: text and configuration as in C02, the cipher text is deciphered by an independent implementation of the printed legend. decode: the text is enciphered by an independent encoder that inserts redundant table and case switches, early key changes and extra padding, and deciphered by the program. legend: the legend rows printed on a key card are compared column by column with the independent tables. Non-trivial: distinct (configuration, text, hand encoding) decoded to the same text.",
		Assumptions: []string{"the independent encoder and decoder implement the legend printed on the key card and MESSAGE_FORMAT; binary mode (W) is not implemented by the program and is excluded"},
		Need:        []string{"encoded_by_program", "encoded_by_hand", "legend_columns", "hand_key_changes"},
		Sections: []Section{
			{Name: "encode", Quick: 9000, Thorough: 200000, Run: c03Encode},
			{Name: "chars", Quick: len(refAlphabet), Thorough: len(refAlphabet), Run: c03Chars},
			{Name: "decode", Quick: 9000, Thorough: 200000, Run: c03Decode},
			{Name: "legend", Quick: 40, Thorough: 400, Run: c03Legend},
		}})
}

func c03Check(c *Case, cc *cipherCase) {
	keys := keyMap(cc.a)
	m := newMsg(cc.a, cc.text, cc.keepers...)
	if err := m.Encipher(); err != nil {
		c.Fatal("encipher-error", "enciphering %q failed: %v", shortText(cc.text), err)
	}
	d, err := refDecipher(keys, cc.f.GS, string(m.KeyId), m.CipherText)
	if err != nil {
		c.Fatal("not-by-legend", "the cipher text can not be deciphered by the legend: %v", err)
	}
	if string(d.Text) != string(cc.text) {
		c.Fatal("legend-text", "the legend gives another text: %s", firstDiff(cc.text, d.Text))
	}
	c.Max("keys_in_one_message", len(d.Chain))
	c.Count("encoded_by_program", 1)
	c.Distinct("e", cc.f, string(cc.text))
}

func c03Encode(c *Case) {
	cc := genCipherCase(c.R)
	cc.note(c)
	c03Check(c, cc)
}

func c03Chars(c *Case) {
	x := refAlphabet[c.Idx]
	f := cfg{5, 20}
	a := cipherStation("AA", f)
	for _, y := range refAlphabet {
		for _, z := range []rune("Aa1Q q") {
			a.Keys = nil
			cc := &cipherCase{f: f, text: []rune{y, x, z}, a: a}
			fillKeys(c.R, cc.a, f, 2, false)
			cc.note(c)
			c03Check(c, cc)
		}
	}
	c.Eval(len(refAlphabet) * 6)
}

func c03Decode(c *Case) {
	r := c.R
	f := genCfg(r)
	n := genLen(r, f)
	for n > 1 && needKeys(2*n, f) > maxKeysFor(f.GS) {
		n /= 2
	}
	text := genText(r, n)
	k := cipherStation("BB", f)
	fillKeys(r, k, f, min(needKeys(3*n, f)+2, maxKeysFor(f.GS)), r.IntN(3) == 0)
	var keys []refKey
	for _, i := range r.Perm(len(k.Keys)) {
		keys = append(keys, refKey{string(k.Keys[i].Id), append([]rune(nil), k.Keys[i].Runes...)})
	}
	noise := pick(r, 0, 0.1, 0.3, 1)
	cipher, chain, ok := refEncipher(r, text, keys, f.GS, noise)
	if !ok {
		c.Count("hand_out_of_keys", 1)
		return
	}
	c.Note("group_size", f.GS)
	c.Note("text", string(text))
	c.Note("cipher", string(cipher))
	c.Note("chain", chain)
	m := &k431.Message{KeyId: []rune(chain[0]), CipherText: append([]rune(nil), cipher...)}
	m.SetInstance(k)
	if err := m.Decipher(); err != nil {
		c.Fatal("hand-error", "text enciphered by hand could not be deciphered: %v", err)
	}
	if string(m.PlainText) != string(text) {
		c.Fatal("hand-text", "text enciphered by hand was deciphered as another text: %s", firstDiff(text, m.PlainText))
	}
	c.Count("encoded_by_hand", 1)
	c.Count("hand_key_changes", len(chain)-1)
	c.Distinct("d", f, string(text), string(cipher))
	if c.Idx < 300 && len(cipher) < 200 {
		c.Sample(map[string]any{"config": f, "text": string(text), "hand_cipher": string(cipher), "chain": chain})
	}
}

func c03Legend(c *Case) {
	r := c.R
	f := genCfg(r)
	k := cipherStation("AA", f)
	key := addKey(r, k, genCalls(r, r.IntN(4))...)
	card := key.String()
	var idx, ct1, ct2 []rune
	for _, l := range strings.Split(card, "\n") {
		l = strings.TrimRight(l, "\r")
		switch {
		case strings.HasPrefix(l, "IDX "):
			idx = []rune(l)
		case strings.HasPrefix(l, "CT1 "):
			ct1 = []rune(l)
		case strings.HasPrefix(l, "CT2 "):
			ct2 = []rune(l)
		}
	}
	c.Must(idx != nil && ct1 != nil && ct2 != nil, "legend-missing", "the key card has no coding legend:\n%s", card)
	// Columns by the position of the letters A-Z in the IDX row.
	pos := 3
	ctl := map[string]rune{}
	for x := 0; x < 26; x++ {
		p := -1
		for i := pos + 1; i < len(idx); i++ {
			if idx[i] == rune('A'+x) {
				p = i
				break
			}
		}
		c.Must(p > 0 && p < len(ct1) && p < len(ct2), "legend-column", "no column for %c in the legend", 'A'+x)
		pos = p
		if want := refTables[0][x]; want != 0 {
			c.Must(ct1[p] == want, "legend-table", "the legend shows %q for %c in table 1, want %q", ct1[p], 'A'+x, want)
		} else {
			ctl["Z1"] = ct1[p]
		}
		if want := refTables[1][x]; want != 0 {
			c.Must(ct2[p] == want, "legend-table", "the legend shows %q for %c in table 2, want %q", ct2[p], 'A'+x, want)
		} else {
			ctl[string(rune('A'+x))] = ct2[p]
		}
		c.Count("legend_columns", 1)
	}
	// The symbols in the control columns are explained with their letter.
	c.Must(ctl["Z1"] == ctl["Z"], "legend-control", "table switch symbols differ: %q %q", ctl["Z1"], ctl["Z"])
	for l, word := range map[string]string{"Z": "table", "X": "case", "Y": "key"} {
		found := false
		for _, line := range strings.Split(card, "\n") {
			if i := strings.LastIndex(line, string(ctl[l])+" "); i >= 0 {
				rest := strings.ToLower(line[i:])
				if strings.Contains(rest, word) && strings.Contains(rest, "("+strings.ToLower(l)+")") {
					found = true
				}
			}
		}
		c.Must(found, "legend-control", "the legend does not explain %s (%s) with its symbol %q", l, word, ctl[l])
	}
	c.Distinct("l", f)
}
