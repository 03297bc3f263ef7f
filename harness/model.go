package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"time"
	"unicode"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------ independent reference ----

// refTri is the DIANA trigraph on letters 0-25.
func refTri(x, y int) int { return ((25-x-y)%26 + 26) % 26 }

const (
	refPrimary   = "ABCDEFGHIJKLMNOP RSTUVWXY\x00"
	refSecondary = "0123456789?-ÅÄÖ.Q,Z:+/\x00\x00\x00\x00"
)

var refTables = [2][]rune{[]rune(refPrimary), []rune(refSecondary)}

// refAlphabet is every character the coding legend can carry.
var refAlphabet = func() []rune {
	seen := map[rune]bool{}
	var out []rune
	for _, t := range refTables {
		for _, c := range t {
			if c != 0 && !seen[c] {
				seen[c] = true
				out = append(out, c)
				if l := unicode.ToLower(c); l != c {
					seen[l] = true
					out = append(out, l)
				}
			}
		}
	}
	return out
}()

func refSupported(c rune) bool {
	for _, a := range refAlphabet {
		if a == c {
			return true
		}
	}
	return false
}

type refDecoded struct {
	Text    []rune
	Chain   []string // key ids in order of use
	Letters []int    // letters taken from each key
	Chars   []int    // plain text characters carried by each key
}

// refDecipher deciphers as the printed legend tells a human to.
func refDecipher(keys map[string][]rune, gs int, keyID string, cipher []rune) (refDecoded, error) {
	var d refDecoded
	key, ok := keys[keyID]
	if !ok {
		return d, fmt.Errorf("no key %s", keyID)
	}
	d.Chain, d.Letters, d.Chars = []string{keyID}, []int{0}, []int{0}
	table, lower, ki := 0, false, 0
	var id []rune
	changing := false
	for i, c := range cipher {
		if c < 'A' || c > 'Z' {
			return d, fmt.Errorf("cipher letter %d is %q", i, c)
		}
		if ki >= len(key) {
			return d, fmt.Errorf("key %s is too short at letter %d", d.Chain[len(d.Chain)-1], i)
		}
		if key[ki] < 'A' || key[ki] > 'Z' {
			return d, fmt.Errorf("key letter %q", key[ki])
		}
		x := refTri(int(key[ki]-'A'), int(c-'A'))
		ki++
		d.Letters[len(d.Letters)-1]++
		if changing {
			id = append(id, rune('A'+x))
			if len(id) == gs {
				k, ok := keys[string(id)]
				if !ok {
					return d, fmt.Errorf("changes to unknown key %s", string(id))
				}
				key, ki, table, lower, changing = k, 0, 0, false, false
				d.Chain = append(d.Chain, string(id))
				d.Letters = append(d.Letters, 0)
				d.Chars = append(d.Chars, 0)
				id = nil
			}
			continue
		}
		if x == 25 {
			table = 1 - table
			continue
		}
		if table == 1 {
			switch x {
			case 22:
				return d, fmt.Errorf("binary mode")
			case 23:
				lower = !lower
				continue
			case 24:
				changing = true
				continue
			}
		}
		ch := refTables[table][x]
		if lower {
			ch = unicode.ToLower(ch)
		}
		d.Text = append(d.Text, ch)
		d.Chars[len(d.Chars)-1]++
	}
	if changing {
		return d, fmt.Errorf("ends inside a key change")
	}
	return d, nil
}

type refKey struct {
	ID    string
	Runes []rune
}

// refEncipher enciphers as a human might: any legal sequence of table and case
// switches, key changes wherever it likes, final Z padding. noise 0 is the
// shortest legal encoding. It returns nil if the keys do not suffice.
func refEncipher(r *rand.Rand, text []rune, keys []refKey, gs int, noise float64) (cipher []rune, chain []string, ok bool) {
	ki := 0
	var enc []int // letters under the current key
	table, lower := 0, false
	chain = []string{keys[0].ID}
	flush := func() bool {
		if len(enc) > len(keys[ki].Runes) {
			return false
		}
		for i, e := range enc {
			cipher = append(cipher, rune('A'+refTri(int(keys[ki].Runes[i]-'A'), e)))
		}
		enc = nil
		return true
	}
	gotoTable := func(t int) {
		if noise > 0 && r.Float64() < noise*0.3 {
			enc = append(enc, 25, 25) // there and back again
		}
		if table != t {
			enc = append(enc, 25)
			table = t
		}
	}
	toggle := func() {
		gotoTable(1)
		enc = append(enc, 23)
		lower = !lower
	}
	encode := func(ch rune) {
		if noise > 0 && r.Float64() < noise*0.3 {
			toggle()
			if r.IntN(2) == 0 {
				toggle()
			}
		}
		up := unicode.ToUpper(ch)
		if (unicode.IsLower(ch) && !lower) || (unicode.IsUpper(ch) && lower) {
			toggle()
		}
		for t := range refTables {
			for i, x := range refTables[t] {
				if x == up && x != 0 {
					gotoTable(t)
					enc = append(enc, i)
					return
				}
			}
		}
		panic("refEncipher: unsupported " + string(ch))
	}
	change := func() bool {
		if ki+1 >= len(keys) {
			return false
		}
		gotoTable(1)
		enc = append(enc, 24)
		for _, c := range keys[ki+1].ID {
			enc = append(enc, int(c-'A'))
		}
		if !flush() {
			return false
		}
		ki++
		chain = append(chain, keys[ki].ID)
		table, lower = 0, false
		return true
	}
	for _, ch := range text {
		for tries := 0; ; tries++ {
			se, st, sl := append([]int(nil), enc...), table, lower
			if noise > 0 && len(enc) > 0 && r.Float64() < noise*0.03 && ki+1 < len(keys) && tries == 0 {
				if !change() {
					return nil, nil, false
				}
				continue
			}
			encode(ch)
			// Keep room for the longest key change and the padding.
			if len(enc)+2+2+gs+2 <= len(keys[ki].Runes) {
				break
			}
			enc, table, lower = se, st, sl
			if tries > 2 || !change() {
				return nil, nil, false
			}
		}
	}
	total := len(cipher) + len(enc)
	for total%gs != 0 {
		enc = append(enc, 25)
		total++
	}
	for noise > 0 && r.IntN(4) == 0 && len(enc)+gs <= len(keys[ki].Runes) {
		for i := 0; i < gs; i++ { // a whole extra group of padding
			enc = append(enc, 25)
		}
	}
	if !flush() {
		return nil, nil, false
	}
	return cipher, chain, true
}

// ------------------------------------------------------------ snapshots ----

type keySnap struct {
	ID, Runes, Keepers, Created, Expires string
	Used, Compromised                    bool
	Comment                              string
}

type msgSnap struct {
	ID, Recipients, From, DTG, KeyID, Plain, Binary, Cipher, Radiogram string
}

type snap struct {
	GroupSize, KeyLength, Columns, KeyColumns int
	CallSign                                  string
	Keys                                      []keySnap
	Messages                                  []msgSnap
}

func ts(t time.Time) string { return t.Format("2006-01-02T15:04:05.999999999Z07:00") }

func joinRunes(x [][]rune) string {
	var s []string
	for _, r := range x {
		s = append(s, fmt.Sprintf("%q", string(r)))
	}
	return strings.Join(s, ",")
}

func snapKey(k *k431.Key) keySnap {
	return keySnap{string(k.Id), string(k.Runes), joinRunes(k.Keepers), ts(k.Created.Time), ts(k.Expires.Time), k.Used, k.Compromised, string(k.Comment)}
}

func snapMsg(m *k431.Message) msgSnap {
	return msgSnap{string(m.Id), joinRunes(m.Recipients), string(m.From), ts(m.DTG.Time), string(m.KeyId), string(m.PlainText), fmt.Sprintf("%x", m.Binary), string(m.CipherText), string(m.Radiogram)}
}

func snapOf(k *k431.Krypto431) snap {
	s := snap{GroupSize: k.GroupSize, KeyLength: k.KeyLength, Columns: k.Columns, KeyColumns: k.KeyColumns, CallSign: string(k.CallSign)}
	for i := range k.Keys {
		s.Keys = append(s.Keys, snapKey(&k.Keys[i]))
	}
	for i := range k.Messages {
		s.Messages = append(s.Messages, snapMsg(&k.Messages[i]))
	}
	return s
}

func (s snap) key(id string) *keySnap {
	for i := range s.Keys {
		if s.Keys[i].ID == id {
			return &s.Keys[i]
		}
	}
	return nil
}

func (s snap) msg(id string) *msgSnap {
	for i := range s.Messages {
		if s.Messages[i].ID == id {
			return &s.Messages[i]
		}
	}
	return nil
}

// sortSnap makes the comparison independent of the order of keys and messages.
func sortSnap(s snap) snap {
	s.Keys = append([]keySnap(nil), s.Keys...)
	s.Messages = append([]msgSnap(nil), s.Messages...)
	sort.SliceStable(s.Keys, func(i, j int) bool { return fmt.Sprint(s.Keys[i]) < fmt.Sprint(s.Keys[j]) })
	sort.SliceStable(s.Messages, func(i, j int) bool { return fmt.Sprint(s.Messages[i]) < fmt.Sprint(s.Messages[j]) })
	return s
}

// diff describes the differences of two snapshots, "" if there are none.
func diff(a, b snap) string {
	var out []string
	add := func(f string, x ...any) {
		if len(out) < 6 {
			out = append(out, fmt.Sprintf(f, x...))
		}
	}
	if a.GroupSize != b.GroupSize || a.KeyLength != b.KeyLength || a.Columns != b.Columns || a.KeyColumns != b.KeyColumns {
		add("settings %d/%d/%d/%d became %d/%d/%d/%d", a.GroupSize, a.KeyLength, a.Columns, a.KeyColumns, b.GroupSize, b.KeyLength, b.Columns, b.KeyColumns)
	}
	if a.CallSign != b.CallSign {
		add("call-sign %q became %q", a.CallSign, b.CallSign)
	}
	if len(a.Keys) != len(b.Keys) {
		add("%d keys became %d", len(a.Keys), len(b.Keys))
	} else {
		for i := range a.Keys {
			if a.Keys[i] != b.Keys[i] {
				add("key %d: %s", i, fieldDiff(fmt.Sprintf("%+v", a.Keys[i]), fmt.Sprintf("%+v", b.Keys[i])))
			}
		}
	}
	if len(a.Messages) != len(b.Messages) {
		add("%d messages became %d", len(a.Messages), len(b.Messages))
	} else {
		for i := range a.Messages {
			if a.Messages[i] != b.Messages[i] {
				add("message %d: %s", i, fieldDiff(fmt.Sprintf("%+v", a.Messages[i]), fmt.Sprintf("%+v", b.Messages[i])))
			}
		}
	}
	return strings.Join(out, "; ")
}

func fieldDiff(a, b string) string {
	if len(a) > 700 {
		a = a[:700] + "..."
	}
	if len(b) > 700 {
		b = b[:700] + "..."
	}
	return a + " became " + b
}

// ----------------------------------------------------------- generators ----

func letters(r *rand.Rand, n int) []rune {
	out := make([]rune, n)
	for i := range out {
		out[i] = rune('A' + r.IntN(26))
	}
	return out
}

func genCall(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return string(letters(r, 2))
	case 1:
		return string(letters(r, 2+r.IntN(3))) + fmt.Sprint(r.IntN(10)) + string(letters(r, 1+r.IntN(3)))
	case 2:
		return "SA6" + string(letters(r, 3))
	case 3:
		return string(letters(r, 1)) + fmt.Sprint(r.IntN(10)) + string(letters(r, 2)) + "/" + string(letters(r, 1))
	case 4:
		return string(letters(r, 8+r.IntN(8)))
	}
	return string(letters(r, 2)) + fmt.Sprint(r.IntN(100))
}

// genCalls returns n different call-signs, none of them "DE".
func genCalls(r *rand.Rand, n int) []string {
	seen := map[string]bool{"DE": true}
	var out []string
	for len(out) < n {
		c := genCall(r)
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

// genText makes text of supported characters in one of several styles.
func genText(r *rand.Rand, n int) []rune {
	out := make([]rune, 0, n)
	style := r.IntN(9)
	up := []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZÅÄÖ")
	lo := []rune("abcdefghijklmnopqrstuvwxyzåäö")
	dig := []rune("0123456789?-.,:+/ QZqz")
	for len(out) < n {
		switch style {
		case 0:
			out = append(out, pick(r, up...))
		case 1:
			out = append(out, pick(r, lo...))
		case 2: // alternate case: costs the most letters
			if len(out)%2 == 0 {
				out = append(out, pick(r, up...))
			} else {
				out = append(out, pick(r, lo...))
			}
		case 3:
			out = append(out, pick(r, refAlphabet...))
		case 4:
			out = append(out, pick(r, dig...))
		case 5: // words
			w := 1 + r.IntN(9)
			for i := 0; i < w && len(out) < n; i++ {
				if i == 0 && r.IntN(3) == 0 {
					out = append(out, pick(r, up...))
				} else {
					out = append(out, pick(r, lo...))
				}
			}
			if len(out) < n {
				out = append(out, ' ')
			}
		case 6: // lower case letter, digit, lower case letter
			if len(out)%2 == 0 {
				out = append(out, pick(r, lo...))
			} else {
				out = append(out, pick(r, dig...))
			}
		case 7: // one repeated character
			ch := pick(r, refAlphabet...)
			for m := 1 + r.IntN(40); m > 0 && len(out) < n; m-- {
				out = append(out, ch)
			}
		case 8: // secondary table letters with case changes
			out = append(out, pick(r, []rune("QZqzÅåÄäÖö ")...))
		}
	}
	return out[:n]
}

// trimText makes text that survives a radiogram: no spaces at the ends and
// nothing that the trailing part of a radiogram may swallow.
func radioText(r *rand.Rand, n int) string {
	for {
		t := genText(r, n)
		s := strings.TrimSpace(string(t))
		if s == "" || radioUnsafe(s) {
			continue
		}
		return s
	}
}

// radioUnsafe tells if the end of the text could be taken for the end marks of
// a radiogram (=K, K, +, AR) or for its beginning.
func radioUnsafe(s string) bool {
	u := strings.ToUpper(s)
	if strings.ContainsAny(u, "=") {
		return true
	}
	if strings.HasSuffix(u, " K") || strings.HasSuffix(u, "+") || u == "AR" || u == "K" {
		return true
	}
	if strings.HasPrefix(u, "=") {
		return true
	}
	for _, f := range strings.Fields(u) {
		if f == "DE" {
			return true
		}
	}
	return false
}

type cfg struct{ GS, KL int }

// genCfg picks a group size and key length that leaves room for a key change
// and at least one character of the longest kind.
func genCfg(r *rand.Rand) cfg {
	gs := pick(r, 5, 5, 5, 5, 4, 3, 6, 2, 7, 8, 10, 1, 12, 15)
	kl := pick(r, 350, 20, 21, 25, 30, 50, 75, 100, 23, 27, 40)
	if r.IntN(3) == 0 {
		kl = 20 + r.IntN(120)
	}
	if kl < gs+2+4+1 {
		kl = gs + 7 + r.IntN(30)
	}
	if kl < 20 {
		kl = 20
	}
	return cfg{gs, kl}
}

// -------------------------------------------------------------- stations ----

// newStation makes a station without the large preallocated slices.
func newStation(opts ...k431.Option) *k431.Krypto431 {
	k := k431.New(opts...)
	k.Keys, k.Messages = nil, nil
	return &k
}

func cipherStation(call string, f cfg) *k431.Krypto431 {
	return newStation(k431.WithCallSign(call), k431.WithGroupSize(f.GS), k431.WithKeyLength(f.KL))
}

func calls(s ...string) [][]rune {
	var out [][]rune
	for _, x := range s {
		out = append(out, []rune(x))
	}
	return out
}

// addKey adds a key made by the harness itself.
func addKey(r *rand.Rand, k *k431.Krypto431, keepers ...string) *k431.Key {
	return addKeyLen(r, k, k.GroupSize, roundUp(k.KeyLength, k.GroupSize), keepers...)
}

func roundUp(n, m int) int { return (n + m - 1) / m * m }

func addKeyLen(r *rand.Rand, k *k431.Krypto431, idLen, keyLen int, keepers ...string) *k431.Key {
	var id []rune
	for {
		id = letters(r, idLen)
		dup := false
		for i := range k.Keys {
			if string(k.Keys[i].Id) == string(id) {
				dup = true
				break
			}
		}
		if !dup {
			break
		}
	}
	key := k431.Key{Id: id, Runes: letters(r, keyLen), Keepers: calls(keepers...), Comment: []rune(fmt.Sprintf("comment %d", r.IntN(1000)))}
	key.Created.Time = time.Date(2023, 1, 1+r.IntN(300), r.IntN(24), r.IntN(60), 0, 0, time.UTC)
	key.Expires.Time = time.Date(2099, 1, 1+r.IntN(300), r.IntN(24), r.IntN(60), 0, 0, time.UTC)
	key.SetInstance(k)
	k.Keys = append(k.Keys, key)
	return &k.Keys[len(k.Keys)-1]
}

// copyKey gives another station its own copy of a key.
func copyKey(to *k431.Krypto431, key *k431.Key, keepers ...string) *k431.Key {
	n := k431.Key{Id: append([]rune(nil), key.Id...), Runes: append([]rune(nil), key.Runes...), Keepers: calls(keepers...),
		Created: key.Created, Expires: key.Expires, Comment: append([]rune(nil), key.Comment...)}
	n.SetInstance(to)
	to.Keys = append(to.Keys, n)
	return &to.Keys[len(to.Keys)-1]
}

func keyMap(ks ...*k431.Krypto431) map[string][]rune {
	m := map[string][]rune{}
	for _, k := range ks {
		for i := range k.Keys {
			m[string(k.Keys[i].Id)] = append([]rune(nil), k.Keys[i].Runes...)
		}
	}
	return m
}

func newMsg(k *k431.Krypto431, text []rune, recipients ...string) *k431.Message {
	m := &k431.Message{PlainText: append([]rune(nil), text...), Recipients: calls(recipients...), From: append([]rune(nil), k.CallSign...)}
	m.DTG.Time = time.Date(2024, 5, 17, 12, 34, 0, 0, time.UTC)
	m.SetInstance(k)
	return m
}

func usedIDs(k *k431.Krypto431) map[string]bool {
	m := map[string]bool{}
	for i := range k.Keys {
		if k.Keys[i].Used {
			m[string(k.Keys[i].Id)] = true
		}
	}
	return m
}

func all(*k431.Key) bool        { return true }
func allMsg(*k431.Message) bool { return true }

func fixedDTG() time.Time { return time.Date(2024, 5, 17, 12, 34, 0, 0, time.UTC) }
