package main

import (
	"bytes"
	"compress/gzip"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	stream "github.com/nknorg/encrypted-stream"
	k431 "github.com/sa6mwa/krypto431"
)

func init() {
	register(&Prop{ID: "C33", CPU: 120,
		Rule:        "An input is non-trivial when it was given to the code under test; inputs differ by their content. Each call is watched for panics, process exit, CPU time and allocated memory in proportion to the input, and the station is compared with its snapshot when the input is refused.",
		Assumptions: []string{"settings are ones Assert accepts", "a call may use 1 s of CPU and 40 MB plus 10 µs and 4 KB per character of its input and of what it prints"},
		Need:        []string{"calls", "refused", "accepted", "deciphered", "big_calls", "stores_refused", "stores_loaded", "cli_runs"},
		Sections: []Section{
			{Name: "radiogram", Quick: 6000, Thorough: 200000, Run: c33Radiogram},
			{Name: "cipher", Quick: 6000, Thorough: 200000, Run: c33Cipher},
			{Name: "ids", Quick: 3000, Thorough: 60000, Run: c33IDs},
			{Name: "contents", Quick: 900, Thorough: 20000, Run: c33Contents},
			{Name: "size", Quick: len(c33Sizes) * 2, Thorough: len(c33Sizes) * 12, Run: c33Size},
			{Name: "store", Quick: 900, Thorough: 20000, Run: c33Store},
			{Name: "cli", Quick: 240, Thorough: 6000, Run: c33CLI},
		}})
}

func threadCPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// probe makes one call and watches it. size is the number of characters it has
// to deal with. It reports whether the call returned.
func (c *Case) probe(what string, size int, f func()) bool {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := threadCPU()
	ok := c.catch("panic:"+what, f)
	cpu := threadCPU() - t
	runtime.ReadMemStats(&b)
	alloc := int(b.TotalAlloc - a.TotalAlloc)
	c.Count("calls", 1)
	c.Eval(1)
	c.Max("us_per_call", int(cpu.Microseconds()))
	c.Max("kb_per_call", alloc>>10)
	if size >= 5000 {
		c.Max("ns_per_char", int(cpu)/size)
		c.Max("bytes_per_char", alloc/size)
	}
	if limit := time.Second + time.Duration(size)*10*time.Microsecond; cpu > limit {
		c.Fail("cpu:"+what, "%s takes %v for %d characters, more than %v", what, cpu, size, limit)
	}
	if limit := 40<<20 + size*4<<10; alloc > limit {
		c.Fail("memory:"+what, "%s allocates %d kB for %d characters, more than %d kB", what, alloc>>10, size, limit>>10)
	}
	return ok
}

// hostileRunes are runes of any kind, most of them not what is asked for.
func hostileRunes(r *mrand.Rand, n int) []rune {
	switch r.IntN(12) {
	case 0:
		return nil
	case 1:
		return []rune{}
	}
	out := make([]rune, n)
	kind := r.IntN(6)
	for i := range out {
		switch {
		case kind == 0:
			out[i] = pick(r, rune(0), -1, math.MinInt32, math.MaxInt32, 0x10ffff, 0x110000, 0xd800, 0xdfff, 0xfffd, 0xfffe, 0x1f600)
		case kind == 1:
			out[i] = rune(r.Uint32())
		case kind == 2:
			out[i] = pick(r, []rune("ZZZXYWzxyw¤↕→>\n\r\t\x00 =+")...)
		case kind == 3 && r.IntN(8) > 0, kind == 4 && r.IntN(60) > 0:
			out[i] = rune('A' + r.IntN(26))
		case kind == 5:
			out[i] = pick(r, ' ', '\n', '\u2028', '\u00a0', '\u200b', '\u0301', '\x1b', '\b', '%', '\\', '\'', '"', '{', 'ſ', 'İ', 'ß', 'ŉ')
		default:
			out[i] = rune(r.IntN(0x300))
		}
	}
	return out
}

func hostileString(r *mrand.Rand, n int) string {
	switch r.IntN(4) {
	case 0:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	case 1:
		return strings.Repeat(pick(r, " ", "A", ",", "\x00", "\xff", "ABCDE ", "å", "\n", "%s%n", "--", "="), n)
	}
	return string(hostileRunes(r, n))
}

// hostileStation has good keys, keys nobody would make, and messages.
func hostileStation(r *mrand.Rand) (k *k431.Krypto431, f cfg, cs []string) {
	f = genCfg(r)
	cs = genCalls(r, 3)
	k = cipherStation(cs[0], f)
	fillKeys(r, k, f, 2+r.IntN(6), false, cs[1])
	fillKeys(r, k, f, r.IntN(3), false)
	for i := r.IntN(4); i > 0; i-- { // keys of another length, or of anything
		key := k431.Key{Id: letters(r, f.GS), Keepers: calls(cs[1])}
		switch r.IntN(5) {
		case 0:
			key.Runes = letters(r, r.IntN(f.GS+8))
		case 1:
			key.Runes = nil
		case 2:
			key.Runes = hostileRunes(r, 40)
		case 3:
			key.Runes = letters(r, 40)
			key.Runes[r.IntN(40)] = hostileRune(r)
		case 4:
			key.Runes = letters(r, 40)
			key.Id = hostileRunes(r, pick(r, f.GS, 1, 20))
		}
		key.Comment = hostileRunes(r, 10)
		key.SetInstance(k)
		at := r.IntN(len(k.Keys) + 1)
		k.Keys = append(k.Keys, k431.Key{})
		copy(k.Keys[at+1:], k.Keys[at:])
		k.Keys[at] = key
	}
	for i := r.IntN(3); i > 0; i-- {
		m := anyMessage(r, k)
		k.Messages = append(k.Messages, m)
	}
	return
}

// hostileCipher is cipher text for the keys of a station: real traffic that was
// mangled, random letters, or something else.
func hostileCipher(r *mrand.Rand, k *k431.Krypto431, f cfg) (id, cipher []rune) {
	key := &k.Keys[r.IntN(len(k.Keys))]
	id = append([]rune(nil), key.Id...)
	kind := r.IntN(7)
	switch kind {
	case 0:
		return id, letters(r, r.IntN(3*f.KL))
	case 1:
		return id, hostileRunes(r, r.IntN(60))
	case 2:
		return hostileRunes(r, f.GS), hostileRunes(r, r.IntN(60))
	}
	var keys []refKey
	for _, i := range r.Perm(len(k.Keys)) {
		x := &k.Keys[i]
		good := len(x.Runes) >= 2*f.GS+12 && len(x.Id) == f.GS
		for _, ch := range append(append([]rune(nil), x.Id...), x.Runes...) {
			good = good && ch >= 'A' && ch <= 'Z'
		}
		if good {
			keys = append(keys, refKey{string(x.Id), x.Runes})
		}
	}
	if len(keys) == 0 {
		return id, letters(r, 20)
	}
	if r.IntN(3) == 0 { // around in circles
		keys = append(keys, keys...)
		keys = append(keys, keys...)
	}
	var ok bool
	var chain []string
	for n := r.IntN(len(keys)*f.KL/2 + 1); ; n /= 2 {
		cipher, chain, ok = refEncipher(r, genText(r, n), keys, f.GS, r.Float64()*0.6)
		if ok {
			break
		}
		if n == 0 {
			return id, letters(r, 20)
		}
	}
	id = []rune(chain[0])
	if kind == 3 { // as it is
		return
	}
	for i := 1 + r.IntN(4); i > 0 && len(cipher) > 0; i-- {
		p := r.IntN(len(cipher))
		switch r.IntN(6) {
		case 0:
			cipher[p] = rune('A' + r.IntN(26))
		case 1:
			cipher = cipher[:p]
		case 2:
			cipher = append(cipher[:p:p], cipher[p+1:]...)
		case 3:
			cipher = append(cipher, cipher[p:]...)
		case 4:
			cipher[p] = hostileRune(r)
		case 5:
			id = append([]rune(nil), k.Keys[r.IntN(len(k.Keys))].Id...)
		}
	}
	return
}

// c33After: the own keys keep their material and the earlier messages stay
// what they were; input that is refused leaves no trace at all.
func (c *Case) c33After(what string, before, after snap, refused bool) {
	if refused {
		if d := diff(before, after); d != "" {
			c.Fail("changed:"+what, "%s was refused and changed the station: %s", what, d)
		}
		c.Count("refused", 1)
		return
	}
	c.Count("accepted", 1)
	if len(after.Keys) != len(before.Keys) || len(after.Messages) < len(before.Messages) {
		c.Fail("lost:"+what, "%s: %d keys and %d messages became %d and %d", what, len(before.Keys), len(before.Messages), len(after.Keys), len(after.Messages))
		return
	}
	for i := range before.Keys {
		x := after.Keys[i]
		x.Used = before.Keys[i].Used
		if x != before.Keys[i] {
			c.Fail("key:"+what, "%s changed key %+v into %+v", what, before.Keys[i], after.Keys[i])
		}
	}
	for i := range before.Messages {
		if after.Messages[i] != before.Messages[i] {
			c.Fail("message:"+what, "%s changed message %+v into %+v", what, before.Messages[i], after.Messages[i])
		}
	}
}

func c33Radiogram(c *Case) {
	r := c.R
	k, f, cs := hostileStation(r)
	for round := 0; round < 3; round++ {
		var s string
		switch r.IntN(6) {
		case 0:
			s = hostileRadiogram(r)
		case 1, 2:
			id, cipher := hostileCipher(r, k, f)
			text := string(id) + pick(r, " ", "", "\n") + groupsOf(cipher, f.GS)
			if r.IntN(6) == 0 {
				text = strings.ToLower(text)
			}
			s = pick(r, cs[0]+" ", "", cs[0]+","+cs[2]+" ") + "DE " + cs[1] + pick(r, " ", " 171234ZMAY24 ", " 3 ") + "= " + text + pick(r, " = K", "", "=K", " +")
		case 3:
			s = cs[1] + " DE " + cs[0] + " = " + hostileString(r, r.IntN(200)) + " = K"
		case 4:
			s = pick(r, cs[1]+" ", hostileString(r, 3)+" ") + "DE " + pick(r, cs[0], cs[1], cs[0]+"/P", "", "=", "\x00") + " " + pick(r, "", "000000", "329999ZFEB00", "310000ZFEB24", "171234JMAY24", "17ABCDZ", "171234ZMAY2024", "99999999999999999999", "0\n") + pick(r, " = ", "=", " ", "==") +
				pick(r, "", "=", "K", "= K", "= K = K = K", "+", "[AR]", string(genText(r, 20)))
		case 5:
			s = pick(r, cs[0], "") + " DE " + cs[1] + " = " + pick(r, "", string(k.Keys[r.IntN(len(k.Keys))].Id), string(hostileRunes(r, f.GS))) + hostileString(r, r.IntN(80)) + " = K"
		}
		args := []string{s}
		if r.IntN(4) == 0 {
			args = append(args, pick(r, string(k.Keys[r.IntN(len(k.Keys))].Id), hostileString(r, f.GS), string(letters(r, f.GS)), "", " "))
			if r.IntN(4) == 0 {
				args = append(args, hostileString(r, 3))
			}
		}
		c.Note("radiogram", fmt.Sprintf("%q", args))
		c.Distinct(args)
		size := len(s) + 60
		before := snapOf(k)
		c.probe("ParseRadiogram", size, func() {
			_, err := k.ParseRadiogram(s)
			if err != nil {
				c.Count("not_parsed", 1)
			}
		})
		if d := diff(before, snapOf(k)); d != "" {
			c.Fail("changed:parse", "parsing a radiogram changed the station: %s", d)
		}
		var m *k431.Message
		var err error
		how := r.IntN(4)
		if !c.probe("NewTextMessage", size, func() {
			switch how {
			case 0:
				m, err = k.NewTextMessageFromReader(&oddReader{r, []byte(s), nil})
			default:
				m, err = k.NewTextMessage(args...)
			}
		}) {
			return
		}
		if err == nil && m == nil {
			c.Fail("nothing", "neither a message nor an error")
			return
		}
		c.c33After("radiogram", before, snapOf(k), err != nil)
		if err == nil {
			if len(k.Messages) != len(before.Messages)+1 {
				c.Fail("stored", "%d messages became %d", len(before.Messages), len(k.Messages))
			}
			if len(m.CipherText) > 0 && string(m.From) != cs[0] {
				c.Count("deciphered", 1)
			}
			c.probe("Message.String", size+800, func() { _ = m.String() })
			c.probe("SummaryOfMessages", size+3000, func() { k.SummaryOfMessages(allMsg) })
		}
		// A reader that fails
		if r.IntN(8) == 0 {
			before = snapOf(k)
			c.probe("NewTextMessageFromReader", size, func() {
				if _, err := k.NewTextMessageFromReader(&oddReader{r, []byte(s), errors.New("no more")}); err == nil {
					c.Fail("reader", "the error of the reader is ignored")
				}
			})
			c.c33After("reader", before, snapOf(k), true)
		}
	}
}

// oddReader hands out a few bytes at a time and ends with an error.
type oddReader struct {
	r   *mrand.Rand
	b   []byte
	err error
}

func (o *oddReader) Read(p []byte) (int, error) {
	if len(o.b) == 0 {
		if o.err != nil {
			return 0, o.err
		}
		return 0, io.EOF
	}
	n := copy(p, o.b[:min(len(o.b), o.r.IntN(40))])
	o.b = o.b[n:]
	return n, nil
}

func c33Cipher(c *Case) {
	r := c.R
	k, f, cs := hostileStation(r)
	before := snapOf(k)
	m := &k431.Message{}
	m.SetInstance(k)
	if r.IntN(3) == 0 {
		*m = anyMessage(r, k)
	}
	m.Recipients = pick(r, nil, calls(cs[1]), [][]rune{nil}, [][]rune{hostileRunes(r, 3), {}}, calls(cs[1], cs[1]))
	if r.IntN(5) > 0 {
		m.KeyId, m.CipherText = hostileCipher(r, k, f)
	}
	if r.IntN(3) == 0 {
		m.PlainText = append(append(append([]rune(nil), m.KeyId...), []rune(pick(r, "", " ", "\n", "="))...), m.CipherText...)
		m.KeyId, m.CipherText = nil, nil
	} else if r.IntN(3) == 0 {
		m.PlainText = hostileRunes(r, r.IntN(90))
	}
	c.Note("message", fmt.Sprintf("key %q cipher %q text %q", string(m.KeyId), string(m.CipherText), string(m.PlainText)))
	size := len(m.PlainText) + len(m.CipherText) + 100
	for _, x := range k.Keys {
		size += len(x.Runes)
	}
	op := pick(r, "Decipher", "Decipher", "Decipher", "TryDecipherPlainText", "TryDecipherPlainText", "dry run", "Encipher", "EnrichWithKey")
	c.Distinct(op, string(m.KeyId), string(m.CipherText), string(m.PlainText))
	var err error
	text := string(m.PlainText)
	if !c.probe(op, size, func() {
		switch op {
		case "Decipher":
			err = m.Decipher()
		case "TryDecipherPlainText":
			err = m.TryDecipherPlainText()
		case "dry run":
			err = m.TryDecipherPlainText(true)
		case "Encipher":
			err = m.Encipher()
		case "EnrichWithKey":
			err = m.EnrichWithKey()
		}
	}) {
		return
	}
	c.c33After(op, before, snapOf(k), err != nil)
	if err == nil && op == "Decipher" {
		c.Count("deciphered", 1)
	}
	if (op == "TryDecipherPlainText" && err != nil || op == "dry run") && string(m.PlainText) != text {
		c.Fail("text:"+op, "the text of the message was %q and is %q", text, string(m.PlainText))
	}
	c.probe("Message.String", size+200, func() { _ = m.String(); _ = m.GoString() })
	c.probe("Message.Groups", size, func() { m.Groups(); m.GroupsBlock(); m.IsMyCall(); m.QRZString(); m.IdString() })
	c.probe("Message.Wipe", size, func() {
		switch r.IntN(3) {
		case 0:
			m.Wipe()
		case 1:
			m.ZeroWipe()
		case 2:
			m.RandomWipe()
		}
	})
}

func c33IDs(c *Case) {
	r := c.R
	k, f, cs := hostileStation(r)
	for i := 0; i < 2; i++ {
		m := anyMessage(r, k)
		m.Id = k.NewUniqueMessageId()
		k.Messages = append(k.Messages, m)
	}
	before := snapOf(k)
	known := r.IntN(6) == 0
	n := pick(r, 0, 1, 1, 2, 5, 40)
	var ids []string
	for i := 0; i < n; i++ {
		x := hostileString(r, pick(r, 0, 1, 3, f.GS, 4, 60, 3000))
		if r.IntN(4) == 0 {
			x = pick(r, string(letters(r, f.GS)), "", " ", "\x00", cs[0], strings.Repeat(" ", 100)+"A")
		}
		ids = append(ids, x)
	}
	if known {
		ids = append(ids, pick(r, string(k.Keys[0].Id), string(k.Messages[0].Id)))
	}
	var runes [][]rune
	size := 100
	for _, x := range ids {
		if r.IntN(3) == 0 {
			runes = append(runes, hostileRunes(r, len(x)))
		} else {
			runes = append(runes, []rune(x))
		}
		size += len(x)
	}
	size *= len(k.Keys) + len(k.Messages) + 1
	c.Note("ids", fmt.Sprintf("%q", ids))
	one, oneRunes := "", []rune(nil)
	if len(ids) > 0 {
		one, oneRunes = ids[0], runes[0]
	}
	holdsKey := func(id string) bool { return before.key(strings.ToUpper(strings.TrimSpace(id))) != nil }
	op := pick(r, "GetKey", "MarkKeyUsed", "FindKey", "ContainsKeyId", "ContainsMessageId", "DeleteKey", "DeleteKeyByString", "DeleteKeysBySummaryString",
		"DeleteMessage", "DeleteMessageByString", "DeleteMessagesBySummaryString", "Vetted", "Keepers", "Recipients", "GenerateKeys", "SetCallSign", "Secrets")
	c.Distinct(op, ids, fmt.Sprint(runes))
	deleted := -1
	var err error
	unchanged := false
	if !c.probe(op, size, func() {
		switch op {
		case "GetKey":
			_, err = k.GetKey(oneRunes)
			unchanged = true
		case "MarkKeyUsed":
			err = k.MarkKeyUsed(oneRunes, r.IntN(2) == 0)
			unchanged = err != nil
			if err == nil && !holdsKey(string(oneRunes)) {
				c.Fail("marked", "key %q marked, there is no such key", string(oneRunes))
			}
		case "FindKey":
			k.FindKey(runes...)
			unchanged = true
		case "ContainsKeyId":
			k.ContainsKeyId(pick(r, nil, &oneRunes, &oneRunes))
			unchanged = true
		case "ContainsMessageId":
			k.ContainsMessageId(pick(r, nil, &oneRunes, &oneRunes))
			unchanged = true
		case "DeleteKey":
			deleted, err = k.DeleteKey(runes...)
		case "DeleteKeyByString":
			deleted, err = k.DeleteKeyByString(ids...)
		case "DeleteKeysBySummaryString":
			deleted, err = k.DeleteKeysBySummaryString(ids...)
		case "DeleteMessage":
			deleted, err = k.DeleteMessage(runes...)
		case "DeleteMessageByString":
			deleted, err = k.DeleteMessageByString(ids...)
		case "DeleteMessagesBySummaryString":
			deleted, err = k.DeleteMessagesBySummaryString(ids...)
		case "Vetted":
			k431.VettedKeepers(ids...)
			k431.VettedKeys(ids...)
			k431.VettedMessageIds(ids...)
			k431.VettedCallSigns(ids...)
			k431.JoinRunesToString(&runes, one)
			unchanged = true
		case "Keepers":
			x := k.Keys[0]
			x.Keepers = append([][]rune(nil), x.Keepers...)
			x.AddKeeper(runes...)
			x.ContainsKeeper(runes...)
			x.RemoveKeeper(runes...)
			unchanged = true
		case "Recipients":
			x := k.Messages[0]
			x.Recipients = append([][]rune(nil), x.Recipients...)
			x.AddRecipient(runes...)
			x.ContainsRecipient(runes...)
			x.RemoveRecipient(runes...)
			unchanged = true
		case "GenerateKeys":
			// An expiry that is none is refused. The keepers are taken as they are.
			e := hostileString(r, 1+r.IntN(14))
			before := snapOf(k)
			if err = k.GenerateKeys(1, &e, ids...); err != nil {
				c.c33After(op, before, snapOf(k), true)
			}
		case "SetCallSign":
			x := newStation(k431.WithCallSign(one))
			x.SetCallSign(one)
			x.Assert()
		case "Secrets":
			err = k.SetPFKFromString(one)
			err = errors.Join(err, k.SetSaltFromString(one))
			newStation(k431.WithPFKString(one), k431.WithSaltString(one))
			unchanged = true
		}
	}) {
		return
	}
	after := snapOf(k)
	gone := len(before.Keys) + len(before.Messages) - len(after.Keys) - len(after.Messages)
	switch {
	case deleted >= 0:
		if gone != deleted {
			c.Fail("deleted:"+op, "%s says %d deleted, %d are gone", op, deleted, gone)
		}
		if deleted == 0 {
			c.c33After(op, before, after, true)
			return
		}
		c.Count("deleted", deleted)
		for _, x := range after.Keys {
			if y := before.key(x.ID); y == nil || len(x.ID) > 0 && *y != x && strings.Count(fmt.Sprint(before.Keys), x.ID) == 1 {
				c.Fail("deleted-other:"+op, "%s left key %+v, which was %+v", op, x, y)
			}
		}
	case unchanged:
		c.c33After(op, before, after, true)
	}
}

// c33Contents: whatever keys and messages hold, listing, printing, saving and
// handing them over works or is refused.
func c33Contents(c *Case) {
	r := c.R
	file, pfk := c.Path("store"), hexKey(r)
	gs := pick(r, 5, 5, 1, 2, 4, 15)
	k := fileStation(genCall(r), cfg{gs, 20 + r.IntN(400)}, file, pfk)
	k.Columns, k.KeyColumns = pick(r, 85, 110, 85+r.IntN(200)), pick(r, gs, gs+1, 30, 60, 200)
	if r.IntN(6) == 0 {
		k.CallSign = hostileRunes(r, 6)
	}
	for i := 1 + r.IntN(6); i > 0; i-- {
		key := anyKey(r, k)
		if r.IntN(2) == 0 {
			key.Runes = hostileRunes(r, r.IntN(500))
		}
		if r.IntN(2) == 0 {
			key.Keepers = nil
			for j := r.IntN(5); j > 0; j-- {
				key.Keepers = append(key.Keepers, hostileRunes(r, r.IntN(12)))
			}
		}
		if r.IntN(3) == 0 {
			key.Id = hostileRunes(r, pick(r, gs, 0, 1, 40))
		} else if r.IntN(2) == 0 {
			key.Id = letters(r, gs)
		}
		if r.IntN(3) == 0 {
			key.Comment = hostileRunes(r, r.IntN(100))
		}
		if r.IntN(4) == 0 {
			key.Created.Time, key.Expires.Time = hostileTime(r), hostileTime(r)
		}
		k.Keys = append(k.Keys, key)
	}
	for i := 1 + r.IntN(6); i > 0; i-- {
		m := anyMessage(r, k)
		if r.IntN(2) == 0 {
			m.PlainText, m.CipherText = hostileRunes(r, r.IntN(400)), hostileRunes(r, r.IntN(400))
		}
		if r.IntN(2) == 0 {
			m.KeyId, m.Id, m.From = hostileRunes(r, pick(r, gs, 3)), hostileRunes(r, 4), hostileRunes(r, 5)
			m.Recipients = [][]rune{hostileRunes(r, 5), nil, hostileRunes(r, 30)}
		}
		if r.IntN(4) == 0 {
			m.DTG.Time = hostileTime(r)
		}
		k.Messages = append(k.Messages, m)
	}
	size := 2000
	for _, x := range k.Keys {
		size += len(x.Id) + len(x.Runes) + len(x.Comment) + 2500
		for _, y := range x.Keepers {
			size += len(y) * 60 // as wide as the whole card
		}
	}
	for _, x := range k.Messages {
		size += 2*len(x.PlainText) + 4*len(x.CipherText) + len(x.Id) + len(x.From) + 800
		for _, y := range x.Recipients {
			size += len(y) * 10
		}
	}
	c.Note("contents", fmt.Sprintf("%+v", snapOf(k)))
	c.Distinct(fmt.Sprint(snapOf(k)))
	start := snapOf(k)
	same := func(what string) {
		if d := diff(start, snapOf(k)); d != "" {
			c.Fail("changed:"+what, "%s changed the station: %s", what, d)
		}
	}
	c.probe("key methods", size, func() {
		for i := range k.Keys {
			x := &k.Keys[i]
			_ = x.String()
			_ = x.GoString()
			x.Groups()
			x.GroupsBlock()
			x.JoinKeepers(", ")
			x.IsExpired()
			x.IsValid(time.Duration(r.Int64()))
			x.IsValidOneYear()
			x.UsedString(r.IntN(5))
			x.CompromisedString()
			x.CommentString()
			x.KeyLength()
		}
	})
	c.probe("message methods", size, func() {
		for i := range k.Messages {
			x := &k.Messages[i]
			_ = x.String()
			_ = x.String(pick(r, -1, 0, 1, 95, 300))
			_ = x.GoString()
			x.Groups()
			x.GroupsBlock()
			x.JoinRecipients(" ")
			x.QRZ()
			x.IsMyCall()
			x.IdString()
		}
	})
	c.probe("SummaryOfKeys", size, func() { k.SummaryOfKeys(all) })
	c.probe("KeysAsText", size, func() { k.KeysAsText(all) })
	c.probe("MessagesAsText", size, func() { k.MessagesAsText(allMsg) })
	c.probe("KeysTextFile", size, func() { k.KeysTextFile(all, c.Path("k.txt")) })
	c.probe("MessagesTextFile", size, func() { k.MessagesTextFile(allMsg, c.Path("m.txt")) })
	same("printing")
	c.probe("KeysPDF", 30*size, func() { k.KeysPDF(all, c.Path("k.pdf")) })
	c.probe("MessagesPDF", 30*size, func() { k.MessagesPDF(allMsg, c.Path("m.pdf")) })
	same("printing to PDF")
	var err error
	c.probe("Save", size+1000, func() { err = k.Save() })
	same("saving")
	if err == nil {
		var n *k431.Krypto431
		c.probe("Load", size+1000, func() { n, err = reopen(file, pfk) })
		if err != nil {
			c.Count("not_loaded", 1) // times gob does not take are C11's business
		} else {
			c.Count("accepted", 1)
			own := snapOf(n)
			c.probe("SummaryOfMessages", size, func() { n.SummaryOfMessages(allMsg) })
			after := snapOf(n)
			for i := range own.Keys {
				x := after.Keys[i]
				x.Used = own.Keys[i].Used
				if x != own.Keys[i] {
					c.Fail("key:list", "listing messages changed key %+v into %+v", own.Keys[i], x)
				}
			}
			imp := newStation(k431.WithCallSign("IMP"), k431.WithGroupSize(gs), k431.WithKeyLength(50))
			addKey(r, imp, "XX")
			was := snapOf(imp)
			var ierr error
			c.probe("ImportKeys", size+1000, func() {
				_, ierr = imp.ImportKeys(all, k431.WithPersistence(file), k431.WithPFKString(pfk), k431.WithOverwriteExistingKeysOnImport(r.IntN(2) == 0))
			})
			now := snapOf(imp)
			if ierr != nil && len(now.Keys) < len(was.Keys) || len(now.Keys) == 0 {
				c.Fail("import-lost", "importing lost keys: %v", ierr)
			}
			// and what came in is used
			c.probe("use", size+3000, func() {
				for i := 0; i < 4; i++ {
					imp.NewTextMessage(string(k.CallSign)+" DE IMP = "+radioText(r, 30)+" = K", string(imp.Keys[r.IntN(len(imp.Keys))].Id))
					imp.NewTextMessage("IMP DE XX = " + string(imp.Keys[r.IntN(len(imp.Keys))].Id) + " " + groupsOf(letters(r, 40), gs) + " = K")
				}
				imp.SummaryOfKeys(all)
				imp.SummaryOfMessages(allMsg)
			})
		}
	} else {
		c.Count("not_saved", 1)
	}
	c.probe("ExportKeys", size, func() {
		e := k.ExportKeys(all)
		e.Wipe()
	})
	same("exporting")
	c.probe("GenerateKeys", size+k.KeyLength*3, func() { k.GenerateKeys(2, nil, "AA") })
	c.probe("Wipe", size, func() {
		if r.IntN(2) == 0 {
			for i := range k.Keys {
				k.Keys[i].ZeroWipe()
			}
			for i := range k.Messages {
				k.Messages[i].ZeroWipe()
			}
		}
		k.Wipe()
	})
}

func hostileTime(r *mrand.Rand) time.Time {
	switch r.IntN(5) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(r.Int64()-math.MaxInt64/2, 0)
	case 2:
		return time.Date(pick(r, -1, 0, 9999, 10000, 292277026596), 1, 1, 0, 0, 0, 0, time.UTC)
	case 3:
		return time.Now().In(time.FixedZone(string(hostileRunes(r, 5)), pick(r, 1, -1, 3601, 50000, -86399, 86400*3)))
	}
	return anyTime(r)
}

// c33Sizes are the large inputs: the work has to grow like the input.
var c33Sizes = []string{"clear text", "one word", "traffic", "unknown traffic", "spaces", "line breaks", "equals", "DE", "call-signs", "no radiogram", "trail", "decipher", "key change loop", "encipher", "long key", "long ids", "many ids", "summary lines", "keepers", "many keys", "many messages", "digits", "commas", "comments"}

func c33Size(c *Case) {
	r := c.R
	kind := c33Sizes[c.Idx%len(c33Sizes)]
	n := pick(r, 100000, 200000, 300000)
	if c.Thorough {
		n = pick(r, 10000, 100000, 400000, 1000000)
	}
	f := cfg{5, 350}
	k := cipherStation("AA", f)
	for i := 0; i < 5; i++ {
		addKey(r, k, "BB")
	}
	c.Note("kind", fmt.Sprintf("%s, %d characters", kind, n))
	c.Count("big_calls", 1)
	c.Distinct(kind, n)
	rep := func(s string) string { return strings.Repeat(s, n/len(s)+1)[:n] }
	give := func(s string) {
		before := snapOf(k)
		var err error
		var m *k431.Message
		c.probe(kind, len(s), func() { m, err = k.NewTextMessage(s) })
		c.c33After("radiogram", before, snapOf(k), err != nil)
		if err == nil {
			c.probe(kind+": Message.String", 3*len(s), func() { _ = m.String() })
			c.probe(kind+": SummaryOfMessages", 3*len(s), func() { k.SummaryOfMessages(allMsg) })
		}
	}
	switch kind {
	case "clear text":
		give("AA DE BB = " + rep("HELLO WORLD ") + " = K")
	case "one word":
		give("AA DE BB = " + rep("HELLO, ÅÄÖ") + " = K")
	case "traffic":
		give("AA DE BB = " + string(k.Keys[0].Id) + " " + groupsOf(letters(r, n), 5) + " = K")
	case "unknown traffic":
		give("AA DE BB = " + groupsOf(letters(r, n), 5) + " = K")
	case "spaces":
		give("AA DE BB = A" + rep(" ") + "B = K")
		give(rep(" ") + "AA DE BB = A = K" + rep(" "))
		give("AA" + rep(" ") + "DE" + rep(" ") + "BB" + rep(" ") + "= A = K")
	case "line breaks":
		give("AA DE BB = A" + rep("\r\n") + "B = K")
		give(rep("\n"))
	case "equals":
		give("AA DE BB " + rep("=") + " A = K")
		give("AA DE BB = " + rep("= ") + " A = K")
		give(rep("="))
	case "DE":
		give(rep("DE "))
		give(rep("DE AA "))
		give(rep("AA DE BB = "))
	case "call-signs":
		give(rep("CALL,") + " DE BB = HELLO = K")
		give(rep("CALL ") + "DE BB = HELLO = K")
		give("BB DE " + rep("C") + " = HELLO = K")
		give(rep("C") + " DE AA = HELLO = K")
	case "no radiogram":
		give(rep("HELLO "))
		give(rep("A"))
		give(rep("\x00\xff"))
	case "trail":
		give("AA DE BB = HELLO " + rep("= K "))
		give("AA DE BB = HELLO " + rep("[AR]"))
		give("AA DE BB = HELLO " + rep(" + "))
	case "digits":
		give("AA DE BB " + rep("1") + " = HELLO = K")
		give("AA DE BB 17" + rep("1") + "ZMAY24 = HELLO = K")
	case "commas":
		give(rep(",") + " DE BB = HELLO = K")
		give("BB" + rep(", ") + "CC DE AA = HELLO = K")
	case "decipher":
		key := addKeyLen(r, k, 5, n, "BB")
		text := genText(r, n/6)
		cipher, _, ok := refEncipher(r, text, []refKey{{string(key.Id), key.Runes}}, 5, 0)
		if !ok {
			c.Error("refEncipher")
		}
		m := newMsg(k, nil)
		m.KeyId, m.CipherText = append([]rune(nil), key.Id...), cipher
		c.probe(kind, 2*n, func() {
			if err := m.Decipher(); err != nil || string(m.PlainText) != string(text) {
				c.Fail("big-decipher", "%d letters are not deciphered: %v", len(cipher), err)
			}
		})
		c.probe(kind+": Message.String", 3*n, func() { _ = m.String() })
		c.Count("deciphered", 1)
	case "key change loop":
		// a key whose first letters lead to itself
		key := &k.Keys[0]
		var enc []int
		enc = append(enc, 25, 24) // second table, change key
		for _, ch := range key.Id {
			enc = append(enc, int(ch-'A'))
		}
		m := newMsg(k, nil)
		m.KeyId = append([]rune(nil), key.Id...)
		for len(m.CipherText) < n {
			for i, e := range enc {
				m.CipherText = append(m.CipherText, rune('A'+refTri(int(key.Runes[i]-'A'), e)))
			}
		}
		c.probe(kind, n, func() { m.Decipher() })
	case "encipher":
		key := addKeyLen(r, k, 5, 5*n, "CC")
		m := newMsg(k, genText(r, n), "CC")
		m.KeyId = append([]rune(nil), key.Id...)
		c.probe(kind, 4*n, func() {
			if err := m.Encipher(); err != nil {
				c.Fail("big-encipher", "%d characters are not enciphered: %v", n, err)
			}
		})
		m = newMsg(k, genText(r, n), "BB")
		before := snapOf(k)
		c.probe(kind+" without keys enough", 4*n, func() {
			if err := m.Encipher(); err == nil {
				c.Fail("big-encipher", "%d characters are enciphered with 5 keys", n)
			}
		})
		c.c33After("long text", before, snapOf(k), true)
	case "long key":
		addKeyLen(r, k, 5, n)
		c.probe(kind+": groups", n, func() { k.Keys[5].Groups(); k.Keys[5].GroupsBlock() })
		c.probe(kind+": String", 4*n, func() { _ = k.Keys[5].String() })
		c.probe(kind+": KeysAsText", 4*n, func() { k.KeysAsText(all) })
	case "long ids":
		id := []rune(rep("AB"))
		c.probe(kind, 20*n, func() {
			k.GetKey(id)
			k.MarkKeyUsed(id, true)
			k.ContainsKeyId(&id)
			k.ContainsMessageId(&id)
			k.DeleteKey(id)
			k.DeleteMessage(id)
			k.FindKey(id)
			k.DeleteKeysBySummaryString(string(id), rep(" "))
		})
	case "many ids":
		var ids []string
		for i := 0; i < n/6; i++ {
			ids = append(ids, string(letters(r, 5)))
		}
		// each is looked for among the keys
		c.probe(kind, 20*n, func() {
			k.DeleteKeyByString(ids...)
			k.DeleteMessageByString(ids...)
			k431.VettedKeys(strings.Join(ids, ","))
			k431.VettedMessageIds(ids...)
		})
		rs := k431.VettedKeys(ids[:2000]...)
		c.probe(kind+": FindKey", 20*n, func() { k.FindKey(rs...) })
	case "summary lines":
		l := rep("ABCDE  something ")
		c.probe(kind, 4*n, func() {
			k.DeleteKeysBySummaryString(l, " "+l)
			k.DeleteMessagesBySummaryString(l, " "+l)
		})
	case "keepers":
		key := &k.Keys[2]
		for i := 0; i < n/500; i++ {
			key.Keepers = append(key.Keepers, letters(r, 6))
		}
		c.probe(kind+": SummaryOfKeys", 20*n, func() { k.SummaryOfKeys(all) })
		c.probe(kind+": String", 20*n, func() { _ = key.String() })
		c.probe(kind+": RemoveKeeper", 20*n, func() { key.RemoveKeeper(key.Keepers...) })
	case "comments":
		k.Keys[1].Comment = []rune(rep("comment "))
		c.probe(kind+": SummaryOfKeys", 40*n, func() { k.SummaryOfKeys(all) })
		c.probe(kind+": String", 20*n, func() { _ = k.Keys[1].String() })
	case "many keys":
		for i := 0; i < n/400; i++ {
			addKeyLen(r, k, 5, 350, "CC")
		}
		c.probe(kind+": SummaryOfKeys", 4*n, func() { k.SummaryOfKeys(all) })
		c.probe(kind+": KeysAsText", 40*n, func() { k.KeysAsText(all) })
		c.probe(kind+": ExportKeys", 4*n, func() { k.ExportKeys(all) })
		c.probe(kind+": GenerateKeys", 4*n, func() { k.GenerateKeys(20, nil) })
		k.SetPersistence(c.Path("x"))
		k.SetPFKFromString(c30PFK)
		c.probe(kind+": Save", 4*n, func() { k.Save() })
		c.probe(kind+": Load", 4*n, func() {
			if err := k.Load(); err != nil {
				c.Fail("many-keys", "%v", err)
			}
		})
	case "many messages":
		for i := 0; i < n/300; i++ {
			m := newMsg(k, letters(r, 100), "BB")
			m.Id = letters(r, 4)
			k.Messages = append(k.Messages, *m)
		}
		c.probe(kind+": SummaryOfMessages", 8*n, func() { k.SummaryOfMessages(allMsg) })
		c.probe(kind+": MessagesAsText", 20*n, func() { k.MessagesAsText(allMsg) })
		c.probe(kind+": NewTextMessage", n, func() { k.NewTextMessage("AA DE BB = HELLO = K") })
	}
}

// --------------------------------------------------------------- stores ----

// c33Seal writes what only somebody with the key can write.
func c33Seal(c *Case, file, pfk string, plain []byte) {
	var key [32]byte
	copy(key[:], unhex(pfk))
	f, err := os.Create(file)
	if err != nil {
		c.Error("%v", err)
	}
	defer f.Close()
	enc, err := stream.NewEncryptedStream(f, &stream.Config{Cipher: stream.NewXSalsa20Poly1305Cipher(&key), Initiator: true})
	if err != nil {
		c.Error("%v", err)
	}
	if _, err := enc.Write(plain); err != nil {
		c.Error("%v", err)
	}
}

func zip(b []byte) []byte {
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

// c33Store: files sealed with the right key that hold something else than a
// station, as an import from somebody else may.
func c33Store(c *Case) {
	r := c.R
	file, pfk := c.Path("hostile"), hexKey(r)
	src := newStation(k431.WithCallSign("SRC"), k431.WithGroupSize(5))
	for i := 0; i < 1+r.IntN(5); i++ {
		addKeyLen(r, src, 5, 60, "AA")
		m := anyMessage(r, src)
		m.DTG.Time = fixedDTG()
		src.Messages = append(src.Messages, m)
	}
	var g bytes.Buffer
	if err := gob.NewEncoder(&g).Encode(src); err != nil {
		c.Error("gob: %v", err)
	}
	b := g.Bytes()
	z := zip(b)
	kind := pick(r, "gob", "gob", "gob", "gob", "gzip", "raw", "types", "empty", "more", "whole", "settings", "twice")
	switch kind {
	case "gob", "more":
		for i := 1 + r.IntN(6); i > 0 && len(b) > 0; i-- {
			p := r.IntN(len(b))
			switch r.IntN(5) {
			case 0:
				b[p] ^= 1 << r.IntN(8)
			case 1:
				b[p] = pick(r, byte(0), 0xff, 0x80, 0xf8, 0x7f, byte(r.IntN(256)))
			case 2:
				b = b[:p]
			case 3:
				b = append(b[:p:p], b[min(len(b), p+1+r.IntN(9)):]...)
			case 4: // a length of 2^60 or so
				b = append(append(append([]byte(nil), b[:p]...), 0xf8, 0x10, 0, 0, 0, 0, 0, 0, byte(r.IntN(256))), b[p:]...)
			}
		}
		if kind == "more" {
			b = append(b, b...)
		}
		z = zip(b)
	case "gzip":
		for i := 1 + r.IntN(4); i > 0; i-- {
			z[r.IntN(len(z))] ^= 1 << r.IntN(8)
		}
		z = z[:r.IntN(len(z)+1)]
	case "raw":
		z = []byte(hostileString(r, r.IntN(500)))
	case "types":
		var o bytes.Buffer
		e := gob.NewEncoder(&o)
		switch r.IntN(6) {
		case 0:
			e.Encode("a string")
		case 1:
			e.Encode(map[string]int{"Keys": 1})
		case 2:
			e.Encode(struct{ Keys string }{"x"})
		case 3:
			e.Encode(struct{ Keys []int }{[]int{1}})
		case 4:
			e.Encode(struct{ GroupSize int }{5})
		case 5:
			e.Encode(struct{ Keys []struct{ Id string } }{})
		}
		z = zip(o.Bytes())
	case "empty":
		z = pick(r, nil, zip(nil), []byte{0x1f, 0x8b})
	case "settings":
		src.GroupSize, src.KeyLength = pick(r, 0, -1, 1, 4, 1000000), pick(r, 0, -5, 20, 100)
		g.Reset()
		gob.NewEncoder(&g).Encode(src)
		z = zip(g.Bytes())
	case "twice":
		z = append(append([]byte(nil), z...), z...)
	}
	c33Seal(c, file, pfk, z)
	c.Note("kind", kind)
	c.Distinct(kind, string(z))
	// a station that has loaded something else before
	own := c.Path("own")
	k := fileStation("AA", cfg{5, 60}, own, pfk)
	for i := 0; i < 3; i++ {
		addKey(r, k, "BB")
	}
	m := anyMessage(r, k)
	m.DTG.Time = fixedDTG()
	k.Messages = append(k.Messages, m)
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	if err := k.Load(); err != nil {
		c.Fatal("load", "%v", err)
	}
	before := snapOf(k)
	size := len(b) + len(z) + 3000
	var n int
	var err error
	if !c.probe("ImportKeys", size, func() {
		n, err = k.ImportKeys(all, k431.WithPersistence(file), k431.WithPFKString(pfk), k431.WithSaltString(k431.DefaultSalt))
	}) {
		return
	}
	after := snapOf(k)
	if err != nil {
		c.Count("stores_refused", 1)
		if kind == "whole" || kind == "settings" {
			c.Fail("store-refused", "a good store is refused: %v", err)
		}
		c.c33After("import", before, after, true)
	} else {
		c.Count("stores_loaded", 1)
		if len(after.Keys) != len(before.Keys)+n {
			c.Fail("import-count", "%d keys and %d imported make %d", len(before.Keys), n, len(after.Keys))
		}
		x := after
		x.Keys = x.Keys[:min(len(x.Keys), len(before.Keys))]
		if d := diff(before, x); d != "" {
			c.Fail("import-changed", "importing changed the station: %s", d)
		}
	}
	before = after
	k.SetPersistence(file)
	if !c.probe("Load", size, func() { err = k.Load() }) {
		return
	}
	if err != nil {
		c.c33After("load", before, snapOf(k), true)
		k.SetPersistence(own)
		if err := k.Load(); err != nil {
			c.Fail("own", "the own store does not load any more: %v", err)
		}
		return
	}
	if kind == "settings" {
		return
	}
	// what is loaded can be listed and printed
	if k.GroupSize < 1 || k.GroupSize > 1000 || k.KeyLength < 0 || k.Columns < 0 || k.Columns > 5000 || k.KeyColumns < k.GroupSize || k.KeyColumns > 5000 {
		c.Count("bad_settings", 1)
		return
	}
	size += len(fmt.Sprint(snapOf(k)))*4 + (len(k.Keys)+len(k.Messages)+1)*6000
	c.probe("list", 10*size, func() {
		k.SummaryOfKeys(all)
		k.SummaryOfMessages(allMsg)
		k.KeysAsText(all)
		k.MessagesAsText(allMsg)
	})
}

// ------------------------------------------------------------------ cli ----

func c33CLI(c *Case) {
	r := c.R
	file, pfk := c.Path("store"), hexKey(r)
	cs := genCalls(r, 3)
	k := fileStation(cs[0], cfg{5, 60}, file, pfk)
	for i := 0; i < 4; i++ {
		addKey(r, k, cs[1])
	}
	m := newMsg(k, genText(r, 20), cs[1])
	m.Id = letters(r, 4)
	k.Messages = append(k.Messages, *m)
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	arg := func(n int) string { // an argument holds no zero bytes
		return strings.ReplaceAll(hostileString(r, n), "\x00", "?")
	}
	base := []string{"-f", file, "-K", pfk}
	o := cmdOpt{timeout: 200 * time.Second}
	var steps []step
	kind := r.IntN(10)
	switch kind {
	case 0, 1: // a radiogram on standard input
		o.stdin = pick(r, hostileRadiogram(r), pick(r, cs[0], "")+" DE "+cs[1]+" = "+string(k.Keys[0].Id)+hostileString(r, 100)+" = K", cs[1]+" DE "+cs[0]+" = "+hostileString(r, 60)+" = K", hostileString(r, 30000))
		base = append(base, "messages", "--new")
		c.Note("stdin", fmt.Sprintf("%.500q", o.stdin))
	case 2:
		base = append(base, "keys", "--delete", "--yes", "--id", arg(r.IntN(40)), "--id", arg(r.IntN(6)))
	case 3:
		base = append(base, "messages", "--delete", "--yes", "--id", arg(r.IntN(40)))
	case 4:
		base = append(base, "keys", "--list", "--keepers", arg(r.IntN(40)), pick(r, "--used", "--unused", "--valid=7", "--valid="+arg(5)), pick(r, "--expired", "--or", "--compromised"), "--id="+arg(6))
	case 5:
		base = append(base, "keys", "--new", pick(r, "1", arg(3), "-1", "99999999999999999999"), "--keepers", arg(r.IntN(30)), pick(r, "--expire=", "-x=", "--id=")+arg(r.IntN(10)))
	case 6: // another store to import, with hostile contents
		other, password := c.Path("other"), "correct horse battery staple "+string(letters(r, 5))
		key := pbkdf(password, k431.DefaultSalt)
		switch r.IntN(3) {
		case 0:
			c33Seal(c, other, key, []byte(hostileString(r, 200)))
		case 1:
			os.WriteFile(other, []byte(hostileString(r, 200)), 0600)
		case 2:
			x := fileStation("XX", cfg{5, 60}, other, key)
			for i := 0; i < 3; i++ {
				y := anyKey(r, x)
				y.Created.Time, y.Expires.Time = fixedDTG(), fixedDTG()
				y.Runes = hostileRunes(r, 60)
				x.Keys = append(x.Keys, y)
			}
			if err := x.Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
		}
		base = append(base, "keys", "--import", other, pick(r, "--all", "--unused", "--id="+arg(5)))
		steps = []step{{"Enter decryption key", password + "\r"}}
	case 7: // a damaged store
		b, _ := os.ReadFile(file)
		for i := 1 + r.IntN(5); i > 0; i-- {
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		}
		if r.IntN(2) == 0 {
			b = b[:r.IntN(len(b))]
		}
		os.WriteFile(file, b, 0600)
		base = append(base, pick(r, "keys", "messages"), "--list")
	case 8:
		base = append(base, pick(r, "keys", "messages", "pfk", arg(5)), arg(5), arg(6))
	case 9:
		base = append([]string{"-f", file, pick(r, "-K", "-K", "-P", "-S", "-M"), arg(64)}, pick(r, "keys", "messages"), "--list")
	}
	c.Note("args", fmt.Sprintf("%.600q", base))
	c.Distinct(base, o.stdin)
	before, _ := os.ReadFile(file)
	var res ran
	if steps != nil {
		res, _ = c.runPTY(o, steps, *fCLI, base...)
		res.err = res.out
	} else {
		res = c.run(o, *fCLI, base...)
	}
	c.Note("output", fmt.Sprintf("%.1000q", res.err))
	c.Count("cli_runs", 1)
	c.Count(fmt.Sprintf("cli_%d", kind), 1)
	c.Count(fmt.Sprintf("cli_exit_%d", res.code), 1)
	if res.signal != 0 || res.code == 2 && strings.Contains(res.err, "goroutine ") || strings.Contains(res.err, "panic:") && strings.Contains(res.err, "goroutine ") {
		c.Fail("cli-crash", "the program crashed (exit %d, signal %v):\n%.3000s", res.code, res.signal, res.err)
	}
	after, _ := os.ReadFile(file)
	if res.code != 0 && !bytes.Equal(before, after) {
		c.Fail("cli-changed", "the program failed (%d, %.300q) and the store is another", res.code, res.err)
	}
	left, _ := filepath.Glob(filepath.Join(c.Dir(), ".*"))
	for _, x := range left {
		if strings.Contains(filepath.Base(x), "store") {
			c.Fail("cli-left", "%s is left behind", x)
		}
	}
}

func hostileRune(r *mrand.Rand) rune {
	for {
		if x := hostileRunes(r, 1); len(x) > 0 {
			return x[0]
		}
	}
}
