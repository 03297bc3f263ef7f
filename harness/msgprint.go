package main

import (
	"fmt"
	mrand "math/rand/v2"
	"os"
	"regexp"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

func init() {
	register(&Prop{ID: "C22",
		Rule:        "Stores of outgoing enciphered, received clear, received enciphered (keys held, missing, or imported later) and hand-made messages; every print-out (width 1-300, text, text file, PDF) is taken apart: identity, date-time group, sender, recipients, the whole plain text, the whole cipher text behind its key id, with line widths respected; lists are read by the columns of their header; selections are compared with the filter. Deep snapshots show what printing and listing changed. Non-trivial: distinct message and width.",
		Assumptions: []string{"text is wrapped at white space, the spaces at a line break are not part of the text", "the font of the PDF is monospaced at 0.6 em"},
		Need:        []string{"messages", "enciphered", "undeciphered", "clear", "wide", "multi_line", "text_files", "pdfs", "pdf_oversize", "list_rows", "key_rows", "listing_deciphered", "traffic"},
		Sections: []Section{
			{Name: "message", Quick: 4000, Thorough: 30000, Run: c22Message},
			{Name: "printout", Quick: 800, Thorough: 2500, Run: c22Printout},
			{Name: "list", Quick: 4000, Thorough: 12000, Run: c22List},
			{Name: "keylist", Quick: 4000, Thorough: 30000, Run: c22KeyList},
		}})
}

// printText is text as messages hold it: printable, no line breaks, not
// beginning or ending in a space.
func printText(r *mrand.Rand) string {
	n := pick(r, 1, 2, 10, 34, 35, 36, 80, 95, 96, 200, r.IntN(600)+1)
	if r.IntN(12) == 0 {
		n = 1000 + r.IntN(6000)
	}
	var out []rune
	word := pick(r, 1, 6, 6, 12, 60, 200)
	alphabet := []rune("abcdefghijklmnopqrstuvwxyzåäöABCDEFGHIJKLMNOPQRSTUVWXYZÅÄÖ0123456789?-.,:+/")
	if r.IntN(4) == 0 {
		alphabet = append(alphabet, []rune("=()\\[]%&#\"'!éüßñøÆ~{}<>;*@$_|^`¤→↕")...)
	}
	for len(out) < n {
		for i := r.IntN(word) + 1; i > 0 && len(out) < n; i-- {
			out = append(out, pick(r, alphabet...))
		}
		out = append(out, ' ')
		for r.IntN(12) == 0 {
			out = append(out, ' ')
		}
	}
	s := strings.TrimSpace(string(out))
	if r.IntN(30) == 0 {
		s = pick(r, "=TEXT=", "=CIPHER= ABCDE", "=TEXT= x =TRAFFIC=EXAMPLE= y =CIPHER=", "TO: X FROM (DE): Y")
	}
	return s
}

// printMessages fills a station with messages of all kinds.
func printMessages(c *Case, r *mrand.Rand, k, other *k431.Krypto431, n int) {
	for len(k.Messages) < n {
		switch r.IntN(6) {
		case 0: // outgoing
			to := latinCalls(r, r.IntN(4))
			text := string(genText(r, 1+r.IntN(500)))
			text = strings.TrimSpace(text)
			if text == "" {
				continue
			}
			fillKeys(r, k, cfg{k.GroupSize, k.KeyLength}, needKeys(len(text), cfg{k.GroupSize, k.KeyLength}), false, to...)
			m := newMsg(k, []rune(text), to...)
			m.Id = k.NewUniqueMessageId()
			m.DTG.Time = randTime(r)
			if err := m.Encipher(); err != nil {
				c.Fatal("encipher", "enciphering failed: %v", err)
			}
			k.Messages = append(k.Messages, *m)
			c.Count("enciphered", 1)
		case 1, 2: // incoming enciphered, keys not (yet) held or held
			text := strings.TrimSpace(string(genText(r, 1+r.IntN(300))))
			if text == "" {
				continue
			}
			me := string(k.CallSign)
			f := cfg{other.GroupSize, other.KeyLength}
			old := len(other.Keys)
			fillKeys(r, other, f, needKeys(len(text), f), false, me)
			m := newMsg(other, []rune(text), me)
			m.DTG.Time = randTime(r)
			if err := m.Encipher(); err != nil {
				c.Fatal("encipher", "enciphering failed: %v", err)
			}
			if r.IntN(2) == 0 {
				for i := old; i < len(other.Keys); i++ {
					copyKey(k, &other.Keys[i], string(other.CallSign))
				}
			}
			g, _ := m.Groups()
			if _, err := k.NewTextMessage(fmt.Sprintf("%s DE %s %s = %s %s = K", me, string(other.CallSign), dtgString(m.DTG.Time), string(m.KeyId), string(*g))); err != nil {
				c.Fatal("receive", "receiving traffic failed: %v", err)
			}
			last := &k.Messages[len(k.Messages)-1]
			if len(last.CipherText) == 0 {
				c.Count("undeciphered", 1)
			}
		case 3: // incoming clear
			cs := genCalls(r, 2)
			if cs[1] == string(k.CallSign) {
				continue
			}
			if _, err := k.NewTextMessage(fmt.Sprintf("%s DE %s = %s = K", cs[0], cs[1], radioText(r, 1+r.IntN(200)))); err != nil {
				c.Fatal("receive", "receiving clear text failed: %v", err)
			}
			c.Count("clear", 1)
		default: // made by hand, as an older program or another station may have left it
			m := k431.Message{Id: k.NewUniqueMessageId(), From: []rune(latinCalls(r, 1)[0]), Recipients: calls(latinCalls(r, pick(r, 0, 1, 2, 5, r.IntN(25)))...)}
			m.DTG.Time = randTime(r)
			if r.IntN(5) > 0 {
				m.PlainText = []rune(printText(r))
				if r.IntN(12) == 0 {
					m.PlainText = append(m.PlainText, []rune(" "+strings.TrimSpace(string(genText(r, 5000+r.IntN(3000)))))...)
				}
			}
			if r.IntN(3) > 0 {
				m.KeyId = letters(r, k.GroupSize)
				m.CipherText = letters(r, pick(r, k.GroupSize, 2*k.GroupSize, k.GroupSize*(1+r.IntN(300)), 1+r.IntN(50)))
			}
			if r.IntN(15) == 0 {
				m.From = nil
			}
			m.SetInstance(k)
			k.Messages = append(k.Messages, m)
		}
	}
}

var (
	msgLine1 = regexp.MustCompile(`^(\S+) +TO: (.*)$`)
	msgLine2 = regexp.MustCompile(`^ID: +(\S*) *FROM \(DE\): ?(.*)$`)
)

// take removes the lines of a section whose words are want and returns the
// rest.
func takeWords(l []string, want []string, width int) (rest []string, err error) {
	i := 0
	for n, x := range l {
		if i >= len(want) {
			return l[n:], nil
		}
		f := strings.Fields(x)
		if len([]rune(strings.TrimRight(x, " "))) > width && len(f) > 1 {
			return nil, fmt.Errorf("a line is %d wide instead of %d: %q", len([]rune(x)), width, x)
		}
		for _, w := range f {
			if i >= len(want) {
				return nil, fmt.Errorf("superfluous text %q in line %q", w, x)
			}
			if w != want[i] {
				return nil, fmt.Errorf("word %d of %d is %q instead of %q", i, len(want), w, want[i])
			}
			i++
		}
	}
	if i < len(want) {
		return nil, fmt.Errorf("%d of %d words are missing", len(want)-i, len(want))
	}
	return nil, nil
}

func chunks(s []rune, gs int) (out []string) {
	for i := 0; i < len(s); i += gs {
		out = append(out, string(s[i:min(len(s), i+gs)]))
	}
	return
}

func listOf(x [][]rune, nothing string) string {
	var s []string
	for _, v := range x {
		s = append(s, string(v))
	}
	if len(s) == 0 {
		return nothing
	}
	return strings.Join(s, ",")
}

// checkMessage compares the print-out of one message with the message.
func (c *Case) checkMessage(m *msgView, text string, gs int) {
	bad := func(sig, format string, a ...any) {
		c.Fatal(sig, "print-out of message %s: %s\n%s", m.id, fmt.Sprintf(format, a...), text)
	}
	l := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if len(l) < 3 {
		bad("message-lines", "only %d lines", len(l))
	}
	if strings.Trim(l[0], "_") != "" {
		bad("message-head", "the first line is %q", l[0])
	}
	width := len([]rune(l[0]))
	a, b := msgLine1.FindStringSubmatch(l[1]), msgLine2.FindStringSubmatch(l[2])
	if a == nil || b == nil {
		bad("message-head", "the head is damaged")
	}
	if w := dtgString(m.dtg); a[1] != w {
		bad("message-dtg", "the date-time group is %q instead of %q", a[1], w)
	}
	if a[2] != m.to {
		bad("message-to", "the recipients are %q instead of %q", a[2], m.to)
	}
	if b[1] != m.id {
		bad("message-id", "the id is %q instead of %q", b[1], m.id)
	}
	if strings.TrimSpace(b[2]) != m.from {
		bad("message-from", "the sender is %q instead of %q", b[2], m.from)
	}
	for _, x := range l[1:3] {
		if len([]rune(x)) > width {
			bad("message-head", "the head is wider than the page")
		}
	}
	rest := l[3:]
	var err error
	section := func(name string, words []string) {
		if len(rest) == 0 || strings.TrimSpace(rest[0]) != name {
			bad("message-section", "%s is missing", name)
		}
		body := rest[1:]
		if rest, err = takeWords(body, words, width); err != nil {
			bad("message-text", "%s: %v", name, err)
		}
		if len(body)-len(rest) > 1 {
			c.Count("multi_line", 1)
		}
	}
	if len(m.plain) > 0 {
		section("=TEXT=", strings.Fields(m.plain))
		// Spaces inside a line are kept as they are.
		if body := l[4 : len(l)-len(rest)]; len(body) == 1 && strings.TrimSpace(body[0]) != m.plain {
			bad("message-spaces", "the text is %q instead of %q", body[0], m.plain)
		}
	}
	if len(m.cipher) > 0 {
		groups := append([]string{m.keyID}, chunks([]rune(m.cipher), gs)...)
		section("=CIPHER=", groups)
		if len(rest) > 0 && rest[0] == "=TRAFFIC=EXAMPLE=" {
			// What the example says is judged by C09.
			tail := strings.Fields(strings.Join(rest[1:], " "))
			if len(tail) < len(groups)+2 || strings.Join(tail[len(tail)-2-len(groups):], " ") != strings.Join(groups, " ")+" = K" {
				bad("message-traffic", "the traffic does not end in the groups of the cipher text")
			}
			c.Count("traffic", 1)
			rest = nil
		}
	}
	if s := strings.TrimSpace(strings.Join(rest, "")); s != "" {
		bad("message-more", "there is more: %q", s)
	}
	c.Count("messages", 1)
}

// msgView is what a message held before it was printed.
type msgView struct {
	id, to, from, plain, cipher, keyID string
	dtg                                time.Time
}

func viewOf(m *k431.Message) *msgView {
	return &msgView{string(m.Id), listOf(m.Recipients, "NIL"), string(m.From), string(m.PlainText), string(m.CipherText), string(m.KeyId), m.DTG.Time}
}

func printStations(r *mrand.Rand) (k, other *k431.Krypto431) {
	cs := genCalls(r, 2)
	gs := pick(r, 5, 5, 5, 4, 3, 6, 8, 10)
	f := cfg{gs, pick(r, 350, 100, 60)}
	k, other = cipherStation(cs[0], f), cipherStation(cs[1], f)
	return
}

func c22Message(c *Case) {
	r := c.R
	k, other := printStations(r)
	printMessages(c, r, k, other, 4)
	before := snapOf(k)
	for i := range k.Messages {
		m := &k.Messages[i]
		v := viewOf(m)
		c.Note("message", v.id)
		c.checkMessage(v, m.String(), k.GroupSize)
		w := pick(r, 80, 95, 40, 60, 79, 81, 120, 1+r.IntN(300))
		c.Note("width", w)
		s := m.String(w)
		c.checkMessage(v, s, k.GroupSize)
		if n := len([]rune(strings.SplitN(s, "\n", 2)[0])); n < w {
			c.Fatal("message-width", "the print-out is %d wide, asked for %d", n, w)
		} else if n > w {
			c.Count("wide", 1)
		}
		c.Distinct(v.id, w)
		c.Eval(2)
	}
	if d := diff(before, snapOf(k)); d != "" {
		c.Fatal("changed", "printing messages changed the station: %s", d)
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"message": k.Messages[0].String()})
	}
}

// messagesOf takes a text print-out apart.
func (c *Case) checkMessagesText(what, text string, want []*msgView, gs int) {
	// Print-outs of messages begin with a line of underscores; a message may
	// itself hold such a line only if its text does.
	items := cardsOf(text)
	if len(items) != len(want) {
		c.Fatal(what+"-number", "%d messages are printed for %d selected", len(items), len(want))
	}
	for i, v := range want {
		c.checkMessage(v, items[i], gs)
	}
}

func c22Printout(c *Case) {
	r := c.R
	k, other := printStations(r)
	printMessages(c, r, k, other, pick(r, 0, 1, 2, 4, 8, 20))
	before := snapOf(k)
	sel := map[string]bool{}
	var want []*msgView
	var chosen []*k431.Message
	p := r.IntN(4)
	for i := range k.Messages {
		if strings.Contains("_"+string(k.Messages[i].PlainText), "___") {
			continue
		}
		if p == 0 || r.IntN(4) < p {
			sel[string(k.Messages[i].Id)] = true
			want = append(want, viewOf(&k.Messages[i]))
			chosen = append(chosen, &k.Messages[i])
		}
	}
	filter := func(m *k431.Message) bool { return sel[string(m.Id)] }
	c.Note("messages", len(k.Messages))
	c.Note("selected", len(want))
	c.checkMessagesText("text", k.MessagesAsText(filter), want, k.GroupSize)
	file, pdf := c.Path("m.txt"), c.Path("m.pdf")
	if len(want) > 0 && r.IntN(3) == 0 {
		os.WriteFile(file, []byte(strings.Repeat("old print-out\n", 20000)), 0600)
		os.WriteFile(pdf, []byte(strings.Repeat("old print-out\n", 200000)), 0600)
	}
	err := k.MessagesTextFile(filter, file)
	b, rerr := os.ReadFile(file)
	if len(want) == 0 {
		if err == nil && rerr == nil && len(b) > 0 {
			c.Fatal("empty-text", "printing no message wrote %d bytes", len(b))
		}
	} else {
		c.Must(err == nil && rerr == nil, "text-file", "printing to a text file: %v %v", err, rerr)
		c.checkMessagesText("text-file", string(b), want, k.GroupSize)
		c.Count("text_files", 1)
	}
	err = k.MessagesPDF(filter, pdf)
	if len(want) == 0 {
		if b, e := os.ReadFile(pdf); err == nil && e == nil {
			if runs, _, e := readPDF(b); e == nil && len(runs) > 0 {
				c.Fatal("empty-pdf", "printing no message wrote %d lines", len(runs))
			}
		}
	} else {
		c.Must(err == nil, "pdf", "printing to a PDF: %v", err)
		var items []string
		over := 0
		for i, m := range chosen {
			s := m.String(95)
			c.checkMessage(want[i], s, k.GroupSize)
			// The PDF is compared up to spaces and the lengths of lines of
			// underscores; both were judged above.
			items = append(items, s)
			if strings.Count(s, "\n")+2 > 65 {
				over++
			}
		}
		c.checkPDF("pdf", pdf, items, 95)
		if over > 0 {
			c.Count("pdf_oversize", 1)
		}
	}
	if d := diff(before, snapOf(k)); d != "" {
		c.Fatal("changed", "printing changed the store: %s", d)
	}
	c.Distinct(len(k.Messages), len(want))
	c.Eval(3)
}

// table reads a list by the columns of its header.
func table(header string, names []string, row string) (cells []string, err error) {
	h := []rune(header)
	at := make([]int, len(names))
	from := 0
	for i, n := range names {
		j := strings.Index(string(h[from:]), n)
		if j < 0 {
			return nil, fmt.Errorf("the header has no column %s: %q", n, header)
		}
		at[i] = from + j
		from = at[i] + len(n)
	}
	x := []rune(row)
	for i := range names {
		lo, hi := at[i], len(x)
		if i+1 < len(names) {
			hi = at[i+1]
		}
		if lo >= len(x) {
			cells = append(cells, "")
			continue
		}
		hi = min(hi, len(x))
		if lo > 0 && x[lo-1] != ' ' {
			return nil, fmt.Errorf("column %s begins in the middle of a word: %q", names[i], row)
		}
		cells = append(cells, strings.TrimRight(string(x[lo:hi]), " "))
	}
	return
}

var messageColumns = []string{"ID", "DTG", "TO", "DE", "DIGEST"}
var keyColumns = []string{"ID", "KEEPERS", "CREATED", "EXPIRES", "USED", "COMPROMISED", "COMMENT"}

// checkMessageRow compares a row of the list with a message.
func (c *Case) checkMessageRow(header, row string, v *msgView) {
	cells, err := table(header, messageColumns, row)
	if err != nil {
		c.Fatal("list-columns", "%v\n%s\n%s", err, header, row)
	}
	from := v.from
	if from == "" {
		from = "NIL"
	}
	all := []rune(v.plain + v.cipher)
	digest := string(all)
	if len(all) > 35 {
		digest = string(all[:34]) + "…"
	}
	for i, w := range []string{v.id, dtgString(v.dtg), v.to, from, strings.TrimRight(digest, " ")} {
		if cells[i] != w {
			c.Fatal("list-"+messageColumns[i], "message %s is listed with %s %q instead of %q\n%s\n%s", v.id, messageColumns[i], cells[i], w, header, row)
		}
	}
	c.Count("list_rows", 1)
}

func c22List(c *Case) {
	r := c.R
	k, other := printStations(r)
	printMessages(c, r, k, other, pick(r, 1, 2, 4, 8, 15))
	// The missing keys arrive.
	if r.IntN(2) == 0 {
		for i := range other.Keys {
			held := false
			for j := range k.Keys {
				held = held || string(k.Keys[j].Id) == string(other.Keys[i].Id)
			}
			if !held && r.IntN(4) > 0 {
				copyKey(k, &other.Keys[i], string(other.CallSign))
			}
		}
	}
	before := snapOf(k)
	keys := keyMap(k)
	usedBefore := usedIDs(k)
	sel := map[string]bool{}
	var chosen []*k431.Message
	p := r.IntN(4)
	for i := range k.Messages {
		if p == 0 || r.IntN(4) < p {
			sel[string(k.Messages[i].Id)] = true
			chosen = append(chosen, &k.Messages[i])
		}
	}
	header, lines := k.SummaryOfMessages(func(m *k431.Message) bool { return sel[string(m.Id)] })
	if len(lines) != len(chosen) {
		c.Fatal("list-number", "%d messages are listed for %d selected", len(lines), len(chosen))
	}
	// Deciphered is what begins with a held key and could be deciphered, and
	// nothing else changed.
	after := snapOf(k)
	mayUse := map[string]bool{}
	for i := range k.Messages {
		m := &k.Messages[i]
		b, a := before.Messages[i], after.Messages[i]
		if b == a {
			continue
		}
		if !sel[string(m.Id)] {
			c.Fatal("list-other", "listing changed message %s, which was not selected: %s", string(m.Id), fieldDiff(fmt.Sprint(b), fmt.Sprint(a)))
		}
		if b.KeyID != "" {
			c.Fatal("list-changed", "listing changed message %s, which was deciphered before", string(m.Id))
		}
		d, err := refDecipher(keys, k.GroupSize, string(m.KeyId), m.CipherText)
		if err != nil {
			c.Fatal("list-deciphered", "message %s was deciphered with key %s, its cipher text can not be: %v", string(m.Id), string(m.KeyId), err)
		}
		if string(d.Text) != string(m.PlainText) {
			c.Fatal("list-deciphered", "message %s was deciphered to %q instead of %q", string(m.Id), string(m.PlainText), string(d.Text))
		}
		// Otherwise unchanged.
		b.Plain, b.Cipher, b.KeyID = a.Plain, a.Cipher, a.KeyID
		if a != b {
			c.Fatal("list-changed", "listing changed more than the text of message %s: %s", string(m.Id), fieldDiff(fmt.Sprint(b), fmt.Sprint(a)))
		}
		for _, id := range d.Chain {
			mayUse[id] = true
		}
		c.Count("listing_deciphered", 1)
	}
	for id := range newly(usedBefore, usedIDs(k)) {
		if !mayUse[id] {
			c.Fatal("list-used", "listing marked key %s used, which deciphered nothing", id)
		}
	}
	for i := range after.Keys {
		a, b := after.Keys[i], before.Keys[i]
		b.Used = a.Used
		if a != b {
			c.Fatal("list-keys", "listing changed a key: %s", fieldDiff(fmt.Sprint(b), fmt.Sprint(a)))
		}
	}
	for i, m := range chosen {
		c.checkMessageRow(string(header), string(lines[i]), viewOf(m))
	}
	// A second look shows the same and changes nothing.
	h2, l2 := k.SummaryOfMessages(func(m *k431.Message) bool { return sel[string(m.Id)] })
	if string(h2) != string(header) || fmt.Sprint(l2) != fmt.Sprint(lines) {
		c.Fatal("list-again", "listing again shows something else")
	}
	if d := diff(after, snapOf(k)); d != "" {
		c.Fatal("list-again", "listing again changed the station: %s", d)
	}
	c.Distinct(len(k.Messages), len(chosen), string(k.Messages[0].Id))
	c.Eval(1 + len(chosen))
}

// checkKeyRow compares a row of the key list with a key.
func (c *Case) checkKeyRow(header, row string, key *k431.Key) {
	cells, err := table(header, keyColumns, row)
	if err != nil {
		c.Fatal("keylist-columns", "%v\n%s\n%s", err, header, row)
	}
	yes := map[bool]string{true: "Yes", false: "No"}
	for i, w := range []string{string(key.Id), listOf(key.Keepers, "Anonymous"), dtgString(key.Created.Time), dtgString(key.Expires.Time), yes[key.Used], yes[key.Compromised], strings.TrimRight(string(key.Comment), " ")} {
		if cells[i] != w {
			c.Fatal("keylist-"+keyColumns[i], "key %s is listed with %s %q instead of %q\n%s\n%s", string(key.Id), keyColumns[i], cells[i], w, header, row)
		}
	}
	c.Count("key_rows", 1)
}

func c22KeyList(c *Case) {
	r := c.R
	k := newStation(k431.WithCallSign(genCalls(r, 1)[0]), k431.WithGroupSize(pick(r, 5, 5, 5, 4, 3, 2, 6, 8, 12)))
	for i := r.IntN(12); i >= 0; i-- {
		key := addKeyLen(r, k, k.GroupSize, 20, latinCalls(r, pick(r, 0, 1, 2, 3, 7, 12))...)
		key.Created.Time, key.Expires.Time = randTime(r), randTime(r)
		key.Used, key.Compromised = r.IntN(2) == 0, r.IntN(2) == 0
		if r.IntN(2) == 0 {
			key.Comment = []rune(printText(r))
		}
		if r.IntN(4) == 0 {
			key.Comment = nil
		}
	}
	before := snapOf(k)
	sel := map[string]bool{}
	var chosen []*k431.Key
	p := r.IntN(4)
	for i := range k.Keys {
		if p == 0 || r.IntN(4) < p {
			sel[string(k.Keys[i].Id)] = true
			chosen = append(chosen, &k.Keys[i])
		}
	}
	header, lines := k.SummaryOfKeys(func(key *k431.Key) bool { return sel[string(key.Id)] })
	if len(lines) != len(chosen) {
		c.Fatal("keylist-number", "%d keys are listed for %d selected", len(lines), len(chosen))
	}
	for i, key := range chosen {
		c.checkKeyRow(string(header), string(lines[i]), key)
	}
	if d := diff(before, snapOf(k)); d != "" {
		c.Fatal("keylist-changed", "listing keys changed the station: %s", d)
	}
	c.Distinct(k.GroupSize, len(k.Keys), len(chosen), string(k.Keys[0].Id))
	c.Eval(1 + len(chosen))
}
