package main

import (
	"fmt"
	mrand "math/rand/v2"
	"os"
	"regexp"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

func init() {
	register(&Prop{ID: "C21",
		Rule:        "Cards of generated and hand-made keys (key lengths 1-3000, group sizes 1-26, 0-40 keepers, widths from narrow to very wide) are parsed by an independent reader: header fields, every letter in groups, all 27 rows of a reciprocal table computed from the formula and aligned with its header, the legend. Print-outs (string, text file, PDF) of random selections are taken apart into cards, the PDF by an own reader that also checks that all text lies on the page and no lines overlap. Groups and blocks over arbitrary rune slices. Non-trivial: distinct (configuration, key).",
		Assumptions: []string{"the font of the PDF is monospaced at 0.6 em and has the letters of the Latin alphabets and the legend", "the order of keys in a PDF is free"},
		Need:        []string{"cards", "wide_cards", "spread_cards", "text_files", "pdfs", "pdf_oversize", "pdf_pages", "blocks"},
		Sections: []Section{
			{Name: "card", Quick: 2500, Thorough: 60000, Run: c21Card},
			{Name: "printout", Quick: 160, Thorough: 2500, Run: c21Printout},
			{Name: "groups", Quick: 4000, Thorough: 100000, Run: c21Groups},
		}})
}

const (
	cardLegend = "CODING LEGEND                                              > Switch table (Z)\n" +
		"IDX A B C D E F G H I J K L M N O P Q R S T U V W X Y Z    ¤ Toggle binary mode (W)\n" +
		"CT1 A B C D E F G H I J K L M N O P   R S T U V W X Y >    ↕ Toggle case (X)\n" +
		"CT2 0 1 2 3 4 5 6 7 8 9 ? - Å Ä Ö . Q , Z : + / ¤ ↕ → >    → Change key (Y)"
)

var cardHeader = regexp.MustCompile(`^(\S*) +/ KEEPERS: (.*) / EXPIRES: (\S+) / CREATED: (\S+) / USED: \[(.)\]$`)

type card struct {
	id, keepers, expires, created, used string
	groups                              []string
	lines                               []string // lines of groups
	spread                              bool
}

// parseCard reads one key card.
func parseCard(text string) (k card, err error) {
	l := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if len(l) < 3+27+4 {
		return k, fmt.Errorf("the card has %d lines only", len(l))
	}
	width := len([]rune(l[0]))
	if strings.Trim(l[0], "_") != "" {
		return k, fmt.Errorf("the first line is not a separator: %q", l[0])
	}
	g := cardHeader.FindStringSubmatch(l[1])
	if g == nil {
		return k, fmt.Errorf("the header line is damaged: %q", l[1])
	}
	k.id, k.keepers, k.expires, k.created, k.used = g[1], g[2], g[3], g[4], g[5]
	if strings.Trim(l[2], "-") != "" || len([]rune(l[2])) != width {
		return k, fmt.Errorf("the third line is not a separator as wide as the card: %q", l[2])
	}
	for i, x := range l {
		if n := len([]rune(x)); n > width {
			return k, fmt.Errorf("line %d is wider (%d) than the card (%d)", i+1, n, width)
		}
	}
	legend := l[len(l)-4:]
	for i, x := range strings.Split(cardLegend, "\n") {
		if strings.TrimRight(legend[i], " ") != x {
			return k, fmt.Errorf("the legend says %q instead of %q", legend[i], x)
		}
	}
	body := l[3 : len(l)-4]
	start := -1
	row := 0
	gap := 0
	for _, x := range body {
		f := strings.Fields(x)
		if row < 27 && len(f) >= 26 {
			// One row of the reciprocal table at the right.
			want := make([]string, 26)
			for i := range want {
				if row == 0 {
					want[i] = string(rune('A' + i))
				} else {
					want[i] = string([]rune{rune('A' + row - 1), rune('a' + refTri(row-1, i))})
				}
			}
			sep := " "
			if row == 0 {
				sep = "  "
			}
			suffix := strings.Join(want, sep)
			if !strings.HasSuffix(strings.TrimRight(x, " "), suffix) {
				return k, fmt.Errorf("row %d of the reciprocal table is %q instead of %q", row, x, suffix)
			}
			at := len([]rune(strings.TrimRight(x, " "))) - len([]rune(suffix))
			if start < 0 {
				start = at
			} else if at != start {
				return k, fmt.Errorf("row %d of the reciprocal table begins in column %d, the rows before in %d", row, at, start)
			}
			row++
			x = strings.TrimRight(string([]rune(x)[:at]), " ")
			if n := len([]rune(x)); n > 0 && at-n < 1 {
				return k, fmt.Errorf("groups run into the reciprocal table: %q", x)
			}
			f = strings.Fields(x)
		} else if row > 0 && row < 27 {
			return k, fmt.Errorf("the reciprocal table is interrupted after %d rows by %q", row, x)
		}
		if len(f) == 0 {
			gap++
			continue
		}
		if gap > 0 && len(k.lines) > 0 {
			k.spread = true
		}
		gap = 0
		x = strings.TrimRight(x, " ")
		k.lines = append(k.lines, x)
		k.groups = append(k.groups, f...)
	}
	if row != 27 {
		return k, fmt.Errorf("the reciprocal table has %d rows", row)
	}
	return k, nil
}

// checkCard compares a card with its key.
func (c *Case) checkCard(key *k431.Key, text string, gs, keyColumns int) {
	k, err := parseCard(text)
	if err != nil {
		c.Fatal("card", "card of key %s: %v\n%s", string(key.Id), err, text)
	}
	keepers := make([]string, len(key.Keepers))
	for i := range keepers {
		keepers[i] = string(key.Keepers[i])
	}
	want := strings.Join(keepers, ",")
	if len(keepers) == 0 {
		want = "NIL"
	}
	if k.id != string(key.Id) {
		c.Fatal("card-id", "the card of key %s says %q\n%s", string(key.Id), k.id, text)
	}
	if k.keepers != want {
		c.Fatal("card-keepers", "the card of key %s has the keepers %q instead of %q", string(key.Id), k.keepers, want)
	}
	if w := dtgString(key.Expires.Time); k.expires != w {
		c.Fatal("card-expires", "the card of key %s expires %q instead of %q", string(key.Id), k.expires, w)
	}
	if w := dtgString(key.Created.Time); k.created != w {
		c.Fatal("card-created", "the card of key %s was created %q instead of %q", string(key.Id), k.created, w)
	}
	if w := map[bool]string{true: "X", false: " "}[key.Used]; k.used != w {
		c.Fatal("card-used", "the card of key %s (used %v) shows [%s]", string(key.Id), key.Used, k.used)
	}
	c.checkGroups("card", key.Runes, k.groups, gs)
	for _, l := range k.lines {
		if n := len([]rune(l)); n > max(keyColumns, gs) {
			c.Fatal("card-columns", "a line of %d groups is %d wide, the limit is %d: %q", len(strings.Fields(l)), n, keyColumns, l)
		}
	}
	c.Count("cards", 1)
	if k.spread {
		c.Count("spread_cards", 1)
	}
	c.Max("card_width", len([]rune(strings.SplitN(text, "\n", 2)[0])))
	if len([]rune(strings.SplitN(text, "\n", 2)[0])) > 110 {
		c.Count("wide_cards", 1)
	}
}

// checkGroups compares groups with the letters they stand for.
func (c *Case) checkGroups(what string, in []rune, got []string, gs int) {
	if s := strings.Join(got, ""); s != string(in) {
		c.Fatal(what+"-letters", "the groups of %d letters hold %d: the first difference is %s", len(in), len([]rune(s)), firstDiff(in, []rune(s)))
	}
	for i, g := range got {
		n := len([]rune(g))
		if n > gs || n != gs && i != len(got)-1 {
			c.Fatal(what+"-groupsize", "group %d of %d has %d letters, not %d", i, len(got), n, gs)
		}
	}
}

// dtgString writes a date-time group in the zone of the time, or in UTC if there
// is no letter for the zone (not whole hours, or more than twelve).
func dtgString(t time.Time) string {
	_, off := t.Zone()
	if off%3600 != 0 || off > 12*3600 || off < -12*3600 {
		t, off = t.UTC(), 0
	}
	h := off / 3600
	z := "Z"
	switch {
	case h >= 1 && h <= 9:
		z = string(rune('A' + h - 1))
	case h >= 10 && h <= 12:
		z = string(rune('K' + h - 10))
	case h <= -1 && h >= -12:
		z = string(rune('N' - h - 1))
	}
	return fmt.Sprintf("%02d%02d%02d%s%s%02d", t.Day(), t.Hour(), t.Minute(), z, months[t.Month()-1], t.Year()%100)
}

func randTime(r *mrand.Rand) time.Time {
	loc := time.UTC
	if r.IntN(2) == 0 {
		loc = time.FixedZone("", 3600*(r.IntN(25)-12))
	}
	if r.IntN(6) == 0 {
		loc = time.FixedZone("", pick(r, 19800, 20700, -12600, 34200, 31500, 45900, 46800, 50400, -43200-1800, 1800, -1800, 1172))
	}
	return time.Date(2000+r.IntN(99), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), 0, loc)
}

// latinCalls are call-signs of letters that the font of the print-outs has.
func latinCalls(r *mrand.Rand, n int) []string {
	cs := genCalls(r, n)
	for i := range cs {
		if r.IntN(8) == 0 {
			cs[i] = string(pick(r, 'Å', 'Ä', 'Ö', 'É', 'Ü')) + cs[i]
		}
	}
	return cs
}

func cardKey(r *mrand.Rand, k *k431.Krypto431) *k431.Key {
	n := pick(r, k.KeyLength, k.KeyLength, 350, 1, 2, k.GroupSize, 20, 1+r.IntN(800))
	if r.IntN(25) == 0 {
		n = 1000 + r.IntN(2000)
	}
	nk := pick(r, 0, 1, 1, 2, 3, 5, 8)
	if r.IntN(10) == 0 {
		nk = r.IntN(41)
	}
	key := addKeyLen(r, k, max(k.GroupSize, 3), n, latinCalls(r, nk)...)
	key.Created.Time, key.Expires.Time = randTime(r), randTime(r)
	key.Used, key.Compromised = r.IntN(2) == 0, r.IntN(3) == 0
	return key
}

func cardStation(r *mrand.Rand) *k431.Krypto431 {
	gs := pick(r, 5, 5, 5, 4, 3, 2, 1, 6, 7, 8, 10, 13, 26)
	k := newStation(k431.WithCallSign(genCalls(r, 1)[0]), k431.WithGroupSize(gs), k431.WithKeyLength(20+r.IntN(400)))
	k.Columns = pick(r, 110, 110, 85, 86, 100, 111, 120, 85+r.IntN(200))
	k.KeyColumns = pick(r, 30, 30, gs, gs+1, gs+2, 2*gs+1, 2*gs+2, 20+gs, 12+gs, gs+r.IntN(150))
	return k
}

func c21Card(c *Case) {
	r := c.R
	k := cardStation(r)
	if r.IntN(4) == 0 {
		call := latinCalls(r, r.IntN(5))
		if err := k.GenerateKeys(1, nil, call...); err != nil {
			c.Fatal("generate", "%v", err)
		}
	}
	for len(k.Keys) < 3 {
		cardKey(r, k)
	}
	c.Note("gs", k.GroupSize)
	c.Note("columns", []int{k.Columns, k.KeyColumns})
	before := snapOf(k)
	for i := range k.Keys {
		key := &k.Keys[i]
		c.Note("key", string(key.Id))
		c.Note("length", len(key.Runes))
		text := key.String()
		c.checkCard(key, text, k.GroupSize, k.KeyColumns)
		if w := len([]rune(strings.SplitN(text, "\n", 2)[0])); w < k.Columns {
			c.Fatal("card-width", "the card is %d wide, the station's width is %d", w, k.Columns)
		}
		c.Distinct(k.GroupSize, k.Columns, k.KeyColumns, len(key.Runes), len(key.Keepers), string(key.Id))
		c.Eval(1)
	}
	if d := diff(before, snapOf(k)); d != "" {
		c.Fatal("changed", "printing cards changed the keys: %s", d)
	}
	if c.Idx < 2 {
		c.Sample(map[string]any{"card": k.Keys[0].String()})
	}
}

// cardsOf takes a text print-out apart.
func cardsOf(text string) (out []string) {
	var cur []string
	for _, l := range strings.Split(text, "\n") {
		if l != "" && strings.Trim(l, "_") == "" && len(cur) > 0 {
			out = append(out, strings.Join(cur, "\n"))
			cur = nil
		}
		cur = append(cur, l)
	}
	if len(cur) > 0 && strings.TrimSpace(strings.Join(cur, "")) != "" {
		out = append(out, strings.Join(cur, "\n"))
	}
	return
}

// checkKeysText checks a text print-out of exactly these keys in this order.
func (c *Case) checkKeysText(what, text string, keys []*k431.Key, gs, keyColumns int) {
	cards := cardsOf(text)
	if len(cards) != len(keys) {
		c.Fatal(what+"-number", "%d cards are printed for %d selected keys", len(cards), len(keys))
	}
	for i, key := range keys {
		if k, err := parseCard(cards[i]); err == nil && k.id != string(key.Id) {
			c.Fatal(what+"-order", "card %d is key %s instead of %s", i, k.id, string(key.Id))
		}
		c.checkCard(key, cards[i], gs, keyColumns)
	}
}

// checkPDF checks a PDF print-out of exactly these items.
func (c *Case) checkPDF(what, file string, items []string, columns int) int {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fatal(what+"-missing", "%v", err)
	}
	runs, pages, err := readPDF(b)
	if err != nil {
		c.Fatal(what+"-damaged", "%v", err)
	}
	if err := pdfItems(runs, items); err != nil {
		c.Fatal(what+"-contents", "%v", err)
	}
	if err := pdfVisible(runs); err != nil {
		c.Fatal(what+"-visible", "%v", err)
	}
	c.Count("pdfs", 1)
	c.Count("pdf_pages", pages)
	c.Count("pdf_lines", len(runs))
	return pages
}

func c21Printout(c *Case) {
	r := c.R
	k := cardStation(r)
	n := r.IntN(9)
	if r.IntN(8) == 0 {
		n = 10 + r.IntN(20)
	}
	if c.Idx%40 == 39 {
		n = 40 + r.IntN(40)
	}
	style := r.IntN(4)
	for i := 0; i < n; i++ {
		switch style {
		case 0: // the usual key
			addKeyLen(r, k, max(k.GroupSize, 3), 350, genCalls(r, r.IntN(4))...)
		case 1: // several keys to a page or one to several pages
			addKeyLen(r, k, max(k.GroupSize, 3), pick(r, 20, 100, 700, 1500, 2500), genCalls(r, r.IntN(4))...)
		default:
			cardKey(r, k)
		}
	}
	before := snapOf(k)
	sel := map[string]bool{}
	var chosen []*k431.Key
	p := r.IntN(4)
	calls := map[string]int{}
	for i := range k.Keys {
		if p == 0 || r.IntN(4) < p {
			sel[string(k.Keys[i].Id)] = true
			chosen = append(chosen, &k.Keys[i])
		}
	}
	filter := func(key *k431.Key) bool { calls[string(key.Id)]++; return sel[string(key.Id)] }
	c.Note("keys", n)
	c.Note("selected", len(chosen))
	c.Note("columns", []int{k.GroupSize, k.Columns, k.KeyColumns})
	func() {
		c.checkKeysText("text", k.KeysAsText(filter), chosen, k.GroupSize, k.KeyColumns)
		file, pdf := c.Path("k.txt"), c.Path("k.pdf")
		if r.IntN(3) == 0 { // an older, longer print-out in its place
			os.WriteFile(file, []byte(strings.Repeat("old print-out\n", 20000)), 0600)
			os.WriteFile(pdf, []byte(strings.Repeat("old print-out\n", 200000)), 0600)
			if len(chosen) == 0 {
				os.Remove(file)
				os.Remove(pdf)
			}
		}
		err := k.KeysTextFile(filter, file)
		b, rerr := os.ReadFile(file)
		if len(chosen) == 0 {
			if err == nil && rerr == nil && len(b) > 0 {
				c.Fatal("empty-text", "printing no key wrote %d bytes", len(b))
			}
		} else {
			c.Must(err == nil && rerr == nil, "text-file", "printing to a text file: %v %v", err, rerr)
			c.checkKeysText("text-file", string(b), chosen, k.GroupSize, k.KeyColumns)
			c.Count("text_files", 1)
		}
		err = k.KeysPDF(filter, pdf)
		if len(chosen) == 0 {
			if b, e := os.ReadFile(pdf); err == nil && e == nil {
				if runs, _, e := readPDF(b); e == nil && len(runs) > 0 {
					c.Fatal("empty-pdf", "printing no key wrote %d lines", len(runs))
				}
			}
			return
		}
		c.Must(err == nil, "pdf", "printing to a PDF: %v", err)
		var items []string
		over := 0
		for _, key := range chosen {
			s := key.String()
			if strings.Count(s, "\n")+5 > 87 {
				over++
			}
			items = append(items, s)
		}
		c.checkPDF("pdf", pdf, items, k.Columns)
		if over > 0 {
			c.Count("pdf_oversize", 1)
		}
	}()
	if d := diff(before, snapOf(k)); d != "" {
		c.Fatal("changed", "printing changed the store: %s", d)
	}
	c.Distinct(n, len(chosen), k.GroupSize, k.Columns, k.KeyColumns)
	c.Eval(3)
}

// c21Groups: grouping never drops, adds or reorders letters.
func c21Groups(c *Case) {
	r := c.R
	k := cardStation(r)
	if r.IntN(3) == 0 {
		k.KeyColumns, k.Columns = r.IntN(60), r.IntN(60)
	}
	n := pick(r, 0, 1, k.GroupSize-1, k.GroupSize, k.GroupSize+1, 2*k.GroupSize, r.IntN(1200))
	in := letters(r, n)
	key := k431.Key{Id: letters(r, 5), Runes: append([]rune(nil), in...)}
	key.SetInstance(k)
	m := k431.Message{CipherText: append([]rune(nil), in...)}
	m.SetInstance(k)
	c.Note("letters", n)
	c.Note("groupsize", k.GroupSize)
	c.Note("columns", []int{k.Columns, k.KeyColumns})
	check := func(what string, f func() (*[]rune, error), columns int) {
		g, err := f()
		if err != nil || g == nil {
			c.Fatal(what, "grouping %d letters failed: %v", n, err)
		}
		s := string(*g)
		c.checkGroups(what, in, strings.Fields(s), k.GroupSize)
		lines := strings.Split(s, "\n")
		if columns == 0 && len(lines) > 1 {
			c.Fatal(what+"-lines", "groups without a column limit are broken into lines")
		}
		for i, l := range lines {
			if strings.Contains(l, "  ") || strings.TrimSpace(l) != l {
				c.Fatal(what+"-space", "line %q of groups has superfluous spaces", l)
			}
			if columns > 0 && len([]rune(l)) > max(columns, k.GroupSize) {
				c.Fatal(what+"-columns", "line %d is %d wide, the limit is %d", i, len([]rune(l)), columns)
			}
		}
		if string(key.Runes) != string(in) || string(m.CipherText) != string(in) {
			c.Fatal(what+"-changed", "grouping changed the letters")
		}
		c.Eval(1)
	}
	check("key-groups", key.Groups, 0)
	check("key-block", key.GroupsBlock, k.KeyColumns)
	check("message-groups", m.Groups, 0)
	check("message-block", m.GroupsBlock, k.Columns)
	c.Count("blocks", 4)
	c.Distinct("g", n, k.GroupSize, k.Columns, k.KeyColumns)
}
