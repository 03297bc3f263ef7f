package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"
	"time"
	"unicode"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C08 ---

func init() {
	register(&Prop{ID: "C08",
		Rule:        "Radiograms generated from a grammar of the documented forms (full, with address, with instruction/count, shortest), every combination of recipients, date-time group length and zone, address, instruction, count and end mark, with random letter case, spacing, tabs, commas and line breaks; the parts that were put in are the oracle. Plus strings without any sender, wrong dates, and mangled radiograms. Non-trivial: distinct radiogram that parsed (or had to be refused).",
		Assumptions: []string{"texts avoid what the format itself can not tell apart: a text ending like an end mark, '==' inside the text, the word DE or '=' in the form without '='"},
		Need:        []string{"full", "semi", "short", "mini", "no_dtg", "refused_no_sender", "refused_bad_dtg", "outgoing", "incoming", "hostile"},
		Sections: []Section{
			{Name: "grammar", Quick: 40000, Thorough: 1500000, Run: c08Grammar},
			{Name: "nosender", Quick: 6000, Thorough: 200000, Run: c08NoSender},
			{Name: "direction", Quick: 2500, Thorough: 60000, Run: c08Direction},
			{Name: "hostile", Quick: 15000, Thorough: 500000, Run: c08Hostile},
		}})
}

// shared station of cases that do not keep anything in it
var parseStation *k431.Krypto431

func radioStation() *k431.Krypto431 {
	if inParallel {
		return newStation(k431.WithCallSign("ZZ9ZZ"))
	}
	if parseStation == nil {
		parseStation = newStation(k431.WithCallSign("ZZ9ZZ"))
	}
	parseStation.Keys, parseStation.Messages = nil, nil
	parseStation.GroupSize, parseStation.KeyLength = 5, 350
	parseStation.SetCallSign("ZZ9ZZ")
	return parseStation
}

func ws(r *rand.Rand) string {
	if r.IntN(3) > 0 {
		return " "
	}
	s := ""
	for i := 1 + r.IntN(3); i > 0; i-- {
		s += pick(r, " ", " ", "\n", "\r\n", "\t", "\r", "\f", "\v", "\u0085", "\u2028", "\u2029")
	}
	return s
}

// ows is white space that may be absent.
func ows(r *rand.Rand) string {
	if r.IntN(3) == 0 {
		return ""
	}
	return ws(r)
}

func randCase(r *rand.Rand, s string) string {
	switch r.IntN(3) {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	}
	b := []rune(s)
	for i := range b {
		if r.IntN(2) == 0 {
			b[i] = unicode.ToLower(b[i])
		}
	}
	return string(b)
}

// joinCalls joins call-signs with any mix of commas and white space.
func joinCalls(r *rand.Rand, s []string) string {
	out := ""
	for i, x := range s {
		if i > 0 {
			out += pick(r, ws(r), ws(r), ",", ", ", " , ", ",,")
		}
		out += x
	}
	return out
}

var months = []string{"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}

// genDTG makes a date-time group; want returns the times it may mean, given
// the moments before and after parsing.
func genDTG(r *rand.Rand, local *time.Location) (s string, want func(t time.Time) time.Time, kind string) {
	day, hour, min := 1+r.IntN(28), r.IntN(24), r.IntN(60)
	loc := local
	s = fmt.Sprintf("%02d%02d%02d", day, hour, min)
	kind = "ddhhmm"
	month, year := 0, 0
	if r.IntN(4) > 0 {
		kind = "zone"
		z := rune('A' + r.IntN(26))
		s += string(z)
		switch {
		case z == 'Z':
			loc = time.UTC
		case z == 'J':
		case z <= 'I':
			loc = time.FixedZone("", 3600*int(z-'A'+1))
		case z >= 'K' && z <= 'M':
			loc = time.FixedZone("", 3600*int(z-'K'+10))
		default:
			loc = time.FixedZone("", -3600*int(z-'N'+1))
		}
		if r.IntN(3) > 0 {
			kind = "month"
			month = 1 + r.IntN(12)
			name := months[month-1]
			if name == "MAY" && r.IntN(2) == 0 {
				name = "MAJ"
			}
			if name == "OCT" && r.IntN(2) == 0 {
				name = "OKT"
			}
			s += name
			if r.IntN(4) > 0 {
				kind = "year"
				year = 2000 + r.IntN(69)
				s += fmt.Sprintf("%02d", year-2000)
			}
		}
	}
	return s, func(now time.Time) time.Time {
		now = now.In(loc)
		y, m := year, time.Month(month)
		if y == 0 {
			y = now.Year()
		}
		if m == 0 {
			m = now.Month()
		}
		return time.Date(y, m, day, hour, min, 0, 0, loc)
	}, kind
}

var trails = []string{"", "", " = K", " = K", "=K", " K", " = +", " +", "=+", " [AR]", "[AR]", " = AR", "=AR", "\n= K", "  =  K  ", " K\n", "\n", " = k", " = ar", " =", "=", " = \n"}

var miniAmbiguous = regexp.MustCompile(`(?i)^[A-Z]{0,4}\s*\d{0,4}\s*$`)

// radiogramText makes a text body; parts are joined with '=' if allowed.
func radiogramText(r *rand.Rand, form string) string {
	one := func() string {
		for {
			var s string
			if r.IntN(4) == 0 { // any printable text
				b := make([]rune, 1+r.IntN(30))
				for i := range b {
					b[i] = pick(r, []rune("abcXYZ 019,.:;!\"#%&/()?@£$€{}åäöÅÄÖéñ日本*'_-+<>|~^§½")...)
				}
				s = strings.TrimSpace(string(b))
			} else {
				s = radioText(r, 1+r.IntN(60))
			}
			if r.IntN(8) == 0 { // much like an end mark
				s += " " + pick(r, "TACK", "star", "OK", "K2", "AR", "K.", "KAR", "KK", "ARK", "AR AR", "K/", "xk", "K AR")
			}
			s = strings.TrimSpace(s)
			if s == "" || radioUnsafe(s) || strings.HasSuffix(strings.ToUpper(s), "AR]") || strings.HasSuffix(s, "+") {
				continue
			}
			return s
		}
	}
	if form == "mini" {
		for {
			s := one()
			if miniAmbiguous.MatchString(s) || s[0] >= '0' && s[0] <= '9' || s[0] == '/' {
				continue
			}
			return s
		}
	}
	s := one()
	for r.IntN(5) == 0 {
		s += " = " + one()
	}
	return s
}

type radiogram struct {
	s, form, dtg, text string
	to                 []string
	from               string
	want               func(time.Time) time.Time
}

func genRadiogram(r *rand.Rand, local *time.Location, from string) radiogram {
	var g radiogram
	most := 4
	if r.IntN(20) == 0 {
		most = 60
	}
	cs := genCalls(r, 9+most)
	g.from = cs[0]
	if from != "" {
		g.from = from
	}
	if r.IntN(4) > 0 {
		g.to = cs[1 : 2+r.IntN(1+most)]
		if r.IntN(12) == 0 { // named twice
			g.to = append(append([]string{}, g.to...), pick(r, g.to...))
		}
	}
	g.form = pick(r, "full", "semi", "short", "mini")
	head := ""
	if r.IntN(4) == 0 {
		head = ws(r)
	}
	if len(g.to) > 0 {
		head += joinCalls(r, g.to) + ws(r)
	}
	head += "DE" + ws(r) + g.from
	if r.IntN(4) > 0 {
		var s string
		s, g.want, g.dtg = genDTG(r, local)
		head += ws(r) + s
	} else {
		g.dtg = "none"
	}
	addr := joinCalls(r, cs[6:7+r.IntN(3)])
	count := fmt.Sprint(r.IntN(300))
	instr := func(max int) string {
		for {
			s := string(letters(r, 1+r.IntN(max)))
			if s != "DE" {
				return s
			}
		}
	}
	sep := ows(r)
	switch g.form {
	case "full":
		head += ows(r) + "==" + ows(r) + addr + ows(r) + "==" + ows(r)
		switch r.IntN(4) {
		case 0:
			head += instr(6)
		case 1:
			head += count
		case 2:
			head += instr(5) + ows(r) + count
		case 3:
			head += instr(3) + ws(r) + instr(5) + ws(r) + count
		}
		head += ows(r) + "="
	case "semi":
		head += ows(r) + "==" + ows(r) + addr
		if r.IntN(2) == 0 {
			head += ws(r) + count
		}
		head += ows(r) + "="
	case "short":
		switch r.IntN(4) {
		case 0:
			head += ws(r) + instr(4)
		case 1:
			head += ws(r) + count
		case 2:
			head += ws(r) + instr(4) + ws(r) + count
		}
		head += ows(r) + "="
	case "mini":
		sep = ws(r)
	}
	g.text = radiogramText(r, g.form)
	body := g.text
	if r.IntN(3) == 0 { // broken over lines
		b := []rune(body)
		out := ""
		for i, c := range b {
			if c == ' ' && r.IntN(3) == 0 && b[i-1] != ' ' {
				out += pick(r, "\n", "\r\n", "\r", "\u2028", "\f")
			} else {
				out += string(c)
			}
		}
		body = out
	}
	g.s = randCase(r, head) + sep + body + pick(r, trails...)
	return g
}

func withLocal(r *rand.Rand, f func(loc *time.Location)) {
	if inParallel {
		f(time.Local)
		return
	}
	old := time.Local
	defer func() { time.Local = old }()
	switch r.IntN(4) {
	case 0:
		time.Local = time.FixedZone("X", 3600*(r.IntN(25)-12))
	case 1:
		time.Local = time.FixedZone("Y", pick(r, 1800*(2*r.IntN(20)-19), 20700, 31500, 46800, 50400))
	default:
		time.Local = time.UTC
	}
	f(time.Local)
}

func (g *radiogram) check(c *Case, m *k431.Message, before, after time.Time) {
	var to []string
	for _, x := range m.Recipients {
		to = append(to, string(x))
	}
	if strings.Join(to, "|") != strings.Join(g.to, "|") {
		c.Fatal("recipients", "recipients are %q, the radiogram says %q", to, g.to)
	}
	if string(m.From) != g.from {
		c.Fatal("sender", "the sender is %q, the radiogram says %q", string(m.From), g.from)
	}
	if g.want == nil {
		if m.DTG.Time.Before(before.Add(-time.Second)) || m.DTG.Time.After(after.Add(time.Second)) {
			c.Fatal("no-dtg", "without date-time group the time is %v, received %v", m.DTG.Time, before)
		}
		c.Count("no_dtg", 1)
	} else if w1, w2 := g.want(before), g.want(after); !m.DTG.Time.Equal(w1) && !m.DTG.Time.Equal(w2) {
		c.Fatal("dtg", "the time is %v, the radiogram says %v", m.DTG.Time, w1)
	}
}

func c08Grammar(c *Case) {
	withLocal(c.R, func(loc *time.Location) {
		g := genRadiogram(c.R, loc, "")
		c.Note("radiogram", g.s)
		c.Note("form", g.form)
		k := radioStation()
		before := time.Now()
		m, err := k.ParseRadiogram(g.s)
		after := time.Now()
		if err != nil {
			c.Fatal("refused", "the radiogram is refused: %v", err)
		}
		g.check(c, m, before, after)
		if string(m.PlainText) != g.text {
			c.Fatal("text", "the text is %q, the radiogram says %q", string(m.PlainText), g.text)
		}
		c.Must(len(m.KeyId) == 0 && len(m.CipherText) == 0, "not-clear", "the parsed message has key id %q and cipher text %q", string(m.KeyId), string(m.CipherText))
		c.Count(g.form, 1)
		c.Count("dtg_"+g.dtg, 1)
		c.Distinct(g.s)
		if c.Idx < 40 {
			c.Sample(g.s)
		}
	})
}

// hasSender finds a DE followed by something like a call-sign.
func hasSender(s string) bool {
	rs := []rune(s)
	for i := 0; i+1 < len(rs); i++ {
		if unicode.ToUpper(rs[i]) != 'D' || unicode.ToUpper(rs[i+1]) != 'E' {
			continue
		}
		if i > 0 && !unicode.IsSpace(rs[i-1]) {
			continue
		}
		j := i + 2
		for j < len(rs) && unicode.IsSpace(rs[j]) {
			j++
		}
		if j > i+2 && j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '/') {
			return true
		}
	}
	return false
}

func c08NoSender(c *Case) {
	r := c.R
	k := radioStation()
	var s string
	if r.IntN(3) == 0 { // documented form, but no such date
		cs := genCalls(r, 3)
		bad := pick(r, fmt.Sprintf("%02d1234Z", 32+r.IntN(68)), fmt.Sprintf("17%02d34Z", 24+r.IntN(76)), fmt.Sprintf("1712%02dZ", 60+r.IntN(40)),
			"301234ZFEB24", "311234ZAPR23", "311234BJUN", "001234ZMAY24", "291234ZFEB23")
		s = pick(r, cs[1]+" ", "") + "DE " + cs[0] + " " + bad + pick(r, " = ", " == AA BB == COL 3 = ", " == BA = ", " COL 3 = ") + radioText(r, 10) + " = K"
		c.Note("radiogram", s)
		if m, err := k.ParseRadiogram(s); err == nil {
			c.Fatal("bad-dtg", "date-time group %s is taken for %v", bad, m.DTG.Time)
		}
		c.Count("refused_bad_dtg", 1)
	} else {
		words := []string{"DE", "de", "AA", "SA6MWA", "=", "==", "= K", "HELLO", "171234Z", "171234ZMAY24", "DEAR", "ADE", "DE.", "=DE", "DE=", "DE,", ",", "/", "", "!", "K", "+", "AA,BB", "3", "COL"}
		for i := r.IntN(8); i > 0; i-- {
			s += pick(r, words...) + pick(r, " ", "", "\n", "  ")
		}
		if r.IntN(10) == 0 {
			s = pick(r, "", " ", "DE", "DE ", " DE", "\n", "DE =", "AA DE = HELLO", "AA DE == BB == COL 3 = HELLO = K", "DE\n")
		}
		if hasSender(s) {
			return
		}
		c.Note("radiogram", s)
		if m, err := k.ParseRadiogram(s); err == nil {
			c.Fatal("no-sender", "a radiogram without sender is accepted, from %q text %q", string(m.From), string(m.PlainText))
		}
		c.Count("refused_no_sender", 1)
	}
	before := snapOf(k)
	if _, err := k.NewTextMessage(s); err == nil {
		c.Fatal("new-message", "NewTextMessage accepts it")
	}
	if d := diff(before, snapOf(k)); d != "" {
		c.Fatal("changed", "refusing it changed the station: %s", d)
	}
	c.Distinct(s)
}

func c08Direction(c *Case) {
	r := c.R
	k := radioStation()
	me := genCalls(r, 1)[0]
	k.SetCallSign(me)
	from := me
	out := r.IntN(2) == 0
	if !out {
		switch r.IntN(5) {
		case 0:
			from = me + "/P"
		case 1:
			from = me[:len(me)-1]
			if from == "" || from == "D" {
				from = "QQ"
			}
		case 2:
			from = "X" + me
		default:
			from = ""
			for from == "" || from == me {
				from = genCall(r)
			}
		}
		if from == "DE" {
			return
		}
	}
	withLocal(r, func(loc *time.Location) {
		g := genRadiogram(r, loc, from)
		for _, x := range g.text {
			if !refSupported(x) {
				return
			}
		}
		addKey(r, k, "ZZZZ") // never eligible
		for i := 0; i < 3; i++ {
			addKey(r, k, g.to...)
		}
		ids := keyMap(k)
		if !out {
			fold := strings.ToUpper(strings.Join(strings.Fields(g.text), ""))
			if len(fold) >= 5 && ids[fold[:5]] != nil {
				return
			}
		}
		c.Note("radiogram", g.s)
		c.Note("own_call", me)
		before := time.Now()
		usedBefore := usedIDs(k)
		m, err := k.NewTextMessage(g.s)
		after := time.Now()
		if err != nil {
			c.Fatal("refused", "the radiogram is refused: %v", err)
		}
		used := newly(usedBefore, usedIDs(k))
		c.Must(len(k.Messages) == 1 && string(k.Messages[0].Id) == string(m.Id), "not-stored", "the message is not stored")
		for _, x := range []*k431.Message{m, &k.Messages[0]} {
			if string(x.PlainText) != g.text {
				c.Fatal("text", "the text is %q, the radiogram says %q", string(x.PlainText), g.text)
			}
			h := g
			if !out && len(g.to) == 0 {
				h.to = []string{me}
			}
			h.check(c, x, before, after)
		}
		if out {
			c.Must(len(m.KeyId) > 0 && len(m.CipherText) > 0 && len(used) > 0, "not-outgoing", "a message from %q at station %q was not enciphered", g.from, me)
			d, err := refDecipher(ids, 5, string(m.KeyId), m.CipherText)
			c.Must(err == nil && string(d.Text) == g.text, "enciphered-text", "the cipher text decodes to %q (%v), the radiogram says %q", string(d.Text), err, g.text)
			c.Count("outgoing", 1)
		} else {
			c.Must(len(m.KeyId) == 0 && len(m.CipherText) == 0 && len(used) == 0, "not-incoming", "a message from %q at station %q was enciphered with %q", g.from, me, string(m.KeyId))
			c.Count("incoming", 1)
		}
		c.Distinct(me, g.s)
	})
}

func hostileRadiogram(r *rand.Rand) string {
	var s string
	switch r.IntN(4) {
	case 0: // mangled radiogram
		g := genRadiogram(r, time.UTC, "")
		b := []rune(g.s)
		for i := 1 + r.IntN(5); i > 0 && len(b) > 0; i-- {
			p := r.IntN(len(b))
			switch r.IntN(4) {
			case 0:
				b = append(b[:p:p], b[p+1:]...)
			case 1:
				b[p] = pick(r, []rune("=+K DE/,\x00\n\r\tåſKİ\u2028\U0001f600\ufffd09")...)
			case 2:
				q := r.IntN(len(b))
				if p > q {
					p, q = q, p
				}
				b = append(b[:q:q], b[p:]...)
			case 3:
				b = b[:p]
			}
		}
		s = string(b)
	case 1: // tokens
		words := []string{"DE", "AA", "BB", "=", "==", "===", "171234", "171234Z", "171234ZMAY24", "171234MAY", "991234Z", "COL", "3", "K", "+", "[AR]", ",", "/", "\n", "\t", "HELLO", "ABCDE FGHIJ", "\xff", "\x00", "å", "K", "ſ", "dE"}
		for i := r.IntN(16); i > 0; i-- {
			s += pick(r, words...) + pick(r, " ", " ", "")
		}
	case 2: // bytes
		b := make([]byte, r.IntN(80))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		s = pick(r, "", "DE AA ", "AA DE BB 171234Z = ") + string(b)
	case 3: // long
		s = pick(r, "", "AA ", "DE ", "AA DE BB ") + strings.Repeat(pick(r, " ", "A", "A ", "=", "DE ", "1", ",", "\n", "= K ", "DE AA ", "[AR]", "å", "+"), r.IntN(3000)) + pick(r, "", " DE AA", "= K", " DE AA 171234Z = HEJ")
	}
	return s
}

func c08Hostile(c *Case) {
	r := c.R
	k := radioStation()
	s := hostileRadiogram(r)
	c.Note("radiogram", fmt.Sprintf("%q", s))
	m, err := k.ParseRadiogram(s)
	c.Count("hostile", 1)
	c.Distinct(s)
	if err != nil {
		c.Count("hostile_refused", 1)
		return
	}
	c.Must(hasSender(s), "no-sender", "accepted without sender")
	c.Must(len(m.From) > 0 && len(m.Id) > 0, "empty-sender", "accepted with an empty sender or id")
	for _, x := range append(m.Recipients, m.From) {
		t := string(x)
		if t == "" || strings.ContainsAny(t, " ,\t\r\n") || strings.ToUpper(t) != t {
			c.Fatal("bad-call", "call-sign %q in the result", t)
		}
	}
}

// ------------------------------------------------------------------- C09 ---

func init() {
	register(&Prop{ID: "C09",
		Rule:        "One station enciphers a random text (short to several keys long) to 0-4 recipients; the traffic it prints is taken from its print-out (several widths), sent as it stands, lower-cased, re-wrapped, re-spaced, with tabs, CR LF or group sizes changed in transmission, to a station that holds its own copies of the keys. Both are in different time zones, of whole and broken hours. Text, sender, recipients, date-time group (the moment), key id, marks and group count are compared. Long traffic has 99, 999 or 9999 groups, give or take 20. Non-trivial: distinct traffic.",
		Assumptions: []string{"both stations use the same group size; a recipient list that was empty is the receiving station"},
		Need:        []string{"verbatim", "lowered", "rewrapped", "respaced", "multi_key", "no_recipients", "stored_deciphered", "long_traffic", "breaks", "many_recipients"},
		Sections: []Section{
			{Name: "traffic", Quick: 6000, Thorough: 150000, Run: c09Traffic},
			{Name: "long", Quick: 150, Thorough: 3000, Run: c09Long},
		}})
}

const trafficMark = "=TRAFFIC=EXAMPLE=\n"

func trafficOf(s string) string {
	i := strings.LastIndex(s, trafficMark)
	if i < 0 {
		return ""
	}
	return s[i+len(trafficMark):]
}

func c09Traffic(c *Case) {
	f := genCfg(c.R)
	n := genLen(c.R, f)
	for n > 1 && needKeys(n, f)+6 > maxKeysFor(f.GS) {
		n /= 2
	}
	c09Send(c, f, n, nil)
}

// c09Long sends traffic whose group count gets to another number of digits.
func c09Long(c *Case) {
	r := c.R
	f := cfg{pick(r, 1, 1, 2, 3), 0}
	groups := pick(r, 99, 999, 9999, 9999, 9999) - 20 + r.IntN(40)
	n := groups * f.GS
	f.KL = max(40, n/12)
	c09Send(c, f, n, letters(r, n))
	c.Count("long_traffic", 1)
	c.Max("groups_announced", groups)
}

// c09Send sends n characters, or a given text.
func c09Send(c *Case, f cfg, n int, long []rune) {
	r := c.R
	most := 4
	if r.IntN(20) == 0 {
		most = 40
	}
	cs := genCalls(r, 2+most)
	a, b := cipherStation(cs[0], f), cipherStation(cs[1], f)
	b.KeyLength = 20 + r.IntN(300)
	var to []string
	if r.IntN(5) > 0 {
		to = cs[1 : 2+r.IntN(most)]
		if len(to) > 4 {
			c.Count("many_recipients", 1)
		}
	} else {
		c.Count("no_recipients", 1)
	}
	to = append([]string(nil), to...)
	r.Shuffle(len(to), func(i, j int) { to[i], to[j] = to[j], to[i] })
	fillKeys(r, a, f, min(needKeys(n, f), maxKeysFor(f.GS)), r.IntN(3) == 0, to...)
	for i := range a.Keys {
		var kp []string
		for _, t := range to {
			if t != cs[1] {
				kp = append(kp, t)
			}
		}
		copyKey(b, &a.Keys[i], append(kp, cs[0])...)
	}
	r.Shuffle(len(b.Keys), func(i, j int) { b.Keys[i], b.Keys[j] = b.Keys[j], b.Keys[i] })
	withLocal(r, func(loc *time.Location) {
		var m *k431.Message
		var err error
		text := string(genText(r, n))
		if long != nil {
			text = string(long)
		}
		if r.IntN(2) == 0 {
			if long == nil {
				text = radioText(r, n)
			} else {
				text = strings.NewReplacer("AR", "AS", "DE", "DF").Replace(text)
			}
			dtgs := ""
			if r.IntN(4) > 0 {
				dtgs, _, _ = genDTG(r, loc)
				dtgs += " "
			}
			m, err = a.NewTextMessage(fmt.Sprintf("%s DE %s %s= %s = K", strings.Join(to, " "), cs[0], dtgs, text))
		} else {
			m = newMsg(a, []rune(text), to...)
			m.DTG.Time = time.Date(2000+r.IntN(69), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), 0, loc)
			err = m.Encipher()
		}
		if err != nil {
			c.Fatal("encipher", "enciphering failed: %v", err)
		}
		dtgWant := dtgString(m.DTG.Time)
		cipher := string(m.CipherText)
		var out string
		if w := r.IntN(4); w == 0 {
			out = m.String()
		} else {
			out = m.String(10 + r.IntN(190))
		}
		traffic := trafficOf(out)
		c.Note("traffic", traffic)
		c.Must(traffic != "", "no-traffic", "no traffic is printed:\n%s", out)
		// The announced count.
		if g := regexp.MustCompile(`\s([0-9]+)\s+=([^=]*)=\s*K\s*$`).FindStringSubmatch(traffic); g == nil {
			c.Fatal("traffic-form", "the traffic has no group count and text: %q", traffic)
		} else if groups := strings.Fields(g[2]); fmt.Sprint(len(groups)) != g[1] {
			c.Fatal("group-count", "%s groups are announced, %d are transmitted", g[1], len(groups))
		} else if len(groups) != 1+len(cipher)/f.GS {
			c.Fatal("groups", "%d groups are transmitted, the cipher text has %d", len(groups), len(cipher)/f.GS)
		} else {
			for _, x := range groups {
				if len(x) != f.GS {
					c.Fatal("groups", "group %q is not of size %d", x, f.GS)
				}
			}
			if groups[0] != string(m.KeyId) || strings.Join(groups[1:], "") != cipher {
				c.Fatal("groups", "the traffic does not carry the key id and cipher text")
			}
		}
		sent := traffic
		how := r.IntN(6)
		switch how {
		case 0:
			c.Count("verbatim", 1)
		case 1:
			sent = strings.ToLower(sent)
			c.Count("lowered", 1)
		case 2, 3: // wrapped anew
			var b strings.Builder
			col, w := 0, 5+r.IntN(70)
			nl := pick(r, "\n", "\r\n", "\r")
			for i, f := range strings.Fields(sent) {
				if i > 0 {
					if col+len(f) > w {
						b.WriteString(nl)
						col = 0
					} else {
						b.WriteString(" ")
					}
				}
				b.WriteString(f)
				col += len(f)
			}
			sent = b.String()
			c.Count("rewrapped", 1)
		default: // spaced anew
			var b strings.Builder
			for i, f := range strings.Fields(sent) {
				if i > 0 {
					b.WriteString(ws(r))
				}
				b.WriteString(f)
			}
			sent = randCase(r, pick(r, "", " ", "\n")+b.String()+pick(r, "", " ", "\n\n"))
			c.Count("respaced", 1)
		}
		if how > 3 && r.IntN(2) == 0 { // groups of the text run together or split
			i, j := strings.Index(sent, "="), strings.LastIndex(sent, "=")
			body := strings.Join(strings.Fields(sent[i+1:j]), "")
			g := 1 + r.IntN(12)
			sent = sent[:i+1] + " " + groupsOf([]rune(body), g) + " " + sent[j:]
		}
		if r.IntN(6) == 0 { // break signs between the groups
			i, j := strings.Index(sent, "="), strings.LastIndex(sent, "=")
			body := []rune(sent[i+1 : j])
			for x := 1 + r.IntN(3); x > 0; x-- {
				if p := r.IntN(len(body)); unicode.IsSpace(body[p]) {
					body = []rune(string(body[:p]) + pick(r, " = ", " =", "= ") + string(body[p+1:]))
				}
			}
			sent = sent[:i+1] + string(body) + sent[j:]
			c.Count("breaks", 1)
		}
		c.Note("sent", sent)
		keysB := keyMap(b)
		if !inParallel { // the receiving station is in another time zone
			time.Local = time.FixedZone("W", pick(r, 0, 1800*(r.IntN(51)-25), 20700))
		}
		got, err := b.NewTextMessage(sent)
		if err != nil {
			c.Fatal("receive", "the receiving station refuses the traffic: %v", err)
		}
		d, derr := refDecipher(keysB, f.GS, string(m.KeyId), m.CipherText)
		if derr != nil {
			c.Fatal("undecodable", "the cipher text does not decode: %v", derr)
		}
		wantTo := to
		if len(to) == 0 {
			wantTo = cs[1:2]
		}
		c.Must(len(b.Messages) == 1, "not-stored", "the receiving station has %d messages", len(b.Messages))
		for _, x := range []*k431.Message{got, &b.Messages[0]} {
			c.Must(string(x.PlainText) == text, "text", "received text: %s", firstDiff([]rune(text), x.PlainText))
			c.Must(string(x.KeyId) == string(m.KeyId) && string(x.CipherText) == cipher, "cipher", "key %q cipher text %q received as %q %q", string(m.KeyId), cipher, string(x.KeyId), string(x.CipherText))
			c.Must(string(x.From) == cs[0], "sender", "received from %q, sent by %q", string(x.From), cs[0])
			c.Must(joinRunes(x.Recipients) == joinRunes(calls(wantTo...)), "recipients", "received for %s, sent to %v", joinRunes(x.Recipients), wantTo)
			c.Must(dtgString(x.DTG.Time) == dtgWant, "dtg", "received with date-time group %s, sent with %s", dtgString(x.DTG.Time), dtgWant)
			c.Must(x.DTG.Unix() == m.DTG.Truncate(time.Minute).Unix(), "dtg-moment", "received as of %v, sent at %v", x.DTG.Time, m.DTG.Time)
		}
		if u := usedIDs(b); sortedKeys(u) != sortedKeys(setOf(d.Chain)) {
			c.Fatal("marks", "the receiving station marked [%s], the message is chained over %v", sortedKeys(u), d.Chain)
		}
		if len(d.Chain) > 1 {
			c.Count("multi_key", 1)
		}
		c.Count("stored_deciphered", 1)
		c.Distinct(sent)
		if c.Idx < 50 && len(sent) < 300 {
			c.Sample(map[string]any{"text": text, "sent": sent})
		}
		// What the receiver prints must decipher at the sender as well.
		if r.IntN(4) == 0 && len(to) > 0 {
			again := trafficOf(b.Messages[0].String())
			if strings.Join(strings.Fields(again), " ") != strings.Join(strings.Fields(traffic), " ") {
				c.Fatal("relayed", "the receiver prints the traffic as %q, the sender as %q", again, traffic)
			}
		}
	})
}

// ------------------------------------------------------------------- C10 ---

func init() {
	register(&Prop{ID: "C10",
		Rule:        "Multi-key traffic is received by a station that lacks the first key, some keys of the chain or all keys, or after garbling (letters replaced, groups lost, digits put in); deep snapshots show that text and marks are untouched by storing, listing, dry runs and failed attempts; then the missing keys are imported from an export and the same message is listed again and must decipher. Clear text that starts with near misses of key ids is received and listed. Messages that carry cipher text and key id are deciphered directly with keys of their chain missing, cut short or damaged, and again with the keys in order. Non-trivial: distinct (chain, keys held) or clear text.",
		Assumptions: []string{"clear text that happens to begin with the id of a held key and consists of letters only can not be told from cipher text"},
		Need:        []string{"first_key_missing", "chain_key_missing", "garbled", "recovered", "clear_kept", "dry_runs", "direct_refused", "direct_deciphered", "long_chain", "with_cipher_text"},
		Sections: []Section{
			{Name: "missing", Quick: 3000, Thorough: 60000, Run: c10Missing},
			{Name: "garbled", Quick: 4000, Thorough: 100000, Run: c10Garbled},
			{Name: "clear", Quick: 6000, Thorough: 150000, Run: c10Clear},
			{Name: "direct", Quick: 3000, Thorough: 80000, Run: c10Direct},
		}})
}

// c10Send makes multi-key traffic from a new station.
func c10Send(c *Case, f cfg, from string, to []string) (a *k431.Krypto431, m *k431.Message, chain []string, text string) {
	r := c.R
	a = cipherStation(from, f)
	n := 1 + r.IntN(3*f.KL)
	if r.IntN(40) == 0 {
		n = 1 + r.IntN(120*f.KL)
	}
	text = string(genText(r, n))
	fillKeys(r, a, f, needKeys(n, f), false, to...)
	if n > 40*f.KL {
		c.Count("long_chain", 1)
	}
	m = newMsg(a, []rune(text), to...)
	keys := keyMap(a)
	if err := m.Encipher(); err != nil {
		c.Fatal("encipher", "enciphering failed: %v", err)
	}
	d, err := refDecipher(keys, f.GS, string(m.KeyId), m.CipherText)
	if err != nil {
		c.Fatal("undecodable", "%v", err)
	}
	return a, m, d.Chain, text
}

func quietTry(m *k431.Message, dry ...bool) error { return m.TryDecipherPlainText(dry...) }

// unchangedBy runs listings, dry runs and attempts and expects no change.
func unchangedBy(c *Case, b *k431.Krypto431, what string, mayDecipher map[string]bool) {
	r := c.R
	before := snapOf(b)
	for i := 0; i < 1+r.IntN(4); i++ {
		var did string
		switch r.IntN(4) {
		case 0:
			b.SummaryOfMessages(allMsg)
			did = "listing"
		case 1:
			for x := range b.Messages {
				if !mayDecipher[string(b.Messages[x].Id)] {
					quietTry(&b.Messages[x])
				}
			}
			did = "an attempt to decipher"
		case 2:
			for x := range b.Messages {
				quietTry(&b.Messages[x], true)
			}
			did = "a dry run"
			c.Count("dry_runs", 1)
		case 3:
			b.MessagesAsText(allMsg)
			did = "printing"
		}
		if d := diff(before, snapOf(b)); d != "" {
			c.Fatal("changed", "%s: %s changed the station: %s", what, did, d)
		}
	}
}

func c10Missing(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 6, 3), 20 + r.IntN(40)}
	cs := genCalls(r, 3)
	a, m, chain, text := c10Send(c, f, cs[0], cs[1:2])
	b := cipherStation(cs[1], f)
	lack := map[string]bool{}
	switch {
	case r.IntN(3) == 0:
		lack[chain[0]] = true
		c.Count("first_key_missing", 1)
	case len(chain) > 1:
		for _, id := range chain[1:] {
			if r.IntN(2) == 0 {
				lack[id] = true
			}
		}
		lack[chain[1+r.IntN(len(chain)-1)]] = true
		c.Count("chain_key_missing", 1)
	default:
		lack[chain[0]] = true
		c.Count("first_key_missing", 1)
	}
	if r.IntN(4) == 0 {
		for _, id := range chain {
			lack[id] = true
		}
	}
	for i := range a.Keys {
		if !lack[string(a.Keys[i].Id)] && r.IntN(8) > 0 || setOf(chain)[string(a.Keys[i].Id)] && !lack[string(a.Keys[i].Id)] {
			copyKey(b, &a.Keys[i], cs[0])
		}
	}
	if r.IntN(3) == 0 {
		populate(r, b, cs[2:])
	}
	before := snapOf(b)
	body := string(m.KeyId) + " " + groupsOf(m.CipherText, f.GS)
	if r.IntN(3) == 0 {
		body = strings.ToLower(body)
	}
	c.Note("text", text)
	c.Note("chain", chain)
	c.Note("missing", sortedKeys(lack))
	got, err := b.NewTextMessage(fmt.Sprintf("%s DE %s 171234ZMAY24 %d = %s = K", cs[1], cs[0], 1+len(m.CipherText)/f.GS, body))
	if err != nil {
		c.Fatal("refused", "incoming traffic is refused: %v", err)
	}
	after := snapOf(b)
	c.Must(len(after.Messages) == len(before.Messages)+1, "not-stored", "%d messages became %d", len(before.Messages), len(after.Messages))
	id := string(got.Id)
	st := after.Messages[len(after.Messages)-1]
	c.Must(st.ID == id && st.Plain == body && st.Cipher == "" && st.KeyID == "", "text-not-intact", "stored as key %q cipher %q text %q, received %q", st.KeyID, st.Cipher, st.Plain, body)
	rest := after
	rest.Messages = after.Messages[:len(before.Messages)]
	if d := diff(before, rest); d != "" {
		c.Fatal("changed", "receiving undecipherable traffic changed the station: %s", d)
	}
	if r.IntN(4) == 0 { // a message that carries other cipher text, but no key id
		x := &b.Messages[len(b.Messages)-1]
		x.CipherText = letters(r, 1+r.IntN(4*f.GS))
		if err := quietTry(x, r.IntN(2) == 0); err == nil && lack[chain[0]] {
			c.Fatal("dry-run", "the first key is not held, but the attempt succeeds")
		}
		unchangedBy(c, b, "undecipherable traffic with cipher text", nil)
		c.Count("with_cipher_text", 1)
		x.CipherText = nil
	}
	unchangedBy(c, b, "undecipherable traffic", nil)
	// import the missing keys, some first, then all
	if len(lack) > 1 && r.IntN(2) == 0 {
		for x := range lack {
			if x != chain[len(chain)-1] {
				continue
			}
			for i := range a.Keys {
				if string(a.Keys[i].Id) == x {
					copyKey(b, &a.Keys[i], cs[0])
					delete(lack, x)
				}
			}
			break
		}
		if len(lack) > 0 {
			unchangedBy(c, b, "traffic with keys still missing", nil)
		}
	}
	if r.IntN(2) == 0 && len(lack) > 0 {
		exp := k431.New(k431.WithCallSign(cs[0]), k431.WithGroupSize(f.GS))
		exp.Keys, exp.Messages = nil, nil
		file := c.Path("export")
		k431.WithPersistence(file)(&exp)
		pfk := hexKey(r)
		k431.WithPFKString(pfk)(&exp)
		for i := range a.Keys {
			if lack[string(a.Keys[i].Id)] {
				x := copyKey(&exp, &a.Keys[i], cs[1])
				x.Used = false
			}
		}
		if err := exp.Save(); err != nil {
			c.Error("save: %v", err)
		}
		if _, err := b.ImportKeys(all, k431.WithPersistence(file), k431.WithPFKString(pfk)); err != nil {
			c.Fatal("import", "importing the missing keys failed: %v", err)
		}
	} else {
		for i := range a.Keys {
			if lack[string(a.Keys[i].Id)] {
				copyKey(b, &a.Keys[i], cs[0])
			}
		}
	}
	usedBefore := usedIDs(b)
	snapBefore := snapOf(b)
	var mm *k431.Message
	for i := range b.Messages {
		if string(b.Messages[i].Id) == id {
			mm = &b.Messages[i]
		}
	}
	c.Must(mm != nil, "lost", "the stored message is gone after importing keys")
	if r.IntN(2) == 0 {
		b.SummaryOfMessages(allMsg)
	} else {
		if err := quietTry(mm, true); err != nil {
			c.Fatal("dry-run", "the keys are held now, but a dry run says %v", err)
		}
		if d := diff(snapBefore, snapOf(b)); d != "" {
			c.Fatal("dry-run-changed", "a dry run changed the station: %s", d)
		}
		if err := quietTry(mm); err != nil {
			c.Fatal("not-recovered", "all keys are held now, but deciphering fails: %v", err)
		}
	}
	c.Must(string(mm.PlainText) == text, "not-recovered", "after importing the keys: %s", firstDiff([]rune(text), mm.PlainText))
	c.Must(string(mm.KeyId) == chain[0] && string(mm.CipherText) == string(m.CipherText), "cipher", "key id or cipher text wrong after recovery")
	if n := newly(usedBefore, usedIDs(b)); sortedKeys(n) != sortedKeys(setOf(chain)) {
		c.Fatal("marks", "recovery marked [%s], the chain is %v", sortedKeys(n), chain)
	}
	c.Count("recovered", 1)
	c.Distinct(text, chain)
	if c.Idx < 50 {
		c.Sample(map[string]any{"text": shortText([]rune(text)), "chain": chain})
	}
}

func c10Garbled(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 6, 3), 20 + r.IntN(40)}
	cs := genCalls(r, 3)
	a, m, _, _ := c10Send(c, f, cs[0], cs[1:2])
	b := cipherStation(cs[1], f)
	for i := range a.Keys {
		copyKey(b, &a.Keys[i], cs[0])
	}
	populate(r, b, cs[2:])
	g := []rune(string(m.KeyId) + string(m.CipherText))
	for i := 1 + r.IntN(4); i > 0; i-- {
		p := r.IntN(len(g))
		switch r.IntN(4) {
		case 0:
			g[p] = rune('A' + r.IntN(26))
		case 1:
			g[p] = pick(r, '5', '-', 'Å', '?', '.')
		case 2: // a group lost
			q := min(len(g), p+f.GS)
			if len(g)-(q-p) > 2 {
				g = append(g[:p:p], g[q:]...)
			}
		case 3: // more groups
			g = append(g, letters(r, f.GS*(1+r.IntN(20)))...)
		}
	}
	text := groupsOf(g, f.GS)
	before := snapOf(b)
	radiogram := fmt.Sprintf("%s DE %s 171234ZMAY24 = %s = K", cs[1], cs[0], text)
	c.Note("radiogram", radiogram)
	keys := keyMap(b)
	got, err := b.NewTextMessage(radiogram)
	if err != nil {
		c.Fatal("refused", "incoming traffic is refused: %v", err)
	}
	after := snapOf(b)
	c.Must(len(after.Messages) == len(before.Messages)+1, "not-stored", "%d messages became %d", len(before.Messages), len(after.Messages))
	st := after.Messages[len(after.Messages)-1]
	clean := string(g)
	if strings.HasSuffix(text, "= K") || strings.HasSuffix(text, " K") || strings.HasSuffix(text, "+") {
		return
	}
	ok := len(clean) >= 2*f.GS
	for _, x := range clean {
		if x < 'A' || x > 'Z' {
			ok = false
		}
	}
	var d refDecoded
	if ok {
		var derr error
		d, derr = refDecipher(keys, f.GS, clean[:f.GS], []rune(clean[f.GS:]))
		if derr != nil && (strings.Contains(derr.Error(), "inside a key change") || strings.Contains(derr.Error(), "binary")) {
			return // cut inside a key change, or binary mode: text or none
		}
		ok = derr == nil
	}
	rest := after
	rest.Messages = after.Messages[:len(before.Messages)]
	if !ok {
		c.Must(st.Plain == text && st.Cipher == "" && st.KeyID == "", "text-not-intact", "stored as key %q cipher %q text %q, received %q", st.KeyID, st.Cipher, st.Plain, text)
		if d := diff(before, rest); d != "" {
			c.Fatal("changed", "receiving garbled traffic changed the station: %s", d)
		}
		unchangedBy(c, b, "garbled traffic", nil)
		c.Count("garbled", 1)
		c.Distinct(text)
	} else {
		c.Must(string(got.PlainText) == string(d.Text), "text", "deciphered to %q, by hand %q", string(got.PlainText), string(d.Text))
		for i := range rest.Keys {
			if setOf(d.Chain)[rest.Keys[i].ID] {
				rest.Keys[i].Used = before.Keys[i].Used
			}
		}
		if d := diff(before, rest); d != "" {
			c.Fatal("changed", "receiving changed the station: %s", d)
		}
		c.Count("still_readable", 1)
	}
}

// c10Direct deciphers a message object that carries its cipher text and key id
// at a station where something is wrong with a key of its chain.
func c10Direct(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 6, 3), 20 + r.IntN(40)}
	cs := genCalls(r, 2)
	a, m, chain, text := c10Send(c, f, cs[0], cs[1:2])
	b := cipherStation(cs[1], f)
	bad := pick(r, chain...)
	kind := pick(r, "missing", "short", "letters", "none")
	for i := range a.Keys {
		id := string(a.Keys[i].Id)
		if id == bad && kind == "missing" {
			continue
		}
		x := copyKey(b, &a.Keys[i], cs[0])
		x.Used = false
		if id != bad {
			continue
		}
		switch kind {
		case "short":
			x.Runes = x.Runes[:r.IntN(len(x.Runes))]
		case "letters":
			x.Runes[r.IntN(len(x.Runes))] = pick(r, '0', 'a', ' ', 'Å', rune(0))
		}
	}
	rx := &k431.Message{KeyId: []rune(string(m.KeyId)), CipherText: []rune(string(m.CipherText))}
	rx.SetInstance(b)
	c.Note("chain", chain)
	c.Note("wrong", kind+" "+bad)
	want, werr := refDecipher(keyMap(b), f.GS, string(rx.KeyId), rx.CipherText)
	before := snapOf(b)
	err := rx.Decipher()
	c.Check((err == nil) == (werr == nil), "direct", "key %s of the chain is %s, by hand: %v, the program: %v (%q)", bad, kind, werr, err, shortText(rx.PlainText))
	c.Check(string(rx.KeyId) == string(m.KeyId) && string(rx.CipherText) == string(m.CipherText), "direct-changed", "deciphering changed key id or cipher text (%v)", err)
	if werr == nil {
		c.Check(string(rx.PlainText) == string(want.Text), "direct-text", "deciphered: %s", firstDiff(want.Text, rx.PlainText))
		c.Count("direct_deciphered", 1)
		return
	}
	if d := diff(before, snapOf(b)); d != "" {
		c.Fail("direct-marks", "a failed attempt changed the station: %s", d)
	}
	c.Count("direct_refused", 1)
	b.Keys = nil
	for i := range a.Keys {
		copyKey(b, &a.Keys[i], cs[0]).Used = false
	}
	if err := rx.Decipher(); err != nil || string(rx.PlainText) != text {
		c.Fail("direct-later", "with the keys in order: %v, %s", err, firstDiff([]rune(text), rx.PlainText))
	}
	c.Check(sortedKeys(usedIDs(b)) == sortedKeys(setOf(chain)), "direct-marks", "marked used are [%s], the chain is %v", sortedKeys(usedIDs(b)), chain)
	c.Distinct(kind, chain)
}

func c10Clear(c *Case) {
	r := c.R
	f := cfg{pick(r, 5, 5, 4, 6, 3), 20 + r.IntN(40)}
	cs := genCalls(r, 3)
	b := cipherStation(cs[1], f)
	for i := 1 + r.IntN(5); i > 0; i-- {
		addKey(r, b, cs[0])
	}
	key := &b.Keys[r.IntN(len(b.Keys))]
	id := string(key.Id)
	var text string
	switch r.IntN(7) {
	case 0: // starts with the key id, but too short
		text = pick(r, id, id+" "+string(letters(r, f.GS-1)), id[:f.GS-1])
	case 1: // one letter off
		x := []rune(id)
		x[r.IntN(len(x))] = rune('A' + r.IntN(26))
		if string(x) == id {
			return
		}
		text = string(x) + " " + string(letters(r, f.GS*3))
	case 2: // starts with the key id, but is not letters only
		text = id + " " + string(letters(r, f.GS)) + pick(r, "5", ".", "Å", "?", "-") + string(letters(r, f.GS))
	case 3:
		text = "Q" + id + " " + string(letters(r, f.GS*2))
	case 4:
		text = string(letters(r, f.GS)) + " " + id + " " + string(letters(r, f.GS))
	default:
		text = radioText(r, 1+r.IntN(80))
	}
	text = strings.TrimSpace(text)
	if radioUnsafe(text) || text == "" {
		return
	}
	letters := strings.ToUpper(strings.Join(strings.Fields(text), ""))
	only := len(letters) >= 2*f.GS
	for _, x := range letters {
		if x < 'A' || x > 'Z' {
			only = false
		}
	}
	if only && b.ContainsKeyId(k431.RunePtr([]rune(letters[:f.GS]))) {
		return
	}
	before := snapOf(b)
	c.Note("text", text)
	c.Note("key", id)
	_, err := b.NewTextMessage(fmt.Sprintf("%s DE %s 171234ZMAY24 = %s = K", cs[1], cs[0], text))
	if err != nil {
		c.Fatal("refused", "clear text is refused: %v", err)
	}
	after := snapOf(b)
	c.Must(len(after.Messages) == 1, "not-stored", "%d messages", len(after.Messages))
	st := after.Messages[0]
	c.Must(st.Plain == text && st.Cipher == "" && st.KeyID == "", "clear-replaced", "clear text %q stored as key %q cipher %q text %q", text, st.KeyID, st.Cipher, st.Plain)
	rest := after
	rest.Messages = nil
	if d := diff(before, rest); d != "" {
		c.Fatal("changed", "receiving clear text changed the station: %s", d)
	}
	unchangedBy(c, b, "clear text", nil)
	c.Count("clear_kept", 1)
	c.Distinct(text, id)
}
