package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C32 ---

func init() {
	register(&Prop{ID: "C32", CPU: 200,
		Rule:        "Every list helper run on every string up to a length over separators and letters, and on every pair of small lists over a universe of similar call-signs, and on random unicode strings and long lists, compared call by call with a set model written apart (splitting, containment, any, all, equality, adding, removing, copying); arguments are compared with copies of themselves after each call and written over afterwards to show that nothing is shared. Non-trivial: distinct (helper, arguments).",
		Assumptions: []string{"letters that are the same by one Unicode case rule and different by another (ſ, K, ß) are not judged in folded comparison", "message ids are separated by commas and blanks only", "an empty or missing list contains nothing and nothing is contained in it, as before"},
		Need:        []string{"split", "equal", "contains", "all", "any", "add", "remove", "copy", "folded", "duplicates", "missing"},
		Sections: []Section{
			{Name: "strings", Quick: 64, Thorough: 640, Run: c32Strings},
			{Name: "pairs", Quick: 64, Thorough: 256, Run: c32Pairs},
			{Name: "random", Quick: 1200, Thorough: 20000, Run: c32Random},
		}})
}

func cut(s string, space func(rune) bool) (items []string) {
	item := ""
	for _, x := range s {
		if x == ',' || space(x) {
			if item != "" {
				items = append(items, item)
			}
			item = ""
			continue
		}
		item += string(x)
	}
	if item != "" {
		items = append(items, item)
	}
	return
}

func upper(s string) string {
	x := []rune(s)
	for i := range x {
		x[i] = unicode.ToUpper(x[i])
	}
	return string(x)
}

func strs(l [][]rune) []string {
	o := make([]string, 0, len(l))
	for _, x := range l {
		o = append(o, string(x))
	}
	return o
}

func lists(l []string) [][]rune {
	o := make([][]rune, 0, len(l))
	for _, x := range l {
		o = append(o, []rune(x))
	}
	return o
}

// c32Split judges every splitting function on one list of arguments.
func c32Split(c *Case, args []string) {
	var want, ids []string
	for _, a := range args {
		for _, x := range cut(a, unicode.IsSpace) {
			want = append(want, upper(x))
		}
		ids = append(ids, cut(a, func(x rune) bool { return x == ' ' })...)
	}
	for name, f := range map[string]func(...string) [][]rune{"VettedKeepers": k431.VettedKeepers, "VettedRecipients": k431.VettedRecipients, "VettedCallSigns": k431.VettedCallSigns, "VettedKeys": k431.VettedKeys} {
		if got := strs(f(args...)); !slices.Equal(got, want) {
			c.Fatal("split", "%s(%q) = %q, want %q", name, args, got, want)
		}
	}
	odd := strings.ContainsFunc(strings.Join(args, ""), func(x rune) bool { return unicode.IsSpace(x) && x != ' ' })
	if got := strs(k431.VettedMessageIds(args...)); !odd && !slices.Equal(got, ids) {
		c.Fatal("split-ids", "VettedMessageIds(%q) = %q, want %q", args, got, ids)
	}
	c.Count("split", 1)
	c.Eval(1)
	c.Distinct("split", args)
}

func c32Strings(c *Case) {
	alphabet := []rune{'a', 'B', 'å', ',', ' ', '1', '\t'}
	// All strings up to 6 of these, dealt out over the cases.
	n := 0
	parts := c.of()
	var rec func(s []rune)
	rec = func(s []rune) {
		if n%parts == c.Idx {
			c32Split(c, []string{string(s)})
			if len(s) > 1 {
				i := n % len(s)
				c32Split(c, []string{string(s[:i]), string(s[i:])})
			}
		}
		n++
		if len(s) < 6 {
			for _, x := range alphabet {
				rec(append(s[:len(s):len(s)], x))
			}
		}
	}
	rec(nil)
	c32Split(c, nil)
}

// same rune by every, some or no case rule.
func foldRune(a, b rune) (same, unclear bool) {
	if a == b {
		return true, false
	}
	up := unicode.ToUpper(a) == unicode.ToUpper(b)
	fold := false
	for x := unicode.SimpleFold(a); x != a; x = unicode.SimpleFold(x) {
		fold = fold || x == b
	}
	return up && fold, up != fold
}

func refEqual(a, b string, fold bool) (same, unclear bool) {
	x, y := []rune(a), []rune(b)
	if len(x) != len(y) {
		return false, false
	}
	if !fold {
		return slices.Equal(x, y), false
	}
	same = true
	for i := range x {
		s, u := foldRune(x[i], y[i])
		if u {
			unclear = true
		} else if !s {
			return false, false
		}
	}
	return same, unclear
}

func refHas(list []string, x string, fold bool) (has, unclear bool) {
	for _, l := range list {
		s, u := refEqual(l, x, fold)
		if s && !u {
			return true, false
		}
		unclear = unclear || u
	}
	return false, unclear
}

func refAll(needles, hay []string, fold bool) (all, unclear bool) {
	if len(needles) == 0 || len(hay) == 0 {
		return false, false
	}
	for _, n := range needles {
		h, u := refHas(hay, n, fold)
		if u {
			unclear = true
		} else if !h {
			return false, false
		}
	}
	return true, unclear
}

// c32Pair judges every helper on two lists.
func c32Pair(c *Case, needles, hay []string) {
	n, h := lists(needles), lists(hay)
	check := func(what string, got, want, unclear bool) {
		if got != want && !unclear {
			c.Fatal(strings.Fields(what)[0], "%s: %q in %q gives %v, want %v", what, needles, hay, got, want)
		}
		if !slices.Equal(strs(n), needles) || !slices.Equal(strs(h), hay) {
			c.Fatal("arguments", "%s changed its arguments: %q, %q became %q, %q", what, needles, hay, strs(n), strs(h))
		}
	}
	all, _ := refAll(needles, hay, false)
	check("AllNeedlesInHaystack", k431.AllNeedlesInHaystack(&n, &h), all, false)
	check("AllNeedlesInHaystack (false)", k431.AllNeedlesInHaystack(&n, &h, false), all, false)
	fold, unclear := refAll(needles, hay, true)
	check("AllNeedlesInHaystack (true)", k431.AllNeedlesInHaystack(&n, &h, true), fold, unclear)
	if fold && !all {
		c.Count("folded", 1)
	}
	any := false
	for _, x := range needles {
		if has, _ := refHas(hay, x, false); has {
			any = true
		}
	}
	check("AnyNeedleInHaystack", k431.AnyNeedleInHaystack(&n, &h), any, false)
	for i, x := range needles {
		has, _ := refHas(hay, x, false)
		check("AnyOfThem", k431.AnyOfThem(&h, &n[i]), has && x != "", false)
		for j, y := range hay {
			same, _ := refEqual(x, y, false)
			check("EqualRunes", k431.EqualRunes(&n[i], &h[j]), same, false)
			same, unclear := refEqual(x, y, true)
			check("EqualRunesFold", k431.EqualRunesFold(&n[i], &h[j]), same, unclear)
			c.Count("equal", 1)
		}
	}
	c.Count("all", 1)
	c.Count("any", 1)

	// Keys and messages.
	key, msg := k431.Key{Keepers: lists(hay)}, k431.Message{Recipients: lists(hay)}
	contains, unclear := fold, unclear
	if len(needles) == 0 {
		contains, unclear = len(hay) == 0, false
	}
	check("ContainsKeeper", key.ContainsKeeper(n...), contains, unclear)
	check("ContainsRecipient", msg.ContainsRecipient(n...), contains, unclear)
	c.Count("contains", 1)
	if !slices.Equal(strs(key.Keepers), hay) || !slices.Equal(strs(msg.Recipients), hay) {
		c.Fatal("arguments", "asking for %q changed %q to %q and %q", needles, hay, strs(key.Keepers), strs(msg.Recipients))
	}

	// Adding.
	want := slices.Clone(hay)
	unclear = false
	for _, x := range needles {
		has, u := refHas(want, x, true)
		unclear = unclear || u
		if !has {
			want = append(want, x)
		}
	}
	if len(want) < len(hay)+len(needles) {
		c.Count("duplicates", 1)
	}
	if k := key.AddKeeper(n...); k != &key {
		c.Fatal("chain", "AddKeeper returns another key")
	}
	if m := msg.AddRecipient(n...); m != &msg {
		c.Fatal("chain", "AddRecipient returns another message")
	}
	for _, x := range n { // what was added is not shared with the arguments
		for i := range x {
			x[i] = '#'
		}
	}
	if !unclear && (!slices.Equal(strs(key.Keepers), want) || !slices.Equal(strs(msg.Recipients), want)) {
		c.Fatal("add", "adding %q to %q gives %q and %q, want %q", needles, hay, strs(key.Keepers), strs(msg.Recipients), want)
	}
	c.Count("add", 1)

	// Removing.
	n = lists(needles)
	key, msg = k431.Key{Keepers: lists(hay)}, k431.Message{Recipients: lists(hay)}
	want, unclear = nil, false
	for _, x := range hay {
		has, u := refHas(needles, x, true)
		unclear = unclear || u
		if !has {
			want = append(want, x)
		}
	}
	if k := key.RemoveKeeper(n...); k != &key {
		c.Fatal("chain", "RemoveKeeper returns another key")
	}
	if m := msg.RemoveRecipient(n...); m != &msg {
		c.Fatal("chain", "RemoveRecipient returns another message")
	}
	slices.Sort(want)
	a, b := strs(key.Keepers), strs(msg.Recipients)
	slices.Sort(a)
	slices.Sort(b)
	if !unclear && (!slices.Equal(a, want) || !slices.Equal(b, want)) {
		c.Fatal("remove", "removing %q from %q leaves %q and %q, want %q", needles, hay, a, b, want)
	}
	if !slices.Equal(strs(n), needles) {
		c.Fatal("arguments", "removing %q changed the arguments to %q", needles, strs(n))
	}
	c.Count("remove", 1)

	// Strings and joining.
	if got := k431.RunesToStrings(&h); !slices.Equal(got, hay) && len(got)+len(hay) > 0 {
		c.Fatal("strings", "RunesToStrings(%q) = %q", hay, got)
	}
	if got := k431.JoinRunesToString(&h, ", "); got != strings.Join(hay, ", ") {
		c.Fatal("strings", "JoinRunesToString(%q) = %q", hay, got)
	}
	key.Keepers, msg.Recipients = h, h
	if a, b := key.JoinKeepers("/"), msg.JoinRecipients("/"); a != strings.Join(hay, "/") || b != a {
		c.Fatal("strings", "%q joined gives %q and %q", hay, a, b)
	}
	c.Eval(1)
}

func c32Pairs(c *Case) {
	universe := []string{"AA", "Aa", "aa", "A", "", "AB", "B"}
	var all [][]string
	var rec func(l []string)
	rec = func(l []string) {
		all = append(all, l)
		if len(l) < 3 {
			for _, x := range universe {
				rec(append(l[:len(l):len(l)], x))
			}
		}
	}
	rec(nil)
	for i := c.Idx; i < len(all); i += c.of() {
		for j := range all {
			c32Pair(c, all[i], all[j])
			c.Distinct("pair", i, j)
		}
	}
	c32Missing(c)
}

// c32Missing gives nil where a list or item is expected.
func c32Missing(c *Case) {
	var none [][]rune
	some := lists([]string{"AA"})
	item := []rune("AA")
	var nothing []rune
	for _, l := range []*[][]rune{nil, &none} {
		if k431.AllNeedlesInHaystack(l, &some) || k431.AllNeedlesInHaystack(&some, l) || k431.AllNeedlesInHaystack(l, l, true) ||
			k431.AnyNeedleInHaystack(l, &some) || k431.AnyNeedleInHaystack(&some, l) || k431.AnyNeedleInHaystack(l, l) ||
			k431.AnyOfThem(l, &item) || k431.AnyOfThem(l, nil) {
			c.Fatal("missing", "a missing list contains something or is contained")
		}
	}
	for _, x := range []*[]rune{nil, &nothing} {
		if k431.AnyOfThem(&some, x) || k431.EqualRunes(x, &item) || k431.EqualRunes(&item, x) || k431.EqualRunesFold(x, &item) || k431.EqualRunesFold(&item, x) {
			c.Fatal("missing", "a missing item is equal to AA")
		}
		if !k431.EqualRunes(x, x) || !k431.EqualRunesFold(x, x) {
			c.Fatal("missing", "a missing item is not equal to itself")
		}
		if len(k431.RuneCopy(x)) != 0 {
			c.Fatal("missing", "the copy of nothing is something")
		}
	}
	var nobytes []byte
	if len(k431.ByteCopy(nil)) != 0 || len(k431.ByteCopy(&nobytes)) != 0 {
		c.Fatal("missing", "the copy of nothing is something")
	}
	k := cipherStation("AA", cfg{5, 50})
	if k.ContainsKeyId(nil) || k.ContainsMessageId(nil) || k.ContainsKeyId(&item) || k.ContainsMessageId(&item) {
		c.Fatal("missing", "an empty station has an id")
	}
	c.Count("missing", 1)
}

func c32Random(c *Case) {
	r := c.R
	item := func() string {
		switch r.IntN(6) {
		case 0:
			return string(anyRunes(r, r.IntN(8)))
		case 1:
			return string(anyRunes(r, 60))
		case 2:
			return pick(r, "ſa", "Ka", "straße", "İ", "ı", "ǅ", "ÅÄÖ", "åäö", "Σ", "ς", "\xff", "\U0010ffff", "\u2028", "ά")
		}
		return genCall(r)
	}
	// Splitting.
	for i := 0; i < 10; i++ {
		var args []string
		for j := r.IntN(6); j >= 0; j-- {
			var b strings.Builder
			for l := r.IntN(8); l >= 0; l-- {
				b.WriteString(pick(r, "", " ", ",", ", ", " ,, ", "  ") + item())
			}
			if r.IntN(3) == 0 {
				b.WriteString(pick(r, " ", ",", "\n", "\t", "\u00a0", "\u2003", "\r\n"))
			}
			args = append(args, b.String())
		}
		c32Split(c, args)
	}
	// Lists.
	var pool []string
	for i := 2 + r.IntN(8); i > 0; i-- {
		// through runes, so that strings are the same as their runes
		x := string([]rune(item()))
		pool = append(pool, x, randCase(r, x))
	}
	list := func() (l []string) {
		l = []string{}
		n := r.IntN(8)
		if r.IntN(20) == 0 {
			n = r.IntN(60)
		}
		for i := 0; i < n; i++ {
			l = append(l, pool[r.IntN(len(pool))])
		}
		return
	}
	for i := 0; i < 12; i++ {
		n, h := list(), list()
		if r.IntN(2) == 0 && len(h) > 0 { // a subset in any order
			n = slices.Clone(h)
			r.Shuffle(len(n), func(i, j int) { n[i], n[j] = n[j], n[i] })
			n = n[:r.IntN(len(n)+1)]
			if len(n) > 0 && r.IntN(3) == 0 {
				n[r.IntN(len(n))] = item()
			}
		}
		n, h = strs(lists(n)), strs(lists(h))
		c32Pair(c, n, h)
		c.Distinct("random", n, h)
	}
	// Ids.
	k := cipherStation("AA", cfg{5, 50})
	for _, x := range list() {
		k.Keys = append(k.Keys, k431.Key{Id: []rune(x)})
		k.Messages = append(k.Messages, k431.Message{Id: []rune(x)})
	}
	for _, x := range append(pool, item()) {
		id := []rune(x)
		x = string(id)
		var ids []string
		for i := range k.Keys {
			ids = append(ids, string(k.Keys[i].Id))
		}
		want, unclear := refHas(ids, x, true)
		if got := k.ContainsKeyId(&id); got != want && !unclear {
			c.Fatal("key-id", "ContainsKeyId(%q) with %q is %v", x, ids, got)
		}
		want, _ = refHas(ids, x, false)
		if got := k.ContainsMessageId(&id); got != want {
			c.Fatal("message-id", "ContainsMessageId(%q) with %q is %v", x, ids, got)
		}
	}
	// Copies.
	src := anyRunes(r, r.IntN(2000))
	spare := append(make([]rune, 0, len(src)+10), src...)
	cp := k431.RuneCopy(&spare)
	if !slices.Equal(cp, src) {
		c.Fatal("copy", "RuneCopy of %d runes gives %d: %q", len(src), len(cp), cp)
	}
	for i := range spare {
		spare[i] = -1
	}
	_ = append(spare, -1, -1)
	if !slices.Equal(cp, src) {
		c.Fatal("copy", "the copy changed with its source")
	}
	for i := range cp {
		cp[i] = -2
	}
	_ = append(cp, -2)
	for i := range spare {
		if spare[i] != -1 {
			c.Fatal("copy", "the source changed with its copy")
		}
	}
	data := make([]byte, r.IntN(2000))
	for i := range data {
		data[i] = byte(r.IntN(256))
	}
	orig := slices.Clone(data)
	bp := k431.ByteCopy(&data)
	for i := range data {
		data[i] ^= 0x55
	}
	if !slices.Equal(bp, orig) {
		c.Fatal("copy", "ByteCopy of %d bytes differs or changes with its source", len(orig))
	}
	for i := range bp {
		bp[i] = 1
	}
	for i := range data {
		if data[i] != orig[i]^0x55 {
			c.Fatal("copy", "the source changed with its copy")
		}
	}
	c.Count("copy", 1)
	if c.Idx < 2 {
		c.Sample(map[string]any{"items": fmt.Sprintf("%q", pool)})
	}
}
