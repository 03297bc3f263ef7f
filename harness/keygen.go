package main

import (
	"crypto/rand"
	"fmt"
	"math"
	mrand "math/rand/v2"
	"sort"
	"strings"
	"time"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C15 ---

func init() {
	register(&Prop{ID: "C15",
		Rule:        "Keys generated under arbitrary group sizes, key lengths, keeper lists and expiry arguments, into empty and filled stores, compared field by field with the request; random sources that repeat themselves force id collisions, down to a one-letter id space filled to the last id; chi-square tests over letters, letter positions, neighbouring letters and letters at key and group distance on the generated letters (thresholds at a false alarm rate below 1e-12, with a fixed stream); bytes drawn from the source counted; the same through the command line. Non-trivial: distinct configuration and request.",
		Assumptions: []string{"a year is 365 days", "the order of keepers is free"},
		Need:        []string{"keys", "collisions", "own_call_removed", "default_expiry", "dtg_expiry", "bad_expiry", "letters_tested", "pairs_tested", "source_replayed", "cli", "thousands"},
		Sections: []Section{
			{Name: "generate", Quick: 600, Thorough: 15000, Run: c15Generate},
			{Name: "collide", Quick: 60, Thorough: 1000, Run: c15Collide},
			{Name: "uniform", Quick: 8, Thorough: 64, Run: c15Uniform},
			{Name: "long", Quick: 4, Thorough: 32, Run: c15Long},
			{Name: "source", Quick: 60, Thorough: 800, Run: c15Source},
			{Name: "cli", Quick: 32, Thorough: 300, Run: c15CLI},
		}})
}

// messy writes call-signs as a user might: cases, separators, several
// arguments.
func messy(r *mrand.Rand, cs []string) []string {
	var out []string
	for i := 0; i < len(cs); {
		n := 1 + r.IntN(len(cs)-i)
		s := pick(r, "", " ", ",", " ,\t")
		for j := i; j < i+n; j++ {
			if j > i {
				s += pick(r, ",", " ", ", ", " , ", ",,", "\t", "\n")
			}
			s += randCase(r, cs[j])
		}
		out = append(out, s+pick(r, "", " ", ","))
		i += n
		if r.IntN(6) == 0 {
			out = append(out, pick(r, "", " ", ",", ", ,"))
		}
	}
	if len(cs) == 0 && r.IntN(2) == 0 {
		out = append(out, pick(r, "", " ", ","))
	}
	return out
}

// dtgOf writes a time as a complete date-time group in UTC.
func dtgOf(t time.Time) string {
	t = t.UTC()
	return fmt.Sprintf("%02d%02d%02dZ%s%02d", t.Day(), t.Hour(), t.Minute(), months[t.Month()-1], t.Year()%100)
}

func randMinute(r *mrand.Rand) time.Time {
	return time.Date(2001+r.IntN(65), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), 0, 0, time.UTC)
}

func sortedCalls(x [][]rune) []string {
	var s []string
	for _, r := range x {
		s = append(s, string(r))
	}
	sort.Strings(s)
	return s
}

// c15Check compares a new key with what was asked for.
func c15Check(c *Case, k *k431.Krypto431, key *k431.Key, gs, kl int, keepers []string, expires time.Time, slack time.Duration, from, to time.Time) {
	if len(key.Id) != gs {
		c.Fatal("id-length", "key id %q has not the group size %d", string(key.Id), gs)
	}
	for _, x := range key.Id {
		if x < 'A' || x > 'Z' {
			c.Fatal("id-letters", "key id %q", string(key.Id))
		}
	}
	if want := roundUp(kl, gs); len(key.Runes) != want {
		c.Fatal("key-length", "a key of length %d in groups of %d has %d letters, not %d", kl, gs, len(key.Runes), want)
	}
	for i, x := range key.Runes {
		if x < 'A' || x > 'Z' {
			c.Fatal("key-letters", "letter %d of %d of key %s is %q", i, len(key.Runes), string(key.Id), x)
		}
	}
	if key.Used || key.Compromised {
		c.Fatal("marks", "a new key is used=%v compromised=%v", key.Used, key.Compromised)
	}
	if len(key.Comment) != 0 {
		c.Fatal("comment", "a new key has the comment %q", string(key.Comment))
	}
	want := append([]string(nil), keepers...)
	sort.Strings(want)
	if got := sortedCalls(key.Keepers); strings.Join(got, "|") != strings.Join(want, "|") {
		c.Fatal("keepers", "keepers %v instead of %v", got, want)
	}
	if d := key.Expires.Time.Sub(expires); d < 0 || d > slack {
		c.Fatal("expires", "expires %v, asked for %v", key.Expires.Time, expires)
	}
	if key.Created.Time.Before(from.Add(-time.Second)) || key.Created.Time.After(to.Add(time.Second)) {
		c.Fatal("created", "created %v, generated between %v and %v", key.Created.Time, from, to)
	}
	if key.GetInstance() != k {
		c.Fatal("instance", "the new key belongs to another instance")
	}
}

func c15Generate(c *Case) {
	r := c.R
	gs := pick(r, 5, 5, 5, 1, 2, 3, 4, 6, 7, 8, 10, 12, 26)
	kl := pick(r, 350, 20, 21, 24, 25, 26, 100, 349, 351, 1+r.IntN(500))
	if r.IntN(20) == 0 {
		kl = pick(r, 5000, 20001)
	}
	all := genCalls(r, 7)
	own := all[0]
	k := newStation(k431.WithCallSign(own), k431.WithGroupSize(gs), k431.WithKeyLength(kl))
	for i := r.IntN(8); i > 0; i-- {
		key := addKey(r, k, all[1:1+r.IntN(3)]...)
		key.Used, key.Compromised = r.IntN(2) == 0, r.IntN(2) == 0
		if gs == 1 && i > 6 {
			break
		}
	}
	for i := r.IntN(3); i > 0; i-- {
		k.Messages = append(k.Messages, anyMessage(r, k))
	}
	keepers := append([]string(nil), all[1:1+r.IntN(6)]...)
	asked := append([]string(nil), keepers...)
	if r.IntN(3) == 0 {
		asked = append(asked, own)
		r.Shuffle(len(asked), func(i, j int) { asked[i], asked[j] = asked[j], asked[i] })
		c.Count("own_call_removed", 1)
	}
	args := messy(r, asked)
	n := pick(r, 0, 1, 1, 2, 3, 5, 11)
	before := snapOf(k)
	c.Note("request", map[string]any{"groupsize": gs, "keylength": kl, "keepers": args, "n": n, "own": own})
	from := time.Now()
	switch r.IntN(4) {
	case 0: // default expiry
		if err := k.GenerateKeys(n, nil, args...); err != nil {
			c.Fatal("error", "generating %d keys: %v", n, err)
		}
		to := time.Now()
		c15Added(c, k, before, n, func(key *k431.Key) {
			c15Check(c, k, key, gs, kl, keepers, from.Add(365*24*time.Hour).Round(0), to.Sub(from)+time.Second, from, to)
		})
		c.Count("default_expiry", 1)
	case 1:
		t := randMinute(r)
		s := dtgOf(t)
		var want func(time.Time) time.Time
		if r.IntN(2) == 0 { // other zones and shorter forms
			withLocal(r, func(loc *time.Location) {
				s, want, _ = genDTG(r, loc)
				s = strings.NewReplacer("MAJ", "MAY", "OKT", "OCT").Replace(s)
				from = time.Now()
				err := k.GenerateKeys(n, &s, args...)
				if err != nil {
					c.Fatal("error", "generating %d keys that expire %s: %v", n, s, err)
				}
				if t = want(from); !t.Equal(want(time.Now())) {
					t = time.Time{} // the month just ended
				}
				c.Note("expire", s)
			})
			if !t.IsZero() {
				c15Added(c, k, before, n, func(key *k431.Key) {
					c15Check(c, k, key, gs, kl, keepers, t, 0, from, time.Now())
				})
			}
			c.Count("dtg_forms", 1)
			break
		}
		s = randCase(r, s)
		if err := k.GenerateKeys(n, &s, args...); err != nil {
			if s == strings.ToUpper(s) {
				c.Fatal("error", "generating %d keys that expire %s: %v", n, s, err)
			}
			// lower case date-time groups may be refused
			if d := diff(before, snapOf(k)); d != "" {
				c.Fatal("refused-changed", "refused, but %s", d)
			}
			return
		}
		c15Added(c, k, before, n, func(key *k431.Key) {
			c15Check(c, k, key, gs, kl, keepers, t, 0, from, time.Now())
		})
		c.Count("dtg_expiry", 1)
	case 2:
		s := pick(r, "", "x", "tomorrow", "991299Z", "321200ZJAN25", "012500ZJAN25", "010060ZJAN25", "011200ZXXX25", "0112Z", "2025-01-01")
		if err := k.GenerateKeys(n, &s, args...); err == nil {
			c.Fatal("bad-expiry", "keys that expire %q were generated", s)
		}
		if d := diff(before, snapOf(k)); d != "" {
			c.Fatal("refused-changed", "refused the expiry %q, but %s", s, d)
		}
		c.Count("bad_expiry", 1)
		return
	case 3:
		t := time.Unix(r.Int64N(1<<33), 0)
		for i := 0; i < n; i++ {
			key := k.NewKey(t, args...)
			if key == nil {
				c.Fatal("error", "NewKey returned nothing")
			}
			if a, b := snapKey(key), snapKey(&k.Keys[len(k.Keys)-1]); a != b {
				c.Fatal("returned", "the returned key %v is not the one added %v", a, b)
			}
		}
		c15Added(c, k, before, n, func(key *k431.Key) {
			c15Check(c, k, key, gs, kl, keepers, t, 0, from, time.Now())
		})
	}
	c.Count("keys", n)
	c.Distinct(gs, kl, args, n)
	c.Eval(n + 1)
}

// c15Added checks that exactly n keys were added after the old ones, all with
// ids of their own.
func c15Added(c *Case, k *k431.Krypto431, before snap, n int, f func(*k431.Key)) {
	after := snapOf(k)
	if len(after.Keys) != len(before.Keys)+n {
		c.Fatal("count", "%d keys asked for, %d became %d", n, len(before.Keys), len(after.Keys))
	}
	seen := map[string]bool{}
	for i := range after.Keys {
		if seen[after.Keys[i].ID] {
			c.Fatal("id-twice", "key id %s exists twice", after.Keys[i].ID)
		}
		seen[after.Keys[i].ID] = true
	}
	news := map[string]bool{}
	old := snap{GroupSize: after.GroupSize, KeyLength: after.KeyLength, Columns: after.Columns, KeyColumns: after.KeyColumns, CallSign: after.CallSign, Messages: after.Messages}
	for i := range after.Keys {
		if before.key(after.Keys[i].ID) == nil {
			news[after.Keys[i].ID] = true
			f(&k.Keys[i])
		} else {
			old.Keys = append(old.Keys, after.Keys[i])
		}
	}
	if d := diff(sortSnap(before), sortSnap(old)); d != "" {
		c.Fatal("existing", "generating keys changed what was there: %s", d)
	}
	if len(news) != n {
		c.Fatal("count", "%d keys asked for, %d ids are new", n, len(news))
	}
}

// c15Collide makes the random source repeat itself.
func c15Collide(c *Case) {
	r := c.R
	if raceBuild {
		return
	}
	if c.Idx%3 == 0 { // fill the whole id space
		k := newStation(k431.WithCallSign("AA"), k431.WithGroupSize(1), k431.WithKeyLength(20))
		before := snapOf(k)
		if err := k.GenerateKeys(26, nil, "QJ"); err != nil {
			c.Fatal("error", "%v", err)
		}
		c15Added(c, k, before, 26, func(*k431.Key) {})
		c.Count("collisions", 1)
		c.Count("keys", 26)
		c.Eval(26)
		return
	}
	if c.Idx%20 == 1 { // so many keys that ids must repeat
		gs, n := 3, 3000
		if r.IntN(2) == 0 {
			gs, n = 2, 600
		}
		k := newStation(k431.WithCallSign("AA"), k431.WithGroupSize(gs), k431.WithKeyLength(20))
		for n > 0 {
			before := snapOf(k)
			d := min(n, 200+r.IntN(1800))
			if err := k.GenerateKeys(d, nil, "QJ"); err != nil {
				c.Fatal("error", "%v", err)
			}
			c15Added(c, k, before, d, func(*k431.Key) {})
			n -= d
		}
		c.Count("collisions", 1)
		c.Count("thousands", 1)
		c.Count("keys", len(k.Keys))
		c.Eval(len(k.Keys))
		return
	}
	gs := 1 + r.IntN(8)
	k := newStation(k431.WithCallSign("AA"), k431.WithGroupSize(gs), k431.WithKeyLength(20+r.IntN(50)))
	seed := r.Uint64()
	sum := 0
	for i := 0; i < 5; i++ {
		before := snapOf(k)
		rand.Reader = newDRBG(seed) // the same stream each time
		n := 1 + r.IntN(2)
		if err := k.GenerateKeys(n, nil); err != nil {
			c.Fatal("error", "%v", err)
		}
		c15Added(c, k, before, n, func(*k431.Key) {})
		sum += n
	}
	// Ids that exist in lower case are the same ids.
	k2 := newStation(k431.WithCallSign("AA"), k431.WithGroupSize(gs), k431.WithKeyLength(20))
	rand.Reader = newDRBG(seed)
	k2.GenerateKeys(1, nil)
	k2.Keys[0].Id = []rune(strings.ToLower(string(k2.Keys[0].Id)))
	rand.Reader = newDRBG(seed)
	k2.GenerateKeys(1, nil)
	if strings.EqualFold(string(k2.Keys[0].Id), string(k2.Keys[1].Id)) {
		c.Fatal("id-fold", "key ids %s and %s are the same to the program", string(k2.Keys[0].Id), string(k2.Keys[1].Id))
	}
	c.Count("collisions", 5)
	c.Count("keys", sum)
	c.Distinct(gs, seed)
	c.Eval(sum)
}

// chiBad tells if counts differ from uniform beyond what happens once in 1e12.
func chiBad(counts []int) (float64, bool) {
	n := 0
	for _, x := range counts {
		n += x
	}
	e := float64(n) / float64(len(counts))
	chi := 0.0
	for _, x := range counts {
		chi += (float64(x) - e) * (float64(x) - e) / e
	}
	df := float64(len(counts) - 1)
	// Wilson-Hilferty
	z := (math.Pow(chi/df, 1.0/3) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
	return z, z > 7.2 || z < -7.2
}

func c15Uniform(c *Case) {
	r := c.R
	gs := pick(r, 5, 5, 3, 7)
	kl := pick(r, 350, 50, 100)
	n := 120000 / kl
	if c.Thorough {
		n *= 4
	}
	k := newStation(k431.WithCallSign("AA"), k431.WithGroupSize(gs), k431.WithKeyLength(kl))
	if err := k.GenerateKeys(n, nil, "QJ"); err != nil {
		c.Fatal("error", "%v", err)
	}
	kl = len(k.Keys[0].Runes)
	letter, ids := make([]int, 26), make([]int, 26)
	ends := map[string][]int{}
	bump := func(name string, n, i int) {
		if ends[name] == nil {
			ends[name] = make([]int, n)
		}
		ends[name][i]++
	}
	ix := func(x rune) int {
		if x < 'A' || x > 'Z' {
			c.Fatal("letters", "generated %q", x)
		}
		return int(x - 'A')
	}
	for i := range k.Keys {
		key := k.Keys[i].Runes
		for j := range key {
			letter[ix(key[j])]++
			if n > 300 || j < 3 || j >= kl-gs {
				bump(fmt.Sprintf("letter %d", j), 26, ix(key[j]))
			}
			for _, lag := range []int{1, 2, gs, 26} {
				if j+lag < len(key) {
					bump(fmt.Sprintf("letters %d apart", lag), 26, (ix(key[j])-ix(key[j+lag])+26)%26)
					if lag == 1 {
						bump("neighbours", 676, ix(key[j])*26+ix(key[j+lag]))
					}
				}
			}
			if i > 0 {
				bump("same place in neighbouring keys", 26, (ix(key[j])-ix(k.Keys[i-1].Runes[j])+26)%26)
			}
		}
		for j, x := range k.Keys[i].Id {
			ids[ix(x)]++
			bump("key minus id", 26, (ix(key[j])-ix(x)+26)%26)
		}
	}
	ends["key letters"], ends["id letters"] = letter, ids
	var names []string
	for name := range ends {
		names = append(names, name)
	}
	sort.Strings(names)
	worst := 0.0
	for _, name := range names {
		z, bad := chiBad(ends[name])
		if math.Abs(z) > math.Abs(worst) {
			worst = z
		}
		if bad {
			c.Fatal("not-uniform", "%s: counts %v, %.1f standard deviations from uniform", name, ends[name], z)
		}
	}
	c.Sample(map[string]any{"letters": n * kl, "tests": len(names), "largest deviation (sigma)": worst})
	c.Count("letters_tested", n*kl)
	c.Count("pairs_tested", n*(kl-1))
	c.Count("keys", n)
	c.Distinct(gs, kl, string(k.Keys[0].Runes))
	c.Eval(len(names))
}

// c15Source: keys depend on the random source and nothing else.
func c15Source(c *Case) {
	r := c.R
	if raceBuild {
		return
	}
	gs, kl := 1+r.IntN(8), 20+r.IntN(200)
	if gs < 3 {
		gs = 3
	}
	seed := r.Uint64()
	gen := func(s uint64, n int) ([]string, int64) {
		d := newDRBG(s)
		rand.Reader = d
		k := newStation(k431.WithCallSign(genCall(r)), k431.WithGroupSize(gs), k431.WithKeyLength(kl))
		k.GenerateKeys(n, nil, genCall(r))
		var out []string
		for i := range k.Keys {
			out = append(out, string(k.Keys[i].Id)+" "+string(k.Keys[i].Runes))
		}
		return out, d.n
	}
	n := 1 + r.IntN(3)
	a, used := gen(seed, n)
	b, _ := gen(seed, n)
	x, _ := gen(seed+1, n)
	if strings.Join(a, ",") != strings.Join(b, ",") {
		c.Fatal("other-source", "the same random bytes gave other keys: something else than the system's random source is used")
	}
	for i := range a {
		for j := range x {
			if a[i] == x[j] {
				c.Fatal("predictable", "other random bytes gave the same key")
			}
			same := 0
			for p := gs + 1; p < len(a[i]); p++ {
				if a[i][p] == x[j][p] {
					same++
				}
			}
			if same > len(a[i])/2 {
				c.Fatal("predictable", "other random bytes gave the same letter at %d of %d places", same, len(a[i]))
			}
		}
	}
	if min := int64(float64(n*(gs+roundUp(kl, gs))) * math.Log2(26) / 8); used < min {
		c.Fatal("little-entropy", "%d keys were made of %d random bytes, %d are needed", n, used, min)
	}
	c.Count("source_replayed", 1)
	c.Count("keys", 3*n)
	c.Distinct(gs, kl, seed)
	c.Eval(n)
}

// c15Long generates long keys and many keys, no part of which may ever repeat:
// among a million letters, the same fourteen appear twice once in a hundred
// million runs.
func c15Long(c *Case) {
	r := c.R
	kl, n := 30000+r.IntN(30000), 6
	if c.Idx%2 == 1 {
		kl, n = pick(r, 50, 100, 20), 2500+r.IntN(1500)
	}
	k := newStation(k431.WithCallSign("AA"), k431.WithKeyLength(kl))
	for left := n; left > 0; {
		m := left
		if r.IntN(3) == 0 {
			m = 1 + r.IntN(left)
		}
		if err := k.GenerateKeys(m, nil, "QJ"); err != nil {
			c.Fatal("error", "%v", err)
		}
		left -= m
	}
	const part = 14
	seen := make(map[[part]byte][2]int, n*kl)
	ids := map[string]bool{}
	for i := range k.Keys {
		key := k.Keys[i].Runes
		if id := string(k.Keys[i].Id); ids[id] || len(key) < kl {
			c.Fatal("many", "key %d of %d has the id %s and %d letters", i, n, id, len(key))
		} else {
			ids[id] = true
		}
		for j := 0; j+part <= len(key); j++ {
			var w [part]byte
			for x := range w {
				w[x] = byte(key[j+x])
			}
			if at, ok := seen[w]; ok {
				c.Fatal("repeats", "letters %d-%d of key %d are those of key %d from %d: %s", j, j+part-1, i, at[0], at[1], w)
			}
			seen[w] = [2]int{i, j}
		}
	}
	if len(k.Keys) != n {
		c.Fatal("many", "%d keys instead of %d", len(k.Keys), n)
	}
	c.Count("parts_compared", len(seen))
	c.Count("keys", n)
	c.Distinct(kl, n)
	c.Eval(n)
}

func c15CLI(c *Case) {
	r := c.R
	all := genCalls(r, 5)
	file, pfk := c.Path("store"), hexKey(r)
	gs, kl := 3+r.IntN(6), 20+r.IntN(80)
	k := fileStation(all[0], cfg{gs, kl}, file, pfk)
	for i := r.IntN(4); i > 0; i-- {
		addKey(r, k, all[1])
	}
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	before := snapOf(k)
	keepers := append([]string(nil), all[1:1+r.IntN(4)]...)
	n := 1 + r.IntN(12)
	args := []string{"-f", file, "-K", pfk, pick(r, "keys", "k"), "-n", fmt.Sprint(n)}
	flag := pick(r, "-k", "--keepers") // the two can not be mixed
	for _, x := range keepers {
		args = append(args, flag, pick(r, randCase(r, x), " "+x+" "))
	}
	if r.IntN(4) == 0 {
		args = append(args, flag, all[0])
	}
	var exp time.Time
	slack := time.Duration(0)
	switch r.IntN(3) {
	case 0:
		exp = randMinute(r)
		args = append(args, "-x", dtgOf(exp))
	case 1:
		args = append(args, "-x", "someday")
		x := c.run(cmdOpt{}, *fCLI, args...)
		if x.code == 0 {
			c.Fatal("cli-bad-expiry", "%v exits 0", args)
		}
		l, err := reopen(file, pfk)
		if err != nil {
			c.Fatal("cli-lost", "%v", err)
		}
		if d := diff(before, snapOf(l)); d != "" {
			c.Fatal("cli-bad-expiry", "refused, but %s", d)
		}
		c.Eval(1)
		return
	}
	c.Note("args", args)
	from := time.Now()
	if exp.IsZero() {
		exp = from.Add(365 * 24 * time.Hour).Round(0)
		slack = time.Hour
	}
	x := c.run(cmdOpt{}, *fCLI, args...)
	if x.code != 0 {
		c.Fatal("cli", "%v: exit %d: %s", args, x.code, x.err)
	}
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("cli-lost", "%v", err)
	}
	c15Added(c, l, before, n, func(key *k431.Key) {
		c15Check(c, l, key, gs, kl, keepers, exp, slack, from, time.Now())
	})
	c.Count("cli", 1)
	c.Count("keys", n)
	c.Distinct(args)
	c.Eval(n)
}
