package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"os"
	"slices"
	"strings"
	"sync"
	"time"
	"unicode"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C31 ---

func init() {
	register(&Prop{ID: "C31", CPU: 200,
		Rule:        "Assert on the grid of all settings around their limits (and far from them), judged by an independent predicate and by which error may be reported; every option alone and in random sequences, every field compared with a model of what the options say; call-signs of all kinds through SetCallSign, options and the command; the initialise command with random settings around the limits, by flags and by answering its questions on a pseudo terminal (also wrongly first), the store it makes opened and compared with what was asked for, and on refusal the absence of a store or the old one unchanged. Non-trivial: distinct (settings, call-sign, way).",
		Assumptions: []string{"several wrong settings may be reported in any order, one at a time", "an expiry date is not looked at when no keys are asked for", "negative numbers of keys are not judged"},
		Need:        []string{"accepted", "refused", "defaults", "options", "call_ok", "call_refused", "init_ok", "init_refused", "replaced", "questions_ok", "questions_refused", "asked_again", "home", "call_only", "init_thousands"},
		Sections: []Section{
			{Name: "assert", Quick: 48, Thorough: 2000, Run: c31Assert},
			{Name: "options", Quick: 300, Thorough: 20000, Run: c31Options},
			{Name: "callsign", Quick: 400, Thorough: 20000, Run: c31Call},
			{Name: "cli", Quick: 600, Thorough: 6000, Run: c31CLI},
			{Name: "terminal", Quick: 160, Thorough: 1000, Run: c31Terminal},
		}})
}

// settings as a model.
type settings struct {
	file            string
	gs, kl, w, keyw int
}

// wrong tells which errors may be reported.
func (s settings) wrong() (errs []error) {
	if s.file == "" {
		errs = append(errs, k431.ErrNoPersistence)
	}
	if s.gs < 1 {
		errs = append(errs, k431.ErrInvalidGroupSize)
	}
	if s.kl < 20 {
		errs = append(errs, k431.ErrKeyTooShort)
	}
	if s.w < 85 {
		errs = append(errs, k431.ErrTooNarrow)
	}
	if s.keyw < s.gs {
		errs = append(errs, k431.ErrKeyColumnsTooShort)
	}
	return
}

func c31Judge(c *Case, k *k431.Krypto431, s settings, how string) {
	err := k.Assert()
	wrong := s.wrong()
	if len(wrong) == 0 {
		if err != nil {
			c.Fatal("refused", "%s: valid settings %+v are refused: %v", how, s, err)
		}
		c.Count("accepted", 1)
	} else {
		if err == nil {
			c.Fatal("accepted", "%s: settings %+v are accepted, but wrong: %v", how, s, wrong)
		}
		if !slices.ContainsFunc(wrong, func(w error) bool { return errors.Is(err, w) }) {
			c.Fatal("reason", "%s: settings %+v are refused with %q, it should be %q", how, s, err, wrong)
		}
		c.Count("refused", 1)
	}
	if got := (settings{k.GetPersistence(), k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns}); got != s {
		c.Fatal("changed", "%s: Assert changed %+v to %+v", how, s, got)
	}
	c.Eval(1)
	c.Distinct(s)
}

func c31Assert(c *Case) {
	r := c.R
	k := newStation()
	n := 0
	for _, file := range []string{"", "x", " "} {
		for _, gs := range []int{math.MinInt, -1, 0, 1, 2, 5, 30, 31, 100, math.MaxInt, r.IntN(200)} {
			for _, kl := range []int{math.MinInt, -1, 0, 1, 19, 20, 21, 350, math.MaxInt, r.IntN(1000)} {
				for _, w := range []int{math.MinInt, -1, 0, 80, 84, 85, 86, 110, math.MaxInt, r.IntN(300)} {
					for _, keyw := range []int{math.MinInt, -1, 0, 1, gs - 1, gs, gs + 1, 30, math.MaxInt, r.IntN(200)} {
						n++
						if n%c.of() != c.Idx && r.IntN(200) > 0 {
							continue
						}
						k.SetPersistence(file)
						k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = gs, kl, w, keyw
						c31Judge(c, k, settings{file, gs, kl, w, keyw}, "fields")
					}
				}
			}
		}
	}
}

func c31Options(c *Case) {
	r := c.R
	// The documented defaults.
	k := k431.New()
	def := settings{"~/.krypto431.gob", 5, 350, 110, 30}
	if got := (settings{k.GetPersistence(), k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns}); got != def {
		c.Fatal("defaults", "the defaults are %+v instead of %+v", got, def)
	}
	if len(k.Keys)+len(k.Messages)+len(k.CallSign) > 0 || k.GetPFK() != nil || k.IsInteractive() || k.IsOverwriteExistingKeysOnImport() || k.GetSaltString() != k431.DefaultSalt {
		c.Fatal("defaults", "a new instance has call-sign %q, %d keys, PFK %q, salt %q, interactive %v, overwrite on import %v", string(k.CallSign), len(k.Keys), k.GetPFKString(), k.GetSaltString(), k.IsInteractive(), k.IsOverwriteExistingKeysOnImport())
	}
	c31Judge(c, &k, def, "defaults")
	c.Count("defaults", 1)

	// Random sequences of options.
	for i := 0; i < 6; i++ {
		s := def
		call, pfk, salt := "", "", k431.DefaultSalt
		inter, imp := false, false
		var opts []k431.Option
		var names []string
		n := 1
		if i > 0 {
			n = r.IntN(14)
		}
		for ; n > 0; n-- {
			x := pick(r, -1, 0, 1, 4, 5, 19, 20, 30, 84, 85, 110, 350, r.IntN(500))
			b := r.IntN(2) == 0
			kind := r.IntN(12)
			if i == 0 {
				kind = c.Idx % 12
			}
			switch kind {
			case 0:
				s.gs = x
				opts = append(opts, k431.WithGroupSize(x))
			case 1:
				s.kl = x
				opts = append(opts, k431.WithKeyLength(x))
			case 2:
				s.w = x
				opts = append(opts, k431.WithColumns(x))
			case 3:
				s.keyw = x
				opts = append(opts, k431.WithKeyColumns(x))
			case 4:
				s.file = pick(r, "", "file", "~/x", " ")
				opts = append(opts, k431.WithPersistence(s.file))
			case 5:
				inter = b
				opts = append(opts, k431.WithInteractive(b))
			case 6:
				imp = b
				opts = append(opts, k431.WithOverwriteExistingKeysOnImport(b))
			case 7:
				opts = append(opts, k431.WithOverwritePersistenceIfExists(b))
			case 8:
				raw := c31RandCall(c)
				if want, ok := refCall(raw); ok {
					call = want
				}
				opts = append(opts, k431.WithCallSign(raw))
			case 9:
				pfk = hexKey(r)
				if b {
					opts = append(opts, k431.WithPFKString(pfk))
				} else {
					key, _ := hex.DecodeString(pfk)
					opts = append(opts, k431.WithPFK(&key))
				}
			case 10:
				salt = hexKey(r)
				if b {
					opts = append(opts, k431.WithSaltString(salt))
				} else {
					key, _ := hex.DecodeString(salt)
					opts = append(opts, k431.WithSalt(&key))
				}
			case 11:
				opts = append(opts, k431.WithMutex(&sync.Mutex{}))
			}
			names = append(names, fmt.Sprint(kind, " ", x, b))
		}
		k := k431.New(opts...)
		c.Note("options", names)
		if string(k.CallSign) != call || k.CallSignString() != call || string(k.GetCallSign()) != call || k.GetPFKString() != pfk || k.GetSaltString() != salt || k.IsInteractive() != inter || k.IsOverwriteExistingKeysOnImport() != imp {
			c.Fatal("option", "options %v give call-sign %q (%q), PFK %q (%q), salt %q (%q), interactive %v (%v), overwrite on import %v (%v)", names,
				string(k.CallSign), call, k.GetPFKString(), pfk, k.GetSaltString(), salt, k.IsInteractive(), inter, k.IsOverwriteExistingKeysOnImport(), imp)
		}
		if got := (settings{k.GetPersistence(), k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns}); got != s {
			c.Fatal("option", "options %v give %+v instead of %+v", names, got, s)
		}
		c31Judge(c, &k, s, "options")
		if len(k.Keys)+len(k.Messages) > 0 {
			c.Fatal("option", "options %v make keys or messages", names)
		}
		// Setters.
		b := r.IntN(2) == 0
		if k.SetInteractive(b); k.IsInteractive() != b || k.IsOverwriteExistingKeysOnImport() != imp {
			c.Fatal("setter", "SetInteractive(%v) sets %v (and overwrite on import to %v)", b, k.IsInteractive(), k.IsOverwriteExistingKeysOnImport())
		}
		if k.SetOverwriteExistingKeysOnImport(!b); k.IsInteractive() != b || k.IsOverwriteExistingKeysOnImport() == b {
			c.Fatal("setter", "SetOverwriteExistingKeysOnImport(%v) sets %v (and interactive to %v)", !b, k.IsOverwriteExistingKeysOnImport(), k.IsInteractive())
		}
		k.SetPersistence("other")
		s.file = "other"
		if got := (settings{k.GetPersistence(), k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns}); got != s {
			c.Fatal("setter", "SetPersistence gives %+v instead of %+v", got, s)
		}
		c.Count("options", 1)
	}
}

// refCall is the call-sign a string stands for.
func refCall(s string) (string, bool) {
	x := []rune(s)
	for len(x) > 0 && unicode.IsSpace(x[0]) {
		x = x[1:]
	}
	for len(x) > 0 && unicode.IsSpace(x[len(x)-1]) {
		x = x[:len(x)-1]
	}
	for i := range x {
		x[i] = unicode.ToUpper(x[i])
	}
	return string(x), len(x) >= 2
}

func c31RandCall(c *Case) string {
	r := c.R
	in := pick(r, "", "a", "Z", "å", "1", "aa", "Åb", "éé", "漢", "漢字", "ß", "sm", randCase(r, genCall(r)), randCase(r, genCall(r)), genCall(r), "a b", "a, b")
	sp := func() string { return pick(r, "", "", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u2003") }
	return sp() + in + sp()
}

func c31Call(c *Case) {
	r := c.R
	k := newStation(k431.WithPersistence("x"))
	was := ""
	for i := 0; i < 30; i++ {
		raw := c31RandCall(c)
		if r.IntN(10) == 0 {
			raw = string(anyRunes(r, r.IntN(5)))
		}
		want, ok := refCall(raw)
		err := k.SetCallSign(raw)
		if ok {
			if err != nil || string(k.CallSign) != want {
				c.Fatal("call", "SetCallSign(%q) sets %q (%v), want %q", raw, string(k.CallSign), err, want)
			}
			was = want
			c.Count("call_ok", 1)
		} else {
			if !errors.Is(err, k431.ErrInvalidCallSign) {
				c.Fatal("call-accepted", "SetCallSign(%q) returns %v", raw, err)
			}
			if string(k.CallSign) != was {
				c.Fatal("call-lost", "SetCallSign(%q) is refused, but the call-sign %q became %q", raw, was, string(k.CallSign))
			}
			c.Count("call_refused", 1)
		}
		if k.CallSignString() != was || string(k.GetCallSign()) != was {
			c.Fatal("call-get", "the call-sign %q is given as %q and %q", was, k.CallSignString(), string(k.GetCallSign()))
		}
		if got := (settings{k.GetPersistence(), k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns}); got != (settings{"x", 5, 350, 110, 30}) {
			c.Fatal("call-other", "SetCallSign(%q) changes the settings to %+v", raw, got)
		}
		c.Distinct(raw)
		c.Eval(1)
	}
}

// c31Want is what a new store has to hold.
type c31Want struct {
	settings
	call    string
	n       int
	keepers []string
	exp     time.Time
	from    time.Time
}

func (w c31Want) judge(c *Case, file, pfk, what string) {
	l, err := reopen(file, pfk)
	if err != nil {
		c.Fatal("init-lost", "%s: the new store does not load: %v", what, err)
	}
	if string(l.CallSign) != w.call {
		c.Fatal("init-call", "%s: the call-sign is %q, want %q", what, string(l.CallSign), w.call)
	}
	if got := (settings{w.file, l.GroupSize, l.KeyLength, l.Columns, l.KeyColumns}); got != w.settings {
		c.Fatal("init-settings", "%s: the store has %+v, want %+v", what, got, w.settings)
	}
	if len(l.Keys) != w.n || len(l.Messages) != 0 {
		c.Fatal("init-keys", "%s: the store has %d keys and %d messages, want %d keys", what, len(l.Keys), len(l.Messages), w.n)
	}
	ids := map[string]bool{}
	for i := range l.Keys {
		exp, slack := w.exp, time.Duration(0)
		if exp.IsZero() {
			exp, slack = w.from.Add(365*24*time.Hour-time.Second), time.Hour
		}
		c15Check(c, l, &l.Keys[i], w.gs, w.kl, w.keepers, exp, slack, w.from, time.Now())
		ids[string(l.Keys[i].Id)] = true
	}
	if len(ids) != w.n {
		c.Fatal("init-keys", "%s: %d keys have %d ids", what, w.n, len(ids))
	}
}

func c31CLI(c *Case) {
	r := c.R
	pfk := hexKey(r)
	file := c.Path("store")
	w := c31Want{settings: settings{file, 5, 350, 110, 30}, from: time.Now()}
	args := []string{"-f", file, "-K", pfk}
	home := r.IntN(12) == 0
	if home { // the default file
		args = args[2:]
		file = c.Path(".krypto431.gob")
	}
	args = append(args, pick(r, "init", "initialize"))
	raw := c31RandCall(c)
	if r.IntN(3) > 0 {
		raw = randCase(r, genCall(r))
	}
	call, ok := refCall(raw)
	w.call = call
	opt := func(x string, names ...string) { args = append(args, pick(r, names...), x) }
	noCall := r.IntN(12) == 0
	if !noCall {
		opt(raw, "-c", "--call")
	} else {
		ok = false
	}
	if r.IntN(4) > 0 {
		w.gs = pick(r, 5, 1+r.IntN(12), 1+r.IntN(12), 1+r.IntN(12), 3, 5, pick(r, 0, -1, 30, 31))
		opt(fmt.Sprint(w.gs), "-g", "--groupsize")
	}
	if r.IntN(4) > 0 {
		w.kl = pick(r, 20+r.IntN(200), 20+r.IntN(200), 20+r.IntN(200), 20, 21, 350, pick(r, 19, 0, -3))
		opt(fmt.Sprint(w.kl), "-l", "--key-length")
	}
	if r.IntN(4) > 0 {
		w.w = pick(r, 85+r.IntN(100), 85+r.IntN(100), 85, 86, 200, 110, pick(r, 84, 0, -1))
		opt(fmt.Sprint(w.w), "--columns")
	}
	if r.IntN(4) > 0 {
		w.keyw = pick(r, w.gs+r.IntN(40), w.gs+r.IntN(40), w.gs+r.IntN(40), w.gs, w.gs, w.gs+1, w.gs-1)
		opt(fmt.Sprint(w.keyw), "--key-columns")
	}
	if r.IntN(4) > 0 {
		w.n = r.IntN(8)
		if w.gs > 3 && r.IntN(20) == 0 {
			w.n = 5001 + r.IntN(900)
			c.Count("init_thousands", 1)
		}
		opt(fmt.Sprint(w.n), "-n", "--keys")
	}
	if r.IntN(3) > 0 {
		w.keepers = genCalls(r, r.IntN(4))
		asked := slices.Clone(w.keepers)
		w.keepers = slices.DeleteFunc(w.keepers, func(x string) bool { return x == call })
		if ok && r.IntN(4) == 0 && call != "" && !strings.ContainsFunc(call, func(x rune) bool { return x == ',' || unicode.IsSpace(x) }) {
			asked = append(asked, call)
		}
		name := pick(r, "-k", "--keepers")
		for _, x := range asked {
			args = append(args, name, pick(r, randCase(r, x), " "+x, x))
		}
	}
	switch r.IntN(4) {
	case 0:
		w.exp = randMinute(r)
		opt(dtgOf(w.exp), "-x", "--expire")
	case 1:
		if r.IntN(3) == 0 {
			opt(pick(r, "someday", "320000ZJAN30", "12"), "-x", "--expire")
			ok = ok && w.n == 0
		}
	}
	yes := r.IntN(3) == 0
	old := false
	if yes {
		args = append(args, pick(r, "-y", "--yes"))
		if old = r.IntN(3) > 0; old {
			k := fileStation("OLD", cfg{4, 60}, file, pick(r, pfk, hexKey(r)))
			addKey(r, k, "QJ")
			k.Messages = append(k.Messages, *newMsg(k, []rune("old"), "QJ"))
			if err := k.Save(); err != nil {
				c.Fatal("save", "%v", err)
			}
		}
	}
	state := stateOf(file)
	ok = ok && len(w.wrong()) == 0
	what := fmt.Sprintf("%q", args)
	c.Note("command", what)
	x := c.run(cmdOpt{}, *fCLI, args...)
	if strings.Contains(x.err, "goroutine ") {
		c.Fatal("crash", "%s crashes: %s", what, shortText([]rune(x.err)))
	}
	if ok {
		if x.code != 0 {
			c.Fatal("init-refused", "%s: exit %d: %s", what, x.code, x.err)
		}
		w.judge(c, file, pfk, what)
		c.Count("init_ok", 1)
		if old {
			c.Count("replaced", 1)
		}
		if home {
			c.Count("home", 1)
		}
	} else {
		if x.code == 0 {
			c.Fatal("init-accepted", "%s: exits with 0 (wrong: %v, call-sign %q)", what, w.wrong(), raw)
		}
		if strings.TrimSpace(x.err) == "" {
			c.Fatal("init-silent", "%s: exits with %d without a word", what, x.code)
		}
		if d := state.diff(stateOf(file)); d != "" {
			c.Fatal("init-refused-changed", "%s: refused, but %s", what, d)
		}
		c.Count("init_refused", 1)
	}
	c.Distinct(args[3:])
	c.Eval(1)
}

func c31Terminal(c *Case) {
	r := c.R
	pfk := hexKey(r)
	file := c.Path("store")
	w := c31Want{settings: settings{file, 5, 350, 110, 30}, from: time.Now()}
	args := []string{"-f", file, "-K", pfk, "init"}
	if r.IntN(3) == 0 {
		w.keyw = 1 + r.IntN(60)
		args = append(args, "--key-columns", fmt.Sprint(w.keyw))
	}
	if r.IntN(3) == 0 {
		w.w = 85 + r.IntN(60)
		args = append(args, "--columns", fmt.Sprint(w.w))
	}
	var steps []step
	again := 0
	answer := func(prompt, text string, wrong ...string) {
		next := prompt
		for _, x := range wrong {
			steps = append(steps, step{next, x + "\r"})
			next = "Sorry"
			again++
		}
		steps = append(steps, step{next, text + "\r"})
	}
	some := func(l ...string) []string { // wrong answers first
		if r.IntN(3) > 0 {
			return nil
		}
		return l[:1+r.IntN(len(l))]
	}
	raw := randCase(r, genCall(r))
	if r.IntN(5) == 0 {
		raw = pick(r, "x", " ", "åä", " ab ", "7")
	}
	call, ok := refCall(raw)
	w.call = call
	answer("call-sign:", raw, some("")...)
	if r.IntN(4) == 0 && call != "" {
		// Nothing else is asked when there is an answer to any of it.
		for _, i := range r.Perm(4)[:1+r.IntN(4)*r.IntN(2)] {
			switch i {
			case 0:
				w.n = r.IntN(5)
				args = append(args, pick(r, "-n", "--keys"), fmt.Sprint(w.n))
			case 1:
				w.keepers = genCalls(r, 1)
				args = append(args, pick(r, "-k", "--keepers"), w.keepers[0])
				w.keepers = slices.DeleteFunc(w.keepers, func(x string) bool { return x == call })
			case 2:
				w.kl = 20 + r.IntN(200)
				args = append(args, pick(r, "-l", "--key-length"), fmt.Sprint(w.kl))
			case 3:
				w.gs = 1 + r.IntN(12)
				args = append(args, pick(r, "-g", "--groupsize"), fmt.Sprint(w.gs))
			}
		}
		c.Count("call_only", 1)
	} else if call != "" { // else it ends here
		num := func(prompt string, def int, n int, wrong ...string) int {
			text := fmt.Sprint(n)
			if r.IntN(4) == 0 {
				n, text = def, ""
			}
			answer(prompt, text, wrong...)
			return n
		}
		w.n = num("number of initial keys", 0, r.IntN(7), some("-1", "x", "1.5")...)
		w.keepers = genCalls(r, r.IntN(4))
		keepers := ""
		for i, x := range w.keepers {
			if i > 0 {
				keepers += pick(r, ",", " ", ", ")
			}
			keepers += randCase(r, x)
		}
		if r.IntN(4) == 0 && ok {
			keepers = strings.TrimSpace(keepers + " " + call)
		}
		w.keepers = slices.DeleteFunc(w.keepers, func(x string) bool { return x == call })
		answer("keepers of the initial keys", keepers)
		exp := pick(r, "", "", "  ")
		switch r.IntN(3) {
		case 0:
			w.exp = randMinute(r)
			exp = dtgOf(w.exp)
		case 1:
			if r.IntN(3) == 0 {
				exp = pick(r, "someday", "320000ZJAN30")
				ok = ok && w.n == 0
			}
		}
		answer("expiry date", exp)
		w.kl = num("length of keys", 350, 20+r.IntN(200), some("19", "0", "x")...)
		w.gs = num("group size", 5, pick(r, 1+r.IntN(12), 3, 5, 30, 31, 40), some("0", "-2", "five")...)
	}
	ok = ok && len(w.wrong()) == 0
	what := fmt.Sprintf("%q answered with %q", args[4:], steps)
	c.Note("command", what)
	x, done := c.runPTY(cmdOpt{mayHang: true}, steps, *fCLI, args...)
	c.Note("output", x.out)
	if done < len(steps) {
		c.Fatal("not-asked", "%s: only %d of %d questions were asked (exit %d): %s", what, done, len(steps), x.code, x.out)
	}
	if ok {
		if x.code != 0 {
			c.Fatal("init-refused", "%s: exit %d: %s", what, x.code, x.out)
		}
		w.judge(c, file, pfk, what)
		c.Count("questions_ok", 1)
	} else {
		if x.code == 0 {
			c.Fatal("init-accepted", "%s: exits with 0 (wrong: %v, call-sign %q)", what, w.wrong(), raw)
		}
		if _, err := os.Lstat(file); err == nil {
			c.Fatal("init-refused-changed", "%s: refused, but there is a file", what)
		}
		c.Count("questions_refused", 1)
	}
	c.Count("asked_again", again)
	c.Distinct(what)
	c.Eval(1)
}
