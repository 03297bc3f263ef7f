package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	k431 "github.com/sa6mwa/krypto431"
)

// ------------------------------------------------------------------- C20 ---

func init() {
	register(&Prop{ID: "C20", CPU: 200,
		Rule:        "Keys derived through every entry point compared with 24 vectors computed by another implementation (Python's hashlib) and, for random passwords and salts, with an independent PBKDF2 written from RFC 8018; stores written and opened with equal, similar and different passwords and salts; every malformed, short, long and missing key and salt offered to every setter while the key and salt in force are watched; passwords typed, mistyped (cut short, longer, another case, ...) and interrupted at terminals of the program and of the library's prompts, then compared with the key in force; generated keys and salts tested for length, repetition, bit balance and against the bytes of the random source. Non-trivial: distinct password, salt, input.",
		Assumptions: []string{"options that are given an invalid key or salt leave none (documented), so that derivation, saving and loading are refused"},
		Need:        []string{"vectors", "derived", "opened", "not_opened", "refused", "generated", "weak", "cli", "nobody_to_ask", "typed", "mistyped", "typed_short"},
		Sections: []Section{
			{Name: "vectors", Quick: 24, Thorough: 24, Run: c20Vectors},
			{Name: "derive", Quick: 40, Thorough: 600, Run: c20Derive},
			{Name: "open", Quick: 32, Thorough: 400, Run: c20Open},
			{Name: "refuse", Quick: 400, Thorough: 10000, Run: c20Refuse},
			{Name: "weak", Quick: 40, Thorough: 400, Run: c20Weak},
			{Name: "generate", Quick: 8, Thorough: 80, Run: c20Generate},
			{Name: "cli", Quick: 40, Thorough: 300, Run: c20CLI},
			{Name: "typed", Quick: 48, Thorough: 600, Run: c20Typed},
		}})
}

// refPBKDF2 is RFC 8018 PBKDF2 with HMAC-SHA256.
func refPBKDF2(password, salt []byte, iter, size int) []byte {
	mac := hmac.New(sha256.New, password)
	var out []byte
	for block := uint32(1); len(out) < size; block++ {
		var n [4]byte
		binary.BigEndian.PutUint32(n[:], block)
		mac.Reset()
		mac.Write(salt)
		mac.Write(n[:])
		u := mac.Sum(nil)
		t := append([]byte(nil), u...)
		for i := 1; i < iter; i++ {
			mac.Reset()
			mac.Write(u)
			u = mac.Sum(u[:0])
			for j := range t {
				t[j] ^= u[j]
			}
		}
		out = append(out, t...)
	}
	return out[:size]
}

// deriveBy derives a key by one of the entry points.
func deriveBy(c *Case, entry int, k *k431.Krypto431, password []byte) (string, error) {
	b := append([]byte(nil), password...)
	var err error
	name := ""
	switch entry {
	case 0:
		name, err = "DerivePFKFromPassword", k.DerivePFKFromPassword(&b)
	case 1:
		name, err = "DerivePFKFromPasswordWithValidation", k.DerivePFKFromPasswordWithValidation(&b)
	default:
		name, err = "SetPFKFromPassword", k.SetPFKFromPassword(string(password))
	}
	return name, err
}

func c20Vectors(c *Case) {
	var vs []struct{ Password, Salt, Key string }
	b, err := os.ReadFile(filepath.Join(*fData, "pbkdf2.json"))
	if err == nil {
		err = json.Unmarshal(b, &vs)
	}
	if err != nil {
		c.Error("%v", err)
	}
	v := vs[c.Idx%len(vs)]
	pw, _ := hex.DecodeString(v.Password)
	for _, entry := range []int{0, 2} {
		k := newStation()
		if v.Salt != k431.DefaultSalt || c.Idx%4 == 0 {
			if err := k.SetSaltFromString(v.Salt); err != nil {
				c.Fatal("salt", "salt %s: %v", v.Salt, err)
			}
		}
		name, err := deriveBy(c, entry, k, pw)
		if err != nil {
			c.Fatal("vector-error", "%s(%q) with salt %s: %v", name, pw, v.Salt, err)
		}
		if got := k.GetPFKString(); got != v.Key {
			c.Fatal("vector", "%s(%q) with salt %s gives %s, PBKDF2-HMAC-SHA256 with 310000 iterations is %s", name, pw, v.Salt, got, v.Key)
		}
		c.Count("vectors", 1)
	}
	c.Distinct(c.Idx)
	c.Eval(2)
}

func (c *Case) password() []byte {
	r := c.R
	n := 1 + r.IntN(40)
	if r.IntN(4) == 0 {
		n = pick(r, 63, 64, 65, 100, 300)
	}
	b := make([]byte, n)
	kind := r.IntN(3)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(32 + r.IntN(95))
		case 1:
			b[i] = byte('a' + r.IntN(26))
		case 2:
			b[i] = byte(r.IntN(256))
		}
	}
	return b
}

const strongTail = "Kq7!zR#9wLm2@xTv"

func (c *Case) salt() []byte {
	b := make([]byte, pick(c.R, 32, 32, 32, 33, 48, 64, 65, 128))
	for i := range b {
		b[i] = byte(c.R.IntN(256))
	}
	return b
}

func c20Derive(c *Case) {
	r := c.R
	pw, salt := append(c.password(), strongTail...), c.salt()
	if r.IntN(4) == 0 {
		salt, _ = hex.DecodeString(k431.DefaultSalt)
	}
	k := newStation()
	given := hex.EncodeToString(salt)
	switch r.IntN(4) {
	case 0:
		s := append([]byte(nil), salt...)
		k = newStation(k431.WithSalt(&s))
	case 1:
		k = newStation(k431.WithSaltString(given))
	case 2:
		if err := k.SetSaltFromString(strings.ToUpper(given)); err != nil {
			c.Fatal("salt", "%v", err)
		}
	default:
		if err := k.SetSaltFromString(given); err != nil {
			c.Fatal("salt", "%v", err)
		}
	}
	if k.GetSaltString() != given || !bytes.Equal(*k.GetSalt(), salt) {
		c.Fatal("salt", "salt %s became %s", given, k.GetSaltString())
	}
	if r.IntN(2) == 0 {
		k.SetPFKFromString(hexKey(r)) // replaced
	}
	name, err := deriveBy(c, c.Idx%3, k, pw)
	if err != nil {
		c.Fatal("derive-error", "%s: %v", name, err)
	}
	want := hex.EncodeToString(refPBKDF2(pw, salt, 310000, 32))
	if got := k.GetPFKString(); got != want || !bytes.Equal(*k.GetPFK(), unhex(want)) {
		c.Fatal("derive", "%s(%q) with salt %s gives %s instead of %s", name, pw, given, got, want)
	}
	if k.GetSaltString() != given {
		c.Fatal("derive-salt", "deriving a key changed the salt")
	}
	c.Count("derived", 1)
	c.Distinct(string(pw), given)
	c.Eval(1)
}

func c20Open(c *Case) {
	r := c.R
	pw, salt := append(c.password(), strongTail...), c.salt()
	if r.IntN(2) == 0 {
		salt, _ = hex.DecodeString(k431.DefaultSalt)
	}
	file := c.Path("store")
	st := func(pw []byte, salt []byte) *k431.Krypto431 {
		k := newStation(k431.WithCallSign("AA"), k431.WithPersistence(file), k431.WithSaltString(hex.EncodeToString(salt)))
		if err := k.SetPFKFromPassword(string(pw)); err != nil {
			c.Fatal("derive-error", "%v", err)
		}
		return k
	}
	k := st(pw, salt)
	addKey(r, k, "QJ")
	if err := k.Save(); err != nil {
		c.Fatal("save", "%v", err)
	}
	l := st(pw, salt)
	if err := l.Load(); err != nil {
		c.Fatal("open", "the same password and salt do not open the store: %v", err)
	}
	if d := diff(snapOf(k), snapOf(l)); d != "" {
		c.Fatal("open", "%s", d)
	}
	c.Count("opened", 1)
	pw2 := append([]byte(nil), pw...)
	salt2 := append([]byte(nil), salt...)
	what := ""
	switch r.IntN(7) {
	case 0:
		what, pw2 = "one byte more", append(pw2, 'x')
	case 1:
		what, pw2 = "one byte less", pw2[:len(pw2)-1]
	case 2:
		i := r.IntN(len(pw2))
		what = "one bit changed"
		pw2[i] ^= 1 << r.IntN(7)
	case 3:
		what, pw2 = "a space in front", append([]byte(" "), pw2...)
	case 4:
		i := len(pw2) - len(strongTail) + r.IntN(2)
		what = "other case"
		pw2[i] ^= 32
	case 5:
		salt2[r.IntN(len(salt2))] ^= 1 << r.IntN(8)
		what = "one bit of the salt changed"
	case 6:
		salt2 = append(salt2, 1)
		what = "one byte more of salt"
	}
	c.Note("difference", what)
	if r.IntN(8) == 0 && len(pw2) <= 64 {
		what = "" // (HMAC pads with zero bytes: not offered)
	}
	if err := st(pw2, salt2).Load(); err == nil {
		c.Fatal("opened", "the store opens with %s", what)
	}
	c.Count("not_opened", 1)
	c.Distinct(string(pw), hex.EncodeToString(salt), what)
	c.Eval(2)
}

// badHex is a string that is not the hex form of an acceptable length.
func badHex(c *Case, ok func(n int) bool) string {
	r := c.R
	for {
		s := ""
		switch r.IntN(8) {
		case 0:
			s = strings.Repeat("ab", r.IntN(100))
		case 1:
			n := 31 + r.IntN(3)
			s = strings.Repeat("0f", n)
		case 2: // odd
			s = strings.Repeat("ab", 32)[:63]
		case 3:
			s = strings.Repeat("ab", 32) + pick(r, "a", " ", "\n", "g", "\x00")
		case 4:
			b := []byte(hexKey(r))
			b[r.IntN(len(b))] = pick(r, byte('g'), 'G', ' ', '-', 'x', 0, 'z', 0xc3)
			s = string(b)
		case 5:
			s = pick(r, " ", "0x", "\t") + hexKey(r)
		case 6:
			s = string(c.password())
		case 7:
			s = pick(r, "", "default", "nil", "00", hexKey(r)+hexKey(r)[:2], hexKey(r)[:62], hexKey(r)+hexKey(r))
		}
		b, err := hex.DecodeString(s)
		if err != nil || !ok(len(b)) {
			return s
		}
	}
}

func c20Refuse(c *Case) {
	r := c.R
	prev := c.Idx%2 == 0
	k := newStation(k431.WithCallSign("AA"), k431.WithPersistence(c.Path("store")))
	if prev {
		if err := k.SetPFKFromString(hexKey(r)); err != nil {
			c.Fatal("pfk", "%v", err)
		}
		if r.IntN(2) == 0 {
			if err := k.SetSaltFromString(hex.EncodeToString(c.salt())); err != nil {
				c.Fatal("salt", "%v", err)
			}
		}
	}
	pfk, salt := k.GetPFKString(), k.GetSaltString()
	inForce := func(what string, in string) {
		if k.GetPFKString() != pfk || k.GetSaltString() != salt {
			c.Fatal("in-force:"+what, "refusing %s %q changed the key or salt in force: %s/%s became %s/%s", what, in, pfk, salt, k.GetPFKString(), k.GetSaltString())
		}
		c.Count("refused", 1)
	}
	isKey := func(n int) bool { return n == 32 }
	isSalt := func(n int) bool { return n >= 32 }
	in := badHex(c, isKey)
	c.Note("input", in)
	if err := k.SetPFKFromString(in); err == nil {
		c.Fatal("accepted:key", "SetPFKFromString accepts %q", in)
	}
	inForce("key", in)
	in = badHex(c, isSalt)
	c.Note("input", in)
	if err := k.SetSaltFromString(in); err == nil {
		c.Fatal("accepted:salt", "SetSaltFromString accepts %q", in)
	}
	inForce("salt", in)
	if err := k.DerivePFKFromPassword(nil); err == nil {
		c.Fatal("accepted:nil", "a nil password is accepted")
	}
	if err := k.DerivePFKFromPasswordWithValidation(nil); err == nil {
		c.Fatal("accepted:nil", "a nil password is accepted")
	}
	inForce("nil password", "")
	// The options leave nothing to work with.
	in = badHex(c, isKey)
	raw := []byte(unhexOr(in))
	if len(raw) == 32 {
		raw = raw[:31]
	}
	for i, o := range []k431.Option{k431.WithPFKString(in), k431.WithPFK(&raw), k431.WithPFK(nil)} {
		n := newStation(k431.WithCallSign("AA"), k431.WithPersistence(c.Path("n")), o)
		if n.GetPFKString() != "" {
			c.Fatal("option:key", "option %d accepts the key %q: %s", i, in, n.GetPFKString())
		}
		// There is nobody to ask for a key without a terminal.
		if r.IntN(2) == 0 {
			k431.WithInteractive(true)(n)
			c.Count("nobody_to_ask", 1)
		}
		if err := n.Save(); err == nil {
			c.Fatal("option:key-saved", "a station without a key is saved (option %d given %q)", i, in)
		}
		if _, err := os.Stat(c.Path("n")); err == nil {
			c.Fatal("option:key-saved", "a station without a key left a file")
		}
		if err := os.WriteFile(c.Path("n"), []byte("a file"), 0600); err != nil {
			c.Error("%v", err)
		}
		if err := n.Load(); err == nil {
			c.Fatal("option:key-loaded", "a station without a key loads a file (option %d given %q)", i, in)
		}
		if b, _ := os.ReadFile(c.Path("n")); string(b) != "a file" {
			c.Fatal("option:key-saved", "a station without a key changed a file")
		}
		os.Remove(c.Path("n"))
	}
	in = badHex(c, isSalt)
	raw = []byte(unhexOr(in))
	if len(raw) >= 32 {
		raw = raw[:31]
	}
	for i, o := range []k431.Option{k431.WithSaltString(in), k431.WithSalt(&raw), k431.WithSalt(nil)} {
		n := newStation(k431.WithCallSign("AA"), k431.WithPFKString(hexKey(r)), o)
		was := n.GetPFKString()
		if n.GetSaltString() != "" {
			c.Fatal("option:salt", "option %d accepts the salt %q", i, in)
		}
		for entry := 0; entry < 3; entry++ {
			if name, err := deriveBy(c, entry, n, []byte("correct horse battery staple "+strongTail)); err == nil {
				c.Fatal("no-salt", "%s works without a salt", name)
			}
			if n.GetPFKString() != was {
				c.Fatal("in-force:no-salt", "deriving without a salt changed the key in force")
			}
		}
		c.Count("refused", 3)
	}
	// A salt shortened behind the station's back.
	if r.IntN(2) == 0 {
		n := newStation(k431.WithPFKString(hexKey(r)))
		was := n.GetPFKString()
		*n.GetSalt() = (*n.GetSalt())[:r.IntN(32)]
		for entry := 0; entry < 3; entry++ {
			if name, err := deriveBy(c, entry, n, []byte("correct horse battery staple "+strongTail)); err == nil {
				c.Fatal("short-salt", "%s works with a salt of %d bytes", name, len(*n.GetSalt()))
			}
		}
		if n.GetPFKString() != was {
			c.Fatal("in-force:short-salt", "deriving with a short salt changed the key in force")
		}
	}
	// And the good ones are accepted.
	good := hexKey(r)
	if err := k.SetPFKFromString(good); err != nil || k.GetPFKString() != good {
		c.Fatal("good:key", "SetPFKFromString(%s): %v, %s", good, err, k.GetPFKString())
	}
	if k.GetSaltString() != salt {
		c.Fatal("good:key", "setting a key changed the salt")
	}
	gs := c.salt()
	if err := k.SetSaltFromString(hex.EncodeToString(gs)); err != nil || k.GetSaltString() != hex.EncodeToString(gs) {
		c.Fatal("good:salt", "SetSaltFromString: %v, %s", err, k.GetSaltString())
	}
	if k.GetPFKString() != good {
		c.Fatal("good:salt", "setting a salt changed the key")
	}
	good = hexKey(r)
	rawGood := unhex(good)
	for i, o := range []k431.Option{k431.WithPFKString(good), k431.WithPFK(&rawGood)} {
		if n := newStation(o); n.GetPFKString() != good {
			c.Fatal("good:option", "option %d: key %s became %s", i, good, n.GetPFKString())
		}
	}
	c.Distinct(in, good)
	c.Eval(16)
}

func unhexOr(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		return []byte(s)
	}
	return b
}

// c20Weak: validation refuses what is too weak and leaves the previous key.
func c20Weak(c *Case) {
	r := c.R
	defer k431.SetMinimumPasswordEntropyBits(k431.DefaultMinimumPasswordEntropyBits)
	k := newStation(k431.WithPFKString(hexKey(r)))
	was := k.GetPFKString()
	strong := append([]byte(string(letters(r, 6))), strongTail...)
	switch c.Idx % 4 {
	case 0: // weak by any measure
		pw := []byte(pick(r, "", "a", "aaaa", "12345678", "password", "qwerty", "aaaaaaaaaaaaaaaaaaaaaaaa", "abcabc", "Passw0rd", string(letters(r, 5)), "1111111111111111111"))
		c.Note("password", string(pw))
		if err := k.DerivePFKFromPasswordWithValidation(&pw); err == nil {
			c.Fatal("weak", "validation accepts a weak password")
		}
		if k.GetPFKString() != was {
			c.Fatal("weak-in-force", "refusing a weak password changed the key in force")
		}
		c.Count("weak", 1)
	case 1: // the limit is the one set
		k431.SetMinimumPasswordEntropyBits(1000)
		pw := append([]byte(nil), strong...)
		if err := k.DerivePFKFromPasswordWithValidation(&pw); err == nil {
			c.Fatal("limit", "a limit of 1000 bits is not respected")
		}
		if k.GetPFKString() != was {
			c.Fatal("weak-in-force", "refusing a password changed the key in force")
		}
		c.Count("weak", 1)
	case 2:
		k431.SetMinimumPasswordEntropyBits(1)
		if err := k.DerivePFKFromPasswordWithValidation(k431.BytePtr([]byte("abcdef"))); err != nil {
			c.Fatal("limit", "a limit of 1 bit is not respected: %v", err)
		}
		if k.GetPFKString() == was {
			c.Fatal("limit", "the key did not change")
		}
	case 3:
		pw := append([]byte(nil), strong...)
		if err := k.DerivePFKFromPasswordWithValidation(&pw); err != nil {
			c.Fatal("strong", "validation refuses %q: %v", strong, err)
		}
		// Without validation any password will do.
		n := newStation()
		if err := n.SetPFKFromPassword("aaaa"); err != nil || n.GetPFKString() == "" {
			c.Fatal("no-validation", "%v", err)
		}
	}
	c.Distinct(c.Idx)
	c.Eval(1)
}

func c20Generate(c *Case) {
	r := c.R
	gen := []func() string{k431.GeneratePFK, k431.GenerateSalt}[c.Idx%2]
	n := 3000
	seen := map[string]bool{}
	var ones [256]int
	same := 0
	var prev []byte
	for i := 0; i < n; i++ {
		s := gen()
		b, err := hex.DecodeString(s)
		if err != nil || len(b) != 32 || len(s) != 64 {
			c.Fatal("generated", "%q is not the hex form of 32 bytes", s)
		}
		if seen[s] {
			c.Fatal("generated-twice", "%s generated twice", s)
		}
		seen[s] = true
		for j := range ones {
			ones[j] += int(b[j/8]>>(j%8)) & 1
		}
		for j := 1; j < 32; j++ {
			if b[j] == b[j-1] {
				same++
			}
		}
		if prev != nil {
			eq := 0
			for j := range b {
				if b[j] == prev[j] {
					eq++
				}
			}
			if eq > 12 {
				c.Fatal("generated-similar", "%x follows %x", b, prev)
			}
		}
		prev = b
		k := newStation2(s, c.Idx%2)
		if k != "" {
			c.Fatal("generated-refused", "%s: %s", s, k)
		}
	}
	for j, x := range ones {
		if x < n/2-250 || x > n/2+250 { // more than 9 standard deviations
			c.Fatal("generated-bits", "bit %d is one in %d of %d generated values", j, x, n)
		}
	}
	if want := float64(n*31) / 256; float64(same) > want*1.5+50 || float64(same) < want*0.6-50 {
		c.Fatal("generated-bytes", "%d equal neighbours, %f expected", same, want)
	}
	// Every bit of the source reaches the value, and nothing else does.
	if !raceBuild {
		seed := r.Uint64()
		rand.Reader = newDRBG(seed)
		x := gen()
		rand.Reader = newDRBG(seed)
		if y := gen(); x != y {
			c.Fatal("generated-source", "the value does not come from the random source alone")
		}
		cr := &countReader{r: newDRBG(seed)}
		rand.Reader = cr
		gen()
		rand.Reader = newDRBG(r.Uint64())
		if cr.n < 32 {
			c.Fatal("generated-source", "32 bytes made of %d random bytes", cr.n)
		}
	}
	c.Count("generated", n)
	c.Distinct(c.Idx)
	c.Eval(n)
}

// newStation2 offers a generated value to its setter.
func newStation2(s string, kind int) string {
	if kind == 0 {
		if err := stPool.SetPFKFromString(s); err != nil {
			return err.Error()
		}
		if stPool.GetPFKString() != s {
			return "became " + stPool.GetPFKString()
		}
		return ""
	}
	if err := stPool.SetSaltFromString(s); err != nil {
		return err.Error()
	}
	if stPool.GetSaltString() != s {
		return "became " + stPool.GetSaltString()
	}
	return ""
}

var stPool = func() *k431.Krypto431 { k := &k431.Krypto431{}; return k }()

func c20CLI(c *Case) {
	r := c.R
	file := c.Path("store")
	strong := string(letters(r, 6)) + strongTail
	salt := c.salt()
	if r.IntN(2) == 0 {
		salt, _ = hex.DecodeString(k431.DefaultSalt)
	}
	saltArgs := []string{}
	if hex.EncodeToString(salt) != k431.DefaultSalt {
		saltArgs = []string{pick(r, "-S", "--salt"), hex.EncodeToString(salt)}
	}
	key := hex.EncodeToString(refPBKDF2([]byte(strong), salt, 310000, 32))
	run := func(env []string, args ...string) ran {
		c.Note("args", args)
		return c.run(cmdOpt{env: env}, *fCLI, append(append([]string(nil), saltArgs...), args...)...)
	}
	switch c.Idx % 5 {
	case 0: // derived and printed
		x := run(nil, "-P", strong, "pfk", "-g")
		if x.code != 0 || strings.TrimSpace(x.out) != key {
			c.Fatal("cli-derive", "pfk -g with password %q and salt %x prints %q (exit %d), expected %s", strong, salt, x.out, x.code, key)
		}
	case 1: // written with a password, opened with the key and the password
		if x := run(nil, "-f", file, "-P", strong, "init", "-c", "AA", "-n", "2"); x.code != 0 {
			c.Fatal("cli-init", "exit %d: %s", x.code, x.err)
		}
		if _, err := reopen(file, key); err != nil {
			c.Fatal("cli-derive", "a store made with a password does not open with the PBKDF2 key: %v", err)
		}
		if x := run([]string{"KRYPTO_PASSWORD=" + strong, "KRYPTO_FILE=" + file}, "keys", "-l"); x.code != 0 || !strings.Contains(x.out, "TOTALKEYS=2") {
			c.Fatal("cli-open", "exit %d: %s", x.code, x.err)
		}
		for _, a := range [][]string{{"-P", strong + "x"}, {"-P", ""}, {"-K", hexKey(r)}, {"-P", strong, "-S", hexKey(r)}} {
			// (a repeated -S: the last one counts)
			if x := run(nil, append(append([]string{"-f", file}, a...), "keys", "-l")...); x.code == 0 || strings.Contains(x.out, "TOTALKEYS") {
				c.Fatal("cli-opened", "%v opens a store of another password: exit %d: %s", a, x.code, x.out)
			}
		}
	case 2: // refused
		if x := run(nil, "-f", file, "-P", strong, "init", "-c", "AA"); x.code != 0 {
			c.Fatal("cli-init", "exit %d: %s", x.code, x.err)
		}
		before := stateOf(file)
		badK := strings.ReplaceAll(badHex(c, func(n int) bool { return n == 32 }), "\x00", "q")
		badS := strings.ReplaceAll(badHex(c, func(n int) bool { return n >= 32 }), "\x00", "q")
		for _, a := range [][]string{{"-K", badK}, {"-P", strong, "-K", key}, {"-S", badS, "-K", key}, {"-S", badS, "-P", strong}} {
			x := c.run(cmdOpt{}, *fCLI, append(append([]string{"-f", file}, a...), pick(r, []string{"keys", "-n", "1"}, []string{"init", "-y", "-c", "BB"}, []string{"pfk", "-c", file, "-k", hexKey(r), "-y"})...)...)
			if x.code == 0 {
				c.Fatal("cli-accepted", "%q accepted", a)
			}
			if d := before.diff(stateOf(file)); d != "" {
				c.Fatal("cli-accepted", "%q refused, but %s", a, d)
			}
		}
		c.Count("refused", 4)
	case 3: // generated
		g := pick(r, []string{"pfk", "-g", "-r"}, []string{"pfk", "-G"})
		a, b := run(nil, g...), run(nil, g...)
		for _, x := range []ran{a, b} {
			v, err := hex.DecodeString(strings.TrimSpace(x.out))
			if x.code != 0 || err != nil || len(v) != 32 {
				c.Fatal("cli-generated", "%v prints %q (exit %d)", g, x.out, x.code)
			}
		}
		if a.out == b.out {
			c.Fatal("cli-generated", "%v prints the same value twice: %s", g, a.out)
		}
	case 4: // weak
		weak := pick(r, "aaaa", "password", "12345678", "abc")
		if x := run(nil, "-P", weak, "pfk", "-g"); x.code == 0 || strings.TrimSpace(x.out) != "" {
			c.Fatal("cli-weak", "pfk -g accepts the password %q: %s", weak, x.out)
		}
		if x := run(nil, "-M", "500", "-P", strong, "pfk", "-g"); x.code == 0 {
			c.Fatal("cli-limit", "-M 500 is not respected")
		}
		if x := run([]string{"KRYPTO_MINIMUM_ENTROPY=500"}, "-P", strong, "pfk", "-g"); x.code == 0 {
			c.Fatal("cli-limit", "KRYPTO_MINIMUM_ENTROPY=500 is not respected")
		}
		if x := run(nil, "-M", "1", "-P", weak, "pfk", "-g"); x.code != 0 {
			c.Fatal("cli-limit", "-M 1 is not respected: %s", x.err)
		} else if k := hex.EncodeToString(refPBKDF2([]byte(weak), salt, 310000, 32)); strings.TrimSpace(x.out) != k {
			c.Fatal("cli-derive", "pfk -g prints %q instead of %s", x.out, k)
		}
		c.Count("weak", 1)
	}
	c.Count("cli", 1)
	c.Distinct(c.Idx, strong)
	c.Eval(1)

}

// mistype gives something close to, but not, what was typed.
func mistype(c *Case, pw string) string {
	for {
		r, b := c.R, []byte(pw)
		switch r.IntN(9) {
		case 0: // cut short
			b = b[:r.IntN(len(b))]
		case 1:
			b = b[:len(b)-1]
		case 2: // the end only
			b = b[1+r.IntN(len(b)-1):]
		case 3:
			b = append(b, pick(r, "x", " ", pw)...)
		case 4:
			b = append([]byte(pick(r, "x", " ")), b...)
		case 5: // another case
			i := r.IntN(len(b))
			b[i] ^= 0x20
			if b[i] < 0x21 || b[i] > 0x7e {
				continue
			}
		case 6: // another character
			b[r.IntN(len(b))] = byte('a' + r.IntN(26))
		case 7: // two exchanged
			i := r.IntN(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		case 8:
			b = nil
		}
		if string(b) != pw {
			return string(b)
		}
	}
}

// c20Typed types passwords at a terminal: a new one counts when the same was
// typed twice, and gives the same key as if it was given in another way.
func c20Typed(c *Case) {
	r := c.R
	pw := string(letters(r, 4+r.IntN(4))) + strongTail
	if r.IntN(4) == 0 {
		pw = "åÄ " + pw
	}
	file := c.Path("store")
	want := pbkdf(pw, k431.DefaultSalt)
	// The answers to a prompt for a new password.
	answers := func(prompt string, weak bool) (steps []step, ok bool) {
		for i := r.IntN(3); i > 0; i-- {
			if weak && r.IntN(4) == 0 {
				steps = append(steps, step{prompt, pick(r, "", "abc", "password") + "\r"})
				continue
			}
			steps = append(steps, step{prompt, pw + "\r"}, step{"(repeat)", mistype(c, pw) + "\r"})
			c.Count("mistyped", 1)
		}
		steps = append(steps, step{prompt, pw + "\r"}, step{"(repeat)", pw + "\r"})
		if r.IntN(3) == 0 {
			// Never the same twice: interrupted at the next question.
			steps[len(steps)-1].send = mistype(c, pw) + "\r"
			c.Count("mistyped", 1)
			return append(steps, step{prompt, "\x03"}), false
		}
		return steps, true
	}
	switch c.Idx % 4 {
	case 0, 1: // a new store
		steps, ok := answers("Enter encryption key", true)
		c.Note("steps", fmt.Sprintf("%q", steps))
		x, done := c.runPTY(cmdOpt{}, steps, *fCLI, "-f", file, "init", "-c", "AA", "-n", "1")
		c.Note("output", x.out)
		if strings.Contains(x.out, pw) {
			c.Fatal("typed-echo", "the password is shown: %s", x.out)
		}
		if !ok {
			if _, err := os.Stat(file); err == nil {
				c.Fatal("typed-accepted", "the password was never typed the same twice (%q), but the store is made: %s", steps, x.out)
			}
			c.Check(x.code != 0, "typed-accepted", "the password was never typed the same twice (%q), but the program exits with 0: %s", steps, x.out)
			break
		}
		if done < len(steps) || x.code != 0 {
			c.Fatal("typed-refused", "exit %d after %d of %d answers %q: %s", x.code, done, len(steps), steps, x.out)
		}
		if _, err := reopen(file, want); err != nil {
			c.Fatal("typed-key", "a store made with a typed password does not open with the PBKDF2 key: %v", err)
		}
		// Opened by typing.
		a, what := pw, "the password"
		if r.IntN(2) == 0 {
			a, what = mistype(c, pw), "another password"
		}
		x, _ = c.runPTY(cmdOpt{}, []step{{"Enter decryption key", a + "\r"}}, *fCLI, "-f", file, "keys", "-l")
		if opened := strings.Contains(x.out, "TOTALKEYS="); opened != (a == pw) || opened != (x.code == 0) {
			c.Fatal("typed-open", "%s %q typed, the password is %q: exit %d: %s", what, a, pw, x.code, x.out)
		}
	case 2, 3: // the prompts of the library
		op, min := "confirm", 0
		var steps []step
		ok := true
		prompt := "Type it now"
		switch r.IntN(3) {
		case 0:
			steps, ok = answers(prompt, true)
		case 1:
			op = "old"
			min = r.IntN(len(pw) + 1)
			if min > 0 && r.IntN(2) == 0 {
				steps = append(steps, step{prompt, pw[:r.IntN(min)] + "\r"})
				c.Count("typed_short", 1)
			}
			more, o := answers(prompt, false)
			steps, ok = append(steps, more...), o
		case 2:
			op = "ask"
			min = r.IntN(len(pw) + 1)
			for i := r.IntN(3); i > 0 && min > 0; i-- {
				steps = append(steps, step{prompt, pw[:pick(r, min-1, r.IntN(min))] + "\r"})
				c.Count("typed_short", 1)
			}
			steps = append(steps, step{prompt, pw + "\r"})
		}
		what := fmt.Sprintf("%s %d %q", op, min, steps)
		c.Note("steps", what)
		x, done := c.runPTY(cmdOpt{}, steps, self(), "-helper", "password", op, prompt+": ", fmt.Sprint(min))
		c.Note("output", x.out)
		got := ""
		if _, rest, found := strings.Cut(x.out, "RESULT "); found {
			got = strings.TrimSpace(rest)
		}
		if !ok {
			if got != "" {
				c.Fatal("typed-accepted", "%s: never typed the same twice, but the result is %s", what, got)
			}
			break
		}
		if done < len(steps) || got != hex.EncodeToString([]byte(pw)) {
			c.Fatal("typed-result", "%s: the result after %d of %d answers is %q: %s", what, done, len(steps), got, x.out)
		}
	}
	c.Count("typed", 1)
	c.Distinct("typed", c.Idx, pw)
	c.Eval(1)
}
