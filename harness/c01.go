package main

import (
	"math"
	"strings"

	"github.com/sa6mwa/krypto431/diana"
)

func init() {
	register(&Prop{ID: "C01",
		Rule:        "Exhaustive over all 256x256 byte pairs and all rune pairs with at least one member from A-Z and the other from -512..0x30000 or special values; random runes over the whole int32 range; append-by-key over random keys and every index kind. Non-trivial: a distinct (function, class of x, class of y) or letter pair whose result was compared with (25-x-y) mod 26 or whose refusal was checked for an error and an untouched output.",
		Assumptions: []string{"the trigraph formula (25-x-y) mod 26 of the package documentation is the specification"},
		Need:        []string{"letter_pairs_ok", "refusals_checked", "table_cells", "append_ok", "append_refused"},
		Sections: []Section{
			{Name: "bytes", Quick: 256, Thorough: 256, Run: c01Bytes},
			{Name: "runes", Quick: 64, Thorough: 512, Run: c01Runes},
			{Name: "randrunes", Quick: 64, Thorough: 640, Run: c01RandRunes},
			{Name: "nil", Quick: 1, Thorough: 1, Run: c01Nil},
			{Name: "table", Quick: 1, Thorough: 1, Run: c01Table},
			{Name: "append", Quick: 4000, Thorough: 100000, Run: c01Append},
		}})
}

func isAZ[T ~int32 | ~uint8](x T) bool { return x >= 'A' && x <= 'Z' }

func c01Bytes(c *Case) {
	x := byte(c.Idx)
	ok, refused := 0, 0
	for yi := 0; yi < 256; yi++ {
		y := byte(yi)
		out, xx, yy := byte(0xEE), x, y
		err := diana.TrigraphByte(&out, &xx, &yy)
		if xx != x || yy != y {
			c.Fatal("byte-input-changed", "TrigraphByte(%q,%q) changed its inputs", x, y)
		}
		if isAZ(x) && isAZ(y) {
			want := byte('A' + refTri(int(x-'A'), int(y-'A')))
			if err != nil || out != want {
				c.Fatal("byte-letter", "TrigraphByte(%q,%q) = %q, %v; want %q", x, y, out, err, want)
			}
			var back byte
			if err := diana.TrigraphByte(&back, &out, &yy); err != nil || back != x {
				c.Fatal("byte-reciprocal", "TrigraphByte(%q,%q)=%q does not go back with the same key letter: %q %v", x, y, out, back, err)
			}
			if a := x; diana.TrigraphByte(&a, &a, &yy) != nil || a != want {
				c.Fatal("byte-inplace", "in-place TrigraphByte(%q,%q) = %q; want %q", x, y, a, want)
			}
			c.Distinct("b", x, y)
			ok++
			continue
		}
		if err == nil || out != 0xEE {
			c.Fatal("byte-refuse", "TrigraphByte(%d,%d) = %d, %v; want an error and an untouched output", x, y, out, err)
		}
		refused++
	}
	out, xx := byte(0xEE), x
	err := diana.ZeroKeyByte(&out, &xx)
	if isAZ(x) {
		if want := byte('A' + refTri(int(x-'A'), int(x-'A'))); err != nil || out != want {
			c.Fatal("byte-zerokey", "ZeroKeyByte(%q) = %q, %v; want %q", x, out, err, want)
		}
		var same byte
		if err := diana.TrigraphByte(&same, &xx, &out); err != nil || same != x {
			c.Fatal("byte-zerokey", "the zero key of %q enciphers it to %q", x, same)
		}
	} else if err == nil || out != 0xEE {
		c.Fatal("byte-zerokey-refuse", "ZeroKeyByte(%d) = %d, %v", x, out, err)
	}
	c.Eval(257)
	c.Count("letter_pairs_ok", ok)
	c.Count("refusals_checked", refused)
}

func c01CheckRune(c *Case, x, y rune) {
	out, xx, yy := rune(-77), x, y
	err := diana.TrigraphRune(&out, &xx, &yy)
	if xx != x || yy != y {
		c.Fatal("rune-input-changed", "TrigraphRune(%d,%d) changed its inputs", x, y)
	}
	if isAZ(x) && isAZ(y) {
		want := rune('A' + refTri(int(x-'A'), int(y-'A')))
		if err != nil || out != want {
			c.Fatal("rune-letter", "TrigraphRune(%q,%q) = %q, %v; want %q", x, y, out, err, want)
		}
		var back rune
		if err := diana.TrigraphRune(&back, &out, &yy); err != nil || back != x {
			c.Fatal("rune-reciprocal", "TrigraphRune(%q,%q)=%q does not go back: %q %v", x, y, out, back, err)
		}
		if a := x; diana.TrigraphRune(&a, &a, &yy) != nil || a != want {
			c.Fatal("rune-inplace", "in-place TrigraphRune(%q,%q) = %q; want %q", x, y, a, want)
		}
		if a := y; diana.TrigraphRune(&a, &xx, &a) != nil || a != want {
			c.Fatal("rune-inplace", "in-place TrigraphRune(%q,%q) = %q; want %q", x, y, a, want)
		}
		c.Distinct("r", x, y)
		c.Count("letter_pairs_ok", 1)
		return
	}
	if err == nil || out != -77 {
		c.Fatal("rune-refuse", "TrigraphRune(%d,%d) = %d, %v; want an error and an untouched output", x, y, out, err)
	}
}

var c01Special = []rune{math.MinInt32, math.MinInt32 + 1, math.MaxInt32, math.MaxInt32 - 1, -1, 0, 'A' - 1, 'Z' + 1, 'a', 'z', 'Å', 'Ä', 'Ö', 'å', 0x10FFFF, 0x110000, 0xFFFD, 0xD800,
	'A' + 256, 'Z' + 256, 'A' + 65536, 'Z' + 65536, 'A' - 256, 'A' + 1<<24, 'Ａ', 'Ｚ', 'А', 'Α'}

func c01Runes(c *Case) {
	n := 0
	if c.Idx == 0 {
		for x := rune('A'); x <= 'Z'; x++ {
			for y := rune('A'); y <= 'Z'; y++ {
				c01CheckRune(c, x, y)
				n++
			}
		}
		for _, x := range c01Special {
			for _, y := range c01Special {
				c01CheckRune(c, x, y)
				n++
			}
			for y := rune('A'); y <= 'Z'; y++ {
				c01CheckRune(c, x, y)
				c01CheckRune(c, y, x)
				n += 2
			}
		}
	}
	step := rune(64)
	if c.Thorough {
		step = 512
	}
	for x := rune(-512) + rune(c.Idx); x < 0x30000; x += step {
		y := rune('A') + (x%26+26)%26
		c01CheckRune(c, x, y)
		c01CheckRune(c, y, x)
		out := rune(-77)
		xx := x
		err := diana.ZeroKeyRune(&out, &xx)
		if isAZ(x) {
			if want := rune('A' + refTri(int(x-'A'), int(x-'A'))); err != nil || out != want {
				c.Fatal("rune-zerokey", "ZeroKeyRune(%q) = %q, %v; want %q", x, out, err, want)
			}
		} else if err == nil || out != -77 {
			c.Fatal("rune-zerokey-refuse", "ZeroKeyRune(%d) = %d, %v", x, out, err)
		}
		n += 3
	}
	c.Eval(n)
	c.Count("refusals_checked", n)
}

func c01RandRunes(c *Case) {
	for i := 0; i < 5000; i++ {
		x, y := rune(c.R.Uint32()), rune(c.R.Uint32())
		switch c.R.IntN(4) {
		case 0:
			x = 'A' + rune(c.R.IntN(26))
		case 1:
			y = 'A' + rune(c.R.IntN(26))
		case 2:
			// values that agree with a letter in their low bits
			x = 'A' + rune(c.R.IntN(26)) + rune(c.R.IntN(1<<23))<<8
			y = 'A' + rune(c.R.IntN(26))
		}
		c01CheckRune(c, x, y)
	}
	c.Eval(5000)
}

func c01Nil(c *Case) {
	a, b, o := byte('A'), byte('B'), byte(0xEE)
	ra, rb, ro := rune('A'), rune('B'), rune(-77)
	for m := 1; m < 8; m++ {
		pb := func(i int, p *byte) *byte {
			if m>>i&1 == 1 {
				return nil
			}
			return p
		}
		pr := func(i int, p *rune) *rune {
			if m>>i&1 == 1 {
				return nil
			}
			return p
		}
		c.Check(diana.TrigraphByte(pb(0, &o), pb(1, &a), pb(2, &b)) != nil && o == 0xEE, "nil-byte", "TrigraphByte with nil pattern %03b: no error or output %d", m, o)
		c.Check(diana.TrigraphRune(pr(0, &ro), pr(1, &ra), pr(2, &rb)) != nil && ro == -77, "nil-rune", "TrigraphRune with nil pattern %03b: no error or output %d", m, ro)
		if m < 4 {
			c.Check(diana.ZeroKeyByte(pb(0, &o), pb(1, &a)) != nil && o == 0xEE, "nil-byte", "ZeroKeyByte with nil pattern %02b", m)
			c.Check(diana.ZeroKeyRune(pr(0, &ro), pr(1, &ra)) != nil && ro == -77, "nil-rune", "ZeroKeyRune with nil pattern %02b", m)
		}
	}
	for m := 1; m < 16; m++ {
		w, key, ki := []byte("XY"), []byte("ABC"), 1
		pw, pc, pk, pi := &w, &a, &key, &ki
		if m&1 != 0 {
			pw = nil
		}
		if m&2 != 0 {
			pc = nil
		}
		if m&4 != 0 {
			pk = nil
		}
		if m&8 != 0 {
			pi = nil
		}
		err := diana.AppendTrigraphByteByKey(pw, pc, pk, pi)
		c.Check(err != nil && string(w) == "XY" && ki == 1, "nil-append", "AppendTrigraphByteByKey with nil pattern %04b: %v", m, err)
	}
	c.Distinct("nil")
	c.Eval(29)
	c.Count("refusals_checked", 29)
}

func c01Table(c *Case) {
	lines := strings.Split(strings.TrimRight(strings.ReplaceAll(diana.ReciprocalTable, "\r\n", "\n"), "\n"), "\n")
	c.Must(len(lines) == 27, "table-rows", "the reciprocal table has %d lines, want 27", len(lines))
	head := strings.Fields(lines[0])
	c.Must(len(head) == 26, "table-header", "the header has %d columns: %q", len(head), lines[0])
	for i, h := range head {
		c.Must(h == string(rune('A'+i)), "table-header", "header column %d is %q", i, h)
	}
	for y := 0; y < 26; y++ {
		cells := strings.Fields(lines[y+1])
		c.Must(len(cells) == 26, "table-cells", "row %d has %d cells", y, len(cells))
		for x, cell := range cells {
			want := string(rune('A'+y)) + string(rune('a'+refTri(x, y)))
			c.Must(cell == want, "table-cell", "row %d column %d of the table is %q, want %q", y, x, cell, want)
			// the column of the cell must stand under its header letter
			c.Distinct("t", x, y)
			c.Count("table_cells", 1)
		}
		for x := 0; x < 26; x++ {
			c.Must(len(lines[y+1]) >= 3*x+2 && lines[y+1][3*x] == byte('A'+y) && lines[0][3*x] == byte('A'+x), "table-align", "row %d column %d is not aligned with the header", y, x)
		}
	}
	c.Eval(676)
}

func c01Append(c *Case) {
	r := c.R
	klen := pick(r, 0, 1, 2, 5, 26, 60)
	key := make([]byte, klen)
	for i := range key {
		key[i] = byte('A' + r.IntN(26))
	}
	var dst []byte
	if r.IntN(3) > 0 {
		dst = make([]byte, 0, r.IntN(80))
	}
	pre := r.IntN(4)
	for i := 0; i < pre; i++ {
		dst = append(dst, byte('a'+i))
	}
	switch r.IntN(3) {
	case 0: // encipher a string letter by letter, then go back
		dst = dst[:0]
		n := r.IntN(klen + 1)
		plain := make([]byte, n)
		idx := 0
		for i := range plain {
			plain[i] = byte('A' + r.IntN(26))
			ch := plain[i]
			if err := diana.AppendTrigraphByteByKey(&dst, &ch, &key, &idx); err != nil {
				c.Fatal("append-error", "letter %d of %q under key %q: %v", i, plain, key, err)
			}
			if idx != i+1 || len(dst) != i+1 || dst[i] != byte('A'+refTri(int(plain[i]-'A'), int(key[i]-'A'))) {
				c.Fatal("append-letter", "letter %d of %q under key %q gives %q index %d", i, plain, key, dst, idx)
			}
		}
		back := []byte{}
		idx = 0
		for i := range dst {
			ch := dst[i]
			if err := diana.AppendTrigraphByteByKey(&back, &ch, &key, &idx); err != nil {
				c.Fatal("append-error", "deciphering: %v", err)
			}
		}
		c.Must(string(back) == string(plain), "append-reciprocal", "%q became %q and then %q", plain, dst, back)
		c.Count("append_ok", n)
		c.Distinct("ao", klen, n, string(plain))
		c.Sample(map[string]any{"key": string(key), "plain": string(plain), "cipher": string(dst)})
	case 1: // an index outside the key
		idx := pick(r, klen, klen+1, klen+r.IntN(1000), -1, -1-r.IntN(1000), math.MaxInt, math.MinInt)
		if r.IntN(2) == 0 { // an output longer than the key, so that only the key limits the index
			dst = make([]byte, klen+10)
		}
		before, i0 := string(dst), idx
		ch := byte('A' + r.IntN(26))
		err := diana.AppendTrigraphByteByKey(&dst, &ch, &key, &idx)
		c.Must(err != nil && string(dst) == before && idx == i0, "append-index", "index %d with a key of %d letters: err %v, output %q -> %q, index %d", i0, klen, err, before, dst, idx)
		c.Count("append_refused", 1)
		c.Distinct("ai", klen, i0)
	case 2: // a non-letter as input or in the key
		if klen == 0 {
			return
		}
		idx := min(r.IntN(klen), len(dst))
		if idx >= klen {
			return
		}
		ch := byte('A' + r.IntN(26))
		bad := byte(r.IntN(256))
		for isAZ(bad) {
			bad = byte(r.IntN(256))
		}
		if r.IntN(2) == 0 {
			ch = bad
		} else {
			key[idx] = bad
		}
		before, i0 := string(dst), idx
		err := diana.AppendTrigraphByteByKey(&dst, &ch, &key, &idx)
		c.Must(err != nil && string(dst) == before && idx == i0, "append-refuse", "input %d key letter %d: err %v, output %q -> %q, index %d -> %d", ch, key[i0], err, before, dst, i0, idx)
		c.Count("append_refused", 1)
		c.Distinct("ab", ch, key[i0])
	}
}
