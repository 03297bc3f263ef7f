package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

// pdfRun is one piece of text shown on a page.
type pdfRun struct {
	page    int
	x, y    float64
	size    float64
	text    string
	stretch bool // spaced out over the width of the page
}

const (
	pdfW = 595.28
	pdfH = 841.89
)

// readPDF is a small independent reader for the text of the documents the
// program makes: flate streams, one font, Td, Tf, Tj and TJ.
func readPDF(b []byte) ([]pdfRun, int, error) {
	if !bytes.HasPrefix(b, []byte("%PDF-")) {
		return nil, 0, fmt.Errorf("not a PDF document: %.20q", b)
	}
	if !bytes.HasSuffix(bytes.TrimRight(b, "\r\n "), []byte("%%EOF")) {
		return nil, 0, fmt.Errorf("the PDF document does not end in %%%%EOF")
	}
	var out []pdfRun
	pages := 0
	rest := b
	for {
		i := bytes.Index(rest, []byte("stream\n"))
		if i < 0 {
			break
		}
		head := rest[:i]
		if j := bytes.LastIndex(head, []byte(" obj")); j >= 0 {
			head = head[j:]
		}
		rest = rest[i+7:]
		n := -1
		if j := bytes.Index(head, []byte("/Length ")); j >= 0 {
			fmt.Sscanf(string(head[j:]), "/Length %d", &n)
		}
		if n < 0 || n > len(rest) {
			return nil, 0, fmt.Errorf("a stream of the PDF document has no valid length")
		}
		data := rest[:n]
		rest = rest[n:]
		if j := bytes.Index(rest, []byte("endstream")); j < 0 || j > 2 {
			return nil, 0, fmt.Errorf("a stream of the PDF document is not of the announced length")
		}
		rest = rest[bytes.Index(rest, []byte("endstream"))+9:]
		if bytes.Contains(head, []byte("FlateDecode")) {
			z, err := zlib.NewReader(bytes.NewReader(data))
			if err != nil {
				return nil, 0, err
			}
			if data, err = io.ReadAll(z); err != nil {
				return nil, 0, err
			}
		}
		if bytes.Contains(head, []byte("/Length1")) || bytes.Contains(data, []byte("begincmap")) || !bytes.Contains(data, []byte(" Tf")) && !bytes.Contains(data, []byte("BT ")) {
			continue // a font or a mapping
		}
		pages++
		runs, err := pdfContent(data, pages)
		if err != nil {
			return nil, 0, err
		}
		out = append(out, runs...)
	}
	return out, pages, nil
}

func pdfContent(b []byte, page int) (out []pdfRun, err error) {
	var nums []float64
	var strs []string
	array := false
	size := 0.0
	x, y := 0.0, 0.0
	for i := 0; i < len(b); {
		ch := b[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\r' || ch == '\t':
			i++
		case ch == '[':
			array = true
			i++
		case ch == ']':
			array = false
			i++
		case ch == '(':
			var raw []byte
			i++
			for ; i < len(b) && b[i] != ')'; i++ {
				if b[i] == '\\' && i+1 < len(b) {
					i++
					if b[i] == 'r' {
						raw = append(raw, '\r')
						continue
					}
				}
				raw = append(raw, b[i])
			}
			i++
			if len(raw)%2 != 0 {
				return nil, fmt.Errorf("odd string %q", raw)
			}
			u := make([]uint16, len(raw)/2)
			for j := range u {
				u[j] = uint16(raw[2*j])<<8 | uint16(raw[2*j+1])
			}
			strs = append(strs, string(utf16.Decode(u)))
		default:
			j := i
			for j < len(b) && !bytes.ContainsRune([]byte(" \n\r\t[]("), rune(b[j])) {
				j++
			}
			tok := string(b[i:j])
			i = j
			if f, e := strconv.ParseFloat(tok, 64); e == nil {
				if !array {
					nums = append(nums, f)
				}
				continue
			}
			switch tok {
			case "Tf":
				if len(nums) > 0 {
					size = nums[len(nums)-1]
				}
			case "Td":
				if len(nums) < 2 {
					return nil, fmt.Errorf("Td without a position")
				}
				x, y = nums[len(nums)-2], nums[len(nums)-1]
			case "Tj", "TJ":
				out = append(out, pdfRun{page: page, x: x, y: y, size: size, text: strings.Join(strs, ""), stretch: tok == "TJ"})
			}
			if tok[0] != '/' {
				nums, strs = nil, nil
			}
		}
	}
	return
}

// pdfVisible checks that every piece of text lies on its page and that no two
// lines of a page overlap.
func pdfVisible(runs []pdfRun) error {
	byPage := map[int][]pdfRun{}
	for _, t := range runs {
		if t.size < 4 {
			return fmt.Errorf("page %d: text of %.1f points", t.page, t.size)
		}
		w := 0.6 * t.size * float64(len([]rune(t.text)))
		if t.x < 0 || t.y < 0 || t.y+t.size*0.7 > pdfH || t.x+w > pdfW+1 && strings.TrimSpace(t.text) != "" {
			return fmt.Errorf("page %d: text at (%.0f,%.0f), %.0f points wide, leaves the page: %.60q", t.page, t.x, t.y, w, t.text)
		}
		byPage[t.page] = append(byPage[t.page], t)
	}
	for p, l := range byPage {
		sort.Slice(l, func(i, j int) bool { return l[i].y > l[j].y })
		for i := 1; i < len(l); i++ {
			if d := math.Abs(l[i].y - l[i-1].y); d < 0.8*l[i].size && strings.TrimSpace(l[i].text) != "" && strings.TrimSpace(l[i-1].text) != "" {
				return fmt.Errorf("page %d: two lines %.1f points apart overlap: %.40q and %.40q", p, d, l[i-1].text, l[i].text)
			}
		}
	}
	return nil
}

// squeeze removes what may differ between print-outs: white space and the
// lengths of separating lines.
func squeeze(s string) string {
	return strings.ReplaceAll(strings.Join(strings.Fields(s), ""), "_", "")
}

// pdfItems checks that a document consists of exactly these items, whatever
// their order, line breaks and page breaks.
func pdfItems(runs []pdfRun, items []string) error {
	var sb strings.Builder
	for _, t := range runs {
		sb.WriteString(t.text)
	}
	rest := squeeze(sb.String())
	left := map[int]string{}
	for i, x := range items {
		left[i] = squeeze(x)
	}
	for len(left) > 0 {
		found := -1
		for i := range items {
			if x, ok := left[i]; ok && strings.HasPrefix(rest, x) && (found < 0 || len(x) > len(left[found])) {
				found = i
			}
		}
		if found < 0 {
			return fmt.Errorf("%d of %d items are missing or altered; the document goes on %.300q, the next expected begins %.300q", len(left), len(items), rest, firstOf(left))
		}
		rest = rest[len(left[found]):]
		delete(left, found)
	}
	if rest != "" {
		return fmt.Errorf("after all %d items the document goes on %.300q", len(items), rest)
	}
	return nil
}

func firstOf(m map[int]string) string {
	k := -1
	for i := range m {
		if k < 0 || i < k {
			k = i
		}
	}
	return m[k]
}
