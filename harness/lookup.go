//go:build go1.23

package main

import (
	"fmt"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

// lookupOf is the property lookup of a package, exported by a generated file
// of the overlay (VerifBits is nil when the check found no such function).
type lookupOf struct {
	name  string
	bytes func([]byte) (uint64, int)
	str   func(string) (uint64, int)
	bits  []uint64 // values of the properties, in the order of the contract
}

var lookups = []lookupOf{
	{"graphemes", graphemes.VerifLookupBytes, graphemes.VerifLookupString, graphemes.VerifBits},
	{"words", words.VerifLookupBytes, words.VerifLookupString, words.VerifBits},
	{"phrases", phrases.VerifLookupBytes, phrases.VerifLookupString, phrases.VerifBits},
	{"sentences", sentences.VerifLookupBytes, sentences.VerifLookupString, sentences.VerifBits},
}

func tryLookup(e *env, c *Case) string {
	if len(c.Data) == 0 {
		return ""
	}
	d := make([]byte, len(c.Data))
	copy(d, c.Data)
	s := string(d)
	for i := range lookups {
		l := &lookups[i]
		if l.bits == nil {
			continue
		}
		v, w := e.th[l.name].Tab.Char(d)
		var want uint64
		for i, b := range l.bits {
			if v&(1<<uint(i)) != 0 {
				want |= b
			}
		}
		if g, n := l.bytes(d); g != want || n != w {
			return fmt.Sprintf("the %s lookup of % X gives properties %#x and width %d, not %#x and %d", l.name, d, g, n, want, w)
		}
		if g, n := l.str(s); g != want || n != w {
			return fmt.Sprintf("the %s lookup of % X (string) gives properties %#x and width %d, not %#x and %d", l.name, d, g, n, want, w)
		}
	}
	return ""
}

// everyEncoding tries every scalar value, whole and truncated, alone and
// followed by something, and every sequence of three bytes.
func everyEncoding(s *searcher) {
	tails := []string{"", "a", "\x80", "\xff"}
	s.parallel(0x110000, func(w int, i int64) {
		if i >= 0xD800 && i <= 0xDFFF {
			return
		}
		e := string(rune(i))
		for _, t := range tails {
			s.run(w, "every scalar value", &Case{Prop: s.prop, Data: []byte(e + t)})
		}
		for k := 1; k < len(e); k++ {
			s.run(w, "truncated", &Case{Prop: s.prop, Data: []byte(e[:k])})
			s.run(w, "cut", &Case{Prop: s.prop, Data: []byte(e[:k] + "A")})
		}
	})
	s.parallel(1<<16, func(w int, i int64) {
		s.run(w, "two bytes", &Case{Prop: s.prop, Data: []byte{byte(i >> 8), byte(i)}})
		for k := 0; k < 256; k += 13 {
			s.run(w, "three bytes", &Case{Prop: s.prop, Data: []byte{byte(i >> 8), byte(i), byte(k)}})
			s.run(w, "four bytes", &Case{Prop: s.prop, Data: []byte{0xF0 | byte(i>>8)&7, byte(i), byte(k), byte(k * 7)}})
		}
	})
	if !s.done() {
		s.mu.Lock()
		s.kinds["every scalar value, whole, truncated, cut and continued"] = 0x110000 - 0x800
		s.mu.Unlock()
	}
}
