COLLECT = '''
func str(s string) (out []string) {
	it := %s.FromString(s)
	for it.Next() {
		out = append(out, it.Value())
	}
	return
}
'''
def expect(pkg, text, want):
    return COLLECT % pkg + '''
func main() {
	got := str(%s)
	want := %s
	if !reflect.DeepEqual(got, want) {
		fail("got %%q want %%q", got, want)
	}
}
''' % (text, want)

SEEDS = [
 dict(id="c03-gb11-zwj-zwj", property="C03",
  needs="an emoji, two ZWJ characters in a row, and another emoji",
  breaks="GB11 wants exactly one ZWJ between the pictographs; the change skips any number",
  edits=[("graphemes/splitfunc.go", "const _Ignore = _Extend\n", "const _Ignore = _Extend | _ZWJ\n"),
         ("graphemes/splitfunc.go", "last.is(_ZWJ) && lastLastExIgnore.is(_ExtendedPictographic)", "last.is(_ZWJ) && lastExIgnore.is(_ExtendedPictographic)"),
         ("graphemes/splitfunc.go", "lastLastExIgnore = lastExIgnore\n			lastExIgnore = last", "lastExIgnore = last"),
         ("graphemes/splitfunc.go", "	var lastLastExIgnore property = 0 // \"last one before that\"\n", "")],
  demo=expect("graphemes", '"\\U0001F600\\u200D\\u200D\\U0001F600"', '[]string{"\\U0001F600\\u200D\\u200D", "\\U0001F600"}')),
 dict(id="c04-lookahead-limit", property="C04",
  needs="a word with a middle letter followed by more than 128 ignorable characters before the next letter",
  breaks="the look-ahead of WB6/WB7b/WB12 gives up after a fixed number of ignorable characters",
  edits=[("words/seek.go", "	i := 0\n	for i < len(data) {", "	i := 0\n	for n := 0; i < len(data); n++ {\n		if n > 128 {\n			// long enough: not a word by any reasonable measure\n			return notfound, false\n		}\n")],
  demo=COLLECT % "words" + '''
func main() {
	s := "a'" + strings.Repeat("\\u0301", 200) + "b"
	if got := str(s); len(got) != 1 {
		fail("%d tokens", len(got))
	}
}
'''),
 dict(id="c04-wb7c-last", property="C04",
  needs="a Hebrew letter, a double quote, an ignorable character and a Hebrew letter, streamed or not",
  breaks="WB7b consults the character right after the quote only, not the next one that is not ignorable",
  edits=[("words/splitfunc.go", "advance, more := subsequent(_HebrewLetter, data[pos+w:], atEOF)", "advance, more := next(_HebrewLetter, data[pos+w:], atEOF)"),
         ("words/seek.go", "const notfound = -1\n", "const notfound = -1\n\n// next is subsequent, for the case where nothing is to be ignored\nfunc next[T ~string | ~[]byte](properties property, data T, atEOF bool) (advance int, more bool) {\n	if len(data) == 0 {\n		return notfound, !atEOF\n	}\n	v, w := lookup(data)\n	if w == 0 {\n		return notfound, !atEOF\n	}\n	if v.is(properties) {\n		return 0, false\n	}\n	return notfound, false\n}\n")],
  demo=expect("words", '"\\u05D0\\"\\u0308\\u05D1"', '[]string{"\\u05D0\\"\\u0308\\u05D1"}')),
 dict(id="c06-emoji-before-space", property="C06",
  needs="an emoji directly after a space that follows an ExtendNumLet",
  breaks="an emoji next to punctuation-like connector no longer joins (WB13b as varied for phrases)",
  edits=[("phrases/splitfunc.go", "if current.is(_AHLetter|_Numeric|_Katakana) && lastExIgnore.is(_ExtendNumLet) {", "if current.is(_ALetter|_HebrewLetter|_Numeric|_Katakana) && lastExIgnore.is(_ExtendNumLet) {")],
  demo=expect("phrases", '"a_\\U0001F600"', '[]string{"a_\\U0001F600"}')),
 dict(id="c06-space-ignorable", property="C06",
  needs="a space followed by an ignorable character and then another space or letter",
  breaks="adjacency of spaces and letters is judged on the immediately preceding character, not ignoring Extend, Format and ZWJ",
  edits=[("phrases/splitfunc.go", "lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace)", "(lastExIgnore.is(_Numeric|_AHLetter) || last.is(_WSegSpace))")],
  demo=expect("phrases", '"a \\u200Db"', '[]string{"a \\u200Db"}')),
 dict(id="c07-more-truncated", property="C07",
  needs="streaming with the buffer ending inside the encoding of the character a word look-ahead reaches",
  breaks="a truncated character in the look-ahead counts as not found instead of asking for more data",
  edits=[("words/seek.go", "			if atEOF {\n				// Nothing more to evaluate\n				return notfound, false\n			}\n			// More to evaluate - return notfound to indicate no match found yet\n			return notfound, true\n		}\n\n		if lookup.is(_Ignore)", "			// Nothing more to evaluate\n			return notfound, !atEOF && i == 0\n		}\n\n		if lookup.is(_Ignore)")],
  demo='''
func main() {
	whole := []byte("a'\\u0301\\u00e9x")
	full, _, _ := words.SplitFunc(whole, true)
	for i := 1; i < len(whole); i++ {
		adv, _, _ := words.SplitFunc(whole[:i], false)
		if adv != 0 && adv != full {
			fail("prefix of %d: %d, whole: %d", i, adv, full)
		}
	}
}
'''),
 dict(id="c07-sentences-eager", property="C07",
  needs="streaming with the buffer ending right after the spaces that follow a full stop",
  breaks="the sentence look-ahead treats the end of the buffer as the end of the text when it stopped on nothing",
  edits=[("sentences/splitfunc.go", "advance, more := subsequent(_Lower, data[p:], atEOF)", "advance, more := subsequent(_Lower, data[p:], atEOF || p == len(data) && p-pos > 16)")],
  demo='''
func main() {
	whole := []byte("etc. " + strings.Repeat("(", 20) + "and")
	full, _, _ := sentences.SplitFunc(whole, true)
	for i := 1; i < len(whole); i++ {
		adv, _, _ := sentences.SplitFunc(whole[:i], false)
		if adv != 0 && adv != full {
			fail("prefix of %d: %d, whole: %d", i, adv, full)
		}
	}
}
'''),
 dict(id="c08-phrases-backup", property="C08",
  needs="ASCII letters or spaces before a character whose rule looks two characters back",
  breaks="the phrases hot path includes the apostrophe, so the split function starts without the letter before it",
  edits=[("phrases/iterator.go", "(b >= '0' && b <= '9') || b == ' '\n", "(b >= '0' && b <= '9') || b == ' ' || b == '_'\n")],
  demo='''
func main() {
	for _, s := range []string{" _", "a _b", "a_ b"} {
		it := phrases.FromString(s)
		it.Next()
		adv, _, _ := phrases.SplitFunc([]byte(s), true)
		if it.End() != adv {
			fail("%q iterator %d split %d", s, it.End(), adv)
		}
	}
}
'''),
 dict(id="c09-named-decode", property="C09",
  needs="joiners with a multi-byte rune on a user-defined string or byte-slice type",
  breaks="runes of named types are decoded from one byte only, so multi-byte joiners are never found",
  edits=[("words/splitfunc.go", "		// Handle named string/[]byte types.\n		return utf8.DecodeRuneInString(string(data))", "		// Handle named string/[]byte types, without converting all of data.\n		return utf8.DecodeRuneInString(string(data[:1]))")],
  imports=["github.com/clipperhouse/uax29/v2/words"],
  demo='''
type S string

func tokens[T ~string | ~[]byte](s T) (out []string) {
	it := &words.Iterator[T]{}
	it.SetText(s)
	it.Joiners(&words.Joiners[T]{Middle: []rune{'\\u2022'}})
	for it.Next() {
		out = append(out, string(it.Value()))
	}
	return
}

func main() {
	a, b := tokens("x\\u2022y"), tokens(S("x\\u2022y"))
	if !reflect.DeepEqual(a, b) {
		fail("string %q named %q", a, b)
	}
}
'''),
 dict(id="c10-osc-esc-aborts", property="C10",
  needs="an OSC string whose payload contains an ESC that is not followed by a backslash",
  breaks="an ESC inside the payload ends the search for the terminator",
  edits=[("graphemes/ansi.go", "		if b == esc && i+1 < len(data) && data[i+1] == '\\\\' {\n			return i + 2\n		}", "		if b == esc {\n			if i+1 < len(data) && data[i+1] == '\\\\' {\n				return i + 2\n			}\n			break\n		}")],
  demo='''
func main() {
	it := graphemes.FromString("\\x1b]0;a\\x1bb\\x07c")
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Value() != "\\x1b]0;a\\x1bb\\x07" {
		fail("%q", it.Value())
	}
}
'''),
 dict(id="c10-csi-limit", property="C10",
  needs="a CSI sequence with more than 64 parameter bytes",
  breaks="long CSI sequences are not recognised",
  edits=[("graphemes/ansi.go", "	seenIntermediate := false\n	for i := 0; i < len(data); i++ {", "	seenIntermediate := false\n	for i := 0; i < len(data) && i < 64; i++ {")],
  demo='''
func main() {
	s := "\\x1b[" + strings.Repeat("1;", 40) + "m"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Value() != s {
		fail("%q", it.Value())
	}
}
'''),
 dict(id="c11-c1-osc-esc", property="C11",
  needs="an 8-bit OSC whose payload contains ESC backslash and which is ended by C1 ST later",
  breaks="the 8-bit control string ends at the 7-bit terminator when one comes before C1 ST",
  edits=[("graphemes/ansi8.go", "	for i := 0; i < len(data); i++ {\n		b := data[i]\n		if b == can || b == sub {\n			return i\n		}\n		if b == st {", "	for i := 0; i < len(data); i++ {\n		b := data[i]\n		if b == can || b == sub || b == esc && i > 0 && i+2 < len(data) && data[i+1] == '\\\\' {\n			return i\n		}\n		if b == st {")],
  demo='''
func main() {
	s := "\\x90q\\x1b\\\\more\\x9c"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	if it.Value() != s {
		fail("%q", it.Value())
	}
}
'''),
 dict(id="c12-scanner-nojoin", property="C12",
  needs="a scanner given joiners whose Leading set is empty or Middle set is empty",
  breaks="the scanner ignores joiner sets without Leading runes",
  edits=[("words/reader.go", "func (sc *Scanner) Joiners(j *Joiners[[]byte]) {\n", "func (sc *Scanner) Joiners(j *Joiners[[]byte]) {\n	if len(j.Middle) == 0 {\n		// nothing to join in the middle of a word\n		sc.Split(SplitFunc)\n		return\n	}\n")],
  demo='''
func main() {
	sc := words.FromReader(strings.NewReader("#ab"))
	sc.Joiners(&words.Joiners[[]byte]{Leading: []rune{'#'}})
	sc.Scan()
	if sc.Text() != "#ab" {
		fail("%q", sc.Text())
	}
}
'''),
 dict(id="c13-settext-keeps-start", property="C13",
  needs="Value or Start called after SetText of a shorter text and before Next",
  breaks="SetText leaves the previous token's start in place when the iterator had already finished",
  edits=[("sentences/iterator.go", "	iter.data = data\n	iter.start = 0\n	iter.pos = 0", "	if iter.pos < len(iter.data) {\n		iter.start = 0\n	}\n	iter.data = data\n	iter.pos = 0")],
  demo='''
func main() {
	it := sentences.FromString("One. Two.")
	for it.Next() {
	}
	it.SetText("Three.")
	if it.Start() != 0 {
		fail("start %d", it.Start())
	}
}
'''),
 dict(id="c13-first-ansi", property="C13",
  needs="First called on a grapheme iterator with an ANSI option on and the text starting with a sequence",
  breaks="First ignores the ANSI options that Next honours",
  edits=[("graphemes/iterator.go", "	// Use a copy to leverage Next()'s ASCII optimization\n	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n", "	// Use a fresh iterator to leverage Next()'s ASCII optimization\n	cp := Iterator[T]{split: iter.split, data: iter.data}\n	cp.AnsiEscapeSequences = iter.AnsiEscapeSequences\n")],
  demo='''
func main() {
	it := graphemes.FromString("\\x9b31mx")
	it.AnsiEscapeSequences8Bit = true
	a := it.First()
	it.Next()
	if a != it.Value() {
		fail("First %q Next %q", a, it.Value())
	}
}
'''),
 dict(id="c15-invalid-stops", property="C15",
  needs="a token with an invalid byte before its first letter or number",
  breaks="the filter stops at the first invalid byte",
  edits=[("internal/iterators/filter/filter.go", "		r, w := utf8.DecodeRune(token[pos:])\n", "		r, w := utf8.DecodeRune(token[pos:])\n		if r == utf8.RuneError && w <= 1 {\n			break\n		}\n")],
  demo='''
func main() {
	if !filter.AlphaNumeric([]byte("\\xffa")) {
		fail("no letter found")
	}
}
'''),
 dict(id="c17-generic-advance", property="C17",
  needs="a split function that, at a position after the first token, advances past the end by less than the position",
  breaks="the advance is compared with the whole text instead of the remaining text",
  edits=[("internal/iterators/iterator.go", "	if advance > len(d) {", "	if advance > len(iter.data) {")],
  demo='''
func main() {
	it := iterators.New(func(s string, eof bool) (int, string, error) {
		if len(s) == 4 {
			return 5, s, nil
		}
		return 2, s[:2], nil
	}, "abcdef")
	it.Next()
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
	}()
	it.Next()
}
'''),
 dict(id="c18-phrase-katakana", property="C18",
  needs="Katakana followed by a connector and letters",
  breaks="a phrase boundary inside a word: connectors after Katakana break in phrases only",
  edits=[("phrases/splitfunc.go", "lastExIgnore.is(_AHLetter|_Numeric|_Katakana|_ExtendNumLet)", "lastExIgnore.is(_AHLetter|_Numeric|_ExtendNumLet)")],
  demo='''
func ends(next func() bool, end func() int) map[int]bool {
	m := map[int]bool{}
	for next() {
		m[end()] = true
	}
	return m
}

func main() {
	s := "\\u30ab_\\u30ab"
	p, w := phrases.FromString(s), words.FromString(s)
	pe, we := ends(p.Next, p.End), ends(w.Next, w.End)
	for e := range pe {
		if !we[e] {
			fail("phrase boundary %d is no word boundary", e)
		}
	}
}
'''),
 dict(id="c19-sorts-joiners", property="C19",
  needs="a joiner set whose runes are not in order, looked at after tokenizing",
  breaks="tokenizing reorders the caller's joiner set",
  edits=[("words/splitfunc.go", "	if j != nil && j.Leading != nil {\n", "	if j != nil && len(j.Middle) > 1 && j.Middle[0] > j.Middle[len(j.Middle)-1] {\n		// the most common joiners are ASCII, look at them first\n		j.Middle[0], j.Middle[len(j.Middle)-1] = j.Middle[len(j.Middle)-1], j.Middle[0]\n	}\n\n	if j != nil && j.Leading != nil {\n")],
  demo='''
func main() {
	m := []rune{'\\u2022', '-', '@'}
	it := words.FromString("a-b c")
	it.Joiners(&words.Joiners[string]{Middle: m})
	for it.Next() {
	}
	if m[0] != '\\u2022' {
		fail("joiners changed: %q", m)
	}
}
'''),
 dict(id="c19-lookahead-cache", property="C19",
  needs="two iterators, or two texts of the same length, sharing a package-level cache",
  breaks="the look-ahead result is remembered in a package variable keyed by the length of the rest",
  edits=[("phrases/seek.go", "const notfound = -1\n", "const notfound = -1\n\n// where the last look-ahead over ignorable characters ended\nvar lastRun struct{ n, end int }\n"),
         ("phrases/seek.go", "	i := 0\n	for i < len(data) {", "	i := 0\n	if lastRun.n == len(data) && lastRun.end > 64 {\n		i = lastRun.end\n	}\n	for i < len(data) {"),
         ("phrases/seek.go", "			// Found it\n", "			// Found it\n			lastRun.n, lastRun.end = len(data), i\n")],
  demo='''
func count(s string) (n int) {
	it := phrases.FromString(s)
	for it.Next() {
		n++
	}
	return
}

func main() {
	a := "a'" + strings.Repeat("\\u0301", 40) + "b"
	b := "a'" + strings.Repeat(".", 80) + "b"
	want := count(b)
	count(a)
	if got := count(b); got != want {
		fail("%d tokens, then %d", want, got)
	}
}
'''),
 dict(id="c20-window", property="C20",
  needs="a custom split function whose decision depends on text more than 4096 bytes ahead, or a token longer than that",
  breaks="the word iterator shows its split function only a window of the remaining text",
  edits=[("words/iterator.go", "	remaining := iter.data[iter.pos:]\n", "	remaining := iter.data[iter.pos:]\n	if len(remaining) > 1<<16 {\n		// no word is this long\n		remaining = remaining[:1<<16]\n	}\n")],
  demo='''
func main() {
	s := strings.Repeat("-", 1<<17)
	it := words.FromString(s)
	it.Split(func(s string, eof bool) (int, string, error) { return len(s), s, nil })
	it.Next()
	if it.End() != len(s) {
		fail("end %d", it.End())
	}
}
'''),
 dict(id="c05-sb8-window", property="C05",
  needs="an abbreviation, a space, more than 64 bytes of opening punctuation and a lowercase letter",
  breaks="SB8 looks only a bounded distance ahead for the lowercase letter",
  edits=[("sentences/splitfunc.go", "			for p < len(data) {", "			for p < len(data) && p-pos < 64 {")],
  demo=COLLECT % "sentences" + '''
func main() {
	s := "etc. " + strings.Repeat("(", 100) + "and so on"
	if got := str(s); len(got) != 1 {
		fail("%d tokens", len(got))
	}
}
'''),
 dict(id="c08-words-semicolon", property="C08",
  needs="ASCII digits, a semicolon and digits, in a word iterator",
  breaks="the words hot path stops before a semicolon, which joins numbers",
  edits=[("words/iterator.go", "		if end >= len(iter.data) || iter.data[end] == ' ' {", "		if end >= len(iter.data) || iter.data[end] == ' ' || iter.data[end] == ';' {")],
  demo='''
func main() {
	s := "1;2"
	it := words.FromString(s)
	it.Next()
	adv, _, _ := words.SplitFunc([]byte(s), true)
	if it.End() != adv {
		fail("iterator %d split %d", it.End(), adv)
	}
}
'''),
 dict(id="c12-binary-search", property="C12",
  needs="a joiner set of more than eight runes that is not sorted",
  breaks="large joiner sets are searched as if they were sorted",
  edits=[("words/joiners.go", "	for _, r := range runes {\n", "	if lo, hi := 0, len(runes)-1; hi >= 8 {\n		for lo <= hi {\n			mid := (lo + hi) / 2\n			switch {\n			case runes[mid] == rune:\n				return true\n			case runes[mid] < rune:\n				lo = mid + 1\n			default:\n				hi = mid - 1\n			}\n		}\n		return false\n	}\n	for _, r := range runes {\n")],
  demo='''
func main() {
	it := words.FromString("a#b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("@-+/\\\\%&*=#")})
	it.Next()
	if it.Value() != "a#b" {
		fail("%q", it.Value())
	}
}
'''),
 dict(id="c16-numeric-trailing", property="C16",
  needs="a numeric token that ends with a multi-byte separator and an ignorable character",
  breaks="the numeric predicate accepts a separator that no number follows",
  edits=[("words/bleve_compat.go", "			if advance != notfound {\n				pos += w + advance\n				continue\n			}", "			if pos+w+advance >= len(token)-1 && w > 1 {\n				return true\n			}\n			if advance != notfound {\n				pos += w + advance\n				continue\n			}")],
  demo='''
func main() {
	if words.BleveNumeric([]byte("1\\u2019")) {
		fail("accepted")
	}
}
'''),
 dict(id="c01-words-index", property="C01",
  needs="a word text that ends with a letter, an ASCII space and nothing after, reached by the hot path at the last space",
  breaks="the hot path looks at the byte after the space without checking that there is one",
  edits=[("words/iterator.go", "		if end >= len(iter.data) || iter.data[end] == ' ' {", "		if end >= len(iter.data) || iter.data[end] == ' ' && (end-iter.pos < 24 || iter.data[end+1] < 0x80) {")],
  demo='''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	it := words.FromString(strings.Repeat("a", 30) + " ")
	for it.Next() {
	}
}
'''),
 dict(id="c02-wb12-width", property="C02",
  needs="a number, a multi-byte number separator, and a number",
  breaks="the position after a WB12 look-ahead assumes a one-byte separator",
  edits=[("words/splitfunc.go", "			advance, more := subsequent(_Numeric, data[pos+w:], atEOF)\n\n			if more {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			if advance != notfound {\n				pos += w + advance", "			advance, more := subsequent(_Numeric, data[pos+w:], atEOF)\n\n			if more {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			if advance != notfound {\n				pos += 1 + advance")],
  demo='''
func main() {
	it := words.FromString("1\\u066c2")
	for it.Next() {
		if !utf8.ValidString(it.Value()) {
			fail("%q", it.Value())
		}
	}
}
'''),
]
