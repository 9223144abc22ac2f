#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that statements are reviewed in one place).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))
ALL4=["graphemes","words","phrases","sentences"]
SPL=[f"{x}/splitfunc.go" for x in ALL4]; ITS=[f"{x}/iterator.go" for x in ALL4]; SEEK=["words/seek.go","phrases/seek.go","sentences/seek.go"]; TR=[f"{x}/trie.go" for x in ALL4]
p("C01","Tokenizing is lossless, makes progress and never panics",
 "For every input, valid UTF-8 or not, every tokenizer (graphemes, words, phrases, sentences; iterator or split function at end of input) terminates without panicking, and its tokens are non-empty, contiguous and concatenate to exactly the input. Each token equals the input between its reported start and end offsets, the first starts at 0 and the last ends at the length of the input. This holds with the ANSI options and with any word joiners set.",
 ["inputs","configurations"],"all byte sequences (any length, any bytes) x 4 tokenizers x string/[]byte/named types x ANSI options x joiner sets",
 "Fuzz seeds and samples cover a few hundred texts; the guarantee is over all byte sequences, including truncated and ill-formed UTF-8 at every position.",
 SPL+ITS+SEEK+TR,[("split loops advance by the decoded width, or to end of data on a truncated rune","*/splitfunc.go"),("iterator Next adds the advance to its position","*/iterator.go"),("property lookup never reads past the data and reports width 0 only when truncated","*/trie.go lookup")],
 [("pos/start","current token offsets","*/iterator.go")],["Next/Value/Start/End","SplitFunc return values"])
p("C02","Tokens never split an encoded character",
 "If the input is valid UTF-8, no token boundary falls inside the encoding of a code point, so every token is itself valid UTF-8. This holds for all four tokenizers, with or without the ANSI options and word joiners.",
 ["inputs","configurations"],"all valid UTF-8 texts x 4 tokenizers x options",
 "Tests compare with expected tokens for sampled texts only; a width error for some byte pattern would not show.",
 SPL+ITS+TR+["graphemes/ansi.go","graphemes/ansi8.go"],[("width reported by lookup is the encoded length","*/trie.go lookup"),("boundaries are only placed at decoded positions","*/splitfunc.go"),("ANSI lengths end after an ASCII byte","graphemes/ansi.go")])
p("C03","Grapheme cluster boundaries follow UAX #29",
 "For every valid UTF-8 text, the grapheme tokenizer (without ANSI options) breaks exactly at the positions where the extended grapheme cluster rules GB1-GB999 of UAX #29 for Unicode 17 place a boundary, given the code points' properties. In particular CR LF, Hangul syllables, combining marks, prepended characters, Indic conjuncts, emoji ZWJ sequences and regional-indicator pairs stay together, whatever precedes or follows them and however long the runs are.",
 ["inputs"],"all valid UTF-8 texts (unbounded length)",
 "The Unicode test file has about 750 short texts; the rules quantify over unbounded contexts (emoji, Indic and flag runs).",
 ["graphemes/splitfunc.go","graphemes/iterator.go","graphemes/trie.go"],[("rule chain GB3-GB13","graphemes/splitfunc.go splitFunc"),("look-back state","graphemes/splitfunc.go lastExIgnore, lastLastExIgnore, incb, regionalIndicatorCount")])
p("C04","Word boundaries follow UAX #29",
 "For every valid UTF-8 text, the word tokenizer (without joiners) breaks exactly at the positions where the word boundary rules WB1-WB999 of UAX #29 for Unicode 17 place a boundary, given the code points' properties. This includes the look-ahead rules, which decide across any number of ignored Extend, Format and ZWJ characters.",
 ["inputs"],"all valid UTF-8 texts (unbounded length)",
 "The Unicode test file and samples are finite; look-back and look-ahead over ignorable runs are unbounded.",
 ["words/splitfunc.go","words/seek.go","words/iterator.go","words/trie.go"],[("rule chain WB3-WB16","words/splitfunc.go"),("look-ahead","words/seek.go subsequent"),("ASCII fast path","words/iterator.go Next")])
p("C05","Sentence boundaries follow UAX #29",
 "For every valid UTF-8 text, the sentence tokenizer breaks exactly at the positions where the sentence boundary rules SB1-SB998 of UAX #29 for Unicode 17 place a boundary, given the code points' properties. This includes the unbounded look-ahead for a lowercase letter after an abbreviation and the unbounded runs of closing punctuation and spaces after a terminator.",
 ["inputs"],"all valid UTF-8 texts (unbounded length)",
 "SB8-SB11 relate characters at unbounded distance; the Unicode tests use texts of a handful of characters.",
 ["sentences/splitfunc.go","sentences/seek.go","sentences/iterator.go","sentences/trie.go"],[("rule chain SB3-SB998","sentences/splitfunc.go"),("look-ahead","sentences/seek.go subsequent")])
p("C06","Phrase boundaries follow the documented word-rule variation",
 "For every valid UTF-8 text, the phrase tokenizer breaks exactly where the UAX #29 word boundary rules break when they are varied in two ways: Extended_Pictographic characters (emoji) count as letters, and letters, numbers, emoji and word-segment spaces adjacent to one another (ignoring Extend, Format and ZWJ) do not break. Thus a phrase is a series of words separated only by spaces, and other punctuation breaks phrases as it breaks words.",
 ["inputs"],"all valid UTF-8 texts (unbounded length)",
 "There is no reference test suite for phrases; the repository's tests are a few dozen examples.",
 ["phrases/splitfunc.go","phrases/seek.go","phrases/iterator.go","phrases/trie.go"],[("rule chain with WSegSpace and Extended_Pictographic additions","phrases/splitfunc.go"),("fast path over ASCII alphanumerics and spaces","phrases/iterator.go Next")])
p("C07","Streaming gives the same tokens however the data arrives",
 "For every byte sequence and every prefix of it, a split function called with the prefix and atEOF false either returns exactly the token it returns when given the whole sequence, or asks for more data with a zero advance, no token and no error. It asks for more only when the prefix does not settle the boundary (the token, a truncated character or a rule's look-ahead reaches the end of the prefix). Hence a reader-based scanner yields the same tokens as the in-memory iterator for every chunking of the input.",
 ["inputs","schedules"],"all byte sequences x all prefixes (hence all read sizes) x 4 tokenizers, with and without joiners",
 "Reader tests use a few inputs and default buffers; a wrong decision at one chunk boundary needs a specific split inside a look-ahead or a multi-byte character.",
 SPL+SEEK+[f"{x}/reader.go" for x in ALL4],[("request more data at end of prefix, on width 0 and on look-ahead overrun","*/splitfunc.go"),("more result","*/seek.go subsequent")])
p("C08","Iterator fast paths never change the result",
 "For every input, the in-memory iterator of each package yields exactly the tokens that repeatedly applying the package's exported split function to the remaining input yields. The ASCII shortcuts are therefore unobservable except in speed.",
 ["inputs"],"all byte sequences x 4 tokenizers (default options)",
 "Equality tests run on sample texts; the fast paths' exit conditions interact with whatever non-ASCII character follows.",
 ITS+SPL,[("ASCII hot path","graphemes/iterator.go words/iterator.go phrases/iterator.go sentences/iterator.go Next")])
p("C09","String, byte-slice and named-type inputs give the same tokens",
 "For every input and every tokenizer and option, tokenizing the data as a string, as a byte slice, or as a user-defined string or byte-slice type yields the same boundaries.",
 ["inputs","configurations"],"all byte sequences x {string, []byte, named string, named []byte} x tokenizers x options",
 "Tests compare string and []byte on fuzz seeds; named types take different code paths and are not tested.",
 ITS+SPL+TR+["words/joiners.go"],[("generic functions instantiated per type","*/splitfunc.go splitFunc, */trie.go lookup, words/splitfunc.go decodeRune")])
p("C10","7-bit ANSI escape sequences are single tokens",
 "With the 7-bit ANSI option on, whenever a grapheme token starts at ESC and the bytes there form a complete 7-bit ECMA-48 sequence (CSI; OSC ended by BEL or ESC \\; DCS, SOS, PM or APC ended by ESC \\; CAN or SUB cancelling a control string and staying outside it; nF; Fp; two-byte Fe/Fs), the token is exactly that sequence. Everywhere else, and for incomplete or malformed sequences, tokens are the same as with the option off from that position on.",
 ["inputs","configurations"],"all byte sequences x both settings of both ANSI options",
 "Tests list examples; parameter, intermediate and payload bytes are unbounded strings.",
 ["graphemes/ansi.go","graphemes/iterator.go"],[("sequence length functions","graphemes/ansi.go"),("dispatch on ESC before the fast path","graphemes/iterator.go Next")])
p("C11","8-bit C1 ANSI sequences are single tokens",
 "With the 8-bit ANSI option on, whenever a grapheme token starts at a byte 0x80-0x9F that begins a complete 8-bit sequence (C1 CSI; OSC ended by BEL or C1 ST; DCS, SOS, PM or APC ended by C1 ST; CAN or SUB cancelling a control string and staying outside it; any other C1 byte alone), the token is exactly that sequence. ESC \\ does not end an 8-bit sequence, incomplete sequences are tokenized as with the option off, and the option never changes the tokens of valid UTF-8 text.",
 ["inputs","configurations"],"all byte sequences x both settings of both ANSI options",
 "Tests list examples; payloads are unbounded strings over all byte values.",
 ["graphemes/ansi8.go","graphemes/ansi.go","graphemes/iterator.go"],[("C1 sequence length functions","graphemes/ansi8.go"),("dispatch on 0x80-0x9F before the fast path","graphemes/iterator.go Next")])
p("C12","Word joiners act as documented, on iterators and scanners alike",
 "For every joiner set and input, word tokens are those of the UAX #29 word rules when each Middle rune that is not the first of its token is treated as if it also had the MidNumLet property, and a Leading rune (one that is not a line break: CR, LF or Newline) at the start of a token is treated as if it were also a letter; an empty joiner set changes nothing. The in-memory iterator and the reader-based scanner given the same joiners yield the same tokens.",
 ["inputs","configurations"],"all byte sequences x all Middle and Leading rune sets (including space, letters, invalid runes)",
 "Joiner tests use a handful of runes (@ - / # .) on one sentence; any rune may be a joiner.",
 ["words/joiners.go","words/splitfunc.go","words/iterator.go","words/reader.go"],[("property override at start of token and mid-token","words/splitfunc.go (*Joiners).splitFunc"),("installation","words/joiners.go (*Iterator).Joiners, words/reader.go (*Scanner).Joiners")])
p("C13","Iterator state depends only on text and position",
 "For every sequence of iterator calls (Next, First, Value, Start, End, Reset, SetText), behaviour is determined by the text, options and position alone: Reset returns to the beginning, SetText behaves like a fresh iterator over the new text with options kept, and both give an empty current token. First returns what the first Next on the text would produce (empty for empty text) and changes nothing; Next at the end returns false and leaves the current token as it was; Value equals the text from Start to End.",
 ["histories","inputs"],"all finite call histories x all inputs x all options",
 "Tests exercise a few fixed call orders.",
 ITS,[("position fields","*/iterator.go"),("First works on a copy","*/iterator.go First")],[("data,pos,start","iterator state","*/iterator.go")])
p("C14","Every code point has its Unicode 17 segmentation properties",
 "For every Unicode scalar value, in its UTF-8 encoding and whatever follows it, each package's property table gives exactly the Unicode 17 property values that its rules use (grapheme, word and sentence break classes, Extended_Pictographic, Indic conjunct classes, and the Han/Hiragana/Katakana class used for ideograph detection), with the encoded length as width. Truncated encodings are recognised as incomplete for exactly the missing bytes, and no byte sequence makes the lookup read outside the data or the tables.",
 ["inputs"],"all 1,112,064 scalar values, all byte sequences of length up to 4 and beyond",
 "The Unicode test files touch a few hundred code points; a wrong table entry for any other is invisible.",
 TR,[("two-stage trie lookup over UTF-8 bytes","*/trie.go lookup, lookupValue"),("generated value and index tables","*/trie.go")])
p("C15","The alphanumeric filter accepts exactly tokens with a letter or number",
 "For every byte slice, the AlphaNumeric filter returns true if and only if at least one of its decoded runes is a Unicode letter or number; it always terminates, does not panic and does not modify the slice.",
 ["inputs"],"all byte slices","No test covers the filter on ill-formed or long inputs; the position of the qualifying rune is unbounded.",
 ["internal/iterators/filter/filter.go"],[("decode loop","internal/iterators/filter/filter.go AlphaNumeric")])
p("C16","Bleve token-type predicates accept exactly their documented classes",
 "For every byte slice, the Bleve ideograph predicate is true exactly when the slice is empty or starts with a Han, Hiragana or Katakana character and continues only with those, connector punctuation (ExtendNumLet) and ignorable (Extend, Format, ZWJ) characters. The Bleve numeric predicate is true exactly when the slice is empty or starts with a Numeric or ExtendNumLet character and every following character is attached to the previous ones by a number rule (WB8, WB11, WB12, WB13a or WB13b). Both always terminate and never panic.",
 ["inputs"],"all byte slices","Tests list a few dozen tokens; the predicates are automata over unbounded strings including truncated encodings.",
 ["words/bleve_compat.go","words/seek.go","words/trie.go"],[("scan loops","words/bleve_compat.go BleveNumeric, BleveIdeographic")])
p("C17","The generic iterator faithfully drives any split function",
 "For every split function and input, the internal generic iterator yields, at each position, exactly the number of bytes its split function reports for the remaining input at end of data (a single remaining byte is returned without consulting it), keeps tokens contiguous, and stops at the end. It panics, rather than looping or returning data outside the input, when the split function returns an error, a non-positive advance or an advance past the end; First, Reset, SetText and Split act on this state only as their names say.",
 ["inputs","programs","histories"],"all split functions (arbitrary results) x all inputs x all call histories",
 "Tests plug in a few misbehaving split functions.",
 ["internal/iterators/iterator.go"],[("advance validation","internal/iterators/iterator.go Next, First")])
p("C18","Every phrase boundary is a word boundary",
 "For every valid UTF-8 text, each boundary reported by the phrase tokenizer is also a boundary reported by the word tokenizer (without joiners), so a phrase is always a whole number of consecutive words.",
 ["inputs"],"all valid UTF-8 texts","Relates two tokenizers (rules, fast paths and tables) over unbounded contexts; no test compares them.",
 ["phrases/splitfunc.go","words/splitfunc.go","phrases/trie.go","words/trie.go","phrases/seek.go","words/seek.go"],[("phrase rules extend the word rules","phrases/splitfunc.go"),("both tables derive from the same word-break data","phrases/trie.go words/trie.go")])
p("C19","Tokenizing has no side effects beyond the iterator itself",
 "No tokenizer, split function, filter or predicate modifies the caller's data or joiner sets, and none reads or writes mutable package-level state, so results depend only on the arguments and independent iterators may be used concurrently. Byte-slice tokens are views of the caller's data, not copies.",
 ["inputs","schedules","programs"],"all inputs; all interleavings of operations on distinct iterators",
 "Races and hidden shared state need particular interleavings; tests run tokenizers one at a time.",
 SPL+ITS+SEEK+TR+["words/joiners.go","words/bleve_compat.go","graphemes/ansi.go","graphemes/ansi8.go","internal/iterators/iterator.go","internal/iterators/filter/filter.go"],[("no writes except to local state and the receiver","all non-test files"),("tokens are subslices","*/iterator.go Value, */splitfunc.go")])
p("C20","A custom split function set on a word iterator is honoured",
 "After a custom split function is set on a word iterator, every following token (and First) is exactly what that function reports for the remaining text at end of data, for every text and every well-behaved function; a function that reports an error, no progress or an advance past the end causes a panic rather than a wrong token.",
 ["inputs","programs"],"all split functions x all texts","No test sets a custom split function on a word iterator.",
 ["words/iterator.go"],[("Split installs the function; Next consults it","words/iterator.go Split, Next")])
p("C21","The trie generator's tables return what was inserted",
 "For every finite assignment of values to code points, the lookup code and tables produced by the trie generator return the assigned value for each assigned code point and zero for every other.",
 ["inputs","programs"],"all finite maps from scalar values to integers","The generator's only test is excluded by a build tag and does not compile; generation needs the network.",
 ["internal/gen/main.go","internal/gen/triegen/triegen.go","internal/gen/triegen/print.go","internal/gen/triegen/compact.go"],[("block sharing by hash","internal/gen/triegen/triegen.go computeOffsets"),("insertion","internal/gen/triegen/triegen.go Insert")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
