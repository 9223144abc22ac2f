; Bleve ideographic tokens: Han, Hiragana or Katakana first, then only those,
; connector punctuation and ignorable characters.
(theory bleveideo)
(package words)
(table words)
(strict)
(bits ALetter BleveIdeographic CR DoubleQuote Extend ExtendNumLet ExtendedPictographic Format HebrewLetter Katakana LF MidLetter MidNum MidNumLet Newline Numeric RegionalIndicator SingleQuote WSegSpace ZWJ)
(mask IGN Extend Format ZWJ)
(first (is P BleveIdeographic))
(join (is P BleveIdeographic ExtendNumLet IGN))
; once a character is not attached, nothing later is
(lemma aj (not aj) (not (at N aj)))
(inv () (=> (> o start) firstok))
(inv ((y bool)) (= y (not (or (= o start) (and firstok aj)))))
(inv ((y bool)) (= y (or (= o start) (and firstok aj))))
