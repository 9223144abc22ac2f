; Word boundary rules (UAX #29, WB1..WB999), with word joiners.
(theory words)
(package words)
(table words)
(joiners)
(bits ALetter BleveIdeographic CR DoubleQuote Extend ExtendNumLet ExtendedPictographic Format HebrewLetter Katakana LF MidLetter MidNum MidNumLet Newline Numeric RegionalIndicator SingleQuote WSegSpace ZWJ)
(mask AHL ALetter HebrewLetter)
(mask MNLQ MidNumLet SingleQuote)
(mask MIDL MidLetter MNLQ)
(mask MIDN MidNum MNLQ)
(mask IGN Extend Format ZWJ)
(mask NEWL Newline CR LF)

; E: the character's properties as the joiners modify them (line breaks are
; not made letters)
(eff (ite first (ite (and JL (not (is P NEWL))) (bor P AHL) P) (ite JM (bor P MidNumLet) P)))

(state LP prop 0 E)
(state LE prop 0 (ite (is E IGN) (ite (is LP NEWL) 0 LE) E))
(state LL prop 0 (ite (is E IGN) LL LE))
(state RO bool false (ite (is E IGN) RO (and (is E RegionalIndicator) (not (and (is LE RegionalIndicator) RO)))))

; right context: the next character that is not ignorable, its offset, and
; whether a search for it runs off the visible prefix
(look NX prop 0 0 (ite (is P IGN) (next NX) P))
(look NO int -1 -1 (ite (is P IGN) (next NO) o))
(look PD bool true true (or (>= o n) (> need (- n o)) (and (is P IGN) (next PD))))

(join (cond
  ((and (is LP CR) (is E LF)) true)                                        ; WB3
  ((is LP NEWL) false)                                                     ; WB3a
  ((is E NEWL) false)                                                      ; WB3b
  ((and (is LP ZWJ) (is E ExtendedPictographic)) true)                     ; WB3c
  ((and (is LP WSegSpace) (is E WSegSpace)) true)                          ; WB3d
  ((is E IGN) true)                                                        ; WB4
  ((and (is LE AHL) (is E AHL)) true)                                      ; WB5
  ((and (is LE AHL) (is E MIDL) (is (next NX) AHL)) true)                  ; WB6
  ((and (is LL AHL) (is LE MIDL) (is E AHL)) true)                         ; WB7
  ((and (is LE HebrewLetter) (is E SingleQuote)) true)                     ; WB7a
  ((and (is LE HebrewLetter) (is E DoubleQuote) (is (next NX) HebrewLetter)) true) ; WB7b
  ((and (is LL HebrewLetter) (is LE DoubleQuote) (is E HebrewLetter)) true)        ; WB7c
  ((and (is LE Numeric) (is E Numeric)) true)                              ; WB8
  ((and (is LE AHL) (is E Numeric)) true)                                  ; WB9
  ((and (is LE Numeric) (is E AHL)) true)                                  ; WB10
  ((and (is LL Numeric) (is LE MIDN) (is E Numeric)) true)                 ; WB11
  ((and (is LE Numeric) (is E MIDN) (is (next NX) Numeric)) true)          ; WB12
  ((and (is LE Katakana) (is E Katakana)) true)                            ; WB13
  ((and (is LE AHL Numeric Katakana ExtendNumLet) (is E ExtendNumLet)) true)  ; WB13a
  ((and (is LE ExtendNumLet) (is E AHL Numeric Katakana)) true)            ; WB13b
  ((and RO (is LE RegionalIndicator) (is E RegionalIndicator)) true)       ; WB15 WB16
  (else false)))                                                           ; WB999

; a rule's look-ahead from o is pending at the end of the prefix
(und (and (next PD)
  (or (and (is LE AHL) (is E MIDL))
      (and (is LE HebrewLetter) (is E DoubleQuote))
      (and (is LE Numeric) (is E MIDN)))))

; ignorable characters up to the next other character join and keep the context
(lemma skip
  (and (> o start) aj (not (is LP NEWL)) (not (= NO -1)))
  (and (at NO grid) (at NO aj) (>= NO o) (< NO N)
       (= (at NO LE) LE) (= (at NO LL) LL) (= (at NO RO) RO)
       (= (at NO P) NX) (not (is NX IGN)) (not (is (at NO LP) NEWL))))
(lemma nx
  true
  (and (=> (= NO -1) (= NX 0))
       (=> (not (= NO -1)) (and (>= NO o) (< NO N) (at NO grid) (= (at NO P) NX) (not (is NX IGN))))
       (=> (not PD) (and (not (= NO -1)) (< NO n)))
       (not (is NX IGN))))

; what the left context can be, whatever the text
(fact (=> RO (is LE RegionalIndicator)))
(fact (=> (is LP NEWL) (and (= LE LP) (not (is LP IGN RegionalIndicator AHL Numeric Katakana ExtendNumLet)))))
(fact (=> (not (is LP IGN)) (= LE LP)))
(fact (=> (is LE NEWL) (= LE LP)))

(inv ((y prop)) (= y LP))
(inv ((y prop)) (= y LE))
(inv ((y prop)) (= y LL))
(inv ((y prop)) (= y (lag LE)))
(inv ((y prop)) (= y (lag LL)))
(inv ((c int)) (=> (is LE RegionalIndicator) (= (even c) RO)))
(inv ((c int)) (=> (is LE RegionalIndicator) (= (even c) (not RO))))
(inv ((b bool)) (= b RO))
(inv ((b bool)) (= b (lag RO)))
(inv () (=> RO (is LE RegionalIndicator)))
; loops over ASCII letters and digits
(inv () (valid LP))
(inv () (valid LE))
(inv () (=> (not (is LP IGN)) (= LE LP)))
(inv () (=> (> o start) (= LE LP)))
(inv () (=> (> o start) (is LP ALetter Numeric)))
(inv () (=> (> o start) (is LE ALetter Numeric)))
(inv () (=> (> o start) (or (in (B -1) 48 57) (in (B -1) 65 90) (in (B -1) 97 122))))
(inv () (=> (> o start) (and (= prev (- o 1)) (at (- o 1) grid))))
; with joiners, a regional indicator may also be a middle letter: then it joins
; by the rules for letters, and the pair count no longer matters
(inv ((c int)) (=> (and (is LE RegionalIndicator) (not (is NX AHL Numeric))) (= (even c) RO)))
(inv ((c int)) (=> (and (is LE RegionalIndicator) (not (is NX AHL Numeric))) (= (even c) (not RO))))
(inv ((b bool)) (=> (is LE RegionalIndicator) (= b RO)))
(inv ((b bool)) (=> (is LE RegionalIndicator) (= b (not RO))))
(inv ((b bool)) (=> (and (is LE RegionalIndicator) (not (is NX AHL Numeric))) (= b RO)))
(inv ((b bool)) (=> (and (is LE RegionalIndicator) (not (is NX AHL Numeric))) (= b (not RO))))

(rel (and (= LP LP') (= RO RO')
  (or (= LE LE') (not (is (bxor LE LE') CR LF Newline ALetter HebrewLetter Numeric Katakana ExtendNumLet RegionalIndicator MidLetter MidNum MidNumLet SingleQuote DoubleQuote)))
  (or (= LL LL')
      (not (is LE MIDL MIDN DoubleQuote))
      (and (=> (and (is (bxor LL LL') AHL) (is LE MIDL)) (not (is NX AHL)))
           (=> (and (is (bxor LL LL') HebrewLetter) (is LE DoubleQuote)) (not (is NX HebrewLetter)))
           (=> (and (is (bxor LL LL') Numeric) (is LE MIDN)) (not (is NX Numeric)))))))
