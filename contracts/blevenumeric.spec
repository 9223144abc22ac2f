; Bleve numeric tokens: a Numeric or ExtendNumLet character, then characters
; attached by a number rule. The slice is accepted when it is empty, or its
; first character qualifies and every later one is attached.
(theory blevenumeric)
(package words)
(table words)
(strict)
(bits ALetter BleveIdeographic CR DoubleQuote Extend ExtendNumLet ExtendedPictographic Format HebrewLetter Katakana LF MidLetter MidNum MidNumLet Newline Numeric RegionalIndicator SingleQuote WSegSpace ZWJ)
(mask MNLQ MidNumLet SingleQuote)
(mask MIDN MidNum MNLQ)
(mask IGN Extend Format ZWJ)

(state LP prop 0 P)
(state LE prop 0 (ite (is P IGN) LE P))
(state LL prop 0 (ite (is P IGN) LL LE))

(look NX prop 0 0 (ite (is P IGN) (next NX) P))
(look NO int -1 -1 (ite (is P IGN) (next NO) o))
(look PD bool true true (or (>= o n) (> need (- n o)) (and (is P IGN) (next PD))))

(first (is P Numeric ExtendNumLet))
(join (cond
  ((and (is LP Numeric) (is P Numeric)) true)                        ; WB8
  ((and (is LL Numeric) (is LE MIDN) (is P Numeric)) true)           ; WB11
  ((and (is LE Numeric) (is P MIDN) (is (next NX) Numeric)) true)    ; WB12
  ((and (is LL Numeric) (is LE MIDN) (is P IGN) (is NX Numeric)) true) ; ignored inside WB11, WB12
  ((and (is LE Numeric ExtendNumLet) (is P ExtendNumLet)) true)      ; WB13a
  ((and (is LE ExtendNumLet) (is P Numeric)) true)                   ; WB13b
  (else false)))

(fact (valid LP))
(fact (valid LE))
(fact (valid LL))
(fact (=> (not (is LP IGN)) (= LE LP)))
(fact (not (is LE IGN)))

; between a middle character and the number it leads to
(lemma skip
  (and (> o start) aj (is LL Numeric) (is LE MIDN) (not (= NO -1)) (is NX Numeric))
  (and (at NO grid) (at NO aj) (>= NO o) (< NO N)
       (= (at NO LE) LE) (= (at NO LL) LL) (= (at NO P) NX) (not (is NX IGN))
       (or (= NO o) (is (at NO LP) IGN))))
(lemma nx
  true
  (and (=> (= NO -1) (= NX 0))
       (=> (not (= NO -1)) (and (>= NO o) (< NO N) (at NO grid) (= (at NO P) NX) (not (is NX IGN))))
       (=> (not PD) (and (not (= NO -1)) (< NO n)))
       (not (is NX IGN))))
; once a character is not attached, nothing later is
(lemma aj (not aj) (not (at N aj)))

(inv ((y prop)) (= y LP))
(inv ((y prop)) (= y LE))
(inv ((y prop)) (= y LL))
(inv ((y prop)) (= y (lag LP)))
(inv ((y prop)) (= y (lag LE)))
(inv ((y prop)) (= y (lag LL)))
(inv () (=> (> o start) firstok))
(inv ((y bool)) (= y (not (or (= o start) (and firstok aj)))))
(inv ((y bool)) (= y (or (= o start) (and firstok aj))))
; the previous character, or the middle character that ignored ones follow
(inv ((y prop)) (or (= y LP) (and (is y MIDN) (is LP IGN) (= y LE))))
(inv ((y prop) (z prop)) (= LE (ite (is y IGN) z y)))
(inv ((y prop) (z prop) (u prop)) (= LL (ite (is y IGN) u z)))
; the code passes a middle character together with the ignored ones after it
(inv () (=> (is LE MIDN) (is P Numeric)))
