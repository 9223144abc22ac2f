; Sentence boundary rules (UAX #29, SB1..SB998).
(theory sentences)
(package sentences)
(table sentences)
(bits ATerm CR Close Extend Format LF Lower Numeric OLetter SContinue STerm Sep Sp Upper)
(mask SATerm STerm ATerm)
(mask ParaSep Sep CR LF)
(mask IGN Extend Format)
(mask STOP OLetter Upper Lower ParaSep SATerm)

(state LP prop 0 P)
(state LE prop 0 (ite (is P IGN) (ite (is LP ParaSep) 0 LE) P))
(state LL prop 0 (ite (is P IGN) LL LE))
; how much of SATerm Close* Sp* ParaSep? the left context ends with:
; 0 nothing, 1 SATerm, 2 SATerm Close+, 3 SATerm Close* Sp+, 4 with ParaSep
(state PH int 0 (cond
  ((is P IGN) (ite (is LP ParaSep) 0 PH))
  ((is P SATerm) 1)
  ((and (is P Close) (or (= PH 1) (= PH 2))) 2)
  ((and (is P Sp) (<= 1 PH) (<= PH 3)) 3)
  ((and (is P ParaSep) (<= 1 PH) (<= PH 3)) 4)
  (else 0)))
(state KA bool false (cond                       ; and that SATerm is an ATerm
  ((is P IGN) KA)
  ((is P SATerm) (is P ATerm))
  (else KA)))
; ghost only: the last character that is not ignored, nor Sp; nor Close; nor
; either; nor ParaSep either
(def nLE (ite (is P IGN) (ite (is LP ParaSep) 0 LE) P))
(def nNS (ite (is nLE Sp) NS nLE))
(def nNC (ite (is nNS Close) NC nNS))
(state NS prop 0 nNS)
(state CC prop 0 (ite (is nLE Close) CC nLE))
(state NC prop 0 nNC)
(state PC prop 0 (ite (is nNC ParaSep) PC nNC))

; right context, as for words
(look NX prop 0 0 (ite (is P IGN) (next NX) P))
(look NO int -1 -1 (ite (is P IGN) (next NO) o))
(look PD bool true true (or (>= o n) (> need (- n o)) (and (is P IGN) (next PD))))
; SB8: is the first letter, terminator or separator from here on a Lower; where
; is it; and does the search run off the visible prefix
(look L8 bool false true (ite (is P STOP) (is P Lower) (next L8)))
(look O8 int -1 o (ite (is P STOP) o (next O8)))
(look D8 bool true true (or (>= o n) (> need (- n o)) (and (not (is P STOP)) (next D8))))

(def in3 (and (<= 1 PH) (<= PH 3)))
(join (cond
  ((and (is LP CR) (is P LF)) true)                                   ; SB3
  ((is LP ParaSep) false)                                             ; SB4
  ((is P IGN) true)                                                   ; SB5
  ((and (is LE ATerm) (is P Numeric)) true)                           ; SB6
  ((and (is LL Upper Lower) (is LE ATerm) (is P Upper)) true)         ; SB7
  ((and KA in3 L8) true)                                              ; SB8
  ((and in3 (is P SContinue SATerm)) true)                            ; SB8a
  ((and (or (= PH 1) (= PH 2)) (is P Close Sp ParaSep)) true)         ; SB9
  ((and in3 (is P Sp ParaSep)) true)                                  ; SB10
  ((not (= PH 0)) false)                                              ; SB11
  (else true)))                                                       ; SB998

(und (and KA in3 D8))

(lemma nx
  true
  (and (=> (= NO -1) (= NX 0))
       (=> (not (= NO -1)) (and (>= NO o) (< NO N) (at NO grid) (= (at NO P) NX) (not (is NX IGN))))
       (=> (not PD) (and (not (= NO -1)) (< NO n)))
       (not (is NX IGN))))
; from a position where SB8 applies, everything up to the Lower joins
(lemma skip8
  (and (> o start) aj L8 (not (is LP ParaSep)) (or (= PH 0) (and (<= 1 PH) (<= PH 3) KA)))
  (and (>= O8 o) (< O8 N) (at O8 grid) (at O8 aj) (at O8 L8) (not (is (at O8 LP) ParaSep))
       (at O8 (or (= PH 0) (and (<= 1 PH) (<= PH 3) KA)))
       (= (at O8 O8) O8)
       (or (is (at O8 P) Lower) (= (at O8 w) 0))))
(lemma o8
  true
  (and (or (= O8 -1) (and (>= O8 o) (< O8 N) (at O8 grid) (or (is (at O8 P) STOP) (= (at O8 w) 0))))
       (=> L8 (not (= O8 -1)))
       (=> (and (not (= O8 -1)) (not (= (at O8 w) 0))) (= L8 (is (at O8 P) Lower)))))

; what the left context can be, whatever the text
(fact (valid LP))
(fact (valid LE))
(fact (valid LL))
(fact (=> (not (is LP IGN)) (= LE LP)))
(fact (=> (is LE ParaSep) (= LE LP)))
(fact (and (<= 0 PH) (<= PH 4)))
(fact (=> (is LP ParaSep) (or (= PH 0) (= PH 4))))
(fact (=> (= PH 4) (is LP ParaSep)))
(fact (= (is LE SATerm) (= PH 1)))

(inv ((y prop)) (= y LP))
(inv ((y prop)) (= y LE))
(inv ((y prop)) (= y LL))
(inv ((y prop)) (= y (lag LE)))
(inv ((y prop)) (= y (lag LL)))
(inv ((y prop)) (=> (is LP IGN) (= y LE)))
(inv ((y prop)) (=> (is LP ATerm) (= y LL)))
(inv ((y prop)) (=> (is LE ATerm) (= y LL)))
(inv ((y prop)) (=> (and (is LP IGN) (is LE ATerm)) (= y LL)))
(inv ((y prop)) (=> (is LE Sp) (= y NS)))
(inv ((y prop)) (=> (is LE Close) (= y CC)))
(inv ((y prop)) (=> (is NS Close) (= y NC)))
(inv ((y prop)) (=> (is NC ParaSep) (= y PC)))
(inv ((y prop)) (= y NS))
(inv ((y prop)) (= y CC))
(inv ((y prop)) (= y NC))
(inv ((y prop)) (= y PC))
(inv ((c int)) (= c PH))
(inv ((c int)) (= c (lag PH)))
(inv ((b bool)) (= b KA))
(inv ((b bool)) (= b (lag KA)))
(inv () (=> (not (is LP IGN)) (= LE LP)))
(inv () (=> (not (is LE Close)) (= CC LE)))
(inv () (=> (not (is LE Sp)) (= NS LE)))
(inv () (=> (not (is NS Close)) (= NC NS)))
(inv () (=> (not (is NC ParaSep)) (= PC NC)))
(inv () (valid NS))
(inv () (valid NC))
(inv () (valid CC))
(inv () (valid LP))
(inv () (valid LE))
(inv () (= (is LE SATerm) (= PH 1)))
(inv () (=> (= PH 2) (and (is LE Close) (is CC SATerm) (is NC SATerm) (= NS LE))))
(inv () (=> (= PH 3) (and (is LE Sp) (is NC SATerm) (or (= NS NC) (is NS Close)))))
(inv () (=> (= PH 4) (is LE ParaSep)))
(inv () (=> (is LE ParaSep) (is LP ParaSep)))
(inv () (and (<= 0 PH) (<= PH 4)))
(inv () (= (and (<= 1 PH) (<= PH 3)) (is NC SATerm)))
(inv () (=> (and (is LE Close) (is CC SATerm)) (= PH 2)))
(inv () (=> (and (<= 1 PH) (<= PH 3)) (= KA (is NC ATerm))))
(inv () (=> (= PH 1) (= NC LE)))
(inv () (= (= PH 2) (and (is LE Close) (is CC SATerm))))
(inv () (=> (is CC SATerm) (or (is LE Close) (= CC LE))))
(inv () (=> (is LE SATerm) (= CC LE)))
(inv () (=> (and (<= 2 PH) (<= PH 3) KA L8 (not (= w 0))) (is P Lower)))

; loops over ASCII letters, digits and spaces
(inv () (= PH 0))
(inv () (=> (> o start) (or (in (B -1) 48 57) (in (B -1) 65 90) (in (B -1) 97 122) (in (B -1) 32 32))))
(inv () (=> (> o start) (and (= prev (- o 1)) (at (- o 1) grid))))
(inv () (=> (> o start) (not (is LP ParaSep SATerm))))
(inv ((y prop)) (=> (is LP IGN) (= y NS)))
(inv ((y prop)) (=> (is LP IGN) (= y CC)))
(inv ((y prop)) (=> (is LP IGN) (= y NC)))
(inv ((y prop)) (=> (is LP IGN) (= y PC)))

; the same position seen from an earlier text start and from the token start
(rel (and (= LP LP') (= LE LE') (= PH PH')
  (=> (not (= PH 0)) (= KA KA'))
  (=> (is LE ATerm) (not (is (bxor LL LL') Upper Lower)))))
