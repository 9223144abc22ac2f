; Extended grapheme cluster rules (UAX #29, GB1..GB999) as ghost functions of
; the text, starting at the start of a cluster.
(theory graphemes)
(package graphemes)
(table graphemes)
(bits CR Control Extend ExtendedPictographic InCBConsonant InCBExtend InCBLinker L LF LV LVT Prepend RegionalIndicator SpacingMark T V ZWJ)
(mask CTL Control CR LF)

; left context
(state LP prop 0 P)
(state IC int 0                       ; GB9c: 0 none, 1 consonant seen, 2 linker seen after it
  (cond ((is P InCBConsonant) 1)
        ((is P InCBLinker) (ite (>= IC 1) 2 0))
        ((is P InCBExtend) IC)
        (else 0)))
(state XP bool false (or (is P ExtendedPictographic) (and XP (is P Extend))))
(state XZ bool false (and XP (is P ZWJ)))
(state RO bool false (and (is P RegionalIndicator) (not RO)))
; ghost only: last and last-but-one character that is not Extend
(state LE prop 0 (ite (is P Extend) LE P))
(state LL prop 0 (ite (is P Extend) LL LE))

(join (cond
  ((and (is LP CR) (is P LF)) true)                              ; GB3
  ((is LP CTL) false)                                            ; GB4
  ((is P CTL) false)                                             ; GB5
  ((and (is LP L) (is P L V LV LVT)) true)                       ; GB6
  ((and (is LP LV V) (is P V T)) true)                           ; GB7
  ((and (is LP LVT T) (is P T)) true)                            ; GB8
  ((is P Extend ZWJ) true)                                       ; GB9
  ((is P SpacingMark) true)                                      ; GB9a
  ((is LP Prepend) true)                                         ; GB9b
  ((and (= IC 2) (is P InCBConsonant)) true)                     ; GB9c
  ((and XZ (is P ExtendedPictographic)) true)                    ; GB11
  ((and RO (is P RegionalIndicator)) true)                       ; GB12 GB13
  (else false)))                                                 ; GB999
(und false)

; what the left context can be, whatever the text
(fact (=> (is LP CTL) (and (= IC 0) (not XP) (not XZ) (not RO))))
(fact (and (<= 0 IC) (<= IC 2)))
(fact (=> RO (is LP RegionalIndicator)))
(fact (=> XZ (is LP ZWJ)))

; loop facts, to be matched to whatever variables the code uses
(inv ((y prop)) (= y LP))
(inv ((y prop)) (= y LE))
(inv ((y prop)) (= y LL))
(inv ((y prop)) (= y (lag LE)))
(inv ((y prop)) (= y (lag LL)))
(inv ((c int)) (= c IC))
(inv ((c int)) (= c (lag IC)))
(inv ((c int)) (=> (not (is LP InCBConsonant)) (= c (lag IC))))
(inv ((c int)) (=> (is LP InCBConsonant) (not (= c 2))))
(inv ((c int)) (and (<= 0 c) (<= c 2)))
(inv ((c int)) (=> (is LP RegionalIndicator) (= (even c) RO)))
(inv ((c int)) (=> (is LP RegionalIndicator) (= (even c) (not RO))))
(inv ((c int)) (=> (is LP Prepend) (= c 0)))
(inv ((b bool)) (= b XP))
(inv ((b bool)) (= b XZ))
(inv ((b bool)) (= b RO))
(inv ((b bool)) (= b (lag XP)))
(inv ((b bool)) (= b (lag XZ)))
(inv ((b bool)) (= b (lag RO)))
(inv () (= XP (is LE ExtendedPictographic)))
(inv () (= XZ (and (is LP ZWJ) (is LL ExtendedPictographic))))
(inv () (=> RO (is LP RegionalIndicator)))
(inv ((b bool)) (=> (is LP RegionalIndicator) (= b RO)))
(inv ((b bool)) (=> (is LP RegionalIndicator) (= b (not RO))))

; the same text position seen from an earlier text start (X') and from the
; start of the cluster (X) joins the same way
(rel (and (= LP LP') (= IC IC') (= XP XP') (= XZ XZ') (= RO RO')))
(inv ((b bool)) (=> (is LP Prepend) (not b)))
(inv ((b bool)) (=> (is LP Prepend) b))
