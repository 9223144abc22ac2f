; ECMA-48 escape sequences: each function is the end offset of the construct
; that starts at o, or -1 when there is no complete one.
(theory ansi)
(def b0 (B 0))
(def b1 (B 1))
; control sequence body: parameters, intermediates, final
(blook CS1 int -1 (cond ((in b0 32 47) (next CS1)) ((in b0 64 126) (+ o 1)) (else -1)))
(blook CS0 int -1 (cond ((in b0 48 63) (next CS0)) ((in b0 32 47) (next CS1)) ((in b0 64 126) (+ o 1)) (else -1)))
; 7-bit control strings: ended by ESC \ (OSC also by BEL), cancelled by CAN or SUB
(blook OS7 int -1 (cond ((= b0 7) (+ o 1)) ((or (= b0 24) (= b0 26)) o) ((and (= b0 27) (= b1 92)) (+ o 2)) (else (next OS7))))
(blook ST7 int -1 (cond ((or (= b0 24) (= b0 26)) o) ((and (= b0 27) (= b1 92)) (+ o 2)) (else (next ST7))))
; nF: intermediates, final
(blook NF int -1 (cond ((in b0 32 47) (next NF)) ((in b0 48 126) (+ o 1)) (else -1)))
(blook A7 int -1 (cond
  ((not (= b0 27)) -1)
  ((= b1 91) (skip CS0 2))
  ((= b1 93) (skip OS7 2))
  ((or (= b1 80) (= b1 88) (= b1 94) (= b1 95)) (skip ST7 2))
  ((in b1 64 126) (+ o 2))
  ((in b1 48 63) (+ o 2))
  ((in b1 32 47) (skip NF 2))
  (else -1)))
; 8-bit control strings: ended by C1 ST (OSC also by BEL), cancelled by CAN or SUB
(blook OS8 int -1 (cond ((or (= b0 7) (= b0 156)) (+ o 1)) ((or (= b0 24) (= b0 26)) o) (else (next OS8))))
(blook ST8 int -1 (cond ((= b0 156) (+ o 1)) ((or (= b0 24) (= b0 26)) o) (else (next ST8))))
(blook A8 int -1 (cond
  ((= b0 155) (next CS0))
  ((= b0 157) (next OS8))
  ((or (= b0 144) (= b0 152) (= b0 158) (= b0 159)) (next ST8))
  ((in b0 128 159) (+ o 1))
  (else -1)))
; a scan that has (b) or has not seen an intermediate
(inv ((b bool)) (= (ite b CS1 CS0) (entry CS0)))
(inv ((b bool)) (= (ite b CS0 CS1) (entry CS0)))
(inv ((k int)) (= (ite (> k 0) CS1 CS0) (entry CS0)))
; a scan that looks back for the ESC of ESC \
(inv ((v byte)) (= (ite (and (= v 27) (= b0 92)) (+ o 1) OS7) (entry OS7)))
(inv ((v byte)) (= (ite (and (= v 27) (= b0 92)) (+ o 1) ST7) (entry ST7)))
(inv ((b bool)) (= (ite (and b (= b0 92)) (+ o 1) OS7) (entry OS7)))
(inv ((b bool)) (= (ite (and b (= b0 92)) (+ o 1) ST7) (entry ST7)))
(inv () (= (ite (and (> o (entry o)) (= (B -1) 27) (= b0 92)) (+ o 1) OS7) (entry OS7)))
(inv () (= (ite (and (> o (entry o)) (= (B -1) 27) (= b0 92)) (+ o 1) ST7) (entry ST7)))
