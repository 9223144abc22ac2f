; The alphanumeric filter: a slice is accepted when some decoded rune is a
; letter or a number, that is, unless no rune from the first on is one.
(theory filter)
(utf8)
(strict)
(negated)
(first (not (or letter number)))
(join (not (or letter number)))
; once a rune is a letter or number, it stays one
(lemma aj (not aj) (not (at N aj)))

(inv () (=> (> o start) firstok))
(inv ((y bool)) (= y (not (or (= o start) (and firstok aj)))))
(inv ((y bool)) (= y (or (= o start) (and firstok aj))))
