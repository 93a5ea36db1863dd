; Segments of in-place application, over the integers: all sizes are below
; 2^27, so no product exceeds 2^54 and 64-bit arithmetic is the same.
; Each (check-sat) is the negation of one lemma and has to be unsat.
(declare-const i Int) (declare-const s Int) (declare-const p Int)
(declare-const n Int) (declare-const x Int) (declare-const k Int)
(assert (>= s 1))
(push) ; the end of the next segment
(assert (and (>= i 0) (= (* i s) p) (not (= (* (+ i 1) s) (+ p s)))))
(check-sat) (pop)
(push) ; a segment number is not above the end of the segment
(assert (and (>= i 0) (= (* i s) p) (not (>= p i))))
(check-sat) (pop)
(push) ; segments to move: n is x / s rounded up
(assert (and (>= x 0) (>= k 0) (<= x (* k s))
             (<= (* n s) (- (+ x s) 1)) (< (- (+ x s) 1) (+ (* n s) s)) (= p (* n s))))
(assert (not (and (>= n 0) (<= n x) (>= p x)
                  (= (* (- n 1) s) (- p s))
                  (ite (= n 0) (= p 0) (>= p s)))))
(check-sat) (pop)
(push) ; what is moved fits where it is moved to, k segments
(assert (and (>= x 0) (>= k 0) (<= x (* k s))
             (<= (* n s) (- (+ x s) 1)) (= p (* n s))))
(assert (not (<= n k)))
(check-sat) (pop)
(push)
(assert (and (<= n k) (= p (* n s)) (not (<= p (* k s)))))
(check-sat) (pop)
(push) ; after a segment has been moved
(assert (and (>= n 1) (= p (* n s))))
(assert (not (and (= (* (- n 1) s) (- p s))
                  (ite (= n 1) (= (- p s) 0) (>= (- p s) s)))))
(check-sat) (pop)
