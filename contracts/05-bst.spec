; ---- binary search over floats: one bit per halving, eight bits per byte ----
; the byte written for v from (cur, inc), with i bits already written; what the search arrives at
(rec ebyte ((v F64) (cur F64) (inc F64) (i Int)) Int
  (ite (<= 8 i) 0 (+ (ite (flt v cur) 0 1) (* 2 (ebyte v (ite (flt v cur) (fsub cur inc) (fadd cur inc)) (fdiv inc (f64 2.0)) (+ i 1))))) (fuel 12))
(rec ecur ((v F64) (cur F64) (inc F64) (i Int)) F64
  (ite (<= 8 i) cur (ecur v (ite (flt v cur) (fsub cur inc) (fadd cur inc)) (fdiv inc (f64 2.0)) (+ i 1))) (fuel 12))
(rec dcur ((b Int) (cur F64) (inc F64) (i Int)) F64
  (ite (<= 8 i) cur (dcur (div b 2) (ite (= (mod b 2) 1) (fadd cur inc) (fsub cur inc)) (fdiv inc (f64 2.0)) (+ i 1))) (fuel 12))
(rec inc8 ((inc F64) (i Int)) F64 (ite (<= 8 i) inc (inc8 (fdiv inc (f64 2.0)) (+ i 1))) (fuel 12))
; n bytes
(rec encB ((v F64) (cur F64) (inc F64) (n Int)) Bytes
  (ite (<= n 0) (empty Bytes) (cat (unit (ebyte v cur inc 0)) (encB v (ecur v cur inc 0) (inc8 inc 0) (- n 1)))))
(rec decB ((s Bytes) (cur F64) (inc F64)) F64
  (ite (= (len s) 0) cur (decB (drop s 1) (dcur (at s 0) cur inc 0) (inc8 inc 0))))
(macro bstMid (start dur) (fadd start (fdiv dur (f64 2.0))))
(macro encBST (v start dur n) (encB v (bstMid start dur) (fdiv dur (f64 4.0)) n))
(macro decBST (start dur s) (decB s (bstMid start dur) (fdiv dur (f64 4.0))))

(func internal/io/binary.UnsignedFloatBSTToBytes (params v start dur buf) (modifies buf)
  (ensures bytes (= buf (encBST v start dur (len (old buf)))))
  (loop 0 (vars (byteIndex int) (curValue float64) (increment float64))
    (inv count (<= 0 byteIndex (len buf)))
    (inv size (= (len buf) (len (old buf))))
    (inv bytes (= (cat (take buf byteIndex) (encB v curValue increment (- (len buf) byteIndex))) (encBST v start dur (len buf))))))
(func internal/io/binary.BytesToUnisngedFloatBST (params start dur in) (results v)
  (ensures value (= v (decBST start dur in)))
  (loop 0 (vars (byteIndex int) (curValue float64) (increment float64))
    (inv count (<= 0 byteIndex (len in)))
    (inv value (= (decB (drop in byteIndex) curValue increment) (decBST start dur in)))))
(lemma ebyte-range ((v F64) (cur F64) (inc F64))
  (ensures (<= 0 (ebyte v cur inc 0) 255)))
(lemma rt-byte ((v F64) (cur F64) (inc F64) (i Int))
  (requires (<= 0 i 8))
  (ensures (= (dcur (ebyte v cur inc i) cur inc i) (ecur v cur inc i)))
  (measure (- 8 i))
  (hint (use rt-byte v (ite (flt v cur) (fsub cur inc) (fadd cur inc)) (fdiv inc (f64 2.0)) (+ i 1))))
; what a sequence of n bytes arrives at
(rec ecurN ((v F64) (cur F64) (inc F64) (n Int)) F64
  (ite (<= n 0) cur (ecurN v (ecur v cur inc 0) (inc8 inc 0) (- n 1))))
(lemma rt-B ((v F64) (cur F64) (inc F64) (n Int))
  (requires (<= 0 n))
  (ensures (= (len (encB v cur inc n)) n))
  (ensures (= (decB (encB v cur inc n) cur inc) (ecurN v cur inc n)))
  (measure n)
  (hint (use rt-B v (ecur v cur inc 0) (inc8 inc 0) (- n 1)) (use rt-byte v cur inc 0) (use ebyte-range v cur inc)))

; ---- in exact arithmetic: how far the search ends from the value ----
(macro rabs (x) (ite (< x (real 0.0)) (- x) x))
(macro rmax0 (x) (ite (< x (real 0.0)) (real 0.0) x))
; distance of x from the interval [c-2h, c+2h]
(macro rdist (x c h) (+ (rmax0 (- (- c (* (real 2.0) h)) x)) (rmax0 (- x (+ c (* (real 2.0) h))))))
(lemma bst-err ((v F64) (cur F64) (inc F64) (i Int)) (real)
  (requires (<= 0 i 8)) (requires (<= (real 0.0) (rv inc)))
  (ensures (<= (rabs (- (rv v) (rv (ecur v cur inc i)))) (+ (* (real 2.0) (rv (inc8 inc i))) (rdist (rv v) (rv cur) (rv inc)))))
  (ensures (<= (real 0.0) (rv (inc8 inc i))))
  (measure (- 8 i))
  (hint (use bst-err v (ite (flt v cur) (fsub cur inc) (fadd cur inc)) (fdiv inc (f64 2.0)) (+ i 1))))
(lemma inc8-256 ((inc F64)) (real)
  (ensures (= (* (real 256.0) (rv (inc8 inc 0))) (rv inc))))
; decoding stays inside the interval, and moves no more than the interval does
(lemma dcur-in ((b Int) (cur F64) (inc F64) (i Int)) (real)
  (requires (<= 0 i 8)) (requires (<= (real 0.0) (rv inc)))
  (ensures (<= (- (rv cur) (* (real 2.0) (rv inc))) (- (rv (dcur b cur inc i)) (* (real 2.0) (rv (inc8 inc i))))))
  (ensures (<= (+ (rv (dcur b cur inc i)) (* (real 2.0) (rv (inc8 inc i)))) (+ (rv cur) (* (real 2.0) (rv inc)))))
  (ensures (<= (real 0.0) (rv (inc8 inc i))))
  (measure (- 8 i))
  (hint (use dcur-in (div b 2) (ite (= (mod b 2) 1) (fadd cur inc) (fsub cur inc)) (fdiv inc (f64 2.0)) (+ i 1))))
(lemma dcur-near ((b Int) (cur F64) (inc F64) (cur2 F64) (inc2 F64) (i Int)) (real)
  (requires (<= 0 i 8))
  (ensures (<= (+ (rabs (- (rv (dcur b cur inc i)) (rv (dcur b cur2 inc2 i)))) (* (real 2.0) (rabs (- (rv (inc8 inc i)) (rv (inc8 inc2 i))))))
               (+ (rabs (- (rv cur) (rv cur2))) (* (real 2.0) (rabs (- (rv inc) (rv inc2)))))))
  (measure (- 8 i))
  (hint (use dcur-near (div b 2) (ite (= (mod b 2) 1) (fadd cur inc) (fsub cur inc)) (fdiv inc (f64 2.0))
     (ite (= (mod b 2) 1) (fadd cur2 inc2) (fsub cur2 inc2)) (fdiv inc2 (f64 2.0)) (+ i 1))
    (unfold dcur b cur inc i) (unfold dcur b cur2 inc2 i) (unfold inc8 inc i) (unfold inc8 inc2 i)
    (assert (<= (rabs (- (rv (fadd cur inc)) (rv (fadd cur2 inc2)))) (+ (rabs (- (rv cur) (rv cur2))) (rabs (- (rv inc) (rv inc2))))))
    (assert (<= (rabs (- (rv (fsub cur inc)) (rv (fsub cur2 inc2)))) (+ (rabs (- (rv cur) (rv cur2))) (rabs (- (rv inc) (rv inc2))))))
    (assert (= (* (real 2.0) (rabs (- (rv (fdiv inc (f64 2.0))) (rv (fdiv inc2 (f64 2.0)))))) (rabs (- (rv inc) (rv inc2)))))))
; the byte-level facts again, for use with exact arithmetic
(lemma ebyte-range-real ((v F64) (cur F64) (inc F64)) (real)
  (ensures (<= 0 (ebyte v cur inc 0) 255)))
(lemma rt-byte-real ((v F64) (cur F64) (inc F64) (i Int)) (real)
  (requires (<= 0 i 8))
  (ensures (= (dcur (ebyte v cur inc i) cur inc i) (ecur v cur inc i)))
  (measure (- 8 i))
  (hint (use rt-byte-real v (ite (flt v cur) (fsub cur inc) (fadd cur inc)) (fdiv inc (f64 2.0)) (+ i 1))))
(lemma rt-B-real ((v F64) (cur F64) (inc F64) (n Int)) (real)
  (requires (<= 0 n))
  (ensures (= (len (encB v cur inc n)) n))
  (ensures (= (decB (encB v cur inc n) cur inc) (ecurN v cur inc n)))
  (measure n)
  (hint (use rt-B-real v (ecur v cur inc 0) (inc8 inc 0) (- n 1)) (use rt-byte-real v cur inc 0) (use ebyte-range-real v cur inc)))
; the distance of the value from the interval never grows
(lemma bst-dist ((v F64) (cur F64) (inc F64) (i Int)) (real)
  (requires (<= 0 i 8)) (requires (<= (real 0.0) (rv inc)))
  (ensures (<= (rdist (rv v) (rv (ecur v cur inc i)) (rv (inc8 inc i))) (rdist (rv v) (rv cur) (rv inc))))
  (measure (- 8 i))
  (hint (use bst-dist v (ite (flt v cur) (fsub cur inc) (fadd cur inc)) (fdiv inc (f64 2.0)) (+ i 1))))
; two bytes over [start, start+dur]
(lemma bst16-err ((v F64) (start F64) (dur F64)) (real)
  (requires (<= (real 0.0) (rv dur)))
  (ensures (<= (rabs (- (rv v) (rv (ecurN v (bstMid start dur) (fdiv dur (f64 4.0)) 2))))
     (+ (/ (rv dur) (real 131072.0)) (+ (rmax0 (- (rv start) (rv v))) (rmax0 (- (rv v) (+ (rv start) (rv dur))))))))
  (hint (use bst-err v (bstMid start dur) (fdiv dur (f64 4.0)) 0) (use inc8-256 (fdiv dur (f64 4.0)))
    (use bst-err v (ecur v (bstMid start dur) (fdiv dur (f64 4.0)) 0) (inc8 (fdiv dur (f64 4.0)) 0) 0)
    (use inc8-256 (inc8 (fdiv dur (f64 4.0)) 0))
    (use bst-dist v (bstMid start dur) (fdiv dur (f64 4.0)) 0)
    (unfold ecurN v (bstMid start dur) (fdiv dur (f64 4.0)) 2)
    (unfold ecurN v (ecur v (bstMid start dur) (fdiv dur (f64 4.0)) 0) (inc8 (fdiv dur (f64 4.0)) 0) 1)
    (unfold ecurN v (ecur v (ecur v (bstMid start dur) (fdiv dur (f64 4.0)) 0) (inc8 (fdiv dur (f64 4.0)) 0) 0) (inc8 (inc8 (fdiv dur (f64 4.0)) 0) 0) 0)))
