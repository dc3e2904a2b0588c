; ---- C04: capture times ----
; bytes of a 64-bit float, of its nearest 32-bit float, and back
(macro b64 (x) (sym le8 Bytes (sym f64.bits Int x)))
(macro u64f (s) (sym f64.frombits F64 (sym unle8 Int (take s 8))))
(macro b32 (x) (sym le4 Bytes (sym f32.bits Int (f32of x))))
(macro u32f (s) (f64of (sym f32.frombits F32 (sym unle4 Int (take s 4)))))
(macro same64 (x) x)
(macro near32 (x) (f64of (f32of x)))
(macro timeOf (c) (@format.Capture.Time c))
(def noNil ((cs (Seq If))) Bool
  (forall ((i Int)) (:pat (at cs i)) (=> (<= 0 i) (< i (len cs)) (!= (at cs i) nil))))
(foreach (W N ENC DEC STORED) ((64 8 b64 u64f same64) (32 4 b32 u32f near32))
 (rec encT{W} ((cs (Seq If))) Bytes
   (ite (= (len cs) 0) (empty Bytes) (cat ({ENC} (timeOf (at cs 0))) (encT{W} (drop cs 1)))))
 (rec valT{W} ((s Bytes) (n Int)) (Seq F64)
   (ite (<= n 0) (empty (Seq F64)) (cat (unit ({DEC} s)) (valT{W} (drop s {N}) (- n 1)))))
 ; what the storage keeps of each time
 (rec storedT{W} ((cs (Seq If))) (Seq F64)
   (ite (= (len cs) 0) (empty (Seq F64)) (cat (unit ({STORED} (timeOf (at cs 0)))) (storedT{W} (drop cs 1)))))
 (func format/io.encodeTime{W} (params out captures) (results err) (writer out)
   (requires (noNil captures))
   (ensures ok (=> (!= err nil) (failed out)))
   (ensures bytes (=> (= err nil) (= (out out) (cat (old (out out)) (encT{W} captures)))))
   (loop 0
     (inv fine (iff (failed out) (old (failed out))))
     (inv bytes (= (cat (out out) (encT{W} (drop captures $k))) (cat (old (out out)) (encT{W} captures))))))
 (func format/io.decodeTime{W} (params in n) (results times err) (reader in)
   (ensures ok (iff (= err nil) (<= (* {N} n) (len (old (rem in))))))
   (ensures value (=> (= err nil) (= times (valT{W} (old (rem in)) n))))
   (ensures rest (=> (= err nil) (= (rem in) (drop (old (rem in)) (* {N} n)))))
   (loop 0 (vars (i uint64) (times []float64))
     (inv count (<= 0 i n))
     (inv full (not (short in)))
     (inv ok (<= (* {N} i) (len (old (rem in)))))
     (inv rest (= (rem in) (drop (old (rem in)) (* {N} i))))
     (inv value (= (cat times (valT{W} (rem in) (- n i))) (valT{W} (old (rem in)) n)))))
 (lemma rt-T{W} ((cs (Seq If)) (rest Bytes))
   (ensures (= (len (encT{W} cs)) (* {N} (len cs))))
   (ensures (= (valT{W} (cat (encT{W} cs) rest) (len cs)) (storedT{W} cs)))
   (measure (len cs))
   (hint (use rt-T{W} (drop cs 1) rest) (unfold encT{W} cs)
     (assert (=> (< 0 (len cs)) (= (drop (cat (encT{W} cs) rest) {N}) (cat (encT{W} (drop cs 1)) rest))))
     (assert (=> (< 0 (len cs)) (= (take (cat (encT{W} cs) rest) {N}) ({ENC} (timeOf (at cs 0)))))))
 )
)
; ---- 16-bit storage ----
(macro timeI (cs i) (timeOf (at cs i)))
; smallest time and largest gap among the first k captures, as the encoder computes them
(rec minT ((cs (Seq If)) (k Int)) F64 (ite (<= k 0) inf (minF (minT cs (- k 1)) (timeI cs (- k 1)))))
(rec maxD ((cs (Seq If)) (k Int)) F64
  (ite (<= k 1) -inf (maxF (maxD cs (- k 1)) (fsub (timeI cs (- k 1)) (timeI cs (- k 2))))))
(macro q16 (t cur d) (encBST (fsub t cur) (f64 0.0) d 2))
(macro uq16 (d q) (decBST (f64 0.0) d q))
(rec steps16 ((cs (Seq If)) (i Int) (cur F64) (d F64)) Bytes
  (ite (<= (len cs) i) (empty Bytes)
    (cat (q16 (timeI cs i) cur d) (steps16 cs (+ i 1) (fadd cur (uq16 d (q16 (timeI cs i) cur d))) d))))
(def encT16 ((cs (Seq If))) Bytes
  (cond ((= (len cs) 0) (empty Bytes))
        ((= (len cs) 1) (b32 (minT cs 1)))
        (else (cat (b32 (minT cs (len cs))) (cat (b32 (maxD cs (len cs))) (steps16 cs 1 (minT cs (len cs)) (maxD cs (len cs))))))))
(rec unsteps16 ((s Bytes) (n Int) (cur F64) (d F64)) (Seq F64)
  (ite (<= n 0) (empty (Seq F64))
    (cat (unit (fadd cur (uq16 d (take s 2)))) (unsteps16 (drop s 2) (- n 1) (fadd cur (uq16 d (take s 2))) d))))
(def lenT16 ((n Int)) Int (cond ((<= n 0) 0) ((= n 1) 4) (else (+ 8 (* 2 (- n 1))))))
(def valT16 ((s Bytes) (n Int)) (Seq F64)
  (cond ((<= n 0) (empty (Seq F64)))
        ((= n 1) (unit (u32f s)))
        (else (cat (unit (u32f s)) (unsteps16 (drop s 8) (- n 1) (u32f s) (u32f (drop s 4)))))))
(func format/io.encodeTimeBST16 (params out captures) (results err) (buffer out)
  (requires (noNil captures))
  (ensures ok (= err nil))
  (ensures bytes (= (out out) (cat (old (out out)) (encT16 captures))))
  (loop 0 (vars (startingTime float64) (maxTimeDifference float64))
    (inv start (= startingTime (minT captures $k)))
    (inv gap (= maxTimeDifference (maxD captures $k))))
  (loop 1 (vars (i int) (totalledQuantizedDuration float64) (maxTimeDifference float64) (buffer2Byes []byte))
    (inv count (<= 1 i (len captures)))
    (inv size (= (len buffer2Byes) 2))
    (inv bytes (= (cat (out out) (steps16 captures i totalledQuantizedDuration maxTimeDifference)) (cat (old (out out)) (encT16 captures))))))
(func format/io.decodeTimeBST16 (params in n) (results times err) (reader in)
  (ensures ok (iff (= err nil) (<= (lenT16 n) (len (old (rem in))))))
  (ensures value (=> (= err nil) (= times (valT16 (old (rem in)) n))))
  (ensures rest (=> (= err nil) (= (rem in) (drop (old (rem in)) (lenT16 n)))))
  (loop 0 (vars (i uint64) (captures []float64) (currentTime float64) (maxTimeDifference float32) (buffer []byte))
    (inv count (<= 1 i n))
    (inv size (= (len buffer) 2))
    (inv full (not (short in)))
    (inv ok (<= (lenT16 i) (len (old (rem in)))))
    (inv rest (= (rem in) (drop (old (rem in)) (+ 8 (* 2 (- i 1))))))
    (inv value (= (cat captures (unsteps16 (rem in) (- n i) currentTime (f64of maxTimeDifference))) (valT16 (old (rem in)) n)))))
; ---- technique byte, count, times ----
(def encT ((t Int) (cs (Seq If))) Bytes
  (cond ((= t 0) (encT64 cs)) ((= t 1) (encT32 cs)) ((= t 2) (encT16 cs)) (else (empty Bytes))))
(def encTime ((t Int) (cs (Seq If))) Bytes
  (cat (unit (mod t 256)) (cat (encU (len cs)) (encT t cs))))
(macro lenT (t n) (cond ((= t 0) (* 8 n)) ((= t 1) (* 4 n)) (else (lenT16 n))))
(def cntTime ((s Bytes)) Int (valU (drop s 1)))
(def hdrTime ((s Bytes)) Int (+ 1 (lenU (drop s 1))))
(def lenTime ((s Bytes)) Int (+ (hdrTime s) (lenT (at s 0) (cntTime s))))
(def okTime ((s Bytes)) Bool (and (<= 1 (len s)) (okU (drop s 1)) (<= (at s 0) 2) (<= (lenTime s) (len s))))
(def valTime ((s Bytes)) (Seq F64)
  (cond ((= (at s 0) 0) (valT64 (drop s (hdrTime s)) (cntTime s)))
        ((= (at s 0) 1) (valT32 (drop s (hdrTime s)) (cntTime s)))
        (else (valT16 (drop s (hdrTime s)) (cntTime s)))))
(func format/io.encodeTime (params technique out captures) (results n err) (writer out)
  (requires (noNil captures))
  (ensures ok (=> (!= err nil) (failed out)))
  (ensures bytes (=> (= err nil) (= (out out) (cat (old (out out)) (encTime technique captures)))))
  (ensures count (=> (= err nil) (= n (len (encTime technique captures))))))
(func format/io.decodeTime (params in) (results times err) (reader in)
  (hint-entry (use len-U (drop (rem in) 1) 0))
  (ensures ok (iff (= err nil) (okTime (old (rem in)))))
  (ensures value (=> (= err nil) (= times (valTime (old (rem in))))))
  (ensures rest (=> (= err nil) (= (rem in) (drop (old (rem in)) (lenTime (old (rem in))))))))
; what 16-bit storage keeps of each time: the start as a 32-bit float, then steps
(rec kept16 ((cs (Seq If)) (i Int) (cur F64) (d F64) (cur2 F64) (d2 F64)) (Seq F64)
  (ite (<= (len cs) i) (empty (Seq F64))
    (cat (unit (fadd cur2 (uq16 d2 (q16 (timeI cs i) cur d))))
      (kept16 cs (+ i 1) (fadd cur (uq16 d (q16 (timeI cs i) cur d))) d (fadd cur2 (uq16 d2 (q16 (timeI cs i) cur d))) d2))))
(lemma len-encB ((v F64) (cur F64) (inc F64) (n Int))
  (requires (<= 0 n))
  (ensures (= (len (encB v cur inc n)) n))
  (measure n) (auto (encB v cur inc n))
  (hint (use len-encB v (ecur v cur inc 0) (inc8 inc 0) (- n 1))))
(lemma rt-steps16 ((cs (Seq If)) (i Int) (cur F64) (d F64) (cur2 F64) (d2 F64) (rest Bytes))
  (requires (<= 0 i (len cs)))
  (ensures (= (len (steps16 cs i cur d)) (* 2 (- (len cs) i))))
  (ensures (= (unsteps16 (cat (steps16 cs i cur d) rest) (- (len cs) i) cur2 d2) (kept16 cs i cur d cur2 d2)))
  (measure (- (len cs) i))
  (hint (use rt-steps16 cs (+ i 1) (fadd cur (uq16 d (q16 (timeI cs i) cur d))) d (fadd cur2 (uq16 d2 (q16 (timeI cs i) cur d))) d2 rest)
    (unfold steps16 cs i cur d)
    (assert (=> (< i (len cs)) (= (take (cat (steps16 cs i cur d) rest) 2) (q16 (timeI cs i) cur d))))
    (assert (=> (< i (len cs)) (= (drop (cat (steps16 cs i cur d) rest) 2) (cat (steps16 cs (+ i 1) (fadd cur (uq16 d (q16 (timeI cs i) cur d))) d) rest))))))
(def storedT16 ((cs (Seq If))) (Seq F64)
  (cond ((= (len cs) 0) (empty (Seq F64)))
        ((= (len cs) 1) (unit (near32 (minT cs 1))))
        (else (cat (unit (near32 (minT cs (len cs)))) (kept16 cs 1 (minT cs (len cs)) (maxD cs (len cs)) (near32 (minT cs (len cs))) (near32 (maxD cs (len cs))))))))
(def storedT ((t Int) (cs (Seq If))) (Seq F64)
  (cond ((= t 0) (storedT64 cs)) ((= t 1) (storedT32 cs)) (else (storedT16 cs))))
; the three storage techniques round trip, whatever follows
(lemma rt-T16 ((cs (Seq If)) (rest Bytes))
  (ensures (= (len (encT16 cs)) (lenT16 (len cs))))
  (ensures (= (valT16 (cat (encT16 cs) rest) (len cs)) (storedT16 cs)))
  (hint (use rt-steps16 cs 1 (minT cs (len cs)) (maxD cs (len cs)) (near32 (minT cs (len cs))) (near32 (maxD cs (len cs))) rest)))
(lemma rt-Time ((t Int) (cs (Seq If)) (rest Bytes))
  (requires (<= 0 t 2))
  (ensures (okTime (cat (encTime t cs) rest)))
  (ensures (= (valTime (cat (encTime t cs) rest)) (storedT t cs)))
  (ensures (= (lenTime (cat (encTime t cs) rest)) (len (encTime t cs))))
  (hint (use rt-U (len cs) (cat (encT t cs) rest) 0) (use rt-T64 cs rest) (use rt-T32 cs rest) (use rt-T16 cs rest)
    (assert (= (at (cat (encTime t cs) rest) 0) t))
    (assert (= (drop (cat (encTime t cs) rest) 1) (cat (encU (len cs)) (cat (encT t cs) rest))))
    (assert (= (hdrTime (cat (encTime t cs) rest)) (+ 1 (len (encU (len cs))))))
    (assert (= (cntTime (cat (encTime t cs) rest)) (len cs)))
    (assert (= (len (encT t cs)) (lenT t (len cs))))
    (assert (= (drop (cat (encTime t cs) rest) (+ 1 (len (encU (len cs))))) (cat (encT t cs) rest)))))
; ---- C04 for 16-bit storage, in exact arithmetic ----
; one stored step: at most d/2^17 off, more only by what lies outside [0, d]
(lemma q16-err ((t F64) (cur F64) (d F64)) (real)
  (requires (<= (real 0.0) (rv d)))
  (ensures (<= (rabs (- (- (rv t) (rv cur)) (rv (uq16 d (q16 t cur d)))))
     (+ (/ (rv d) (real 131072.0)) (+ (rmax0 (- (rv cur) (rv t))) (rmax0 (- (- (rv t) (rv cur)) (rv d)))))))
  (hint (use bst16-err (fsub t cur) (f64 0.0) d) (use rt-B-real (fsub t cur) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 2)))
(lemma uq16-range ((q Bytes) (d F64)) (real)
  (requires (= (len q) 2)) (requires (<= (real 0.0) (rv d)))
  (ensures (<= (real 0.0) (rv (uq16 d q)) (rv d)))
  (hint (use dcur-in (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 0)
    (use dcur-in (at q 1) (dcur (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0) 0)
    (unfold decB q (bstMid (f64 0.0) d) (fdiv d (f64 4.0)))
    (unfold decB (drop q 1) (dcur (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0))
    (unfold decB (drop q 2) (dcur (at q 1) (dcur (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0) 0) (inc8 (inc8 (fdiv d (f64 4.0)) 0) 0))))
(lemma uq16-near ((q Bytes) (d F64) (d2 F64)) (real)
  (requires (= (len q) 2))
  (ensures (<= (rabs (- (rv (uq16 d q)) (rv (uq16 d2 q)))) (rabs (- (rv d) (rv d2)))))
  (hint (use dcur-near (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) (bstMid (f64 0.0) d2) (fdiv d2 (f64 4.0)) 0)
    (use dcur-near (at q 1) (dcur (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0)
       (dcur (at q 0) (bstMid (f64 0.0) d2) (fdiv d2 (f64 4.0)) 0) (inc8 (fdiv d2 (f64 4.0)) 0) 0)
    (unfold decB q (bstMid (f64 0.0) d) (fdiv d (f64 4.0)))
    (unfold decB (drop q 1) (dcur (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0))
    (unfold decB (drop q 2) (dcur (at q 1) (dcur (at q 0) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0) 0) (inc8 (inc8 (fdiv d (f64 4.0)) 0) 0))
    (unfold decB q (bstMid (f64 0.0) d2) (fdiv d2 (f64 4.0)))
    (unfold decB (drop q 1) (dcur (at q 0) (bstMid (f64 0.0) d2) (fdiv d2 (f64 4.0)) 0) (inc8 (fdiv d2 (f64 4.0)) 0))
    (unfold decB (drop q 2) (dcur (at q 1) (dcur (at q 0) (bstMid (f64 0.0) d2) (fdiv d2 (f64 4.0)) 0) (inc8 (fdiv d2 (f64 4.0)) 0) 0) (inc8 (inc8 (fdiv d2 (f64 4.0)) 0) 0))))
; the loaded times: never decreasing, and each at most `step` further off than the one before
(rec within ((vals (Seq F64)) (cs (Seq If)) (i Int) (bound Real) (step Real) (prev F64)) Bool
  (or (<= (len cs) i)
    (and (<= (rv prev) (rv (at vals 0)))
         (<= (rabs (- (rv (at vals 0)) (rv (timeI cs i)))) (+ bound step))
         (within (drop vals 1) cs (+ i 1) (+ bound step) step (at vals 0)))))
(lemma kept16-near ((cs (Seq If)) (i Int) (cur F64) (d F64) (cur2 F64) (d2 F64) (a Real) (b Real)) (real)
  (requires (<= 1 i (len cs)))
  (requires (<= (real 0.0) (rv d))) (requires (<= (real 0.0) (rv d2)))
  (requires (forall ((j Int) (h Int)) (:pat (at cs j) (at cs h)) (=> (= h (- j 1)) (<= 1 j) (< j (len cs))
     (<= (real 0.0) (- (rv (timeI cs j)) (rv (timeI cs h))) (rv d)))))
  (requires (<= (rabs (- (rv cur) (rv (timeI cs (- i 1))))) a))
  (requires (<= (rabs (- (rv cur2) (rv cur))) b))
  (ensures (within (kept16 cs i cur d cur2 d2) cs i (+ a b) (+ (/ (rv d) (real 131072.0)) (rabs (- (rv d) (rv d2)))) cur2))
  (measure (- (len cs) i))
  (hint (use q16-err (timeI cs i) cur d)
    (use uq16-range (q16 (timeI cs i) cur d) d2)
    (use uq16-near (q16 (timeI cs i) cur d) d d2)
    (use rt-B-real (fsub (timeI cs i) cur) (bstMid (f64 0.0) d) (fdiv d (f64 4.0)) 2)
    (unfold kept16 cs i cur d cur2 d2)
    (assert (=> (< i (len cs)) (= (at (kept16 cs i cur d cur2 d2) 0) (fadd cur2 (uq16 d2 (q16 (timeI cs i) cur d))))))
    (assert (=> (< i (len cs)) (= (drop (kept16 cs i cur d cur2 d2) 1) (kept16 cs (+ i 1) (fadd cur (uq16 d (q16 (timeI cs i) cur d))) d (fadd cur2 (uq16 d2 (q16 (timeI cs i) cur d))) d2))))
    (use kept16-near cs (+ i 1) (fadd cur (uq16 d (q16 (timeI cs i) cur d))) d (fadd cur2 (uq16 d2 (q16 (timeI cs i) cur d))) d2
       (+ a (/ (rv d) (real 131072.0))) (+ b (rabs (- (rv d) (rv d2)))))))
; start and largest gap are what the 16-bit encoder takes them for
(lemma minT-sorted ((cs (Seq If)) (k Int))
  (requires (<= 1 k (len cs)))
  (requires (forall ((j Int)) (:pat (at cs j)) (=> (<= 0 j) (< j (len cs)) (isreal (timeI cs j)))))
  (requires (forall ((j Int) (h Int)) (:pat (at cs j) (at cs h)) (=> (= h (- j 1)) (<= 1 j) (< j (len cs)) (fle (timeI cs h) (timeI cs j)))))
  (ensures (feq (minT cs k) (timeI cs 0))) (ensures (fle (timeI cs 0) (timeI cs (- k 1))))
  (measure k)
  (hint (use minT-sorted cs (- k 1)) (unfold minT cs k) (unfold minT cs (- k 1))))
(lemma maxD-real ((cs (Seq If)) (k Int))
  (requires (<= k (len cs)))
  (requires (forall ((j Int) (h Int)) (:pat (at cs j) (at cs h)) (=> (= h (- j 1)) (<= 1 j) (< j (len cs)) (isreal (fsub (timeI cs j) (timeI cs h))))))
  (ensures (isreal (maxD cs k)))
  (measure k)
  (hint (unfold maxD cs k) (use maxD-real cs (- k 1))))
(lemma maxD-bounds ((cs (Seq If)) (k Int) (j Int))
  (requires (<= 1 j)) (requires (< j k)) (requires (<= k (len cs)))
  (requires (forall ((j Int) (h Int)) (:pat (at cs j) (at cs h)) (=> (= h (- j 1)) (<= 1 j) (< j (len cs)) (isreal (fsub (timeI cs j) (timeI cs h))))))
  (ensures (fle (fsub (timeI cs j) (timeI cs (- j 1))) (maxD cs k)))
  (measure k)
  (hint (unfold maxD cs k) (use maxD-real cs (- k 1)) (use maxD-bounds cs (- k 1) j)))

(property C04 (roots format/io.encodeTime format/io.decodeTime)
  (lemmas rt-Time kept16-near minT-sorted maxD-bounds))
