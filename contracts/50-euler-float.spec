; ---- 16-bit rotations ----
(def wrapE ((a F64)) F64 (fsub a (fmul (f64 360.0) (sym f64.floor F64 (fdiv a (f64 360.0))))))
(macro q360 (a) (encBST (wrapE a) (f64 0.0) (f64 360.0) 2))
(macro uq360 (s) (decBST (f64 0.0) (f64 360.0) (take s 2)))
(macro angI (cs i) (. (at cs i) euler))
(rec stepsE ((cs (Seq format/collection/euler.Capture))) Bytes
  (ite (= (len cs) 0) (empty Bytes)
    (cat (q360 (. (angI cs 0) x)) (cat (q360 (. (angI cs 0) y)) (cat (q360 (. (angI cs 0) z)) (stepsE (drop cs 1)))))))
(def enceuler16 ((cs (Seq format/collection/euler.Capture))) Bytes
  (ite (= (len cs) 1) (cat (b32 (wrapE (. (angI cs 0) x))) (cat (b32 (wrapE (. (angI cs 0) y))) (b32 (wrapE (. (angI cs 0) z))))) (stepsE cs)))
(rec unstepsE ((s Bytes) (ts (Seq F64))) (Seq format/collection/euler.Capture)
  (ite (= (len ts) 0) (empty (Seq format/collection/euler.Capture))
    (cat (unit (mk format/collection/euler.Capture (at ts 0) (mk github.com/EliCDavis/vector/vector3.Vector[float64] (uq360 s) (uq360 (drop s 2)) (uq360 (drop s 4)))))
      (unstepsE (drop s 6) (drop ts 1)))))
(def valeuler16 ((s Bytes) (ts (Seq F64))) (Seq format/collection/euler.Capture)
  (ite (= (len ts) 1) (unit (mk format/collection/euler.Capture (at ts 0) (u32v s))) (unstepsE s ts)))
(macro leneuler16 (n) (ite (= n 1) 12 (* 6 n)))
(func format/encoding/euler.encodeRaw16 (params cs) (results b)
  (hint (unfold enceuler16 cs) (unfold stepsE cs))
  (ensures bytes (= b (enceuler16 cs)))
  (loop 0 (vars (streamData *bytes.Buffer) (buffer2Byes []byte))
    (inv size (= (len buffer2Byes) 2))
    (inv bytes (= (cat (out streamData) (stepsE (drop cs $k))) (enceuler16 cs)))))
(func format/encoding/euler.decodeRaw16 (params in times) (results captures err) (modifies in)
  (ensures value (=> (<= (leneuler16 (len times)) (len (old (rem in)))) (and (= err nil) (= captures (valeuler16 (old (rem in)) times)))))
  (loop 0 (vars (captures (Seq format/collection/euler.Capture)) (i int) (buffer []byte))
    (inv count (<= 0 i (len times)))
    (inv size (and (= (len captures) (len times)) (= (len buffer) 2)))
    (inv rest (=> (<= (* 6 (len times)) (len (old (rem in)))) (= (rem in) (drop (old (rem in)) (* 6 i)))))
    (inv value (=> (<= (* 6 (len times)) (len (old (rem in))))
      (= (cat (take captures i) (unstepsE (rem in) (drop times i))) (valeuler16 (old (rem in)) times))))))
; what 16-bit storage keeps of an angle
(def keepE ((a F64)) F64 (decBST (f64 0.0) (f64 360.0) (q360 a)))
(rec keptE ((cs (Seq format/collection/euler.Capture)) (ts (Seq F64))) (Seq format/collection/euler.Capture)
  (ite (= (len cs) 0) (empty (Seq format/collection/euler.Capture))
    (cat (unit (mk format/collection/euler.Capture (at ts 0) (mk github.com/EliCDavis/vector/vector3.Vector[float64] (keepE (. (angI cs 0) x)) (keepE (. (angI cs 0) y)) (keepE (. (angI cs 0) z)))))
      (keptE (drop cs 1) (drop ts 1)))))
(def stored-euler16 ((cs (Seq format/collection/euler.Capture)) (ts (Seq F64))) (Seq format/collection/euler.Capture)
  (ite (= (len cs) 1) (unit (mk format/collection/euler.Capture (at ts 0) (mk github.com/EliCDavis/vector/vector3.Vector[float64]
       (near32 (wrapE (. (angI cs 0) x))) (near32 (wrapE (. (angI cs 0) y))) (near32 (wrapE (. (angI cs 0) z))))))
    (keptE cs ts)))
(lemma len-q360 ((a F64)) (ensures (= (len (q360 a)) 2)) (hint (use len-encB (wrapE a) (bstMid (f64 0.0) (f64 360.0)) (fdiv (f64 360.0) (f64 4.0)) 2)))
(lemma rt-stepsE ((cs (Seq format/collection/euler.Capture)) (ts (Seq F64)) (rest Bytes))
  (requires (= (len ts) (len cs)))
  (ensures (= (len (stepsE cs)) (* 6 (len cs))))
  (ensures (= (unstepsE (cat (stepsE cs) rest) ts) (keptE cs ts)))
  (measure (len cs))
  (hint (use rt-stepsE (drop cs 1) (drop ts 1) rest) (unfold stepsE cs)
    (use len-q360 (. (angI cs 0) x)) (use len-q360 (. (angI cs 0) y)) (use len-q360 (. (angI cs 0) z))
    (assert (=> (< 0 (len cs)) (= (take (cat (stepsE cs) rest) 2) (q360 (. (angI cs 0) x)))))
    (assert (=> (< 0 (len cs)) (= (take (drop (cat (stepsE cs) rest) 2) 2) (q360 (. (angI cs 0) y)))))
    (assert (=> (< 0 (len cs)) (= (take (drop (cat (stepsE cs) rest) 4) 2) (q360 (. (angI cs 0) z)))))
    (assert (=> (< 0 (len cs)) (= (drop (cat (stepsE cs) rest) 6) (cat (stepsE (drop cs 1)) rest))))))
(lemma rt-euler16 ((cs (Seq format/collection/euler.Capture)) (ts (Seq F64)) (rest Bytes))
  (requires (= (len ts) (len cs)))
  (ensures (= (len (enceuler16 cs)) (leneuler16 (len cs))))
  (ensures (= (valeuler16 (cat (enceuler16 cs) rest) ts) (stored-euler16 cs ts)))
  (hint (use rt-stepsE cs ts rest) (unfold enceuler16 cs)))
; in exact arithmetic: within 360/2^17 of the angle less whole turns
(lemma wrap-range ((a F64)) (real)
  (ensures (<= (real 0.0) (rv (wrapE a)) (real 360.0)))
  (ensures (= (rv a) (+ (rv (wrapE a)) (* (real 360.0) (rv (sym f64.floor F64 (fdiv a (f64 360.0)))))))))
(lemma keepE-near ((a F64)) (real)
  (ensures (<= (rabs (- (rv (keepE a)) (- (rv a) (* (real 360.0) (rv (sym f64.floor F64 (fdiv a (f64 360.0)))))))) (/ (real 360.0) (real 131072.0))))
  (hint (use wrap-range a) (use bst16-err (wrapE a) (f64 0.0) (f64 360.0)) (use rt-B-real (wrapE a) (bstMid (f64 0.0) (f64 360.0)) (fdiv (f64 360.0) (f64 4.0)) 2)))
; ---- numbers ----
(def allFloat ((cs (Seq If))) Bool
  (forall ((i Int)) (:pat (at cs i)) (=> (<= 0 i) (< i (len cs)) (is format/collection/float.Capture (at cs i)))))
(macro numI (cs i) (. (unbox format/collection/float.Capture (at cs i)) x))
(foreach (W N ENC DEC KEEP DECF) ((64 8 b64 u64f id3 decodeRaw64) (32 4 b32 u32f near32 decodeRaw32))
 (rec encfloat{W} ((cs (Seq If))) Bytes
   (ite (= (len cs) 0) (empty Bytes) (cat ({ENC} (numI cs 0)) (encfloat{W} (drop cs 1)))))
 (rec valfloat{W} ((s Bytes) (ts (Seq F64))) (Seq format/collection/float.Capture)
   (ite (= (len ts) 0) (empty (Seq format/collection/float.Capture))
     (cat (unit (mk format/collection/float.Capture (at ts 0) ({DEC} s))) (valfloat{W} (drop s {N}) (drop ts 1)))))
 (rec keptfloat{W} ((cs (Seq If)) (ts (Seq F64))) (Seq format/collection/float.Capture)
   (ite (= (len cs) 0) (empty (Seq format/collection/float.Capture))
     (cat (unit (mk format/collection/float.Capture (at ts 0) ({KEEP} (numI cs 0)))) (keptfloat{W} (drop cs 1) (drop ts 1)))))
 (macro lenfloat{W} (n) (* {N} n))
 (func format/encoding/float.encode{W} (params out captures) (results err) (buffer out)
   (ensures ok (iff (= err nil) (allFloat captures)))
   (ensures bytes (=> (= err nil) (= (out out) (cat (old (out out)) (encfloat{W} captures)))))
   (loop 0
     (inv kinds (forall ((j Int)) (:pat (at captures j)) (=> (<= 0 j) (< j $k) (is format/collection/float.Capture (at captures j)))))
     (inv bytes (= (cat (out out) (encfloat{W} (drop captures $k))) (cat (old (out out)) (encfloat{W} captures))))))
 (func format/encoding/float.{DECF} (params in times) (results captures) (exact in)
   (requires (not (short in)))
   (ensures ok (iff (short in) (< (len (old (rem in))) (lenfloat{W} (len times)))))
   (ensures value (=> (not (short in)) (and (= captures (valfloat{W} (old (rem in)) times)) (= (rem in) (drop (old (rem in)) (lenfloat{W} (len times)))))))
   (loop 0 (vars (captures (Seq format/collection/float.Capture)))
     (inv size (= (len captures) (len times)))
     (inv ends (=> (short in) (= (len (rem in)) 0)))
     (inv ok (iff (short in) (< (len (old (rem in))) (lenfloat{W} $k))))
     (inv rest (=> (not (short in)) (= (rem in) (drop (old (rem in)) (lenfloat{W} $k)))))
     (inv value (=> (not (short in)) (= (cat (take captures $k) (valfloat{W} (rem in) (drop times $k))) (valfloat{W} (old (rem in)) times))))))
 (lemma rt-float{W} ((cs (Seq If)) (ts (Seq F64)) (rest Bytes))
   (requires (= (len ts) (len cs)))
   (ensures (= (len (encfloat{W} cs)) (lenfloat{W} (len cs))))
   (ensures (= (valfloat{W} (cat (encfloat{W} cs) rest) ts) (keptfloat{W} cs ts)))
   (measure (len cs))
   (hint (use rt-float{W} (drop cs 1) (drop ts 1) rest) (unfold encfloat{W} cs)))
)
(rec maxN ((cs (Seq If)) (k Int)) F64 (ite (<= k 0) -inf (ite (flt (maxN cs (- k 1)) (numI cs (- k 1))) (numI cs (- k 1)) (maxN cs (- k 1)))))
(rec minN ((cs (Seq If)) (k Int)) F64 (ite (<= k 0) inf (ite (flt (numI cs (- k 1)) (minN cs (- k 1))) (numI cs (- k 1)) (minN cs (- k 1)))))
(rec stepsN ((cs (Seq If)) (mn F64) (d F64)) Bytes
  (ite (= (len cs) 0) (empty Bytes) (cat (encBST (numI cs 0) mn d 2) (stepsN (drop cs 1) mn d))))
(def encfloat16 ((cs (Seq If))) Bytes
  (cat (b32 (minN cs (len cs))) (cat (b32 (maxN cs (len cs))) (stepsN cs (minN cs (len cs)) (fsub (maxN cs (len cs)) (minN cs (len cs)))))))
(macro f32b (s) (sym f32.frombits F32 (sym unle4 Int (take s 4))))
(rec unstepsN ((s Bytes) (ts (Seq F64)) (mn F64) (d F64)) (Seq format/collection/float.Capture)
  (ite (= (len ts) 0) (empty (Seq format/collection/float.Capture))
    (cat (unit (mk format/collection/float.Capture (at ts 0) (decBST mn d (take s 2)))) (unstepsN (drop s 2) (drop ts 1) mn d))))
(def valfloat16 ((s Bytes) (ts (Seq F64))) (Seq format/collection/float.Capture)
  (unstepsN (drop s 8) ts (f64of (f32b s)) (f64of (fsub (f32b (drop s 4)) (f32b s)))))
(macro lenfloat16 (n) (+ 8 (* 2 n)))
(func format/encoding/float.encodeBST16 (params out captures) (results err) (buffer out)
   (ensures ok (iff (= err nil) (allFloat captures)))
   (ensures bytes (=> (= err nil) (= (out out) (cat (old (out out)) (encfloat16 captures)))))
   (loop 0 (vars (minVal float64) (maxVal float64))
     (inv kinds (forall ((j Int)) (:pat (at captures j)) (=> (<= 0 j) (< j $k) (is format/collection/float.Capture (at captures j)))))
     (inv min (= minVal (minN captures $k)))
     (inv max (= maxVal (maxN captures $k))))
   (loop 1 (vars (minVal float64) (maxVal float64) (valBuffer []byte))
     (inv kinds (allFloat captures))
     (inv size (= (len valBuffer) 2))
     (inv bytes (= (cat (out out) (stepsN (drop captures $k) minVal (fsub maxVal minVal))) (cat (old (out out)) (encfloat16 captures))))))
(func format/encoding/float.decodeBST16 (params in times) (results captures) (exact in)
   (requires (not (short in)))
   (ensures ok (iff (short in) (< (len (old (rem in))) (lenfloat16 (len times)))))
   (ensures value (=> (not (short in)) (and (= captures (valfloat16 (old (rem in)) times)) (= (rem in) (drop (old (rem in)) (lenfloat16 (len times)))))))
   (loop 0 (vars (captures (Seq format/collection/float.Capture)) (buffer []byte) (min float32) (max float32))
     (inv size (and (= (len captures) (len times)) (= (len buffer) 2)))
     (inv ends (=> (short in) (= (len (rem in)) 0)))
     (inv ok (iff (short in) (< (len (old (rem in))) (lenfloat16 $k))))
     (inv rest (=> (not (short in)) (= (rem in) (drop (old (rem in)) (lenfloat16 $k)))))
     (inv value (=> (not (short in)) (= (cat (take captures $k) (unstepsN (rem in) (drop times $k) (f64of min) (f64of (fsub max min)))) (valfloat16 (old (rem in)) times))))))
(rec keptN ((cs (Seq If)) (ts (Seq F64)) (mn F64) (d F64) (mn2 F64) (d2 F64)) (Seq format/collection/float.Capture)
   (ite (= (len cs) 0) (empty (Seq format/collection/float.Capture))
     (cat (unit (mk format/collection/float.Capture (at ts 0) (decBST mn2 d2 (encBST (numI cs 0) mn d 2)))) (keptN (drop cs 1) (drop ts 1) mn d mn2 d2))))
(macro rngN (cs) (fsub (maxN cs (len cs)) (minN cs (len cs))))
(macro rngN2 (cs) (f64of (fsub (f32of (maxN cs (len cs))) (f32of (minN cs (len cs))))))
(def keptfloat16 ((cs (Seq If)) (ts (Seq F64))) (Seq format/collection/float.Capture)
   (keptN cs ts (minN cs (len cs)) (rngN cs) (near32 (minN cs (len cs))) (rngN2 cs)))
(lemma rt-stepsN ((cs (Seq If)) (ts (Seq F64)) (mn F64) (d F64) (mn2 F64) (d2 F64) (rest Bytes))
   (requires (= (len ts) (len cs)))
   (ensures (= (len (stepsN cs mn d)) (* 2 (len cs))))
   (ensures (= (unstepsN (cat (stepsN cs mn d) rest) ts mn2 d2) (keptN cs ts mn d mn2 d2)))
   (measure (len cs))
   (hint (use rt-stepsN (drop cs 1) (drop ts 1) mn d mn2 d2 rest) (unfold stepsN cs mn d)
     (assert (=> (< 0 (len cs)) (= (take (cat (stepsN cs mn d) rest) 2) (encBST (numI cs 0) mn d 2))))
     (assert (=> (< 0 (len cs)) (= (drop (cat (stepsN cs mn d) rest) 2) (cat (stepsN (drop cs 1) mn d) rest))))))
(lemma rt-float16 ((cs (Seq If)) (ts (Seq F64)) (rest Bytes))
   (requires (= (len ts) (len cs)))
   (ensures (= (len (encfloat16 cs)) (lenfloat16 (len cs))))
   (ensures (= (valfloat16 (cat (encfloat16 cs) rest) ts) (keptfloat16 cs ts)))
   (hint (use rt-stepsN cs ts (minN cs (len cs)) (rngN cs) (near32 (minN cs (len cs))) (rngN2 cs) rest) (unfold encfloat16 cs)
     (unfold valfloat16 (cat (b32 (minN cs (len cs))) (cat (b32 (maxN cs (len cs))) (cat (stepsN cs (minN cs (len cs)) (rngN cs)) rest))) ts)
     (assert (= (cat (encfloat16 cs) rest) (cat (b32 (minN cs (len cs))) (cat (b32 (maxN cs (len cs))) (cat (stepsN cs (minN cs (len cs)) (rngN cs)) rest)))))))
; in exact arithmetic: within (max-min)/2^17, and what rounding the range adds
(lemma bst16-near ((q Bytes) (s F64) (d F64) (s2 F64) (d2 F64)) (real)
  (requires (= (len q) 2))
  (ensures (<= (rabs (- (rv (decBST s d q)) (rv (decBST s2 d2 q)))) (+ (rabs (- (rv s) (rv s2))) (rabs (- (rv d) (rv d2))))))
  (hint (use dcur-near (at q 0) (bstMid s d) (fdiv d (f64 4.0)) (bstMid s2 d2) (fdiv d2 (f64 4.0)) 0)
    (use dcur-near (at q 1) (dcur (at q 0) (bstMid s d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0)
       (dcur (at q 0) (bstMid s2 d2) (fdiv d2 (f64 4.0)) 0) (inc8 (fdiv d2 (f64 4.0)) 0) 0)
    (unfold decB q (bstMid s d) (fdiv d (f64 4.0)))
    (unfold decB (drop q 1) (dcur (at q 0) (bstMid s d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0))
    (unfold decB (drop q 2) (dcur (at q 1) (dcur (at q 0) (bstMid s d) (fdiv d (f64 4.0)) 0) (inc8 (fdiv d (f64 4.0)) 0) 0) (inc8 (inc8 (fdiv d (f64 4.0)) 0) 0))
    (unfold decB q (bstMid s2 d2) (fdiv d2 (f64 4.0)))
    (unfold decB (drop q 1) (dcur (at q 0) (bstMid s2 d2) (fdiv d2 (f64 4.0)) 0) (inc8 (fdiv d2 (f64 4.0)) 0))
    (unfold decB (drop q 2) (dcur (at q 1) (dcur (at q 0) (bstMid s2 d2) (fdiv d2 (f64 4.0)) 0) (inc8 (fdiv d2 (f64 4.0)) 0) 0) (inc8 (inc8 (fdiv d2 (f64 4.0)) 0) 0))))
(lemma keptN-near ((v F64) (mn F64) (mx F64) (mn2 F64) (d2 F64)) (real)
  (requires (<= (rv mn) (rv v) (rv mx)))
  (ensures (<= (rabs (- (rv v) (rv (decBST mn2 d2 (encBST v mn (fsub mx mn) 2)))))
     (+ (/ (- (rv mx) (rv mn)) (real 131072.0)) (+ (rabs (- (rv mn) (rv mn2))) (rabs (- (- (rv mx) (rv mn)) (rv d2)))))))
  (hint (use bst16-err v mn (fsub mx mn)) (use rt-B-real v (bstMid mn (fsub mx mn)) (fdiv (fsub mx mn) (f64 4.0)) 2)
    (use bst16-near (encBST v mn (fsub mx mn) 2) mn (fsub mx mn) mn2 d2)))
(lemma maxN-bounds ((cs (Seq If)) (k Int) (j Int))
  (requires (<= 0 j)) (requires (< j k)) (requires (<= k (len cs)))
  (requires (forall ((j Int)) (:pat (at cs j)) (=> (<= 0 j) (< j (len cs)) (isreal (numI cs j)))))
  (ensures (isreal (maxN cs k))) (ensures (isreal (minN cs k)))
  (ensures (fle (numI cs j) (maxN cs k))) (ensures (fle (minN cs k) (numI cs j)))
  (measure k)
  (hint (unfold maxN cs k) (unfold minN cs k) (use maxN-bounds cs (- k 1) j) (use maxN-bounds cs (- k 1) (- k 2))
    (unfold maxN cs 0) (unfold minN cs 0)))
