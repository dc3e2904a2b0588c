; ---- a prefix that is accepted means what the whole means, and reaches no further ----
(lemma td ((s Bytes) (k Int) (n Int)) (requires (<= 0 n k)) (requires (<= k (len s)))
  (ensures (= (drop (take s k) n) (take (drop s n) (- k n)))) (ensures (= (len (drop s n)) (- (len s) n))))
(foreach (W N DEC) ((64 8 u64f) (32 4 u32f))
 (lemma pre-T{W} ((s Bytes) (k Int) (n Int)) (requires (<= 0 k (len s))) (requires (<= (* {N} n) k))
  (ensures (= (valT{W} (take s k) n) (valT{W} s n))) (measure (ite (<= 0 n) n 0))
  (hint (use td s k {N}) (use pre-T{W} (drop s {N}) (- k {N}) (- n 1)) (unfold valT{W} s n) (unfold valT{W} (take s k) n)
    (assert (=> (< 0 n) (= (take (take s k) {N}) (take s {N})))))))
(lemma pre-steps16 ((s Bytes) (k Int) (n Int) (cur F64) (d F64)) (requires (<= 0 k (len s))) (requires (<= (* 2 n) k))
  (ensures (= (unsteps16 (take s k) n cur d) (unsteps16 s n cur d))) (measure (ite (<= 0 n) n 0))
  (hint (use td s k 2) (assert (=> (< 0 n) (= (take (take s k) 2) (take s 2)))) (unfold unsteps16 s n cur d) (unfold unsteps16 (take s k) n cur d)
     (use pre-steps16 (drop s 2) (- k 2) (- n 1) (fadd cur (uq16 d (take s 2))) d)))
(lemma pre-T16 ((s Bytes) (k Int) (n Int)) (requires (<= 0 k (len s))) (requires (<= (lenT16 n) k))
  (ensures (= (valT16 (take s k) n) (valT16 s n)))
  (hint (use td s k 8) (use td s k 4) (assert (=> (< 0 n) (= (take (take s k) 4) (take s 4))))
     (assert (=> (< 1 n) (= (take (take (drop s 4) (- k 4)) 4) (take (drop s 4) 4))))
     (use pre-steps16 (drop s 8) (- k 8) (- n 1) (u32f s) (u32f (drop s 4)))))
(lemma pre-Time ((s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okTime (take s k)))
  (ensures (okTime s)) (ensures (= (valTime (take s k)) (valTime s))) (ensures (= (lenTime (take s k)) (lenTime s))) (ensures (<= 2 (lenTime s) k))
  (hint (use td s k 1) (assert (= (at (take s k) 0) (at s 0))) (use pre-U (drop s 1) (- k 1) 0) (use len-U (drop s 1) 0)
    (assert (= (hdrTime (take s k)) (hdrTime s))) (assert (= (cntTime (take s k)) (cntTime s)))
    (assert (= (lenTime (take s k)) (lenTime s)))
    (use td s k (hdrTime s))
    (use pre-T64 (drop s (hdrTime s)) (- k (hdrTime s)) (cntTime s))
    (use pre-T32 (drop s (hdrTime s)) (- k (hdrTime s)) (cntTime s))
    (use pre-T16 (drop s (hdrTime s)) (- k (hdrTime s)) (cntTime s))))
(lemma pre-M ((K (Seq Bytes)) (s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okM K (take s k)))
  (opaque okPs valPs lenPs okUA lenUA valUA idsL keysL)
  (ensures (okM K s)) (ensures (= (valM K (take s k)) (valM K s))) (ensures (= (lenM (take s k)) (lenM s))) (ensures (<= 1 (lenM s) k))
  (hint (use pre-UA s k) (use len-UA s) (use td s k (lenUA s)) (use pre-Ps (mBody s) (- k (lenUA s)) (keysL K (mIds s)) (noProps))))
(lemma pre-Stream ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okStream K E H (take s k)))
  (opaque okUd valU lenU okS valS lenS okTime valTime lenTime)
  (ensures (okStream K E H s)) (ensures (= (valStream K E H (take s k)) (valStream K E H s))) (ensures (= (lenStream (take s k)) (lenStream s))) (ensures (<= 1 (lenStream s) k))
  (hint (use pre-U s k 0) (use len-U s 0) (use len-U (take s k) 0) (use td s k (lenU s)) (assert (= (s1 (take s k)) (take (s1 s) (- k (lenU s)))))
    (use pre-S (s1 s) (- k (lenU s))) (use len-S (s1 s)) (use td (s1 s) (- k (lenU s)) (lenS (s1 s)))
    (assert (= (s2 (take s k)) (take (s2 s) (- k (+ (lenU s) (lenS (s1 s)))))))
    (use pre-Time (s2 s) (- k (+ (lenU s) (lenS (s1 s))))) (use td (s2 s) (- k (+ (lenU s) (lenS (s1 s)))) (lenTime (s2 s)))
    (assert (= (s3 (take s k)) (take (s3 s) (- k (+ (lenU s) (lenS (s1 s)) (lenTime (s2 s)))))))
    (use pre-S (s3 s) (- k (+ (lenU s) (lenS (s1 s)) (lenTime (s2 s))))) (use len-S (s3 s))))
(lemma pre-Ref ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okRef K E H (take s k)))
  (opaque okUd valU lenU okS valS lenS okM valM lenM)
  (ensures (okRef K E H s)) (ensures (= (valRef K E H (take s k)) (valRef K E H s))) (ensures (= (lenRef (take s k)) (lenRef s))) (ensures (<= 1 (lenRef s) k))
  (hint (use pre-S s k) (use len-S s) (use td s k (lenS s)) (assert (= (f1 (take s k)) (take (f1 s) (- k (lenS s)))))
    (use pre-S (f1 s) (- k (lenS s))) (use len-S (f1 s)) (use td (f1 s) (- k (lenS s)) (lenS (f1 s)))
    (assert (= (f2 (take s k)) (take (f2 s) (- k (+ (lenS s) (lenS (f1 s)))))))
    (use pre-U (f2 s) (- k (+ (lenS s) (lenS (f1 s)))) 0) (use len-U (f2 s) 0) (use len-U (take (f2 s) (- k (+ (lenS s) (lenS (f1 s))))) 0) (use td (f2 s) (- k (+ (lenS s) (lenS (f1 s)))) (lenU (f2 s)))
    (assert (= (f3 (take s k)) (take (f3 s) (- k (+ (lenS s) (lenS (f1 s)) (lenU (f2 s)))))))
    (use pre-M K (f3 s) (- k (+ (lenS s) (lenS (f1 s)) (lenU (f2 s)))))))
(lemma pre-Bin ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okBin K E H (take s k)))
  (opaque okUd valU lenU okS valS lenS okM valM lenM)
  (ensures (okBin K E H s)) (ensures (= (valBin K E H (take s k)) (valBin K E H s))) (ensures (= (lenBin (take s k)) (lenBin s))) (ensures (<= 1 (lenBin s) k))
  (hint (use pre-S s k) (use len-S s) (use td s k (lenS s)) (assert (= (f1 (take s k)) (take (f1 s) (- k (lenS s)))))
    (use pre-U (f1 s) (- k (lenS s)) 0) (use len-U (f1 s) 0) (use len-U (take (f1 s) (- k (lenS s))) 0) (use td (f1 s) (- k (lenS s)) (lenU (f1 s)))
    (assert (= (b2 (take s k)) (take (b2 s) (- k (+ (lenS s) (lenU (f1 s)))))))
    (use pre-M K (b2 s) (- k (+ (lenS s) (lenU (f1 s))))) (use td (b2 s) (- k (+ (lenS s) (lenU (f1 s)))) (lenM (b2 s)))
    (assert (= (b3 (take s k)) (take (b3 s) (- k (+ (lenS s) (lenU (f1 s)) (lenM (b2 s)))))))
    (assert (= (take (take (b3 s) (- k (+ (lenS s) (lenU (f1 s)) (lenM (b2 s))))) (valU (f1 s))) (take (b3 s) (valU (f1 s)))))))
(foreach (X) ((Stream) (Ref) (Bin))
 (lemma pre-{X}s ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (k Int) (n Int)) (requires (<= 0 k (len s))) (requires (ok{X}s K E H (take s k) n))
  (opaque ok{X} val{X} len{X})
  (ensures (ok{X}s K E H s n)) (ensures (= (val{X}s K E H (take s k) n) (val{X}s K E H s n))) (ensures (= (len{X}s (take s k) n) (len{X}s s n))) (ensures (<= 0 (len{X}s s n) k))
  (measure (ite (<= 0 n) n 0))
  (hint (use pre-{X} K E H s k) (use td s k (len{X} s)) (use pre-{X}s K E H (drop s (len{X} s)) (- k (len{X} s)) (- n 1))
    (unfold ok{X}s K E H s n) (unfold ok{X}s K E H (take s k) n) (unfold val{X}s K E H s n) (unfold val{X}s K E H (take s k) n) (unfold len{X}s s n) (unfold len{X}s (take s k) n))))
(macro q1 (s) (lenS s)) (macro q2 (s) (+ (q1 s) (lenS (r1 s)))) (macro q3 (s) (+ (q2 s) (lenM (r2 s)))) (macro q4 (s) (+ (q3 s) (lenU (r3 s))))
(macro q5 (s) (+ (q4 s) (lenStreams (r4 s) (valU (r3 s))))) (macro q6 (s) (+ (q5 s) (lenU (r5 s)))) (macro q7 (s) (+ (q6 s) (lenRefs (r6 s) (valU (r5 s)))))
(macro q8 (s) (+ (q7 s) (lenU (r7 s)))) (macro q9 (s) (+ (q8 s) (lenBins (r8 s) (valU (r7 s))))) (macro q10 (s) (+ (q9 s) (lenU (r9 s))))
(lemma pre-Rec ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okRec K E H (take s k))) (group pre-Rec)
  (opaque okUd valU lenU okS valS lenS okM valM lenM okStreams valStreams lenStreams okRefs valRefs lenRefs okBins valBins lenBins okRecs valRecs lenRecs okRec valRec lenRec)
  (ensures (okRec K E H s)) (ensures (= (valRec K E H (take s k)) (valRec K E H s))) (ensures (= (lenRec (take s k)) (lenRec s))) (ensures (<= 2 (lenRec s) k))
  (measure (* 2 k))
  (hint (unfold okRec K E H s) (unfold okRec K E H (take s k)) (unfold valRec K E H s) (unfold valRec K E H (take s k)) (unfold lenRec s) (unfold lenRec (take s k))
    (use pre-S s k) (use len-S s) (use td s k (q1 s)) (assert (= (r1 (take s k)) (take (r1 s) (- k (q1 s)))))
    (use pre-S (r1 s) (- k (q1 s))) (use len-S (r1 s)) (use td (r1 s) (- k (q1 s)) (lenS (r1 s))) (assert (= (r2 (take s k)) (take (r2 s) (- k (q2 s)))))
    (use pre-M K (r2 s) (- k (q2 s))) (use td (r2 s) (- k (q2 s)) (lenM (r2 s))) (assert (= (r3 (take s k)) (take (r3 s) (- k (q3 s)))))
    (use pre-U (r3 s) (- k (q3 s)) 0) (use len-U (r3 s) 0) (use len-U (take (r3 s) (- k (q3 s))) 0) (use td (r3 s) (- k (q3 s)) (lenU (r3 s))) (assert (= (r4 (take s k)) (take (r4 s) (- k (q4 s)))))
    (use pre-Streams K E H (r4 s) (- k (q4 s)) (valU (r3 s))) (use td (r4 s) (- k (q4 s)) (lenStreams (r4 s) (valU (r3 s)))) (assert (= (r5 (take s k)) (take (r5 s) (- k (q5 s)))))
    (use pre-U (r5 s) (- k (q5 s)) 0) (use len-U (r5 s) 0) (use len-U (take (r5 s) (- k (q5 s))) 0) (use td (r5 s) (- k (q5 s)) (lenU (r5 s))) (assert (= (r6 (take s k)) (take (r6 s) (- k (q6 s)))))
    (use pre-Refs K E H (r6 s) (- k (q6 s)) (valU (r5 s))) (use td (r6 s) (- k (q6 s)) (lenRefs (r6 s) (valU (r5 s)))) (assert (= (r7 (take s k)) (take (r7 s) (- k (q7 s)))))
    (use pre-U (r7 s) (- k (q7 s)) 0) (use len-U (r7 s) 0) (use len-U (take (r7 s) (- k (q7 s))) 0) (use td (r7 s) (- k (q7 s)) (lenU (r7 s))) (assert (= (r8 (take s k)) (take (r8 s) (- k (q8 s)))))
    (use pre-Bins K E H (r8 s) (- k (q8 s)) (valU (r7 s))) (use td (r8 s) (- k (q8 s)) (lenBins (r8 s) (valU (r7 s)))) (assert (= (r9 (take s k)) (take (r9 s) (- k (q9 s)))))
    (use pre-U (r9 s) (- k (q9 s)) 0) (use len-U (r9 s) 0) (use len-U (take (r9 s) (- k (q9 s))) 0) (use td (r9 s) (- k (q9 s)) (lenU (r9 s))) (assert (= (r10 (take s k)) (take (r10 s) (- k (q10 s)))))
    (use pre-Recs K E H (r10 s) (- k (q10 s)) (valU (r9 s)))))
(lemma pre-Recs ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (k Int) (n Int)) (requires (<= 0 k (len s))) (requires (okRecs K E H (take s k) n)) (group pre-Rec)
  (opaque okRec valRec lenRec okRecs valRecs lenRecs)
  (ensures (okRecs K E H s n)) (ensures (= (valRecs K E H (take s k) n) (valRecs K E H s n))) (ensures (= (lenRecs (take s k) n) (lenRecs s n))) (ensures (<= 0 (lenRecs s n) k))
  (measure (+ 1 (* 2 k)))
  (hint (unfold okRecs K E H s n) (unfold okRecs K E H (take s k) n) (unfold valRecs K E H s n) (unfold valRecs K E H (take s k) n) (unfold lenRecs s n) (unfold lenRecs (take s k) n)
    (use pre-Rec K E H s k) (use td s k (lenRec s)) (use pre-Recs K E H (drop s (lenRec s)) (- k (lenRec s)) (- n 1))))
; the table of encoders
(lemma pre-Encs ((R (Seq If)) (s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okEncs R (take s k)))
  (opaque okSA valSA lenSA okUs valUs lenUs okPicks picks)
  (ensures (okEncs R s)) (ensures (= (valEncs R (take s k)) (valEncs R s))) (ensures (= (lenEncs (take s k)) (lenEncs s))) (ensures (<= 1 (lenEncs s) k))
  (hint (use pre-SA s k) (use len-SA s) (use td s k (lenSA s)) (use pre-Us (drop s (lenSA s)) (- k (lenSA s)) (len (valSA s)))))
(lemma pre-Body ((E (Seq If)) (s Bytes) (k Int)) (requires (<= 0 k (len s))) (requires (okBody E (take s k)))
  (opaque okSs valSs lenSs okSA valSA lenSA okRec valRec lenRec)
  (ensures (okBody E s)) (ensures (= (valBody E (take s k)) (valBody E s))) (ensures (= (lenBody E (take s k)) (lenBody E s))) (ensures (<= 1 (lenBody E s) k))
  (hint (use pre-Ss s k (len E)) (use td s k (lenSs s (len E))) (use pre-SA (bKeys E s) (- k (lenSs s (len E)))) (use len-SA (bKeys E s))
    (use td (bKeys E s) (- k (lenSs s (len E))) (lenSA (bKeys E s)))
    (assert (= (bRec E (take s k)) (take (bRec E s) (- k (+ (lenSs s (len E)) (lenSA (bKeys E s)))))))
    (use pre-Rec (valSA (bKeys E s)) E (valSs s (len E)) (bRec E s) (- k (+ (lenSs s (len E)) (lenSA (bKeys E s)))))))
; a compressed stream that ends where the file ends does not end any earlier
(macro deflated (s) (sym deflatedAll Bool s))
(axiom inflate-cut ((s Bytes) (k Int))
  (=> (and (deflated s) (<= 0 k) (< k (len s))) (not (inflateEnds (take s k)))) (pat (inflateEnds (take s k)) (deflated s)))
; C11: a valid file of version 2 is one the loader accepts to its last byte
(def wholeV2 ((R (Seq If)) (s Bytes)) Bool
  (and (<= 1 (len s)) (= (at s 0) 2) (okFile R s)
     (ite (= (at (wFlag (drop s 1)) 0) 1) (deflated (drop (wFlag (drop s 1)) 1)) (= (lenFile R s) (len s)))))
(lemma truncated ((R (Seq If)) (s Bytes) (k Int)) (requires (wholeV2 R s)) (requires (<= 0 k)) (requires (< k (len s)))
  (opaque okEncs valEncs lenEncs okBody valBody lenBody)
  (ensures (not (okFile R (take s k))))
  (hint (use td s k 1) (use pre-Encs R (drop s 1) (- k 1)) (use td (drop s 1) (- k 1) (lenEncs (drop s 1))) (use td (wFlag (drop s 1)) (- k (+ 1 (lenEncs (drop s 1)))) 1)
    (assert (=> (<= 1 k) (= (at (take s k) 0) (at s 0))))
    (assert (=> (okFile R (take s k)) (and (= (wFlag (take (drop s 1) (- k 1))) (take (wFlag (drop s 1)) (- k (+ 1 (lenEncs (drop s 1))))))
        (= (at (wFlag (take (drop s 1) (- k 1))) 0) (at (wFlag (drop s 1)) 0)))))
    (use pre-Body (valEncs R (drop s 1)) (drop (wFlag (drop s 1)) 1) (- k (+ 2 (lenEncs (drop s 1)))))))
