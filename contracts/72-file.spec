; ---- a whole version-2 file: version, table of encoders, flag, headers, keys, recording ----
(func format/io.GetRecoringVersion (params in) (results v n err) (reader in)
  (ensures ok (iff (= err nil) (<= 1 (len (old (rem in))))))
  (ensures value (=> (= err nil) (= v (at (old (rem in)) 0))))
  (ensures length (=> (= err nil) (= n 1)))
  (ensures rest (=> (= err nil) (= (rem in) (drop (old (rem in)) 1))))
  (ensures consumed (= n (- (len (old (rem in))) (len (rem in))))))
; the registered encoders R looked through for a signature and a version: every one with that signature must be recent enough
(macro sigOf (e) (@format/encoding.Encoder.Signature e))
(macro verOf (e) (@format/encoding.Encoder.Version e))
(rec pick ((R (Seq If)) (k Int) (sig Bytes)) If
  (cond ((<= k 0) nil) ((= (sigOf (at R (- k 1))) sig) (at R (- k 1))) (else (pick R (- k 1) sig))))
(rec recent ((R (Seq If)) (k Int) (sig Bytes) (v Int)) Bool
  (or (<= k 0) (and (=> (= (sigOf (at R (- k 1))) sig) (<= v (verOf (at R (- k 1))))) (recent R (- k 1) sig v))))
(macro pickOk (R sig v) (and (!= (pick R (len R) sig) nil) (recent R (len R) sig v)))
(rec okPicks ((R (Seq If)) (g (Seq Bytes)) (v (Seq uint)) (k Int)) Bool
  (or (<= k 0) (and (okPicks R g v (- k 1)) (pickOk R (at g (- k 1)) (at v (- k 1))))))
(rec picks ((R (Seq If)) (g (Seq Bytes)) (k Int)) (Seq If)
  (ite (<= k 0) (empty (Seq If)) (cat (picks R g (- k 1)) (unit (pick R (len R) (at g (- k 1)))))))
(lemma recent-down ((R (Seq If)) (n Int) (k Int) (sig Bytes) (v Int)) (requires (<= 0 k n)) (requires (recent R n sig v))
  (ensures (recent R k sig v)) (measure n) (hint (use recent-down R (- n 1) k sig v)))
(lemma okPicks-down ((R (Seq If)) (g (Seq Bytes)) (v (Seq uint)) (n Int) (k Int)) (requires (<= 0 k n)) (requires (okPicks R g v n))
  (ensures (okPicks R g v k)) (measure n) (hint (use okPicks-down R g v (- n 1) k)))
(macro noNilE (R) (forall ((i Int)) (:pat (at R i)) (=> (<= 0 i) (< i (len R)) (!= (at R i) nil))))
(def okEncs ((R (Seq If)) (s Bytes)) Bool
  (and (okSA s) (okUs (drop s (lenSA s)) (len (valSA s))) (okPicks R (valSA s) (valUs (drop s (lenSA s)) (len (valSA s))) (len (valSA s)))))
(def valEncs ((R (Seq If)) (s Bytes)) (Seq If) (picks R (valSA s) (len (valSA s))))
(def lenEncs ((s Bytes)) Int (+ (lenSA s) (lenUs (drop s (lenSA s)) (len (valSA s)))))
(func format/io.Reader.readEncoders (params r) (results encs n err) (reader (. r in))
  (requires (noNilE (. r encoders)))
  (hint-entry (use len-SA (rem (. r in))))
  (ensures ok (iff (= err nil) (okEncs (. r encoders) (old (rem (. r in))))))
  (ensures value (=> (= err nil) (= encs (valEncs (. r encoders) (old (rem (. r in)))))))
  (ensures length (=> (= err nil) (= n (lenEncs (old (rem (. r in)))))))
  (ensures rest (=> (= err nil) (= (rem (. r in)) (drop (old (rem (. r in))) (lenEncs (old (rem (. r in))))))))
  (loop 0 (vars (encoderVersions []uint64) (encoderSignatures []string) (totalBytesRead int))
    (hint-body (use len-U (rem (. r in)) 0) (unfold valUs (rem (. r in)) (- (len encoderSignatures) $k)))
    (hint (use drop-step (pre (rem (. r in))) (head (rem (. r in))) (lenU (head (rem (. r in)))))
      (assert (= (drop (valUs (pre (rem (. r in))) (len encoderSignatures)) $k) (drop (drop (valUs (pre (rem (. r in))) (len encoderSignatures)) (- $k 1)) 1)))
      (assert (= (at (valUs (pre (rem (. r in))) (len encoderSignatures)) (- $k 1)) (at (drop (valUs (pre (rem (. r in))) (len encoderSignatures)) (- $k 1)) 0)))
      (assert (= (drop (valUs (pre (rem (. r in))) (len encoderSignatures)) (- $k 1)) (valUs (head (rem (. r in))) (+ 1 (- (len encoderSignatures) $k)))))
      (assert (= (at (valUs (pre (rem (. r in))) (len encoderSignatures)) (- $k 1)) (valU (head (rem (. r in))))))
      (assert (= (at encoderVersions (- $k 1)) (valU (head (rem (. r in)))))))
    (inv full (not (short (. r in))))
    (inv size (= (len encoderVersions) (len encoderSignatures)))
    (inv ok (iff (okUs (pre (rem (. r in))) (len encoderSignatures)) (okUs (rem (. r in)) (- (len encoderSignatures) $k))))
    (inv left (= (drop (valUs (pre (rem (. r in))) (len encoderSignatures)) $k) (valUs (rem (. r in)) (- (len encoderSignatures) $k))))
    (inv value (forall ((j Int)) (:pat (at encoderVersions j)) (:pat (at (valUs (pre (rem (. r in))) (len encoderSignatures)) j)) (=> (<= 0 j) (< j $k) (= (at encoderVersions j) (at (valUs (pre (rem (. r in))) (len encoderSignatures)) j)))))
    (inv length (= (+ (- (len (pre (rem (. r in)))) (len (rem (. r in)))) (lenUs (rem (. r in)) (- (len encoderSignatures) $k))) (lenUs (pre (rem (. r in))) (len encoderSignatures))))
    (inv rest (= (rem (. r in)) (drop (pre (rem (. r in))) (- (len (pre (rem (. r in)))) (len (rem (. r in)))))))
    (inv bytes (= totalBytesRead (- (len (old (rem (. r in)))) (len (rem (. r in)))))))
  (loop 1 (vars (encoders []format/encoding.Encoder) (encoderSignatures []string) (encoderVersions []uint64))
    (hint-body (use okPicks-down (. r encoders) encoderSignatures (valUs (drop (old (rem (. r in))) (lenSA (old (rem (. r in))))) (len encoderSignatures)) (len encoderSignatures) (+ $k 1)))
    (inv size (= (len encoders) (len encoderSignatures)))
    (inv ok (okPicks (. r encoders) encoderSignatures (valUs (drop (old (rem (. r in))) (lenSA (old (rem (. r in))))) (len encoderSignatures)) $k))
    (inv value (= (take encoders $k) (picks (. r encoders) encoderSignatures $k))))
  (loop 2 (vars (i int) (encoders []format/encoding.Encoder) (encoderSignatures []string) (encoderVersions []uint64) (found bool))
    (hint-body (use recent-down (. r encoders) (len (. r encoders)) (+ $k 1) (at encoderSignatures i) (at encoderVersions i)))
    (inv size (= (len encoders) (len encoderSignatures)))
    (inv kept (= (take encoders i) (pre (take encoders i))))
    (inv found (iff found (!= (pick (. r encoders) $k (at encoderSignatures i)) nil)))
    (inv value (=> found (= (at encoders i) (pick (. r encoders) $k (at encoderSignatures i)))))
    (inv recent (recent (. r encoders) $k (at encoderSignatures i) (at encoderVersions i)))))
; version 1, see C19
(macro okV1 (s) (sym okV1 Bool s))
(macro valV1 (s) (sym valV1 If s))
(macro lenV1 (s) (sym lenV1 Int s))
(func internal/io/rapv1.ReadRecording (params file) (results r n err) (reader file) (trusted)
  (ensures ok (iff (= err nil) (okV1 (old (rem file)))))
  (ensures none (=> (!= err nil) (= r nil)))
  (ensures value (=> (= err nil) (= r (valV1 (old (rem file))))))
  (ensures length (=> (= err nil) (= n (lenV1 (old (rem file)))))))
; after the flag: one header per encoder, the key table, the recording
(def bKeys ((E (Seq If)) (b Bytes)) Bytes (drop b (lenSs b (len E))))
(def bRec ((E (Seq If)) (b Bytes)) Bytes (drop (bKeys E b) (lenSA (bKeys E b))))
(def okBody ((E (Seq If)) (b Bytes)) Bool
  (and (okSs b (len E)) (okSA (bKeys E b)) (okRec (valSA (bKeys E b)) E (valSs b (len E)) (bRec E b))))
(def valBody ((E (Seq If)) (b Bytes)) If (valRec (valSA (bKeys E b)) E (valSs b (len E)) (bRec E b)))
(def lenBody ((E (Seq If)) (b Bytes)) Int (+ (lenSs b (len E)) (lenSA (bKeys E b)) (lenRec (bRec E b))))
(macro inflate (s) (sym inflate Bytes s))
(macro inflateEnds (s) (sym inflateEnds Bool s))
; after the version number
(def wFlag ((s Bytes)) Bytes (drop s (lenEncs s)))
(def wBody ((s Bytes)) Bytes (ite (= (at (wFlag s) 0) 1) (inflate (drop (wFlag s) 1)) (drop (wFlag s) 1)))
(def okV2 ((R (Seq If)) (s Bytes)) Bool
  (and (okEncs R s) (<= 1 (len (wFlag s))) (okBody (valEncs R s) (wBody s))
    (=> (= (at (wFlag s) 0) 1) (inflateEnds (drop (wFlag s) 1)))))
(def okFile ((R (Seq If)) (s Bytes)) Bool
  (and (<= 1 (len s)) (<= 1 (at s 0) 2) (ite (= (at s 0) 1) (okV1 (drop s 1)) (okV2 R (drop s 1)))))
(def valFile ((R (Seq If)) (s Bytes)) If
  (ite (= (at s 0) 1) (valV1 (drop s 1)) (valBody (valEncs R (drop s 1)) (wBody (drop s 1)))))
(def lenFile ((R (Seq If)) (s Bytes)) Int
  (+ 1 (ite (= (at s 0) 1) (lenV1 (drop s 1)) (+ (lenEncs (drop s 1)) 1 (lenBody (valEncs R (drop s 1)) (wBody (drop s 1)))))))
(lemma picks-ok ((R (Seq If)) (g (Seq Bytes)) (v (Seq uint)) (k Int)) (requires (<= 0 k (len g)))
  (requires (okPicks R g v k)) (ensures (= (len (picks R g k)) k))
  (ensures (forall ((i Int)) (:pat (at (picks R g k) i)) (=> (<= 0 i) (< i k)
     (and (= (at (picks R g k) i) (pick R (len R) (at g i))) (!= (at (picks R g k) i) nil) (recent R (len R) (at g i) (at v i))))))
  (measure k) (hint (use picks-ok R g v (- k 1))))
(func format/io.Reader.Read (params r) (results rec n err) (reader (. r in))
  (requires (!= (. r in) nil))
  (opaque okS valS lenS okSs valSs lenSs okSA valSA lenSA okRec valRec lenRec okPicks picks okUs valUs lenUs okUd valU lenU lenEncs)
  (requires (noNilE (. r encoders)))
  (ensures ok (iff (= err nil) (okFile (. r encoders) (old (rem (. r in))))))
  (ensures none (=> (!= err nil) (= rec nil)))
  (ensures value (=> (= err nil) (= rec (valFile (. r encoders) (old (rem (. r in)))))))
  (ensures length (=> (= err nil) (= n (lenFile (. r encoders) (old (rem (. r in)))))))
  (loop 0 (vars (encoderHeaders [][]byte) (totalBytesRead int) (readcloser io.Reader) (encodersToUse []format/encoding.Encoder))
    (hint-entry (use picks-ok (. r encoders) (valSA (drop (old (rem (. r in))) 1)) (valUs (drop (drop (old (rem (. r in))) 1) (lenSA (drop (old (rem (. r in))) 1))) (len (valSA (drop (old (rem (. r in))) 1)))) (len (valSA (drop (old (rem (. r in))) 1))))
       (assert (= encodersToUse (valEncs (. r encoders) (drop (old (rem (. r in))) 1))))
       (assert (noNilE encodersToUse))
       (assert (= (rem readcloser) (wBody (drop (old (rem (. r in))) 1)))))
    (hint-body (use len-S (rem readcloser)) (unfold okSs (rem readcloser) (- (len encodersToUse) $k)) (unfold valSs (rem readcloser) (- (len encodersToUse) $k)) (unfold lenSs (rem readcloser) (- (len encodersToUse) $k)))
    (hint (use drop-step (pre (rem readcloser)) (head (rem readcloser)) (lenS (head (rem readcloser)))))
    (hint-exit (assert (okSs (pre (rem readcloser)) (len encodersToUse))) (assert (= encoderHeaders (valSs (pre (rem readcloser)) (len encodersToUse))))
       (assert (= (rem readcloser) (drop (pre (rem readcloser)) (lenSs (pre (rem readcloser)) (len encodersToUse)))))
       (assert (= (rem readcloser) (bKeys encodersToUse (wBody (drop (old (rem (. r in))) 1))))))
    (inv size (= (len encoderHeaders) (len encodersToUse)))
    (inv some (noNilE encodersToUse))
    (inv full (not (short readcloser)))
    (inv ok (iff (okSs (pre (rem readcloser)) (len encodersToUse)) (okSs (rem readcloser) (- (len encodersToUse) $k))))
    (inv value (= (cat (take encoderHeaders $k) (valSs (rem readcloser) (- (len encodersToUse) $k))) (valSs (pre (rem readcloser)) (len encodersToUse))))
    (inv length (= (+ (- (len (pre (rem readcloser))) (len (rem readcloser))) (lenSs (rem readcloser) (- (len encodersToUse) $k))) (lenSs (pre (rem readcloser)) (len encodersToUse))))
    (inv rest (= (rem readcloser) (drop (pre (rem readcloser)) (- (len (pre (rem readcloser))) (len (rem readcloser))))))
    (inv total (= (- totalBytesRead (pre totalBytesRead)) (- (len (pre (rem readcloser))) (len (rem readcloser)))))))
