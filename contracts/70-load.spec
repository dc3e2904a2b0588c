; ---- the version-2 file format: what the loader accepts and what it makes of it ----
; a decoder's answer depends on its arguments only (checked per encoder: (pure))
(iface format/encoding.Encoder (obs Signature Version Accepts)
  (impl format/encoding/position.Encoder format/encoding/euler.Encoder format/encoding/float.Encoder format/encoding/enum.Encoder format/encoding/event.Encoder))
(macro decOk (e name h b ts) (sym decOk Bool e name h b ts))
(macro decVal (e name h b ts) (sym decVal If e name h b ts))
(imethod format/encoding.Encoder.Decode (params p name header streamData times) (results c err)
  (defines ok (iff (= err nil) (decOk p name header streamData times)))
  (defines value (=> (= err nil) (= c (decVal p name header streamData times)))))

; metadata: indices into the key table, then the values
(macro mIds (s) (valUA s))
(macro mBody (s) (drop s (lenUA s)))
(def okM ((K (Seq Bytes)) (s Bytes)) Bool (and (okUA s) (idsL K (mIds s)) (okPs (mBody s) (len (mIds s)))))
(def valM ((K (Seq Bytes)) (s Bytes)) format/metadata.Block (mk format/metadata.Block (valPs (keysL K (mIds s)) (mBody s) (noProps))))
(def lenM ((s Bytes)) Int (+ (lenUA s) (lenPs (mBody s) (len (mIds s)))))
(func format/io.readRecordingMetadataBlock (params in metadataKeys) (results b err) (reader in)
  (hint-entry (use len-UA (rem in)))
  (ensures ok (iff (= err nil) (okM metadataKeys (old (rem in)))))
  (ensures value (=> (= err nil) (= b (valM metadataKeys (old (rem in))))))
  (ensures rest (=> (= err nil) (= (rem in) (drop (old (rem in)) (lenM (old (rem in)))))))
  (loop 0 (vars (propMapping map[string]format/metadata.Property) (keyIndecies []uint))
    (hint-body (use len-D (at (rem in) 0) (drop (rem in) 1)) (use idsL-step metadataKeys keyIndecies $k)
      (use drop-step (pre (rem in)) (rem in) (lenP (rem in))))
    (hint-exit (assert (= (drop keyIndecies $k) (empty (Seq uint)))) (unfold keysL metadataKeys (drop keyIndecies $k))
      (unfold valPs (keysL metadataKeys (drop keyIndecies $k)) (rem in) propMapping)
      (assert (= propMapping (valPs (keysL metadataKeys keyIndecies) (pre (rem in)) (noProps))))
      (assert (idsL metadataKeys keyIndecies))
      (assert (= (rem in) (drop (pre (rem in)) (lenPs (pre (rem in)) (len keyIndecies))))))
    (inv full (not (short in)))
    (inv ids (iff (idsL metadataKeys keyIndecies) (idsL metadataKeys (drop keyIndecies $k))))
    (inv ok (iff (okPs (pre (rem in)) (len keyIndecies)) (okPs (rem in) (- (len keyIndecies) $k))))
    (inv value (= (valPs (keysL metadataKeys (drop keyIndecies $k)) (rem in) propMapping) (valPs (keysL metadataKeys keyIndecies) (pre (rem in)) (noProps))))
    (inv length (= (+ (- (len (pre (rem in))) (len (rem in))) (lenPs (rem in) (- (len keyIndecies) $k))) (lenPs (pre (rem in)) (len keyIndecies))))
    (inv rest (= (rem in) (drop (pre (rem in)) (- (len (pre (rem in))) (len (rem in))))))))

; one collection: index of its encoder, name, times, bytes
(def s1 ((s Bytes)) Bytes (drop s (lenU s)))
(def s2 ((s Bytes)) Bytes (drop (s1 s) (lenS (s1 s))))
(def s3 ((s Bytes)) Bytes (drop (s2 s) (lenTime (s2 s))))
(def okStream ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) Bool
  (and (okU s) (< (valU s) (len E)) (okS (s1 s)) (okTime (s2 s)) (okS (s3 s))
    (decOk (at E (valU s)) (valS (s1 s)) (at H (valU s)) (valS (s3 s)) (valTime (s2 s)))))
(def valStream ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) If
  (decVal (at E (valU s)) (valS (s1 s)) (at H (valU s)) (valS (s3 s)) (valTime (s2 s))))
(def lenStream ((s Bytes)) Int (+ (lenU s) (lenS (s1 s)) (lenTime (s2 s)) (lenS (s3 s))))
; one reference: name, URI, size, metadata
(def f1 ((s Bytes)) Bytes (drop s (lenS s)))
(def f2 ((s Bytes)) Bytes (drop (f1 s) (lenS (f1 s))))
(def f3 ((s Bytes)) Bytes (drop (f2 s) (lenU (f2 s))))
(def okRef ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) Bool (and (okS s) (okS (f1 s)) (okU (f2 s)) (okM K (f3 s))))
(def valRef ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) If
  (box format/io.BinaryReference (mk format/io.BinaryReference (valS s) (valS (f1 s)) (valU (f2 s)) (valM K (f3 s)))))
(def lenRef ((s Bytes)) Int (+ (lenS s) (lenS (f1 s)) (lenU (f2 s)) (lenM (f3 s))))
; one binary: name, size, metadata, that many bytes
(def b2 ((s Bytes)) Bytes (drop (f1 s) (lenU (f1 s))))
(def b3 ((s Bytes)) Bytes (drop (b2 s) (lenM (b2 s))))
(def okBin ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) Bool (and (okS s) (okU (f1 s)) (okM K (b2 s)) (<= (valU (f1 s)) (len (b3 s)))))
(def valBin ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) If
  (box format/io.Binary (mk format/io.Binary (valS s) (take (b3 s) (valU (f1 s))) (valM K (b2 s)))))
(def lenBin ((s Bytes)) Int (+ (lenS s) (lenU (f1 s)) (lenM (b2 s)) (valU (f1 s))))
; n items one after the other
(foreach (X) ((Stream) (Ref) (Bin) (Rec))
 (rec ok{X}s ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (n Int)) Bool (or (<= n 0) (and (ok{X} K E H s) (ok{X}s K E H (drop s (len{X} s)) (- n 1)))))
 (rec val{X}s ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (n Int)) (Seq If) (ite (<= n 0) (empty (Seq If)) (cat (unit (val{X} K E H s)) (val{X}s K E H (drop s (len{X} s)) (- n 1)))))
 (rec len{X}s ((s Bytes) (n Int)) Int (ite (<= n 0) 0 (+ (len{X} s) (len{X}s (drop s (len{X} s)) (- n 1)))))
)
; a recording: id, name, metadata, collections, references, binaries, sub-recordings
(def r1 ((s Bytes)) Bytes (drop s (lenS s)))
(def r2 ((s Bytes)) Bytes (drop (r1 s) (lenS (r1 s))))
(def r3 ((s Bytes)) Bytes (drop (r2 s) (lenM (r2 s))))
(def r4 ((s Bytes)) Bytes (drop (r3 s) (lenU (r3 s))))
(def r5 ((s Bytes)) Bytes (drop (r4 s) (lenStreams (r4 s) (valU (r3 s)))))
(def r6 ((s Bytes)) Bytes (drop (r5 s) (lenU (r5 s))))
(def r7 ((s Bytes)) Bytes (drop (r6 s) (lenRefs (r6 s) (valU (r5 s)))))
(def r8 ((s Bytes)) Bytes (drop (r7 s) (lenU (r7 s))))
(def r9 ((s Bytes)) Bytes (drop (r8 s) (lenBins (r8 s) (valU (r7 s)))))
(def r10 ((s Bytes)) Bytes (drop (r9 s) (lenU (r9 s))))
(rec okRec ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) Bool
  (and (okS s) (okS (r1 s)) (okM K (r2 s)) (okU (r3 s)) (okStreams K E H (r4 s) (valU (r3 s))) (okU (r5 s)) (okRefs K E H (r6 s) (valU (r5 s)))
     (okU (r7 s)) (okBins K E H (r8 s) (valU (r7 s))) (okU (r9 s)) (okRecs K E H (r10 s) (valU (r9 s)))))
(rec valRec ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) If
  (box format.recording (mk format.recording (valS s) (valS (r1 s)) (valStreams K E H (r4 s) (valU (r3 s))) (valRecs K E H (r10 s) (valU (r9 s)))
     (valM K (r2 s)) (valBins K E H (r8 s) (valU (r7 s))) (valRefs K E H (r6 s) (valU (r5 s))))))
(rec lenRec ((s Bytes)) Int
  (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s)) (lenStreams (r4 s) (valU (r3 s))) (lenU (r5 s)) (lenRefs (r6 s) (valU (r5 s)))
     (lenU (r7 s)) (lenBins (r8 s) (valU (r7 s))) (lenU (r9 s)) (lenRecs (r10 s) (valU (r9 s)))))


(lemma drop-drop ((s Bytes) (n Int) (r Bytes) (m Int))
  (requires (= r (drop s n))) (requires (<= 0 n (len s))) (requires (<= 0 m (len r)))
  (ensures (= (drop r m) (drop s (+ n m)))) (ensures (= (len (drop r m)) (- (len s) (+ n m)))) (ensures (= (len r) (- (len s) n))))
(lemma len-M ((K (Seq Bytes)) (s Bytes)) (requires (okM K s)) (ensures (<= 1 (lenM s) (len s)))
  (hint (use len-UA s) (use pre-Ps (mBody s) (len (mBody s)) (keysL K (mIds s)) (noProps))))
(lemma len-Stream ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) (requires (okStream K E H s))
  (ensures (<= 1 (lenStream s) (len s))) (ensures (= (drop s (lenStream s)) (drop (s3 s) (lenS (s3 s)))))
  (hint (use len-U s 0) (use len-S (s1 s)) (use len-U (drop (s2 s) 1) 0) (use len-S (s3 s))))
(lemma len-Ref ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) (requires (okRef K E H s))
  (ensures (<= 1 (lenRef s) (len s))) (ensures (= (drop s (lenRef s)) (drop (f3 s) (lenM (f3 s)))))
  (hint (use len-S s) (use len-S (f1 s)) (use len-U (f2 s) 0) (use len-M K (f3 s))))
(lemma len-Bin ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) (requires (okBin K E H s))
  (ensures (<= 1 (lenBin s) (len s))) (ensures (= (drop s (lenBin s)) (drop (b3 s) (valU (f1 s)))))
  (hint (use len-S s) (use len-U (f1 s) 0) (use len-M K (b2 s))))
(foreach (X) ((Stream) (Ref) (Bin))
 (lemma len-{X}s ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (n Int)) (requires (ok{X}s K E H s n))
  (ensures (<= 0 (len{X}s s n) (len s))) (measure (ite (<= 0 n) n 0))
  (hint (use len-{X} K E H s) (use len-{X}s K E H (drop s (len{X} s)) (- n 1)))))
(lemma len-Rec ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes)) (requires (okRec K E H s)) (group len-Rec)
  (ensures (<= 2 (lenRec s) (len s))) (ensures (= (drop s (lenRec s)) (drop (r10 s) (lenRecs (r10 s) (valU (r9 s))))))
  (measure (* 2 (len s)))
  (hint (unfold okRec K E H s) (unfold lenRec s)
    (use len-S s) (use len-S (r1 s)) (use len-M K (r2 s)) (use len-U (r3 s) 0) (use len-Streams K E H (r4 s) (valU (r3 s)))
    (use len-U (r5 s) 0) (use len-Refs K E H (r6 s) (valU (r5 s))) (use len-U (r7 s) 0) (use len-Bins K E H (r8 s) (valU (r7 s)))
    (use len-U (r9 s) 0) (use len-Recs K E H (r10 s) (valU (r9 s)))
    (use drop-drop s (lenS s) (r1 s) (lenS (r1 s)))
    (use drop-drop s (+ (lenS s) (lenS (r1 s))) (r2 s) (lenM (r2 s)))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s))) (r3 s) (lenU (r3 s)))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s))) (r4 s) (lenStreams (r4 s) (valU (r3 s))))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s)) (lenStreams (r4 s) (valU (r3 s)))) (r5 s) (lenU (r5 s)))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s)) (lenStreams (r4 s) (valU (r3 s))) (lenU (r5 s))) (r6 s) (lenRefs (r6 s) (valU (r5 s))))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s)) (lenStreams (r4 s) (valU (r3 s))) (lenU (r5 s)) (lenRefs (r6 s) (valU (r5 s)))) (r7 s) (lenU (r7 s)))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s)) (lenStreams (r4 s) (valU (r3 s))) (lenU (r5 s)) (lenRefs (r6 s) (valU (r5 s))) (lenU (r7 s))) (r8 s) (lenBins (r8 s) (valU (r7 s))))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s)) (lenStreams (r4 s) (valU (r3 s))) (lenU (r5 s)) (lenRefs (r6 s) (valU (r5 s))) (lenU (r7 s)) (lenBins (r8 s) (valU (r7 s)))) (r9 s) (lenU (r9 s)))
    (use drop-drop s (+ (lenS s) (lenS (r1 s)) (lenM (r2 s)) (lenU (r3 s)) (lenStreams (r4 s) (valU (r3 s))) (lenU (r5 s)) (lenRefs (r6 s) (valU (r5 s))) (lenU (r7 s)) (lenBins (r8 s) (valU (r7 s))) (lenU (r9 s))) (r10 s) (lenRecs (r10 s) (valU (r9 s))))))
(lemma len-Recs ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (n Int)) (requires (okRecs K E H s n)) (group len-Rec)
  (ensures (<= 0 (lenRecs s n) (len s))) (measure (+ 1 (* 2 (len s))))
  (hint (use len-Rec K E H s) (use len-Recs K E H (drop s (lenRec s)) (- n 1))))

(func format/io.recursiveBuidRecordings (params inStream K E H) (results r n err) (reader inStream)
  (requires (= (len H) (len E))) (requires (forall ((i Int)) (:pat (at E i)) (=> (<= 0 i) (< i (len E)) (!= (at E i) nil))))
  (opaque okS valS lenS okM valM lenM okTime valTime lenTime okUd valU lenU)
  (hint (use len-Rec K E H (old (rem inStream))))
  (hint-entry (unfold okRec K E H (rem inStream)) (unfold valRec K E H (rem inStream)) (unfold lenRec (rem inStream)))
  (ensures ok (iff (= err nil) (okRec K E H (old (rem inStream)))))
  (ensures value (=> (= err nil) (= r (valRec K E H (old (rem inStream))))))
  (ensures none (=> (!= err nil) (= r nil)))
  (ensures length (=> (= err nil) (= n (lenRec (old (rem inStream))))))
  (ensures rest (=> (= err nil) (= (rem inStream) (drop (old (rem inStream)) (lenRec (old (rem inStream)))))))
  (ensures consumed (= n (- (len (old (rem inStream))) (len (rem inStream)))))
  (loop 0 (vars (i uint64) (numStreams uint64) (allStreams []format.CaptureCollection) (er *internal/io/binary.ErrReader))
    (hint-body (use len-U (rem er) 0) (unfold okStreams K E H (rem er) (- numStreams i)) (unfold valStreams K E H (rem er) (- numStreams i)) (unfold lenStreams (rem er) (- numStreams i)))
    (hint (use len-Stream K E H (head (rem er)))
      (assert (okStream K E H (head (rem er))))
      (assert (= (rem er) (drop (head (rem er)) (lenStream (head (rem er))))))
      (use drop-step (pre (rem er)) (head (rem er)) (lenStream (head (rem er)))))
    (hint-entry (assert (= (rem er) (r4 (old (rem inStream))))) (assert (<= (len (rem er)) (len (old (rem inStream))))))
    (hint-exit (assert (okStreams K E H (pre (rem er)) numStreams)) (assert (= allStreams (valStreams K E H (pre (rem er)) numStreams)))
      (assert (= (rem er) (drop (pre (rem er)) (lenStreams (pre (rem er)) numStreams))))
      (assert (= (rem er) (r5 (old (rem inStream))))))
    (inv count (<= 0 i numStreams))
    (inv shrinks (<= (len (rem er)) (len (pre (rem er)))))
    (inv full (and (not (short er)) (= (. er err) nil)))
    (inv total (= (. er n) (- (len (old (rem inStream))) (len (rem er)))))
    (inv ok (iff (okStreams K E H (pre (rem er)) numStreams) (okStreams K E H (rem er) (- numStreams i))))
    (inv value (= (cat allStreams (valStreams K E H (rem er) (- numStreams i))) (valStreams K E H (pre (rem er)) numStreams)))
    (inv length (= (+ (- (len (pre (rem er))) (len (rem er))) (lenStreams (rem er) (- numStreams i))) (lenStreams (pre (rem er)) numStreams)))
    (inv rest (= (rem er) (drop (pre (rem er)) (- (len (pre (rem er))) (len (rem er)))))))
  (loop 1 (vars (i uint64) (numBinaryReferences uint64) (binReferences []format.BinaryReference) (er *internal/io/binary.ErrReader))
    (hint-body  (unfold okRefs K E H (rem er) (- numBinaryReferences i)) (unfold valRefs K E H (rem er) (- numBinaryReferences i)) (unfold lenRefs (rem er) (- numBinaryReferences i)))
    (hint (use len-Ref K E H (head (rem er)))
      (assert (okRef K E H (head (rem er))))
      (assert (= (rem er) (drop (head (rem er)) (lenRef (head (rem er))))))
      (use drop-step (pre (rem er)) (head (rem er)) (lenRef (head (rem er)))))
    (hint-entry (assert (= (rem er) (r6 (old (rem inStream))))) (assert (<= (len (rem er)) (len (old (rem inStream))))))
    (hint-exit (assert (okRefs K E H (pre (rem er)) numBinaryReferences)) (assert (= binReferences (valRefs K E H (pre (rem er)) numBinaryReferences)))
      (assert (= (rem er) (drop (pre (rem er)) (lenRefs (pre (rem er)) numBinaryReferences))))
      (assert (= (rem er) (r7 (old (rem inStream))))))
    (inv count (<= 0 i numBinaryReferences))
    (inv shrinks (<= (len (rem er)) (len (pre (rem er)))))
    (inv full (and (not (short er)) (= (. er err) nil)))
    (inv total (= (. er n) (- (len (old (rem inStream))) (len (rem er)))))
    (inv ok (iff (okRefs K E H (pre (rem er)) numBinaryReferences) (okRefs K E H (rem er) (- numBinaryReferences i))))
    (inv value (= (cat binReferences (valRefs K E H (rem er) (- numBinaryReferences i))) (valRefs K E H (pre (rem er)) numBinaryReferences)))
    (inv length (= (+ (- (len (pre (rem er))) (len (rem er))) (lenRefs (rem er) (- numBinaryReferences i))) (lenRefs (pre (rem er)) numBinaryReferences)))
    (inv rest (= (rem er) (drop (pre (rem er)) (- (len (pre (rem er))) (len (rem er)))))))
  (loop 2 (vars (i uint64) (numBinaries uint64) (binaries []format.Binary) (er *internal/io/binary.ErrReader))
    (hint-body  (unfold okBins K E H (rem er) (- numBinaries i)) (unfold valBins K E H (rem er) (- numBinaries i)) (unfold lenBins (rem er) (- numBinaries i)))
    (hint (use len-Bin K E H (head (rem er)))
      (assert (okBin K E H (head (rem er))))
      (assert (= (rem er) (drop (head (rem er)) (lenBin (head (rem er))))))
      (use drop-step (pre (rem er)) (head (rem er)) (lenBin (head (rem er)))))
    (hint-entry (assert (= (rem er) (r8 (old (rem inStream))))) (assert (<= (len (rem er)) (len (old (rem inStream))))))
    (hint-exit (assert (okBins K E H (pre (rem er)) numBinaries)) (assert (= binaries (valBins K E H (pre (rem er)) numBinaries)))
      (assert (= (rem er) (drop (pre (rem er)) (lenBins (pre (rem er)) numBinaries))))
      (assert (= (rem er) (r9 (old (rem inStream))))))
    (inv count (<= 0 i numBinaries))
    (inv shrinks (<= (len (rem er)) (len (pre (rem er)))))
    (inv full (and (not (short er)) (= (. er err) nil)))
    (inv total (= (. er n) (- (len (old (rem inStream))) (len (rem er)))))
    (inv ok (iff (okBins K E H (pre (rem er)) numBinaries) (okBins K E H (rem er) (- numBinaries i))))
    (inv value (= (cat binaries (valBins K E H (rem er) (- numBinaries i))) (valBins K E H (pre (rem er)) numBinaries)))
    (inv length (= (+ (- (len (pre (rem er))) (len (rem er))) (lenBins (rem er) (- numBinaries i))) (lenBins (pre (rem er)) numBinaries)))
    (inv rest (= (rem er) (drop (pre (rem er)) (- (len (pre (rem er))) (len (rem er)))))))
  (loop 3 (vars (i uint64) (numRecordings uint64) (allChildRecordings []format.Recording) (er *internal/io/binary.ErrReader))
    (hint-body  (unfold okRecs K E H (rem er) (- numRecordings i)) (unfold valRecs K E H (rem er) (- numRecordings i)) (unfold lenRecs (rem er) (- numRecordings i)))
    (hint (use len-Rec K E H (head (rem er)))
      (assert (okRec K E H (head (rem er))))
      (assert (= (rem er) (drop (head (rem er)) (lenRec (head (rem er))))))
      (use drop-step (pre (rem er)) (head (rem er)) (lenRec (head (rem er)))))
    (hint-entry (assert (= (rem er) (r10 (old (rem inStream))))) (assert (<= (len (rem er)) (len (old (rem inStream))))))
    (hint-exit (assert (okRecs K E H (pre (rem er)) numRecordings)) (assert (= allChildRecordings (valRecs K E H (pre (rem er)) numRecordings)))
      (assert (= (rem er) (drop (pre (rem er)) (lenRecs (pre (rem er)) numRecordings)))))
    (inv count (<= 0 i numRecordings))
    (inv shrinks (<= (len (rem er)) (len (pre (rem er)))))
    (inv full (and (not (short er)) (= (. er err) nil)))
    (inv total (= (. er n) (- (len (old (rem inStream))) (len (rem er)))))
    (inv ok (iff (okRecs K E H (pre (rem er)) numRecordings) (okRecs K E H (rem er) (- numRecordings i))))
    (inv value (= (cat allChildRecordings (valRecs K E H (rem er) (- numRecordings i))) (valRecs K E H (pre (rem er)) numRecordings)))
    (inv length (= (+ (- (len (pre (rem er))) (len (rem er))) (lenRecs (rem er) (- numRecordings i))) (lenRecs (pre (rem er)) numRecordings)))
    (inv rest (= (rem er) (drop (pre (rem er)) (- (len (pre (rem er))) (len (rem er)))))))
)
