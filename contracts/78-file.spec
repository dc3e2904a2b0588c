; ---- a whole file ----
(macro deflate (s) (sym deflate Bytes s))
(axiom deflate-inverse ((s Bytes)) (and (= (inflate (deflate s)) s) (inflateEnds (deflate s)) (deflated (deflate s))) (pat (deflate s)))
(lemma app-Ss ((s Bytes) (n Int) (h Bytes)) (requires (<= 0 n)) (requires (okSs s n)) (requires (= (lenSs s n) (len s)))
  (opaque okS valS lenS encU)
  (ensures (okSs (cat s (encS h)) (+ n 1))) (ensures (= (lenSs (cat s (encS h)) (+ n 1)) (len (cat s (encS h)))))
  (ensures (= (valSs (cat s (encS h)) (+ n 1)) (cat (valSs s n) (unit h))))
  (measure n)
  (hint (unfold okSs s n) (unfold valSs s n) (unfold lenSs s n)
    (unfold okSs (cat s (encS h)) (+ n 1)) (unfold valSs (cat s (encS h)) (+ n 1)) (unfold lenSs (cat s (encS h)) (+ n 1))
    (use rt-S h (empty Bytes)) (assert (= (cat (encS h) (empty Bytes)) (encS h)))
    (assert (=> (= n 0) (= (cat s (encS h)) (encS h))))
    (unfold okSs (drop (encS h) (len (encS h))) 0) (unfold valSs (drop (encS h) (len (encS h))) 0) (unfold lenSs (drop (encS h) (len (encS h))) 0)
    (assert (=> (< 0 n) (= (take (cat s (encS h)) (len s)) s)))
    (use pre-S (cat s (encS h)) (len s)) (use len-S s)
    (assert (=> (< 0 n) (and (okS (cat s (encS h))) (= (lenS (cat s (encS h))) (lenS s)) (= (valS (cat s (encS h))) (valS s)) (<= 0 (lenS s) (len s)))))
    (assert (=> (< 0 n) (= (drop (cat s (encS h)) (lenS s)) (cat (drop s (lenS s)) (encS h)))))
    (use app-Ss (drop s (lenS s)) (- n 1) h)))
(lemma mk-Body ((E (Seq If)) (G Bytes) (K (Seq Bytes)) (b Bytes))
  (requires (okSs G (len E))) (requires (= (lenSs G (len E)) (len G))) (requires (okRec K E (valSs G (len E)) b)) (requires (= (lenRec b) (len b)))
  (opaque okSs valSs lenSs okSA valSA lenSA encU encSs okRec valRec lenRec)
  (ensures (okBody E (cat G (cat (encSA K) b)))) (ensures (= (lenBody E (cat G (cat (encSA K) b))) (len (cat G (cat (encSA K) b)))))
  (ensures (= (valBody E (cat G (cat (encSA K) b))) (valRec K E (valSs G (len E)) b)))
  (hint (assert (= (take (cat G (cat (encSA K) b)) (len G)) G)) (use pre-Ss (cat G (cat (encSA K) b)) (len G) (len E))
    (assert (= (drop (cat G (cat (encSA K) b)) (len G)) (cat (encSA K) b)))
    (assert (= (bKeys E (cat G (cat (encSA K) b))) (cat (encSA K) b)))
    (use rt-SA K b)
    (assert (= (bRec E (cat G (cat (encSA K) b))) b))))
; the table of encoders names encoders the reader has
(lemma own-picks ((R (Seq If)) (ms (Seq format/io.encoderCollectionMapping)) (k Int)) (requires (ownM R (len R) ms)) (requires (<= 0 k (len ms)))
  (opaque sigsM versM recent pick)
  (ensures (okPicks R (sigsM ms (len ms)) (versM ms (len ms)) k)) (ensures (= (picks R (sigsM ms (len ms)) k) (encsM ms k)))
  (measure k) (hint (unfold okPicks R (sigsM ms (len ms)) (versM ms (len ms)) k) (unfold picks R (sigsM ms (len ms)) k) (unfold encsM ms k)
    (use sigsM-at ms (len ms) (- k 1)) (use versM-at ms (len ms) (- k 1)) (use own-picks R ms (- k 1))))
(lemma mk-Encs ((R (Seq If)) (ms (Seq format/io.encoderCollectionMapping)) (b Bytes)) (requires (ownM R (len R) ms))
  (opaque sigsM versM okPicks picks okSA valSA lenSA okUs valUs lenUs encSs encUs encU ownM encsM)
  (ensures (okEncs R (cat (encTable ms) b))) (ensures (= (valEncs R (cat (encTable ms) b)) (encsM ms (len ms)))) (ensures (= (lenEncs (cat (encTable ms) b)) (len (encTable ms))))
  (hint (use rt-SA (sigsM ms (len ms)) (cat (encUs (versM ms (len ms))) b)) (use rt-Us (versM ms (len ms)) b)
    (use sigsM-at ms (len ms) 0) (use versM-at ms (len ms) 0) (use own-picks R ms (len ms))
    (assert (= (cat (encTable ms) b) (cat (encSA (sigsM ms (len ms))) (cat (encUs (versM ms (len ms))) b))))
    (assert (= (drop (cat (encTable ms) b) (lenSA (cat (encTable ms) b))) (cat (encUs (versM ms (len ms))) b)))))
(macro fileOf (ms f b) (cat (unit 2) (cat (encTable ms) (cat (unit f) b))))
(lemma mk-File ((R (Seq If)) (ms (Seq format/io.encoderCollectionMapping)) (f Int) (b Bytes) (c Bytes)) (requires (ownM R (len R) ms))
  (requires (<= 0 f 1)) (requires (okBody (encsM ms (len ms)) b)) (requires (= (lenBody (encsM ms (len ms)) b) (len b)))
  (requires (= c (ite (= f 1) (deflate b) b)))
  (opaque encTable okEncs valEncs lenEncs okBody valBody lenBody ownM encsM)
  (ensures (okFile R (fileOf ms f c))) (ensures (wholeV2 R (fileOf ms f c))) (ensures (= (valFile R (fileOf ms f c)) (valBody (encsM ms (len ms)) b)))
  (ensures (= (lenFile R (fileOf ms f c)) (+ 2 (len (encTable ms)) (len b))))
  (hint (use mk-Encs R ms (cat (unit f) c))
    (assert (= (drop (fileOf ms f c) 1) (cat (encTable ms) (cat (unit f) c))))
    (assert (= (at (fileOf ms f c) 0) 2))
    (assert (= (wFlag (cat (encTable ms) (cat (unit f) c))) (cat (unit f) c)))
    (assert (= (at (cat (unit f) c) 0) f)) (assert (= (drop (cat (unit f) c) 1) c))
    (assert (= (wBody (cat (encTable ms) (cat (unit f) c))) b))))
; ---- what a loaded recording has to do with the saved one ----
(macro urlR (p) (@format.BinaryReference.URI p))
(def sameRef ((p If) (q If)) Bool
  (and (!= q nil) (= (@format.BinaryReference.Name q) (@format.BinaryReference.Name p)) (= (urlR q) (urlR p)) (= (@format.BinaryReference.Size q) (@format.BinaryReference.Size p)) (= (refMd q) (refMd p))))
(def sameBin ((p If) (q If)) Bool
  (and (!= q nil) (= (@format.Binary.Name q) (@format.Binary.Name p)) (= (sizeBin q) (sizeBin p)) (= (dataOf q) (dataOf p)) (= (binMd q) (binMd p))))
(def sameColl ((R (Seq If)) (t Int) (c If) (d If)) Bool (keptBy (pickE R (len R) c) c (nameC c) (storedT t (capsOf c)) d))
(rec loaded ((R (Seq If)) (t Int) (r If) (d If)) Bool
  (and (!= d nil) (= (idOf d) (idOf r)) (= (nameR d) (nameR r)) (= (mdOf d) (mdOf r))
    (= (len (collsOf d)) (len (collsOf r))) (forall ((j Int)) (:pat (at (collsOf d) j)) (:pat (at (collsOf r) j)) (=> (<= 0 j) (< j (len (collsOf r))) (sameColl R t (at (collsOf r) j) (at (collsOf d) j))))
    (= (len (refsOf d)) (len (refsOf r))) (forall ((j Int)) (:pat (at (refsOf d) j)) (:pat (at (refsOf r) j)) (=> (<= 0 j) (< j (len (refsOf r))) (sameRef (at (refsOf r) j) (at (refsOf d) j))))
    (= (len (binsOf d)) (len (binsOf r))) (forall ((j Int)) (:pat (at (binsOf d) j)) (:pat (at (binsOf r) j)) (=> (<= 0 j) (< j (len (binsOf r))) (sameBin (at (binsOf r) j) (at (binsOf d) j))))
    (= (len (recsOf d)) (len (recsOf r))) (forall ((j Int)) (:pat (at (recsOf d) j)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (loaded R t (at (recsOf r) j) (at (recsOf d) j))))))
(foreach (X EX) ((expRefs (expRef (at ps i))) (expBins (expBin (at ps i))))
 (lemma {X}-at ((ps (Seq If)) (k Int) (i Int)) (requires (<= 0 k))
  (opaque expRef expBin)
  (ensures (= (len ({X} ps k)) k)) (ensures (=> (<= 0 i) (< i k) (= (at ({X} ps k) i) {EX}))) (measure k)
  (hint (use {X}-at ps (- k 1) i) (unfold {X} ps k))))
(lemma expStreams-at ((E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (t Int) (cs (Seq If)) (off Int) (k Int) (i Int)) (requires (<= 0 k))
  (opaque expStream)
  (ensures (= (len (expStreams E H B X t cs off k)) k)) (ensures (=> (<= 0 i) (< i k) (= (at (expStreams E H B X t cs off k) i) (expStream E H (at cs i) (at X (+ off i)) (at B (+ off i)) t)))) (measure k)
  (hint (use expStreams-at E H B X t cs off (- k 1) i) (unfold expStreams E H B X t cs off k)))
(lemma expRecs-at ((E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (t Int) (rs (Seq If)) (off Int) (k Int) (i Int)) (requires (<= 0 k))
  (opaque expRec allCs)
  (ensures (= (len (expRecs E H B X t rs off k)) k)) (ensures (=> (<= 0 i) (< i k) (= (at (expRecs E H B X t rs off k) i) (expRec E H B X t (at rs i) (+ off (len (allCs rs i))))))) (measure k)
  (hint (use expRecs-at E H B X t rs off (- k 1) i) (unfold expRecs E H B X t rs off k)))
(lemma same-Ref ((p If)) (requires (!= p nil)) (ensures (sameRef p (expRef p))))
(lemma same-Bin ((p If)) (requires (!= p nil)) (requires (= (sizeBin p) (len (dataOf p)))) (ensures (sameBin p (expBin p))))
; every collection goes to the first encoder that accepts it, and is stored by it
(def stored1 ((R (Seq If)) (A (Seq If)) (E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (x Int)) Bool
  (and (!= (at A x) nil) (<= 0 (at X x)) (< (at X x) (len H)) (= (at E (at X x)) (pickE R (len R) (at A x)))
     (encoded (at E (at X x)) (at H (at X x)) (at B x) (at A x))))
(def storedAll ((R (Seq If)) (A (Seq If)) (E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int))) Bool
  (forall ((x Int)) (:pat (at A x)) (:pat (at B x)) (:pat (at X x)) (=> (<= 0 x) (< x (len A)) (stored1 R A E H B X x))))
(lemma same-Coll ((R (Seq If)) (A (Seq If)) (E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (t Int) (x Int))
  (requires (stored1 R A E H B X x)) (requires (<= 0 t 2)) (opaque keptBy storedT pickE)
  (ensures (sameColl R t (at A x) (expStream E H (at A x) (at X x) (at B x) t)))
  (hint (use len-storedT t (capsOf (at A x)))))
(lemma loads ((R (Seq If)) (A (Seq If)) (E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (t Int) (r If) (off Int))
  (requires (storedAll R A E H B X)) (requires (<= 0 t 2)) (requires (noNils r)) (requires (wfR r)) (requires (pieceOf A off (allC r)))
  (opaque sameColl sameRef sameBin stored1 expRef expBin expStream allC allCs noNils wfR expRec expRecs expRefs expBins expStreams loaded wfB)
  (ensures (loaded R t r (expRec E H B X t r off))) (measure (ite (<= 0 (height r)) (height r) 0))
  (hint (unfold noNils r) (unfold wfR r) (unfold expRec E H B X t r off) (unfold loaded R t r (expRec E H B X t r off)) (use piece-colls A off r)
    (use expRefs-at (refsOf r) (len (refsOf r)) 0) (use expBins-at (binsOf r) (len (binsOf r)) 0) (use expStreams-at E H B X t (collsOf r) off (len (collsOf r)) 0)
    (use expRecs-at E H B X t (recsOf r) (+ off (len (collsOf r))) (len (recsOf r)) 0)
    (forall ((j Int)) (:pat (at (refsOf r) j)) (and (use expRefs-at (refsOf r) (len (refsOf r)) j) (use same-Ref (at (refsOf r) j))))
    (forall ((j Int)) (:pat (at (binsOf r) j)) (and (use expBins-at (binsOf r) (len (binsOf r)) j) (use same-Bin (at (binsOf r) j))))
    (forall ((j Int)) (:pat (at (collsOf r) j)) (and (use expStreams-at E H B X t (collsOf r) off (len (collsOf r)) j) (use piece-at A off (collsOf r) j) (use same-Coll R A E H B X t (+ off j))))
    (forall ((j Int)) (:pat (at (recsOf r) j)) (and (use expRecs-at E H B X t (recsOf r) (+ off (len (collsOf r))) (len (recsOf r)) j) (use piece-child A (+ off (len (collsOf r))) (recsOf r) j)
       (use loads R A E H B X t (at (recsOf r) j) (+ off (len (collsOf r)) (len (allCs (recsOf r) j))))))))
; ---- the writer ----
; every collection goes to the first encoder that accepts it, and that encoder can store it
(def storable ((R (Seq If)) (A (Seq If))) Bool
  (forall ((x Int)) (:pat (at A x)) (=> (<= 0 x) (< x (len A)) (canEnc (pickE R (len R) (at A x)) (at A x)))))
(macro grownC () (drop (out compressWriter) (len (pre (out compressWriter)))))
(lemma cov-up ((ms (Seq format/io.encoderCollectionMapping)) (k Int) (x Int)) (requires (<= 0 k)) (opaque inOrd)
  (ensures (iff (cov ms (+ k 1) x) (or (inOrd (ordOf (at ms k)) x) (cov ms k x)))) (hint (unfold cov ms (+ k 1) x)))
(macro savable (R r) (and (noNils r) (canSave R r)))
(func format/io.Writer.Write (params w r) (results n err) (writer (. w out))
  (requires (!= r nil)) (requires (noNilE (. w encoders))) (requires (distinctSigs (. w encoders))) (requires (<= 0 (. w timeStorageTechnique) 2))
  (requires (not (failed (. w out))))
  (requires (=> (savable (. w encoders) r) (and (wfR r) (storable (. w encoders) (allC r)))))
  (opaque noNils canSave allC cov inO pickE wfR keysRec encoded canEnc okSs valSs lenSs okSA valSA lenSA okRec valRec lenRec encTable encsM expRec okFile valFile lenFile wholeV2 distinctSigs height encSs encUs encU okBody valBody lenBody pick recent loaded storedT)
  (hint-entry (ghost A (allC r)) (assert (pieceOf A 0 (allC r))))
  (hint (on K (ghost W (written (. w out))) (ghost c (drop W (+ 2 (len (encTable ms))))) (ghost b (ite (. w compress) (inflate c) c)) (ghost d (drop b (+ (len G) (len (encSA K)))))
    (assert (=> (= err nil) (= c (ite (. w compress) (deflate b) b))))
    (assert (=> (= err nil) (= W (fileOf ms (ite (. w compress) 1 0) c))))
    (assert (=> (= err nil) (= b (cat G (cat (encSA K) d)))))
    (assert (=> (= err nil) (and (okRec K E (valSs G (len E)) d) (= (lenRec d) (len d)))))
    (assert (=> (= err nil) (= (valRec K E (valSs G (len E)) d) (expRec E (valSs G (len E)) B X (. w timeStorageTechnique) r 0))))
    (use mk-Body E G K d) (use mk-File (. w encoders) ms (ite (. w compress) 1 0) b c)
    (use loads (. w encoders) A E (valSs G (len E)) B X (. w timeStorageTechnique) r 0)))
  (ensures refused (=> (not (savable (. w encoders) r)) (and (!= err nil) (= (out (. w out)) (old (out (. w out)))))))
  (ensures file (=> (= err nil) (and (okFile (. w encoders) (written (. w out))) (wholeV2 (. w encoders) (written (. w out))))))
  (ensures loads (=> (= err nil) (loaded (. w encoders) (. w timeStorageTechnique) r (valFile (. w encoders) (written (. w out))))))
  (ensures length (=> (= err nil) (= n (lenFile (. w encoders) (written (. w out))))))
  (ensures count (=> (= err nil) (not (. w compress)) (= n (len (written (. w out))))))
  (loop 0 (vars (encoderMappings []format/io.encoderCollectionMapping) (encodingBlocks [][]byte) (streamIndexToEncoderUsedIndex []int) (totalBytesWritten int) (compressWriter io.WriteCloser))
    (hint-entry (ghost ms encoderMappings) (ghost E (encsM encoderMappings (len encoderMappings))) (unfold okSs (empty Bytes) 0) (unfold valSs (empty Bytes) 0) (unfold lenSs (empty Bytes) 0) (use encsM-at ms (len ms) 0))
    (hint-body (use encsM-at ms (len ms) $k))
    (hint (forall ((x Int)) (:pat (cov ms $k x)) (use cov-up ms (- $k 1) x))
      (assert (= (grownC) (cat (head (grownC)) (encS hd))))
      (use app-Ss (head (grownC)) (- $k 1) hd))
    (hint-exit (ghost G (grownC)) (ghost B encodingBlocks) (ghost X streamIndexToEncoderUsedIndex) (ghost H (valSs G (len ms)))
      (assert (fits A E H B X)) (assert (storedAll (. w encoders) A E H B X)))
    (inv sizes (and (= (len encodingBlocks) (len A)) (= (len streamIndexToEncoderUsedIndex) (len A))))
    (inv fine (and (clean compressWriter) (not (failed compressWriter)) (not (failed (. w out)))))
    (inv total (= totalBytesWritten (+ (pre totalBytesWritten) (len (grownC)))))
    (inv grows (= (out compressWriter) (cat (pre (out compressWriter)) (grownC))))
    (inv headers (and (okSs (grownC) $k) (= (lenSs (grownC) $k) (len (grownC)))))
    (inv each (forall ((x Int)) (:pat (at A x)) (:pat (cov ms $k x)) (:pat (at encodingBlocks x)) (:pat (at streamIndexToEncoderUsedIndex x)) (=> (<= 0 x) (< x (len A)) (cov ms $k x)
       (stored1 (. w encoders) A E (valSs (grownC) $k) encodingBlocks streamIndexToEncoderUsedIndex x)))))
  (loop 1 (vars (encoderIndex int) (encodingBlocks [][]byte) (streamIndexToEncoderUsedIndex []int) (val format/io.encoderCollectionMapping) (streamsEncoded [][]byte) (header []byte))
    (hint-body (unfold goodOne (. w encoders) A val 0 (len A)))
    (hint (forall ((x Int)) (:pat (inO (ordOf val) $k x)) (unfold inO (ordOf val) $k x)))
    (hint-entry (forall ((x Int)) (:pat (inO (ordOf val) 0 x)) (unfold inO (ordOf val) 0 x)))
    (hint-exit (ghost hd header))
    (inv sizes (and (= (len encodingBlocks) (len A)) (= (len streamIndexToEncoderUsedIndex) (len A))))
    (inv done (forall ((x Int)) (:pat (inO (ordOf val) $k x)) (:pat (at encodingBlocks x)) (:pat (at streamIndexToEncoderUsedIndex x)) (=> (inO (ordOf val) $k x)
      (and (= (at streamIndexToEncoderUsedIndex x) encoderIndex) (!= (at A x) nil) (= (encOf val) (pickE (. w encoders) (len (. w encoders)) (at A x))) (encoded (encOf val) header (at encodingBlocks x) (at A x))))))
    (inv others (forall ((x Int)) (:pat (inO (ordOf val) $k x)) (:pat (at encodingBlocks x)) (:pat (at streamIndexToEncoderUsedIndex x)) (=> (not (inO (ordOf val) $k x))
      (and (= (at streamIndexToEncoderUsedIndex x) (at (pre streamIndexToEncoderUsedIndex) x)) (= (at encodingBlocks x) (at (pre encodingBlocks) x)))))))
  (loop 2 (vars (allKeys []string) (keyMappingToIndex map[string]int))
    (hint-exit (assert (listOf keyMappingToIndex allKeys)) (ghost K allKeys))
    (inv size (= (len allKeys) (len keyMappingToIndex)))
    (inv each (forall ((j Int)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (= (at allKeys (mget keyMappingToIndex (at $keys j))) (at $keys j)))))))
; the standard writer
(func format/io.NewRecoludeWriter (params out) (results w)
  (ensures standard (and (= (. w encoders) (stdEncs)) (= (. w timeStorageTechnique) 2) (. w compress))))
(func format/io.NewWriter (params es compress out t) (results w)
  (ensures given (and (= (. w encoders) es) (= (. w timeStorageTechnique) t) (= (. w compress) compress))))
(lemma std-encoders () (ensures (noNilE (stdEncs))) (ensures (distinctSigs (stdEncs))))
; what was saved is loaded again: the loader accepts what the writer wrote, and finds in it the recording that was saved
(lemma saved-loads ((R (Seq If)) (t Int) (r If) (s Bytes)) (requires (loaded R t r (valFile R s))) (opaque valFile sameColl sameRef sameBin)
  (ensures (= (idOf (valFile R s)) (idOf r))) (ensures (= (nameR (valFile R s)) (nameR r))) (ensures (= (mdOf (valFile R s)) (mdOf r)))
  (ensures (= (len (collsOf (valFile R s))) (len (collsOf r)))) (ensures (= (len (recsOf (valFile R s))) (len (recsOf r))))
  (hint (unfold loaded R t r (valFile R s))))
(property C01 (roots format/io.Writer.Write format/io.NewWriter format/io.NewRecoludeWriter format/io.Reader.Read format/io.Load
    format/io.Writer.evaluateCollections format/io.accumulateMetdataKeys format/io.calcNumStreams format/io.checkForNilInterfaces format/io.writeEncoders format/io.recurseRecordingToBytes format/io.writeMetadata format/io.Reader.readEncoders
    format/encoding.Encoder.Encode format/encoding.Encoder.Decode)
  (lemmas loads saved-loads std-encoders mk-File mk-Body mk-Stream mk-Ref mk-Bin mk-Rec app-Streams app-Refs app-Bins app-Recs same-Coll expStreams-at)
  (by C04 format/io.encodeTime format/io.decodeTime rt-Time)
  (by C05 format/encoding/position.Encoder.Encode format/encoding/euler.Encoder.Encode format/encoding/float.Encoder.Encode format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Decode format/encoding/float.Encoder.Decode rt-Coll-position rt-Coll-euler rt-Coll-float)
  (by C07 format/encoding/enum.Encoder.Encode format/encoding/enum.Encoder.Decode rt-enum rt-enumCaps) (by C08 format/encoding/event.Encoder.Encode format/encoding/event.Encoder.Decode)
  (by C02 format/metadata.ReadProperty format/metadata.WriteProprty app-Ps pre-Ps))
(property C03 (roots format/io.Writer.Write format/io.recurseRecordingToBytes format/io.Reader.Read format/io.recursiveBuidRecordings) (lemmas loads mk-Ref mk-Bin same-Ref same-Bin)
  (by C01 format/io.Writer.evaluateCollections format/io.accumulateMetdataKeys format/io.calcNumStreams format/io.checkForNilInterfaces format/io.writeEncoders format/io.Reader.readEncoders format/encoding.Encoder.Encode format/encoding.Encoder.Decode mk-File mk-Body mk-Stream app-Streams app-Recs mk-Rec same-Coll expStreams-at)
  (by C04 format/io.encodeTime format/io.decodeTime rt-Time)
  (by C05 format/encoding/position.Encoder.Encode format/encoding/euler.Encoder.Encode format/encoding/float.Encoder.Encode format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Decode format/encoding/float.Encoder.Decode)
  (by C07 format/encoding/enum.Encoder.Encode format/encoding/enum.Encoder.Decode) (by C08 format/encoding/event.Encoder.Encode format/encoding/event.Encoder.Decode)
  (by C02 format/metadata.ReadProperty format/metadata.WriteProprty app-Ps pre-Ps))
(property C09 (roots format/io.Writer.Write format/io.recurseRecordingToBytes format/io.writeMetadata format/io.writeEncoders format/io.errWriter.Write format/io.Reader.Read format/io.Load format/io.recursiveBuidRecordings format/io.readRecordingMetadataBlock
    internal/io/binary.ReadUvarint internal/io/binary.ReadString internal/io/binary.ReadBytesArray internal/io/binary.ReadStringArray internal/io/binary.ReadUvarIntArray internal/io/binary.ReadN internal/io/binary.ErrReader.Read internal/io/binary.ErrReader.ReadByte
    internal/io/binary.StringToBytes internal/io/binary.BytesArrayToBytes internal/io/binary.StringArrayToBytes internal/io/binary.UvarintArrayToBytes) (lemmas rt-S rt-SA rt-UA rt-U)
  (by C01 format/io.Writer.evaluateCollections format/io.accumulateMetdataKeys format/io.calcNumStreams format/io.checkForNilInterfaces format/io.Reader.readEncoders format/encoding.Encoder.Encode format/encoding.Encoder.Decode mk-File mk-Body mk-Stream mk-Ref mk-Bin app-Streams app-Refs app-Bins app-Recs mk-Rec loads)
  (by C04 format/io.encodeTime format/io.decodeTime rt-Time)
  (by C05 format/encoding/position.Encoder.Encode format/encoding/euler.Encoder.Encode format/encoding/float.Encoder.Encode format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Decode format/encoding/float.Encoder.Decode)
  (by C07 format/encoding/enum.Encoder.Encode format/encoding/enum.Encoder.Decode) (by C08 format/encoding/event.Encoder.Encode format/encoding/event.Encoder.Decode)
  (by C02 format/metadata.ReadProperty format/metadata.WriteProprty app-Ps pre-Ps))
(property C10 (roots format/io.Writer.Write format/io.recurseRecordingToBytes format/io.writeMetadata format/io.writeEncoders format/io.errWriter.Write format/io.encodeTime) (lemmas)
  (by C01 format/io.Writer.evaluateCollections format/io.accumulateMetdataKeys format/io.calcNumStreams format/io.checkForNilInterfaces format/encoding.Encoder.Encode mk-File mk-Body mk-Stream mk-Ref mk-Bin app-Streams app-Refs app-Bins app-Recs mk-Rec loads)
  (by C04 rt-Time)
  (by C05 format/encoding/position.Encoder.Encode format/encoding/euler.Encoder.Encode format/encoding/float.Encoder.Encode)
  (by C07 format/encoding/enum.Encoder.Encode) (by C08 format/encoding/event.Encoder.Encode)
  (by C02 format/metadata.WriteProprty app-Ps pre-Ps))
(property C14 (roots format/io.Writer.Write format/io.Writer.evaluateCollections format/io.checkForNilInterfaces format/io.NewWriter format/io.NewRecoludeWriter) (lemmas std-encoders ownE-new ownE-up pickE-up)
  (by C01 format/io.recurseRecordingToBytes format/io.writeMetadata format/io.accumulateMetdataKeys format/io.calcNumStreams format/io.writeEncoders format/encoding.Encoder.Encode mk-File mk-Body mk-Stream mk-Ref mk-Bin app-Streams app-Refs app-Bins app-Recs mk-Rec loads))
