; ---- writing ----
; an errWriter passes data on until a write fails and keeps that error
(func format/io.errWriter.Write (params e buf) (results k err) (modifies e)
  (requires (=> (!= (. e err) nil) (failed e)))
  (ensures sticky (=> (!= (old (. e err)) nil) (and (= k 0) (= err (old (. e err))) (= (. e err) (old (. e err))) (= (. e n) (old (. e n))) (failed e))))
  (ensures submit (=> (= (old (. e err)) nil) (and (= (out e) (cat (old (out e)) buf)) (= (. e err) err) (iff (failed e) (or (old (failed e)) (!= err nil)))
     (<= 0 k (len buf)) (=> (= err nil) (= k (len buf))) (= (. e n) (+ (old (. e n)) k))))))
; ---- metadata ----
(macro mapB (b) (. b mapping))
(def wfB ((b format/metadata.Block)) Bool
  (forall ((q string)) (:pat (mget (mapB b) q)) (=> (mhas (mapB b) q) (wfP (mget (mapB b) q)))))
(def keysIn ((b format/metadata.Block) (M map[string]int)) Bool
  (forall ((q string)) (:pat (mget (mapB b) q)) (:pat (mhas (mapB b) q)) (=> (mhas (mapB b) q) (mhas M q))))
(lemma keysL-is ((M map[string]int) (K (Seq Bytes)) (ids (Seq uint)) (ks (Seq Bytes)))
  (requires (indexMap M)) (requires (listOf M K)) (requires (= (len ids) (len ks)))
  (requires (forall ((j Int)) (:pat (at ids j)) (:pat (at ks j)) (=> (<= 0 j) (< j (len ids)) (and (mhas M (at ks j)) (= (at ids j) (mget M (at ks j)))))))
  (ensures (idsL K ids)) (ensures (= (keysL K ids) ks))
  (hint (use keysM-is M ids ks) (use keysM-list M K ids)))
(lemma mk-M ((K (Seq Bytes)) (ids (Seq uint)) (b Bytes) (ks (Seq Bytes)) (m format/metadata.Block))
  (requires (idsL K ids)) (requires (= (keysL K ids) ks)) (requires (= (len ids) (len ks)))
  (requires (okPs b (len ks))) (requires (= (lenPs b (len ks)) (len b))) (requires (= (valPs ks b (noProps)) (mapB m)))
  (ensures (okM K (cat (encUA ids) b))) (ensures (= (lenM (cat (encUA ids) b)) (len (cat (encUA ids) b)))) (ensures (= (valM K (cat (encUA ids) b)) m))
  (hint (use rt-UA ids b) (assert (= (mIds (cat (encUA ids) b)) ids)) (assert (= (mBody (cat (encUA ids) b)) b))
    (assert (= (valM K (cat (encUA ids) b)) (mk format/metadata.Block (mapB m))))))
(func format/io.writeMetadata (params out M block) (results n err) (writer out) (ghost (K (Seq Bytes)))
  (requires (indexMap M)) (requires (listOf M K)) (requires (wfB block)) (requires (keysIn block M))
  (opaque okM valM lenM)
  (ensures ok (=> (!= err nil) (failed out)))
  (ensures bytes (=> (= err nil) (okM K (written out))))
  (ensures length (=> (= err nil) (= (lenM (written out)) (len (written out)))))
  (ensures value (=> (= err nil) (= (valM K (written out)) block)))
  (ensures count (=> (= err nil) (= n (len (written out)))))
  (loop 0 (vars (metadataIndices []uint) (metadataValuesBuffer bytes.Buffer) (i int))
    (hint-body (assert (=> (< $k (len $keys)) (mhas (mapB block) (at $keys $k)))) (assert (=> (< $k (len $keys)) (wfP (mget (mapB block) (at $keys $k))))))
    (hint (assert (= (len (take $keys (- $k 1))) (- $k 1)))
       (assert (= (out metadataValuesBuffer) (cat (head (out metadataValuesBuffer)) (drop (out metadataValuesBuffer) (len (head (out metadataValuesBuffer)))))))
       (use app-Ps (take $keys (- $k 1)) (head (out metadataValuesBuffer)) (noProps) (at $keys (- $k 1)) (drop (out metadataValuesBuffer) (len (head (out metadataValuesBuffer)))))
       (use take-next-B $keys (- $k 1)))
    (hint-exit (assert (= (take $keys $k) $keys))
       (assert (mapeq (valPs $keys (out metadataValuesBuffer) (noProps)) (mapB block)))
       (assert (= (valPs $keys (out metadataValuesBuffer) (noProps)) (mapB block)))
       (use keysL-is M K metadataIndices $keys)
       (use mk-M K metadataIndices (out metadataValuesBuffer) $keys block)
       (assert (okM K (cat (encUA metadataIndices) (out metadataValuesBuffer)))))
    (inv count (= i $k))
    (inv size (= (len metadataIndices) (len $keys)))
    (inv ids (forall ((j Int)) (:pat (at metadataIndices j)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (and (mhas M (at $keys j)) (= (at metadataIndices j) (mget M (at $keys j)))))))
    (inv ok (okPs (out metadataValuesBuffer) $k))
    (inv length (= (lenPs (out metadataValuesBuffer) $k) (len (out metadataValuesBuffer))))
    (inv has (forall ((q string)) (:pat (mhas (mapB block) q)) (:pat (mhas (valPs (take $keys $k) (out metadataValuesBuffer) (noProps)) q))
       (iff (mhas (valPs (take $keys $k) (out metadataValuesBuffer) (noProps)) q)
            (and (mhas (mapB block) q) (< (midx (mapB block) $keys q) $k)))))
    (inv get (forall ((q string)) (:pat (mget (valPs (take $keys $k) (out metadataValuesBuffer) (noProps)) q))
       (=> (mhas (valPs (take $keys $k) (out metadataValuesBuffer) (noProps)) q)
           (= (mget (valPs (take $keys $k) (out metadataValuesBuffer) (noProps)) q) (mget (mapB block) q)))))))
; ---- the table of encoders ----
(macro encOf (m) (. m encoder))
(rec sigsM ((ms (Seq format/io.encoderCollectionMapping)) (k Int)) (Seq Bytes)
  (ite (<= k 0) (empty (Seq Bytes)) (cat (sigsM ms (- k 1)) (unit (sigOf (encOf (at ms (- k 1))))))))
(rec versM ((ms (Seq format/io.encoderCollectionMapping)) (k Int)) (Seq uint)
  (ite (<= k 0) (empty (Seq uint)) (cat (versM ms (- k 1)) (unit (verOf (encOf (at ms (- k 1)))) (Seq uint)))))
(rec encsM ((ms (Seq format/io.encoderCollectionMapping)) (k Int)) (Seq If)
  (ite (<= k 0) (empty (Seq If)) (cat (encsM ms (- k 1)) (unit (encOf (at ms (- k 1)))))))
(foreach (F S) ((sigsM (sigOf (encOf (at ms i)))) (versM (verOf (encOf (at ms i)))) (encsM (encOf (at ms i))))
 (lemma {F}-at ((ms (Seq format/io.encoderCollectionMapping)) (k Int) (i Int)) (requires (<= 0 k))
  (ensures (= (len ({F} ms k)) k)) (ensures (=> (<= 0 i) (< i k) (= (at ({F} ms k) i) {S}))) (measure k)
  (hint (use {F}-at ms (- k 1) i) (unfold {F} ms k))))
(def encs-ok ((ms (Seq format/io.encoderCollectionMapping))) Bool
  (forall ((i Int)) (:pat (at ms i)) (=> (<= 0 i) (< i (len ms)) (!= (encOf (at ms i)) nil))))
(lemma take-next-u ((s (Seq uint)) (k Int))
  (requires (<= 0 k)) (requires (< k (len s)))
  (ensures (= (take s (+ k 1)) (cat (take s k) (unit (at s k) (Seq uint))))))
(def encTable ((ms (Seq format/io.encoderCollectionMapping))) Bytes (cat (encSA (sigsM ms (len ms))) (encUs (versM ms (len ms)))))
(func format/io.writeEncoders (params out ms) (results n err) (writer out)
  (requires (encs-ok ms))
  (ensures ok (=> (!= err nil) (failed out)))
  (ensures bytes (=> (= err nil) (= (out out) (cat (old (out out)) (encTable ms)))))
  (ensures count (=> (= err nil) (= n (len (encTable ms)))))
  (loop 0 (vars (encoderSignatures []string) (encoderVersions []uint) (i int))
    (hint-entry (use sigsM-at ms 0 0) (use versM-at ms 0 0))
    (hint (use take-next-B encoderSignatures (- $k 1)) (use take-next-u encoderVersions (- $k 1)) (unfold sigsM ms $k) (unfold versM ms $k)
       (assert (= (take (head encoderSignatures) (- $k 1)) (take encoderSignatures (- $k 1))))
       (assert (= (take (head encoderVersions) (- $k 1)) (take encoderVersions (- $k 1)))))
    (inv count (= i $k))
    (inv sizes (and (= (len encoderSignatures) (len ms)) (= (len encoderVersions) (len ms))))
    (inv sigs (= (take encoderSignatures $k) (sigsM ms $k)))
    (inv vers (= (take encoderVersions $k) (versM ms $k))))
  (loop 1 (vars (totalWritten int) (encoderVersions []uint) (varByte []byte))
    (hint-body (unfold encUs (drop encoderVersions $k)))
    (inv fine (iff (failed out) (pre (failed out))))
    (inv room (= (len varByte) 10))
    (inv bytes (= (cat (out out) (encUs (drop encoderVersions $k))) (cat (pre (out out)) (encUs encoderVersions))))
    (inv count (= totalWritten (+ (pre totalWritten) (- (len (out out)) (len (pre (out out)))))))))
; ---- refusal of nil parts ----
(macro binsOf (r) (@format.Recording.Binaries r))
(macro refsOf (r) (@format.Recording.BinaryReferences r))
(rec noNils ((r If)) Bool
  (and (!= r nil)
    (forall ((j Int)) (:pat (at (refsOf r) j)) (=> (<= 0 j) (< j (len (refsOf r))) (!= (at (refsOf r) j) nil)))
    (forall ((j Int)) (:pat (at (binsOf r) j)) (=> (<= 0 j) (< j (len (binsOf r))) (!= (at (binsOf r) j) nil)))
    (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (noNils (at (recsOf r) j))))))
(func format/io.checkForNilInterfaces (params r) (results err)
  (ensures exact (iff (= err nil) (noNils r)))
  (loop 0 (inv refs (forall ((j Int)) (:pat (at (refsOf r) j)) (=> (<= 0 j) (< j $k) (!= (at (refsOf r) j) nil)))))
  (loop 1 (inv bins (forall ((j Int)) (:pat (at (binsOf r) j)) (=> (<= 0 j) (< j $k) (!= (at (binsOf r) j) nil)))))
  (loop 2 (inv recs (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j $k) (noNils (at (recsOf r) j)))))))
; ---- the collections of the whole tree, in the order they are written ----
(rec allC ((r If)) (Seq If) (cat (collsOf r) (allCs (recsOf r) (len (recsOf r)))))
(rec allCs ((rs (Seq If)) (k Int)) (Seq If) (ite (<= k 0) (empty (Seq If)) (cat (allCs rs (- k 1)) (allC (at rs (- k 1))))))
(func format/io.calcNumStreams (params r) (results n)
  (requires (noNils r))
  (hint-entry (unfold noNils r) (unfold allC r))
  (ensures count (= n (len (allC r))))
  (loop 0 (vars (total int))
    (hint-body (unfold allCs (recsOf r) (+ $k 1)) (unfold allCs (recsOf r) 0))
    (inv total (= total (len (allCs (recsOf r) $k))))))
; ---- every metadata key of the tree gets an index ----
(macro mdOf (r) (@format.Recording.Metadata r))
(macro refMd (b) (@format.BinaryReference.Metadata b))
(macro binMd (b) (@format.Binary.Metadata b))
(rec keysRec ((r If) (M map[string]int)) Bool
  (and (keysIn (mdOf r) M)
    (forall ((j Int)) (:pat (at (refsOf r) j)) (=> (<= 0 j) (< j (len (refsOf r))) (keysIn (refMd (at (refsOf r) j)) M)))
    (forall ((j Int)) (:pat (at (binsOf r) j)) (=> (<= 0 j) (< j (len (binsOf r))) (keysIn (binMd (at (binsOf r) j)) M)))
    (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (keysRec (at (recsOf r) j) M)))))
; recordings are finite trees
(macro height (r) (sym height Int r))
(axiom finite-tree ((r If) (j Int))
  (and (<= 0 (height r)) (=> (<= 0 j) (< j (len (recsOf r))) (< (height (at (recsOf r) j)) (height r)))) (pat (height (at (recsOf r) j))))
(lemma keysIn-mono ((b format/metadata.Block) (M map[string]int) (N map[string]int)) (requires (subM M N)) (requires (keysIn b M)) (ensures (keysIn b N)) (auto (keysIn b M) (subM M N)))
(lemma keysRec-mono ((r If) (M map[string]int) (N map[string]int)) (requires (subM M N)) (requires (keysRec r M))
  (ensures (keysRec r N)) (measure (ite (<= 0 (height r)) (height r) 0)) (auto (keysRec r M) (subM M N))
  (hint (unfold keysRec r M) (unfold keysRec r N)
    (forall ((j Int)) (:pat (at (recsOf r) j)) (use keysRec-mono (at (recsOf r) j) M N))))
(lemma subM-trans ((A map[string]int) (B map[string]int) (C map[string]int)) (requires (subM A B)) (requires (subM B C)) (ensures (subM A C)))
(func format/io.accumulateMetdataKeys (params r M) (results) (modifies M)
  (requires (noNils r)) (requires (indexMap M))
  (hint-entry (unfold noNils r))
  (hint (unfold keysRec r M))
  (ensures index (indexMap M))
  (ensures kept (subM (old M) M))
  (ensures keys (keysRec r M))
  (loop 0 (vars (keyCount int))
    (hint-body (use indexMap-add M (at $keys $k)))
    (hint (use subM-trans (pre M) (head M) M))
    (hint-exit (assert (keysIn (mdOf r) M)))
    (inv index (indexMap M)) (inv count (= keyCount (len M))) (inv kept (subM (pre M) M))
    (inv keys (forall ((j Int)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (mhas M (at $keys j))))))
  (loop 1 (vars (keyCount int))
    (hint (use subM-trans (pre M) (head M) M))
    (inv index (indexMap M)) (inv count (= keyCount (len M))) (inv kept (subM (pre M) M))
    (inv keys (forall ((j Int)) (:pat (at (refsOf r) j)) (=> (<= 0 j) (< j $k) (keysIn (refMd (at (refsOf r) j)) M)))))
  (loop 2 (vars (keyCount int) (ref format.BinaryReference))
    (hint-body (use indexMap-add M (at $keys $k)))
    (hint (use subM-trans (pre M) (head M) M))
    (hint-exit (assert (keysIn (refMd ref) M)))
    (inv index (indexMap M)) (inv count (= keyCount (len M))) (inv kept (subM (pre M) M))
    (inv keys (forall ((j Int)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (mhas M (at $keys j))))))
  (loop 3 (vars (keyCount int))
    (hint (use subM-trans (pre M) (head M) M))
    (inv index (indexMap M)) (inv count (= keyCount (len M))) (inv kept (subM (pre M) M))
    (inv keys (forall ((j Int)) (:pat (at (binsOf r) j)) (=> (<= 0 j) (< j $k) (keysIn (binMd (at (binsOf r) j)) M)))))
  (loop 4 (vars (keyCount int) (bin format.Binary))
    (hint-body (use indexMap-add M (at $keys $k)))
    (hint (use subM-trans (pre M) (head M) M))
    (hint-exit (assert (keysIn (binMd bin) M)))
    (inv index (indexMap M)) (inv count (= keyCount (len M))) (inv kept (subM (pre M) M))
    (inv keys (forall ((j Int)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (mhas M (at $keys j))))))
  (loop 5
    (hint (use subM-trans (pre M) (head M) M))
    (inv index (indexMap M)) (inv kept (subM (pre M) M))
    (inv keys (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j $k) (keysRec (at (recsOf r) j) M))))))
; ---- what the loader makes of the bytes of one recording ----
(macro dataOf (p) (ite (is format/io.Binary p) (. (unbox format/io.Binary p) data) (sym dataOf Bytes p)))
(iface format.Binary (impl format/io.Binary))
(iface format.BinaryReference (impl format/io.BinaryReference))
(imethod format.Binary.Data (params p) (results r)
  (ensures content (= (rem r) (dataOf p))) (ensures ends (ends r)))
; every collection of the tree is stored by encoder X[i] as block B[i]
(def fits ((A (Seq If)) (E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int))) Bool
  (and (= (len B) (len A)) (= (len X) (len A)) (= (len H) (len E))
    (forall ((x Int)) (:pat (at A x)) (:pat (at B x)) (:pat (at X x)) (=> (<= 0 x) (< x (len A))
      (and (!= (at A x) nil) (<= 0 (at X x)) (< (at X x) (len E)) (encoded (at E (at X x)) (at H (at X x)) (at B x) (at A x)))))))
(def encStream ((c If) (x Int) (b Bytes) (t Int)) Bytes (cat (encU x) (cat (encS (nameC c)) (cat (encTime t (capsOf c)) (encS b)))))
(def expStream ((E (Seq If)) (H (Seq Bytes)) (c If) (x Int) (b Bytes) (t Int)) If (decVal (at E x) (nameC c) (at H x) b (storedT t (capsOf c))))
(rec expStreams ((E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (t Int) (cs (Seq If)) (off Int) (k Int)) (Seq If)
  (ite (<= k 0) (empty (Seq If)) (cat (expStreams E H B X t cs off (- k 1)) (unit (expStream E H (at cs (- k 1)) (at X (+ off (- k 1))) (at B (+ off (- k 1))) t)))))
(def expRef ((p If)) If (box format/io.BinaryReference (mk format/io.BinaryReference (@format.BinaryReference.Name p) (@format.BinaryReference.URI p) (@format.BinaryReference.Size p) (refMd p))))
(rec expRefs ((ps (Seq If)) (k Int)) (Seq If) (ite (<= k 0) (empty (Seq If)) (cat (expRefs ps (- k 1)) (unit (expRef (at ps (- k 1)))))))
(def expBin ((p If)) If (box format/io.Binary (mk format/io.Binary (@format.Binary.Name p) (dataOf p) (binMd p))))
(rec expBins ((ps (Seq If)) (k Int)) (Seq If) (ite (<= k 0) (empty (Seq If)) (cat (expBins ps (- k 1)) (unit (expBin (at ps (- k 1)))))))
(rec expRec ((E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (t Int) (r If) (off Int)) If
  (box format.recording (mk format.recording (@format.Recording.ID r) (@format.Recording.Name r)
     (expStreams E H B X t (collsOf r) off (len (collsOf r)))
     (expRecs E H B X t (recsOf r) (+ off (len (collsOf r))) (len (recsOf r)))
     (mdOf r) (expBins (binsOf r) (len (binsOf r))) (expRefs (refsOf r) (len (refsOf r))))))
(rec expRecs ((E (Seq If)) (H (Seq Bytes)) (B (Seq Bytes)) (X (Seq int)) (t Int) (rs (Seq If)) (off Int) (k Int)) (Seq If)
  (ite (<= k 0) (empty (Seq If)) (cat (expRecs E H B X t rs off (- k 1)) (unit (expRec E H B X t (at rs (- k 1)) (+ off (len (allCs rs (- k 1)))))))))
(lemma len-storedT64 ((cs (Seq If))) (ensures (= (len (storedT64 cs)) (len cs))) (measure (len cs)) (hint (use len-storedT64 (drop cs 1))))
(lemma len-storedT32 ((cs (Seq If))) (ensures (= (len (storedT32 cs)) (len cs))) (measure (len cs)) (hint (use len-storedT32 (drop cs 1))))
(lemma len-kept16 ((cs (Seq If)) (i Int) (cur F64) (d F64) (cur2 F64) (d2 F64)) (requires (<= 0 i (len cs)))
  (ensures (= (len (kept16 cs i cur d cur2 d2)) (- (len cs) i))) (measure (- (len cs) i)) (auto (kept16 cs i cur d cur2 d2))
  (hint (use len-kept16 cs (+ i 1) (fadd cur (uq16 d (q16 (timeI cs i) cur d))) d (fadd cur2 (uq16 d2 (q16 (timeI cs i) cur d))) d2)))
(lemma len-storedT ((t Int) (cs (Seq If))) (ensures (= (len (storedT t cs)) (len cs)))
  (hint (use len-storedT64 cs) (use len-storedT32 cs)))
; items
(lemma mk-Stream ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (c If) (x Int) (b Bytes) (t Int))
  (requires (<= 0 t 2)) (requires (<= 0 x)) (requires (< x (len E))) (requires (encoded (at E x) (at H x) b c))
  (opaque okUd valU lenU encU okS valS lenS okTime valTime lenTime encTime storedT)
  (ensures (okStream K E H (encStream c x b t))) (ensures (= (lenStream (encStream c x b t)) (len (encStream c x b t))))
  (ensures (= (valStream K E H (encStream c x b t)) (expStream E H c x b t)))
  (hint (use rt-U x (cat (encS (nameC c)) (cat (encTime t (capsOf c)) (encS b))) 0)
    (use rt-S (nameC c) (cat (encTime t (capsOf c)) (encS b))) (use rt-Time t (capsOf c) (encS b)) (use rt-S b (empty Bytes))
    (assert (= (cat (encS b) (empty Bytes)) (encS b)))
    (assert (= (s1 (encStream c x b t)) (cat (encS (nameC c)) (cat (encTime t (capsOf c)) (encS b)))))
    (assert (= (s2 (encStream c x b t)) (cat (encTime t (capsOf c)) (encS b))))
    (assert (= (s3 (encStream c x b t)) (encS b)))
    (use len-storedT t (capsOf c))))
(lemma mk-Ref ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (nm Bytes) (uri Bytes) (z Int) (m Bytes))
  (requires (<= 0 z)) (requires (< z 18446744073709551616)) (requires (okM K m)) (requires (= (lenM m) (len m)))
  (opaque okUd valU lenU encU okS valS lenS okM valM lenM)
  (ensures (okRef K E H (cat (encS nm) (cat (encS uri) (cat (encU z) m))))) (ensures (= (lenRef (cat (encS nm) (cat (encS uri) (cat (encU z) m)))) (len (cat (encS nm) (cat (encS uri) (cat (encU z) m))))))
  (ensures (= (valRef K E H (cat (encS nm) (cat (encS uri) (cat (encU z) m)))) (box format/io.BinaryReference (mk format/io.BinaryReference nm uri z (valM K m)))))
  (hint (use rt-S nm (cat (encS uri) (cat (encU z) m))) (use rt-S uri (cat (encU z) m)) (use rt-U z m 0)
    (assert (= (f1 (cat (encS nm) (cat (encS uri) (cat (encU z) m)))) (cat (encS uri) (cat (encU z) m))))
    (assert (= (f2 (cat (encS nm) (cat (encS uri) (cat (encU z) m)))) (cat (encU z) m)))
    (assert (= (f3 (cat (encS nm) (cat (encS uri) (cat (encU z) m)))) m))))
(lemma mk-Bin ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (nm Bytes) (m Bytes) (d Bytes))
  (requires (okM K m)) (requires (= (lenM m) (len m)))
  (opaque okUd valU lenU encU okS valS lenS okM valM lenM)
  (ensures (okBin K E H (cat (encS nm) (cat (encU (len d)) (cat m d))))) (ensures (= (lenBin (cat (encS nm) (cat (encU (len d)) (cat m d)))) (len (cat (encS nm) (cat (encU (len d)) (cat m d))))))
  (ensures (= (valBin K E H (cat (encS nm) (cat (encU (len d)) (cat m d)))) (box format/io.Binary (mk format/io.Binary nm d (valM K m)))))
  (hint (use rt-S nm (cat (encU (len d)) (cat m d))) (use rt-U (len d) (cat m d) 0) (use pre-M K (cat m d) (len m))
    (assert (= (take (cat m d) (len m)) m))
    (assert (= (f1 (cat (encS nm) (cat (encU (len d)) (cat m d)))) (cat (encU (len d)) (cat m d))))
    (assert (= (b2 (cat (encS nm) (cat (encU (len d)) (cat m d)))) (cat m d)))
    (assert (= (b3 (cat (encS nm) (cat (encU (len d)) (cat m d)))) d))))
; one more item
(foreach (X) ((Stream) (Ref) (Bin) (Rec))
 (lemma app-{X}s ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (s Bytes) (n Int) (u Bytes))
  (requires (<= 0 n)) (requires (ok{X}s K E H s n)) (requires (= (len{X}s s n) (len s))) (requires (ok{X} K E H u)) (requires (= (len{X} u) (len u)))
  (opaque ok{X} val{X} len{X} ok{X}s val{X}s len{X}s)
  (ensures (ok{X}s K E H (cat s u) (+ n 1))) (ensures (= (len{X}s (cat s u) (+ n 1)) (+ (len s) (len u))))
  (ensures (= (val{X}s K E H (cat s u) (+ n 1)) (cat (val{X}s K E H s n) (unit (val{X} K E H u)))))
  (measure n)
  (hint (unfold ok{X}s K E H s n) (unfold val{X}s K E H s n) (unfold len{X}s s n)
    (unfold ok{X}s K E H (cat s u) (+ n 1)) (unfold val{X}s K E H (cat s u) (+ n 1)) (unfold len{X}s (cat s u) (+ n 1))
    (assert (=> (= n 0) (= (cat s u) u)))
    (unfold ok{X}s K E H (drop u (len u)) 0) (unfold val{X}s K E H (drop u (len u)) 0) (unfold len{X}s (drop u (len u)) 0)
    (assert (=> (< 0 n) (= (take (cat s u) (len s)) s)))
    (use pre-{X} K E H (cat s u) (len s))
    (assert (=> (< 0 n) (and (ok{X} K E H (cat s u)) (= (len{X} (cat s u)) (len{X} s)) (= (val{X} K E H (cat s u)) (val{X} K E H s)) (<= 0 (len{X} s) (len s)))))
    (assert (=> (< 0 n) (= (drop (cat s u) (len{X} s)) (cat (drop s (len{X} s)) u))))
    (use app-{X}s K E H (drop s (len{X} s)) (- n 1) u)))
)
; a whole recording
(macro w9 (nc C) (cat (encU nc) C))
(macro w8 (B nc C) (cat B (w9 nc C)))
(macro w7 (nb B nc C) (cat (encU nb) (w8 B nc C)))
(macro w6 (R nb B nc C) (cat R (w7 nb B nc C)))
(macro w5 (nr R nb B nc C) (cat (encU nr) (w6 R nb B nc C)))
(macro w4 (S nr R nb B nc C) (cat S (w5 nr R nb B nc C)))
(macro w3 (ns S nr R nb B nc C) (cat (encU ns) (w4 S nr R nb B nc C)))
(macro w2 (m ns S nr R nb B nc C) (cat m (w3 ns S nr R nb B nc C)))
(macro w1 (nm m ns S nr R nb B nc C) (cat (encS nm) (w2 m ns S nr R nb B nc C)))
(macro w0 (id nm m ns S nr R nb B nc C) (cat (encS id) (w1 nm m ns S nr R nb B nc C)))
(foreach (X) ((Streams) (Refs) (Bins) (Recs))
 (lemma part-{X} ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (u Bytes) (s Bytes) (n Int))
  (requires (ok{X} K E H u n)) (requires (= (len{X} u n) (len u)))
  (ensures (ok{X} K E H (cat u s) n)) (ensures (= (val{X} K E H (cat u s) n) (val{X} K E H u n))) (ensures (= (len{X} (cat u s) n) (len u)))
  (ensures (= (drop (cat u s) (len{X} (cat u s) n)) s))
  (opaque ok{X} val{X} len{X})
  (hint (assert (= (take (cat u s) (len u)) u)) (use pre-{X} K E H (cat u s) (len u) n))))
(lemma part-M ((K (Seq Bytes)) (u Bytes) (s Bytes))
  (requires (okM K u)) (requires (= (lenM u) (len u))) (opaque okM valM lenM)
  (ensures (okM K (cat u s))) (ensures (= (valM K (cat u s)) (valM K u))) (ensures (= (lenM (cat u s)) (len u))) (ensures (= (drop (cat u s) (lenM (cat u s))) s))
  (hint (assert (= (take (cat u s) (len u)) u)) (use pre-M K (cat u s) (len u))))
(lemma mk-Rec ((K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (id Bytes) (nm Bytes) (m Bytes) (ns Int) (S Bytes) (nr Int) (R Bytes) (nb Int) (B Bytes) (nc Int) (C Bytes))
  (requires (okM K m)) (requires (= (lenM m) (len m)))
  (requires (okStreams K E H S ns)) (requires (= (lenStreams S ns) (len S))) (requires (<= 0 ns)) (requires (< ns 18446744073709551616))
  (requires (okRefs K E H R nr)) (requires (= (lenRefs R nr) (len R))) (requires (<= 0 nr)) (requires (< nr 18446744073709551616))
  (requires (okBins K E H B nb)) (requires (= (lenBins B nb) (len B))) (requires (<= 0 nb)) (requires (< nb 18446744073709551616))
  (requires (okRecs K E H C nc)) (requires (= (lenRecs C nc) (len C))) (requires (<= 0 nc)) (requires (< nc 18446744073709551616))
  (opaque okUd valU lenU encU okS valS lenS okM valM lenM okStreams valStreams lenStreams okRefs valRefs lenRefs okBins valBins lenBins okRecs valRecs lenRecs okRec valRec lenRec)
  (ensures (okRec K E H (w0 id nm m ns S nr R nb B nc C)))
  (ensures (= (lenRec (w0 id nm m ns S nr R nb B nc C)) (len (w0 id nm m ns S nr R nb B nc C))))
  (ensures (= (valRec K E H (w0 id nm m ns S nr R nb B nc C))
     (box format.recording (mk format.recording id nm (valStreams K E H S ns) (valRecs K E H C nc) (valM K m) (valBins K E H B nb) (valRefs K E H R nr)))))
  (hint (unfold okRec K E H (w0 id nm m ns S nr R nb B nc C)) (unfold valRec K E H (w0 id nm m ns S nr R nb B nc C)) (unfold lenRec (w0 id nm m ns S nr R nb B nc C))
    (use rt-S id (w1 nm m ns S nr R nb B nc C)) (assert (= (r1 (w0 id nm m ns S nr R nb B nc C)) (w1 nm m ns S nr R nb B nc C)))
    (use rt-S nm (w2 m ns S nr R nb B nc C)) (assert (= (r2 (w0 id nm m ns S nr R nb B nc C)) (w2 m ns S nr R nb B nc C)))
    (use part-M K m (w3 ns S nr R nb B nc C)) (assert (= (r3 (w0 id nm m ns S nr R nb B nc C)) (w3 ns S nr R nb B nc C)))
    (use rt-U ns (w4 S nr R nb B nc C) 0) (assert (= (r4 (w0 id nm m ns S nr R nb B nc C)) (w4 S nr R nb B nc C)))
    (use part-Streams K E H S (w5 nr R nb B nc C) ns) (assert (= (r5 (w0 id nm m ns S nr R nb B nc C)) (w5 nr R nb B nc C)))
    (use rt-U nr (w6 R nb B nc C) 0) (assert (= (r6 (w0 id nm m ns S nr R nb B nc C)) (w6 R nb B nc C)))
    (use part-Refs K E H R (w7 nb B nc C) nr) (assert (= (r7 (w0 id nm m ns S nr R nb B nc C)) (w7 nb B nc C)))
    (use rt-U nb (w8 B nc C) 0) (assert (= (r8 (w0 id nm m ns S nr R nb B nc C)) (w8 B nc C)))
    (use part-Bins K E H B (w9 nc C) nb) (assert (= (r9 (w0 id nm m ns S nr R nb B nc C)) (w9 nc C)))
    (use rt-U nc C 0) (assert (= (r10 (w0 id nm m ns S nr R nb B nc C)) C))))
; where the collections of a part of the tree lie in the list of all of them
(def pieceOf ((A (Seq If)) (off Int) (P (Seq If))) Bool
  (and (<= 0 off) (<= (+ off (len P)) (len A)) (= P (take (drop A off) (len P)))))
(lemma piece-at ((A (Seq If)) (off Int) (P (Seq If)) (i Int)) (requires (pieceOf A off P)) (requires (<= 0 i)) (requires (< i (len P)))
  (ensures (= (at P i) (at A (+ off i)))) (ensures (< (+ off i) (len A))))
(lemma piece-sub ((A (Seq If)) (off Int) (P (Seq If)) (i Int) (n Int)) (requires (pieceOf A off P)) (requires (<= 0 i)) (requires (<= 0 n)) (requires (<= (+ i n) (len P)))
  (ensures (pieceOf A (+ off i) (take (drop P i) n)))
  (hint (assert (= (take (drop P i) n) (take (drop (take (drop A off) (len P)) i) n))) (assert (= (take (drop P i) n) (take (drop A (+ off i)) n)))))
(lemma allCs-down ((rs (Seq If)) (k Int) (n Int)) (requires (<= 0 k n))
  (ensures (= (take (allCs rs n) (len (allCs rs k))) (allCs rs k))) (ensures (<= (len (allCs rs k)) (len (allCs rs n)))) (measure n)
  (hint (unfold allCs rs n) (use allCs-down rs k (- n 1))))
(lemma piece-colls ((A (Seq If)) (off Int) (r If)) (requires (pieceOf A off (allC r)))
  (opaque allCs)
  (ensures (pieceOf A off (collsOf r))) (ensures (pieceOf A (+ off (len (collsOf r))) (allCs (recsOf r) (len (recsOf r))))) (ensures (= (len (allC r)) (+ (len (collsOf r)) (len (allCs (recsOf r) (len (recsOf r)))))))
  (hint (unfold allC r) (use piece-sub A off (allC r) 0 (len (collsOf r)))
    (assert (= (take (drop (allC r) 0) (len (collsOf r))) (collsOf r)))
    (use piece-sub A off (allC r) (len (collsOf r)) (len (allCs (recsOf r) (len (recsOf r)))))
    (assert (= (take (drop (allC r) (len (collsOf r))) (len (allCs (recsOf r) (len (recsOf r))))) (allCs (recsOf r) (len (recsOf r)))))))
(lemma piece-child ((A (Seq If)) (off Int) (rs (Seq If)) (k Int)) (requires (pieceOf A off (allCs rs (len rs)))) (requires (<= 0 k)) (requires (< k (len rs)))
  (opaque allCs allC)
  (ensures (pieceOf A (+ off (len (allCs rs k))) (allC (at rs k)))) (ensures (= (len (allCs rs (+ k 1))) (+ (len (allCs rs k)) (len (allC (at rs k))))))
  (hint (unfold allCs rs (+ k 1)) (use allCs-down rs (+ k 1) (len rs))
    (use piece-sub A off (allCs rs (len rs)) (len (allCs rs k)) (len (allC (at rs k))))
    (assert (= (take (drop (take (allCs rs (len rs)) (len (allCs rs (+ k 1)))) (len (allCs rs k))) (len (allC (at rs k)))) (allC (at rs k))))
    (assert (= (take (drop (allCs rs (len rs)) (len (allCs rs k))) (len (allC (at rs k)))) (allC (at rs k))))))
; a recording all of whose parts the writer can store
(macro sizeBin (p) (@format.Binary.Size p))
(rec wfR ((r If)) Bool
  (and (wfB (mdOf r))
    (forall ((j Int)) (:pat (at (refsOf r) j)) (=> (<= 0 j) (< j (len (refsOf r))) (wfB (refMd (at (refsOf r) j)))))
    (forall ((j Int)) (:pat (at (binsOf r) j)) (=> (<= 0 j) (< j (len (binsOf r))) (and (wfB (binMd (at (binsOf r) j))) (= (sizeBin (at (binsOf r) j)) (len (dataOf (at (binsOf r) j)))))))
    (forall ((j Int)) (:pat (at (collsOf r) j)) (=> (<= 0 j) (< j (len (collsOf r))) (noNil (capsOf (at (collsOf r) j)))))
    (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (wfR (at (recsOf r) j))))))
(macro grown (ew) (drop (out ew) (len (pre (out ew)))))
(macro sane (ew) (and (=> (not (failed ew)) (= (. ew n) (- (len (out ew)) (len (old (out out)))))) (=> (!= (. ew err) nil) (failed ew)) (=> (= (. ew err) nil) (or (not (failed ew)) (old (failed out)))) (=> (pre (failed ew)) (failed ew))
   (= (out ew) (cat (pre (out ew)) (grown ew)))))
(macro idOf (r) (@format.Recording.ID r))
(macro nameR (r) (@format.Recording.Name r))
(func format/io.recurseRecordingToBytes (params out r M B X off tech) (results n off2 err) (writer out)
  (ghost (K (Seq Bytes)) (E (Seq If)) (H (Seq Bytes)) (A (Seq If)))
  (requires (indexMap M)) (requires (listOf M K)) (requires (noNils r)) (requires (wfR r)) (requires (keysRec r M)) (requires (<= 0 tech 2))
  (requires (fits A E H B X)) (requires (pieceOf A off (allC r)))
  (opaque okM valM lenM encU encS okStreams valStreams lenStreams okRefs valRefs lenRefs okBins valBins lenBins okRecs valRecs lenRecs okRec valRec lenRec
     okStream valStream lenStream okRef valRef lenRef okBin valBin lenBin expStreams expRefs expBins expRecs expRec encTime allC allCs noNils wfR keysRec expStream expRef expBin)
  (hint-entry (unfold noNils r) (unfold wfR r) (unfold keysRec r M) (use piece-colls A off r))
  (hint (on C1 (assert (=> (not (failed out)) (= (written out) (w0 (idOf r) (nameR r) m1 (len (collsOf r)) S1 (len (refsOf r)) R1 (len (binsOf r)) B1 (len (recsOf r)) C1))))
    (use mk-Rec K E H (idOf r) (nameR r) m1 (len (collsOf r)) S1 (len (refsOf r)) R1 (len (binsOf r)) B1 (len (recsOf r)) C1)
    (unfold expRec E H B X tech r off)))
  (ensures ok (=> (!= err nil) (failed out)))
  (ensures bytes (=> (not (failed out)) (okRec K E H (written out))))
  (ensures length (=> (not (failed out)) (= (lenRec (written out)) (len (written out)))))
  (ensures value (=> (not (failed out)) (= (valRec K E H (written out)) (expRec E H B X tech r off))))
  (ensures count (=> (not (failed out)) (= n (len (written out)))))
  (ensures next (=> (= err nil) (= off2 (+ off (len (allC r))))))
  (loop 0 (vars (ew *format/io.errWriter))
    (hint-entry (unfold okStreams K E H (empty Bytes) 0) (unfold valStreams K E H (empty Bytes) 0) (unfold lenStreams (empty Bytes) 0) (unfold expStreams E H B X tech (collsOf r) off 0))
    (hint-body (use piece-at A off (collsOf r) $k))
    (hint (use mk-Stream K E H (at (collsOf r) (- $k 1)) (at X (+ off (- $k 1))) (at B (+ off (- $k 1))) tech)
      (assert (=> (not (failed ew)) (= (out ew) (cat (head (out ew)) (encStream (at (collsOf r) (- $k 1)) (at X (+ off (- $k 1))) (at B (+ off (- $k 1))) tech)))))
      (use app-Streams K E H (head (grown ew)) (- $k 1) (encStream (at (collsOf r) (- $k 1)) (at X (+ off (- $k 1))) (at B (+ off (- $k 1))) tech))
      (unfold expStreams E H B X tech (collsOf r) off $k))
    (hint-exit (ghost S1 (grown ew)) (ghost P1 (pre (out ew)))
      (ghost m1 (take (drop P1 (len (cat (old (out out)) (cat (encS (idOf r)) (encS (nameR r)))))) (- (len P1) (+ (len (encU (len (collsOf r)))) (len (cat (old (out out)) (cat (encS (idOf r)) (encS (nameR r)))))))))
      (assert (=> (not (failed ew)) (= P1 (cat (old (out out)) (cat (encS (idOf r)) (cat (encS (nameR r)) (cat m1 (encU (len (collsOf r))))))))))
      (assert (=> (not (failed ew)) (and (okM K m1) (= (lenM m1) (len m1)) (= (valM K m1) (mdOf r)))))
      (assert (=> (not (failed ew)) (= (out ew) (cat P1 S1)))))
    (inv sane (sane ew))
    (inv bytes (=> (not (failed ew)) (and (okStreams K E H (grown ew) $k) (= (lenStreams (grown ew) $k) (len (grown ew))))))
    (inv value (=> (not (failed ew)) (= (valStreams K E H (grown ew) $k) (expStreams E H B X tech (collsOf r) off $k)))))
  (loop 1 (vars (ew *format/io.errWriter))
    (hint-entry (unfold okRefs K E H (empty Bytes) 0) (unfold valRefs K E H (empty Bytes) 0) (unfold lenRefs (empty Bytes) 0) (unfold expRefs (refsOf r) 0))
    (hint-body (assert (=> (< $k (len (refsOf r))) (and (!= (at (refsOf r) $k) nil) (wfB (refMd (at (refsOf r) $k))) (keysIn (refMd (at (refsOf r) $k)) M)))))
    (hint (ghost Q (at (refsOf r) (- $k 1))) (ghost W (drop (out ew) (len (head (out ew)))))
      (ghost m (drop W (len (cat (encS (@format.BinaryReference.Name Q)) (cat (encS (@format.BinaryReference.URI Q)) (encU (@format.BinaryReference.Size Q)))))))
      (assert (=> (not (failed ew)) (= (out ew) (cat (head (out ew)) W))))
      (assert (=> (not (failed ew)) (= W (cat (encS (@format.BinaryReference.Name Q)) (cat (encS (@format.BinaryReference.URI Q)) (cat (encU (@format.BinaryReference.Size Q)) m))))))
      (assert (=> (not (failed ew)) (and (okM K m) (= (lenM m) (len m)) (= (valM K m) (refMd Q)))))
      (use mk-Ref K E H (@format.BinaryReference.Name Q) (@format.BinaryReference.URI Q) (@format.BinaryReference.Size Q) m)
      (use app-Refs K E H (head (grown ew)) (- $k 1) W)
      (unfold expRefs (refsOf r) $k) (unfold expRef Q))
    (hint-exit (ghost R1 (grown ew)) (ghost P2 (pre (out ew)))
      (assert (=> (not (failed ew)) (= P2 (cat (cat P1 S1) (encU (len (refsOf r)))))))
      (assert (=> (not (failed ew)) (= (out ew) (cat P2 R1)))))
    (inv sane (sane ew))
    (inv bytes (=> (not (failed ew)) (and (okRefs K E H (grown ew) $k) (= (lenRefs (grown ew) $k) (len (grown ew))))))
    (inv value (=> (not (failed ew)) (= (valRefs K E H (grown ew) $k) (expRefs (refsOf r) $k)))))
  (loop 2 (vars (ew *format/io.errWriter))
    (hint-entry (unfold okBins K E H (empty Bytes) 0) (unfold valBins K E H (empty Bytes) 0) (unfold lenBins (empty Bytes) 0) (unfold expBins (binsOf r) 0))
    (hint-body (assert (=> (< $k (len (binsOf r))) (and (!= (at (binsOf r) $k) nil) (wfB (binMd (at (binsOf r) $k))) (keysIn (binMd (at (binsOf r) $k)) M) (= (sizeBin (at (binsOf r) $k)) (len (dataOf (at (binsOf r) $k))))))))
    (hint (ghost Q (at (binsOf r) (- $k 1))) (ghost W (drop (out ew) (len (head (out ew)))))
      (ghost m (take (drop W (len (cat (encS (@format.Binary.Name Q)) (encU (sizeBin Q))))) (- (len W) (+ (len (dataOf Q)) (len (cat (encS (@format.Binary.Name Q)) (encU (sizeBin Q))))))))
      (assert (=> (not (failed ew)) (= (out ew) (cat (head (out ew)) W))))
      (assert (=> (not (failed ew)) (= W (cat (encS (@format.Binary.Name Q)) (cat (encU (len (dataOf Q))) (cat m (dataOf Q)))))))
      (assert (=> (not (failed ew)) (and (okM K m) (= (lenM m) (len m)) (= (valM K m) (binMd Q)))))
      (use mk-Bin K E H (@format.Binary.Name Q) m (dataOf Q))
      (use app-Bins K E H (head (grown ew)) (- $k 1) W)
      (unfold expBins (binsOf r) $k) (unfold expBin Q))
    (hint-exit (ghost B1 (grown ew)) (ghost P3 (pre (out ew)))
      (assert (=> (not (failed ew)) (= P3 (cat (cat P2 R1) (encU (len (binsOf r)))))))
      (assert (=> (not (failed ew)) (= (out ew) (cat P3 B1)))))
    (inv sane (sane ew))
    (inv bytes (=> (not (failed ew)) (and (okBins K E H (grown ew) $k) (= (lenBins (grown ew) $k) (len (grown ew))))))
    (inv value (=> (not (failed ew)) (= (valBins K E H (grown ew) $k) (expBins (binsOf r) $k)))))
  (loop 3 (vars (ew *format/io.errWriter) (newOffset int))
    (hint-entry (unfold okRecs K E H (empty Bytes) 0) (unfold valRecs K E H (empty Bytes) 0) (unfold lenRecs (empty Bytes) 0) (unfold expRecs E H B X tech (recsOf r) (+ off (len (collsOf r))) 0) (unfold allCs (recsOf r) 0))
    (hint-body (use piece-child A (+ off (len (collsOf r))) (recsOf r) $k)
      (assert (=> (< $k (len (recsOf r))) (and (noNils (at (recsOf r) $k)) (wfR (at (recsOf r) $k)) (keysRec (at (recsOf r) $k) M)))))
    (hint (ghost W (drop (out ew) (len (head (out ew)))))
      (assert (=> (not (failed ew)) (= (out ew) (cat (head (out ew)) W))))
      (use app-Recs K E H (head (grown ew)) (- $k 1) W)
      (unfold expRecs E H B X tech (recsOf r) (+ off (len (collsOf r))) $k))
    (hint-exit (ghost C1 (grown ew)) (ghost P4 (pre (out ew)))
      (assert (=> (not (failed ew)) (= P4 (cat (cat P3 B1) (encU (len (recsOf r)))))))
      (assert (=> (not (failed ew)) (= (out ew) (cat P4 C1)))))
    (inv sane (sane ew))
    (inv offset (= newOffset (+ off (len (collsOf r)) (len (allCs (recsOf r) $k)))))
    (inv bytes (=> (not (failed ew)) (and (okRecs K E H (grown ew) $k) (= (lenRecs (grown ew) $k) (len (grown ew))))))
    (inv value (=> (not (failed ew)) (= (valRecs K E H (grown ew) $k) (expRecs E H B X tech (recsOf r) (+ off (len (collsOf r))) $k))))))
; ---- which encoder stores which collection ----
(macro ordOf (m) (. m collectionOrder))
(macro colOf (m) (. m collections))
; the first of the encoders R that accepts c
(rec pickE ((R (Seq If)) (k Int) (c If)) If
  (cond ((<= k 0) nil) ((!= (pickE R (- k 1) c) nil) (pickE R (- k 1) c)) ((accepts (at R (- k 1)) c) (at R (- k 1))) (else nil)))
(lemma pickE-up ((R (Seq If)) (k Int) (n Int) (c If)) (requires (<= 0 k n)) (requires (!= (pickE R k c) nil))
  (ensures (= (pickE R n c) (pickE R k c))) (measure n) (hint (unfold pickE R n c) (use pickE-up R k (- n 1) c)))
(def distinctSigs ((R (Seq If))) Bool
  (forall ((i Int) (j Int)) (:pat (at R i) (at R j)) (=> (<= 0 i) (< i j) (< j (len R)) (!= (sigOf (at R i)) (sigOf (at R j))))))
(lemma pick-other ((R (Seq If)) (k Int) (i Int) (s Bytes)) (requires (distinctSigs R)) (requires (<= 0 k i)) (requires (< i (len R))) (requires (!= (pick R k s) nil))
  (ensures (!= s (sigOf (at R i)))) (measure k) (hint (unfold pick R k s) (use pick-other R (- k 1) i s)))
; encoder e is found again by its signature among the first k of R
(def ownE ((R (Seq If)) (k Int) (e If)) Bool (and (!= e nil) (= (pick R k (sigOf e)) e) (recent R k (sigOf e) (verOf e))))
(lemma recent-other ((R (Seq If)) (k Int) (i Int)) (requires (<= 0 k i)) (requires (< i (len R))) (requires (distinctSigs R))
  (ensures (recent R k (sigOf (at R i)) (verOf (at R i)))) (measure k)
  (hint (unfold recent R k (sigOf (at R i)) (verOf (at R i))) (use recent-other R (- k 1) i)
    (assert (=> (< 0 k) (!= (sigOf (at R (- k 1))) (sigOf (at R i)))))))
(lemma ownE-new ((R (Seq If)) (k Int)) (requires (<= 0 k)) (requires (< k (len R))) (requires (noNilE R)) (requires (distinctSigs R))
  (ensures (ownE R (+ k 1) (at R k)))
  (hint (unfold pick R (+ k 1) (sigOf (at R k))) (unfold recent R (+ k 1) (sigOf (at R k)) (verOf (at R k)))
    (use recent-other R k k)))
(lemma ownE-up ((R (Seq If)) (k Int) (e If)) (requires (<= 0 k)) (requires (< k (len R))) (requires (distinctSigs R)) (requires (ownE R k e))
  (ensures (ownE R (+ k 1) e)) (ensures (!= (sigOf e) (sigOf (at R k))))
  (hint (use pick-other R k k (sigOf e)) (unfold pick R (+ k 1) (sigOf e)) (unfold recent R (+ k 1) (sigOf e) (verOf e))))
(lemma own-same ((R (Seq If)) (k Int) (a If) (b If)) (requires (ownE R k a)) (requires (ownE R k b)) (requires (= (sigOf a) (sigOf b))) (ensures (= a b)))
; every collection of the tree is there and accepted by one of the encoders
(rec canSave ((R (Seq If)) (r If)) Bool
  (and (forall ((j Int)) (:pat (at (collsOf r) j)) (=> (<= 0 j) (< j (len (collsOf r))) (and (!= (at (collsOf r) j) nil) (!= (pickE R (len R) (at (collsOf r) j)) nil))))
    (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (canSave R (at (recsOf r) j))))))
; position x is among the first n of o
(rec inO ((o (Seq int)) (n Int) (x Int)) Bool (and (< 0 n) (or (= (at o (- n 1)) x) (inO o (- n 1) x))))
(def inOrd ((o (Seq int)) (x Int)) Bool (inO o (len o) x))
(rec cov ((ms (Seq format/io.encoderCollectionMapping)) (k Int) (x Int)) Bool
  (and (< 0 k) (or (inOrd (ordOf (at ms (- k 1))) x) (cov ms (- k 1) x))))
(lemma inO-frame ((o (Seq int)) (p (Seq int)) (n Int) (x Int)) (requires (<= 0 n)) (requires (<= n (len o))) (requires (<= n (len p)))
  (requires (forall ((j Int)) (:pat (at o j)) (=> (<= 0 j) (< j n) (= (at o j) (at p j)))))
  (ensures (iff (inO o n x) (inO p n x))) (measure n) (hint (unfold inO o n x) (unfold inO p n x) (use inO-frame o p (- n 1) x)))
(lemma inO-app ((o (Seq int)) (p (Seq int)) (k Int) (x Int)) (requires (<= 0 k (len p)))
  (ensures (iff (inO (cat o p) (+ (len o) k) x) (or (inO o (len o) x) (inO p k x)))) (measure k)
  (hint (unfold inO (cat o p) (+ (len o) k) x) (unfold inO p k x) (use inO-app o p (- k 1) x)
    (use inO-frame (cat o p) o (len o) x) (assert (=> (< 0 k) (= (at (cat o p) (+ (len o) (- k 1))) (at p (- k 1)))))))
(lemma inOrd-app ((o (Seq int)) (p (Seq int)) (x Int)) (ensures (iff (inOrd (cat o p) x) (or (inOrd o x) (inOrd p x)))) (hint (use inO-app o p (len p) x)))
(lemma inOrd-1 ((y int) (x Int)) (ensures (iff (inOrd (unit y (Seq int)) x) (= x y)))
   (hint (unfold inO (unit y (Seq int)) 1 x) (unfold inO (unit y (Seq int)) 0 x)))
(lemma inOrd-add ((o (Seq int)) (y int) (x Int)) (ensures (iff (inOrd (cat o (unit y (Seq int))) x) (or (inOrd o x) (= x y))))
   (opaque inOrd) (hint (use inOrd-app o (unit y (Seq int)) x) (use inOrd-1 y x)))
; orders that only grow cover what they covered
(lemma cov-grow ((P (Seq format/io.encoderCollectionMapping)) (Q (Seq format/io.encoderCollectionMapping)) (o (Seq int)) (k Int) (x Int))
  (requires (<= 0 k)) (requires (<= k (len P))) (requires (<= k (len Q))) (opaque inOrd)
  (requires (forall ((j Int)) (:pat (at P j)) (:pat (at Q j)) (=> (<= 0 j) (< j k) (or (= (ordOf (at Q j)) (ordOf (at P j))) (= (ordOf (at Q j)) (cat (ordOf (at P j)) o))))))
  (requires (cov P k x)) (ensures (cov Q k x)) (measure k)
  (hint (unfold cov P k x) (unfold cov Q k x) (use cov-grow P Q o (- k 1) x) (use inOrd-app (ordOf (at P (- k 1))) o x)))
(lemma cov-frame ((P (Seq format/io.encoderCollectionMapping)) (Q (Seq format/io.encoderCollectionMapping)) (k Int) (x Int))
  (requires (<= 0 k)) (requires (<= k (len P))) (requires (<= k (len Q))) (opaque inOrd)
  (requires (forall ((j Int)) (:pat (at P j)) (:pat (at Q j)) (=> (<= 0 j) (< j k) (= (at Q j) (at P j)))))
  (ensures (iff (cov P k x) (cov Q k x))) (measure k)
  (hint (unfold cov P k x) (unfold cov Q k x) (use cov-frame P Q (- k 1) x)))
(lemma inOrd-empty ((o (Seq int)) (x Int)) (requires (= (len o) 0)) (ensures (not (inOrd o x))) (auto (inOrd o x)) (hint (unfold inO o (len o) x)))
(lemma cov-push ((P (Seq format/io.encoderCollectionMapping)) (Q (Seq format/io.encoderCollectionMapping)) (x Int))
  (requires (= Q (cat P (unit (at Q (len P)))))) (opaque inOrd)
  (ensures (iff (cov Q (len Q) x) (or (cov P (len P) x) (inOrd (ordOf (at Q (len P))) x))))
  (hint (unfold cov Q (len Q) x) (use cov-frame P Q (len P) x)))
(lemma cov-none ((P (Seq format/io.encoderCollectionMapping)) (x Int)) (ensures (not (cov P 0 x))) (auto (cov P 0 x)) (hint (unfold cov P 0 x)))
; the collections a mapping holds are the ones at its positions, and they belong to its encoder
(def goodOne ((R (Seq If)) (A (Seq If)) (m format/io.encoderCollectionMapping) (lo Int) (hi Int)) Bool
  (and (= (len (colOf m)) (len (ordOf m)))
    (forall ((i Int)) (:pat (at (ordOf m) i)) (:pat (at (colOf m) i)) (=> (<= 0 i) (< i (len (ordOf m)))
      (and (<= lo (at (ordOf m) i)) (< (at (ordOf m) i) hi) (= (at (colOf m) i) (at A (at (ordOf m) i))) (!= (at (colOf m) i) nil) (= (pickE R (len R) (at (colOf m) i)) (encOf m)))))))
(def goodM ((R (Seq If)) (A (Seq If)) (ms (Seq format/io.encoderCollectionMapping)) (lo Int) (hi Int)) Bool
  (forall ((j Int)) (:pat (at ms j)) (=> (<= 0 j) (< j (len ms)) (goodOne R A (at ms j) lo hi))))
(def ownM ((R (Seq If)) (k Int) (ms (Seq format/io.encoderCollectionMapping))) Bool
  (forall ((j Int)) (:pat (at ms j)) (=> (<= 0 j) (< j (len ms)) (ownE R k (encOf (at ms j))))))
(def distM ((ms (Seq format/io.encoderCollectionMapping))) Bool
  (forall ((i Int) (j Int)) (:pat (at ms i) (at ms j)) (=> (<= 0 i) (< i j) (< j (len ms)) (!= (sigOf (encOf (at ms i))) (sigOf (encOf (at ms j)))))))
(lemma goodOne-wide ((R (Seq If)) (A (Seq If)) (m format/io.encoderCollectionMapping) (lo Int) (hi Int) (lo2 Int) (hi2 Int))
  (requires (goodOne R A m lo hi)) (requires (<= lo2 lo)) (requires (<= hi hi2)) (ensures (goodOne R A m lo2 hi2)))
(lemma goodM-wide ((R (Seq If)) (A (Seq If)) (ms (Seq format/io.encoderCollectionMapping)) (lo Int) (hi Int) (lo2 Int) (hi2 Int))
  (requires (goodM R A ms lo hi)) (requires (<= lo2 lo)) (requires (<= hi hi2)) (opaque goodOne) (ensures (goodM R A ms lo2 hi2))
  (hint (forall ((j Int)) (:pat (at ms j)) (use goodOne-wide R A (at ms j) lo hi lo2 hi2))))
(lemma goodOne-app ((R (Seq If)) (A (Seq If)) (m format/io.encoderCollectionMapping) (c format/io.encoderCollectionMapping) (q format/io.encoderCollectionMapping) (lo Int) (hi Int))
  (requires (goodOne R A m lo hi)) (requires (goodOne R A c lo hi)) (requires (= (encOf m) (encOf c)))
  (requires (= (encOf q) (encOf m))) (requires (= (colOf q) (cat (colOf m) (colOf c)))) (requires (= (ordOf q) (cat (ordOf m) (ordOf c))))
  (ensures (goodOne R A q lo hi)))
(func format/io.Writer.evaluateCollections (params w r off) (results ms off2 err) (ghost (A (Seq If)))
  (requires (noNilE (. w encoders))) (requires (distinctSigs (. w encoders))) (requires (noNils r)) (requires (pieceOf A off (allC r)))
  (opaque noNils canSave allC allCs cov inOrd ownE goodOne pickE)
  (hint-entry (unfold noNils r) (unfold canSave (. w encoders) r) (use piece-colls A off r))
  (ensures exact (iff (= err nil) (canSave (. w encoders) r)))
  (ensures next (=> (= err nil) (= off2 (+ off (len (allC r))))))
  (ensures good (=> (= err nil) (goodM (. w encoders) A ms off (+ off (len (allC r))))))
  (ensures own (=> (= err nil) (ownM (. w encoders) (len (. w encoders)) ms)))
  (ensures distinct (=> (= err nil) (distM ms)))
  (ensures covers (=> (= err nil) (forall ((x Int)) (:pat (cov ms (len ms) x)) (:pat (at A x)) (=> (<= off x) (< x (+ off (len (allC r)))) (cov ms (len ms) x)))))
  (loop 0 (vars (streamsSatisfied []bool))
    (inv size (= (len streamsSatisfied) (len (collsOf r))))
    (inv none (forall ((x Int)) (:pat (at streamsSatisfied x)) (=> (<= 0 x) (< x (len (collsOf r))) (not (at streamsSatisfied x)))))
    (inv some (forall ((x Int)) (:pat (at (collsOf r) x)) (=> (<= 0 x) (< x $k) (!= (at (collsOf r) x) nil)))))
  (loop 1 (vars (streamsSatisfied []bool) (mappings []format/io.encoderCollectionMapping))
    (hint-entry (forall ((x Int)) (:pat (at (collsOf r) x)) (unfold pickE (. w encoders) 0 (at (collsOf r) x))))
    (hint (forall ((x Int)) (:pat (at streamsSatisfied x)) (use cov-push (head mappings) mappings (+ off x)))
      (use ownE-new (. w encoders) (- $k 1))
      (forall ((j Int)) (:pat (at mappings j)) (use ownE-up (. w encoders) (- $k 1) (encOf (at (head mappings) j)))))
    (inv size (= (len streamsSatisfied) (len (collsOf r))))
    (inv exact (forall ((x Int)) (:pat (at streamsSatisfied x)) (=> (<= 0 x) (< x (len (collsOf r))) (iff (at streamsSatisfied x) (!= (pickE (. w encoders) $k (at (collsOf r) x)) nil)))))
    (inv covers (forall ((x Int)) (:pat (at streamsSatisfied x)) (=> (<= 0 x) (< x (len (collsOf r))) (at streamsSatisfied x) (cov mappings (len mappings) (+ off x)))))
    (inv own (ownM (. w encoders) $k mappings))
    (inv distinct (distM mappings))
    (inv good (goodM (. w encoders) A mappings off (+ off (len (collsOf r))))))
  (loop 2 (vars (i int) (streamsSatisfied []bool) (mapping format/io.encoderCollectionMapping) (mappings []format/io.encoderCollectionMapping))
    (hint-entry (unfold goodOne (. w encoders) A mapping off (+ off (len (collsOf r)))))
    (hint-body (unfold pickE (. w encoders) (+ i 1) (at (collsOf r) $k)) (use pickE-up (. w encoders) (+ i 1) (len (. w encoders)) (at (collsOf r) $k))
      (use piece-at A off (collsOf r) $k))
    (hint (forall ((x Int)) (:pat (at streamsSatisfied x)) (use inOrd-add (ordOf (head mapping)) (+ off (- $k 1)) (+ off x)))
      (unfold goodOne (. w encoders) A mapping off (+ off (len (collsOf r)))) (unfold goodOne (. w encoders) A (head mapping) off (+ off (len (collsOf r)))))
    (inv size (= (len streamsSatisfied) (len (collsOf r))))
    (inv mine (= (encOf mapping) (at (. w encoders) i)))
    (inv done (forall ((x Int)) (:pat (at streamsSatisfied x)) (=> (<= 0 x) (< x $k) (iff (at streamsSatisfied x) (!= (pickE (. w encoders) (+ i 1) (at (collsOf r) x)) nil)))))
    (inv todo (forall ((x Int)) (:pat (at streamsSatisfied x)) (=> (<= $k x) (< x (len (collsOf r))) (iff (at streamsSatisfied x) (!= (pickE (. w encoders) i (at (collsOf r) x)) nil)))))
    (inv covers (forall ((x Int)) (:pat (at streamsSatisfied x)) (=> (<= 0 x) (< x (len (collsOf r))) (at streamsSatisfied x) (or (cov mappings (len mappings) (+ off x)) (inOrd (ordOf mapping) (+ off x))))))
    (hint-exit (unfold goodOne (. w encoders) A mapping off (+ off (len (collsOf r)))))
    (inv good (goodOne (. w encoders) A mapping off (+ off (len (collsOf r))))))
  (loop 3 (vars (streamsSatisfied []bool))
    (inv all (forall ((x Int)) (:pat (at streamsSatisfied x)) (=> (<= 0 x) (< x $k) (at streamsSatisfied x)))))
  (loop 4 (vars (streamsSatisfied []bool) (curOffset int) (mappings []format/io.encoderCollectionMapping))
    (hint-entry (unfold allCs (recsOf r) 0)
      (assert (forall ((x Int)) (:pat (cov mappings (len mappings) x)) (=> (<= off x) (< x (+ off (len (collsOf r)))) (at streamsSatisfied (- x off))))))
    (hint-body (ghost c0 curOffset) (use piece-child A (+ off (len (collsOf r))) (recsOf r) $k) (assert (=> (< $k (len (recsOf r))) (noNils (at (recsOf r) $k)))))
    (inv offset (= curOffset (+ off (len (collsOf r)) (len (allCs (recsOf r) $k)))))
    (inv sane (<= 0 (len (allCs (recsOf r) $k))))
    (inv fine (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j $k) (canSave (. w encoders) (at (recsOf r) j)))))
    (inv good (goodM (. w encoders) A mappings off curOffset))
    (inv own (ownM (. w encoders) (len (. w encoders)) mappings))
    (inv distinct (distM mappings))
    (inv covers (forall ((x Int)) (:pat (cov mappings (len mappings) x)) (=> (<= off x) (< x curOffset) (cov mappings (len mappings) x)))))
  (loop 5 (vars (curOffset int) (mappings []format/io.encoderCollectionMapping) (childMappings []format/io.encoderCollectionMapping))
    (hint-entry (use goodM-wide (. w encoders) A mappings off c0 off curOffset) (use goodM-wide (. w encoders) A childMappings c0 curOffset off curOffset))
    (hint-body (unfold ownE (. w encoders) (len (. w encoders)) (encOf (at childMappings $k))))
    (hint (forall ((x Int)) (:pat (cov mappings (len mappings) x)) (and (use cov-push m6 mappings x) (unfold cov childMappings $k x))))
    (inv child (and (goodM (. w encoders) A childMappings off curOffset) (ownM (. w encoders) (len (. w encoders)) childMappings)))
    (inv good (goodM (. w encoders) A mappings off curOffset))
    (inv own (ownM (. w encoders) (len (. w encoders)) mappings))
    (inv distinct (distM mappings))
    (inv kept (forall ((x Int)) (:pat (cov mappings (len mappings) x)) (=> (cov (pre mappings) (len (pre mappings)) x) (cov mappings (len mappings) x))))
    (inv covers (forall ((x Int)) (:pat (cov mappings (len mappings) x)) (=> (cov childMappings $k x) (cov mappings (len mappings) x)))))
  (loop 6 (vars (found bool) (curOffset int) (mappings []format/io.encoderCollectionMapping) (childMap format/io.encoderCollectionMapping))
    (hint-body (unfold ownE (. w encoders) (len (. w encoders)) (encOf (at (pre mappings) $k))))
    (hint-exit (assert (forall ((j Int)) (:pat (at (pre mappings) j)) (:pat (at mappings j)) (=> (<= 0 j) (< j (len mappings)) (or (= (ordOf (at mappings j)) (ordOf (at (pre mappings) j))) (= (ordOf (at mappings j)) (cat (ordOf (at (pre mappings) j)) (ordOf childMap)))))))
      (assert (= (len mappings) (len (pre mappings))))
      (forall ((x Int)) (:pat (cov mappings (len mappings) x)) (use cov-grow (pre mappings) mappings (ordOf childMap) (len mappings) x))
      (ghost m6 mappings)
      (forall ((j Int)) (:pat (at mappings j)) (use own-same (. w encoders) (len (. w encoders)) (encOf (at (pre mappings) j)) (encOf childMap)))
      (forall ((j Int)) (:pat (at mappings j)) (use goodOne-app (. w encoders) A (at (pre mappings) j) childMap (at mappings j) off curOffset))
      (assert (forall ((x Int)) (:pat (cov mappings (len mappings) x)) (=> (cov (pre mappings) (len (pre mappings)) x) (cov mappings (len mappings) x))))
      (assert (goodM (. w encoders) A mappings off curOffset)) (assert (distM mappings)) (assert (ownM (. w encoders) (len (. w encoders)) mappings)))
    (hint (assert (forall ((j Int)) (:pat (at mappings j)) (:pat (at (head mappings) j)) (=> (<= 0 j) (< j (- $k 1)) (= (at mappings j) (at (head mappings) j)))))
      (assert (or (= (ordOf (at mappings (- $k 1))) (ordOf (at (pre mappings) (- $k 1)))) (= (ordOf (at mappings (- $k 1))) (cat (ordOf (at (pre mappings) (- $k 1))) (ordOf childMap)))))
      (assert (=> (not (= (at mappings (- $k 1)) (at (head mappings) (- $k 1)))) (= (ordOf (at mappings (- $k 1))) (cat (ordOf (at (pre mappings) (- $k 1))) (ordOf childMap)))))
      (assert (=> (= (sigOf (encOf (at mappings (- $k 1)))) (sigOf (encOf childMap))) (= (ordOf (at mappings (- $k 1))) (cat (ordOf (at (pre mappings) (- $k 1))) (ordOf childMap)))))
      (forall ((x Int)) (:pat (inOrd (ordOf childMap) x)) (and (use inOrd-app (ordOf (at (pre mappings) (- $k 1))) (ordOf childMap) x) (use cov-frame (head mappings) mappings (- $k 1) x) (unfold cov mappings $k x))))
    (inv size (= (len mappings) (len (pre mappings))))
    (inv each (forall ((j Int)) (:pat (at mappings j)) (=> (<= 0 j) (< j (len mappings))
      (and (= (encOf (at mappings j)) (encOf (at (pre mappings) j)))
        (or (= (at mappings j) (at (pre mappings) j))
          (and (< j $k) (= (sigOf (encOf (at mappings j))) (sigOf (encOf childMap)))
             (= (ordOf (at mappings j)) (cat (ordOf (at (pre mappings) j)) (ordOf childMap)))
             (= (colOf (at mappings j)) (cat (colOf (at (pre mappings) j)) (colOf childMap)))))))))
    (inv found (=> found (forall ((x Int)) (:pat (inOrd (ordOf childMap) x)) (=> (inOrd (ordOf childMap) x) (cov mappings $k x)))))
    (inv other (=> (not found) (forall ((j Int)) (:pat (at mappings j)) (=> (<= 0 j) (< j $k) (!= (sigOf (encOf (at mappings j))) (sigOf (encOf childMap)))))))))
