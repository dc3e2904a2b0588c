; ---- C08: event collections ----
(macro evC (c) (unbox format/collection/event.Collection c))
(macro evCaps (c) (. (evC c) captures))
(macro evMap (e) (. (. e block) mapping))
(macro noProps () (empty map[string]format/metadata.Property))
; the key that an index gives to i, whenever there is one (choice)
(macro keyOf (M i) (sym keyOf Bytes M i))
(axiom choice-keyOf ((M map[string]int) (k string))
  (=> (mhas M k) (and (mhas M (keyOf M (mget M k))) (= (mget M (keyOf M (mget M k))) (mget M k))))
  (pat (keyOf M (mget M k))))
(rec keysM ((M map[string]int) (ids (Seq uint))) (Seq Bytes)
  (ite (= (len ids) 0) (empty (Seq Bytes)) (cat (unit (keyOf M (at ids 0))) (keysM M (drop ids 1)))))
(rec keysL ((K (Seq Bytes)) (ids (Seq uint))) (Seq Bytes)
  (ite (= (len ids) 0) (empty (Seq Bytes)) (cat (unit (at K (at ids 0))) (keysL K (drop ids 1)))))
(def idsM ((M map[string]int) (ids (Seq uint))) Bool
  (forall ((j Int)) (:pat (at ids j)) (=> (<= 0 j) (< j (len ids)) (and (mhas M (keyOf M (at ids j))) (= (mget M (keyOf M (at ids j))) (at ids j))))))
(def idsL ((K (Seq Bytes)) (ids (Seq uint))) Bool
  (forall ((j Int)) (:pat (at ids j)) (=> (<= 0 j) (< j (len ids)) (< (at ids j) (len K)))))
(def subM ((M map[string]int) (N map[string]int)) Bool
  (forall ((k string)) (:pat (mget M k)) (:pat (mget N k)) (=> (mhas M k) (and (mhas N k) (= (mget N k) (mget M k))))))
(lemma at-keysM ((M map[string]int) (ids (Seq uint)) (j Int))
  (requires (<= 0 j)) (requires (< j (len ids)))
  (ensures (= (at (keysM M ids) j) (keyOf M (at ids j)))) (measure (len ids)) (auto (at (keysM M ids) j))
  (hint (use at-keysM M (drop ids 1) (- j 1))))
(lemma len-keysM ((M map[string]int) (ids (Seq uint)))
  (ensures (= (len (keysM M ids)) (len ids))) (measure (len ids)) (auto (keysM M ids))
  (hint (use len-keysM M (drop ids 1))))
(lemma at-keysL ((K (Seq Bytes)) (ids (Seq uint)) (j Int))
  (requires (<= 0 j)) (requires (< j (len ids)))
  (ensures (= (at (keysL K ids) j) (at K (at ids j)))) (measure (len ids)) (auto (at (keysL K ids) j))
  (hint (use at-keysL K (drop ids 1) (- j 1))))
(lemma len-keysL ((K (Seq Bytes)) (ids (Seq uint)))
  (ensures (= (len (keysL K ids)) (len ids))) (measure (len ids)) (auto (keysL K ids))
  (hint (use len-keysL K (drop ids 1))))
; indices and the keys they stand for
(lemma keysM-is ((M map[string]int) (ids (Seq uint)) (ks (Seq Bytes)))
  (requires (indexMap M)) (requires (= (len ids) (len ks)))
  (requires (forall ((j Int)) (:pat (at ids j)) (:pat (at ks j)) (=> (<= 0 j) (< j (len ids)) (and (mhas M (at ks j)) (= (at ids j) (mget M (at ks j)))))))
  (ensures (idsM M ids)) (ensures (= (keysM M ids) ks))
  (hint (assert (forall ((j Int)) (:pat (at ids j)) (=> (<= 0 j) (< j (len ids)) (and (mhas M (keyOf M (mget M (at ks j)))) (= (mget M (keyOf M (mget M (at ks j)))) (mget M (at ks j)))))))
    (assert (forall ((j Int)) (:pat (at ids j)) (:pat (at ks j)) (=> (<= 0 j) (< j (len ids)) (= (keyOf M (at ids j)) (at ks j)))))))
(lemma keysM-grow ((M map[string]int) (N map[string]int) (ids (Seq uint)))
  (requires (indexMap N)) (requires (subM M N)) (requires (idsM M ids))
  (ensures (idsM N ids)) (ensures (= (keysM N ids) (keysM M ids)))
  (hint (use keysM-is N ids (keysM M ids))))
(lemma keysM-list ((M map[string]int) (K (Seq Bytes)) (ids (Seq uint)))
  (requires (indexMap M)) (requires (listOf M K)) (requires (idsM M ids))
  (ensures (idsL K ids)) (ensures (= (keysL K ids) (keysM M ids))))
; one event: its name, the keys and the values of its metadata
(macro evIds (s) (valUA (drop s (lenU s))))
(macro evBody (s) (drop s (+ (lenU s) (lenUA (drop s (lenU s))))))
(def lenEv ((s Bytes)) Int (+ (lenU s) (lenUA (drop s (lenU s))) (lenPs (evBody s) (len (evIds s)))))
(def stEv ((c format/collection/event.Capture) (s Bytes) (M map[string]int) (N map[string]int)) Bool
  (and (okU s) (mhas M (. c name)) (= (mget M (. c name)) (valU s)) (okUA (drop s (lenU s))) (idsM N (evIds s))
       (okPs (evBody s) (len (evIds s))) (= (valPs (keysM N (evIds s)) (evBody s) (noProps)) (evMap c))))
(rec stEvs ((cs (Seq format/collection/event.Capture)) (s Bytes) (M map[string]int) (N map[string]int)) Bool
  (ite (= (len cs) 0) (= (len s) 0) (and (stEv (at cs 0) s M N) (stEvs (drop cs 1) (drop s (lenEv s)) M N))))
(def okEv ((M (Seq Bytes)) (N (Seq Bytes)) (s Bytes)) Bool
  (and (okU s) (< (valU s) (len M)) (okUA (drop s (lenU s))) (idsL N (evIds s)) (okPs (evBody s) (len (evIds s)))))
(def valEv ((M (Seq Bytes)) (N (Seq Bytes)) (s Bytes) (t F64)) format/collection/event.Capture
  (mk format/collection/event.Capture t (at M (valU s)) (mk format/metadata.Block (valPs (keysL N (evIds s)) (evBody s) (noProps)))))
(rec okEvs ((M (Seq Bytes)) (N (Seq Bytes)) (s Bytes) (n Int)) Bool
  (or (<= n 0) (and (okEv M N s) (okEvs M N (drop s (lenEv s)) (- n 1)))))
(rec valEvs ((M (Seq Bytes)) (N (Seq Bytes)) (s Bytes) (ts (Seq F64))) (Seq format/collection/event.Capture)
  (ite (= (len ts) 0) (empty (Seq format/collection/event.Capture)) (cat (unit (valEv M N s (at ts 0))) (valEvs M N (drop s (lenEv s)) (drop ts 1)))))
(rec keptEvs ((cs (Seq format/collection/event.Capture)) (ts (Seq F64))) (Seq format/collection/event.Capture)
  (ite (= (len cs) 0) (empty (Seq format/collection/event.Capture))
    (cat (unit (mk format/collection/event.Capture (at ts 0) (. (at cs 0) name) (. (at cs 0) block))) (keptEvs (drop cs 1) (drop ts 1)))))
(lemma rt-Ev ((c format/collection/event.Capture) (s Bytes) (M map[string]int) (N map[string]int) (K (Seq Bytes)) (L (Seq Bytes)) (t F64))
  (requires (indexMap M)) (requires (indexMap N)) (requires (listOf M K)) (requires (listOf N L)) (requires (stEv c s M N))
  (ensures (okEv K L s)) (ensures (= (valEv K L s t) (mk format/collection/event.Capture t (. c name) (. c block))))
  (hint (use keysM-list N L (evIds s))))
(lemma rt-Evs ((cs (Seq format/collection/event.Capture)) (s Bytes) (M map[string]int) (N map[string]int) (K (Seq Bytes)) (L (Seq Bytes)) (ts (Seq F64)))
  (requires (indexMap M)) (requires (indexMap N)) (requires (listOf M K)) (requires (listOf N L)) (requires (stEvs cs s M N)) (requires (= (len ts) (len cs)))
  (ensures (okEvs K L s (len cs))) (ensures (= (valEvs K L s ts) (keptEvs cs ts)))
  (measure (len cs)) (auto (stEvs cs s M N) (listOf M K) (listOf N L) (valEvs K L s ts))
  (hint (use rt-Ev (at cs 0) s M N K L (at ts 0)) (use rt-Evs (drop cs 1) (drop s (lenEv s)) M N K L (drop ts 1))
    (unfold stEvs cs s M N) (unfold okEvs K L s (len cs)) (unfold valEvs K L s ts) (unfold keptEvs cs ts)))
(lemma grow-Ev ((c format/collection/event.Capture) (s Bytes) (M map[string]int) (N map[string]int) (M2 map[string]int) (N2 map[string]int))
  (requires (indexMap M2)) (requires (indexMap N2)) (requires (subM M M2)) (requires (subM N N2)) (requires (stEv c s M N))
  (ensures (stEv c s M2 N2))
  (hint (use keysM-grow N N2 (evIds s)) (assert (and (mhas M2 (. c name)) (= (mget M2 (. c name)) (mget M (. c name)))))))
(lemma grow-Evs ((cs (Seq format/collection/event.Capture)) (s Bytes) (M map[string]int) (N map[string]int) (M2 map[string]int) (N2 map[string]int))
  (requires (indexMap M2)) (requires (indexMap N2)) (requires (subM M M2)) (requires (subM N N2)) (requires (stEvs cs s M N))
  (ensures (stEvs cs s M2 N2))
  (measure (len cs)) (auto (stEvs cs s M N) (subM M M2) (subM N N2))
  (hint (use grow-Ev (at cs 0) s M N M2 N2) (use grow-Evs (drop cs 1) (drop s (lenEv s)) M N M2 N2) (unfold stEvs cs s M N) (unfold stEvs cs s M2 N2)))
(lemma pre-Ev ((c format/collection/event.Capture) (s Bytes) (k Int) (M map[string]int) (N map[string]int))
  (requires (<= 0 k (len s))) (requires (stEv c (take s k) M N))
  (ensures (stEv c s M N)) (ensures (= (lenEv s) (lenEv (take s k)))) (ensures (<= 1 (lenEv s) k))
  (hint (use pre-U s k 0) (use len-U (take s k) 0)
    (assert (= (drop (take s k) (lenU (take s k))) (take (drop s (lenU s)) (- k (lenU s)))))
    (use pre-UA (drop s (lenU s)) (- k (lenU s)))
    (assert (= (evIds (take s k)) (evIds s)))
    (assert (= (lenUA (drop (take s k) (lenU (take s k)))) (lenUA (drop s (lenU s)))))
    (assert (= (evBody (take s k)) (drop (drop (take s k) (lenU s)) (lenUA (drop s (lenU s))))))
    (assert (= (evBody (take s k)) (drop (take (drop s (lenU s)) (- k (lenU s))) (lenUA (drop s (lenU s))))))
    (assert (= (evBody s) (drop (drop s (lenU s)) (lenUA (drop s (lenU s))))))
    (assert (= (evBody (take s k)) (take (evBody s) (- k (+ (lenU s) (lenUA (drop s (lenU s))))))))
    (use pre-Ps (evBody s) (- k (+ (lenU s) (lenUA (drop s (lenU s))))) (keysM N (evIds s)) (noProps))))
(lemma app-Evs ((cs (Seq format/collection/event.Capture)) (s Bytes) (c format/collection/event.Capture) (u Bytes) (M map[string]int) (N map[string]int))
  (requires (stEvs cs s M N)) (requires (stEv c u M N)) (requires (= (lenEv u) (len u)))
  (ensures (stEvs (cat cs (unit c)) (cat s u) M N))
  (measure (len cs))
  (hint (unfold stEvs cs s M N)
    (assert (=> (< 0 (len cs)) (= (take (cat s u) (len s)) s)))
    (use pre-Ev (at cs 0) (cat s u) (len s) M N)
    (use app-Evs (drop cs 1) (drop s (lenEv s)) c u M N)
    (assert (=> (< 0 (len cs)) (= (drop (cat s u) (lenEv s)) (cat (drop s (lenEv s)) u))))
    (assert (=> (< 0 (len cs)) (= (drop (cat cs (unit c)) 1) (cat (drop cs 1) (unit c)))))
    (unfold stEvs (cat cs (unit c)) (cat s u) M N)
    (assert (=> (= (len cs) 0) (and (= (cat s u) u) (= (cat cs (unit c)) (unit c)))))
    (unfold stEvs (unit c) u M N)))
(lemma idsL-step ((K (Seq Bytes)) (ids (Seq uint)) (m Int))
  (requires (<= 0 m)) (requires (< m (len ids)))
  (ensures (iff (idsL K (drop ids m)) (and (< (at ids m) (len K)) (idsL K (drop ids (+ m 1))))))
  (hint (assert (= (at (drop ids m) 0) (at ids m)))
    (assert (forall ((j Int)) (:pat (at (drop ids (+ m 1)) j)) (=> (<= 0 j) (= (at (drop ids (+ m 1)) j) (at (drop ids m) (+ j 1))))))
    (assert (forall ((j Int)) (:pat (at (drop ids m) j)) (=> (< 0 j) (= (at (drop ids m) j) (at (drop ids (+ m 1)) (- j 1))))))))
(lemma drop-step ((s Bytes) (r Bytes) (n Int))
  (requires (= r (drop s (- (len s) (len r))))) (requires (<= 0 n (len r)))
  (ensures (= (drop r n) (drop s (- (len s) (len (drop r n)))))))
(func format/encoding/event.Encoder.Decode (params p name header streamData times) (results c err)
  (ensures ok (iff (= err nil) (and (okSA header) (okSA (drop header (lenSA header))) (okEvs (valSA header) (valSA (drop header (lenSA header))) streamData (len times)))))
  (ensures value (=> (= err nil) (= c (box format/collection/event.Collection (mk format/collection/event.Collection name
     (valEvs (valSA header) (valSA (drop header (lenSA header))) streamData times))))))
  (loop 0 (vars (i int) (captures (Seq format/collection/event.Capture)) (buf *bufio.Reader) (eventNames []string) (metadataKeys []string))
    (hint-body (use len-U (rem buf) 0) (use len-UA (drop (rem buf) (lenU (rem buf)))))
    (hint (unfold okEvs eventNames metadataKeys (head (rem buf)) (- (len times) (- i 1)))
      (assert (= (evBody (head (rem buf))) (drop (drop (head (rem buf)) (lenU (head (rem buf)))) (lenUA (drop (head (rem buf)) (lenU (head (rem buf))))))))
      (assert (okEv eventNames metadataKeys (head (rem buf))))
      (assert (= (rem buf) (drop (head (rem buf)) (lenEv (head (rem buf))))))
      (assert (= (at captures (- i 1)) (valEv eventNames metadataKeys (head (rem buf)) (at times (- i 1)))))
      (unfold valEvs eventNames metadataKeys (head (rem buf)) (drop times (- i 1))))
    (inv count (<= 0 i (len times)))
    (inv size (= (len captures) (len times)))
    (inv full (not (short buf)))
    (inv ok (iff (okEvs eventNames metadataKeys streamData (len times)) (okEvs eventNames metadataKeys (rem buf) (- (len times) i))))
    (inv value (= (cat (take captures i) (valEvs eventNames metadataKeys (rem buf) (drop times i))) (valEvs eventNames metadataKeys streamData times))))
  (loop 1 (vars (metadataIndex int) (block map[string]format/metadata.Property) (buf *bufio.Reader) (metadataIndeces []uint) (metadataKeys []string))
    (hint-body (use len-D (at (rem buf) 0) (drop (rem buf) 1)) (use idsL-step metadataKeys metadataIndeces metadataIndex)
      (use drop-step (pre (rem buf)) (rem buf) (lenP (rem buf))))
    (hint-exit (assert (= (drop metadataIndeces metadataIndex) (empty (Seq uint)))) (unfold keysL metadataKeys (drop metadataIndeces metadataIndex))
      (unfold valPs (keysL metadataKeys (drop metadataIndeces metadataIndex)) (rem buf) block)
      (assert (= block (valPs (keysL metadataKeys metadataIndeces) (pre (rem buf)) (noProps))))
      (assert (idsL metadataKeys metadataIndeces))
      (assert (= (rem buf) (drop (pre (rem buf)) (lenPs (pre (rem buf)) (len metadataIndeces))))))
    (inv count (<= 0 metadataIndex (len metadataIndeces)))
    (inv full (not (short buf)))
    (inv ids (iff (idsL metadataKeys metadataIndeces) (idsL metadataKeys (drop metadataIndeces metadataIndex))))
    (inv ok (iff (okPs (pre (rem buf)) (len metadataIndeces)) (okPs (rem buf) (- (len metadataIndeces) metadataIndex))))
    (inv value (= (valPs (keysL metadataKeys (drop metadataIndeces metadataIndex)) (rem buf) block) (valPs (keysL metadataKeys metadataIndeces) (pre (rem buf)) (noProps))))
    (inv length (= (+ (- (len (pre (rem buf))) (len (rem buf))) (lenPs (rem buf) (- (len metadataIndeces) metadataIndex))) (lenPs (pre (rem buf)) (len metadataIndeces))))
    (inv rest (= (rem buf) (drop (pre (rem buf)) (- (len (pre (rem buf))) (len (rem buf))))))))
(lemma take-next-Ev ((s (Seq format/collection/event.Capture)) (k Int))
  (requires (<= 0 k)) (requires (< k (len s)))
  (ensures (= (take s (+ k 1)) (cat (take s k) (unit (at s k))))))
(lemma rt-EvsOk ((cs (Seq format/collection/event.Capture)) (s Bytes) (M map[string]int) (N map[string]int) (K (Seq Bytes)) (L (Seq Bytes)))
  (requires (indexMap M)) (requires (indexMap N)) (requires (listOf M K)) (requires (listOf N L)) (requires (stEvs cs s M N))
  (ensures (okEvs K L s (len cs)))
  (measure (len cs)) (auto (stEvs cs s M N) (listOf M K) (listOf N L))
  (hint (use rt-Ev (at cs 0) s M N K L (sym anytime F64)) (use rt-EvsOk (drop cs 1) (drop s (lenEv s)) M N K L)
    (unfold stEvs cs s M N) (unfold okEvs K L s (len cs))))
; the bytes of collection c decode to its events, whatever the times
(def storedEvs ((header Bytes) (b Bytes) (c If)) Bool
  (and (okSA header) (okSA (drop header (lenSA header)))
    (okEvs (valSA header) (valSA (drop header (lenSA header))) b (len (evCaps c)))
    (forall ((ts (Seq F64))) (:pat (valEvs (valSA header) (valSA (drop header (lenSA header))) b ts)) (=> (= (len ts) (len (evCaps c)))
       (= (valEvs (valSA header) (valSA (drop header (lenSA header))) b ts) (keptEvs (evCaps c) ts))))))
(def wfEvs ((c If)) Bool
  (forall ((j Int) (q string)) (:pat (mget (evMap (at (evCaps c) j)) q)) (=> (<= 0 j) (< j (len (evCaps c))) (mhas (evMap (at (evCaps c) j)) q) (wfP (mget (evMap (at (evCaps c) j)) q)))))
(lemma indexMap-add ((M map[string]int) (k string))
  (requires (indexMap M))
  (ensures (=> (not (mhas M k)) (and (indexMap (mset M k (len M))) (subM M (mset M k (len M)))))))
(macro evBytes (x ids b) (cat (encU x) (cat (encUA ids) b)))
(lemma mk-Ev ((c format/collection/event.Capture) (x Int) (ids (Seq uint)) (b Bytes) (ks (Seq Bytes)) (M map[string]int) (N map[string]int))
  (requires (mhas M (. c name))) (requires (= (mget M (. c name)) x)) (requires (<= 0 x 9223372036854775807)) (requires (indexMap N)) (requires (= (len ids) (len ks)))
  (requires (forall ((j Int)) (:pat (at ids j)) (:pat (at ks j)) (=> (<= 0 j) (< j (len ids)) (and (mhas N (at ks j)) (= (at ids j) (mget N (at ks j)))))))
  (requires (okPs b (len ks))) (requires (= (lenPs b (len ks)) (len b))) (requires (= (valPs ks b (noProps)) (evMap c)))
  (ensures (stEv c (evBytes x ids b) M N)) (ensures (= (lenEv (evBytes x ids b)) (len (evBytes x ids b))))
  (hint (use keysM-is N ids ks) (use rt-UA ids b) (use rt-U x (cat (encUA ids) b) 0)
    (assert (= (drop (evBytes x ids b) (lenU (evBytes x ids b))) (cat (encUA ids) b)))
    (assert (= (evIds (evBytes x ids b)) ids)) (assert (= (evBody (evBytes x ids b)) b))))
(macro streamOf (bi) (evCaps (at streams bi)))
(func format/encoding/event.Encoder.Encode (params p streams) (results header data err)
  (requires (forall ((i Int)) (:pat (at streams i)) (=> (<= 0 i) (< i (len streams)) (and (is format/collection/event.Collection (at streams i)) (wfEvs (at streams i))))))
  (ensures ok (= err nil))
  (ensures count (= (len data) (len streams)))
  (ensures each (forall ((i Int)) (:pat (at streams i)) (:pat (at data i)) (=> (<= 0 i) (< i (len streams)) (storedEvs header (at data i) (at streams i)))))
  (via (forall ((i Int)) (:pat (at data i)) (:pat (at cs i)) (use encd-event p h (at data i) (at cs i))))
  (via-opaque storedEvs)
  (loop 0 (vars (streamDataBuffers []bytes.Buffer) (eventNamesSet map[string]int) (eventKeysSet map[string]int))
    (inv index (and (indexMap eventNamesSet) (indexMap eventKeysSet)))
    (inv count (= (len streamDataBuffers) (len streams)))
    (inv todo (forall ((i Int)) (:pat (at streamDataBuffers i)) (=> (<= $k i) (< i (len streams)) (= (at streamDataBuffers i) (empty Bytes)))))
    (inv each (forall ((i Int)) (:pat (at streams i)) (:pat (at streamDataBuffers i)) (=> (<= 0 i) (< i $k) (stEvs (evCaps (at streams i)) (at streamDataBuffers i) eventNamesSet eventKeysSet)))))
  (loop 1 (vars (streamDataBuffers []bytes.Buffer) (eventNamesSet map[string]int) (eventKeysSet map[string]int) (bufferIndex int))
    (hint-body (assert (wfEvs (at streams bufferIndex)))
      (assert (= (at streams bufferIndex) (box format/collection/event.Collection (evC (at streams bufferIndex)))))
      (assert (= (capAt (box format/collection/event.Collection (evC (at streams bufferIndex))) $k) (box format/collection/event.Capture (at (streamOf bufferIndex) $k))))
      (assert (= (capAt (at streams bufferIndex) $k) (box format/collection/event.Capture (at (streamOf bufferIndex) $k))))
      (assert (=> (< $k (lenC (at streams bufferIndex))) (= (unbox format/collection/event.Capture (at (@format.CaptureCollection.Captures (at streams bufferIndex)) $k)) (at (streamOf bufferIndex) $k))))
      (use indexMap-add eventNamesSet (. (at (streamOf bufferIndex) $k) name)))
    (hint (assert (subM (head eventNamesSet) eventNamesSet)) (assert (subM (head eventKeysSet) eventKeysSet))
      (assert (stEvs (take (streamOf bufferIndex) (- $k 1)) (head (at streamDataBuffers bufferIndex)) eventNamesSet eventKeysSet))
      (assert (= (at streamDataBuffers bufferIndex) (cat (head (at streamDataBuffers bufferIndex)) (drop (at streamDataBuffers bufferIndex) (len (head (at streamDataBuffers bufferIndex)))))))
      (assert (stEv (at (streamOf bufferIndex) (- $k 1)) (drop (at streamDataBuffers bufferIndex) (len (head (at streamDataBuffers bufferIndex)))) eventNamesSet eventKeysSet))
      (assert (= (lenEv (drop (at streamDataBuffers bufferIndex) (len (head (at streamDataBuffers bufferIndex))))) (len (drop (at streamDataBuffers bufferIndex) (len (head (at streamDataBuffers bufferIndex)))))))
      (use app-Evs (take (streamOf bufferIndex) (- $k 1)) (head (at streamDataBuffers bufferIndex)) (at (streamOf bufferIndex) (- $k 1))
         (drop (at streamDataBuffers bufferIndex) (len (head (at streamDataBuffers bufferIndex)))) eventNamesSet eventKeysSet)
      (assert (stEvs (cat (take (streamOf bufferIndex) (- $k 1)) (unit (at (streamOf bufferIndex) (- $k 1)))) (cat (head (at streamDataBuffers bufferIndex)) (drop (at streamDataBuffers bufferIndex) (len (head (at streamDataBuffers bufferIndex))))) eventNamesSet eventKeysSet))
      (use take-next-Ev (streamOf bufferIndex) (- $k 1)))
    (hint-exit (assert (= (take (streamOf bufferIndex) $k) (streamOf bufferIndex))))
    (inv index (and (indexMap eventNamesSet) (indexMap eventKeysSet)))
    (inv count (= (len streamDataBuffers) (len streams)))
    (inv kept (and (subM (pre eventNamesSet) eventNamesSet) (subM (pre eventKeysSet) eventKeysSet)))
    (inv others (forall ((i Int)) (:pat (at streamDataBuffers i)) (=> (!= i bufferIndex) (= (at streamDataBuffers i) (at (pre streamDataBuffers) i)))))
    (inv done (stEvs (take (streamOf bufferIndex) $k) (at streamDataBuffers bufferIndex) eventNamesSet eventKeysSet)))
  (loop 2 (vars (eventNamesSet map[string]int) (eventKeysSet map[string]int) (allKeyIndxes []uint) (allValueDataBuffer bytes.Buffer) (keyCount int) (eventCapture format/collection/event.Capture))
    (hint-body (assert (=> (< $k (len $keys)) (mhas (evMap eventCapture) (at $keys $k)))) (assert (=> (< $k (len $keys)) (wfP (mget (evMap eventCapture) (at $keys $k))))) (use indexMap-add eventKeysSet (at $keys $k)))
    (hint (assert (= (len (take $keys (- $k 1))) (- $k 1)))
       (assert (= (out allValueDataBuffer) (cat (head (out allValueDataBuffer)) (drop (out allValueDataBuffer) (len (head (out allValueDataBuffer)))))))
       (use app-Ps (take $keys (- $k 1)) (head (out allValueDataBuffer)) (noProps) (at $keys (- $k 1)) (drop (out allValueDataBuffer) (len (head (out allValueDataBuffer)))))
       (use take-next-B $keys (- $k 1)))
    (hint-exit (assert (= (take $keys $k) $keys))
       (assert (mapeq (valPs $keys (out allValueDataBuffer) (noProps)) (evMap eventCapture)))
       (assert (= (valPs $keys (out allValueDataBuffer) (noProps)) (evMap eventCapture)))
       (assert (and (mhas eventNamesSet (. eventCapture name)) (<= 0 (mget eventNamesSet (. eventCapture name)) 9223372036854775807)))
       (use mk-Ev eventCapture (mget eventNamesSet (. eventCapture name)) allKeyIndxes (out allValueDataBuffer) $keys eventNamesSet eventKeysSet)
       (assert (= (lenEv (evBytes (mget eventNamesSet (. eventCapture name)) allKeyIndxes (out allValueDataBuffer))) (len (evBytes (mget eventNamesSet (. eventCapture name)) allKeyIndxes (out allValueDataBuffer)))))
       (assert (stEv eventCapture (evBytes (mget eventNamesSet (. eventCapture name)) allKeyIndxes (out allValueDataBuffer)) eventNamesSet eventKeysSet)))
    (inv count (= keyCount $k))
    (inv size (= (len allKeyIndxes) (len $keys)))
    (inv index (indexMap eventKeysSet))
    (inv kept (subM (pre eventKeysSet) eventKeysSet))
    (inv ids (forall ((j Int)) (:pat (at allKeyIndxes j)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (and (mhas eventKeysSet (at $keys j)) (= (at allKeyIndxes j) (mget eventKeysSet (at $keys j)))))))
    (inv ok (okPs (out allValueDataBuffer) $k))
    (inv length (= (lenPs (out allValueDataBuffer) $k) (len (out allValueDataBuffer))))
    (inv has (forall ((q string)) (:pat (mhas (evMap eventCapture) q)) (:pat (mhas (valPs (take $keys $k) (out allValueDataBuffer) (noProps)) q))
       (iff (mhas (valPs (take $keys $k) (out allValueDataBuffer) (noProps)) q)
            (and (mhas (evMap eventCapture) q) (< (midx (evMap eventCapture) $keys q) $k)))))
    (inv get (forall ((q string)) (:pat (mget (valPs (take $keys $k) (out allValueDataBuffer) (noProps)) q))
       (=> (mhas (valPs (take $keys $k) (out allValueDataBuffer) (noProps)) q)
           (= (mget (valPs (take $keys $k) (out allValueDataBuffer) (noProps)) q) (mget (evMap eventCapture) q))))))
  (loop 3 (vars (streamData [][]byte) (streamDataBuffers []bytes.Buffer))
    (inv count (= (len streamData) (len streamDataBuffers)))
    (inv each (forall ((i Int)) (:pat (at streamData i)) (=> (<= 0 i) (< i $k) (= (at streamData i) (at streamDataBuffers i))))))
  (loop 4 (vars (allNames []string) (eventNamesSet map[string]int))
    (hint-exit (assert (listOf eventNamesSet allNames)))
    (inv size (= (len allNames) (len eventNamesSet)))
    (inv each (forall ((j Int)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (= (at allNames (mget eventNamesSet (at $keys j))) (at $keys j))))))
  (loop 5 (vars (allNames []string) (allKeys []string) (eventKeysSet map[string]int))
    (hint-exit (assert (listOf eventKeysSet allKeys)) (use rt-SA allNames (encSA allKeys)) (use rt-SA allKeys (empty Bytes)))
    (inv size (= (len allKeys) (len eventKeysSet)))
    (inv each (forall ((j Int)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (= (at allKeys (mget eventKeysSet (at $keys j))) (at $keys j))))))
)
(property C08 (roots format/encoding/event.Encoder.Encode format/encoding/event.Encoder.Decode) (lemmas rt-Evs rt-EvsOk app-Evs grow-Evs)
  (by C02 format/metadata.Property.Data format/metadata.Property.Code format/metadata.ReadProperty app-Ps pre-Ps pre-P pre-D len-D len-P))
