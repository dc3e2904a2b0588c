; ---- C07: enum collections ----
(macro enumC (c) (unbox format/collection/enum.Collection c))
(macro membersOf (c) (. (enumC c) enumMembers))
(macro toU64 (v) (mod v 18446744073709551616))
(macro toI64 (v) (ite (< v 9223372036854775808) v (- v 18446744073709551616)))
(macro enumV (c) (toU64 (. (unbox format/collection/enum.Capture c) value)))
; the values of the captures, as stored
(rec enumVals ((cs (Seq format/collection/enum.Capture))) (Seq uint)
  (ite (= (len cs) 0) (empty (Seq uint)) (cat (unit (toU64 (. (at cs 0) value)) (Seq uint)) (enumVals (drop cs 1)))))
; the bytes of collection c: indices into the member list H, then the values
(def enumBytes ((c If) (b Bytes) (M map[string]int)) Bool
  (and (okUA b)
       (= (len (valUA b)) (len (membersOf c)))
       (forall ((j Int)) (:pat (at (valUA b) j)) (:pat (at (membersOf c) j)) (=> (<= 0 j) (< j (len (membersOf c)))
          (and (mhas M (at (membersOf c) j)) (= (at (valUA b) j) (mget M (at (membersOf c) j))))))
       (= (drop b (lenUA b)) (encUs (enumVals (. (enumC c) captures))))))
; an index: every key has its own place below the number of keys
(def indexMap ((M map[string]int)) Bool
  (and (forall ((k string)) (:pat (mget M k)) (=> (mhas M k) (and (<= 0 (mget M k)) (< (mget M k) (len M)))))
       (forall ((k string) (j string)) (:pat (mget M k) (mget M j)) (=> (mhas M k) (mhas M j) (= (mget M k) (mget M j)) (= k j)))))
; the list that an index describes
(def listOf ((M map[string]int) (ks (Seq Bytes))) Bool
  (and (= (len ks) (len M))
       (forall ((k string)) (:pat (mget M k)) (=> (mhas M k) (= (at ks (mget M k)) k)))))
(def storedEnum ((header Bytes) (b Bytes) (c If)) Bool
  (and (okSA header) (okUA b) (= (len (valUA b)) (len (membersOf c)))
       (forall ((j Int)) (:pat (at (valUA b) j)) (:pat (at (membersOf c) j)) (=> (<= 0 j) (< j (len (membersOf c)))
          (and (< (at (valUA b) j) (len (valSA header))) (= (at (valSA header) (at (valUA b) j)) (at (membersOf c) j)))))
       (= (drop b (lenUA b)) (encUs (enumVals (. (enumC c) captures))))))
(lemma rt-SA0 ((v (Seq Bytes)))
  (ensures (okSA (encSA v))) (ensures (= (valSA (encSA v)) v)) (ensures (= (lenSA (encSA v)) (len (encSA v))))
  (auto (encSs v))
  (hint (use rt-SA v (empty Bytes))))
(macro bodyUA (b v) (drop b (len (encUA v))))
(func format/encoding/enum.Encoder.Encode (params p streams) (results header data err)
  (requires (forall ((i Int)) (:pat (at streams i)) (=> (<= 0 i) (< i (len streams)) (is format/collection/enum.Collection (at streams i)))))
  (ensures ok (= err nil))
  (ensures count (= (len data) (len streams)))
  (ensures each (forall ((i Int)) (:pat (at streams i)) (:pat (at data i)) (=> (<= 0 i) (< i (len streams)) (storedEnum header (at data i) (at streams i)))))
  (via (forall ((i Int)) (:pat (at data i)) (:pat (at cs i)) (use encd-enum p h (at data i) (at cs i))))
  (via-opaque storedEnum)
  (loop 0 (vars (streamDataBuffers []bytes.Buffer) (enumMemberMapping map[string]int))
    (inv index (indexMap enumMemberMapping))
    (inv count (= (len streamDataBuffers) (len streams)))
    (inv todo (forall ((i Int)) (:pat (at streamDataBuffers i)) (=> (<= $k i) (< i (len streams)) (= (at streamDataBuffers i) (empty Bytes)))))
    (inv each (forall ((i Int)) (:pat (at streams i)) (:pat (at streamDataBuffers i)) (=> (<= 0 i) (< i $k) (enumBytes (at streams i) (at streamDataBuffers i) enumMemberMapping)))))
  (loop 1 (vars (enumMemberMapping map[string]int) (indexMapping []uint) (enmstr format/collection/enum.Collection))
    (hint (assert (<= 0 (- $k 1))) (assert (< (- $k 1) (len indexMapping))) (assert (< (len enumMemberMapping) 9223372036854775808))
      (assert (and (mhas enumMemberMapping (at (. enmstr enumMembers) (- $k 1))) (= (at indexMapping (- $k 1)) (mget enumMemberMapping (at (. enmstr enumMembers) (- $k 1)))))))
    (inv index (indexMap enumMemberMapping))
    (inv size (= (len indexMapping) (len (. enmstr enumMembers))))
    (inv kept (forall ((k string)) (:pat (mget (pre enumMemberMapping) k)) (:pat (mhas (pre enumMemberMapping) k)) (=> (mhas (pre enumMemberMapping) k)
        (and (mhas enumMemberMapping k) (= (mget enumMemberMapping k) (mget (pre enumMemberMapping) k))))))
    (inv each (forall ((j Int)) (:pat (at indexMapping j)) (:pat (at (. enmstr enumMembers) j)) (=> (<= 0 j) (< j $k)
        (and (mhas enumMemberMapping (at (. enmstr enumMembers) j)) (= (at indexMapping j) (mget enumMemberMapping (at (. enmstr enumMembers) j))))))))
  (loop 2 (vars (streamDataBuffers []bytes.Buffer) (indexMapping []uint) (enmstr format/collection/enum.Collection) (bufferIndex int))
    (inv count (= (len streamDataBuffers) (len streams)))
    (inv others (forall ((i Int)) (:pat (at streamDataBuffers i)) (=> (!= i bufferIndex) (= (at streamDataBuffers i) (at (pre streamDataBuffers) i)))))
    (hint-entry (use rt-UA indexMapping (empty Bytes)))
    (hint (use rt-UA indexMapping (bodyUA (at streamDataBuffers bufferIndex) indexMapping)))
    (inv split (= (at streamDataBuffers bufferIndex) (cat (encUA indexMapping) (bodyUA (at streamDataBuffers bufferIndex) indexMapping))))
    (inv head (and (okUA (at streamDataBuffers bufferIndex)) (= (valUA (at streamDataBuffers bufferIndex)) indexMapping) (= (lenUA (at streamDataBuffers bufferIndex)) (len (encUA indexMapping)))))
    (inv values (= (cat (bodyUA (at streamDataBuffers bufferIndex) indexMapping) (encUs (enumVals (drop (. enmstr captures) $k)))) (encUs (enumVals (. enmstr captures))))))
  (loop 3 (vars (headerMembers []string) (enumMemberMapping map[string]int))
    (inv size (= (len headerMembers) (len enumMemberMapping)))
    (inv each (forall ((j Int)) (:pat (at $keys j)) (=> (<= 0 j) (< j $k) (= (at headerMembers (mget enumMemberMapping (at $keys j))) (at $keys j))))))
  (loop 4 (vars (streamData [][]byte) (streamDataBuffers []bytes.Buffer))
    (inv count (= (len streamData) (len streamDataBuffers)))
    (inv each (forall ((i Int)) (:pat (at streamData i)) (=> (<= 0 i) (< i $k) (= (at streamData i) (at streamDataBuffers i))))))
)
; what a stored collection decodes to
(rec valEnumCaps ((s Bytes) (ts (Seq F64))) (Seq format/collection/enum.Capture)
  (ite (= (len ts) 0) (empty (Seq format/collection/enum.Capture))
    (cat (unit (mk format/collection/enum.Capture (at ts 0) (toI64 (valU s)))) (valEnumCaps (drop s (lenU s)) (drop ts 1)))))
(def okEnum ((header Bytes) (b Bytes) (n Int)) Bool
  (and (okSA header) (okUA b)
    (forall ((j Int)) (:pat (at (valUA b) j)) (=> (<= 0 j) (< j (len (valUA b))) (< (at (valUA b) j) (len (valSA header)))))
    (okUs (drop b (lenUA b)) n)))
(def valEnum ((header Bytes) (b Bytes) (ts (Seq F64)) (c format/collection/enum.Collection)) Bool
  (and (= (len (. c enumMembers)) (len (valUA b)))
    (forall ((j Int)) (:pat (at (. c enumMembers) j)) (:pat (at (valUA b) j)) (=> (<= 0 j) (< j (len (valUA b))) (= (at (. c enumMembers) j) (at (valSA header) (at (valUA b) j)))))
    (= (. c captures) (valEnumCaps (drop b (lenUA b)) ts))))
(func format/encoding/enum.Encoder.Decode (params p name header streamData times) (results c err)
  (ensures ok (iff (= err nil) (okEnum header streamData (len times))))
  (ensures value (=> (= err nil) (and (is format/collection/enum.Collection c) (= (. (enumC c) name) name) (valEnum header streamData times (enumC c)))))
  (loop 0 (vars (enumMembers []string) (enumMemberIndexes []uint))
    (inv size (= (len enumMembers) (len enumMemberIndexes)))
    (inv each (forall ((j Int)) (:pat (at enumMembers j)) (:pat (at (valUA streamData) j)) (=> (<= 0 j) (< j $k) (and (< (at (valUA streamData) j) (len (valSA header))) (= (at enumMembers j) (at (valSA header) (at (valUA streamData) j))))))))
  (loop 1 (vars (i int) (captures (Seq format/collection/enum.Capture)) (reader *internal/io/binary.ErrReader))
    (inv count (<= 0 i (len times)))
    (inv size (= (len captures) (len times)))
    (inv full (and (not (short reader)) (= (. reader err) nil)))
    (inv ok (iff (okUs (drop streamData (lenUA streamData)) (len times)) (okUs (rem reader) (- (len times) i))))
    (inv value (= (cat (take captures i) (valEnumCaps (rem reader) (drop times i))) (valEnumCaps (drop streamData (lenUA streamData)) times)))))
; a capture of the given time and stored value
(rec keptEnum ((cs (Seq format/collection/enum.Capture)) (ts (Seq F64))) (Seq format/collection/enum.Capture)
  (ite (= (len cs) 0) (empty (Seq format/collection/enum.Capture))
    (cat (unit (mk format/collection/enum.Capture (at ts 0) (. (at cs 0) value))) (keptEnum (drop cs 1) (drop ts 1)))))
(lemma rt-enumCaps ((cs (Seq format/collection/enum.Capture)) (ts (Seq F64)))
  (requires (= (len ts) (len cs)))
  (ensures (okUs (encUs (enumVals cs)) (len cs)))
  (ensures (= (valEnumCaps (encUs (enumVals cs)) ts) (keptEnum cs ts)))
  (measure (len cs))
  (hint (use rt-enumCaps (drop cs 1) (drop ts 1))
     (assert (=> (< 0 (len cs)) (= (encUs (enumVals cs)) (cat (encU (toU64 (. (at cs 0) value))) (encUs (enumVals (drop cs 1)))))))
     (use rt-U (toU64 (. (at cs 0) value)) (encUs (enumVals (drop cs 1))) 0)
     (assert (=> (< 0 (len cs)) (= (drop (encUs (enumVals cs)) (lenU (encUs (enumVals cs)))) (encUs (enumVals (drop cs 1))))))
     (assert (=> (< 0 (len cs)) (= (toI64 (valU (encUs (enumVals cs)))) (. (at cs 0) value))))
     (unfold valEnumCaps (encUs (enumVals cs)) ts) (unfold keptEnum cs ts)))
; the collection that is stored is the collection that is read
(lemma rt-enum ((header Bytes) (b Bytes) (c If) (ts (Seq F64)) (d format/collection/enum.Collection))
  (requires (is format/collection/enum.Collection c)) (requires (storedEnum header b c)) (requires (= (len ts) (len (. (enumC c) captures)))) (requires (valEnum header b ts d))
  (ensures (okEnum header b (len ts))) (ensures (= (. d enumMembers) (membersOf c)))
  (ensures (= (. d captures) (keptEnum (. (enumC c) captures) ts)))
  (hint (use rt-enumCaps (. (enumC c) captures) ts)))
(property C07 (roots format/encoding/enum.Encoder.Encode format/encoding/enum.Encoder.Decode) (lemmas rt-enum rt-enumCaps))
