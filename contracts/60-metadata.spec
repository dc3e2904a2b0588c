; ---- C02: metadata ----
(iface format/metadata.Property (obs Code)
  (impl format/metadata.StringProperty format/metadata.Int32Property format/metadata.Float32Property format/metadata.BoolProperty format/metadata.ByteProperty
    format/metadata.Vector2Property format/metadata.Vector3Property format/metadata.MetadataProperty format/metadata.TimeProperty format/metadata.ArrayProperty format/metadata.ArrayPropertyRaw))
(macro codeOf (p) (@format/metadata.Property.Code p))
(macro i32of (s) (- (mod (+ (sym unle4 Int (take s 4)) 2147483648) 4294967296) 2147483648))
(macro i64of (s) (- (mod (+ (sym unle8 Int (take s 8)) 9223372036854775808) 18446744073709551616) 9223372036854775808))
(macro f32at (s) (sym f32.frombits F32 (sym unle4 Int (take s 4))))
(macro arrT (t) (or (= t 13) (= t 14) (= t 15) (= t 19) (= t 20) (= t 24) (= t 25)))
; what the value of type code t at the front of s is: readable, value, number of bytes
(rec okD ((t Int) (s Bytes)) Bool
  (cond ((or (= t 0) (= t 16) (= t 18)) (okS s))
        ((or (= t 1) (= t 2)) (<= 4 (len s)))
        ((or (= t 3) (= t 4)) true)
        ((= t 5) (<= 1 (len s)))
        ((= t 6) (<= 16 (len s)))
        ((= t 7) (<= 24 (len s)))
        ((= t 12) (<= 8 (len s)))
        ((= t 11) (and (okSA s) (okPs (drop s (lenSA s)) (valU s))))
        ((arrT t) (and (okU s) (okDs (- t 13) (drop s (lenU s)) (valU s))))
        (else false)))
(rec lenD ((t Int) (s Bytes)) Int
  (cond ((or (= t 0) (= t 16) (= t 18)) (lenS s))
        ((or (= t 1) (= t 2)) 4)
        ((or (= t 3) (= t 4)) 0)
        ((= t 5) 1)
        ((= t 6) 16)
        ((= t 7) 24)
        ((= t 12) 8)
        ((= t 11) (+ (lenSA s) (lenPs (drop s (lenSA s)) (valU s))))
        (else (+ (lenU s) (lenDs (- t 13) (drop s (lenU s)) (valU s))))))
(rec valD ((t Int) (s Bytes)) If
  (cond ((= t 0) (box format/metadata.StringProperty (mk format/metadata.StringProperty (valS s))))
        ((= t 1) (box format/metadata.Int32Property (mk format/metadata.Int32Property (i32of s))))
        ((= t 2) (box format/metadata.Float32Property (mk format/metadata.Float32Property (f32at s))))
        ((= t 3) (box format/metadata.BoolProperty (mk format/metadata.BoolProperty true)))
        ((= t 4) (box format/metadata.BoolProperty (mk format/metadata.BoolProperty false)))
        ((= t 5) (box format/metadata.ByteProperty (mk format/metadata.ByteProperty (at s 0))))
        ((= t 6) (box format/metadata.Vector2Property (mk format/metadata.Vector2Property (u64f s) (u64f (drop s 8)))))
        ((= t 7) (box format/metadata.Vector3Property (mk format/metadata.Vector3Property (u64f s) (u64f (drop s 8)) (u64f (drop s 16)))))
        ((= t 12) (box format/metadata.TimeProperty (mk format/metadata.TimeProperty (i64of s))))
        ((= t 11) (box format/metadata.MetadataProperty (mk format/metadata.MetadataProperty (mk format/metadata.Block
            (valPs (valSA s) (drop s (lenSA s)) (empty map[string]format/metadata.Property))))))
        ((or (= t 16) (= t 18)) (box format/metadata.ArrayPropertyRaw (mk format/metadata.ArrayPropertyRaw (ite (= t 16) 3 5) (encS (valS s)) 1)))
        (else (box format/metadata.ArrayProperty (mk format/metadata.ArrayProperty (- t 13) (valDs (- t 13) (drop s (lenU s)) (valU s)))))))
; n values of the same type
(rec okDs ((t Int) (s Bytes) (n Int)) Bool (or (<= n 0) (and (okD t s) (okDs t (drop s (lenD t s)) (- n 1)))))
(rec lenDs ((t Int) (s Bytes) (n Int)) Int (ite (<= n 0) 0 (+ (lenD t s) (lenDs t (drop s (lenD t s)) (- n 1)))))
(rec valDs ((t Int) (s Bytes) (n Int)) (Seq If) (ite (<= n 0) (empty (Seq If)) (cat (unit (valD t s)) (valDs t (drop s (lenD t s)) (- n 1)))))
; a type code and a value; n of them
(macro okP (s) (and (<= 1 (len s)) (okD (at s 0) (drop s 1))))
(macro lenP (s) (+ 1 (lenD (at s 0) (drop s 1))))
(macro valP (s) (valD (at s 0) (drop s 1)))
(rec okPs ((s Bytes) (n Int)) Bool (or (<= n 0) (and (okP s) (okPs (drop s (lenP s)) (- n 1)))))
(rec lenPs ((s Bytes) (n Int)) Int (ite (<= n 0) 0 (+ (lenP s) (lenPs (drop s (lenP s)) (- n 1)))))
; m extended with the values read for the keys ks
(rec valPs ((ks (Seq Bytes)) (s Bytes) (m map[string]format/metadata.Property)) map[string]format/metadata.Property
  (ite (= (len ks) 0) m (valPs (drop ks 1) (drop s (lenP s)) (mset m (at ks 0) (valP s)))))

; what is read from a prefix is what is read from the whole, and stays inside it
(macro elemT (t) (or (= t 0) (= t 1) (= t 2) (= t 6) (= t 7) (= t 11) (= t 12)))
(lemma pre-D ((t Int) (s Bytes) (k Int)) (group pre-D)
  (requires (<= 0 k (len s))) (requires (okD t (take s k)))
  (ensures (okD t s)) (ensures (= (valD t (take s k)) (valD t s))) (ensures (= (lenD t (take s k)) (lenD t s)))
  (ensures (<= 0 (lenD t s) k)) (ensures (=> (!= t 3) (!= t 4) (<= 1 (lenD t s))))
  (measure (* 2 k))
  (hint (use pre-S s k) (use pre-SA s k) (use pre-U s k 0) (use len-U s 0) (use len-U (take s k) 0)
    (assert (=> (= t 11) (and (okSA s) (<= 0 (lenSA s) k) (= (len (valSA s)) (valU s)) (= (valU (take s k)) (valU s)))))
    (assert (=> (= t 11) (= (drop (take s k) (lenSA (take s k))) (take (drop s (lenSA s)) (- k (lenSA s))))))
    (assert (=> (arrT t) (= (drop (take s k) (lenU (take s k))) (take (drop s (lenU s)) (- k (lenU s))))))
    (unfold okD t (take s k)) (assert (=> (= t 11) (okPs (drop (take s k) (lenSA (take s k))) (valU (take s k)))))
    (assert (=> (= t 11) (okPs (take (drop s (lenSA s)) (- k (lenSA s))) (len (valSA s)))))
    (use pre-Ps (drop s (lenSA s)) (- k (lenSA s)) (valSA s) (empty map[string]format/metadata.Property))
    (use pre-Ds (- t 13) (drop s (lenU s)) (- k (lenU s)) (valU s))
    (unfold okD t s) (unfold okD t (take s k)) (unfold lenD t s) (unfold lenD t (take s k)) (unfold valD t s) (unfold valD t (take s k))
    (assert (=> (= t 11) (okPs (drop s (lenSA s)) (valU s))))
    (assert (=> (arrT t) (okDs (- t 13) (drop s (lenU s)) (valU s))))
    (assert (okD t s))
    (assert (=> (= t 11) (= (valD t (take s k)) (valD t s))))
    (assert (=> (arrT t) (= (valD t (take s k)) (valD t s))))
    (assert (=> (= t 11) (= (lenD t (take s k)) (lenD t s))))
    (assert (=> (arrT t) (= (lenD t (take s k)) (lenD t s))))))
(lemma pre-Ds ((t Int) (s Bytes) (k Int) (n Int)) (group pre-D)
  (requires (elemT t)) (requires (<= 0 k (len s))) (requires (okDs t (take s k) n))
  (ensures (okDs t s n)) (ensures (= (valDs t (take s k) n) (valDs t s n))) (ensures (= (lenDs t (take s k) n) (lenDs t s n)))
  (ensures (<= 0 (lenDs t s n) k))
  (measure (+ 1 (* 2 k)))
  (hint (use pre-D t s k) (use pre-Ds t (drop s (lenD t s)) (- k (lenD t s)) (- n 1))
    (assert (=> (< 0 n) (= (drop (take s k) (lenD t s)) (take (drop s (lenD t s)) (- k (lenD t s))))))))
(lemma pre-Ps ((s Bytes) (k Int) (ks (Seq Bytes)) (m map[string]format/metadata.Property)) (group pre-D)
  (requires (<= 0 k (len s))) (requires (okPs (take s k) (len ks)))
  (ensures (okPs s (len ks))) (ensures (= (valPs ks (take s k) m) (valPs ks s m))) (ensures (= (lenPs (take s k) (len ks)) (lenPs s (len ks))))
  (ensures (<= 0 (lenPs s (len ks)) k))
  (measure (+ 1 (* 2 k)))
  (hint (assert (=> (< 0 (len ks)) (<= 1 k)))
    (assert (=> (< 0 (len ks)) (= (drop (take s k) 1) (take (drop s 1) (- k 1)))))
    (use pre-D (at s 0) (drop s 1) (- k 1))
    (assert (=> (< 0 (len ks)) (and (= (lenP (take s k)) (lenP s)) (= (valP (take s k)) (valP s)))))
    (assert (=> (< 0 (len ks)) (= (drop (take s k) (lenP (take s k))) (take (drop s (lenP s)) (- k (lenP s))))))
    (unfold valPs ks (take s k) m) (unfold valPs ks s m) (unfold lenPs (take s k) (len ks)) (unfold lenPs s (len ks))
    (use pre-Ps (drop s (lenP s)) (- k (lenP s)) (drop ks 1) (mset m (at ks 0) (valP s)))
    (assert (=> (< 0 (len ks)) (= (drop (take s k) (lenP s)) (take (drop s (lenP s)) (- k (lenP s))))))))
(lemma len-D ((t Int) (s Bytes))
  (requires (okD t s)) (ensures (<= 0 (lenD t s) (len s))) (ensures (=> (!= t 3) (!= t 4) (<= 1 (lenD t s))))
  (hint (use pre-D t s (len s))))
(func format/metadata.readFloat64s (params r count) (results v err) (reader r)
  (requires (<= 0 count 3))
  (ensures ok (iff (= err nil) (<= (* 8 count) (len (old (rem r))))))
  (ensures size (=> (= err nil) (= (len v) count)))
  (ensures value (=> (= err nil) (forall ((i Int)) (:pat (at v i)) (=> (<= 0 i) (< i count) (= (at v i) (u64f (drop (old (rem r)) (* 8 i))))))))
  (ensures rest (=> (= err nil) (= (rem r) (drop (old (rem r)) (* 8 count)))))
  (loop 0 (vars (i int) (outValues []float64))
    (inv count (<= 0 i count))
    (inv full (not (short r)))
    (inv size (= (len outValues) count))
    (inv enough (<= (* 8 i) (len (old (rem r)))))
    (inv rest (= (rem r) (drop (old (rem r)) (* 8 i))))
    (inv value (forall ((j Int)) (:pat (at outValues j)) (=> (<= 0 j) (< j i) (= (at outValues j) (u64f (drop (old (rem r)) (* 8 j)))))))))
(func format/metadata.readNestedMetadatablock (params b) (results m err) (reader b)
  (hint-entry (use len-SA (rem b)))
  (ensures ok (iff (= err nil) (okD 11 (old (rem b)))))
  (ensures value (=> (= err nil) (= (. m mapping) (valPs (valSA (old (rem b))) (drop (old (rem b)) (lenSA (old (rem b)))) (empty map[string]format/metadata.Property)))))
  (ensures rest (=> (= err nil) (= (rem b) (drop (old (rem b)) (lenD 11 (old (rem b)))))))
  (loop 0 (vars (metadata map[string]format/metadata.Property) (metadataKeys []string))
    (hint-body (use len-D (at (rem b) 0) (drop (rem b) 1)))
    (inv full (not (short b)))
    (inv ok (iff (okPs (drop (old (rem b)) (lenSA (old (rem b)))) (valU (old (rem b)))) (okPs (rem b) (- (len metadataKeys) $k))))
    (inv value (= (valPs (drop metadataKeys $k) (rem b) metadata) (valPs metadataKeys (drop (old (rem b)) (lenSA (old (rem b)))) (empty map[string]format/metadata.Property))))
    (inv length (= (+ (- (len (old (rem b))) (len (rem b))) (lenPs (rem b) (- (len metadataKeys) $k))) (lenD 11 (old (rem b)))))
    (inv rest (= (rem b) (drop (old (rem b)) (- (len (old (rem b))) (len (rem b))))))))
(func format/metadata.readPropData (params b propertyType) (results p err) (reader b)
  (hint-entry (use len-U (rem b) 0))
  (ensures ok (iff (= err nil) (okD propertyType (old (rem b)))))
  (ensures value (=> (= err nil) (= p (valD propertyType (old (rem b))))))
  (ensures rest (=> (= err nil) (= (rem b) (drop (old (rem b)) (lenD propertyType (old (rem b)))))))
  (loop 0 (vars (i uint64) (length uint64) (props []format/metadata.Property) (adjustedType byte))
    (hint-body (use len-D adjustedType (rem b)))
    (inv count (<= 0 i length))
    (inv full (not (short b)))
    (inv head (and (okU (old (rem b))) (= length (valU (old (rem b))))))
    (inv ok (iff (okDs adjustedType (drop (old (rem b)) (lenU (old (rem b)))) length) (okDs adjustedType (rem b) (- length i))))
    (inv value (= (cat props (valDs adjustedType (rem b) (- length i))) (valDs adjustedType (drop (old (rem b)) (lenU (old (rem b)))) length)))
    (inv rest (= (rem b) (drop (old (rem b)) (- (len (old (rem b))) (len (rem b))))))
    (inv length (= (+ (- (len (old (rem b))) (len (rem b))) (lenDs adjustedType (rem b) (- length i))) (lenD propertyType (old (rem b)))))))
(func format/metadata.ReadProperty (params b) (results p err) (reader b)
  (hint-entry (use len-D (at (rem b) 0) (drop (rem b) 1)))
  (ensures ok (iff (= err nil) (okP (old (rem b)))))
  (ensures value (=> (= err nil) (= p (valP (old (rem b))))))
  (ensures rest (=> (= err nil) (= (rem b) (drop (old (rem b)) (lenP (old (rem b))))))))
; values that can be built through the public interface: no nil property, arrays hold values of their own kind
(macro propsOf (p) (. (unbox format/metadata.ArrayProperty p) props))
(macro baseOf (p) (. (unbox format/metadata.ArrayProperty p) originalBaseCode))
(macro mapOf (p) (. (. (unbox format/metadata.MetadataProperty p) block) mapping))
(rec wfP ((p If)) Bool
  (and (!= p nil)
    (or (is format/metadata.StringProperty p) (is format/metadata.Int32Property p) (is format/metadata.Float32Property p) (is format/metadata.BoolProperty p)
        (is format/metadata.ByteProperty p) (is format/metadata.Vector2Property p) (is format/metadata.Vector3Property p) (is format/metadata.TimeProperty p)
        (is format/metadata.MetadataProperty p) (is format/metadata.ArrayProperty p) (is format/metadata.ArrayPropertyRaw p))
    (=> (is format/metadata.MetadataProperty p)
        (forall ((k string)) (:pat (mget (mapOf p) k)) (=> (mhas (mapOf p) k) (wfP (mget (mapOf p) k)))))
    (=> (is format/metadata.ArrayProperty p)
        (and (elemT (baseOf p))
             (forall ((i Int)) (:pat (at (propsOf p) i)) (=> (<= 0 i) (< i (len (propsOf p))) (and (wfP (at (propsOf p) i)) (= (codeOf (at (propsOf p) i)) (baseOf p)))))))
    (=> (is format/metadata.ArrayPropertyRaw p)
        (let ((r (unbox format/metadata.ArrayPropertyRaw p)))
          (and (or (= (. r originalBaseCode) 3) (= (. r originalBaseCode) 5)) (= (. r division) 1)
               (okS (. r data)) (= (. r data) (encS (valS (. r data)))))))))
; appending one more item
(lemma app-Ds ((t Int) (s Bytes) (n Int) (u Bytes))
  (requires (elemT t)) (requires (<= 0 n)) (requires (okDs t s n)) (requires (= (lenDs t s n) (len s))) (requires (okD t u)) (requires (= (lenD t u) (len u)))
  (ensures (okDs t (cat s u) (+ n 1))) (ensures (= (lenDs t (cat s u) (+ n 1)) (+ (len s) (len u))))
  (ensures (= (valDs t (cat s u) (+ n 1)) (cat (valDs t s n) (unit (valD t u)))))
  (measure n)
  (hint (use pre-D t (cat s u) (len s)) (use app-Ds t (drop s (lenD t s)) (- n 1) u)
    (assert (=> (< 0 n) (= (take (cat s u) (len s)) s)))
    (assert (=> (< 0 n) (= (lenD t (cat s u)) (lenD t s))))
    (assert (=> (< 0 n) (= (drop (cat s u) (lenD t s)) (cat (drop s (lenD t s)) u))))
    (unfold okDs t (cat s u) (+ n 1)) (unfold lenDs t (cat s u) (+ n 1)) (unfold valDs t (cat s u) (+ n 1))
    (assert (=> (= n 0) (= (cat s u) u)))))
(lemma app-Ps ((ks (Seq Bytes)) (s Bytes) (m map[string]format/metadata.Property) (k Bytes) (u Bytes))
  (requires (okPs s (len ks))) (requires (= (lenPs s (len ks)) (len s))) (requires (okP u)) (requires (= (lenP u) (len u)))
  (ensures (okPs (cat s u) (+ (len ks) 1))) (ensures (= (lenPs (cat s u) (+ (len ks) 1)) (+ (len s) (len u))))
  (ensures (= (valPs (cat ks (unit k)) (cat s u) m) (mset (valPs ks s m) k (valP u))))
  (measure (len ks))
  (hint (unfold okPs s (len ks)) (unfold lenPs s (len ks)) (unfold valPs ks s m) (use len-D (at s 0) (drop s 1))
    (use pre-D (at s 0) (drop (cat s u) 1) (- (len s) 1)) (use app-Ps (drop ks 1) (drop s (lenP s)) (mset m (at ks 0) (valP s)) k u)
    (assert (=> (< 0 (len ks)) (= (take (drop (cat s u) 1) (- (len s) 1)) (drop s 1))))
    (assert (=> (< 0 (len ks)) (and (= (at (cat s u) 0) (at s 0)) (= (lenP (cat s u)) (lenP s)) (= (valP (cat s u)) (valP s)) (okP (cat s u)))))
    (assert (=> (< 0 (len ks)) (= (drop (cat s u) (lenP s)) (cat (drop s (lenP s)) u))))
    (assert (=> (< 0 (len ks)) (and (okPs (drop (cat s u) (lenP (cat s u))) (len ks)) (= (lenPs (drop (cat s u) (lenP (cat s u))) (len ks)) (- (+ (len s) (len u)) (lenP s))))))
    (assert (=> (< 0 (len ks)) (= (drop (cat ks (unit k)) 1) (cat (drop ks 1) (unit k)))))
    (assert (=> (< 0 (len ks)) (= (valPs (drop (cat ks (unit k)) 1) (drop (cat s u) (lenP s)) (mset m (at ks 0) (valP s))) (mset (valPs ks s m) k (valP u)))))
    (unfold okPs (cat s u) (+ (len ks) 1)) (unfold lenPs (cat s u) (+ (len ks) 1)) (unfold valPs (cat ks (unit k)) (cat s u) m)
    (assert (=> (= (len ks) 0) (= (cat s u) u)))
    (assert (=> (= (len ks) 0) (= (cat ks (unit k)) (unit k))))
    (unfold valPs (unit k) u m) (unfold valPs (empty (Seq Bytes)) (drop u (lenP u)) (mset m k (valP u))) (assert (=> (= (len ks) 0) (= (valPs (cat ks (unit k)) (cat s u) m) (mset m k (valP u)))))
    (assert (=> (< 0 (len ks)) (and (= (at (cat ks (unit k)) 0) (at ks 0)) (= (mset m (at (cat ks (unit k)) 0) (valP (cat s u))) (mset m (at ks 0) (valP s))))))
    (assert (=> (< 0 (len ks)) (= (drop (cat s u) (lenP (cat s u))) (drop (cat s u) (lenP s)))))
    (assert (=> (< 0 (len ks)) (= (valPs (cat ks (unit k)) (cat s u) m) (valPs (drop (cat ks (unit k)) 1) (drop (cat s u) (lenP s)) (mset m (at ks 0) (valP s))))))
    (assert (=> (= 0 (len ks)) (= (valPs ks s m) m)))))
(lemma take-next-If ((s (Seq If)) (k Int))
  (requires (<= 0 k)) (requires (< k (len s)))
  (ensures (= (take s (+ k 1)) (cat (take s k) (unit (at s k))))))
(lemma take-next-B ((s (Seq Bytes)) (k Int))
  (requires (<= 0 k)) (requires (< k (len s)))
  (ensures (= (take s (+ k 1)) (cat (take s k) (unit (at s k))))))
(imethod format/metadata.Property.Data (params p) (results b)
  (requires (wfP p))
  (hint-entry (unfold wfP p))
  (hint (unfold okD (codeOf p) b) (unfold lenD (codeOf p) b) (unfold valD (codeOf p) b))
  (ensures ok (okD (codeOf p) b))
  (ensures length (= (lenD (codeOf p) b) (len b)))
  (ensures value (= (valD (codeOf p) b) p)))
; loops and hints of the implementations (p is the receiver as an interface value)
(func format/metadata.StringProperty.Data (params p) (results b)
  (hint (use rt-S (. (unbox format/metadata.StringProperty p) str) (empty Bytes))))
(func format/metadata.BoolProperty.Data (params p) (results b)
  (hint (unfold okD 3 b) (unfold okD 4 b) (unfold lenD 3 b) (unfold lenD 4 b) (unfold valD 3 b) (unfold valD 4 b)
    (assert (or (= (codeOf p) 3) (= (codeOf p) 4)))))
(func format/metadata.ArrayPropertyRaw.Data (params p) (results b)
  (hint (use rt-S (valS (. (unbox format/metadata.ArrayPropertyRaw p) data)) (empty Bytes))))
(macro bodyOf (w n) (drop (out w) (len (encU n))))
(func format/metadata.ArrayProperty.Data (params p) (results b)
  (hint (use rt-U (len (propsOf p)) (drop b (len (encU (len (propsOf p))))) 0))
  (loop 0 (vars (buf bytes.Buffer))
    (hint-body (unfold wfP (at (propsOf p) $k)))
    (hint (use app-Ds (baseOf p) (head (bodyOf buf (len (propsOf p)))) (- $k 1) (drop (out buf) (len (head (out buf)))))
      (use take-next-If (propsOf p) (- $k 1)))
    (inv bound (<= $k (len (propsOf p))))
    (inv head (and (<= (len (encU (len (propsOf p)))) (len (out buf))) (= (take (out buf) (len (encU (len (propsOf p))))) (encU (len (propsOf p))))))
    (inv ok (okDs (baseOf p) (bodyOf buf (len (propsOf p))) $k))
    (inv length (= (lenDs (baseOf p) (bodyOf buf (len (propsOf p))) $k) (- (len (out buf)) (len (encU (len (propsOf p)))))))
    (inv value (= (valDs (baseOf p) (bodyOf buf (len (propsOf p))) $k) (take (propsOf p) $k)))))
(macro headLen (ks) (+ (len (encU (len ks))) (len (encSs ks))))
(macro itemsOf (w ks) (drop (out w) (headLen ks)))
(func format/metadata.MetadataProperty.Data (params p) (results b)
  (hint (assert (mapeq (valPs (valSA b) (drop b (lenSA b)) (empty map[string]format/metadata.Property)) (mapOf p)))
    (unfold okD 11 b) (unfold lenD 11 b) (unfold valD 11 b))
  (loop 0 (vars (mappingWithIndex []string) (i int))
    (inv count (= i $k))
    (inv size (= (len mappingWithIndex) (len $keys)))
    (inv keys (= (take mappingWithIndex $k) (take $keys $k)))
    (hint (use take-next-B $keys (- $k 1)) (use take-next-B mappingWithIndex (- $k 1))))
  (loop 1 (vars (buf *bytes.Buffer) (mappingWithIndex []string))
    (hint-entry (assert (menum (mapOf p) mappingWithIndex)) (use rt-SA mappingWithIndex (empty Bytes)) (use len-SA (out buf)))
    (hint-body (unfold wfP (mget (mapOf p) (at mappingWithIndex $k))) )
    (hint (assert (= (len (take mappingWithIndex (- $k 1))) (- $k 1)))
       (assert (= (itemsOf buf mappingWithIndex) (cat (head (itemsOf buf mappingWithIndex)) (drop (out buf) (len (head (out buf)))))))
       (use app-Ps (take mappingWithIndex (- $k 1)) (head (itemsOf buf mappingWithIndex)) (empty map[string]format/metadata.Property)
          (at mappingWithIndex (- $k 1)) (drop (out buf) (len (head (out buf)))))
       (assert (= (len (itemsOf buf mappingWithIndex)) (+ (len (head (itemsOf buf mappingWithIndex))) (len (drop (out buf) (len (head (out buf))))))))
       (assert (= (lenPs (itemsOf buf mappingWithIndex) $k) (len (itemsOf buf mappingWithIndex))))
       (use take-next-B mappingWithIndex (- $k 1)) (use rt-SA mappingWithIndex (itemsOf buf mappingWithIndex)) (use len-SA (out buf)))
    (inv keys (menum (mapOf p) mappingWithIndex))
    (inv bound (<= $k (len mappingWithIndex)))
    (inv room (<= (headLen mappingWithIndex) (len (out buf))))
    (inv head (= (out buf) (cat (encSA mappingWithIndex) (itemsOf buf mappingWithIndex))))
    (inv names (and (okSA (out buf)) (= (valSA (out buf)) mappingWithIndex) (= (lenSA (out buf)) (headLen mappingWithIndex)) (= (valU (out buf)) (len mappingWithIndex))))
    (inv ok (okPs (itemsOf buf mappingWithIndex) $k))
    (inv length (= (lenPs (itemsOf buf mappingWithIndex) $k) (len (itemsOf buf mappingWithIndex))))
    (inv has (forall ((q string)) (:pat (mhas (mapOf p) q)) (:pat (mhas (valPs (take mappingWithIndex $k) (itemsOf buf mappingWithIndex) (empty map[string]format/metadata.Property)) q))
       (iff (mhas (valPs (take mappingWithIndex $k) (itemsOf buf mappingWithIndex) (empty map[string]format/metadata.Property)) q)
            (and (mhas (mapOf p) q) (< (midx (mapOf p) mappingWithIndex q) $k)))))
    (inv get (forall ((q string)) (:pat (mget (valPs (take mappingWithIndex $k) (itemsOf buf mappingWithIndex) (empty map[string]format/metadata.Property)) q))
       (=> (mhas (valPs (take mappingWithIndex $k) (itemsOf buf mappingWithIndex) (empty map[string]format/metadata.Property)) q)
           (= (mget (valPs (take mappingWithIndex $k) (itemsOf buf mappingWithIndex) (empty map[string]format/metadata.Property)) q) (mget (mapOf p) q)))))))
; a written value reads back, whatever follows it
(lemma rest-P ((s Bytes) (rest Bytes))
  (requires (okP s)) (requires (= (lenP s) (len s)))
  (ensures (okP (cat s rest))) (ensures (= (valP (cat s rest)) (valP s))) (ensures (= (lenP (cat s rest)) (len s)))
  (hint (assert (= (take (drop (cat s rest) 1) (- (len s) 1)) (drop s 1))) (assert (= (at (cat s rest) 0) (at s 0)))
    (use pre-D (at s 0) (drop (cat s rest) 1) (- (len s) 1))))
(macro written (w) (drop (out w) (len (old (out w)))))
(func format/metadata.WriteProprty (params w p) (results n err) (writer w)
  (requires (wfP p))
  (hint-entry (unfold wfP p))
  (ensures ok (=> (!= err nil) (failed w)))
  (ensures value (=> (= err nil) (and (okP (written w)) (= (lenP (written w)) (len (written w))) (= (valP (written w)) p))))
  (ensures count (=> (= err nil) (= n (len (written w))))))
; what the public constructors build
(foreach (F BASE ELEM) ((NewStringArrayProperty 0 (box format/metadata.StringProperty (mk format/metadata.StringProperty (at es i))))
    (NewIntArrayProperty 1 (box format/metadata.Int32Property (mk format/metadata.Int32Property (- (mod (+ (at es i) 2147483648) 4294967296) 2147483648))))
    (NewFloat32ArrayProperty 2 (box format/metadata.Float32Property (mk format/metadata.Float32Property (at es i))))
    (NewVector2ArrayProperty 6 (box format/metadata.Vector2Property (mk format/metadata.Vector2Property (. (at es i) x) (. (at es i) y))))
    (NewVector3ArrayProperty 7 (box format/metadata.Vector3Property (mk format/metadata.Vector3Property (. (at es i) x) (. (at es i) y) (. (at es i) z))))
    (NewTimestampArrayProperty 12 (box format/metadata.TimeProperty (mk format/metadata.TimeProperty (sym time.micro Int (at es i)))))
    (NewMetadataArrayProperty 11 (box format/metadata.MetadataProperty (mk format/metadata.MetadataProperty (at es i)))))
 (func format/metadata.{F} (params es) (results a)
  (ensures kind (= (. a originalBaseCode) {BASE}))
  (ensures count (= (len (. a props)) (len es)))
  (ensures each (forall ((i Int)) (:pat (at (. a props) i)) (=> (<= 0 i) (< i (len es)) (= (at (. a props) i) {ELEM}))))
  (loop 0 (vars (ps []format/metadata.Property))
    (inv size (= (len ps) (len es)))
    (inv each (forall ((i Int)) (:pat (at ps i)) (=> (<= 0 i) (< i $k) (= (at ps i) {ELEM})))))))
(func format/metadata.NewBinaryArrayProperty (params es) (results a)
  (hint-entry (use rt-S es (empty Bytes)))
  (ensures value (= a (mk format/metadata.ArrayPropertyRaw 5 (encS es) 1)))
  (ensures well-formed (wfP (box format/metadata.ArrayPropertyRaw a))))
(func format/metadata.NewBoolArrayProperty (params es) (results a)
  (ensures kind (and (= (. a originalBaseCode) 3) (= (. a division) 1)))
  (ensures size (and (okS (. a data)) (= (. a data) (encS (valS (. a data)))) (= (len (valS (. a data))) (len es))))
  (ensures each (forall ((i Int)) (:pat (at (valS (. a data)) i)) (=> (<= 0 i) (< i (len es)) (= (at (valS (. a data)) i) (ite (at es i) 1 0)))))
  (hint (use rt-S (valS (. a data)) (empty Bytes)))
  (loop 0 (vars (data []byte))
    (hint (use rt-S data (empty Bytes)))
    (hint-entry (use rt-S data (empty Bytes)))
    (inv size (= (len data) (len es)))
    (inv back (and (okS (encS data)) (= (valS (encS data)) data)))
    (inv each (forall ((i Int)) (:pat (at data i)) (=> (<= 0 i) (< i $k) (= (at data i) (ite (at es i) 1 0)))))))
(property C02 (lemmas rest-P app-Ps pre-Ps len-D)
  (roots format/metadata.Property.Data format/metadata.ReadProperty format/metadata.WriteProprty format/metadata.NewStringArrayProperty format/metadata.NewIntArrayProperty format/metadata.NewFloat32ArrayProperty
    format/metadata.NewVector2ArrayProperty format/metadata.NewVector3ArrayProperty format/metadata.NewTimestampArrayProperty format/metadata.NewMetadataArrayProperty
    format/metadata.NewBinaryArrayProperty format/metadata.NewBoolArrayProperty))
