; ---- the encoders of positions, rotations and numbers ----
(foreach (P V LENS) ((position 3 ()) (euler 3 ()))
 ; the captures of c as the encoder takes them
 (rec caps-{P} ((c If) (k Int)) (Seq format/collection/{P}.Capture)
   (ite (<= k 0) (empty (Seq format/collection/{P}.Capture)) (cat (caps-{P} c (- k 1)) (unit (unbox format/collection/{P}.Capture (capAt c (- k 1)))))))
 (def typed-{P} ((c If)) Bool
   (and (!= c nil) (<= 0 (lenC c))
     (forall ((i Int)) (:pat (capAt c i)) (=> (<= 0 i) (< i (lenC c)) (is format/collection/{P}.Capture (capAt c i))))))
 (func format/encoding/{P}.Encoder.encode (params p stream) (results b err)
   (requires (typed-{P} stream))
   (ensures ok (= err nil))
   (ensures bytes (= b (encColl-{P} (. p technique) (caps-{P} stream (lenC stream)))))
   (loop 0 (vars (castedCaptureData (Seq format/collection/{P}.Capture)))
     (inv size (= (len castedCaptureData) (lenC stream)))
     (inv each (= (take castedCaptureData $k) (caps-{P} stream $k)))))
 (func format/encoding/{P}.Encoder.Encode (params p streams) (results header data err)
   (requires (forall ((i Int)) (:pat (at streams i)) (=> (<= 0 i) (< i (len streams)) (typed-{P} (at streams i)))))
   (ensures ok (= err nil))
   (ensures header (= header (empty Bytes)))
   (ensures count (= (len data) (len streams)))
   (ensures each (forall ((i Int)) (:pat (at streams i)) (:pat (at data i)) (=> (<= 0 i) (< i (len streams)) (= (at data i) (encColl-{P} (. p technique) (caps-{P} (at streams i) (lenC (at streams i))))))))
   (via (forall ((i Int)) (:pat (at data i)) (:pat (at cs i)) (use encd-{P} p (at data i) (at cs i))))
   (via-opaque encColl-{P} okColl-{P} valColl-{P} storedColl-{P})
   (loop 0 (vars (allStreamData [][]byte))
     (inv count (= (len allStreamData) (len streams)))
     (inv each (forall ((i Int)) (:pat (at streams i)) (:pat (at allStreamData i)) (=> (<= 0 i) (< i $k) (= (at allStreamData i) (encColl-{P} (. p technique) (caps-{P} (at streams i) (lenC (at streams i))))))))))
 (func format/encoding/{P}.decode (params name data times) (results c err)
   (ensures empty (=> (= (len data) 0) (!= err nil)))
   (ensures value (=> (okColl-{P} data (len times)) (and (= err nil) (= c (box format/collection/{P}.Collection (mk format/collection/{P}.Collection name (valColl-{P} data times))))))))
 (func format/encoding/{P}.Encoder.Decode (params p name header data times) (results c err)
   (ensures empty (=> (= (len data) 0) (!= err nil)))
   (ensures value (=> (okColl-{P} data (len times)) (and (= err nil) (= c (box format/collection/{P}.Collection (mk format/collection/{P}.Collection name (valColl-{P} data times))))))))
)
(def encColl-position ((t Int) (cs (Seq format/collection/position.Capture))) Bytes
  (cat (unit (mod t 256)) (cond ((= t 0) (encposition64 cs)) ((= t 1) (encposition32 cs)) ((= t 2) (encO48 cs)) ((= t 3) (encO24 cs)) (else (empty Bytes)))))
(def okColl-position ((s Bytes) (n Int)) Bool
  (and (<= 1 (len s)) (<= (at s 0) 3)
    (<= (cond ((= (at s 0) 0) (* 24 n)) ((= (at s 0) 1) (* 12 n)) ((= (at s 0) 2) (lenO48 n)) (else (lenO24 n))) (- (len s) 1))))
(def valColl-position ((s Bytes) (ts (Seq F64))) (Seq format/collection/position.Capture)
  (cond ((= (at s 0) 0) (valposition64 (drop s 1) ts)) ((= (at s 0) 1) (valposition32 (drop s 1) ts)) ((= (at s 0) 2) (valO48 (drop s 1) ts)) (else (valO24 (drop s 1) ts))))
(def storedColl-position ((t Int) (cs (Seq format/collection/position.Capture)) (ts (Seq F64))) (Seq format/collection/position.Capture)
  (cond ((= t 0) (keptposition64 cs ts)) ((= t 1) (keptposition32 cs ts)) ((= t 2) (storedO48 cs ts)) (else (storedO24 cs ts))))
(def encColl-euler ((t Int) (cs (Seq format/collection/euler.Capture))) Bytes
  (cat (unit (mod t 256)) (cond ((= t 0) (enceuler64 cs)) ((= t 1) (enceuler32 cs)) ((= t 2) (enceuler16 cs)) (else (empty Bytes)))))
(def okColl-euler ((s Bytes) (n Int)) Bool
  (and (<= 1 (len s)) (<= (at s 0) 2)
    (<= (cond ((= (at s 0) 0) (* 30 n)) ((= (at s 0) 1) (* 12 n)) (else (leneuler16 n))) (- (len s) 1))))
(def valColl-euler ((s Bytes) (ts (Seq F64))) (Seq format/collection/euler.Capture)
  (cond ((= (at s 0) 0) (valeuler64 (drop s 1) ts)) ((= (at s 0) 1) (valeuler32 (drop s 1) ts)) (else (valeuler16 (drop s 1) ts))))
(def storedColl-euler ((t Int) (cs (Seq format/collection/euler.Capture)) (ts (Seq F64))) (Seq format/collection/euler.Capture)
  (cond ((= t 0) (kepteuler64 cs ts)) ((= t 1) (kepteuler32 cs ts)) (else (stored-euler16 cs ts))))
(lemma rt-Coll-position ((t Int) (cs (Seq format/collection/position.Capture)) (ts (Seq F64)))
  (requires (<= 0 t 3)) (requires (= (len ts) (len cs)))
  (ensures (okColl-position (encColl-position t cs) (len cs)))
  (ensures (= (valColl-position (encColl-position t cs) ts) (storedColl-position t cs ts)))
  (hint (use rt-position64 cs ts (empty Bytes)) (use rt-position32 cs ts (empty Bytes)) (use rt-O48 cs ts (empty Bytes)) (use rt-O24 cs ts (empty Bytes))
    (unfold encColl-position t cs)
    (assert (= (at (encColl-position t cs) 0) t))))
(lemma rt-Coll-euler ((t Int) (cs (Seq format/collection/euler.Capture)) (ts (Seq F64)))
  (requires (<= 0 t 2)) (requires (= (len ts) (len cs)))
  (ensures (okColl-euler (encColl-euler t cs) (len cs)))
  (ensures (= (valColl-euler (encColl-euler t cs) ts) (storedColl-euler t cs ts)))
  (hint (use rt-euler64 cs ts (empty Bytes)) (use rt-euler32 cs ts (empty Bytes)) (use rt-euler16 cs ts (empty Bytes))
    (unfold encColl-euler t cs)
    (assert (= (at (encColl-euler t cs) 0) t))))
; numbers
(def encColl-float ((t Int) (cs (Seq If))) Bytes
  (cat (unit (mod t 256)) (cond ((= t 0) (encfloat64 cs)) ((= t 1) (encfloat32 cs)) ((= t 2) (encfloat16 cs)) (else (empty Bytes)))))
(macro lenCollF (t n) (cond ((= t 0) (* 8 n)) ((= t 1) (* 4 n)) (else (lenfloat16 n))))
(def valColl-float ((s Bytes) (ts (Seq F64))) (Seq format/collection/float.Capture)
  (cond ((= (at s 0) 0) (valfloat64 (drop s 1) ts)) ((= (at s 0) 1) (valfloat32 (drop s 1) ts)) (else (valfloat16 (drop s 1) ts))))
(def storedColl-float ((t Int) (cs (Seq If)) (ts (Seq F64))) (Seq format/collection/float.Capture)
  (cond ((= t 0) (keptfloat64 cs ts)) ((= t 1) (keptfloat32 cs ts)) (else (keptfloat16 cs ts))))
(rec capsIf ((c If) (k Int)) (Seq If)
   (ite (<= k 0) (empty (Seq If)) (cat (capsIf c (- k 1)) (unit (capAt c (- k 1))))))
(def typed-float ((c If)) Bool
   (and (!= c nil) (<= 0 (lenC c))
     (forall ((i Int)) (:pat (capAt c i)) (=> (<= 0 i) (< i (lenC c)) (is format/collection/float.Capture (capAt c i))))))
(lemma capsIf-at ((c If) (k Int) (i Int))
  (requires (<= 0 i)) (requires (< i k))
  (ensures (= (len (capsIf c k)) k)) (ensures (= (at (capsIf c k) i) (capAt c i)))
  (measure k) (hint (use capsIf-at c (- k 1) i) (use capsIf-at c (- k 1) (- k 2))))
(lemma rt-Coll-float ((t Int) (cs (Seq If)) (ts (Seq F64)))
  (requires (<= 0 t 2)) (requires (= (len ts) (len cs)))
  (ensures (= (at (encColl-float t cs) 0) t))
  (ensures (= (len (encColl-float t cs)) (+ 1 (lenCollF t (len cs)))))
  (ensures (= (valColl-float (encColl-float t cs) ts) (storedColl-float t cs ts)))
  (hint (use rt-float64 cs ts (empty Bytes)) (use rt-float32 cs ts (empty Bytes)) (use rt-float16 cs ts (empty Bytes))
    (unfold encColl-float t cs)
    (assert (= (at (encColl-float t cs) 0) t))))
(func format/encoding/float.Encoder.Encode (params p streams) (results header data err)
   (requires (forall ((i Int)) (:pat (at streams i)) (=> (<= 0 i) (< i (len streams)) (and (!= (at streams i) nil) (<= 0 (lenC (at streams i)))))))
   (ensures ok (=> (forall ((i Int)) (:pat (at streams i)) (=> (<= 0 i) (< i (len streams)) (typed-float (at streams i)))) (= err nil)))
   (ensures header (=> (= err nil) (= header (empty Bytes))))
   (ensures count (=> (= err nil) (= (len data) (len streams))))
   (ensures each (=> (= err nil) (forall ((i Int)) (:pat (at streams i)) (:pat (at data i)) (=> (<= 0 i) (< i (len streams)) (= (at data i) (encColl-float (. p technique) (@format.CaptureCollection.Captures (at streams i))))))))
   (via (forall ((i Int)) (:pat (at data i)) (:pat (at cs i)) (use encd-float p h (at data i) (at cs i))))
   (via-opaque encColl-float)
   (loop 0 (vars (streamDataBuffers []bytes.Buffer))
     (inv count (= (len streamDataBuffers) (len streams)))
     (inv todo (forall ((i Int)) (:pat (at streamDataBuffers i)) (=> (<= $k i) (< i (len streams)) (= (at streamDataBuffers i) (empty Bytes)))))
     (inv each (forall ((i Int)) (:pat (at streams i)) (:pat (at streamDataBuffers i)) (=> (<= 0 i) (< i $k) (= (at streamDataBuffers i) (encColl-float (. p technique) (@format.CaptureCollection.Captures (at streams i))))))))
   (loop 1 (vars (streamData [][]byte) (streamDataBuffers []bytes.Buffer))
     (inv count (= (len streamData) (len streamDataBuffers)))
     (inv each (forall ((i Int)) (:pat (at streamData i)) (=> (<= 0 i) (< i $k) (= (at streamData i) (at streamDataBuffers i)))))))
(func format/encoding/float.Encoder.Decode (params p name header data times) (results c err)
   (ensures empty (=> (= (len data) 0) (!= err nil)))
   (ensures ok (=> (<= 1 (len data)) (<= (at data 0) 2) (iff (= err nil) (<= (+ 1 (lenCollF (at data 0) (len times))) (len data)))))
   (ensures value (=> (<= 1 (len data)) (<= (at data 0) 2) (= err nil)
      (= c (box format/collection/float.Collection (mk format/collection/float.Collection name (valColl-float data times)))))))
(property C05 (roots format/encoding/position.Encoder.Encode format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Encode format/encoding/euler.Encoder.Decode
   format/encoding/float.Encoder.Encode format/encoding/float.Encoder.Decode
   format/encoding/position.encodeRaw64 format/encoding/position.encodeRaw32 format/encoding/position.decodeRaw64 format/encoding/position.decodeRaw32 format/encoding/euler.encodeRaw64 format/encoding/euler.encodeRaw32 format/encoding/euler.decodeRaw64 format/encoding/euler.decodeRaw32
   format/encoding/float.encode64 format/encoding/float.encode32 format/encoding/float.decodeRaw64 format/encoding/float.decodeRaw32)
  (lemmas rt-Coll-position rt-Coll-euler rt-Coll-float capsIf-at rt-position64 rt-position32 rt-euler64 rt-euler32 rt-float64 rt-float32)
  (by C06 format/encoding/euler.encodeRaw16 format/encoding/euler.decodeRaw16 format/encoding/float.encodeBST16 format/encoding/float.decodeBST16
   format/encoding/position.encodeOct24 format/encoding/position.encodeOct48 format/encoding/position.decodeOct24 format/encoding/position.decodeOct48
   rt-O24 rt-O48 rt-euler16 rt-float16))
(property C06 (roots format/encoding/position.Encoder.Encode format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Encode format/encoding/euler.Encoder.Decode
   format/encoding/float.Encoder.Encode format/encoding/float.Encoder.Decode
   format/encoding/euler.encodeRaw16 format/encoding/euler.decodeRaw16 format/encoding/float.encodeBST16 format/encoding/float.decodeBST16
   format/encoding/position.encodeOct24 format/encoding/position.encodeOct48 format/encoding/position.decodeOct24 format/encoding/position.decodeOct48)
  (lemmas rt-Coll-position rt-Coll-euler rt-Coll-float rt-O24 rt-O48 rt-euler16 rt-float16 kept24x-near kept24y-near kept24z-near kept48x-near kept48y-near kept48z-near
    mxOx-bounds mxOy-bounds mxOz-bounds mnOx-bounds mnOy-bounds mnOz-bounds keepE-near keptN-near maxN-bounds)
  (by C05 format/encoding/position.encodeRaw64 format/encoding/position.encodeRaw32 format/encoding/position.decodeRaw64 format/encoding/position.decodeRaw32 format/encoding/euler.encodeRaw64 format/encoding/euler.encodeRaw32 format/encoding/euler.decodeRaw64 format/encoding/euler.decodeRaw32
   format/encoding/float.encode64 format/encoding/float.encode32 format/encoding/float.decodeRaw64 format/encoding/float.decodeRaw32
   rt-position64 rt-position32 rt-euler64 rt-euler32 rt-float64 rt-float32))
