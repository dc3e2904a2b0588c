; ---- reading through an ErrReader: all that is asked for or an error, and the error stays ----
(func internal/io/binary.ErrReader.Read (params e p) (results k err) (modifies e p)
  (ensures sticky (=> (!= (old (. e err)) nil) (and (= err (old (. e err))) (= (. e err) (old (. e err))) (= (. e n) (old (. e n))) (= k 0) (= (rem e) (old (rem e))))))
  (ensures full (=> (= (old (. e err)) nil) (<= (len p) (len (old (rem e))))
    (and (= err nil) (= (. e err) nil) (= k (len p)) (= p (take (old (rem e)) (len p))) (= (rem e) (drop (old (rem e)) (len p))) (= (. e n) (+ (old (. e n)) (len p))))))
  (ensures short (=> (= (old (. e err)) nil) (< (len (old (rem e))) (len p))
    (and (!= err nil) (= (. e err) err) (= (rem e) (empty Bytes)) (= k (len (old (rem e)))) (= (. e n) (+ (old (. e n)) k))))))
(func internal/io/binary.ErrReader.ReadByte (params e) (results b err) (modifies e)
  (ensures sticky (=> (!= (old (. e err)) nil) (and (= err (old (. e err))) (= (. e err) (old (. e err))) (= (. e n) (old (. e n))) (= (rem e) (old (rem e))))))
  (ensures full (=> (= (old (. e err)) nil) (<= 1 (len (old (rem e))))
    (and (= err nil) (= (. e err) nil) (= b (at (old (rem e)) 0)) (= (rem e) (drop (old (rem e)) 1)) (= (. e n) (+ (old (. e n)) 1)))))
  (ensures short (=> (= (old (. e err)) nil) (< (len (old (rem e))) 1)
    (and (!= err nil) (= (. e err) err) (= (rem e) (empty Bytes)) (= (. e n) (old (. e n)))))))
; ---- variable-length integers ----
; enc/ok/val/len of the 7-bit groups format, limited to 64 bits
(rec encU ((v Int)) Bytes (ite (< v 128) (unit (ite (<= 0 v) v 0)) (cat (unit (+ 128 (mod v 128))) (encU (div v 128)))))
(rec okUd ((s Bytes) (d Int)) Bool
  (and (<= 1 (len s))
       (ite (< (at s 0) 128) (=> (= d 9) (<= (at s 0) 1)) (and (< d 9) (okUd (drop s 1) (+ d 1))))) (fuel 11))
(rec valU ((s Bytes)) Int (cond ((= (len s) 0) 0) ((< (at s 0) 128) (at s 0)) (else (+ (- (at s 0) 128) (* 128 (valU (drop s 1)))))) (fuel 11))
(rec lenU ((s Bytes)) Int (cond ((= (len s) 0) 0) ((< (at s 0) 128) 1) (else (+ 1 (lenU (drop s 1))))) (fuel 11))
(macro okU (s) (okUd s 0))
; largest value (exclusive) that fits after d groups
(macro limU (d) (cond ((= d 0) 18446744073709551616) ((= d 1) 144115188075855872) ((= d 2) 1125899906842624) ((= d 3) 8796093022208)
  ((= d 4) 68719476736) ((= d 5) 536870912) ((= d 6) 4194304) ((= d 7) 32768) ((= d 8) 256) (else 2)))

(func internal/io/binary.ReadUvarint (params r) (results v n err) (reader r)
  (ensures ok (iff (= err nil) (okU (old (rem r)))))
  (ensures value (=> (= err nil) (= v (valU (old (rem r))))))
  (ensures length (=> (= err nil) (= n (lenU (old (rem r))))))
  (ensures rest (=> (= err nil) (= (rem r) (drop (old (rem r)) (lenU (old (rem r)))))))
  (ensures consumed (= n (- (len (old (rem r))) (len (rem r))))))

; the function of the standard library
(func encoding/binary.ReadUvarint (params r) (results v err) (reader r)
  (ensures ok (iff (= err nil) (okU (old (rem r)))))
  (ensures value (=> (= err nil) (= v (valU (old (rem r))))))
  (ensures rest (=> (= err nil) (= (rem r) (drop (old (rem r)) (lenU (old (rem r))))))))

; what is written reads back, whatever follows
(lemma rt-U ((v Int) (rest Bytes) (d Int))
  (requires (<= 0 v)) (requires (<= 0 d 9)) (requires (< v (limU d)))
  (ensures (okUd (cat (encU v) rest) d))
  (ensures (= (valU (cat (encU v) rest)) v))
  (ensures (= (lenU (cat (encU v) rest)) (len (encU v))))
  (ensures (<= 1 (len (encU v)) (- 10 d)))
  (measure v)
  (hint (assert (=> (<= 128 v) (< d 9)))
    (assert (=> (<= 128 v) (< (div v 128) (limU (+ d 1)))))
    (use rt-U (div v 128) rest (+ d 1)) (unfold encU v)
    (assert (=> (<= 128 v) (= (drop (cat (encU v) rest) 1) (cat (encU (div v 128)) rest))))
    (assert (=> (<= 128 v) (= (at (cat (encU v) rest) 0) (+ 128 (mod v 128)))))))
; the number of bytes read is between 1 and what is there
(lemma len-U ((s Bytes) (d Int))
  (requires (<= 0 d 9)) (requires (okUd s d))
  (ensures (<= 1 (lenU s) (- 10 d))) (ensures (<= (lenU s) (len s)))
  (ensures (<= 0 (valU s))) (ensures (< (valU s) (limU d)))
  (measure (- 10 d))
  (hint (use len-U (drop s 1) (+ d 1))))
; reading a prefix gives what reading the whole gives
(lemma pre-U ((s Bytes) (k Int) (d Int))
  (requires (<= 0 d 9)) (requires (<= 0 k (len s))) (requires (okUd (take s k) d))
  (ensures (okUd s d)) (ensures (= (valU (take s k)) (valU s))) (ensures (= (lenU (take s k)) (lenU s)))
  (measure (- 10 d))
  (hint (use pre-U (drop s 1) (- k 1) (+ d 1)) (assert (= (drop (take s k) 1) (take (drop s 1) (- k 1))))))
(lemma len-encU ((v Int))
  (requires (<= 0 v)) (requires (< v 18446744073709551616))
  (ensures (<= 1 (len (encU v)) 10))
  (auto (encU v))
  (hint (use rt-U v (empty Bytes) 0)))

; ---- exactly n bytes ----
(func internal/io/binary.ReadN (params r n) (results b err) (reader r)
  (ensures ok (iff (= err nil) (<= n (len (old (rem r))))))
  (ensures value (=> (= err nil) (= b (take (old (rem r)) n))))
  (ensures got (=> (!= err nil) (or (= (len b) 0) (= b (old (rem r))))))
  (ensures rest (=> (= err nil) (= (rem r) (drop (old (rem r)) n))))
  (ensures consumed (= (len b) (- (len (old (rem r))) (len (rem r))))))

; ---- strings and byte arrays: a length and that many bytes ----
(macro encS (s) (cat (encU (len s)) s))
(def okS ((s Bytes)) Bool (and (okU s) (<= (+ (lenU s) (valU s)) (len s))))
(def valS ((s Bytes)) Bytes (take (drop s (lenU s)) (valU s)))
(def lenS ((s Bytes)) Int (+ (lenU s) (valU s)))
(foreach (F) ((ReadString) (ReadBytesArray))
 (func internal/io/binary.{F} (params r) (results v n err) (reader r)
  (hint-entry (use len-U (rem r) 0))
  (ensures ok (iff (= err nil) (okS (old (rem r)))))
  (ensures value (=> (= err nil) (= v (valS (old (rem r))))))
  (ensures length (=> (= err nil) (= n (lenS (old (rem r))))))
  (ensures rest (=> (= err nil) (= (rem r) (drop (old (rem r)) (lenS (old (rem r)))))))
  (ensures consumed (= n (- (len (old (rem r))) (len (rem r)))))))
(func internal/io/binary.StringToBytes (params str) (results b)
  (ensures bytes (= b (encS str))))
(func internal/io/binary.BytesArrayToBytes (params str) (results b)
  (ensures bytes (= b (encS str))))
(lemma rt-S ((s Bytes) (rest Bytes))
  (ensures (okS (cat (encS s) rest)))
  (ensures (= (valS (cat (encS s) rest)) s))
  (ensures (= (lenS (cat (encS s) rest)) (len (encS s))))
  (hint (use rt-U (len s) (cat s rest) 0)))
(lemma pre-S ((s Bytes) (k Int))
  (requires (<= 0 k (len s))) (requires (okS (take s k)))
  (ensures (okS s)) (ensures (= (valS (take s k)) (valS s))) (ensures (= (lenS (take s k)) (lenS s))) (ensures (<= (lenS s) k))
  (hint (use pre-U s k 0) (use len-U s 0) (use len-U (take s k) 0)))

; ---- arrays of strings and of unsigned integers: a count and that many items ----
; items read one after the other from the front of s
(foreach (O X ES OK VAL LEN DEC ENC ELEM)
 ((okSs S encS okS valS lenS ReadStringArray StringArrayToBytes Bytes)
  (okUs U encU okU valU lenU ReadUvarIntArray UvarintArrayToBytes uint))
 (rec ok{X}s ((s Bytes) (n Int)) Bool (or (<= n 0) (and ({OK} s) (ok{X}s (drop s ({LEN} s)) (- n 1)))))
 (rec val{X}s ((s Bytes) (n Int)) (Seq {ELEM}) (ite (<= n 0) (empty (Seq {ELEM})) (cat (unit ({VAL} s) (Seq {ELEM})) (val{X}s (drop s ({LEN} s)) (- n 1)))))
 (rec len{X}s ((s Bytes) (n Int)) Int (ite (<= n 0) 0 (+ ({LEN} s) (len{X}s (drop s ({LEN} s)) (- n 1)))))
 (rec enc{X}s ((v (Seq {ELEM}))) Bytes (ite (= (len v) 0) (empty Bytes) (cat ({ES} (at v 0)) (enc{X}s (drop v 1)))))
 (def ok{X}A ((s Bytes)) Bool (and (okU s) (ok{X}s (drop s (lenU s)) (valU s))))
 (def val{X}A ((s Bytes)) (Seq {ELEM}) (val{X}s (drop s (lenU s)) (valU s)))
 (def len{X}A ((s Bytes)) Int (+ (lenU s) (len{X}s (drop s (lenU s)) (valU s))))
 (macro enc{X}A (v) (cat (encU (len v)) (enc{X}s v)))
 (func internal/io/binary.{DEC} (params r) (results v n err) (reader r)
  (ensures ok (iff (= err nil) (ok{X}A (old (rem r)))))
  (ensures value (=> (= err nil) (= v (val{X}A (old (rem r))))))
  (ensures length (=> (= err nil) (= n (len{X}A (old (rem r))))))
  (ensures rest (=> (= err nil) (= (rem r) (drop (old (rem r)) (len{X}A (old (rem r)))))))
  (ensures consumed (= n (- (len (old (rem r))) (len (rem r)))))
  (hint-entry (use len-U (rem r) 0))
  (loop 0 (vars (i uint64) (length uint64) (bytesRead int) (out (Seq {ELEM})))
    (hint-body (use len-U (rem r) 0))
    (inv count (<= 0 i length))
    (inv full (not (short r)))
    (inv head (and (okU (old (rem r))) (= length (valU (old (rem r))))))
    (inv ok (iff (ok{X}s (drop (old (rem r)) (lenU (old (rem r)))) length) (ok{X}s (rem r) (- length i))))
    (inv value (= (cat out (val{X}s (rem r) (- length i))) (val{X}s (drop (old (rem r)) (lenU (old (rem r)))) length)))
    (inv bytes (= bytesRead (- (len (old (rem r))) (len (rem r)))))
    (inv rest (= (rem r) (drop (old (rem r)) bytesRead)))
    (inv length (= (+ bytesRead (len{X}s (rem r) (- length i))) (len{X}A (old (rem r)))))))
 (func internal/io/binary.{ENC} (params strs) (results b)
  (ensures bytes (= b (enc{X}A strs)))
  (loop 0 (vars (buf bytes.Buffer))
    (inv bytes (= (cat (out buf) (enc{X}s (drop strs $k))) (enc{X}A strs)))))
)
(foreach (X ELEM) ((S Bytes) (U uint))
 (lemma len-val{X}s ((s Bytes) (n Int))
  (ensures (= (len (val{X}s s n)) (ite (<= 0 n) n 0)))
  (measure (ite (<= 0 n) n 0)) (auto (val{X}s s n))
  (hint (use len-val{X}s (drop s (len{X} s)) (- n 1)))))
(macro u64 (v) (and (<= 0 v) (< v 18446744073709551616)))
(lemma rt-Ss ((v (Seq Bytes)) (rest Bytes))
  (ensures (okSs (cat (encSs v) rest) (len v)))
  (ensures (= (valSs (cat (encSs v) rest) (len v)) v))
  (ensures (= (lenSs (cat (encSs v) rest) (len v)) (len (encSs v))))
  (measure (len v))
  (hint (use rt-Ss (drop v 1) rest) (use rt-S (at v 0) (cat (encSs (drop v 1)) rest)) (unfold encSs v)
    (assert (=> (< 0 (len v)) (= (drop (cat (encSs v) rest) (lenS (cat (encSs v) rest))) (cat (encSs (drop v 1)) rest))))))
(lemma rt-Us ((v (Seq uint)) (rest Bytes))
  (ensures (okUs (cat (encUs v) rest) (len v)))
  (ensures (= (valUs (cat (encUs v) rest) (len v)) v))
  (ensures (= (lenUs (cat (encUs v) rest) (len v)) (len (encUs v))))
  (measure (len v))
  (hint (assert (=> (< 0 (len v)) (seqeq v (cat (unit (at v 0) (Seq uint)) (drop v 1))))) (use rt-Us (drop v 1) rest) (use rt-U (at v 0) (cat (encUs (drop v 1)) rest) 0) (unfold encUs v)
    (assert (=> (< 0 (len v)) (= (drop (cat (encUs v) rest) (lenU (cat (encUs v) rest))) (cat (encUs (drop v 1)) rest))))))
(foreach (X PRE ELEM) ((S (use pre-S s k) Bytes) (U (use pre-U s k 0) uint))
 (lemma pre-{X}s ((s Bytes) (k Int) (n Int))
  (requires (<= 0 k (len s))) (requires (ok{X}s (take s k) n))
  (ensures (ok{X}s s n)) (ensures (= (val{X}s (take s k) n) (val{X}s s n))) (ensures (= (len{X}s (take s k) n) (len{X}s s n)))
  (ensures (<= 0 (len{X}s s n) k))
  (measure (ite (<= 0 n) n 0))
  (hint {PRE} (use len-U s 0) (use len-U (take s k) 0)
    (use pre-{X}s (drop s (len{X} s)) (- k (len{X} s)) (- n 1))
    (assert (=> (< 0 n) (= (drop (take s k) (len{X} s)) (take (drop s (len{X} s)) (- k (len{X} s))))))))
 (lemma rt-{X}A ((v (Seq {ELEM})) (rest Bytes))
  (ensures (ok{X}A (cat (enc{X}A v) rest)))
  (ensures (= (val{X}A (cat (enc{X}A v) rest)) v))
  (ensures (= (len{X}A (cat (enc{X}A v) rest)) (len (enc{X}A v))))
  (hint (use rt-U (len v) (cat (enc{X}s v) rest) 0) (use rt-{X}s v rest)))
 (lemma pre-{X}A ((s Bytes) (k Int))
  (requires (<= 0 k (len s))) (requires (ok{X}A (take s k)))
  (ensures (ok{X}A s)) (ensures (= (val{X}A (take s k)) (val{X}A s))) (ensures (= (len{X}A (take s k)) (len{X}A s)))
  (ensures (<= 1 (len{X}A s) k))
  (hint (use pre-U s k 0) (use len-U s 0) (use len-U (take s k) 0) (use pre-{X}s (drop s (lenU s)) (- k (lenU s)) (valU s))
    (assert (= (drop (take s k) (lenU (take s k))) (take (drop s (lenU s)) (- k (lenU s)))))))
 (lemma len-{X}A ((s Bytes))
  (requires (ok{X}A s))
  (ensures (<= 1 (len{X}A s) (len s))) (ensures (= (len (val{X}A s)) (valU s))) (ensures (<= 0 (valU s)))
  (hint (use pre-{X}A s (len s)) (use len-U s 0)))
)
(lemma len-S ((s Bytes))
  (requires (okS s)) (ensures (<= 1 (lenS s) (len s))) (hint (use len-U s 0)))
