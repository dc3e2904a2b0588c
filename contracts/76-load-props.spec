; ---- C15: unknown versions, unknown and outdated decoders ----
(rec member ((R (Seq If)) (k Int) (e If)) Bool (and (< 0 k) (or (= (at R (- k 1)) e) (member R (- k 1) e))))
(lemma pick-is ((R (Seq If)) (k Int) (sig Bytes) (v Int)) (requires (<= 0 k (len R))) (requires (!= (pick R k sig) nil)) (requires (recent R k sig v))
  (ensures (= (sigOf (pick R k sig)) sig)) (ensures (<= v (verOf (pick R k sig)))) (ensures (member R k (pick R k sig)))
  (measure k) (hint (use pick-is R (- k 1) sig v)))
(lemma pick-none ((R (Seq If)) (k Int) (sig Bytes)) (requires (<= 0 k (len R)))
  (requires (forall ((i Int)) (:pat (at R i)) (=> (<= 0 i) (< i k) (!= (sigOf (at R i)) sig))))
  (ensures (= (pick R k sig) nil)) (measure k) (hint (use pick-none R (- k 1) sig)))
; every encoder a loaded file names is matched to a registered one with that signature, recent enough
(lemma matched ((R (Seq If)) (s Bytes) (i Int)) (requires (okV2 R s)) (requires (<= 0 i)) (requires (< i (len (valSA s))))
  (opaque okSA valSA lenSA okUs valUs lenUs okBody)
  (ensures (= (len (valEncs R s)) (len (valSA s))))
  (ensures (= (sigOf (at (valEncs R s) i)) (at (valSA s) i)))
  (ensures (<= (at (valUs (drop s (lenSA s)) (len (valSA s))) i) (verOf (at (valEncs R s) i))))
  (ensures (member R (len R) (at (valEncs R s) i)))
  (hint (use picks-ok R (valSA s) (valUs (drop s (lenSA s)) (len (valSA s))) (len (valSA s)))
    (use pick-is R (len R) (at (valSA s) i) (at (valUs (drop s (lenSA s)) (len (valSA s))) i))))
; a file naming a signature nobody registered, or a version newer than a registered one's, is refused
(lemma refused ((R (Seq If)) (s Bytes) (i Int) (j Int)) (requires (okEncs R s)) (requires (<= 0 i)) (requires (< i (len (valSA s))))
  (opaque okSA valSA lenSA okUs valUs lenUs)
  (ensures (exists ((j Int)) (and (<= 0 j) (< j (len R)) (= (sigOf (at R j)) (at (valSA s) i)))))
  (ensures (=> (<= 0 j) (< j (len R)) (= (sigOf (at R j)) (at (valSA s) i)) (<= (at (valUs (drop s (lenSA s)) (len (valSA s))) i) (verOf (at R j)))))
  (hint (use okPicks-down R (valSA s) (valUs (drop s (lenSA s)) (len (valSA s))) (len (valSA s)) (+ i 1))
    (unfold okPicks R (valSA s) (valUs (drop s (lenSA s)) (len (valSA s))) (+ i 1))
    (use pick-none R (len R) (at (valSA s) i))
    (use recent-down R (len R) (+ j 1) (at (valSA s) i) (at (valUs (drop s (lenSA s)) (len (valSA s))) i))
    (unfold recent R (+ j 1) (at (valSA s) i) (at (valUs (drop s (lenSA s)) (len (valSA s))) i))))
(lemma versions ((R (Seq If)) (s Bytes)) (requires (okFile R s)) (ensures (or (= (at s 0) 1) (= (at s 0) 2))))
(macro stdEncs () (cat (unit (box format/encoding/event.Encoder (mk format/encoding/event.Encoder)) (Seq If))
   (cat (unit (box format/encoding/position.Encoder (mk format/encoding/position.Encoder 2)) (Seq If))
   (cat (unit (box format/encoding/euler.Encoder (mk format/encoding/euler.Encoder 1)) (Seq If))
     (unit (box format/encoding/enum.Encoder (mk format/encoding/enum.Encoder)) (Seq If))))))
(func format/io.Load (params in) (results rec n err) (reader in)
  (requires (!= in nil))
  (ensures ok (iff (= err nil) (okFile (stdEncs) (old (rem in)))))
  (ensures none (=> (!= err nil) (= rec nil)))
  (ensures value (=> (= err nil) (= rec (valFile (stdEncs) (old (rem in))))))
  (ensures length (=> (= err nil) (= n (lenFile (stdEncs) (old (rem in)))))))
(property C15 (roots format/io.Load format/io.Reader.Read format/io.Reader.readEncoders) (lemmas matched refused versions)
  (by C05 format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Decode format/encoding/float.Encoder.Decode)
  (by C07 format/encoding/enum.Encoder.Decode) (by C08 format/encoding/event.Encoder.Decode)
  (by C02 format/metadata.ReadProperty))
(property C11 (roots format/io.Load format/io.Reader.Read) (lemmas truncated)
  (by C05 format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Decode format/encoding/float.Encoder.Decode)
  (by C07 format/encoding/enum.Encoder.Decode) (by C08 format/encoding/event.Encoder.Decode))
(property C12 (roots format/io.Load format/io.Reader.Read format/encoding.Encoder.Decode) (lemmas))
(property C13 (roots format/io.Load format/io.Reader.Read) (lemmas)
  (by C05 format/encoding/position.Encoder.Decode format/encoding/euler.Encoder.Decode format/encoding/float.Encoder.Decode)
  (by C07 format/encoding/enum.Encoder.Decode) (by C08 format/encoding/event.Encoder.Decode))
