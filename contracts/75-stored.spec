; ---- what an encoder of the module keeps of a collection ----
(macro nameC (c) (@format.CaptureCollection.Name c))
(macro sigC (c) (@format.CaptureCollection.Signature c))
(macro capsOf (c) (@format.CaptureCollection.Captures c))
(macro accepts (e c) (@format/encoding.Encoder.Accepts e c))
(macro isPosE (e) (is format/encoding/position.Encoder e)) (macro isEulE (e) (is format/encoding/euler.Encoder e)) (macro isFloE (e) (is format/encoding/float.Encoder e))
(macro isEnuE (e) (is format/encoding/enum.Encoder e)) (macro isEvtE (e) (is format/encoding/event.Encoder e))
(macro techOf (P e) (. (unbox P e) technique))
; a collection that encoder e can store
(def canEnc ((e If) (c If)) Bool
  (and (!= c nil) (accepts e c) (= (len (capsOf c)) (lenC c))
    (=> (isPosE e) (and (<= 0 (. (unbox format/encoding/position.Encoder e) technique) 3) (typed-position c)))
    (=> (isEulE e) (and (<= 0 (. (unbox format/encoding/euler.Encoder e) technique) 2) (typed-euler c)))
    (=> (isFloE e) (and (<= 0 (. (unbox format/encoding/float.Encoder e) technique) 2) (typed-float c)))
    (=> (isEnuE e) (is format/collection/enum.Collection c))
    (=> (isEvtE e) (and (is format/collection/event.Collection c) (wfEvs c)))))
; d is what encoder e keeps of collection c, under a name and with capture times
(def keptBy ((e If) (c If) (nm string) (ts (Seq F64)) (d If)) Bool
  (and (!= d nil) (= (nameC d) nm) (= (sigC d) (sigC c)) (= (lenC d) (lenC c))
    (=> (isPosE e) (= d (box format/collection/position.Collection (mk format/collection/position.Collection nm (storedColl-position (. (unbox format/encoding/position.Encoder e) technique) (caps-position c (lenC c)) ts)))))
    (=> (isEulE e) (= d (box format/collection/euler.Collection (mk format/collection/euler.Collection nm (storedColl-euler (. (unbox format/encoding/euler.Encoder e) technique) (caps-euler c (lenC c)) ts)))))
    (=> (isFloE e) (= d (box format/collection/float.Collection (mk format/collection/float.Collection nm (storedColl-float (. (unbox format/encoding/float.Encoder e) technique) (capsOf c) ts)))))
    (=> (isEnuE e) (and (is format/collection/enum.Collection d) (= (membersOf d) (membersOf c)) (= (. (enumC d) captures) (keptEnum (. (enumC c) captures) ts))))
    (=> (isEvtE e) (= d (box format/collection/event.Collection (mk format/collection/event.Collection nm (keptEvs (evCaps c) ts)))))))
; the bytes b and the header h of encoder e stand for collection c, whatever its name and times
(def encoded ((e If) (h Bytes) (b Bytes) (c If)) Bool
  (forall ((nm string) (ts (Seq F64))) (:pat (decOk e nm h b ts)) (:pat (decVal e nm h b ts))
    (=> (= (len ts) (len (capsOf c))) (and (decOk e nm h b ts) (keptBy e c nm ts (decVal e nm h b ts))))))
; as many captures as there were
(foreach (F C) ((keptposition64 format/collection/position.Capture) (keptposition32 format/collection/position.Capture) (kepteuler64 format/collection/euler.Capture) (kepteuler32 format/collection/euler.Capture) (keptE format/collection/euler.Capture)
   (keptEnum format/collection/enum.Capture) (keptEvs format/collection/event.Capture))
 (lemma len-{F} ((cs (Seq {C})) (ts (Seq F64))) (ensures (= (len ({F} cs ts)) (len cs))) (measure (len cs))
  (hint (unfold {F} cs ts) (use len-{F} (drop cs 1) (drop ts 1)))))
(foreach (F) ((keptfloat64) (keptfloat32))
 (lemma len-{F} ((cs (Seq If)) (ts (Seq F64))) (ensures (= (len ({F} cs ts)) (len cs))) (measure (len cs))
  (hint (unfold {F} cs ts) (use len-{F} (drop cs 1) (drop ts 1)))))
(lemma len-keptN ((cs (Seq If)) (ts (Seq F64)) (mn F64) (d F64) (mn2 F64) (d2 F64)) (ensures (= (len (keptN cs ts mn d mn2 d2)) (len cs))) (measure (len cs))
  (hint (unfold keptN cs ts mn d mn2 d2) (use len-keptN (drop cs 1) (drop ts 1) mn d mn2 d2)))
(foreach (D) ((24) (48))
 (lemma len-kept{D} ((cs (Seq format/collection/position.Capture)) (ts (Seq F64)) (i Int) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])
     (cur2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mn2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mx2 github.com/EliCDavis/vector/vector3.Vector[float64]))
  (requires (<= 0 i (len cs))) (opaque land{D} cells{D})
  (ensures (= (len (kept{D} cs ts i cur mn mx cur2 mn2 mx2)) (- (len cs) i))) (measure (- (len cs) i))
  (hint (unfold kept{D} cs ts i cur mn mx cur2 mn2 mx2)
    (use len-kept{D} cs (drop ts 1) (+ i 1) (land{D} (cells{D} (posI cs i) cur mn mx) cur mn mx) mn mx (land{D} (cells{D} (posI cs i) cur mn mx) cur2 mn2 mx2) mn2 mx2)))
 (lemma len-storedO{D} ((cs (Seq format/collection/position.Capture)) (ts (Seq F64))) (ensures (= (len (storedO{D} cs ts)) (len cs)))
  (opaque kept{D})
  (hint (unfold storedO{D} cs ts) (use len-kept{D} cs (drop ts 1) 1 (posI cs 0) (mnO cs (len cs)) (mxO cs (len cs)) (near32v (posI cs 0)) (near32v (mnO cs (len cs))) (near32v (mxO cs (len cs)))))))
(lemma len-stored-position ((t Int) (cs (Seq format/collection/position.Capture)) (ts (Seq F64))) (ensures (= (len (storedColl-position t cs ts)) (len cs)))
  (hint (unfold storedColl-position t cs ts) (use len-keptposition64 cs ts) (use len-keptposition32 cs ts) (use len-storedO24 cs ts) (use len-storedO48 cs ts)))
(lemma len-stored-euler ((t Int) (cs (Seq format/collection/euler.Capture)) (ts (Seq F64))) (ensures (= (len (storedColl-euler t cs ts)) (len cs)))
  (hint (unfold storedColl-euler t cs ts) (use len-kepteuler64 cs ts) (use len-kepteuler32 cs ts) (use len-keptE cs ts)))
(lemma len-stored-float ((t Int) (cs (Seq If)) (ts (Seq F64))) (ensures (= (len (storedColl-float t cs ts)) (len cs)))
  (hint (unfold storedColl-float t cs ts) (use len-keptfloat64 cs ts) (use len-keptfloat32 cs ts)
    (use len-keptN cs ts (minN cs (len cs)) (rngN cs) (near32 (minN cs (len cs))) (rngN2 cs))))
(foreach (P T) ((position 3) (euler 2))
 (lemma len-caps-{P} ((c If) (k Int)) (requires (<= 0 k)) (ensures (= (len (caps-{P} c k)) k)) (measure k) (hint (use len-caps-{P} c (- k 1))))
 (lemma encd1-{P} ((p format/encoding/{P}.Encoder) (b Bytes) (c If) (nm string) (ts (Seq F64))) (requires (canEnc (box format/encoding/{P}.Encoder p) c))
  (requires (= b (encColl-{P} (. p technique) (caps-{P} c (lenC c))))) (requires (= (len ts) (lenC c)))
  (opaque encColl-{P} okColl-{P} valColl-{P} storedColl-{P})
  (hint (law format/encoding/{P}.Encoder.Decode p nm (empty Bytes) b ts) (use rt-Coll-{P} (. p technique) (caps-{P} c (lenC c)) ts) (use len-stored-{P} (. p technique) (caps-{P} c (lenC c)) ts) (use len-caps-{P} c (lenC c)))
  (ensures (<= 0 (. p technique) {T}))
  (ensures (typed-{P} c))
  (ensures (decOk (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts))
  (ensures (= (decVal (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts) (box format/collection/{P}.Collection (mk format/collection/{P}.Collection nm (storedColl-{P} (. p technique) (caps-{P} c (lenC c)) ts)))))
  (ensures (= (lenC (decVal (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts)) (lenC c)))
  (ensures (= (nameC (decVal (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts)) nm))
  (ensures (= (sigC (decVal (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts)) (sigC c)))
  (ensures (keptBy (box format/encoding/{P}.Encoder p) c nm ts (decVal (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts))))
 (lemma encd-{P} ((p format/encoding/{P}.Encoder) (b Bytes) (c If)) (requires (canEnc (box format/encoding/{P}.Encoder p) c))
  (requires (= b (encColl-{P} (. p technique) (caps-{P} c (lenC c)))))
  (opaque encColl-{P} okColl-{P} valColl-{P} storedColl-{P} keptBy)
  (ensures (encoded (box format/encoding/{P}.Encoder p) (empty Bytes) b c))
  (hint (assert (= (len (capsOf c)) (lenC c)))
    (forall ((nm string) (ts (Seq F64))) (:pat (decOk (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts)) (:pat (decVal (box format/encoding/{P}.Encoder p) nm (empty Bytes) b ts))
      (use encd1-{P} p b c nm ts)))))
; numbers
(lemma encd1-float ((p format/encoding/float.Encoder) (h Bytes) (b Bytes) (c If) (nm string) (ts (Seq F64))) (requires (canEnc (box format/encoding/float.Encoder p) c))
  (requires (= b (encColl-float (. p technique) (capsOf c)))) (requires (= (len ts) (lenC c))) (requires (= h (empty Bytes)))
  (opaque encColl-float valColl-float storedColl-float)
  (hint (law format/encoding/float.Encoder.Decode p nm h b ts) (use rt-Coll-float (. p technique) (capsOf c) ts) (use len-stored-float (. p technique) (capsOf c) ts))
  (ensures (decOk (box format/encoding/float.Encoder p) nm h b ts))
  (ensures (= (decVal (box format/encoding/float.Encoder p) nm h b ts) (box format/collection/float.Collection (mk format/collection/float.Collection nm (storedColl-float (. p technique) (capsOf c) ts)))))
  (ensures (= (sigC (decVal (box format/encoding/float.Encoder p) nm h b ts)) (sigC c)))
  (ensures (keptBy (box format/encoding/float.Encoder p) c nm ts (decVal (box format/encoding/float.Encoder p) nm h b ts))))
; members and values
(lemma ok-enum ((h Bytes) (b Bytes) (c If) (ts (Seq F64))) (requires (= (len ts) (len (. (enumC c) captures)))) (requires (is format/collection/enum.Collection c)) (requires (storedEnum h b c))
  (ensures (okEnum h b (len (. (enumC c) captures))))
  (hint (use rt-enumCaps (. (enumC c) captures) ts)))
(lemma encd1-enum ((p format/encoding/enum.Encoder) (h Bytes) (b Bytes) (c If) (nm string) (ts (Seq F64))) (requires (canEnc (box format/encoding/enum.Encoder p) c))
  (requires (storedEnum h b c)) (requires (= (len ts) (lenC c)))
  (opaque storedEnum okEnum valEnum keptEnum)
  (hint (ghost D (decVal (box format/encoding/enum.Encoder p) nm h b ts)) (assert (= (box format/collection/enum.Collection (enumC c)) c)) (assert (= (lenC c) (len (. (enumC c) captures))))
    (law format/encoding/enum.Encoder.Decode p nm h b ts) (use ok-enum h b c ts) (assert (decOk (box format/encoding/enum.Encoder p) nm h b ts))
    (use rt-enum h b c ts (enumC D)) (use len-keptEnum (. (enumC c) captures) ts) (assert (= (box format/collection/enum.Collection (enumC D)) D)))
  (ensures (keptBy (box format/encoding/enum.Encoder p) c nm ts (decVal (box format/encoding/enum.Encoder p) nm h b ts)))
  (ensures (decOk (box format/encoding/enum.Encoder p) nm h b ts)))
(lemma encd1-event ((p format/encoding/event.Encoder) (h Bytes) (b Bytes) (c If) (nm string) (ts (Seq F64))) (requires (canEnc (box format/encoding/event.Encoder p) c))
  (requires (storedEvs h b c)) (requires (= (len ts) (lenC c)))
  (opaque okEvs valEvs keptEvs okSA lenSA valSA)
  (hint (assert (= (box format/collection/event.Collection (evC c)) c)) (assert (= (lenC c) (len (evCaps c))))
    (law format/encoding/event.Encoder.Decode p nm h b ts) (assert (decOk (box format/encoding/event.Encoder p) nm h b ts))
    (assert (= (decVal (box format/encoding/event.Encoder p) nm h b ts) (box format/collection/event.Collection (mk format/collection/event.Collection nm (keptEvs (evCaps c) ts)))))
    (use len-keptEvs (evCaps c) ts))
  (ensures (keptBy (box format/encoding/event.Encoder p) c nm ts (decVal (box format/encoding/event.Encoder p) nm h b ts)))
  (ensures (decOk (box format/encoding/event.Encoder p) nm h b ts)))
(foreach (P REQ HD) ((float (= b (encColl-float (. p technique) (capsOf c))) (= h (empty Bytes))) (enum (storedEnum h b c) true) (event (storedEvs h b c) true))
 (lemma encd-{P} ((p format/encoding/{P}.Encoder) (h Bytes) (b Bytes) (c If)) (requires (canEnc (box format/encoding/{P}.Encoder p) c))
  (requires {REQ}) (requires {HD})
  (opaque encColl-float storedEnum storedEvs keptBy)
  (ensures (encoded (box format/encoding/{P}.Encoder p) h b c))
  (hint (assert (= (len (capsOf c)) (lenC c)))
    (forall ((nm string) (ts (Seq F64))) (:pat (decOk (box format/encoding/{P}.Encoder p) nm h b ts)) (:pat (decVal (box format/encoding/{P}.Encoder p) nm h b ts))
      (use encd1-{P} p h b c nm ts)))))
(imethod format/encoding.Encoder.Encode (params e cs) (results h data err) (via)
  (requires (forall ((i Int)) (:pat (at cs i)) (=> (<= 0 i) (< i (len cs)) (canEnc e (at cs i)))))
  (ensures count (=> (= err nil) (= (len data) (len cs))))
  (ensures each (=> (= err nil) (forall ((i Int)) (:pat (at cs i)) (:pat (at data i)) (=> (<= 0 i) (< i (len cs)) (encoded e h (at data i) (at cs i)))))))
