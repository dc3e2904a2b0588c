; ---- C05: unquantised collections ----
(macro vx (v) (. v x)) (macro vy (v) (. v y)) (macro vz (v) (. v z))
(macro near3 (v) (mk github.com/EliCDavis/vector/vector3.Vector[float64] (near32 (vx v)) (near32 (vy v)) (near32 (vz v))))
(macro id3 (v) v)
(macro b64pad (x) (cat (b64 x) (cat (unit 0) (unit 0)))) ; euler's 64-bit values take ten bytes
(foreach (P C VAL W N ENC DEC KEEP VARS TAIL)
 ((position format/collection/position.Capture position 64 8 b64 u64f id3 (vars (streamData *bytes.Buffer)) true)
  (position format/collection/position.Capture position 32 4 b32 u32f near3 (vars (streamData *bytes.Buffer)) true)
  (euler format/collection/euler.Capture euler 64 10 b64pad u64f id3 (vars (streamData *bytes.Buffer) (buf []byte))
    (= (drop buf 8) (cat (unit 0) (unit 0))))
  (euler format/collection/euler.Capture euler 32 4 b32 u32f near3 (vars (streamData *bytes.Buffer)) true))
  (rec enc{P}{W} ((cs (Seq {C}))) Bytes
    (ite (= (len cs) 0) (empty Bytes)
      (cat ({ENC} (vx (. (at cs 0) {VAL}))) (cat ({ENC} (vy (. (at cs 0) {VAL}))) (cat ({ENC} (vz (. (at cs 0) {VAL}))) (enc{P}{W} (drop cs 1)))))))
  (rec val{P}{W} ((s Bytes) (ts (Seq F64))) (Seq {C})
    (ite (= (len ts) 0) (empty (Seq {C}))
      (cat (unit (mk {C} (at ts 0) (mk github.com/EliCDavis/vector/vector3.Vector[float64] ({DEC} s) ({DEC} (drop s {N})) ({DEC} (drop s (* 2 {N}))))))
           (val{P}{W} (drop s (* 3 {N})) (drop ts 1)))))
  (rec kept{P}{W} ((cs (Seq {C})) (ts (Seq F64))) (Seq {C})
    (ite (= (len cs) 0) (empty (Seq {C}))
      (cat (unit (mk {C} (at ts 0) ({KEEP} (. (at cs 0) {VAL})))) (kept{P}{W} (drop cs 1) (drop ts 1)))))
  (func format/encoding/{P}.encodeRaw{W} (params cs) (results b)
    (ensures bytes (= b (enc{P}{W} cs)))
    (loop 0 {VARS}
      (inv tail {TAIL})
      (inv bytes (= (cat (out streamData) (enc{P}{W} (drop cs $k))) (enc{P}{W} cs)))))
  (func format/encoding/{P}.decodeRaw{W} (params in times) (results captures err) (modifies in)
    (ensures value (=> (<= (* (* 3 {N}) (len times)) (len (old (rem in)))) (and (= err nil) (= captures (val{P}{W} (old (rem in)) times)))))
    (loop 0 (vars (captures (Seq {C})) (i int))
      (inv count (<= 0 i (len times)))
      (inv size (= (len captures) (len times)))
      (inv rest (=> (<= (* (* 3 {N}) (len times)) (len (old (rem in)))) (= (rem in) (drop (old (rem in)) (* (* 3 {N}) i)))))
      (inv value (=> (<= (* (* 3 {N}) (len times)) (len (old (rem in))))
        (= (cat (take captures i) (val{P}{W} (rem in) (drop times i))) (val{P}{W} (old (rem in)) times))))))
  (lemma rt-{P}{W} ((cs (Seq {C})) (ts (Seq F64)) (rest Bytes))
    (requires (= (len ts) (len cs)))
    (ensures (= (len (enc{P}{W} cs)) (* (* 3 {N}) (len cs))))
    (ensures (= (val{P}{W} (cat (enc{P}{W} cs) rest) ts) (kept{P}{W} cs ts)))
    (measure (len cs))
    (hint (use rt-{P}{W} (drop cs 1) (drop ts 1) rest) (unfold enc{P}{W} cs)))
)
