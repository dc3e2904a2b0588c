; ---- octree cells: one bit per axis and halving ----
(macro V3 () github.com/EliCDavis/vector/vector3.Vector[float64])
(macro bitP (c p) (cond ((= p 0) (mod c 2)) ((= p 1) (mod (div c 2) 2)) (else (mod (div c 4) 2))))
(macro step1 (v c i) (ite (flt v c) (fsub c i) (fadd c i)))
(macro half (i) (fdiv i (f64 2.0)))
(macro obit (v c) (ite (flt v c) 1 0))
; the cells of a value, what the search arrives at, and what cells decode to
(rec octC ((vx F64) (cx F64) (ix F64) (vy F64) (cy F64) (iy F64) (vz F64) (cz F64) (iz F64) (n Int)) (Seq format/encoding/position.OctCell)
  (ite (<= n 0) (empty (Seq format/encoding/position.OctCell))
    (cat (unit (+ (* 4 (obit vy cy)) (* 2 (obit vx cx)) (obit vz cz)) (Seq format/encoding/position.OctCell))
      (octC vx (step1 vx cx ix) (half ix) vy (step1 vy cy iy) (half iy) vz (step1 vz cz iz) (half iz) (- n 1)))))
(rec osrch ((v F64) (c F64) (i F64) (n Int)) F64
  (ite (<= n 0) c (osrch v (step1 v c i) (half i) (- n 1))))
(rec odec ((s (Seq format/encoding/position.OctCell)) (p Int) (c F64) (i F64)) F64
  (ite (= (len s) 0) c (odec (drop s 1) p (ite (= (bitP (at s 0) p) 0) (fadd c i) (fsub c i)) (half i))))
(macro omid (a b) (fdiv (fadd a b) (f64 2.0)))
(macro oinc (a b) (fdiv (fsub b a) (f64 4.0)))
(def octOf ((v github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64]) (n Int)) (Seq format/encoding/position.OctCell)
  (octC (. v x) (omid (. mn x) (. mx x)) (oinc (. mn x) (. mx x))
        (. v y) (omid (. mn y) (. mx y)) (oinc (. mn y) (. mx y))
        (. v z) (omid (. mn z) (. mx z)) (oinc (. mn z) (. mx z)) n))
(def unoct ((s (Seq format/encoding/position.OctCell)) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])) github.com/EliCDavis/vector/vector3.Vector[float64]
  (mk github.com/EliCDavis/vector/vector3.Vector[float64]
    (odec s 1 (omid (. mn x) (. mx x)) (oinc (. mn x) (. mx x)))
    (odec s 2 (omid (. mn y) (. mx y)) (oinc (. mn y) (. mx y)))
    (odec s 0 (omid (. mn z) (. mx z)) (oinc (. mn z) (. mx z)))))
(func format/encoding/position.Vec3ToOctCells (params v min max cells) (modifies cells)
  (ensures cells (= cells (octOf v min max (len (old cells)))))
  (loop 0 (vars (cellIndex int) (center github.com/EliCDavis/vector/vector3.Vector[float64]) (incrementX float64) (incrementY float64) (incrementZ float64))
    (inv count (<= 0 cellIndex (len cells)))
    (inv size (= (len cells) (len (old cells))))
    (inv cells (= (cat (take cells cellIndex)
        (octC (. v x) (. center x) incrementX (. v y) (. center y) incrementY (. v z) (. center z) incrementZ (- (len cells) cellIndex)))
      (octOf v min max (len (old cells)))))))
(func format/encoding/position.OctCellsToVec3 (params min max cells) (results v)
  (requires (octCells cells))
  (ensures value (= v (unoct cells min max)))
  (loop 0 (vars (cellIndex int) (center github.com/EliCDavis/vector/vector3.Vector[float64]) (incrementX float64) (incrementY float64) (incrementZ float64))
    (inv count (<= 0 cellIndex (len cells)))
    (inv x (= (odec (drop cells cellIndex) 1 (. center x) incrementX) (. (unoct cells min max) x)))
    (inv y (= (odec (drop cells cellIndex) 2 (. center y) incrementY) (. (unoct cells min max) y)))
    (inv z (= (odec (drop cells cellIndex) 0 (. center z) incrementZ) (. (unoct cells min max) z)))))
(def octCells ((s (Seq format/encoding/position.OctCell))) Bool
  (forall ((i Int)) (:pat (at s i)) (=> (<= 0 i) (< i (len s)) (<= 0 (at s i) 7))))
; three bytes per eight cells: bit i of byte p is axis p of cell i
(macro packb (s i b) (+ (bitP (at s i) b) (* 2 (bitP (at s (+ i 1)) b)) (* 4 (bitP (at s (+ i 2)) b)) (* 8 (bitP (at s (+ i 3)) b))
  (* 16 (bitP (at s (+ i 4)) b)) (* 32 (bitP (at s (+ i 5)) b)) (* 64 (bitP (at s (+ i 6)) b)) (* 128 (bitP (at s (+ i 7)) b))))
(macro pack8 (s i) (cat (unit (packb s i 0)) (cat (unit (packb s i 1)) (unit (packb s i 2)))))
(def pack24 ((s (Seq format/encoding/position.OctCell))) Bytes (pack8 s 0))
(def pack48 ((s (Seq format/encoding/position.OctCell))) Bytes (cat (pack8 s 0) (pack8 s 8)))
(macro cellb (a b c k) (unit (+ (mod (div a k) 2) (* 2 (mod (div b k) 2)) (* 4 (mod (div c k) 2))) (Seq format/encoding/position.OctCell)))
(macro unpackb (a b c) (cat (cellb a b c 1) (cat (cellb a b c 2) (cat (cellb a b c 4) (cat (cellb a b c 8)
  (cat (cellb a b c 16) (cat (cellb a b c 32) (cat (cellb a b c 64) (cellb a b c 128)))))))))
(def unpackB ((a Int) (b Int) (c Int)) (Seq format/encoding/position.OctCell) (unpackb a b c))
(def unpack24 ((s Bytes)) (Seq format/encoding/position.OctCell) (unpackB (at s 0) (at s 1) (at s 2)))
(def unpack48 ((s Bytes)) (Seq format/encoding/position.OctCell) (cat (unpackB (at s 0) (at s 1) (at s 2)) (unpackB (at s 3) (at s 4) (at s 5))))
(func format/encoding/position.octCellsToBytes24 (params cells buffer) (modifies buffer)
  (requires (and (= (len cells) 8) (= (len buffer) 3) (octCells cells)))
  (ensures bytes (= buffer (pack24 cells))))
(func format/encoding/position.bytesToOctCells24 (params cells buffer) (modifies cells)
  (requires (and (= (len cells) 8) (= (len buffer) 3)))
  (hint (unfold unpackB (at buffer 0) (at buffer 1) (at buffer 2)))
  (ensures cells (= cells (unpack24 buffer))))
(func format/encoding/position.octCellsToBytes48 (params cells buffer) (modifies buffer)
  (requires (and (= (len cells) 16) (= (len buffer) 6) (octCells cells)))
  (ensures bytes (= buffer (pack48 cells))))
(func format/encoding/position.bytesToOctCells48 (params cells buffer) (modifies cells)
  (requires (and (= (len cells) 16) (= (len buffer) 6)))
  (hint (unfold unpackB (at buffer 0) (at buffer 1) (at buffer 2)) (unfold unpackB (at buffer 3) (at buffer 4) (at buffer 5)))
  (ensures cells (= cells (unpack48 buffer))))
(lemma octC-cells ((vx F64) (cx F64) (ix F64) (vy F64) (cy F64) (iy F64) (vz F64) (cz F64) (iz F64) (n Int))
  (requires (<= 0 n))
  (ensures (= (len (octC vx cx ix vy cy iy vz cz iz n)) n))
  (ensures (octCells (octC vx cx ix vy cy iy vz cz iz n)))
  (measure n) (auto (octC vx cx ix vy cy iy vz cz iz n))
  (hint (use octC-cells vx (step1 vx cx ix) (half ix) vy (step1 vy cy iy) (half iy) vz (step1 vz cz iz) (half iz) (- n 1))))
(lemma oc-cat ((a (Seq format/encoding/position.OctCell)) (b (Seq format/encoding/position.OctCell)))
  (requires (octCells a)) (requires (octCells b))
  (ensures (octCells (cat a b))))
(lemma oc-cell ((a Int) (b Int) (c Int) (k Int))
  (ensures (octCells (cellb a b c k))))
(lemma unpack-cells8 ((a Int) (b Int) (c Int))
  (ensures (octCells (unpackB a b c))) (ensures (= (len (unpackB a b c)) 8))
  (hint (unfold unpackB a b c) (use oc-cell a b c 1) (use oc-cell a b c 2) (use oc-cell a b c 4) (use oc-cell a b c 8)
    (use oc-cell a b c 16) (use oc-cell a b c 32) (use oc-cell a b c 64) (use oc-cell a b c 128)
    (use oc-cat (cellb a b c 64) (cellb a b c 128))
    (use oc-cat (cellb a b c 32) (cat (cellb a b c 64) (cellb a b c 128)))
    (use oc-cat (cellb a b c 16) (cat (cellb a b c 32) (cat (cellb a b c 64) (cellb a b c 128))))
    (use oc-cat (cellb a b c 8) (cat (cellb a b c 16) (cat (cellb a b c 32) (cat (cellb a b c 64) (cellb a b c 128)))))
    (use oc-cat (cellb a b c 4) (cat (cellb a b c 8) (cat (cellb a b c 16) (cat (cellb a b c 32) (cat (cellb a b c 64) (cellb a b c 128))))))
    (use oc-cat (cellb a b c 2) (cat (cellb a b c 4) (cat (cellb a b c 8) (cat (cellb a b c 16) (cat (cellb a b c 32) (cat (cellb a b c 64) (cellb a b c 128)))))))
    (use oc-cat (cellb a b c 1) (cat (cellb a b c 2) (cat (cellb a b c 4) (cat (cellb a b c 8) (cat (cellb a b c 16) (cat (cellb a b c 32) (cat (cellb a b c 64) (cellb a b c 128))))))))))
(lemma unpack-cells24 ((s Bytes)) (ensures (octCells (unpack24 s))) (ensures (= (len (unpack24 s)) 8)) (auto (unpack24 s))
  (hint (use unpack-cells8 (at s 0) (at s 1) (at s 2))))
(lemma unpack-cells48 ((s Bytes)) (ensures (octCells (unpack48 s))) (ensures (= (len (unpack48 s)) 16)) (auto (unpack48 s))
  (hint (use unpack-cells8 (at s 0) (at s 1) (at s 2)) (use unpack-cells8 (at s 3) (at s 4) (at s 5))
    (use oc-cat (unpackB (at s 0) (at s 1) (at s 2)) (unpackB (at s 3) (at s 4) (at s 5)))))
(lemma bits8 ((b0 Int) (b1 Int) (b2 Int) (b3 Int) (b4 Int) (b5 Int) (b6 Int) (b7 Int))
  (requires (<= 0 b0 1))
  (requires (<= 0 b1 1))
  (requires (<= 0 b2 1))
  (requires (<= 0 b3 1))
  (requires (<= 0 b4 1))
  (requires (<= 0 b5 1))
  (requires (<= 0 b6 1))
  (requires (<= 0 b7 1))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 1) 2) b0))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 2) 2) b1))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 4) 2) b2))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 8) 2) b3))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 16) 2) b4))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 32) 2) b5))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 64) 2) b6))
  (ensures (= (mod (div (+ (* 1 b0) (* 2 b1) (* 4 b2) (* 8 b3) (* 16 b4) (* 32 b5) (* 64 b6) (* 128 b7)) 128) 2) b7)))
(lemma bits3 ((c Int)) (requires (<= 0 c 7)) (ensures (= (+ (mod c 2) (* 2 (mod (div c 2) 2)) (* 4 (mod (div c 4) 2))) c)))
(macro at8 (s i) (cat (unit (at s (+ i 0)) (Seq format/encoding/position.OctCell)) (cat (unit (at s (+ i 1)) (Seq format/encoding/position.OctCell)) (cat (unit (at s (+ i 2)) (Seq format/encoding/position.OctCell)) (cat (unit (at s (+ i 3)) (Seq format/encoding/position.OctCell)) (cat (unit (at s (+ i 4)) (Seq format/encoding/position.OctCell)) (cat (unit (at s (+ i 5)) (Seq format/encoding/position.OctCell)) (cat (unit (at s (+ i 6)) (Seq format/encoding/position.OctCell)) (unit (at s (+ i 7)) (Seq format/encoding/position.OctCell))))))))))
(lemma explode8 ((s (Seq format/encoding/position.OctCell)) (i Int)) (requires (<= 0 i)) (requires (<= (+ i 8) (len s)))
  (ensures (= (take (drop s i) 8) (at8 s i))))
(lemma pack-unpack8 ((s (Seq format/encoding/position.OctCell)) (i Int)) (requires (<= 0 i)) (requires (<= (+ i 8) (len s))) (requires (octCells s))
  (ensures (= (unpackB (packb s i 0) (packb s i 1) (packb s i 2)) (at8 s i)))
  (hint (unfold unpackB (packb s i 0) (packb s i 1) (packb s i 2)) (use bits8 (bitP (at s (+ i 0)) 0) (bitP (at s (+ i 1)) 0) (bitP (at s (+ i 2)) 0) (bitP (at s (+ i 3)) 0) (bitP (at s (+ i 4)) 0) (bitP (at s (+ i 5)) 0) (bitP (at s (+ i 6)) 0) (bitP (at s (+ i 7)) 0))
    (use bits8 (bitP (at s (+ i 0)) 1) (bitP (at s (+ i 1)) 1) (bitP (at s (+ i 2)) 1) (bitP (at s (+ i 3)) 1) (bitP (at s (+ i 4)) 1) (bitP (at s (+ i 5)) 1) (bitP (at s (+ i 6)) 1) (bitP (at s (+ i 7)) 1))
    (use bits8 (bitP (at s (+ i 0)) 2) (bitP (at s (+ i 1)) 2) (bitP (at s (+ i 2)) 2) (bitP (at s (+ i 3)) 2) (bitP (at s (+ i 4)) 2) (bitP (at s (+ i 5)) 2) (bitP (at s (+ i 6)) 2) (bitP (at s (+ i 7)) 2))
    (use bits3 (at s (+ i 0))) (use bits3 (at s (+ i 1))) (use bits3 (at s (+ i 2))) (use bits3 (at s (+ i 3))) (use bits3 (at s (+ i 4))) (use bits3 (at s (+ i 5))) (use bits3 (at s (+ i 6))) (use bits3 (at s (+ i 7)))))
(lemma rt-pack24 ((s (Seq format/encoding/position.OctCell)))
  (requires (and (= (len s) 8) (octCells s)))
  (ensures (= (unpack24 (pack24 s)) s))
  (hint (use pack-unpack8 s 0) (use explode8 s 0) (unfold pack24 s) (unfold unpack24 (pack24 s))
    (assert (= (at (pack24 s) 0) (packb s 0 0)))
    (assert (= (at (pack24 s) 1) (packb s 0 1)))
    (assert (= (at (pack24 s) 2) (packb s 0 2)))
    (assert (= (unpack24 (pack24 s)) (take (drop s 0) 8)))))
(lemma rt-pack48 ((s (Seq format/encoding/position.OctCell)))
  (requires (and (= (len s) 16) (octCells s)))
  (ensures (= (unpack48 (pack48 s)) s))
  (hint (use pack-unpack8 s 0) (use explode8 s 0) (use pack-unpack8 s 8) (use explode8 s 8) (unfold pack48 s) (unfold unpack48 (pack48 s))
    (assert (= (at (pack48 s) 0) (packb s 0 0)))
    (assert (= (at (pack48 s) 1) (packb s 0 1)))
    (assert (= (at (pack48 s) 2) (packb s 0 2)))
    (assert (= (at (pack48 s) 3) (packb s 8 0)))
    (assert (= (at (pack48 s) 4) (packb s 8 1)))
    (assert (= (at (pack48 s) 5) (packb s 8 2)))
    (assert (= (unpack48 (pack48 s)) (cat (take (drop s 0) 8) (take (drop s 8) 8))))
    (assert (= (cat (take (drop s 0) 8) (take (drop s 8) 8)) s))))
(macro posI (cs i) (. (at cs i) position))
(macro near32v (v) (mk github.com/EliCDavis/vector/vector3.Vector[float64] (near32 (. v x)) (near32 (. v y)) (near32 (. v z))))
(macro subV (a b) (mk github.com/EliCDavis/vector/vector3.Vector[float64] (fsub (. a x) (. b x)) (fsub (. a y) (. b y)) (fsub (. a z) (. b z))))
(macro addV (a b) (mk github.com/EliCDavis/vector/vector3.Vector[float64] (fadd (. a x) (. b x)) (fadd (. a y) (. b y)) (fadd (. a z) (. b z))))
(macro b32v (v) (cat (b32 (. v x)) (cat (b32 (. v y)) (b32 (. v z)))))
(macro u32v (s) (mk github.com/EliCDavis/vector/vector3.Vector[float64] (u32f s) (u32f (drop s 4)) (u32f (drop s 8))))
; largest and smallest step per axis among the first k captures, as the encoder computes them
(foreach (A) ((x) (y) (z))
  (rec mxO{A} ((cs (Seq format/collection/position.Capture)) (k Int)) F64
    (ite (<= k 1) -inf (ite (flt (mxO{A} cs (- k 1)) (fsub (. (posI cs (- k 1)) {A}) (. (posI cs (- k 2)) {A})))
       (fsub (. (posI cs (- k 1)) {A}) (. (posI cs (- k 2)) {A})) (mxO{A} cs (- k 1)))))
  (rec mnO{A} ((cs (Seq format/collection/position.Capture)) (k Int)) F64
    (ite (<= k 1) inf (ite (flt (fsub (. (posI cs (- k 1)) {A}) (. (posI cs (- k 2)) {A})) (mnO{A} cs (- k 1)))
       (fsub (. (posI cs (- k 1)) {A}) (. (posI cs (- k 2)) {A})) (mnO{A} cs (- k 1))))))
(macro mxO (cs k)
  (mk github.com/EliCDavis/vector/vector3.Vector[float64] (mxOx cs k) (mxOy cs k) (mxOz cs k)))
(macro mnO (cs k)
  (mk github.com/EliCDavis/vector/vector3.Vector[float64] (mnOx cs k) (mnOy cs k) (mnOz cs k)))
(foreach (D N B) ((24 8 3) (48 16 6))
  ; the cells of a step, and where the reader lands after it
  (def cells{D} ((p github.com/EliCDavis/vector/vector3.Vector[float64]) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])) (Seq format/encoding/position.OctCell)
    (octOf (subV p cur) mn mx {N}))
  (def land{D} ((cells (Seq format/encoding/position.OctCell)) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])) github.com/EliCDavis/vector/vector3.Vector[float64]
    (addV cur (unoct cells mn mx)))
  (rec steps{D} ((cs (Seq format/collection/position.Capture)) (i Int) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])) Bytes
    (ite (<= (len cs) i) (empty Bytes)
      (cat (pack{D} (cells{D} (posI cs i) cur mn mx))
        (steps{D} cs (+ i 1) (land{D} (cells{D} (posI cs i) cur mn mx) cur mn mx) mn mx))))
  (def encO{D} ((cs (Seq format/collection/position.Capture))) Bytes
    (cond ((= (len cs) 0) (empty Bytes))
          ((= (len cs) 1) (b32v (posI cs 0)))
          (else (cat (b32v (mnO cs (len cs))) (cat (b32v (mxO cs (len cs))) (cat (b32v (posI cs 0))
             (steps{D} cs 1 (posI cs 0) (mnO cs (len cs)) (mxO cs (len cs)))))))))
  (func format/encoding/position.encodeOct{D} (params captures) (results b err)
    (ensures ok (= err nil))
    (ensures bytes (= b (encO{D} captures)))
    (loop 0 (vars (min github.com/EliCDavis/vector/vector3.Vector[float64]) (max github.com/EliCDavis/vector/vector3.Vector[float64]))
      (inv min (= min (mnO captures $k)))
      (inv max (= max (mxO captures $k))))
    (loop 1 (vars (collectionData *bytes.Buffer) (octBuffer (Seq format/encoding/position.OctCell)) (octByteBuffer []byte) (quantizedPosition github.com/EliCDavis/vector/vector3.Vector[float64]))
      (inv size (and (= (len octBuffer) {N}) (= (len octByteBuffer) {B})))
      (inv bytes (= (cat (out collectionData) (steps{D} captures (ite (<= $k 1) 1 $k) quantizedPosition (mnO captures (len captures)) (mxO captures (len captures)))) (encO{D} captures)))))
  (rec unsteps{D} ((s Bytes) (ts (Seq F64)) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])) (Seq format/collection/position.Capture)
    (ite (= (len ts) 0) (empty (Seq format/collection/position.Capture))
      (cat (unit (mk format/collection/position.Capture (at ts 0) (land{D} (unpack{D} (take s {B})) cur mn mx)))
        (unsteps{D} (drop s {B}) (drop ts 1) (land{D} (unpack{D} (take s {B})) cur mn mx) mn mx))))
  (macro lenO{D} (n) (cond ((<= n 0) 0) ((= n 1) 12) (else (+ 36 (* {B} (- n 1))))))
  (def valO{D} ((s Bytes) (ts (Seq F64))) (Seq format/collection/position.Capture)
    (cond ((= (len ts) 0) (empty (Seq format/collection/position.Capture)))
          ((= (len ts) 1) (unit (mk format/collection/position.Capture (at ts 0) (u32v s))))
          (else (cat (unit (mk format/collection/position.Capture (at ts 0) (u32v (drop s 24))))
             (unsteps{D} (drop s 36) (drop ts 1) (u32v (drop s 24)) (u32v s) (u32v (drop s 12)))))))
  (func format/encoding/position.decodeOct{D} (params in times) (results captures err) (modifies in)
    (ensures value (=> (<= (lenO{D} (len times)) (len (old (rem in)))) (and (= err nil) (= captures (valO{D} (old (rem in)) times)))))
    (loop 0 (vars (captures (Seq format/collection/position.Capture)) (i int) (octBuffer (Seq format/encoding/position.OctCell)) (octBytesBuffer []byte) (currentPosition github.com/EliCDavis/vector/vector3.Vector[float64]) (min github.com/EliCDavis/vector/vector3.Vector[float64]) (max github.com/EliCDavis/vector/vector3.Vector[float64]))
      (inv count (<= 0 i (len times)))
      (inv size (and (= (len captures) (len times)) (= (len octBuffer) {N}) (= (len octBytesBuffer) {B})))
      (inv rest (=> (<= (lenO{D} (len times)) (len (old (rem in)))) (= (rem in) (drop (old (rem in)) (ite (= i 0) 36 (+ 36 (* {B} (- i 1))))))))
      (inv first (=> (= i 0) (<= (lenO{D} (len times)) (len (old (rem in)))) (= currentPosition (u32v (drop (old (rem in)) 24)))))
      (inv value (=> (<= 1 i) (<= (lenO{D} (len times)) (len (old (rem in))))
        (= (cat (take captures i) (unsteps{D} (rem in) (drop times i) currentPosition (u32v (old (rem in))) (u32v (drop (old (rem in)) 12)))) (valO{D} (old (rem in)) times))))))
)
; ---- what quantised positions decode to ----
(foreach (S O) ((octC-odec (measure n)) (octC-odec-real (real)))
 (lemma {S} ((vx F64) (cx F64) (ix F64) (vy F64) (cy F64) (iy F64) (vz F64) (cz F64) (iz F64) (n Int)) {O}
  (requires (<= 0 n))
  (ensures (= (odec (octC vx cx ix vy cy iy vz cz iz n) 1 cx ix) (osrch vx cx ix n)))
  (ensures (= (odec (octC vx cx ix vy cy iy vz cz iz n) 2 cy iy) (osrch vy cy iy n)))
  (ensures (= (odec (octC vx cx ix vy cy iy vz cz iz n) 0 cz iz) (osrch vz cz iz n)))
  (ensures (= (len (octC vx cx ix vy cy iy vz cz iz n)) n))
  (measure n)
  (hint (use {S} vx (step1 vx cx ix) (half ix) vy (step1 vy cy iy) (half iy) vz (step1 vz cz iz) (half iz) (- n 1)))))
(foreach (D N B) ((24 8 3) (48 16 6))
 (rec kept{D} ((cs (Seq format/collection/position.Capture)) (ts (Seq F64)) (i Int) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])
     (cur2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mn2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mx2 github.com/EliCDavis/vector/vector3.Vector[float64])) (Seq format/collection/position.Capture)
   (ite (<= (len cs) i) (empty (Seq format/collection/position.Capture))
     (cat (unit (mk format/collection/position.Capture (at ts 0) (land{D} (cells{D} (posI cs i) cur mn mx) cur2 mn2 mx2)))
       (kept{D} cs (drop ts 1) (+ i 1) (land{D} (cells{D} (posI cs i) cur mn mx) cur mn mx) mn mx (land{D} (cells{D} (posI cs i) cur mn mx) cur2 mn2 mx2) mn2 mx2))))
 (lemma cells{D}-ok ((p github.com/EliCDavis/vector/vector3.Vector[float64]) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64]))
   (ensures (and (= (len (cells{D} p cur mn mx)) {N}) (octCells (cells{D} p cur mn mx))))
   (ensures (= (len (pack{D} (cells{D} p cur mn mx))) {B}))
   (ensures (= (unpack{D} (pack{D} (cells{D} p cur mn mx))) (cells{D} p cur mn mx)))
   (hint (use octC-cells (fsub (. p x) (. cur x)) (omid (. mn x) (. mx x)) (oinc (. mn x) (. mx x))
       (fsub (. p y) (. cur y)) (omid (. mn y) (. mx y)) (oinc (. mn y) (. mx y))
       (fsub (. p z) (. cur z)) (omid (. mn z) (. mx z)) (oinc (. mn z) (. mx z)) {N})
     (unfold octOf (subV p cur) mn mx {N})
     (use rt-pack{D} (cells{D} p cur mn mx))))
 (lemma rt-steps{D} ((cs (Seq format/collection/position.Capture)) (ts (Seq F64)) (i Int) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])
     (cur2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mn2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mx2 github.com/EliCDavis/vector/vector3.Vector[float64]) (rest Bytes))
   (requires (<= 0 i (len cs))) (requires (= (len ts) (- (len cs) i)))
   (ensures (= (len (steps{D} cs i cur mn mx)) (* {B} (- (len cs) i))))
   (ensures (= (unsteps{D} (cat (steps{D} cs i cur mn mx) rest) ts cur2 mn2 mx2) (kept{D} cs ts i cur mn mx cur2 mn2 mx2)))
   (measure (- (len cs) i))
   (hint (use cells{D}-ok (posI cs i) cur mn mx)
     (unfold steps{D} cs i cur mn mx)
     (assert (=> (< i (len cs)) (= (take (cat (steps{D} cs i cur mn mx) rest) {B}) (pack{D} (cells{D} (posI cs i) cur mn mx)))))
     (assert (=> (< i (len cs)) (= (drop (cat (steps{D} cs i cur mn mx) rest) {B}) (cat (steps{D} cs (+ i 1) (land{D} (cells{D} (posI cs i) cur mn mx) cur mn mx) mn mx) rest))))
     (use rt-steps{D} cs (drop ts 1) (+ i 1) (land{D} (cells{D} (posI cs i) cur mn mx) cur mn mx) mn mx (land{D} (cells{D} (posI cs i) cur mn mx) cur2 mn2 mx2) mn2 mx2 rest)))
 ; what a collection decodes to: the stored 32-bit start, then the stored steps
 (def storedO{D} ((cs (Seq format/collection/position.Capture)) (ts (Seq F64))) (Seq format/collection/position.Capture)
   (cond ((= (len cs) 0) (empty (Seq format/collection/position.Capture)))
     ((= (len cs) 1) (unit (mk format/collection/position.Capture (at ts 0) (near32v (posI cs 0)))))
     (else (cat (unit (mk format/collection/position.Capture (at ts 0) (near32v (posI cs 0))))
       (kept{D} cs (drop ts 1) 1 (posI cs 0) (mnO cs (len cs)) (mxO cs (len cs)) (near32v (posI cs 0)) (near32v (mnO cs (len cs))) (near32v (mxO cs (len cs))))))))
 (macro whole{D} (cs rest) (cat (b32v (mnO cs (len cs))) (cat (b32v (mxO cs (len cs))) (cat (b32v (posI cs 0))
    (cat (steps{D} cs 1 (posI cs 0) (mnO cs (len cs)) (mxO cs (len cs))) rest)))))
 (lemma rt-O{D} ((cs (Seq format/collection/position.Capture)) (ts (Seq F64)) (rest Bytes))
   (requires (= (len ts) (len cs)))
   (ensures (= (len (encO{D} cs)) (lenO{D} (len cs))))
   (ensures (= (valO{D} (cat (encO{D} cs) rest) ts) (storedO{D} cs ts)))
   (hint (use rt-steps{D} cs (drop ts 1) 1 (posI cs 0) (mnO cs (len cs)) (mxO cs (len cs)) (near32v (posI cs 0)) (near32v (mnO cs (len cs))) (near32v (mxO cs (len cs))) rest)
     (unfold encO{D} cs)
     (assert (=> (< 1 (len cs)) (= (cat (encO{D} cs) rest) (whole{D} cs rest))))
     (unfold valO{D} (whole{D} cs rest) ts)
     (assert (=> (< 1 (len cs)) (= (valO{D} (whole{D} cs rest) ts) (storedO{D} cs ts))))))
)
; in exact arithmetic: how far the search ends from the value, and how much rounding the range moves it
(rec halvn ((i F64) (n Int)) F64 (ite (<= n 0) i (halvn (half i) (- n 1))) (fuel 18))
(lemma osrch-err ((v F64) (c F64) (i F64) (n Int)) (real)
  (requires (<= 0 n)) (requires (<= (real 0.0) (rv i)))
  (ensures (<= (rabs (- (rv v) (rv (osrch v c i n)))) (+ (* (real 2.0) (rv (halvn i n))) (rdist (rv v) (rv c) (rv i)))))
  (ensures (<= (real 0.0) (rv (halvn i n))))
  (measure n)
  (hint (use osrch-err v (step1 v c i) (half i) (- n 1))))
(lemma halvn-8 ((i F64)) (real) (ensures (= (* (real 256.0) (rv (halvn i 8))) (rv i))))
(lemma halvn-16 ((i F64)) (real) (ensures (= (* (real 65536.0) (rv (halvn i 16))) (rv i))))
(macro ostep (s p c i) (ite (= (bitP (at s 0) p) 0) (fadd c i) (fsub c i)))
(lemma odec-near ((s (Seq format/encoding/position.OctCell)) (p Int) (c F64) (i F64) (c2 F64) (i2 F64)) (real)
  (ensures (<= (rabs (- (rv (odec s p c i)) (rv (odec s p c2 i2)))) (+ (rabs (- (rv c) (rv c2))) (* (real 2.0) (rabs (- (rv i) (rv i2)))))))
  (measure (len s))
  (hint (use odec-near (drop s 1) p (ostep s p c i) (half i) (ostep s p c2 i2) (half i2))
    (unfold odec s p c i) (unfold odec s p c2 i2)
    (assert (<= (rabs (- (rv (fadd c i)) (rv (fadd c2 i2)))) (+ (rabs (- (rv c) (rv c2))) (rabs (- (rv i) (rv i2))))))
    (assert (<= (rabs (- (rv (fsub c i)) (rv (fsub c2 i2)))) (+ (rabs (- (rv c) (rv c2))) (rabs (- (rv i) (rv i2))))))
    (assert (= (* (real 2.0) (rabs (- (rv (half i)) (rv (half i2))))) (rabs (- (rv i) (rv i2)))))))
; ---- C06 for octree positions, in exact arithmetic, one axis at a time ----
(macro outside (d mn mx) (+ (rmax0 (- (rv mn) (rv d))) (rmax0 (- (rv d) (rv mx)))))
(foreach (D N A P DIV) ((24 8 x 1 512.0) (24 8 y 2 512.0) (24 8 z 0 512.0) (48 16 x 1 131072.0) (48 16 y 2 131072.0) (48 16 z 0 131072.0))
 ; one stored step: within the cell, further only by what lies outside the range
 (lemma step{D}{A}-err ((p github.com/EliCDavis/vector/vector3.Vector[float64]) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64])) (real)
   (requires (<= (rv (. mn {A})) (rv (. mx {A}))))
   (ensures (<= (rabs (- (rv (. p {A})) (rv (. (land{D} (cells{D} p cur mn mx) cur mn mx) {A}))))
      (+ (/ (- (rv (. mx {A})) (rv (. mn {A}))) (real {DIV})) (outside (fsub (. p {A}) (. cur {A})) (. mn {A}) (. mx {A})))))
   (hint (unfold cells{D} p cur mn mx) (unfold octOf (subV p cur) mn mx {N})
     (unfold land{D} (cells{D} p cur mn mx) cur mn mx) (unfold unoct (cells{D} p cur mn mx) mn mx)
     (use octC-odec-real (fsub (. p x) (. cur x)) (omid (. mn x) (. mx x)) (oinc (. mn x) (. mx x))
       (fsub (. p y) (. cur y)) (omid (. mn y) (. mx y)) (oinc (. mn y) (. mx y))
       (fsub (. p z) (. cur z)) (omid (. mn z) (. mx z)) (oinc (. mn z) (. mx z)) {N})
     (use osrch-err (fsub (. p {A}) (. cur {A})) (omid (. mn {A}) (. mx {A})) (oinc (. mn {A}) (. mx {A})) {N})
     (use halvn-{N} (oinc (. mn {A}) (. mx {A})))))
 ; rounding the stored range and start moves a step by no more than the range moved
 (lemma land{D}{A}-near ((c (Seq format/encoding/position.OctCell)) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64]) (cur2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mn2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mx2 github.com/EliCDavis/vector/vector3.Vector[float64])) (real)
   (ensures (<= (rabs (- (rv (. (land{D} c cur mn mx) {A})) (rv (. (land{D} c cur2 mn2 mx2) {A}))))
     (+ (rabs (- (rv (. cur {A})) (rv (. cur2 {A})))) (+ (rabs (- (rv (. mn {A})) (rv (. mn2 {A})))) (rabs (- (rv (. mx {A})) (rv (. mx2 {A}))))))))
   (hint (unfold land{D} c cur mn mx) (unfold land{D} c cur2 mn2 mx2) (unfold unoct c mn mx) (unfold unoct c mn2 mx2)
     (use odec-near c {P} (omid (. mn {A}) (. mx {A})) (oinc (. mn {A}) (. mx {A})) (omid (. mn2 {A}) (. mx2 {A})) (oinc (. mn2 {A}) (. mx2 {A})))))
 (rec within{D}{A} ((vals (Seq format/collection/position.Capture)) (cs (Seq format/collection/position.Capture)) (i Int) (bound Real) (step Real)) Bool
   (or (<= (len cs) i)
     (and (<= (rabs (- (rv (. (posI vals 0) {A})) (rv (. (posI cs i) {A})))) (+ bound step))
       (within{D}{A} (drop vals 1) cs (+ i 1) (+ bound step) step))))
 ; loaded positions: each at most one cell (and the rounding of the range) further off than the one before
 (lemma kept{D}{A}-near ((cs (Seq format/collection/position.Capture)) (ts (Seq F64)) (i Int) (cur github.com/EliCDavis/vector/vector3.Vector[float64]) (mn github.com/EliCDavis/vector/vector3.Vector[float64]) (mx github.com/EliCDavis/vector/vector3.Vector[float64]) (cur2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mn2 github.com/EliCDavis/vector/vector3.Vector[float64]) (mx2 github.com/EliCDavis/vector/vector3.Vector[float64]) (a Real) (b Real)) (real)
   (requires (<= 1 i (len cs)))
   (requires (<= (rv (. mn {A})) (rv (. mx {A}))))
   (requires (forall ((j Int) (h Int)) (:pat (at cs j) (at cs h)) (=> (= h (- j 1)) (<= 1 j) (< j (len cs))
      (<= (rv (. mn {A})) (- (rv (. (posI cs j) {A})) (rv (. (posI cs h) {A}))) (rv (. mx {A}))))))
   (requires (<= (rabs (- (rv (. cur {A})) (rv (. (posI cs (- i 1)) {A})))) a))
   (requires (<= (rabs (- (rv (. cur2 {A})) (rv (. cur {A})))) b))
   (ensures (within{D}{A} (kept{D} cs ts i cur mn mx cur2 mn2 mx2) cs i (+ a b)
      (+ (/ (- (rv (. mx {A})) (rv (. mn {A}))) (real {DIV})) (+ (rabs (- (rv (. mn {A})) (rv (. mn2 {A})))) (rabs (- (rv (. mx {A})) (rv (. mx2 {A}))))))))
   (measure (- (len cs) i))
   (hint (use step{D}{A}-err (posI cs i) cur mn mx)
     (use land{D}{A}-near (cells{D} (posI cs i) cur mn mx) cur mn mx cur2 mn2 mx2)
     (unfold kept{D} cs ts i cur mn mx cur2 mn2 mx2)
     (assert (=> (< i (len cs)) (= (posI (kept{D} cs ts i cur mn mx cur2 mn2 mx2) 0) (land{D} (cells{D} (posI cs i) cur mn mx) cur2 mn2 mx2))))
     (assert (=> (< i (len cs)) (= (drop (kept{D} cs ts i cur mn mx cur2 mn2 mx2) 1)
        (kept{D} cs (drop ts 1) (+ i 1) (land{D} (cells{D} (posI cs i) cur mn mx) cur mn mx) mn mx (land{D} (cells{D} (posI cs i) cur mn mx) cur2 mn2 mx2) mn2 mx2))))
     (use kept{D}{A}-near cs (drop ts 1) (+ i 1) (land{D} (cells{D} (posI cs i) cur mn mx) cur mn mx) mn mx (land{D} (cells{D} (posI cs i) cur mn mx) cur2 mn2 mx2) mn2 mx2
       (+ a (/ (- (rv (. mx {A})) (rv (. mn {A}))) (real {DIV}))) (+ b (+ (rabs (- (rv (. mn {A})) (rv (. mn2 {A})))) (rabs (- (rv (. mx {A})) (rv (. mx2 {A})))))))))
)
; the range the encoder stores covers every step
(foreach (A) ((x) (y) (z))
 (lemma mxO{A}-bounds ((cs (Seq format/collection/position.Capture)) (k Int) (j Int))
  (requires (<= 1 j)) (requires (< j k)) (requires (<= k (len cs)))
  (requires (forall ((j Int) (h Int)) (:pat (at cs j) (at cs h)) (=> (= h (- j 1)) (<= 1 j) (< j (len cs)) (isreal (fsub (. (posI cs j) {A}) (. (posI cs h) {A}))))))
  (ensures (isreal (mxO{A} cs k)))
  (ensures (fle (fsub (. (posI cs j) {A}) (. (posI cs (- j 1)) {A})) (mxO{A} cs k)))
  (measure k)
  (hint (unfold mxO{A} cs k) (unfold mxO{A} cs (- k 1)) (use mxO{A}-bounds cs (- k 1) j) (use mxO{A}-bounds cs (- k 1) (- k 2))))
 (lemma mnO{A}-bounds ((cs (Seq format/collection/position.Capture)) (k Int) (j Int))
  (requires (<= 1 j)) (requires (< j k)) (requires (<= k (len cs)))
  (requires (forall ((j Int) (h Int)) (:pat (at cs j) (at cs h)) (=> (= h (- j 1)) (<= 1 j) (< j (len cs)) (isreal (fsub (. (posI cs j) {A}) (. (posI cs h) {A}))))))
  (ensures (isreal (mnO{A} cs k)))
  (ensures (fle (mnO{A} cs k) (fsub (. (posI cs j) {A}) (. (posI cs (- j 1)) {A}))))
  (measure k)
  (hint (unfold mnO{A} cs k) (unfold mnO{A} cs (- k 1)) (use mnO{A}-bounds cs (- k 1) j) (use mnO{A}-bounds cs (- k 1) (- k 2)))))
