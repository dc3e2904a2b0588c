; observers of the format interfaces: getters without effects
(iface format.Capture (obs Time String))
(iface format.CaptureCollection (obs Name Captures Signature Start End Length CaptureAt)
  (impl format/collection/position.Collection format/collection/euler.Collection format/collection/float.Collection format/collection/enum.Collection format/collection/event.Collection))
(iface format.Recording (obs ID Name CaptureCollections Recordings Metadata Binaries BinaryReferences))
(iface format.Binary (obs Name Size Metadata))
(iface format.BinaryReference (obs Name URI Size Metadata))

(macro recsOf (r) (@format.Recording.Recordings r))
(macro collsOf (r) (@format.Recording.CaptureCollections r))
(macro lenC (c) (@format.CaptureCollection.Length c))
(macro capAt (c i) (@format.CaptureCollection.CaptureAt c i))
(macro timeAt (c i) (@format.Capture.Time (capAt c i)))

; a recording tree without nil parts
(def wfColl ((c If)) Bool
  (and (!= c nil) (<= 0 (lenC c))
       (forall ((i Int)) (:pat (@format.CaptureCollection.CaptureAt c i)) (=> (<= 0 i) (< i (lenC c)) (!= (@format.CaptureCollection.CaptureAt c i) nil)))))
(rec wfRec ((r If)) Bool
  (and (!= r nil)
       (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (wfRec (at (recsOf r) j))))
       (forall ((j Int)) (:pat (at (collsOf r) j)) (=> (<= 0 j) (< j (len (collsOf r))) (wfColl (at (collsOf r) j))))))

; ---- C17: chronological trees ----
; chron(c): no capture of c is earlier than the one before it
(def chron ((c If)) Bool
  (forall ((i Int) (h Int)) (:pat (capAt c i) (capAt c h))
    (=> (= h (- i 1)) (<= 1 i) (< i (lenC c)) (not (flt (timeAt c i) (timeAt c h))))))
; chronRec: every collection of every recording of the tree is chronological
(rec chronRec ((r If)) Bool
  (and (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (chronRec (at (recsOf r) j))))
       (forall ((j Int)) (:pat (at (collsOf r) j)) (=> (<= 0 j) (< j (len (collsOf r))) (chron (at (collsOf r) j))))))

; options applied in order
(rec foldV ((os (Seq Fn)) (k Int) (o format.validateOptions)) format.validateOptions
  (ite (<= k 0) o (apply (at os (- k 1)) (foldV os (- k 1) o))))
(macro vopt (os) (. (foldV os (len os) (mk format.validateOptions true)) requireChronologicalCapture))

(func format.Validate (params rec options) (results err)
  (requires (wfRec rec))
  (ensures exact (iff (= err nil) (or (not (vopt options)) (chronRec rec))))
  (loop 0 (vars (finalOpts format.validateOptions))
    (inv opts (= finalOpts (foldV options $k (mk format.validateOptions true)))))
  (loop 1
    (inv children (forall ((j Int)) (:pat (at (recsOf rec) j)) (=> (<= 0 j) (< j $k) (or (not (vopt options)) (chronRec (at (recsOf rec) j)))))))
  (loop 2
    (inv colls (forall ((j Int)) (:pat (at (collsOf rec) j)) (=> (<= 0 j) (< j $k) (chron (at (collsOf rec) j))))))
  (loop 3 (vars (i int) (col format.CaptureCollection))
    (inv pairs (and (<= 1 i) (forall ((j Int) (h Int)) (:pat (capAt col j) (capAt col h))
       (=> (= h (- j 1)) (<= 1 j) (< j i) (< j (lenC col)) (not (flt (timeAt col j) (timeAt col h))))))))
)
(property C17 (roots format.Validate))

; ---- C18: start and end ----
(macro minF (a b) (ite (flt b a) b a))
(macro maxF (a b) (ite (flt a b) b a))
; smallest/largest time among the first k captures of c
(rec minCap ((c If) (k Int)) F64 (ite (<= k 0) inf (minF (minCap c (- k 1)) (timeAt c (- k 1)))))
(rec maxCap ((c If) (k Int)) F64 (ite (<= k 0) -inf (maxF (maxCap c (- k 1)) (timeAt c (- k 1)))))
; ... over the first k collections and the first k children of a recording
(rec minColls ((cs (Seq If)) (k Int)) F64
  (ite (<= k 0) inf (minF (minColls cs (- k 1)) (minCap (at cs (- k 1)) (lenC (at cs (- k 1)))))))
(rec maxColls ((cs (Seq If)) (k Int)) F64
  (ite (<= k 0) -inf (maxF (maxColls cs (- k 1)) (maxCap (at cs (- k 1)) (lenC (at cs (- k 1)))))))
(rec minRecs ((rs (Seq If)) (k Int)) F64
  (ite (<= k 0) inf (minF (minRecs rs (- k 1)) (treeMin (at rs (- k 1))))))
(rec maxRecs ((rs (Seq If)) (k Int)) F64
  (ite (<= k 0) -inf (maxF (maxRecs rs (- k 1)) (treeMax (at rs (- k 1))))))
; smallest/largest capture time over the whole tree
(rec treeMin ((r If)) F64 (minF (minRecs (recsOf r) (len (recsOf r))) (minColls (collsOf r) (len (collsOf r)))))
(rec treeMax ((r If)) F64 (maxF (maxRecs (recsOf r) (len (recsOf r))) (maxColls (collsOf r) (len (collsOf r)))))

; no NaN among the capture times
(def realColl ((c If)) Bool
  (forall ((i Int)) (:pat (capAt c i)) (=> (<= 0 i) (< i (lenC c)) (isreal (timeAt c i)))))
(rec realRec ((r If)) Bool
  (and (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (realRec (at (recsOf r) j))))
       (forall ((j Int)) (:pat (at (collsOf r) j)) (=> (<= 0 j) (< j (len (collsOf r))) (realColl (at (collsOf r) j))))))
(macro isreal (t) (feq t t))

(lemma minCap-sorted ((c If) (k Int))
  (requires (<= 1 k)) (requires (<= k (lenC c))) (requires (chron c)) (requires (realColl c))
  (ensures (feq (minCap c k) (timeAt c 0)))
  (ensures (fle (timeAt c 0) (timeAt c (- k 1))))
  (measure k)
  (hint (use minCap-sorted c (- k 1)) (unfold minCap c k) (unfold minCap c (- k 1))))
(lemma maxCap-sorted ((c If) (k Int))
  (requires (<= 1 k)) (requires (<= k (lenC c))) (requires (chron c)) (requires (realColl c))
  (ensures (feq (maxCap c k) (timeAt c (- k 1))))
  (measure k)
  (hint (use maxCap-sorted c (- k 1)) (unfold maxCap c k) (unfold maxCap c (- k 1))))

(func format.RecordingStart (params rec) (results m)
  (requires (wfRec rec)) (requires (chronRec rec)) (requires (realRec rec))
  (ensures start (feq m (treeMin rec)))
  (loop 0 (vars (min float64))
    (inv children (feq min (minRecs (recsOf rec) $k))))
  (loop 1 (vars (min float64))
    (hint-body (use minCap-sorted (at (collsOf rec) $k) (lenC (at (collsOf rec) $k))))
    (inv noNaN (isreal (minColls (collsOf rec) $k)))
    (inv colls (feq min (minF (minRecs (recsOf rec) (len (recsOf rec))) (minColls (collsOf rec) $k))))))
(func format.RecordingEnd (params rec) (results m)
  (requires (wfRec rec)) (requires (chronRec rec)) (requires (realRec rec))
  (ensures end (feq m (treeMax rec)))
  (loop 0 (vars (max float64))
    (inv children (feq max (maxRecs (recsOf rec) $k))))
  (loop 1 (vars (max float64))
    (hint-body (use maxCap-sorted (at (collsOf rec) $k) (lenC (at (collsOf rec) $k))))
    (inv noNaN (isreal (maxColls (collsOf rec) $k)))
    (inv colls (feq max (maxF (maxRecs (recsOf rec) (len (recsOf rec))) (maxColls (collsOf rec) $k))))))
(func format.RecordingDuration (params rec) (results d)
  (requires (wfRec rec)) (requires (chronRec rec)) (requires (realRec rec))
  (ensures difference (exists ((a F64) (b F64)) (and (feq a (treeMin rec)) (feq b (treeMax rec)) (= d (fsub b a))))))
(property C18 (roots format.RecordingStart format.RecordingEnd format.RecordingDuration))

; ---- C16: slicing ----
(macro inWin (t b e) (and (fle b t) (flt t e)))
; the captures of c with beginning <= time < end among the first k, in order
(rec window ((c If) (b F64) (e F64) (k Int)) (Seq If)
  (ite (<= k 0) (empty (Seq If))
    (ite (inWin (timeAt c (- k 1)) b e) (cat (window c b e (- k 1)) (unit (capAt c (- k 1)))) (window c b e (- k 1)))))
(def slicedColl ((c If) (r If) (b F64) (e F64)) Bool
  (and (!= r nil)
       (= (@format.CaptureCollection.Name r) (@format.CaptureCollection.Name c))
       (= (@format.CaptureCollection.Signature r) (@format.CaptureCollection.Signature c))
       (= (lenC r) (len (window c b e (lenC c))))
       (forall ((i Int)) (:pat (capAt r i)) (:pat (at (window c b e (lenC c)) i)) (=> (<= 0 i) (< i (lenC r)) (= (capAt r i) (at (window c b e (lenC c)) i))))))
(imethod format.CaptureCollection.Slice (params c b e) (results r)
  (ensures window (slicedColl c r b e)))
(macro noMembers (c r) true)
(macro sameMembers (c r) (= (. (unbox format/collection/enum.Collection r) enumMembers) (. c enumMembers)))
(foreach (P EXTRA) ((position noMembers) (euler noMembers) (float noMembers) (event noMembers) (enum sameMembers))
 (func format/collection/{P}.Collection.Slice (params c b e) (results r)
  (ensures window (slicedColl (box format/collection/{P}.Collection c) r b e))
  (ensures kind (is format/collection/{P}.Collection r))
  (ensures members ({EXTRA} c r))
  (loop 0 (vars (slicedCaptures []format/collection/{P}.Capture))
    (inv count (= (len slicedCaptures) (len (window (box format/collection/{P}.Collection c) b e $k))))
    (inv each (forall ((i Int)) (:pat (at slicedCaptures i)) (:pat (at (window (box format/collection/{P}.Collection c) b e $k) i)) (=> (<= 0 i) (< i (len slicedCaptures)) (= (box format/collection/{P}.Capture (at slicedCaptures i)) (at (window (box format/collection/{P}.Collection c) b e $k) i))))))))
(imethod format.CaptureCollection.Captures (params c) (results r)
  (ensures count (= (len r) (lenC c)))
  (ensures each (forall ((i Int)) (:pat (at r i)) (:pat (capAt c i)) (=> (<= 0 i) (< i (len r)) (= (at r i) (capAt c i))))))
(foreach (P) ((position) (euler) (float) (enum) (event))
 (func format/collection/{P}.Collection.Captures (params c) (results r)
  (ensures count (= (len r) (len (. c captures))))
  (ensures each (forall ((i Int)) (:pat (at r i)) (=> (<= 0 i) (< i (len r)) (= (at r i) (box format/collection/{P}.Capture (at (. c captures) i))))))
  (loop 0 (vars (returnVal []format.Capture))
    (inv size (= (len returnVal) (lenC (box format/collection/{P}.Collection c))))
    (inv each (forall ((i Int)) (:pat (at returnVal i)) (=> (<= 0 i) (< i $k) (= (at returnVal i) (capAt (box format/collection/{P}.Collection c) i))))))))

(rec foldS ((os (Seq Fn)) (k Int) (o format.sliceOptions)) format.sliceOptions
  (ite (<= k 0) o (apply (at os (- k 1)) (foldS os (- k 1) o))))
(macro sliceDefaults () (mk format.sliceOptions -inf inf true))
(macro sopt (os) (foldS os (len os) sliceDefaults))
; r is the slice of recording s for the options o
(rec slicedRec ((s If) (r If) (o format.sliceOptions)) Bool
  (and (!= r nil)
       (= (@format.Recording.ID r) (@format.Recording.ID s))
       (= (@format.Recording.Name r) (@format.Recording.Name s))
       (= (@format.Recording.Metadata r) (@format.Recording.Metadata s))
       (= (@format.Recording.BinaryReferences r) (@format.Recording.BinaryReferences s))
       (ite (. o keepBinaries) (= (@format.Recording.Binaries r) (@format.Recording.Binaries s)) (= (len (@format.Recording.Binaries r)) 0))
       (= (len (recsOf r)) (len (recsOf s)))
       (forall ((j Int)) (:pat (at (recsOf r) j)) (=> (<= 0 j) (< j (len (recsOf r))) (slicedRec (at (recsOf s) j) (at (recsOf r) j) o)))
       (= (len (collsOf r)) (len (collsOf s)))
       (forall ((j Int)) (:pat (at (collsOf r) j)) (=> (<= 0 j) (< j (len (collsOf r))) (slicedColl (at (collsOf s) j) (at (collsOf r) j) (. o beginning) (. o end))))))
(func format.Slice (params rec options) (results r)
  (requires (wfRec rec))
  (ensures sliced (slicedRec rec r (sopt options)))
  (loop 0 (vars (finalOpts format.sliceOptions))
    (inv opts (= finalOpts (foldS options $k sliceDefaults))))
  (loop 1 (vars (allChildRec []format.Recording))
    (inv size (= (len allChildRec) (len (recsOf rec))))
    (inv each (forall ((j Int)) (:pat (at allChildRec j)) (=> (<= 0 j) (< j $k) (slicedRec (at (recsOf rec) j) (at allChildRec j) (sopt options))))))
  (loop 2 (vars (allCollections []format.CaptureCollection))
    (inv size (= (len allCollections) (len (collsOf rec))))
    (inv each (forall ((j Int)) (:pat (at allCollections j)) (=> (<= 0 j) (< j $k) (slicedColl (at (collsOf rec) j) (at allCollections j) (. (sopt options) beginning) (. (sopt options) end)))))))
(property C16 (roots format.Slice format/collection/enum.Collection.Slice format.CaptureCollection.Captures))
