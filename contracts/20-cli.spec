; ---- C23: summaries ----
(macro isPos (c) (is format/collection/position.Collection c))
(macro isEul (c) (is format/collection/euler.Collection c))
(macro isEvt (c) (is format/collection/event.Collection c))
(macro isEnm (c) (is format/collection/enum.Collection c))
(macro isOther (c) (not (or (isPos c) (isEul c) (isEvt c) (isEnm c))))
(foreach (N P) ((Pos isPos) (Eul isEul) (Evt isEvt) (Enm isEnm) (Oth isOther))
  ; captures of one kind in the first k collections, in the first k children, in the whole tree
  (rec colls{N} ((cs (Seq If)) (k Int)) Int
    (ite (<= k 0) 0 (+ (colls{N} cs (- k 1)) (ite ({P} (at cs (- k 1))) (lenC (at cs (- k 1))) 0))))
  (rec recs{N} ((rs (Seq If)) (k Int)) Int
    (ite (<= k 0) 0 (+ (recs{N} rs (- k 1)) (tree{N} (at rs (- k 1))))))
  (rec tree{N} ((r If)) Int (+ (colls{N} (collsOf r) (len (collsOf r))) (recs{N} (recsOf r) (len (recsOf r))))))
(def countsUp ((s cmd/rap-cli.summary) (a Int) (b Int) (c Int) (d Int) (e Int)) Bool
  (and (= (. s positionCaptureCount) a) (= (. s eulerCaptureCount) b) (= (. s eventCaptureCount) c) (= (. s enumCaptureCount) d) (= (. s otherCaptureCount) e)))

(func cmd/rap-cli.summarize (params recording) (results s)
  (requires (wfRec recording))
  (ensures counts (countsUp s (treePos recording) (treeEul recording) (treeEvt recording) (treeEnm recording) (treeOth recording)))
  (loop 0 (vars (curSummary cmd/rap-cli.summary))
    (inv colls (let ((cs (collsOf recording))) (countsUp curSummary (collsPos cs $k) (collsEul cs $k) (collsEvt cs $k) (collsEnm cs $k) (collsOth cs $k)))))
  (loop 1 (vars (curSummary cmd/rap-cli.summary))
    (inv recs (let ((cs (collsOf recording)) (n (len (collsOf recording))) (rs (recsOf recording)))
      (countsUp curSummary (+ (collsPos cs n) (recsPos rs $k)) (+ (collsEul cs n) (recsEul rs $k)) (+ (collsEvt cs n) (recsEvt rs $k)) (+ (collsEnm cs n) (recsEnm rs $k)) (+ (collsOth cs n) (recsOth rs $k)))))))
; the five counts add up to the number of captures of the tree
(rec collsAll ((cs (Seq If)) (k Int)) Int (ite (<= k 0) 0 (+ (collsAll cs (- k 1)) (lenC (at cs (- k 1))))))
(lemma colls-add-up ((cs (Seq If)) (k Int))
  (requires (<= 0 k))
  (ensures (= (collsAll cs k) (+ (collsPos cs k) (collsEul cs k) (collsEvt cs k) (collsEnm cs k) (collsOth cs k))))
  (measure k)
  (hint (use colls-add-up cs (- k 1))))
(rec recsAll ((rs (Seq If)) (k Int)) Int
    (ite (<= k 0) 0 (+ (recsAll rs (- k 1)) (treeAll (at rs (- k 1))))))
(rec treeAll ((r If)) Int (+ (collsAll (collsOf r) (len (collsOf r))) (recsAll (recsOf r) (len (recsOf r)))))
(property C23 (roots cmd/rap-cli.summarize) (lemmas colls-add-up))
