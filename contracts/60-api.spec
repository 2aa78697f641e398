; Searches ----------------------------------------------------------------------
; C01, C02: the paths of the matches of a path, depth first
(define Matches ((d Doc) (S Q_Sel) (R Q_Bool)) Q_Q_Seg
  (ite (= (len S) 0) (empty Q_Seg) (EvalAt d S R (empty Q_Seg) 0 (snoc (empty Seg) (RootSeg d)))))
(template cbcat ((h Q_Q_Seg mod) (c Q_Q_Seg const) (k Int modp)) (= h (cat h0 (sub c 0 k))))

(lemma allpaths-empty ((d Doc) (c Q_Q_Seg)) (pat (AllPaths d c)) (body (=> (= (len c) 0) (AllPaths d c))))
(contract Search (doc path capture)
  (results err)
  (requires (!= doc nil_Doc) (WFPath (. path selectors) (. path recursive)))
  (modifies) (ghost U) (callback capture escaping)
  (ensures (= err nil_Err)
    (= U (cat (old U) (Matches doc (. path selectors) (. path recursive))))
    (AllPaths doc (Matches doc (. path selectors) (. path recursive)))))
(contract Find (doc path)
  (results v err)
  (requires (!= doc nil_Doc) (WFPath (. path selectors) (. path recursive)))
  (modifies)
  (ensures (= err nil_Err)
    (let ((m (Matches doc (. path selectors) (. path recursive)))) (= v (LastsN m (len m))))))
