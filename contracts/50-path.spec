; The search --------------------------------------------------------------------
; C01, C06: the paths reported by the search for the steps from ix on, at the
; end of p, after the paths t
(defrec EvalAt ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg)) Q_Q_Seg
  (cond ((>= ix (len S)) (snoc t p))
        ((not (Match (at S ix) d p)) t)
        ((at R ix) (Desc d S R t (+ ix 1) p (NKids d (here p))))
        ((>= (+ ix 1) (len S)) (snoc t p))
        ((Down (at S (+ ix 1)) d p) (KidsD d S R t (+ ix 1) p 0))
        (Kids d S R t (+ ix 1) p (NKids d (here p)))))
; for the first j children
(defrec Kids ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg) (j Int)) Q_Q_Seg
  (ite (<= j 0) t (EvalAt d S R (Kids d S R t ix p (- j 1)) ix (snoc p (Kid d (here p) (- j 1))))))
; for the children from the last one to child j
(defrec KidsD ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg) (j Int)) Q_Q_Seg
  (ite (>= j (NKids d (here p))) t (EvalAt d S R (KidsD d S R t ix p (+ j 1)) ix (snoc p (Kid d (here p) j)))))
; for the first j children, each followed by its descendants
(defrec Desc ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg) (j Int)) Q_Q_Seg
  (ite (<= j 0) t
    (let ((c (snoc p (Kid d (here p) (- j 1)))))
      (Desc d S R (EvalAt d S R (Desc d S R t ix p (- j 1)) ix c) ix c (NKids d (here c))))))
; for a list of children
(defrec Fold ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg) (l LSeg)) Q_Q_Seg
  (ite (is LNil l) t (Fold d S R (EvalAt d S R t ix (snoc p (l_hd l))) ix p (l_tl l))))
(lemma fold-ml ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg) (j Int))
  (induct (- (NKids d (here p)) j)) (hyp d S R t ix p (+ j 1))
  (pat (Fold d S R (Kids d S R t ix p j) ix p (ML d (at S ix) p j)))
  (body (=> (<= 0 j) (<= j (NKids d (here p))) (<= 0 ix) (< ix (len S))
    (= (Fold d S R (Kids d S R t ix p j) ix p (ML d (at S ix) p j)) (Kids d S R t ix p (NKids d (here p)))))))
(lemma fold-ml0 ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg))
  (pat (Fold d S R t ix p (ML d (at S ix) p 0)))
  (body (=> (<= 0 ix) (< ix (len S))
    (and (= (Kids d S R t ix p 0) t) (= (Fold d S R t ix p (ML d (at S ix) p 0)) (Kids d S R t ix p (NKids d (here p))))))))
(lemma fold-mld ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg) (j Int))
  (induct j) (hyp d S R t ix p (- j 1))
  (pat (Fold d S R (KidsD d S R t ix p j) ix p (MLD d (at S ix) p j)))
  (body (=> (<= 0 j) (<= j (NKids d (here p))) (<= 0 ix) (< ix (len S))
    (= (Fold d S R (KidsD d S R t ix p j) ix p (MLD d (at S ix) p j)) (KidsD d S R t ix p 0)))))
(lemma fold-mld0 ((d Doc) (S Q_Sel) (R Q_Bool) (t Q_Q_Seg) (ix Int) (p Q_Seg) (n Int))
  (pat (Fold d S R t ix p (MLD d (at S ix) p n)))
  (body (=> (<= 0 ix) (< ix (len S)) (= n (NKids d (here p)))
    (and (= (KidsD d S R t ix p n) t) (= (Fold d S R t ix p (MLD d (at S ix) p n)) (KidsD d S R t ix p 0))))))
; C02: all the paths are paths from the root
(fun AllPaths (Doc Q_Q_Seg) Bool) (fun path_wit (Doc Q_Q_Seg) Int)
(axiom all-paths (forall ((d Doc) (c Q_Q_Seg) (i Int)) (=> (AllPaths d c) (<= 0 i) (< i (len c)) (WFP d (at c i))) (pat (AllPaths d c) (at c i))))
(axiom all-paths-def (forall ((d Doc) (c Q_Q_Seg)) (or (AllPaths d c) (and (<= 0 (path_wit d c)) (< (path_wit d c) (len c)) (not (WFP d (at c (path_wit d c)))))) (pat (AllPaths d c))))
(template paths ((t Q_Q_Seg mod) (d Doc)) (=> (AllPaths d t0) (AllPaths d t)))

(template fold ((t Q_Q_Seg mod) (l LSeg mod) (d Doc) (S Q_Sel const) (R Q_Bool const) (ix Int constp) (p Q_Seg const))
  (= (Fold d S R t ix p l) (Fold d S R t0 ix p l0)))
(template foldk ((l LSeg mod) (d Doc) (p Q_Seg const)) (LKids d (here p) l))
(template kids ((t Q_Q_Seg mod) (d Doc) (S Q_Sel const) (R Q_Bool const) (ix Int constp) (p Q_Seg const) (k Int modp))
  (= t (Kids d S R t0 ix p k)))
(template desc ((t Q_Q_Seg mod) (d Doc) (S Q_Sel const) (R Q_Bool const) (ix Int constp) (p Q_Seg const) (k Int modp))
  (= t (Desc d S R t0 ix p k)))

(contract evaluateAt (ctx path pathIx capture)
  (measure (SelsSize (. path selectors) pathIx) (DSize (. ctx doc) (here (. ctx path P))) 1)
  (results err)
  (requires (<= 0 pathIx) (WFPath (. path selectors) (. path recursive)) (!= (. ctx doc) nil_Doc) (WFP (. ctx doc) (. ctx path P)))
  (modifies (ctx path)) (clobbers (. ctx path P)) (ghost T) (callback capture internal)
  (ensures (= (. ctx path P) (old (. ctx path P))) (= err nil_Err)
    (= T (EvalAt (. ctx doc) (. path selectors) (. path recursive) (old T) pathIx (. ctx path P)))
    (=> (AllPaths (. ctx doc) (old T)) (AllPaths (. ctx doc) T))))
(role descend (ctx path ix capture)
  (measure (SelsSize (. path selectors) ix) (DSize (. ctx doc) (here (. ctx path P))) 0)
  (results err)
  (requires (<= 0 ix) (< ix (len (. path selectors))) (WFPath (. path selectors) (. path recursive)) (!= (. ctx doc) nil_Doc) (WFP (. ctx doc) (. ctx path P)))
  (modifies (ctx path)) (clobbers (. ctx path P)) (ghost T) (callback capture internal)
  (ensures (= (. ctx path P) (old (. ctx path P))) (= err nil_Err)
    (= T (Desc (. ctx doc) (. path selectors) (. path recursive) (old T) (+ ix 1) (. ctx path P) (NKids (. ctx doc) (here (. ctx path P)))))
    (=> (AllPaths (. ctx doc) (old T)) (AllPaths (. ctx doc) T))))
