; Steps of a path --------------------------------------------------------------
; C03-C07: does a step match the node at the end of path p
(fun Match (Sel Doc Q_Seg) Bool)
; are the children selected by the step visited in descending order
(fun Down (Sel Doc Q_Seg) Bool)
(define up ((p Q_Seg)) Q_Seg (sub p 0 (- (len p) 1)))
(define ptype ((p Q_Seg)) Int (ite (< (len p) 2) 0 (seg_typ (at p (- (len p) 2)))))
(define pnode ((p Q_Seg)) Any (seg_node (at p (- (len p) 2))))
(axiom atoi-empty (forall ((s Str)) (=> (= (slen s) 0) (not (atoi_ok s))) (pat (slen s) (atoi_ok s))))

; an index counts from the end if it is negative
(define ElemIdx ((i Int) (n Int)) Int (ite (< i 0) (+ i n) i))
(define NormIdx ((i Int) (n Int)) Int (cond ((<= 0 i) i) ((<= (- n) i) (+ i n)) 0))
; integers for steps
(define KeyOK ((key Str) (x Expr) (d Doc) (q Q_Seg)) Bool
  (or (atoi_ok key)
      (and (!= (tag_Expr x) 0) (not (EvalErr x d q))
           (or (is AInt (EvalV x d q)) (and (is AStr (EvalV x d q)) (atoi_ok (a_s (EvalV x d q))))))))
(define KeyInt ((key Str) (x Expr) (d Doc) (q Q_Seg)) Int
  (cond ((atoi_ok key) (atoi key)) ((is AInt (EvalV x d q)) (a_i (EvalV x d q))) (atoi (a_s (EvalV x d q)))))
(define NumOK ((x Expr) (d Doc) (q Q_Seg)) Bool (and (not (EvalErr x d q)) (isNum (EvalV x d q))))
(define NumInt ((x Expr) (d Doc) (q Q_Seg)) Int (intOf (NumOf (EvalV x d q))))
(define BoundOK ((x Expr) (d Doc) (q Q_Seg)) Bool (or (= (tag_Expr x) 0) (NumOK x d q)))
(define Bound ((x Expr) (d Doc) (q Q_Seg) (n Int) (dflt Int)) Int (ite (= (tag_Expr x) 0) dflt (NormIdx (NumInt x d q) n)))
(defopaque Divs ((m Int) (x Int)) Bool (= (mod x m) 0))
; is element i of n selected by [s:e:st]
(define Sliced ((s Int) (e Int) (st Int) (n Int) (i Int)) Bool
  (or (and (< 0 st) (<= s i) (< i e) (Divs st (- i s)))
      (and (< st 0) (< s n) (<= i s) (< e i) (Divs (- st) (- s i)))))

(case WFS rootElementSelector () true)
(case Match rootElementSelector (d p) (= (len p) 1))
(case Down rootElementSelector (d p) false)
(case WFS currentElementSelector () true)
(case Match currentElementSelector (d p) true)
(case Down currentElementSelector (d p) false)
(case WFS wildcardSelector () true)
(case Match wildcardSelector (d p) true)
(case Down wildcardSelector (d p) false)
(defrec AnyMatchN ((q Q_Sel) (k Int) (d Doc) (p Q_Seg)) Bool
  (ite (<= k 0) false (or (AnyMatchN q (- k 1) d p) (Match (at q (- k 1)) d p))))
(lemma any-match ((q Q_Sel) (k Int) (d Doc) (p Q_Seg) (i Int)) (pat (AnyMatchN q k d p) (Match (at q i) d p)) (induct k) (hyp q (- k 1) d p i)
  (body (=> (<= 0 i) (< i k) (Match (at q i) d p) (AnyMatchN q k d p))))
(case WFS unionSelector () (AllWFS parts (len parts)))
(case Match unionSelector (d p) (AnyMatchN parts (len parts) d p))
(case Down unionSelector (d p) false)
(case WFS keySelector () (optWFX expr))
(case Match keySelector (d p)
  (cond ((= (ptype p) 1) (= (seg_name (last p)) key))
        ((= (ptype p) 2) (and (KeyOK key expr d (up p)) (= (seg_idx (last p)) (ElemIdx (KeyInt key expr d (up p)) (d_len d (pnode p))))))
        false))
(case Down keySelector (d p) false)
(case WFS filterSelector () (WFX filter))
(case Match filterSelector (d p) (and (not (EvalErr filter d p)) (truthy (EvalV filter d p))))
(case Down filterSelector (d p) false)
(case WFS indexSelector () (WFX index))
(case Match indexSelector (d p)
  (and (= (ptype p) 2) (NumOK index d (up p)) (= (seg_idx (last p)) (ElemIdx (NumInt index d (up p)) (d_len d (pnode p))))))
(case Down indexSelector (d p) false)
(case WFS rangeSelector () (and (optWFX start) (optWFX end)))
(case Match rangeSelector (d p)
  (and (= (ptype p) 2) (BoundOK start d (up p)) (BoundOK end d (up p))
       (Sliced (Bound start d (up p) (d_len d (pnode p)) 0) (Bound end d (up p) (d_len d (pnode p)) (d_len d (pnode p))) 1 (d_len d (pnode p)) (seg_idx (last p)))))
(case Down rangeSelector (d p) false)
(case WFS sliceSelector () (and (optWFX start) (optWFX end) (WFX step)))
(case Match sliceSelector (d p)
  (and (= (ptype p) 2) (BoundOK start d (up p)) (BoundOK end d (up p)) (NumOK step d (up p))
       (Sliced (Bound start d (up p) (d_len d (pnode p)) 0) (Bound end d (up p) (d_len d (pnode p)) (d_len d (pnode p)))
               (NumInt step d (up p)) (d_len d (pnode p)) (seg_idx (last p)))))
(case Down sliceSelector (d p)
  (and (= (d_type d (here p)) 2) (BoundOK start d p) (BoundOK end d p) (NumOK step d p) (< (NumInt step d p) 0)))

; Children selected by a step ---------------------------------------------------
(defrec ML ((d Doc) (s Sel) (p Q_Seg) (j Int)) LSeg ; from j on
  (cond ((>= j (NKids d (here p))) LNil)
        ((Match s d (snoc p (Kid d (here p) j))) (LCons (Kid d (here p) j) (ML d s p (+ j 1))))
        (ML d s p (+ j 1))))
(defrec MLD ((d Doc) (s Sel) (p Q_Seg) (j Int)) LSeg ; below j, descending
  (cond ((<= j 0) LNil)
        ((Match s d (snoc p (Kid d (here p) (- j 1)))) (LCons (Kid d (here p) (- j 1)) (MLD d s p (- j 1))))
        (MLD d s p (- j 1))))
(define Selected ((d Doc) (s Sel) (p Q_Seg)) LSeg (ite (Down s d p) (MLD d s p (NKids d (here p))) (ML d s p 0)))
(defrec LKids ((d Doc) (n Any) (l LSeg)) Bool
  (ite (is LNil l) true (and (IsKid d n (l_hd l)) (LKids d n (l_tl l)))))
(lemma nkids ((d Doc) (n Any)) (pat (NKids d n)) (body (<= 0 (NKids d n))) (nouse))
(lemma ml-kids ((d Doc) (s Sel) (p Q_Seg) (j Int)) (pat (ML d s p j)) (induct (- (NKids d (here p)) j)) (hyp d s p (+ j 1))
  (body (=> (<= 0 j) (LKids d (here p) (ML d s p j)))))
(lemma mld-kids ((d Doc) (s Sel) (p Q_Seg) (j Int)) (pat (MLD d s p j)) (induct j) (hyp d s p (- j 1))
  (body (=> (<= j (NKids d (here p))) (LKids d (here p) (MLD d s p j)))))

; the elements i, i+st, ... before e
(defrec RL ((d Doc) (n Any) (i Int) (e Int) (st Int)) LSeg
  (ite (ite (< 0 st) (< i e) (< e i)) (LCons (Kid d n i) (RL d n (+ i st) e st)) LNil))
(lemma divs-0 ((m Int) (x Int)) (pat (Divs m x)) (reveal Divs) (body (=> (< 0 m) (= x 0) (Divs m x))))
(lemma divs-1 ((x Int)) (pat (Divs 1 x)) (reveal Divs) (body (Divs 1 x)))
(lemma divs-step ((m Int) (x Int) (y Int)) (pat (Divs m x) (Divs m y)) (reveal Divs) (body (=> (< 0 m) (= y (+ x m)) (= (Divs m x) (Divs m y)))))
(lemma divs-between ((m Int) (x Int) (y Int)) (pat (Divs m x) (Divs m y)) (reveal Divs) (body (=> (< 0 m) (Divs m x) (< x y) (< y (+ x m)) (not (Divs m y)))))
(lemma wfp-last ((d Doc) (p Q_Seg)) (pat (WFP d p)) (split (= (len p) 1))
  (body (=> (WFP d p) (= (seg_typ (last p)) (d_type d (here p))))))
(lemma wfp-kid ((d Doc) (p Q_Seg) (s Seg)) (pat (WFP d (snoc p s)))
  (body (=> (WFP d p) (IsKid d (here p) s) (WFP d (snoc p s)))))
; key steps
(lemma ml-key-value ((d Doc) (k Str) (x Expr) (p Q_Seg) (j Int)) (pat (ML d (mk keySelector k x) p j))
  (body (=> (<= 0 j) (!= (d_type d (here p)) 1) (!= (d_type d (here p)) 2) (= (ML d (mk keySelector k x) p j) LNil))))
(lemma ml-key-object ((d Doc) (k Str) (x Expr) (p Q_Seg) (j Int)) (pat (ML d (mk keySelector k x) p j))
  (induct (- (NKids d (here p)) j)) (hyp d k x p (+ j 1))
  (body (=> (<= 0 j) (WFP d p) (= (d_type d (here p)) 1)
    (= (ML d (mk keySelector k x) p j)
       (ite (and (d_has d (here p) k) (<= j (key_pos d (here p) k))) (LCons (Kid d (here p) (key_pos d (here p) k)) LNil) LNil)))))
(define OneIdx ((d Doc) (n Any) (i Int) (j Int)) LSeg
  (ite (and (<= j (ElemIdx i (d_len d n))) (< (ElemIdx i (d_len d n)) (d_len d n))) (LCons (Kid d n (ElemIdx i (d_len d n))) LNil) LNil))
(lemma ml-key-array ((d Doc) (k Str) (x Expr) (p Q_Seg) (j Int)) (pat (ML d (mk keySelector k x) p j))
  (induct (- (NKids d (here p)) j)) (hyp d k x p (+ j 1))
  (body (=> (<= 0 j) (WFP d p) (= (d_type d (here p)) 2)
    (= (ML d (mk keySelector k x) p j) (ite (KeyOK k x d p) (OneIdx d (here p) (KeyInt k x d p) j) LNil)))))
; index steps
(lemma ml-index ((d Doc) (x Expr) (p Q_Seg) (j Int)) (pat (ML d (mk indexSelector x) p j))
  (induct (- (NKids d (here p)) j)) (hyp d x p (+ j 1))
  (body (=> (<= 0 j) (WFP d p)
    (= (ML d (mk indexSelector x) p j) (ite (and (= (d_type d (here p)) 2) (NumOK x d p)) (OneIdx d (here p) (NumInt x d p) j) LNil)))))
(view emptyIterator rem LNil)
(view emptyIterator cur (Seg_ ANil 0 "" 0))
(view emptyIterator ok false)
(view singleIterator rem (ite done LNil (LCons seg LNil)))
(view singleIterator cur seg)
(view singleIterator ok done)
(view rangeIterator rem (cond ((= state 0) (RL doc node from to step)) ((= state 1) (RL doc node (+ at step) to step)) LNil))
(view rangeIterator cur (Kid doc node at))
(view rangeIterator ok (= state 1))
(classinv rangeIterator
  (and (!= doc nil_Doc) (= (d_type doc node) 2) (!= step 0) (<= 0 from) (<= -1 to)
       (=> (< 0 step) (<= to (d_len doc node))) (=> (< step 0) (< from (d_len doc node)))
       (=> (= state 1) (and (<= 0 at) (< at (d_len doc node)) (=> (< 0 step) (< at to)) (=> (< step 0) (< to at))))))

; slices
(define SliceOK ((a Expr) (b Expr) (d Doc) (p Q_Seg)) Bool (and (BoundOK a d p) (BoundOK b d p)))
(define SFrom ((a Expr) (d Doc) (p Q_Seg)) Int (Bound a d p (d_len d (here p)) 0))
(define STo ((b Expr) (d Doc) (p Q_Seg)) Int (Bound b d p (d_len d (here p)) (d_len d (here p))))
(define imin ((a Int) (b Int)) Int (ite (< a b) a b))
(lemma ml-range-none ((d Doc) (a Expr) (b Expr) (p Q_Seg) (j Int)) (pat (ML d (mk rangeSelector a b) p j))
  (induct (- (NKids d (here p)) j)) (hyp d a b p (+ j 1))
  (body (=> (<= 0 j) (WFP d p) (not (and (= (d_type d (here p)) 2) (SliceOK a b d p) (< (SFrom a d p) (STo b d p)))) (= (ML d (mk rangeSelector a b) p j) LNil))))
(lemma ml-range ((d Doc) (a Expr) (b Expr) (p Q_Seg) (j Int) (n Any) (m Int) (e Int)) (pat (ML d (mk rangeSelector a b) p j) (RL d n m e 1))
  (induct (- (NKids d (here p)) j)) (hyp d a b p (+ j 1) n m e) (hyp d a b p (+ j 1) n (+ m 1) e)
  (body (=> (<= 0 j) (WFP d p) (= n (here p)) (= e (imin (STo b d p) (d_len d n))) (= (d_type d n) 2) (SliceOK a b d p) (<= (SFrom a d p) m) (<= j m) (=> (< j m) (= m (SFrom a d p)))
     (= (ML d (mk rangeSelector a b) p j) (RL d n m e 1)))))
(lemma ml-slice-none ((d Doc) (a Expr) (b Expr) (c Expr) (p Q_Seg) (j Int)) (pat (ML d (mk sliceSelector a b c) p j))
  (induct (- (NKids d (here p)) j)) (hyp d a b c p (+ j 1))
  (body (=> (<= 0 j) (WFP d p) (not (and (= (d_type d (here p)) 2) (SliceOK a b d p) (NumOK c d p) (!= 0 (NumInt c d p))
       (=> (< 0 (NumInt c d p)) (< (SFrom a d p) (STo b d p)))
       (=> (> 0 (NumInt c d p)) (and (< (SFrom a d p) (d_len d (here p))) (> (SFrom a d p) (STo b d p))))))
     (= (ML d (mk sliceSelector a b c) p j) LNil))))
(lemma mld-slice-none ((d Doc) (a Expr) (b Expr) (c Expr) (p Q_Seg) (j Int)) (pat (MLD d (mk sliceSelector a b c) p j))
  (induct j) (hyp d a b c p (- j 1))
  (body (=> (<= j (NKids d (here p))) (WFP d p) (not (and (= (d_type d (here p)) 2) (SliceOK a b d p) (NumOK c d p) (!= 0 (NumInt c d p))
       (=> (< 0 (NumInt c d p)) (< (SFrom a d p) (STo b d p)))
       (=> (> 0 (NumInt c d p)) (and (< (SFrom a d p) (d_len d (here p))) (> (SFrom a d p) (STo b d p))))))
     (= (MLD d (mk sliceSelector a b c) p j) LNil))))
(lemma ml-slice ((d Doc) (a Expr) (b Expr) (c Expr) (p Q_Seg) (j Int) (n Any) (m Int) (e Int) (t Int))
  (pat (ML d (mk sliceSelector a b c) p j) (RL d n m e t))
  (induct (- (NKids d (here p)) j)) (hyp d a b c p (+ j 1) n m e t) (hyp d a b c p (+ j 1) n (+ m t) e t)
  (body (=> (<= 0 j) (WFP d p) (= n (here p)) (= e (imin (STo b d p) (d_len d n))) (= (d_type d n) 2) (SliceOK a b d p) (NumOK c d p) (= t (NumInt c d p)) (< 0 t)
     (<= (SFrom a d p) m) (<= j m) (Divs t (- m (SFrom a d p))) (or (= m (SFrom a d p)) (< (- m t) j))
     (= (ML d (mk sliceSelector a b c) p j) (RL d n m e t)))))
(lemma mld-slice ((d Doc) (a Expr) (b Expr) (c Expr) (p Q_Seg) (j Int) (n Any) (m Int) (e Int) (t Int))
  (pat (MLD d (mk sliceSelector a b c) p j) (RL d n m e t))
  (induct j) (hyp d a b c p (- j 1) n m e t) (hyp d a b c p (- j 1) n (+ m t) e t)
  (body (=> (<= 0 j) (<= j (d_len d (here p))) (WFP d p) (= n (here p)) (= e (STo b d p)) (= (d_type d n) 2) (SliceOK a b d p) (NumOK c d p) (= t (NumInt c d p)) (> 0 t)
     (< (SFrom a d p) (d_len d n)) (<= 0 e)
     (>= (SFrom a d p) m) (> j m) (Divs (- t) (- (SFrom a d p) m)) (or (= m (SFrom a d p)) (>= (- m t) j))
     (= (MLD d (mk sliceSelector a b c) p j) (RL d n m e t)))))

(lemma divs-mod ((m Int) (x Int)) (pat (Divs m x)) (reveal Divs) (body (=> (< 0 m) (= (Divs m x) (= (mod x m) 0)))))

; Contracts of the steps
(icontract Sel match (self ctx)
  (measure (SelSize self))
  (results r)
  (requires (WFS self) (!= (. ctx doc) nil_Doc) (WFP (. ctx doc) (. ctx path P)))
  (modifies (ctx path)) (clobbers (. ctx path P)) (ghost T)
  (ensures (= (. ctx path P) (old (. ctx path P))) (= r (Match self (. ctx doc) (. ctx path P)))))
(icontract Sel selectChildNodes (self ctx)
  (measure (SelSize self))
  (results it ok)
  (requires (WFS self) (!= (. ctx doc) nil_Doc) (WFP (. ctx doc) (. ctx path P)))
  (modifies (ctx path)) (clobbers (. ctx path P)) (ghost T)
  (ensures (= (. ctx path P) (old (. ctx path P)))
    (=> ok (= (view rem it) (Selected (. ctx doc) self (. ctx path P))))
    (=> (not ok) (not (Down self (. ctx doc) (. ctx path P))))))
(template anym ((q Q_Sel const) (k Int modp) (d Doc) (p Q_Seg)) (not (AnyMatchN q k d p)))
