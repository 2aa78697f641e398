; Evaluation of expressions ---------------------------------------------------
; The value of expression x in document d at the end of path p, and whether
; its evaluation fails
(fun EvalErr (Expr Doc Q_Seg) Bool)
(fun EvalV (Expr Doc Q_Seg) Any)
(fun FunErr (Fun Doc Q_Seg) Bool)
(fun FunV (Fun Doc Q_Seg) Any)

; What a well-formed expression is: it has all its operands
(fun WFX (Expr) Bool)
(fun WFS (Sel) Bool)
(fun WFF (Fun) Bool)
(axiom wfx-notnil (forall ((x Expr)) (=> (WFX x) (!= (tag_Expr x) 0)) (pat (WFX x))))
(axiom wfs-notnil (forall ((x Sel)) (=> (WFS x) (!= (tag_Sel x) 0)) (pat (WFS x))))
(axiom wff-notnil (forall ((x Fun)) (=> (WFF x) (!= x nil_Fun)) (pat (WFF x))))
(defrec AllWFX ((q Q_Expr) (k Int)) Bool (ite (<= k 0) true (and (AllWFX q (- k 1)) (WFX (at q (- k 1))))))
(lemma all-wfx ((q Q_Expr) (k Int) (i Int)) (pat (AllWFX q k) (at q i)) (induct k) (hyp q (- k 1) i)
  (body (=> (AllWFX q k) (<= 0 i) (< i k) (WFX (at q i)))))
(defrec AllWFS ((q Q_Sel) (k Int)) Bool (ite (<= k 0) true (and (AllWFS q (- k 1)) (WFS (at q (- k 1))))))
(lemma all-wfs ((q Q_Sel) (k Int) (i Int)) (pat (AllWFS q k) (at q i)) (induct k) (hyp q (- k 1) i)
  (body (=> (AllWFS q k) (<= 0 i) (< i k) (WFS (at q i)))))
(define WFPath ((s Q_Sel) (r Q_Bool)) Bool (and (= (len s) (len r)) (AllWFS s (len s))))

(define optWFX ((x Expr)) Bool (or (= (tag_Expr x) 0) (WFX x)))

; Lists of values
(defrec ValsN ((base Q_Any) (q Q_Expr) (k Int) (d Doc) (p Q_Seg)) Q_Any
  (ite (<= k 0) base (snoc (ValsN base q (- k 1) d p) (valOf (EvalV (at q (- k 1)) d p)))))
(defrec AnyErrN ((q Q_Expr) (k Int) (d Doc) (p Q_Seg)) Bool
  (ite (<= k 0) false (or (AnyErrN q (- k 1) d p) (EvalErr (at q (- k 1)) d p))))
(define Vals ((base Q_Any) (q Q_Expr) (d Doc) (p Q_Seg)) Q_Any (ValsN base q (len q) d p))
(define AnyErr ((q Q_Expr) (d Doc) (p Q_Seg)) Bool (AnyErrN q (len q) d p))
(lemma any-err ((q Q_Expr) (k Int) (d Doc) (p Q_Seg) (i Int)) (pat (AnyErrN q k d p) (EvalErr (at q i) d p)) (induct k) (hyp q (- k 1) d p i)
  (body (=> (<= 0 i) (< i k) (EvalErr (at q i) d p) (AnyErrN q k d p))))
(lemma vals-len ((base Q_Any) (q Q_Expr) (k Int) (d Doc) (p Q_Seg)) (pat (ValsN base q k d p)) (induct k) (hyp base q (- k 1) d p)
  (body (=> (<= 0 k) (= (len (ValsN base q k d p)) (+ (len base) k)))))
(lemma vals-base ((base Q_Any) (q Q_Expr) (k Int) (d Doc) (p Q_Seg) (i Int)) (pat (at (ValsN base q k d p) i)) (induct k) (hyp base q (- k 1) d p i)
  (body (=> (<= 0 k) (<= 0 i) (< i (len base)) (= (at (ValsN base q k d p) i) (at base i)))))

; constants
(case WFX exprValue () (okv value))
(case EvalErr exprValue (d p) false)
(case EvalV exprValue (d p) value)
; -
(case WFX unaryMinusExpression () (WFX expr))
(case EvalErr unaryMinusExpression (d p) (EvalErr expr d p))
(case EvalV unaryMinusExpression (d p) (negate (NumOf (EvalV expr d p))))
; ?( ) and !
(case WFX filterExpression () (WFX expr))
(case EvalErr filterExpression (d p) (EvalErr expr d p))
(case EvalV filterExpression (d p) (ABool (truthy (EvalV expr d p))))
(case WFX notExpression () (WFX expr))
(case EvalErr notExpression (d p) (EvalErr expr d p))
(case EvalV notExpression (d p) (ABool (not (truthy (EvalV expr d p)))))
; == and ===
(case WFX equalityExpression () (and (WFX left) (WFX right)))
(case EvalErr equalityExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV equalityExpression (d p) (ABool (eq2 (valOf (EvalV left d p)) (valOf (EvalV right d p)))))
(case WFX equality3Expression () (and (WFX left) (WFX right)))
(case EvalErr equality3Expression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV equality3Expression (d p) (ABool (eq3 (valOf (EvalV left d p)) (valOf (EvalV right d p)))))
; && and ||
(case WFX landExpression () (and (WFX left) (WFX right)))
(case EvalErr landExpression (d p) (or (EvalErr left d p) (and (truthy (EvalV left d p)) (EvalErr right d p))))
(case EvalV landExpression (d p) (ABool (and (truthy (EvalV left d p)) (truthy (EvalV right d p)))))
(case WFX lorExpression () (and (WFX left) (WFX right)))
(case EvalErr lorExpression (d p) (or (EvalErr left d p) (and (not (truthy (EvalV left d p))) (EvalErr right d p))))
(case EvalV lorExpression (d p) (ABool (or (truthy (EvalV left d p)) (truthy (EvalV right d p)))))
; < <= > >=
(case WFX relationalExpression () (WFF op))
(case EvalErr relationalExpression (d p) (FunErr op d p))
(case EvalV relationalExpression (d p) (FunV op d p))
; arithmetic
(case WFX addExpression () (and (WFX left) (WFX right)))
(case EvalErr addExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV addExpression (d p) (arith 1 (NumOf (EvalV left d p)) (NumOf (EvalV right d p))))
(case WFX subExpression () (and (WFX left) (WFX right)))
(case EvalErr subExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV subExpression (d p) (arith 2 (NumOf (EvalV left d p)) (NumOf (EvalV right d p))))
(case WFX mulExpression () (and (WFX left) (WFX right)))
(case EvalErr mulExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV mulExpression (d p) (arith 3 (NumOf (EvalV left d p)) (NumOf (EvalV right d p))))
(case WFX divExpression () (and (WFX left) (WFX right)))
(case EvalErr divExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV divExpression (d p) (arith 4 (NumOf (EvalV left d p)) (NumOf (EvalV right d p))))
(case WFX modExpression () (and (WFX left) (WFX right)))
(case EvalErr modExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV modExpression (d p) (arith 5 (NumOf (EvalV left d p)) (NumOf (EvalV right d p))))
(case WFX powExpression () (and (WFX left) (WFX right)))
(case EvalErr powExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV powExpression (d p) (arith 6 (NumOf (EvalV left d p)) (NumOf (EvalV right d p))))
; [ , ] and in
(case WFX arrayExpression () (AllWFX arr (len arr)))
(case EvalErr arrayExpression (d p) (AnyErr arr d p))
(case EvalV arrayExpression (d p) (AArr (Vals (empty Any) arr d p)))
(case WFX inExpression () (and (WFX left) (WFX right)))
(case EvalErr inExpression (d p) (or (EvalErr left d p) (EvalErr right d p)))
(case EvalV inExpression (d p) (inVal (valOf (EvalV left d p)) (valOf (EvalV right d p))))
; functions
(case WFX functionCallExpression () (AllWFX args (len args)))
(case EvalErr functionCallExpression (d p) (or (not (FnKnown name)) (AnyErr args d p)))
(case EvalV functionCallExpression (d p) (FnVal name (Vals (empty Any) args d p)))
(case WFX methodCallExpression () (and (WFX receiver) (AllWFX args (len args))))
(case EvalErr methodCallExpression (d p) (or (EvalErr receiver d p) (not (FnKnown name)) (AnyErr args d p)))
(case EvalV methodCallExpression (d p) (FnVal name (Vals (seq Any (valOf (EvalV receiver d p))) args d p)))

; Paths in expressions: $ and @
(defrec LastsN ((c Q_Q_Seg) (k Int)) Q_Any
  (ite (<= k 0) (empty Any) (snoc (LastsN c (- k 1)) (seg_node (last (at c (- k 1)))))))
(defrec NodesN ((q Q_Any) (k Int) (d Doc)) Q_Any ; as nodes of d
  (ite (<= k 0) (empty Any) (snoc (NodesN q (- k 1) d) (ANode (at q (- k 1)) d))))
(lemma lasts-len ((c Q_Q_Seg) (k Int)) (pat (LastsN c k)) (induct k) (hyp c (- k 1))
  (body (=> (<= 0 k) (= (len (LastsN c k)) k))))
(lemma lasts-at ((c Q_Q_Seg) (k Int) (i Int)) (pat (at (LastsN c k) i)) (induct k) (hyp c (- k 1) i)
  (body (=> (<= 0 i) (< i k) (= (at (LastsN c k) i) (seg_node (last (at c i)))))))
(lemma nodes-len ((q Q_Any) (k Int) (d Doc)) (pat (NodesN q k d)) (induct k) (hyp q (- k 1) d)
  (body (=> (<= 0 k) (= (len (NodesN q k d)) k))))
(lemma nodes-ok ((q Q_Any) (k Int) (d Doc) (i Int)) (pat (at (NodesN q k d) i)) (induct k) (hyp q (- k 1) d i)
  (body (=> (<= 0 i) (< i k) (= (at (NodesN q k d) i) (ANode (at q i) d)))))
(defrec WrapN ((q Q_Any) (k Int) (d Doc)) Q_Any ; in place
  (ite (<= k 0) q (upd (WrapN q (- k 1) d) (- k 1) (ANode (at q (- k 1)) d))))
(lemma wrap-len ((q Q_Any) (k Int) (d Doc)) (pat (WrapN q k d)) (induct k) (hyp q (- k 1) d)
  (body (= (len (WrapN q k d)) (len q))))
(lemma wrap-at ((q Q_Any) (k Int) (d Doc) (i Int)) (pat (at (WrapN q k d) i)) (induct k) (hyp q (- k 1) d i)
  (body (=> (<= 0 i) (< i (len q)) (= (at (WrapN q k d) i) (ite (< i k) (ANode (at q i) d) (at q i))))))
(lemma wrap-nodes ((q Q_Any) (k Int) (d Doc)) (pat (WrapN q k d)) (split (< (qdiff (WrapN q k d) (NodesN q k d)) 0))
  (body (=> (= k (len q)) (= (WrapN q k d) (NodesN q k d)))))
(define startAt ((s Q_Sel) (p Q_Seg)) Q_Seg
  (ite (and (< 0 (len s)) (is rootElementSelector (at s 0))) (sub p 0 1) p))
(define pathVal ((c Q_Q_Seg) (d Doc)) Any
  (cond ((= (len c) 0) ANil)
        ((= (len c) 1) (ANode (seg_node (last (at c 0))) d))
        (AArr (NodesN (LastsN c (len c)) (len c) d))))
(case WFX pathExpression () (WFPath path.selectors path.recursive))
(case EvalErr pathExpression (d p) false)
(case EvalV pathExpression (d p)
  (pathVal (EvalAt d path.selectors path.recursive (empty Q_Seg) 0 (startAt path.selectors p)) d))

; Document paths -------------------------------------------------------------
(define NKids ((d Doc) (n Any)) Int (cond ((= (d_type d n) 1) (len (d_keys d n))) ((= (d_type d n) 2) (d_len d n)) 0))
(define Kid ((d Doc) (n Any) (i Int)) Seg
  (ite (= (d_type d n) 1)
    (Seg_ (d_key d n (at (d_keys d n) i)) (d_type d (d_key d n (at (d_keys d n) i))) (at (d_keys d n) i) 0)
    (Seg_ (d_elem d n i) (d_type d (d_elem d n i)) "" i)))
(define kidx ((d Doc) (n Any) (s Seg)) Int (ite (= (d_type d n) 1) (key_pos d n (seg_name s)) (seg_idx s)))
(define IsKid ((d Doc) (n Any) (s Seg)) Bool (and (<= 0 (kidx d n s)) (< (kidx d n s) (NKids d n)) (= s (Kid d n (kidx d n s)))))
(define RootSeg ((d Doc)) Seg (Seg_ (d_root d) (d_type d (d_root d)) "" 0))
(defrec WFP ((d Doc) (p Q_Seg)) Bool ; p is a path from the root of d
  (cond ((<= (len p) 0) false)
        ((= (len p) 1) (= (at p 0) (RootSeg d)))
        (and (WFP d (sub p 0 (- (len p) 1))) (IsKid d (seg_node (at p (- (len p) 2))) (last p)))))
(define here ((p Q_Seg)) Any (seg_node (last p)))
(lemma wfp-root ((d Doc) (p Q_Seg)) (induct (len p)) (hyp d (sub p 0 (- (len p) 1))) (pat (WFP d p))
  (body (=> (WFP d p) (and (< 0 (len p)) (= (at p 0) (RootSeg d))))))
(lemma wfp-start ((d Doc) (p Q_Seg)) (pat (WFP d p) (sub p 0 1))
  (body (=> (WFP d p) (WFP d (sub p 0 1)))))

; The contract of expressions
(icontract Expr evaluate (self ctx)
  (measure (ESize self))
  (results v err)
  (requires (WFX self) (!= (. ctx doc) nil_Doc) (WFP (. ctx doc) (. ctx path P)))
  (modifies (ctx path)) (clobbers (. ctx path P)) (ghost T)
  (ensures (= (. ctx path P) (old (. ctx path P)))
    (= (!= err nil_Err) (EvalErr self (. ctx doc) (. ctx path P)))
    (=> (= err nil_Err) (= v (EvalV self (. ctx doc) (. ctx path P))))
    (okv v)
    (=> (!= err nil_Err) (or (is ANil v) (and (is ABool v) (not (a_b v)))))))
(icontract Fun call (self ctx)
  (measure (FSize self))
  (results v err)
  (requires (WFF self) (!= (. ctx doc) nil_Doc) (WFP (. ctx doc) (. ctx path P)))
  (modifies (ctx path)) (clobbers (. ctx path P)) (ghost T)
  (ensures (= (. ctx path P) (old (. ctx path P)))
    (= (!= err nil_Err) (FunErr self (. ctx doc) (. ctx path P)))
    (okv v) (=> (= err nil_Err) (= v (FunV self (. ctx doc) (. ctx path P))))
    (=> (!= err nil_Err) (or (is ANil v) (and (is ABool v) (not (a_b v)))))))

; Loops over operands
(template vals ((r Q_Any mod) (q Q_Expr const) (k Int modp) (d Doc) (p Q_Seg)) (= r (ValsN r0 q k d p)))
(template errs ((q Q_Expr const) (k Int modp) (d Doc) (p Q_Seg)) (not (AnyErrN q k d p)))
(template okvals ((r Q_Any mod)) (AllOk r))
(template notin ((x Any const) (q Q_Any const) (k Int modp)) (not (inSeqN (valOf x) q k)))
(template lasts ((r Q_Any mod) (c Q_Q_Seg const) (k Int modp)) (= r (LastsN c k)))
(template wraps ((r Q_Any mod) (k Int modp) (d Doc)) (= r (WrapN r0 k d)))
(template wrapn ((r Q_Any mod) (q Q_Any const) (k Int modp) (d Doc)) (= r (NodesN q k d)))

; < <= > >=: an error, or the sign of the comparison
(contract compareExpr (ctx left right) aux
  (measure (+ (ESize left) (ESize right)))
  (results c ok err)
  (requires (WFX left) (WFX right) (!= (. ctx doc) nil_Doc) (WFP (. ctx doc) (. ctx path P)))
  (modifies (ctx path)) (clobbers (. ctx path P)) (ghost T)
  (ensures (= (. ctx path P) (old (. ctx path P)))
    (= (!= err nil_Err) (or (EvalErr left (. ctx doc) (. ctx path P)) (EvalErr right (. ctx doc) (. ctx path P))))
    (=> (!= err nil_Err) (not ok))
    (=> (= err nil_Err) (let ((a (valOf (EvalV left (. ctx doc) (. ctx path P)))) (b (valOf (EvalV right (. ctx doc) (. ctx path P)))))
      (and (= (and ok (< c 0)) (cmpLt a b)) (= (and ok (> c 0)) (cmpGt a b)) (= (and ok (= c 0)) (cmpEq a b)))))))
(axiom dsize-kid (forall ((d Doc) (n Any) (i Int)) (=> (<= 0 i) (< i (NKids d n)) (< (DSize d (seg_node (Kid d n i))) (DSize d n))) (pat (DSize d n) (Kid d n i))))
