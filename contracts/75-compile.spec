; Compilation of parse trees -------------------------------------------------------
; < <= > >= are closures which compare two expressions
(fun relFun (Int Expr Expr) Fun)
(axiom relfun-size (forall ((o Int) (l Expr) (r Expr)) (= (FSize (relFun o l r)) (+ 1 (+ (ESize l) (ESize r)))) (pat (FSize (relFun o l r)))))
(axiom relfun-wf (forall ((o Int) (l Expr) (r Expr)) (= (WFF (relFun o l r)) (and (<= 1 o) (<= o 4) (WFX l) (WFX r))) (pat (relFun o l r))))
(axiom relfun-err (forall ((o Int) (l Expr) (r Expr) (d Doc) (p Q_Seg)) (= (FunErr (relFun o l r) d p) (or (EvalErr l d p) (EvalErr r d p))) (pat (FunErr (relFun o l r) d p))))
(define relVal ((o Int) (a Any) (b Any)) Bool
  (cond ((= o 1) (cmpLt a b)) ((= o 2) (or (cmpLt a b) (cmpEq a b))) ((= o 3) (cmpGt a b)) (or (cmpGt a b) (cmpEq a b))))
(axiom relfun-val (forall ((o Int) (l Expr) (r Expr) (d Doc) (p Q_Seg))
  (= (FunV (relFun o l r) d p) (ABool (relVal o (valOf (EvalV l d p)) (valOf (EvalV r d p)))))
  (pat (FunV (relFun o l r) d p))))

; C16, C18: literals
(fun has_rune (Str Int) Bool)
(define ui ((s Str)) Str (s_replace s "_" ""))
(define isFloatText ((s Str)) Bool (!= (index_any s "eE.") -1))
(define after2 ((s Str)) Str (s_sub s 2 (slen s)))
(define NumLit ((t Tree)) Any
  (cond ((!= (T_DecimalLiteral t) nil_Tree)
          (ite (isFloatText (ui (T_GetText (T_DecimalLiteral t)))) (AFlt (parse_float (ui (T_GetText (T_DecimalLiteral t)))))
             (AInt (parse_int (ui (T_GetText (T_DecimalLiteral t))) 10 64))))
        ((!= (T_HexIntegerLiteral t) nil_Tree) (AInt (parse_int (ui (after2 (T_GetText (T_HexIntegerLiteral t)))) 16 64)))
        ((!= (T_OctalIntegerLiteral2 t) nil_Tree) (AInt (parse_int (ui (after2 (T_GetText (T_OctalIntegerLiteral2 t)))) 8 64)))
        (AInt (parse_int (ui (after2 (T_GetText (T_BinaryIntegerLiteral t)))) 2 64))))
(define LitV ((t Tree)) Any
  (cond ((!= (T_NullLiteral t) nil_Tree) ANil)
        ((!= (T_BooleanLiteral t) nil_Tree) (ABool (= (T_GetText (T_BooleanLiteral t)) "true")))
        ((!= (T_StringLiteral t) nil_Tree) (AStr (Unesc (T_GetText (T_StringLiteral t)))))
        (NumLit (T_NumericLiteral t))))
(contract numericLiteral (ctx) aux (results v) (requires (GoodK ctx K_NumericLiteralContext)) (modifies) (ensures (= v (NumLit ctx)) (or (is AInt v) (is AFlt v))))
(contract astLiteral (ctx) aux (results v) (requires (GoodK ctx K_LiteralContext)) (modifies) (ensures (= v (LitV ctx)) (okv v)))

; C18: the expression for a tree (in a path component if b), and whether the
; tree is not supported. What expression it is is what the contract says about
; its value; the compiler is a function of the tree
(fun CX (Tree Bool) Expr)
(defrec CXsN ((q Q_Tree) (k Int)) Q_Expr (ite (<= k 0) (empty Expr) (snoc (CXsN q (- k 1)) (CX (at q (- k 1)) false))))
(defrec CErrsN ((q Q_Tree) (k Int)) Bool (ite (<= k 0) false (or (CErrsN q (- k 1)) (CErr (at q (- k 1)) false))))
(define CXs ((q Q_Tree)) Q_Expr (CXsN q (len q)))
(define CErrs ((q Q_Tree)) Bool (CErrsN q (len q)))
(lemma cxs-len ((q Q_Tree) (k Int)) (pat (CXsN q k)) (induct k) (hyp q (- k 1)) (body (=> (<= 0 k) (= (len (CXsN q k)) k))))
(lemma cerrs-any ((q Q_Tree) (k Int) (i Int)) (pat (CErrsN q k) (CErr (at q i) false)) (induct k) (hyp q (- k 1) i)
  (body (=> (<= 0 i) (< i k) (CErr (at q i) false) (CErrsN q k))))
(define elements ((t Tree)) Q_Tree (T_AllExpression (T_ElementList (T_ArrayLiteral t))))
(define arguments ((t Tree)) Q_Tree (T_AllExpression (T_Arguments t)))
(define supported2 ((k Int)) Bool
  (or (and (<= 11 k) (<= k 16)) (= k 20) (= k 21)))
(define pathKind ((k Int)) Bool (or (and (<= 1 k) (<= k 4)) (= k 25)))
(define anchored ((s Q_Sel)) Bool (and (< 0 (len s)) (or (is rootElementSelector (at s 0)) (is currentElementSelector (at s 0)))))
(define selText ((t Tree)) Str (T_GetText (T_Selector t)))
(define miLeft ((t Tree)) Tree (ite (= (kind (T_Expression t)) K_RecursiveDescentTermExpressionContext) (T_Expression (T_Expression t)) (T_Expression t)))
; a path from $ or @
(defrec startsAt ((t Tree)) Bool
  (cond ((= (kind t) K_SelectorExpressionContext) (!= (selText t) "*"))
        ((or (= (kind t) K_ChainExpressionContext) (= (kind t) K_RecursiveDescentExpressionContext)) (startsAt (sub0 t)))
        ((= (kind t) K_RecursiveDescentTermExpressionContext) (startsAt (T_Expression t)))
        ((= (kind t) K_MemberIndexExpressionContext) (startsAt (miLeft t)))
        false))
; calls: f(...), path.f(...) and x.f(...)
(define isPathX ((t Tree)) Bool
  (or (= (kind t) K_SelectorExpressionContext) (= (kind t) K_RecursiveDescentExpressionContext) (= (kind t) K_RecursiveDescentTermExpressionContext)
      (= (kind t) K_RecursiveDescentMemberIndexExpressionContext)
      (and (or (= (kind t) K_ChainExpressionContext) (= (kind t) K_MemberIndexExpressionContext)) (startsDA (T_GetText t)))))
(define lastSel ((t Tree)) Sel (at (PS t) (- (len (PS t)) 1)))
(define ArgErr ((t Tree)) Bool
  (or (CErrs (arguments t))
    (cond ((isPathX (T_Expression t))
            (or (PErr (T_Expression t)) (< (len (PS (T_Expression t))) 2) (not (anchored (PS (T_Expression t))))
                (not (is keySelector (lastSel (T_Expression t)))) (= (get keySelector key (lastSel (T_Expression t))) "")))
          ((= (kind (T_Expression t)) K_IdentifierExpressionContext) false)
          ((= (kind (T_Expression t)) K_ChainExpressionContext) (CErr (sub0 (T_Expression t)) false))
          true)))

(defrec CErr ((t Tree) (b Bool)) Bool
  (cond ((= (kind t) K_LiteralExpressionContext) false)
        ((= (kind t) K_ArgumentsExpressionContext) (ArgErr t))
        (b (cond ((or (= (kind t) K_UnaryPlusExpressionContext) (= (kind t) K_UnaryMinusExpressionContext) (= (kind t) K_AdditiveExpressionContext)) false)
                 ((= (kind t) K_FilterExpressionContext) (CErr (T_Expression t) false))
                 true))
        ((or (= (kind t) K_UnaryPlusExpressionContext) (= (kind t) K_UnaryMinusExpressionContext) (= (kind t) K_NotExpressionContext) (= (kind t) K_ParenthesizedExpressionContext))
          (CErr (T_Expression t) false))
        ((supported2 (kind t)) (or (CErr (sub0 t) false) (CErr (sub1 t) false)))
        ((= (kind t) K_ArrayLiteralExpressionContext) (CErrs (elements t)))
        (or (PErr t) (not (startsAt t)))))
; C19: the steps of the path for a tree, and whether they are reached by ..
(define bracket ((s Q_Sel)) Sel (ite (= (len s) 1) (at s 0) (mk unionSelector s)))
(define LSel ((t Tree)) Sel
  (ite (!= (T_StringLiteral (T_Literal t)) nil_Tree) (mk keySelector (Unesc (T_GetText (T_StringLiteral (T_Literal t)))) nil_Expr)
    (mk keySelector (T_GetText (T_Literal t)) (CX t true))))
(define SSel ((s Str)) Sel (cond ((= s "$") (mk rootElementSelector)) ((= s "@") (mk currentElementSelector)) (mk wildcardSelector)))
(define BSel ((t Tree)) Sel
  (cond ((= (kind t) K_LiteralExpressionContext) (LSel t))
        ((= (kind t) K_IdentifierExpressionContext) (mk keySelector (T_GetText t) nil_Expr))
        ((= (kind t) K_FilterExpressionContext) (mk filterSelector (CX (T_Expression t) false)))
        ((= (kind t) K_SelectorExpressionContext) (SSel (selText t)))
        (mk keySelector (T_GetText t) (CX t true))))
(define BErr ((t Tree)) Bool
  (cond ((or (= (kind t) K_LiteralExpressionContext) (= (kind t) K_IdentifierExpressionContext) (= (kind t) K_SelectorExpressionContext)) false)
        ((= (kind t) K_FilterExpressionContext) (CErr (T_Expression t) false))
        (CErr t true)))
(define optCX ((t Tree)) Expr (ite (= t nil_Tree) nil_Expr (CX t false)))
(define optErr ((t Tree)) Bool (and (!= t nil_Tree) (CErr t false)))
(define SL ((t Tree)) Sel
  (ite (= (sl_step t) nil_Tree) (mk rangeSelector (optCX (sl_start t)) (optCX (sl_end t)))
    (mk sliceSelector (optCX (sl_start t)) (optCX (sl_end t)) (optCX (sl_step t)))))
(define SLErr ((t Tree)) Bool (or (sl_adj t) (optErr (sl_start t)) (optErr (sl_end t)) (optErr (sl_step t))))
(define ISel ((t Tree)) Sel (ite (= (T_Slice t) nil_Tree) (BSel (T_Expression t)) (SL (T_Slice t))))
(define IErr ((t Tree)) Bool (ite (= (T_Slice t) nil_Tree) (BErr (T_Expression t)) (SLErr (T_Slice t))))
(defrec BSelsN ((q Q_Tree) (k Int)) Q_Sel (ite (<= k 0) (empty Sel) (snoc (BSelsN q (- k 1)) (BSel (at q (- k 1))))))
(defrec BErrN ((q Q_Tree) (k Int)) Bool (ite (<= k 0) false (or (BErrN q (- k 1)) (BErr (at q (- k 1))))))
(defrec ISelsN ((q Q_Tree) (k Int)) Q_Sel (ite (<= k 0) (empty Sel) (snoc (ISelsN q (- k 1)) (ISel (at q (- k 1))))))
(defrec IErrN ((q Q_Tree) (k Int)) Bool (ite (<= k 0) false (or (IErrN q (- k 1)) (IErr (at q (- k 1))))))
(lemma bsels-len ((q Q_Tree) (k Int)) (pat (BSelsN q k)) (induct k) (hyp q (- k 1)) (body (=> (<= 0 k) (= (len (BSelsN q k)) k))))
(lemma isels-len ((q Q_Tree) (k Int)) (pat (ISelsN q k)) (induct k) (hyp q (- k 1)) (body (=> (<= 0 k) (= (len (ISelsN q k)) k))))
(lemma berr-any ((q Q_Tree) (k Int) (i Int)) (pat (BErrN q k) (at q i)) (induct k) (hyp q (- k 1) i)
  (body (=> (<= 0 i) (< i k) (BErr (at q i)) (BErrN q k))))
(lemma ierr-any ((q Q_Tree) (k Int) (i Int)) (pat (IErrN q k) (at q i)) (induct k) (hyp q (- k 1) i)
  (body (=> (<= 0 i) (< i k) (IErr (at q i)) (IErrN q k))))
(define butLast ((q Q_Bool)) Q_Bool (sub q 0 (- (len q) 1)))
; the steps before brackets: of a in a..[x], which is read as (a..)[x]
(define miRec ((t Tree)) Bool (= (kind (T_Expression t)) K_RecursiveDescentTermExpressionContext))
(define IBra ((t Tree)) Sel (bracket (ISelsN (T_AllIndexExpression t) (len (T_AllIndexExpression t)))))
(define BBra ((t Tree)) Sel (bracket (BSelsN (elements t) (len (elements t)))))
(defrec PS ((t Tree)) Q_Sel
  (cond ((= (kind t) K_SelectorExpressionContext) (seq Sel (SSel (selText t))))
        ((or (= (kind t) K_ChainExpressionContext) (= (kind t) K_RecursiveDescentExpressionContext)) (cat (PS (sub0 t)) (PS (sub1 t))))
        ((= (kind t) K_RecursiveDescentTermExpressionContext) (snoc (PS (T_Expression t)) (mk wildcardSelector)))
        ((= (kind t) K_MemberIndexExpressionContext) (snoc (PS (miLeft t)) (IBra t)))
        ((= (kind t) K_ArrayLiteralExpressionContext) (seq Sel (BBra t)))
        ((= (kind t) K_LiteralExpressionContext) (seq Sel (LSel t)))
        ((= (kind t) K_IdentifierExpressionContext) (seq Sel (mk keySelector (T_GetText t) nil_Expr)))
        (seq Sel (mk keySelector (T_GetText t) (CX t true)))))
(defrec PR ((t Tree)) Q_Bool
  (cond ((= (kind t) K_ChainExpressionContext) (cat (snoc (butLast (PR (sub0 t))) false) (PR (sub1 t))))
        ((= (kind t) K_RecursiveDescentExpressionContext) (cat (snoc (butLast (PR (sub0 t))) true) (PR (sub1 t))))
        ((= (kind t) K_RecursiveDescentTermExpressionContext) (snoc (snoc (butLast (PR (T_Expression t))) true) false))
        ((= (kind t) K_MemberIndexExpressionContext) (snoc (snoc (butLast (PR (miLeft t))) (miRec t)) false))
        (seq Bool false)))
(defrec PErr ((t Tree)) Bool
  (cond ((or (= (kind t) K_SelectorExpressionContext) (= (kind t) K_LiteralExpressionContext) (= (kind t) K_IdentifierExpressionContext)) false)
        ((or (= (kind t) K_ChainExpressionContext) (= (kind t) K_RecursiveDescentExpressionContext)) (or (PErr (sub0 t)) (PErr (sub1 t))))
        ((= (kind t) K_RecursiveDescentTermExpressionContext) (PErr (T_Expression t)))
        ((= (kind t) K_MemberIndexExpressionContext) (or (PErr (miLeft t)) (IErrN (T_AllIndexExpression t) (len (T_AllIndexExpression t)))))
        ((= (kind t) K_ArrayLiteralExpressionContext) (BErrN (elements t) (len (elements t))))
        (CErr t true)))
; a path from $ or @ starts with that
(lemma ps-len ((t Tree)) (pat (PS t)) (pat (PR t)) (split (= (kind t) 1) (= (kind t) 2) (= (kind t) 3) (= (kind t) 4)) (induct (size t))
  (hyp (sub0 t)) (hyp (sub1 t)) (hyp (miLeft t)) (hyp (T_Expression t))
  (body (=> (isX t) (not (PErr t)) (and (< 0 (len (PS t))) (= (len (PS t)) (len (PR t)))))))
(lemma starts-anchored ((t Tree)) (pat (startsAt t)) (split (= (kind t) 25) (= (kind t) 1) (= (kind t) 2) (= (kind t) 3) (= (kind t) 4)) (induct (size t))
  (hyp (sub0 t)) (hyp (miLeft t)) (hyp (T_Expression t))
  (body (=> (isX t) (not (PErr t)) (startsAt t) (and (anchored (PS t)) (pathKind (kind t)) (startsDA (T_GetText t))))))
(lemma starts-child ((t Tree)) (pat (startsAt t)) (split (= (kind t) 25) (= (kind t) 1) (= (kind t) 2) (= (kind t) 3) (= (kind t) 4))
  (body (=> (isX t) (not (PErr t)) (startsAt t) (and (startsDA (T_GetText (T_GetChild_i t 0))) (or (= (kind t) 25) (pathKind (kind (T_GetChild_i t 0))))))))
(lemma anchored-starts ((t Tree)) (pat (startsAt t)) (split (= (kind t) 25) (= (kind t) 1) (= (kind t) 2) (= (kind t) 3) (= (kind t) 4)) (induct (size t))
  (hyp (sub0 t)) (hyp (miLeft t)) (hyp (T_Expression t))
  (body (=> (isX t) (not (PErr t)) (anchored (PS t)) (startsDA (T_GetText t)) (startsAt t))))

(lemma wfx-snoc ((q Q_Expr) (x Expr) (k Int)) (pat (AllWFX (snoc q x) k)) (induct k) (hyp q x (- k 1))
  (body (=> (AllWFX q (len q)) (<= k (len q)) (AllWFX (snoc q x) k))))
(lemma wfs-snoc ((q Q_Sel) (x Sel) (k Int)) (pat (AllWFS (snoc q x) k)) (induct k) (hyp q x (- k 1))
  (body (=> (AllWFS q (len q)) (<= k (len q)) (AllWFS (snoc q x) k))))
(axiom slen-zero (forall ((s Str)) (= (= (slen s) 0) (= s "")) (pat (slen s))))
(lemma wfs-sub ((q Q_Sel) (n Int) (k Int)) (pat (AllWFS (sub q 0 n) k)) (induct k) (hyp q n (- k 1))
  (body (=> (AllWFS q (len q)) (<= k n) (<= n (len q)) (AllWFS (sub q 0 n) k))))
(template cxs ((r Q_Expr mod) (q Q_Tree const) (k Int modp)) (= r (CXsN q k)))
(template cerrs ((q Q_Tree const) (k Int modp)) (not (CErrsN q k)))
(template cxswf ((r Q_Expr mod)) (AllWFX r (len r)))
(template bsels ((r Q_Sel mod) (q Q_Tree const) (k Int modp)) (= r (BSelsN q k)))
(template isels ((r Q_Sel mod) (q Q_Tree const) (k Int modp)) (= r (ISelsN q k)))
(template berrs ((q Q_Tree const) (k Int modp)) (not (BErrN q k)))
(template ierrs ((q Q_Tree const) (k Int modp)) (not (IErrN q k)))
(template selswf ((r Q_Sel mod)) (AllWFS r (len r)))

(contract astElementList (ctx) aux
  (measure (size ctx) 0)
  (results r err)
  (requires (Good ctx) (AllGoodX (T_AllExpression ctx) (size ctx))) (modifies)
  (ensures (= (!= err nil_Err) (CErrs (T_AllExpression ctx)))
    (=> (= err nil_Err) (and (= r (CXs (T_AllExpression ctx))) (AllWFX r (len r))))))
(contract astBracketedExpressionSelector (ctx) aux
  (measure (size ctx) 4)
  (results r err)
  (requires (isX ctx)) (modifies)
  (ensures (= (!= err nil_Err) (BErr ctx)) (=> (= err nil_Err) (and (= r (BSel ctx)) (WFS r)))))
(contract astSlice (ctx) aux
  (measure (size ctx) 0)
  (results r err)
  (requires (GoodK ctx K_SliceContext)) (modifies)
  (ensures (= (!= err nil_Err) (SLErr ctx)) (=> (= err nil_Err) (and (= r (SL ctx)) (WFS r)))))
(contract astBracketedSelector (ctxs) aux
  (measure (MaxSize ctxs) 0)
  (results r err) (fresh r)
  (requires (exists ((n Int)) (AllGoodI ctxs n)) (< 0 (len ctxs))) (modifies)
  (ensures (= (!= err nil_Err) (IErrN ctxs (len ctxs)))
    (=> (= err nil_Err) (and (= (. r selectors) (seq Sel (bracket (ISelsN ctxs (len ctxs))))) (= (. r recursive) (seq Bool false)) (WFPath (. r selectors) (. r recursive))))))
(contract astBracketedSelectorExpressions (ctxs) aux
  (measure (MaxSize ctxs) 0)
  (results r err) (fresh r)
  (requires (exists ((n Int)) (AllGoodX ctxs n))) (modifies)
  (ensures (= (!= err nil_Err) (BErrN ctxs (len ctxs)))
    (=> (= err nil_Err) (and (= (. r selectors) (seq Sel (bracket (BSelsN ctxs (len ctxs))))) (= (. r recursive) (seq Bool false)) (WFPath (. r selectors) (. r recursive))))))
(contract astPath (ctx)
  (measure (size ctx) 2)
  (results r err) (fresh r)
  (requires (isX ctx)) (modifies)
  (ensures (= (!= err nil_Err) (PErr ctx))
    (=> (= err nil_Err) (and (= (. r selectors) (PS ctx)) (= (. r recursive) (PR ctx)) (WFPath (. r selectors) (. r recursive)) (< 0 (len (. r selectors)))))))

; The value of a call
(define CallErr ((t Tree) (d Doc) (p Q_Seg)) Bool
  (cond ((isPathX (T_Expression t)) (or (not (FnKnown (get keySelector key (lastSel (T_Expression t))))) (AnyErr (CXs (arguments t)) d p)))
        ((= (kind (T_Expression t)) K_IdentifierExpressionContext) (or (not (FnKnown (T_GetText (T_Expression t)))) (AnyErr (CXs (arguments t)) d p)))
        (or (EvalErr (CX (sub0 (T_Expression t)) false) d p) (not (FnKnown (T_GetText (sub1 (T_Expression t))))) (AnyErr (CXs (arguments t)) d p))))
(define pathValue ((s Q_Sel) (r Q_Bool) (d Doc) (p Q_Seg)) Any (pathVal (EvalAt d s r (empty Q_Seg) 0 (startAt s p)) d))
(define CallV ((t Tree) (d Doc) (p Q_Seg)) Any
  (cond ((isPathX (T_Expression t))
          (let ((x (T_Expression t)))
            (FnVal (get keySelector key (lastSel x))
              (Vals (seq Any (valOf (pathValue (sub (PS x) 0 (- (len (PS x)) 1)) (butLast (PR x)) d p))) (CXs (arguments t)) d p))))
        ((= (kind (T_Expression t)) K_IdentifierExpressionContext) (FnVal (T_GetText (T_Expression t)) (Vals (empty Any) (CXs (arguments t)) d p)))
        (FnVal (T_GetText (sub1 (T_Expression t))) (Vals (seq Any (valOf (EvalV (CX (sub0 (T_Expression t)) false) d p))) (CXs (arguments t)) d p))))
(contract astArgumentExpression (ctx) aux
  (measure (size ctx) 0)
  (results e err)
  (requires (isX ctx) (= (kind ctx) K_ArgumentsExpressionContext)) (modifies)
  (ensures (= (!= err nil_Err) (ArgErr ctx)) (=> (= err nil_Err) (WFX e)))
  (ensures-for ((d Doc) (p Q_Seg)) (pat (EvalErr e d p))
    (=> (= err nil_Err) (= (EvalErr e d p) (CallErr ctx d p))))
  (ensures-for ((d Doc) (p Q_Seg)) (pat (EvalV e d p))
    (=> (= err nil_Err) (= (EvalV e d p) (CallV ctx d p)))))

(define V ((t Tree) (d Doc) (p Q_Seg)) Any (valOf (EvalV (CX t false) d p)))
(define E ((t Tree) (d Doc) (p Q_Seg)) Bool (EvalErr (CX t false) d p))
(define arithKind ((t Tree)) Int
  (cond ((= (kind t) K_AdditiveExpressionContext) (ite (= (Op t) "+") 1 2))
        ((= (kind t) K_PowerExpressionContext) 6)
        (cond ((= (Op t) "*") 3) ((= (Op t) "/") 4) 5)))
; the value of the expression for a tree
(define MV ((t Tree) (d Doc) (p Q_Seg)) Any
  (cond ((= (kind t) K_UnaryMinusExpressionContext) (negate (num1 (V (T_Expression t) d p))))
        ((or (= (kind t) K_UnaryPlusExpressionContext) (= (kind t) K_ParenthesizedExpressionContext)) (EvalV (CX (T_Expression t) false) d p))
        ((= (kind t) K_NotExpressionContext) (ABool (not (truthy (EvalV (CX (T_Expression t) false) d p)))))
        ((= (kind t) K_EqualityExpressionContext)
          (ABool (cond ((= (Op t) "==") (eq2 (V (sub0 t) d p) (V (sub1 t) d p))) ((= (Op t) "!=") (not (eq2 (V (sub0 t) d p) (V (sub1 t) d p))))
             ((= (Op t) "===") (eq3 (V (sub0 t) d p) (V (sub1 t) d p))) (not (eq3 (V (sub0 t) d p) (V (sub1 t) d p))))))
        ((= (kind t) K_LogicalAndExpressionContext) (ABool (and (truthy1 (V (sub0 t) d p)) (truthy1 (V (sub1 t) d p)))))
        ((= (kind t) K_LogicalOrExpressionContext) (ABool (or (truthy1 (V (sub0 t) d p)) (truthy1 (V (sub1 t) d p)))))
        ((= (kind t) K_RelationalExpressionContext)
          (ABool (relVal (cond ((= (Op t) "<") 1) ((= (Op t) "<=") 2) ((= (Op t) ">") 3) 4) (V (sub0 t) d p) (V (sub1 t) d p))))
        ((or (= (kind t) K_MultiplicativeExpressionContext) (= (kind t) K_AdditiveExpressionContext) (= (kind t) K_PowerExpressionContext))
          (arith (arithKind t) (num1 (V (sub0 t) d p)) (num1 (V (sub1 t) d p))))
        ((= (kind t) K_InExpressionContext) (inVal (V (sub0 t) d p) (V (sub1 t) d p)))
        ((= (kind t) K_ArrayLiteralExpressionContext) (AArr (Vals (empty Any) (CXs (elements t)) d p)))
        (pathValue (PS t) (PR t) d p)))
(define ME ((t Tree) (d Doc) (p Q_Seg)) Bool
  (cond ((or (= (kind t) K_UnaryMinusExpressionContext) (= (kind t) K_UnaryPlusExpressionContext) (= (kind t) K_ParenthesizedExpressionContext)
             (= (kind t) K_NotExpressionContext)) (E (T_Expression t) d p))
        ((= (kind t) K_LogicalAndExpressionContext) (or (E (sub0 t) d p) (and (truthy1 (V (sub0 t) d p)) (E (sub1 t) d p))))
        ((= (kind t) K_LogicalOrExpressionContext) (or (E (sub0 t) d p) (and (not (truthy1 (V (sub0 t) d p))) (E (sub1 t) d p))))
        ((supported2 (kind t)) (or (E (sub0 t) d p) (E (sub1 t) d p)))
        ((= (kind t) K_ArrayLiteralExpressionContext) (AnyErr (CXs (elements t)) d p))
        false))
(define MVP ((t Tree) (d Doc) (p Q_Seg)) Any
  (ite (= (kind t) K_FilterExpressionContext) (ABool (truthy (EvalV (CX (T_Expression t) false) d p))) (AStr (T_GetText t))))
(define MEP ((t Tree) (d Doc) (p Q_Seg)) Bool (and (= (kind t) K_FilterExpressionContext) (E (T_Expression t) d p)))
(contract astExpression (ctx inPath)
  (measure (size ctx) (ite inPath 1 3))
  (results e err)
  (requires (isX ctx)) (modifies)
  (determines (=> (= err nil_Err) (= e (CX ctx inPath))))
  (ensures (= (!= err nil_Err) (CErr ctx inPath)) (=> (= err nil_Err) (WFX e)))
  (ensures-for ((d Doc) (p Q_Seg))
    (=> (= err nil_Err) (= (kind ctx) K_LiteralExpressionContext) (and (not (EvalErr e d p)) (= (EvalV e d p) (LitV (T_Literal ctx)))))
    (=> (= err nil_Err) (= (kind ctx) K_ArgumentsExpressionContext) (and (= (EvalErr e d p) (CallErr ctx d p)) (= (EvalV e d p) (CallV ctx d p))))
    (=> (= err nil_Err) (not inPath) (!= (kind ctx) K_LiteralExpressionContext) (!= (kind ctx) K_ArgumentsExpressionContext)
      (= (EvalErr e d p) (ME ctx d p)))
    (=> (= err nil_Err) (not inPath) (!= (kind ctx) K_LiteralExpressionContext) (!= (kind ctx) K_ArgumentsExpressionContext)
      (not (EvalErr e d p)) (= (EvalV e d p) (MV ctx d p)))
    (=> (= err nil_Err) inPath (!= (kind ctx) K_LiteralExpressionContext) (!= (kind ctx) K_ArgumentsExpressionContext)
      (and (= (EvalErr e d p) (MEP ctx d p)) (= (EvalV e d p) (MVP ctx d p))))))
