; What is left to do --------------------------------------------------------------
; Loops and recursion end: each contract of a recursive function has a measure
; which each call decreases, in lexicographic order. Sizes of expressions, steps
; and functions, which are finite, as are documents
(fun ESize (Expr) Int) (fun SelSize (Sel) Int) (fun FSize (Fun) Int) (fun DSize (Doc Any) Int) (fun LLen (LSeg) Int)
(axiom esize-pos (forall ((e Expr)) (<= 1 (ESize e)) (pat (ESize e))))
(axiom selsize-pos (forall ((s Sel)) (<= 0 (SelSize s)) (pat (SelSize s))))
(axiom fsize-pos (forall ((f Fun)) (<= 0 (FSize f)) (pat (FSize f))))
(axiom dsize-pos (forall ((d Doc) (n Any)) (<= 0 (DSize d n)) (pat (DSize d n))))
(axiom llen-pos (forall ((l LSeg)) (<= 0 (LLen l)) (pat (LLen l))))
(axiom llen-tl (forall ((l LSeg)) (=> (not (is LNil l)) (= (LLen l) (+ 1 (LLen (l_tl l))))) (pat (LLen l))))
(defrec SelsSize ((q Q_Sel) (i Int)) Int (ite (<= (len q) i) 0 (+ (+ 1 (SelSize (at q i))) (SelsSize q (+ i 1)))))
(defrec ExprsSize ((q Q_Expr) (i Int)) Int (ite (<= (len q) i) 0 (+ (+ 1 (ESize (at q i))) (ExprsSize q (+ i 1)))))
(lemma sels-pos ((q Q_Sel) (i Int)) (pat (SelsSize q i)) (induct (- (len q) i)) (hyp q (+ i 1)) (body (<= 0 (SelsSize q i))))
(lemma exprs-pos ((q Q_Expr) (i Int)) (pat (ExprsSize q i)) (induct (- (len q) i)) (hyp q (+ i 1)) (body (<= 0 (ExprsSize q i))))
(lemma sels-in ((q Q_Sel) (i Int) (j Int)) (pat (SelsSize q i) (SelSize (at q j))) (split (< i j)) (induct (- j i)) (hyp q (+ i 1) j)
  (body (=> (<= 0 i) (<= i j) (< j (len q)) (< (SelSize (at q j)) (SelsSize q i)))))
(lemma exprs-in ((q Q_Expr) (i Int) (j Int)) (pat (ExprsSize q i) (ESize (at q j))) (split (< i j)) (induct (- j i)) (hyp q (+ i 1) j)
  (body (=> (<= 0 i) (<= i j) (< j (len q)) (< (ESize (at q j)) (ExprsSize q i)))))
(case ESize unaryMinusExpression () (+ 1 (ESize expr)))
(case ESize filterExpression () (+ 1 (ESize expr)))
(case ESize notExpression () (+ 1 (ESize expr)))
(case ESize equalityExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize equality3Expression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize landExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize lorExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize addExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize subExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize mulExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize divExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize modExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize powExpression () (+ 1 (+ (ESize left) (ESize right))))
(case ESize inExpression () (+ 3 (+ (ESize left) (ESize right)))) ; it compares values
(case ESize exprValue () 1)
(case ESize relationalExpression () (+ 1 (FSize op)))
(case ESize arrayExpression () (+ 1 (ExprsSize arr 0)))
(case ESize functionCallExpression () (+ 1 (ExprsSize args 0)))
(case ESize methodCallExpression () (+ 1 (+ (ESize receiver) (ExprsSize args 0))))
(case ESize pathExpression () (+ 1 (SelsSize path.selectors 0)))
(case SelSize unionSelector () (+ 1 (SelsSize parts 0)))
(case SelSize keySelector () (+ 1 (ESize expr)))
(case SelSize filterSelector () (+ 1 (ESize filter)))
(case SelSize indexSelector () (+ 1 (ESize index)))
(case SelSize rangeSelector () (+ 1 (+ (ESize start) (ESize end))))
(case SelSize sliceSelector () (+ 1 (+ (ESize start) (+ (ESize end) (ESize step)))))
