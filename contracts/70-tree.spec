; Parse trees --------------------------------------------------------------------
; The nodes of the tree the generated parser builds from Jsonpath.g4. What the
; grammar says about them is assumed here (axioms named good-...): the parser is
; generated code, and the axioms are checked on parse trees at run time by the
; harness. All of this is about input without syntax errors.
(fun kind (Tree) Int)
(define K_ChainExpressionContext () Int 1)
(define K_RecursiveDescentExpressionContext () Int 2)
(define K_RecursiveDescentTermExpressionContext () Int 3)
(define K_MemberIndexExpressionContext () Int 4)
(define K_RecursiveDescentMemberIndexExpressionContext () Int 5)
(define K_ArgumentsExpressionContext () Int 6)
(define K_UnaryPlusExpressionContext () Int 7)
(define K_UnaryMinusExpressionContext () Int 8)
(define K_BitNotExpressionContext () Int 9)
(define K_NotExpressionContext () Int 10)
(define K_PowerExpressionContext () Int 11)
(define K_MultiplicativeExpressionContext () Int 12)
(define K_AdditiveExpressionContext () Int 13)
(define K_RelationalExpressionContext () Int 14)
(define K_InExpressionContext () Int 15)
(define K_EqualityExpressionContext () Int 16)
(define K_BitAndExpressionContext () Int 17)
(define K_BitXOrExpressionContext () Int 18)
(define K_BitOrExpressionContext () Int 19)
(define K_LogicalAndExpressionContext () Int 20)
(define K_LogicalOrExpressionContext () Int 21)
(define K_LiteralExpressionContext () Int 22)
(define K_ArrayLiteralExpressionContext () Int 23)
(define K_IdentifierExpressionContext () Int 24)
(define K_SelectorExpressionContext () Int 25)
(define K_ParenthesizedExpressionContext () Int 26)
(define K_FilterExpressionContext () Int 27)
(define K_TerminalNodeImpl () Int 28)
(define K_LiteralContext () Int 29)
(define K_NumericLiteralContext () Int 30)
(define K_SliceContext () Int 31)
(define K_IndexExpressionContext () Int 32)
(define K_ArgumentsContext () Int 33)
(define K_ArrayLiteralContext () Int 34)
(define K_ElementListContext () Int 35)
(define K_SelectorContext () Int 36)
(define K_IdentifierContext () Int 37)
(define K_SimplePathContext () Int 38)
(define K_SimplePathExprContext () Int 39)
(define K_PathContext () Int 40)
(define K_ExpressionContext () Int 41)
(define tree_is_TerminalNode ((t Tree)) Bool (= (kind t) 28))
(define tree_is_IExpressionContext ((t Tree)) Bool (and (<= 1 (kind t)) (<= (kind t) 27)))
(axiom kind-nil (= (kind nil_Tree) 0))

(fun Good (Tree) Bool) ; a node of a parse tree without errors
(define isX ((t Tree)) Bool (and (Good t) (<= 1 (kind t)) (<= (kind t) 27)))
(fun size (Tree) Int)
(fun kid (Tree Int) Tree) (fun shape (Tree) Int)
(axiom good-size (forall ((t Tree)) (=> (Good t) (and (!= t nil_Tree) (<= 1 (kind t)) (<= 1 (size t)))) (pat (Good t))))

; Accessors
(fun T_GetText (Tree) Str)
(fun T_GetChildren (Tree) Q_Tree) (fun T_GetChild_i (Tree Int) Tree) (fun T_GetChildCount (Tree) Int)
(fun T_Expression (Tree) Tree) (fun T_AllExpression (Tree) Q_Tree) (fun T_Expression_i (Tree Int) Tree)
(fun T_Selector (Tree) Tree) (fun T_Literal (Tree) Tree) (fun T_Identifier (Tree) Tree)
(fun T_ArrayLiteral (Tree) Tree) (fun T_ElementList (Tree) Tree) (fun T_Arguments (Tree) Tree)
(fun T_AllIndexExpression (Tree) Q_Tree) (fun T_IndexExpression_i (Tree Int) Tree) (fun T_Slice (Tree) Tree)
(fun T_NullLiteral (Tree) Tree) (fun T_BooleanLiteral (Tree) Tree) (fun T_NumericLiteral (Tree) Tree) (fun T_StringLiteral (Tree) Tree)
(fun T_DecimalLiteral (Tree) Tree) (fun T_HexIntegerLiteral (Tree) Tree) (fun T_OctalIntegerLiteral2 (Tree) Tree) (fun T_BinaryIntegerLiteral (Tree) Tree)
(fun T_SimplePathExpr (Tree) Tree) (fun T_AllSimplePathExpr (Tree) Q_Tree) (fun T_SimplePathExpr_i (Tree Int) Tree)

; expression op expression
(define binKind ((k Int)) Bool (or (= k 1) (= k 2) (and (<= 11 k) (<= k 21))))
; with one subexpression
(define oneKind ((k Int)) Bool (or (and (<= 3 k) (<= k 10)) (= k 26) (= k 27)))
(define sub0 ((t Tree)) Tree (T_Expression_i t 0))
(define sub1 ((t Tree)) Tree (T_Expression_i t 1))
(axiom good-bin (forall ((t Tree)) (=> (isX t) (binKind (kind t))
    (and (isX (T_Expression_i t 0)) (isX (T_Expression_i t 1)) (< (size (T_Expression_i t 0)) (size t)) (< (size (T_Expression_i t 1)) (size t))))
  (pat (T_Expression_i t 0)) (pat (T_Expression_i t 1)) (pat (T_AllExpression t))))
(axiom good-one (forall ((t Tree)) (=> (isX t) (oneKind (kind t)) (and (isX (T_Expression t)) (< (size (T_Expression t)) (size t)))) (pat (T_Expression t))))
(shapes AllExpression (when (and (isX t) (binKind (kind t))) (alt (seq Tree (sub0 t) (sub1 t)))))

; operators
(define opTok ((t Tree)) Tree (kid t (ite (or (= (shape t) 0) (= (shape t) 1)) 1 2)))
(define Op ((t Tree)) Str (T_GetText (opTok t)))
(define tok ((t Tree)) Bool (and (Good t) (= (kind t) 28)))
(fun SpText (Str) Bool)
(define spTok ((t Tree)) Bool (and (tok t) (SpText (T_GetText t))))
(axiom good-sp (forall ((s Str)) (=> (SpText s) (and (!= s "==") (!= s "===") (!= s "!=") (!= s "!==") (!= s "<") (!= s "<=") (!= s ">") (!= s ">=")
    (!= s "*") (!= s "/") (!= s "%") (!= s "+") (!= s "-") (!= s ":"))) (pat (SpText s))))
(define opKind ((k Int)) Bool (and (<= 11 k) (<= k 21)))
(define opOf ((k Int) (s Str)) Bool
  (cond ((= k K_MultiplicativeExpressionContext) (or (= s "*") (= s "/") (= s "%")))
        ((= k K_AdditiveExpressionContext) (or (= s "+") (= s "-")))
        ((= k K_RelationalExpressionContext) (or (= s "<") (= s "<=") (= s ">") (= s ">=")))
        ((= k K_EqualityExpressionContext) (or (= s "==") (= s "===") (= s "!=") (= s "!==")))
        true))
(axiom good-op (forall ((t Tree)) (=> (isX t) (opKind (kind t)) (opOf (kind t) (Op t))) (pat (Op t))))
(shapes GetChildren
  (when (and (isX t) (opKind (kind t)))
    (alt (seq Tree (sub0 t) (kid t 1) (sub1 t)) (= (shape t) 0) (tok (kid t 1)))
    (alt (seq Tree (sub0 t) (kid t 1) (kid t 2) (sub1 t)) (= (shape t) 1) (tok (kid t 1)) (spTok (kid t 2)))
    (alt (seq Tree (sub0 t) (kid t 1) (kid t 2) (sub1 t)) (= (shape t) 2) (spTok (kid t 1)) (tok (kid t 2)))
    (alt (seq Tree (sub0 t) (kid t 1) (kid t 2) (kid t 3) (sub1 t)) (= (shape t) 3) (spTok (kid t 1)) (tok (kid t 2)) (spTok (kid t 3))))
  (when (and (Good t) (= (kind t) K_SliceContext))
    (alt (seq Tree (kid t 0)) (= (shape t) 0) (colonTok (kid t 0)) (slice4 t nil_Tree nil_Tree nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1)) (= (shape t) 1) (colonTok (kid t 0)) (isX (kid t 1)) (slice4 t nil_Tree (kid t 1) nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1)) (= (shape t) 2) (colonTok (kid t 0)) (colonTok (kid t 1)) (slice4 t nil_Tree nil_Tree nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2)) (= (shape t) 3) (colonTok (kid t 0)) (isX (kid t 1)) (colonTok (kid t 2)) (slice4 t nil_Tree (kid t 1) nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2)) (= (shape t) 4) (colonTok (kid t 0)) (colonTok (kid t 1)) (isX (kid t 2)) (slice4 t nil_Tree nil_Tree (kid t 2) false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2) (kid t 3)) (= (shape t) 5) (colonTok (kid t 0)) (isX (kid t 1)) (colonTok (kid t 2)) (isX (kid t 3)) (slice4 t nil_Tree (kid t 1) (kid t 3) false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2)) (= (shape t) 6) (colonTok (kid t 0)) (isX (kid t 1)) (isX (kid t 2)) (slice4 t nil_Tree (kid t 1) (kid t 2) true))
    (alt (seq Tree (kid t 0) (kid t 1)) (= (shape t) 7) (isX (kid t 0)) (colonTok (kid t 1)) (slice4 t (kid t 0) nil_Tree nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2)) (= (shape t) 8) (isX (kid t 0)) (colonTok (kid t 1)) (isX (kid t 2)) (slice4 t (kid t 0) (kid t 2) nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2)) (= (shape t) 9) (isX (kid t 0)) (colonTok (kid t 1)) (colonTok (kid t 2)) (slice4 t (kid t 0) nil_Tree nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2) (kid t 3)) (= (shape t) 10) (isX (kid t 0)) (colonTok (kid t 1)) (isX (kid t 2)) (colonTok (kid t 3)) (slice4 t (kid t 0) (kid t 2) nil_Tree false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2) (kid t 3)) (= (shape t) 11) (isX (kid t 0)) (colonTok (kid t 1)) (colonTok (kid t 2)) (isX (kid t 3)) (slice4 t (kid t 0) nil_Tree (kid t 3) false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2) (kid t 3) (kid t 4)) (= (shape t) 12) (isX (kid t 0)) (colonTok (kid t 1)) (isX (kid t 2)) (colonTok (kid t 3)) (isX (kid t 4)) (slice4 t (kid t 0) (kid t 2) (kid t 4) false))
    (alt (seq Tree (kid t 0) (kid t 1) (kid t 2) (kid t 3)) (= (shape t) 13) (isX (kid t 0)) (colonTok (kid t 1)) (isX (kid t 2)) (isX (kid t 3)) (slice4 t (kid t 0) (kid t 2) (kid t 3) true)))
  (when (and (Good t) (= (kind t) K_SimplePathExprContext) (= (T_Literal t) nil_Tree) (= (T_Identifier t) nil_Tree) (= (len (T_AllSimplePathExpr t)) 0))
    (alt (seq Tree (kid t 0)) (tok (kid t 0)) (= (T_GetText (kid t 0)) "*"))))
; [start:end:step]; adj: there is no ':' before the step
(fun sl_start (Tree) Tree) (fun sl_end (Tree) Tree) (fun sl_step (Tree) Tree) (fun sl_adj (Tree) Bool)
(define slice4 ((t Tree) (a Tree) (b Tree) (c Tree) (adj Bool)) Bool
  (and (= (sl_start t) a) (= (sl_end t) b) (= (sl_step t) c) (= (sl_adj t) adj)
    (=> (!= a nil_Tree) (< (size a) (size t))) (=> (!= b nil_Tree) (< (size b) (size t))) (=> (!= c nil_Tree) (< (size c) (size t)))))
(define colonTok ((t Tree)) Bool (and (tok t) (= (T_GetText t) ":")))

; lists
(fun AllGoodX (Q_Tree Int) Bool) (fun AllGoodI (Q_Tree Int) Bool) ; and smaller than the second argument
(axiom good-listx (forall ((q Q_Tree) (n Int) (i Int)) (=> (AllGoodX q n) (<= 0 i) (< i (len q)) (and (isX (at q i)) (< (size (at q i)) n))) (pat (AllGoodX q n) (at q i))))
(axiom good-listi (forall ((q Q_Tree) (n Int) (i Int)) (=> (AllGoodI q n) (<= 0 i) (< i (len q))
    (and (Good (at q i)) (= (kind (at q i)) K_IndexExpressionContext) (< (size (at q i)) n))) (pat (AllGoodI q n) (at q i))))
(axiom good-index (forall ((t Tree)) (=> (isX t) (or (= (kind t) 4) (= (kind t) 5)) (and (AllGoodI (T_AllIndexExpression t) (size t)) (< 0 (len (T_AllIndexExpression t))))) (pat (T_AllIndexExpression t))))
(define GoodK ((t Tree) (k Int)) Bool (and (Good t) (= (kind t) k)))
(axiom good-arrlit (forall ((t Tree)) (=> (isX t) (= (kind t) 23) (and (GoodK (T_ArrayLiteral t) K_ArrayLiteralContext) (< (size (T_ArrayLiteral t)) (size t)))) (pat (T_ArrayLiteral t))))
(axiom good-elist (forall ((t Tree)) (=> (GoodK t K_ArrayLiteralContext) (and (GoodK (T_ElementList t) K_ElementListContext) (< (size (T_ElementList t)) (size t)))) (pat (T_ElementList t))))
(axiom good-elements (forall ((t Tree)) (=> (Good t) (or (= (kind t) K_ElementListContext) (= (kind t) K_ArgumentsContext)) (AllGoodX (T_AllExpression t) (size t))) (pat (T_AllExpression t))))
(axiom good-args (forall ((t Tree)) (=> (isX t) (= (kind t) 6) (and (GoodK (T_Arguments t) K_ArgumentsContext) (< (size (T_Arguments t)) (size t)))) (pat (T_Arguments t))))
(axiom good-indexexpr (forall ((t Tree)) (=> (GoodK t K_IndexExpressionContext)
    (and (= (= (T_Slice t) nil_Tree) (!= (T_Expression t) nil_Tree))
      (=> (!= (T_Slice t) nil_Tree) (and (GoodK (T_Slice t) K_SliceContext) (< (size (T_Slice t)) (size t))))
      (=> (!= (T_Expression t) nil_Tree) (and (isX (T_Expression t)) (< (size (T_Expression t)) (size t))))))
  (pat (T_Slice t)) (pat (T_Expression t))))

; leaves
(axiom good-selector (forall ((t Tree)) (=> (isX t) (= (kind t) 25) (and (GoodK (T_Selector t) K_SelectorContext)
    (or (= (T_GetText (T_Selector t)) "$") (= (T_GetText (T_Selector t)) "@") (= (T_GetText (T_Selector t)) "*"))
    (= (T_GetText t) (T_GetText (T_Selector t))))) (pat (T_Selector t))))
(axiom prefixes (and (has_prefix "@" "@") (not (has_prefix "@" "$")) (has_prefix "$" "$") (not (has_prefix "$" "@")) (not (has_prefix "*" "@")) (not (has_prefix "*" "$"))))
(axiom good-literal (forall ((t Tree)) (=> (isX t) (= (kind t) 22) (GoodK (T_Literal t) K_LiteralContext)) (pat (T_Literal t))))
(axiom good-text (forall ((t Tree)) (=> (isX t) (< 0 (slen (T_GetText t)))) (pat (T_GetText t))))
(define optTok ((t Tree)) Bool (or (= t nil_Tree) (tok t)))
; exactly one kind of literal
(define oneOf4 ((a Tree) (b Tree) (c Tree) (d Tree)) Bool
  (and (or (!= a nil_Tree) (!= b nil_Tree) (!= c nil_Tree) (!= d nil_Tree))
    (=> (!= a nil_Tree) (and (= b nil_Tree) (= c nil_Tree) (= d nil_Tree)))
    (=> (!= b nil_Tree) (and (= c nil_Tree) (= d nil_Tree)))
    (=> (!= c nil_Tree) (= d nil_Tree))))
(axiom good-lit (forall ((t Tree)) (=> (GoodK t K_LiteralContext)
    (and (oneOf4 (T_NullLiteral t) (T_BooleanLiteral t) (T_NumericLiteral t) (T_StringLiteral t))
      (optTok (T_NullLiteral t)) (optTok (T_BooleanLiteral t)) (optTok (T_StringLiteral t))
      (=> (!= (T_BooleanLiteral t) nil_Tree) (or (= (T_GetText (T_BooleanLiteral t)) "true") (= (T_GetText (T_BooleanLiteral t)) "false")))
      (=> (!= (T_NumericLiteral t) nil_Tree) (GoodK (T_NumericLiteral t) K_NumericLiteralContext))
      (=> (!= (T_StringLiteral t) nil_Tree) (<= 2 (slen (T_GetText (T_StringLiteral t)))))))
  (pat (T_NullLiteral t)) (pat (T_BooleanLiteral t)) (pat (T_NumericLiteral t)) (pat (T_StringLiteral t))))
(axiom good-number (forall ((t Tree)) (=> (GoodK t K_NumericLiteralContext)
    (and (oneOf4 (T_DecimalLiteral t) (T_HexIntegerLiteral t) (T_OctalIntegerLiteral2 t) (T_BinaryIntegerLiteral t))
      (optTok (T_DecimalLiteral t)) (optTok (T_HexIntegerLiteral t)) (optTok (T_OctalIntegerLiteral2 t)) (optTok (T_BinaryIntegerLiteral t))
      (=> (!= (T_HexIntegerLiteral t) nil_Tree) (<= 3 (slen (T_GetText (T_HexIntegerLiteral t)))))
      (=> (!= (T_OctalIntegerLiteral2 t) nil_Tree) (<= 3 (slen (T_GetText (T_OctalIntegerLiteral2 t)))))
      (=> (!= (T_BinaryIntegerLiteral t) nil_Tree) (<= 3 (slen (T_GetText (T_BinaryIntegerLiteral t)))))))
  (pat (T_DecimalLiteral t)) (pat (T_HexIntegerLiteral t)) (pat (T_OctalIntegerLiteral2 t)) (pat (T_BinaryIntegerLiteral t))))

; the first child
(axiom good-child0 (forall ((t Tree)) (=> (isX t)
    (and (Good (T_GetChild_i t 0))
      (=> (binKind (kind t)) (= (T_GetChild_i t 0) (T_Expression_i t 0)))
      (=> (or (and (<= 3 (kind t)) (<= (kind t) 6))) (= (T_GetChild_i t 0) (T_Expression t)))
      (=> (= (kind t) 25) (= (T_GetChild_i t 0) (T_Selector t)))
      (=> (or (and (<= 22 (kind t)) (<= (kind t) 24)) (and (<= 7 (kind t)) (<= (kind t) 10)) (= (kind t) 26) (= (kind t) 27)) (< 27 (kind (T_GetChild_i t 0))))
      (=> (and (<= 22 (kind t)) (<= (kind t) 24)) (!= (kind (T_GetChild_i t 0)) K_SelectorContext))
      (=> (or (and (<= 7 (kind t)) (<= (kind t) 10)) (= (kind t) 26) (= (kind t) 27)) (= (kind (T_GetChild_i t 0)) 28))))
  (pat (T_GetChild_i t 0))))
; a text starts like that of its first child
(define startsDA ((s Str)) Bool (or (has_prefix s "@") (has_prefix s "$")))
(axiom good-prefix (forall ((t Tree)) (=> (isX t) (or (binKind (kind t)) (and (<= 3 (kind t)) (<= (kind t) 6)) (= (kind t) 25))
    (and (= (has_prefix (T_GetText t) "@") (has_prefix (T_GetText (T_GetChild_i t 0)) "@"))
         (= (has_prefix (T_GetText t) "$") (has_prefix (T_GetText (T_GetChild_i t 0)) "$"))))
  (pat (T_GetText t))))
(axiom good-arraytext (forall ((t Tree)) (=> (isX t) (= (kind t) 23) (not (startsDA (T_GetText t)))) (pat (T_GetText t))))

; simple paths
(axiom good-simple (forall ((t Tree)) (=> (GoodK t K_SimplePathContext) (and (GoodK (T_SimplePathExpr t) K_SimplePathExprContext) (< (size (T_SimplePathExpr t)) (size t)))) (pat (T_SimplePathExpr t))))
(axiom good-simplex (forall ((t Tree)) (=> (GoodK t K_SimplePathExprContext)
    (and (=> (!= (T_Literal t) nil_Tree) (and (GoodK (T_Literal t) K_LiteralContext) (= (T_Identifier t) nil_Tree) (= (len (T_AllSimplePathExpr t)) 0)))
      (=> (!= (T_Identifier t) nil_Tree) (and (GoodK (T_Identifier t) K_IdentifierContext) (= (len (T_AllSimplePathExpr t)) 0)))
      (or (= (len (T_AllSimplePathExpr t)) 0) (= (len (T_AllSimplePathExpr t)) 2))))
  (pat (T_Literal t)) (pat (T_Identifier t)) (pat (T_AllSimplePathExpr t))))
(define ssub ((t Tree) (i Int)) Tree (at (T_AllSimplePathExpr t) i))
(axiom good-simplesub (forall ((t Tree) (i Int)) (=> (GoodK t K_SimplePathExprContext) (<= 0 i) (< i (len (T_AllSimplePathExpr t)))
    (and (GoodK (at (T_AllSimplePathExpr t) i) K_SimplePathExprContext) (< (size (at (T_AllSimplePathExpr t) i)) (size t))))
  (pat (at (T_AllSimplePathExpr t) i))))
(axiom good-path (forall ((t Tree)) (=> (GoodK t K_PathContext) (isX (T_Expression t))) (pat (T_Expression t))))
; the size of the largest tree of a list
(fun MaxSize (Q_Tree) Int)
(axiom maxsize-in (forall ((q Q_Tree) (i Int)) (=> (<= 0 i) (< i (len q)) (< (size (at q i)) (MaxSize q))) (pat (MaxSize q) (size (at q i)))))
(axiom maxsize-x (forall ((q Q_Tree) (n Int)) (=> (AllGoodX q n) (<= 0 n) (<= (MaxSize q) n)) (pat (MaxSize q) (AllGoodX q n))))
(axiom maxsize-i (forall ((q Q_Tree) (n Int)) (=> (AllGoodI q n) (<= 0 n) (<= (MaxSize q) n)) (pat (MaxSize q) (AllGoodI q n))))
