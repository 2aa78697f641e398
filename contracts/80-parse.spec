; Parsing ---------------------------------------------------------------------------
; C19: the steps of a path with '/'
(define SPStep ((t Tree)) Sel
  (cond ((and (!= (T_Literal t) nil_Tree) (!= (T_StringLiteral (T_Literal t)) nil_Tree)) (mk keySelector (Unesc (T_GetText (T_StringLiteral (T_Literal t)))) nil_Expr))
        ((!= (T_Literal t) nil_Tree) (mk keySelector (T_GetText (T_Literal t)) nil_Expr))
        ((!= (T_Identifier t) nil_Tree) (mk keySelector (T_GetText (T_Identifier t)) nil_Expr))
        (mk wildcardSelector)))
(defrec SPS ((t Tree)) Q_Sel (ite (= (len (T_AllSimplePathExpr t)) 0) (seq Sel (SPStep t)) (cat (SPS (ssub t 0)) (SPS (ssub t 1)))))
(defrec SPR ((t Tree)) Q_Bool (ite (= (len (T_AllSimplePathExpr t)) 0) (seq Bool false) (cat (SPR (ssub t 0)) (SPR (ssub t 1)))))
(contract astSimplePath (ctx)
  (measure (size ctx))
  (results r err)
  (requires (GoodK ctx K_SimplePathExprContext)) (modifies)
  (ensures (= err nil_Err) (= (. r selectors) (SPS ctx)) (= (. r recursive) (SPR ctx)) (WFPath (. r selectors) (. r recursive)) (< 0 (len (. r selectors)))))
; C23: what the lexer and the parser find wrong with a text, and the tree of a
; text with no errors
(fun LexErr_Path (Str) Bool) (fun ParseErr_Path (Str) Bool) (fun Tree_Path (Str) Tree)
(fun LexErr_SimplePath (Str) Bool) (fun ParseErr_SimplePath (Str) Bool) (fun Tree_SimplePath (Str) Tree)
(axiom prefix-slash (forall ((s Str)) (= (has_prefix s "/") (and (< 0 (slen s)) (= (str_byte s 0) 47))) (pat (has_prefix s "/"))))
(define isSimple ((s Str)) Bool (and (< 0 (slen s)) (= (str_byte s 0) 47)))
(define SyntaxErr ((s Str)) Bool
  (ite (isSimple s) (or (LexErr_SimplePath s) (ParseErr_SimplePath s)) (or (LexErr_Path s) (ParseErr_Path s))))
(define pathTree ((s Str)) Tree (T_Expression (Tree_Path s)))
(define simpleTree ((s Str)) Tree (T_SimplePathExpr (Tree_SimplePath s)))
(contract Parse (input)
  (results r err) (modifies)
  (ensures
    (=> (= input "/") (and (= err nil_Err) (= (. r selectors) (seq Sel (mk rootElementSelector))) (= (. r recursive) (seq Bool false))))
    (=> (!= input "/") (SyntaxErr input) (!= err nil_Err))
    (=> (!= input "/") (not (SyntaxErr input)) (isSimple input)
      (and (= err nil_Err) (= (. r selectors) (cat (seq Sel (mk rootElementSelector)) (SPS (simpleTree input))))
        (= (. r recursive) (cat (seq Bool false) (SPR (simpleTree input))))))
    (=> (!= input "/") (not (SyntaxErr input)) (not (isSimple input))
      (and (= (!= err nil_Err) (PErr (pathTree input)))
        (=> (= err nil_Err) (and (= (. r selectors) (PS (pathTree input))) (= (. r recursive) (PR (pathTree input)))))))
    (=> (= err nil_Err) (WFPath (. r selectors) (. r recursive)))))
; C01: the matches of the path a text spells
(define ParseFail ((s Str)) Bool (and (!= s "/") (or (SyntaxErr s) (and (not (isSimple s)) (PErr (pathTree s))))))
(define ParsedS ((s Str)) Q_Sel
  (cond ((= s "/") (seq Sel (mk rootElementSelector)))
        ((isSimple s) (cat (seq Sel (mk rootElementSelector)) (SPS (simpleTree s))))
        (PS (pathTree s))))
(define ParsedR ((s Str)) Q_Bool
  (cond ((= s "/") (seq Bool false))
        ((isSimple s) (cat (seq Bool false) (SPR (simpleTree s))))
        (PR (pathTree s))))
(contract ParseAndFind (doc path)
  (results v err)
  (requires (!= doc nil_Doc))
  (modifies)
  (ensures (= (!= err nil_Err) (ParseFail path))
    (=> (= err nil_Err) (let ((m (Matches doc (ParsedS path) (ParsedR path)))) (= v (LastsN m (len m)))))))
