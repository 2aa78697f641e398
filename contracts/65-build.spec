; Paths built by the caller -------------------------------------------------------
; C20: Append gives the steps of its arguments, one after the other
(defrec CatSels ((q Q_Path) (k Int)) Q_Sel (ite (<= k 0) (empty Sel) (cat (CatSels q (- k 1)) (p_sels (at q (- k 1))))))
(defrec CatRecs ((q Q_Path) (k Int)) Q_Bool (ite (<= k 0) (empty Bool) (cat (CatRecs q (- k 1)) (p_recs (at q (- k 1))))))
(defrec AllWFPaths ((q Q_Path) (k Int)) Bool
  (ite (<= k 0) true (and (AllWFPaths q (- k 1)) (WFPath (p_sels (at q (- k 1))) (p_recs (at q (- k 1)))))))
(lemma all-wfpaths ((q Q_Path) (k Int) (i Int)) (pat (AllWFPaths q k) (at q i)) (induct k) (hyp q (- k 1) i)
  (body (=> (AllWFPaths q k) (<= 0 i) (< i k) (WFPath (p_sels (at q i)) (p_recs (at q i))))))
(lemma wfs-cat ((a Q_Sel) (b Q_Sel) (k Int)) (pat (AllWFS (cat a b) k)) (induct k) (hyp a b (- k 1))
  (body (=> (AllWFS a (len a)) (AllWFS b (len b)) (<= k (+ (len a) (len b))) (AllWFS (cat a b) k))))
(template catsels ((r Q_Sel mod) (q Q_Path const) (k Int modp)) (= r (CatSels q k)))
(template catrecs ((r Q_Bool mod) (q Q_Path const) (k Int modp)) (= r (CatRecs q k)))
(template catwf ((r Q_Sel mod) (s Q_Bool mod)) (WFPath r s))
(contract Append (p)
  (results r)
  (requires (AllWFPaths p (len p)))
  (modifies)
  (ensures (= (. r selectors) (CatSels p (len p))) (= (. r recursive) (CatRecs p (len p))) (WFPath (. r selectors) (. r recursive))))
(contract RecursiveDescent (p)
  (results r)
  (requires (WFPath (. p selectors) (. p recursive)))
  (modifies)
  (ensures (= (. r selectors) (. p selectors))
    (= (. r recursive) (ite (= (len (. p recursive)) 0) (. p recursive) (upd (. p recursive) (- (len (. p recursive)) 1) true)))
    (WFPath (. r selectors) (. r recursive))))
(contract KeySelectorPath (k)
  (results r) (modifies)
  (ensures (= (. r selectors) (seq Sel (mk keySelector k nil_Expr))) (= (. r recursive) (seq Bool false)) (WFPath (. r selectors) (. r recursive))))
; an index step on a constant
(contract IndexSelectorPath (i)
  (results r) (modifies)
  (ensures (= (. r selectors) (seq Sel (mk indexSelector (mk exprValue (AInt i))))) (= (. r recursive) (seq Bool false)) (WFPath (. r selectors) (. r recursive))))
(define OnePath ((p Path) (s Sel)) Bool (and (= (p_sels p) (seq Sel s)) (= (p_recs p) (seq Bool false)) (WFPath (p_sels p) (p_recs p))))
(contract init () (results) (modifies)
  (ensures (OnePath (global SelectRootPath) (mk rootElementSelector)) (OnePath (global SelectCurrentPath) (mk currentElementSelector))
    (OnePath (global WildcardPath) (mk wildcardSelector))))
