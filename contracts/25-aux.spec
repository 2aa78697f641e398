; Values which hold document nodes have their document
; (at every depth). AllOk is defined as: okv for all elements; ok_wit is the
; Skolem function of its negation
(fun okv (Any) Bool) (fun AllOk (Q_Any) Bool) (fun ok_wit (Q_Any) Int)
(axiom okv-def (forall ((x Any)) (= (okv x) (and (=> (is ANode x) (!= (an_d x) nil_Doc)) (=> (is AArr x) (AllOk (a_l x))))) (pat (okv x))))
(axiom all-ok (forall ((q Q_Any) (i Int)) (=> (AllOk q) (<= 0 i) (< i (len q)) (okv (at q i))) (pat (AllOk q) (at q i))))
(axiom all-ok-def (forall ((q Q_Any)) (or (AllOk q) (and (<= 0 (ok_wit q)) (< (ok_wit q) (len q)) (not (okv (at q (ok_wit q)))))) (pat (AllOk q))))
(axiom doc-value (forall ((d Doc) (n Any)) (and (not (is ANode (d_value d n))) (okv (d_value d n))) (pat (d_value d n))))

(define intOf ((x Any)) Int (ite (is AInt x) (a_i x) (f2i (a_f x))))
(define isNum ((x Any)) Bool (not (is ANil (NumOf x))))

; Auxiliary contracts: a function which does not have its contract is verified
; as a part of its callers
(contract exprValue.getValue (c) aux (results v) (requires (okv c)) (ensures (= v (valOf c)) (okv v)))
(contract exprValue.asBool (c) aux (results b) (requires (okv c)) (ensures (= b (truthy c))))
(contract valueAsNumber (x) aux (measure (ite (is ANode x) 1 0)) (results v) (requires (okv x)) (ensures (= v (NumOf x))))
(contract valueAsInt (x) aux (results i ok) (requires (okv x))
  (ensures (= ok (isNum x)) (=> ok (= i (intOf (NumOf x))))))
