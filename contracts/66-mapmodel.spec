; MapModel: maps, slices and values ------------------------------------------------
; C24. The order in which a range statement visits a map is unknown: KeyOrder
; says that q has all the keys of m, each once
(fun KeyOrder (Map Q_Str) Bool) (fun key_at (Q_Str Str) Int)
(axiom key-order-has (forall ((m Map) (q Q_Str) (k Str)) (=> (KeyOrder m q) (map_has m k)
    (and (<= 0 (key_at q k)) (< (key_at q k) (len q)) (= (at q (key_at q k)) k))) (pat (KeyOrder m q) (map_has m k))))
(axiom key-order-keys (forall ((m Map) (q Q_Str) (i Int)) (=> (KeyOrder m q) (<= 0 i) (< i (len q))
    (and (map_has m (at q i)) (= (key_at q (at q i)) i))) (pat (KeyOrder m q) (at q i))))
(axiom map-len (forall ((m Map)) (and (<= 0 (map_len m)) (<= (map_len m) 4611686018427387904)) (pat (map_len m))))
(axiom key-order-len (forall ((m Map) (q Q_Str)) (=> (KeyOrder m q) (= (len q) (map_len m))) (pat (KeyOrder m q))))
(template rangekeys ((r Q_Str mod) (q Q_Str const) (k Int modp)) (= r (sub q 0 k)))

(define MMType ((n Any)) Int (cond ((is AMap n) 1) ((is AArr n) 2) 0))
(contract MapModel.Root (m) (results r) (modifies) (ensures (= r (. m Doc))))
(contract MapModel.Type (m in) (results r) (modifies) (ensures (= r (MMType in))))
(contract MapModel.Len (m in) (results r) (modifies)
  (ensures (=> (is AArr in) (= r (len (a_l in)))) (=> (is AMap in) (= r (map_len (a_m in)))) (<= 0 r)))
(contract MapModel.Key (m in key) (results v ok) (modifies)
  (ensures (= ok (and (is AMap in) (map_has (a_m in) key))) (=> ok (= v (map_get (a_m in) key)))))
(contract MapModel.Keys (m in) (results r) (modifies)
  (ensures (=> (is AMap in) (KeyOrder (a_m in) r)) (=> (not (is AMap in)) (= (len r) 0))))
(contract MapModel.Elem (m in index) (results v)
  (requires (=> (is AArr in) (and (<= 0 index) (< index (len (a_l in))))))
  (modifies)
  (ensures (=> (is AArr in) (= v (at (a_l in) index)))))
(contract MapModel.Value (m in) (results v) (modifies) (ensures (= v in)))
; what the search assumes of a document model holds for MapModel
(lemma mm-type ((n Any)) (pat (MMType n)) (nouse) (body (and (<= 0 (MMType n)) (<= (MMType n) 2))))
(lemma mm-has ((m Map) (q Q_Str) (k Str)) (pat (KeyOrder m q) (map_has m k)) (nouse)
  (body (=> (KeyOrder m q) (map_has m k) (and (<= 0 (key_at q k)) (< (key_at q k) (len q)) (= (at q (key_at q k)) k)))))
(lemma mm-keys ((m Map) (q Q_Str) (i Int)) (pat (KeyOrder m q) (at q i)) (nouse)
  (body (=> (KeyOrder m q) (<= 0 i) (< i (len q)) (and (map_has m (at q i)) (= (key_at q (at q i)) i)))))
