; String literals ------------------------------------------------------------------
; C15: the characters a literal stands for. It is given by its characters between
; the quotes; what an unfinished escape at the end stands for is of no interest
; (the grammar has none): it stands for nothing
(define BS () Int 92)
(define isLineEnd ((c Int)) Bool (or (= c 10) (= c 13) (= c 8232) (= c 8233)))
; \b \f \n \r \t \v \0; any other character stands for itself
(define escaped ((c Int)) Int
  (cond ((= c 98) 8) ((= c 102) 12) ((= c 110) 10) ((= c 114) 13) ((= c 116) 9) ((= c 118) 11) ((= c 48) 0) c))
(define hexOf ((q Q_Int)) Int (parse_int (s_of_runes q) 16 32))
; the first } at or after i
(defrec closeAt ((q Q_Int) (i Int)) Int
  (cond ((<= (len q) i) (len q)) ((= (at q i) 125) i) (closeAt q (+ i 1))))
(defrec Dec ((q Q_Int) (i Int)) Q_Int
  (cond ((<= (len q) i) (empty Int))
        ((and (!= (at q i) BS) (!= (at q i) 10) (!= (at q i) 13)) (cat (seq Int (at q i)) (Dec q (+ i 1))))
        ((!= (at q i) BS) (Dec q (+ i 1)))
        ((<= (len q) (+ i 1)) (empty Int))
        ((= (at q (+ i 1)) 120) ; \xHH
          (ite (<= (len q) (+ i 3)) (empty Int) (cat (seq Int (hexOf (sub q (+ i 2) (+ i 4)))) (Dec q (+ i 4)))))
        ((and (= (at q (+ i 1)) 117) (< (+ i 2) (len q)) (= (at q (+ i 2)) 123)) ; \u{H...}
          (ite (<= (len q) (closeAt q (+ i 3))) (empty Int)
            (cat (seq Int (hexOf (sub q (+ i 3) (closeAt q (+ i 3))))) (Dec q (+ (closeAt q (+ i 3)) 1)))))
        ((= (at q (+ i 1)) 117) ; \uHHHH
          (ite (<= (len q) (+ i 5)) (empty Int) (cat (seq Int (hexOf (sub q (+ i 2) (+ i 6)))) (Dec q (+ i 6)))))
        ((isLineEnd (at q (+ i 1))) (Dec q (+ i 2)))
        (cat (seq Int (escaped (at q (+ i 1)))) (Dec q (+ i 2)))))
(defopaque Unesc ((s Str)) Str (s_of_runes (Dec (runes (s_sub s 1 (- (slen s) 1))) 0)))

; one iteration of a loop over the characters: what was put out so far, and what
; the rest stands for, from the start of an unfinished escape
(define restOf ((o Q_Int) (q Q_Int) (i Int)) Bool (and (<= 0 i) (= (cat o (Dec q i)) (Dec q 0))))
(define decInv ((o Q_Int) (b Q_Int) (q Q_Int) (e Bool) (x Bool) (u Bool) (k Int)) Bool
  (and (=> (not e) (restOf o q k)) (=> x e) (=> u e) (not (and x u))
    (=> e (not x) (not u) (and (= (at q (- k 1)) BS) (restOf o q (- k 1))))
    (=> x (and (<= (len b) 1) (= b (sub q (- k (len b)) k)) (= (at q (- k (+ (len b) 1))) 120) (= (at q (- k (+ (len b) 2))) BS) (restOf o q (- k (+ (len b) 2)))))
    (=> u (and (= b (sub q (- k (len b)) k)) (= (at q (- k (+ (len b) 1))) 117) (= (at q (- k (+ (len b) 2))) BS) (restOf o q (- k (+ (len b) 2)))
      (=> (< 0 (len b)) (!= (at b 0) 123) (< (len b) 4))
      (=> (< 0 (len b)) (= (at b 0) 123) (= (closeAt q k) (closeAt q (- k (- (len b) 1)))))))))
(template dec ((o Q_Int mod) (b Q_Int mod) (q Q_Int const) (e Bool mod) (x Bool mod) (u Bool mod) (k Int mod)) (decInv o b q e x u k) (in unescapeString))
(template dec0 ((b Q_Int mod) (e Bool mod) (x Bool mod) (u Bool mod)) (=> (or (not e) (and (not x) (not u))) (= (len b) 0)) (in unescapeString))
(lemma isub-snoc ((q Q_Int) (a Int) (k Int)) (pat (sub q a k) (at q k)) (split (< (qdiff (snoc (sub q a k) (at q k)) (sub q a (+ k 1))) (- k a)))
  (body (=> (<= 0 a) (<= a k) (< k (len q)) (= (snoc (sub q a k) (at q k)) (sub q a (+ k 1))))))
(lemma icat-assoc ((a Q_Int) (b Q_Int) (c Q_Int)) (pat (cat a (cat b c))) (split (< (qdiff (cat a (cat b c)) (cat (cat a b) c)) (len a)))
  (body (= (cat a (cat b c)) (cat (cat a b) c))))
(lemma isub-one ((q Q_Int) (k Int)) (pat (sub q k k)) (body (=> (<= 0 k) (<= k (len q)) (= (sub q k k) (empty Int)))))
(lemma isub-sub ((q Q_Int) (a Int) (b Int) (c Int) (d Int)) (pat (sub (sub q a b) c d)) (split (< (qdiff (sub (sub q a b) c d) (sub q (+ a c) (+ a d))) 0))
  (body (=> (<= 0 a) (<= a b) (<= b (len q)) (<= 0 c) (<= c d) (<= d (- b a)) (= (sub (sub q a b) c d) (sub q (+ a c) (+ a d))))))
(lemma dec-end ((q Q_Int) (i Int)) (pat (Dec q i)) (body (=> (<= (len q) i) (= (Dec q i) (empty Int)))))
(contract unescapeString (in) aux (results s) (requires (<= 2 (slen in))) (modifies) (reveal Unesc) (ensures (= s (Unesc in))))
