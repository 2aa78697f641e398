(define iabs ((x Int)) Int (ite (< x 0) (- x) x))
; division of Go: towards zero
(define go_div ((a Int) (b Int)) Int (ite (= (< a 0) (< b 0)) (div (iabs a) (iabs b)) (- (div (iabs a) (iabs b)))))
(define go_rem ((a Int) (b Int)) Int (ite (< a 0) (- (mod (iabs a) (iabs b))) (mod (iabs a) (iabs b))))
(axiom f_add-commutes (forall ((a Flt) (b Flt)) (= (f_add a b) (f_add b a)) (pat (f_add a b))))
(axiom f_mul-commutes (forall ((a Flt) (b Flt)) (= (f_mul a b) (f_mul b a)) (pat (f_mul a b))))

; Values of expressions ------------------------------------------------------
(define valOf ((x Any)) Any (ite (is ANode x) (d_value (an_d x) (an_n x)) x))
(define numStr ((s Str)) Any (cond ((atoi_ok s) (AInt (atoi s))) ((parse_float_ok s) (AFlt (parse_float s))) ANil))
(define num1 ((x Any)) Any
  (cond ((is AInt x) x) ((is AFlt x) x) ((is ABool x) (AInt (ite (a_b x) 1 0))) ((is AStr x) (numStr (a_s x))) ANil))
(define NumOf ((x Any)) Any (num1 (valOf x)))
(define fnum ((x Any)) Flt (ite (is AInt x) (i2f (a_i x)) (a_f x)))

; C08: what is true
(define truthy1 ((x Any)) Bool
  (cond ((is ABool x) (a_b x)) ((is AInt x) (!= (a_i x) 0)) ((is AFlt x) (not (f_eq (a_f x) (i2f 0)))) ((is AStr x) (!= (slen (a_s x)) 0)) (not (is ANil x))))
(define truthy ((x Any)) Bool (truthy1 (valOf x)))

; C10: == and ===
(define eq2 ((a Any) (b Any)) Bool
  (cond ((or (is ANil a) (is ANil b)) (and (is ANil a) (is ANil b)))
        ((and (is AInt a) (is AInt b)) (= (a_i a) (a_i b)))
        ((and (is AInt a) (is AFlt b)) (f_eq (i2f (a_i a)) (a_f b)))
        ((and (is AFlt a) (is AInt b)) (f_eq (a_f a) (i2f (a_i b))))
        ((and (is AFlt a) (is AFlt b)) (f_eq (a_f a) (a_f b)))
        ((and (is AStr a) (is AStr b)) (= (a_s a) (a_s b)))
        ((and (is ABool a) (is ABool b)) (= (a_b a) (a_b b)))
        false))
(define eq3 ((a Any) (b Any)) Bool
  (and (eq2 a b) (not (and (is AInt a) (is AFlt b))) (not (and (is AFlt a) (is AInt b)))))
(lemma eq2-symmetric ((a Any) (b Any)) (pat (eq2 a b)) (body (= (eq2 a b) (eq2 b a))) (nouse))
(lemma eq3-symmetric ((a Any) (b Any)) (pat (eq3 a b)) (body (= (eq3 a b) (eq3 b a))) (nouse))

; C11: the relational operators. cmpOK: comparable, cmp: sign of the comparison
(define asText ((x Any)) Str (ite (is AStr x) (a_s x) (Sprint x)))
(define cmpLt ((a Any) (b Any)) Bool
  (cond ((is ANil a) (not (is ANil b)))
        ((is ANil b) false)
        ((or (is AInt a) (is AFlt a))
          (cond ((is ANil (num1 b)) false)
                ((and (is AInt a) (is AInt (num1 b))) (< (a_i a) (a_i (num1 b))))
                (f_lt (fnum a) (fnum (num1 b)))))
        ((is AStr a) (s_lt (a_s a) (asText b)))
        false))
(define cmpGt ((a Any) (b Any)) Bool
  (cond ((is ANil a) false)
        ((is ANil b) true)
        ((or (is AInt a) (is AFlt a))
          (cond ((is ANil (num1 b)) false)
                ((and (is AInt a) (is AInt (num1 b))) (> (a_i a) (a_i (num1 b))))
                (f_lt (fnum (num1 b)) (fnum a))))
        ((is AStr a) (s_lt (asText b) (a_s a)))
        false))
(define cmpEq ((a Any) (b Any)) Bool
  (cond ((is ANil a) (is ANil b))
        ((is ANil b) false)
        ((or (is AInt a) (is AFlt a))
          (cond ((is ANil (num1 b)) false)
                ((and (is AInt a) (is AInt (num1 b))) (= (a_i a) (a_i (num1 b))))
                (f_eq (fnum a) (fnum (num1 b)))))
        ((is AStr a) (= (a_s a) (asText b)))
        false))
; at most one of <, > and equal
(lemma cmp-exclusive ((a Any) (b Any)) (pat (cmpLt a b))
  (body (and (not (and (cmpLt a b) (cmpGt a b))) (not (and (cmpLt a b) (cmpEq a b))) (not (and (cmpGt a b) (cmpEq a b))))) (nouse))

; C12: arithmetic on numbers (AInt or AFlt)
(define arith ((op Int) (a Any) (b Any)) Any
  (cond ((or (is ANil a) (is ANil b)) ANil)
        ((= op 1) (ite (and (is AInt a) (is AInt b)) (AInt (wrap64 (+ (a_i a) (a_i b)))) (AFlt (f_add (fnum a) (fnum b)))))
        ((= op 2) (ite (and (is AInt a) (is AInt b)) (AInt (wrap64 (- (a_i a) (a_i b)))) (AFlt (f_sub (fnum a) (fnum b)))))
        ((= op 3) (ite (and (is AInt a) (is AInt b)) (AInt (wrap64 (* (a_i a) (a_i b)))) (AFlt (f_mul (fnum a) (fnum b)))))
        ((= op 6) (AFlt (f_pow (fnum a) (fnum b))))
        ; a zero divisor
        ((ite (is AInt b) (= (a_i b) 0) (f_eq (a_f b) (i2f 0))) ANil)
        ((= op 4) (ite (and (is AInt a) (is AInt b)) (AInt (wrap64 (go_div (a_i a) (a_i b)))) (AFlt (f_div (fnum a) (fnum b)))))
        (ite (and (is AInt a) (is AInt b)) (AInt (go_rem (a_i a) (a_i b))) (AFlt (f_mod (fnum a) (fnum b))))))
(define negate ((a Any)) Any (cond ((is AInt a) (AInt (wrap64 (- (a_i a))))) ((is AFlt a) (AFlt (f_neg (a_f a)))) ANil))

; C13: x in y
(defrec inSeqN ((x Any) (q Q_Any) (k Int)) Bool
  (ite (<= k 0) false (or (inSeqN x q (- k 1)) (eq2 x (valOf (at q (- k 1)))))))
(lemma in-seq ((x Any) (q Q_Any) (k Int) (i Int)) (pat (inSeqN x q k) (at q i)) (induct k) (hyp x q (- k 1) i)
  (body (=> (<= 0 i) (< i k) (eq2 x (valOf (at q i))) (inSeqN x q k))))
(define inVal ((x Any) (y Any)) Any
  (cond ((is ANil y) ANil) ((is AArr y) (ABool (inSeqN x (a_l y) (len (a_l y))))) (ABool (eq2 x y))))

; C14: functions
(define FnKnown ((f Str)) Bool (= f "length"))
(define FnVal ((f Str) (args Q_Any)) Any
  (ite (and (> (len args) 0) (is AArr (at args 0))) (AInt (len (a_l (at args 0)))) (AInt 0)))
