; Sorts and data -------------------------------------------------------------
(sort Doc) (sort Map) (sort Flt) (sort Str) (sort Fun) (sort Tree)
(interface Expr expression)
(interface Sel selector)

(datatype Any ANil (AInt (a_i Int)) (AFlt (a_f Flt)) (ABool (a_b Bool)) (AStr (a_s Str))
  (ANode (an_n Any) (an_d Doc))   ; nodeValue
  (AArr (a_l Q_Any)) (AMap (a_m Map)) (AOther (a_o Int)))
(datatype Err nil_Err (SomeErr (e_id Int)))
(datatype Seg (Seg_ (seg_node Any) (seg_typ Int) (seg_name Str) (seg_idx Int)))
(datatype Path (Path_ (p_sels Q_Sel) (p_recs Q_Bool)))
(datatype LSeg LNil (LCons (l_hd Seg) (l_tl LSeg)))

(fun nil_Doc () Doc) (fun nil_Fun () Fun) (fun nil_Tree () Tree)

; The classes the specification names; fields are found by these names, or by
; position if they have been renamed
(class exprValue value)
(class unaryMinusExpression expr) (class filterExpression expr) (class notExpression expr)
(class equalityExpression left right) (class equality3Expression left right)
(class pathExpression path.selectors path.recursive) (class landExpression left right) (class lorExpression left right)
(class relationalExpression op)
(class mulExpression left right) (class divExpression left right) (class modExpression left right)
(class powExpression left right) (class addExpression left right) (class subExpression left right)
(class arrayExpression arr) (class inExpression left right)
(class methodCallExpression receiver name args) (class functionCallExpression name args)
(class unionSelector parts) (class keySelector key expr) (class filterSelector filter)
(class indexSelector index) (class rangeSelector start end) (class sliceSelector start end step)
(class singleIterator seg done) (class rangeIterator doc node from to step at state)

; Library functions ----------------------------------------------------------
(fun atoi_ok (Str) Bool) (fun atoi (Str) Int) (fun itoa (Int) Str)
(fun parse_float_ok (Str) Bool) (fun parse_float (Str) Flt)
(fun parse_int_ok (Str Int Int) Bool) (fun parse_int (Str Int Int) Int)
(fun Sprint (Any) Str)
(fun s_cat (Str Str) Str) (fun s_sub (Str Int Int) Str) (fun s_lt (Str Str) Bool)
(fun s_replace (Str Str Str) Str) (fun s_of_runes (Q_Int) Str) (fun runes (Str) Q_Int)
(fun rune_pos (Str Int) Int) (fun str_byte (Str Int) Int) (fun is_rune (Int) Bool)
(fun index_rune (Str Int) Int) (fun index_any (Str Str) Int) (fun has_prefix (Str Str) Bool)
(fun is_digit (Int) Bool) (fun is_letter (Int) Bool)
(fun i2f (Int) Flt) (fun f2i (Flt) Int)
(fun f_add (Flt Flt) Flt) (fun f_sub (Flt Flt) Flt) (fun f_mul (Flt Flt) Flt) (fun f_div (Flt Flt) Flt)
(fun f_neg (Flt) Flt) (fun f_lt (Flt Flt) Bool) (fun f_le (Flt Flt) Bool) (fun f_eq (Flt Flt) Bool)
(fun f_pow (Flt Flt) Flt) (fun f_mod (Flt Flt) Flt) (fun f_trunc (Flt) Flt) (fun f_floor (Flt) Flt) (fun f_abs (Flt) Flt)
(axiom f_eq-symmetric (forall ((a Flt) (b Flt)) (= (f_eq a b) (f_eq b a)) (pat (f_eq a b))))
(axiom f_lt-asymmetric (forall ((a Flt) (b Flt)) (=> (f_lt a b) (and (not (f_lt b a)) (not (f_eq a b)))) (pat (f_lt a b))))
(axiom f_le-def (forall ((a Flt) (b Flt)) (= (f_le a b) (or (f_lt a b) (f_eq a b))) (pat (f_le a b))))
(axiom s_lt-total (forall ((a Str) (b Str)) (and (or (s_lt a b) (s_lt b a) (= a b)) (not (and (s_lt a b) (s_lt b a))) (=> (= a b) (not (s_lt a b)))) (pat (s_lt a b))))
(fun comparable (Any) Bool) (fun same_type (Any Any) Bool) (fun any_eq (Any Any) Bool)

; Documents ------------------------------------------------------------------
(fun d_root (Doc) Any) (fun d_type (Doc Any) Int) (fun d_len (Doc Any) Int)
(fun d_key (Doc Any Str) Any) (fun d_has (Doc Any Str) Bool) (fun d_keys (Doc Any) Q_Str)
(fun d_elem (Doc Any Int) Any) (fun d_value (Doc Any) Any)
(fun map_keys (Map) Q_Str) (fun map_has (Map Str) Bool) (fun map_get (Map Str) Any) (fun map_len (Map) Int)
(define MAXINT () Int 9223372036854775807)
(axiom slen-range (forall ((s Str)) (and (<= 0 (slen s)) (< (slen s) 4611686018427387904)) (pat (slen s))))
(define MININT () Int -9223372036854775808)
(axiom doc-type (forall ((d Doc) (n Any)) (and (<= 0 (d_type d n)) (<= (d_type d n) 2)) (pat (d_type d n))))
(axiom doc-len (forall ((d Doc) (n Any)) (and (<= 0 (d_len d n)) (<= (d_len d n) MAXINT)) (pat (d_len d n))))
(fun key_pos (Doc Any Str) Int) ; position of a key of an object
(axiom doc-has (forall ((d Doc) (n Any) (k Str)) (=> (and (= (d_type d n) 1) (d_has d n k))
    (and (<= 0 (key_pos d n k)) (< (key_pos d n k) (len (d_keys d n))) (= (at (d_keys d n) (key_pos d n k)) k)))
  (pat (d_has d n k))))
(axiom doc-keys (forall ((d Doc) (n Any) (i Int)) (=> (and (= (d_type d n) 1) (<= 0 i) (< i (len (d_keys d n))))
    (and (d_has d n (at (d_keys d n) i)) (= (key_pos d n (at (d_keys d n) i)) i)))
  (pat (at (d_keys d n) i))))
(axiom doc-nkeys (forall ((d Doc) (n Any)) (<= (len (d_keys d n)) MAXINT) (pat (len (d_keys d n)))))
