; Keys as text ------------------------------------------------------------------------
(only nothing)
; C17. A key is written as it is if it is plain, otherwise as a string literal
(fun s_repl (Str Q_Int Q_Q_Int) Str)
(define valid ((s Str)) Bool (= (s_of_runes (runes s)) s))
; facts about UTF-8
(axiom runes-are-runes (forall ((s Str) (i Int)) (=> (<= 0 i) (< i (len (runes s))) (is_rune (at (runes s) i))) (pat (at (runes s) i))))
(axiom rune-small (forall ((c Int)) (=> (<= 0 c) (< c 55296) (is_rune c)) (pat (is_rune c))))
(axiom rune-range (forall ((c Int)) (=> (is_rune c) (and (<= 0 c) (<= c 1114111))) (pat (is_rune c))))
(defrec AllRunes ((q Q_Int) (k Int)) Bool (or (<= k 0) (and (is_rune (at q (- k 1))) (AllRunes q (- k 1)))))
(axiom runes-of-runes (forall ((q Q_Int)) (and (valid (s_of_runes q)) (=> (AllRunes q (len q)) (= (runes (s_of_runes q)) q))) (pat (s_of_runes q))))
(axiom runes-empty (forall ((s Str)) (= (= (len (runes s)) 0) (= (slen s) 0)) (pat (runes s))))
(axiom slen-zero (forall ((s Str)) (= (= (slen s) 0) (= s "")) (pat (slen s))))
(axiom cat-valid (forall ((a Str) (b Str)) (=> (valid a) (valid b) (valid (s_cat a b))) (pat (s_cat a b))))
(axiom cat-len (forall ((a Str) (b Str)) (= (slen (s_cat a b)) (+ (slen a) (slen b))) (pat (s_cat a b))))
(axiom cat-sub (forall ((a Str) (x Str) (b Str)) (=> (= (slen a) 1) (= (slen b) 1) (= (s_sub (s_cat (s_cat a x) b) 1 (- (+ (slen x) 2) 1)) x)) (pat (s_cat (s_cat a x) b))))
(axiom cat-first (forall ((a Str) (b Str)) (=> (< 0 (slen a)) (= (str_byte (s_cat a b) 0) (str_byte a 0))) (pat (s_cat a b))))
(axiom cat-last (forall ((a Str) (b Str)) (=> (< 0 (slen b)) (= (str_byte (s_cat a b) (- (+ (slen a) (slen b)) 1)) (str_byte b (- (slen b) 1)))) (pat (s_cat a b))))
(axiom cat-empty (forall ((s Str)) (and (= (s_cat "" s) s) (= (s_cat s "") s)) (pat (s_cat "" s))))
(axiom ascii-sub (forall ((q Q_Int)) (=> (<= 2 (len q)) (<= 0 (at q 0)) (< (at q 0) 128) (<= 0 (last q)) (< (last q) 128)
   (and (<= 2 (slen (s_of_runes q))) (= (str_byte (s_of_runes q) 0) (at q 0)) (= (str_byte (s_of_runes q) (- (slen (s_of_runes q)) 1)) (last q))
     (= (s_sub (s_of_runes q) 1 (- (slen (s_of_runes q)) 1)) (s_of_runes (sub q 1 (- (len q) 1))))))
   (pat (s_of_runes q))))
(axiom index_rune-none (forall ((s Str) (c Int) (i Int)) (=> (= (index_rune s c) -1) (<= 0 c) (< c 128) (<= 0 i) (< i (len (runes s))) (!= (at (runes s) i) c)) (pat (index_rune s c) (at (runes s) i))))
(axiom ascii-letter (forall ((c Int)) (=> (<= 0 c) (< c 128) (= (is_letter c) (or (and (<= 65 c) (<= c 90)) (and (<= 97 c) (<= c 122))))) (pat (is_letter c))))
(axiom ascii-digit (forall ((c Int)) (=> (<= 0 c) (< c 128) (= (is_digit c) (and (<= 48 c) (<= c 57)))) (pat (is_digit c))))
; a strings.Replacer for single characters
(defrec ReplOf ((c Int) (o Q_Int) (w Q_Q_Int) (j Int)) Q_Int (cond ((<= (len o) j) (seq Int c)) ((= (at o j) c) (at w j)) (ReplOf c o w (+ j 1))))
(defrec Rep ((q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int)) Q_Int (ite (<= (len q) i) (empty Int) (cat (ReplOf (at q i) o w 0) (Rep q (+ i 1) o w))))
(axiom repl-runes (forall ((s Str) (o Q_Int) (w Q_Q_Int)) (=> (valid s) (and (valid (s_repl s o w)) (= (runes (s_repl s o w)) (Rep (runes s) 0 o w)))) (pat (s_repl s o w))))

(define plainChar ((c Int)) Bool (and (<= 0 c) (< c 128) (or (is_letter c) (is_digit c) (= c 95) (= c 36))))
(defrec PlainN ((q Q_Int) (k Int)) Bool (or (<= k 0) (and (PlainN q (- k 1)) (plainChar (at q (- k 1))) (=> (= k 1) (not (is_digit (at q 0)))))))
(define PlainKey ((s Str)) Bool (and (!= s "") (!= s "$") (!= s "in") (PlainN (runes s) (len (runes s)))))
; q, from i on, is what the grammar has between the quotes d, without \x, \u and
; line continuations
(define simpleEsc ((c Int)) Bool (and (!= c 120) (!= c 117) (not (isLineEnd c)) (not (and (<= 48 c) (<= c 57)))))
(defrec LitBody ((q Q_Int) (d Int) (i Int)) Bool
  (cond ((<= (len q) i) true)
        ((= (at q i) BS) (and (< (+ i 1) (len q)) (simpleEsc (at q (+ i 1))) (LitBody q d (+ i 2))))
        (and (!= (at q i) d) (!= (at q i) 10) (!= (at q i) 13) (LitBody q d (+ i 1)))))
(define inner ((s Str)) Str (s_sub s 1 (- (slen s) 1)))
(defopaque IsLit ((s Str)) Bool (and (<= 2 (slen s)) (valid s) (or (= (str_byte s 0) 34) (= (str_byte s 0) 39)) (= (str_byte s (- (slen s) 1)) (str_byte s 0))
   (LitBody (runes (inner s)) (str_byte s 0) 0)))

; the replacements escape what a literal cannot contain, and put nothing but z in
; the place of z, which is quoted afterwards
(defrec escSeq ((r Q_Int) (c Int) (z Int)) Bool (or (and (= r (seq Int c)) (!= c BS) (!= c 10) (!= c 13))
  (and (= r (seq Int BS (at r 1))) (= (escaped (at r 1)) c) (simpleEsc (at r 1)) (is_rune (at r 1)) (!= (at r 1) z))))
(fun badRune (Q_Int Q_Q_Int Int) Int) ; one for which the next does not hold, if there is any
(defrec GoodRepl ((o Q_Int) (w Q_Q_Int) (z Int)) Bool (let ((c (badRune o w z))) (escSeq (ReplOf c o w 0) c z)))
(axiom badRune-def (forall ((o Q_Int) (w Q_Q_Int) (z Int) (c Int)) (=> (GoodRepl o w z) (escSeq (ReplOf c o w 0) c z)) (pat (GoodRepl o w z) (ReplOf c o w 0))))
(about s_repl ((s Str) (o Q_Int) (w Q_Q_Int)) (GoodRepl o w 34) (GoodRepl o w -1)
  (ReplOf (badRune o w 34) o w 0) (ReplOf (badRune o w 34) o w 3) (ReplOf (badRune o w 34) o w 6)
  (ReplOf (badRune o w -1) o w 0) (ReplOf (badRune o w -1) o w 3) (ReplOf (badRune o w -1) o w 6))
(defrec Quoted ((w Q_Int) (i Int) (z Int)) Q_Int
  (cond ((<= (len w) i) (empty Int))
        ((= (at w i) z) (cat (seq Int 92 z) (Quoted w (+ i 1) z)))
        (cat (seq Int (at w i)) (Quoted w (+ i 1) z))))
(defrec qe ((e Q_Int) (z Int)) Q_Int (ite (and (= (len e) 1) (= (at e 0) z)) (seq Int 92 z) e))
(define isQ ((z Int)) Bool (or (= z 34) (= z 39) (= z -1)))
(lemma seq-2 ((a Int) (b Int)) (for all-qpre quoted-1 quoted-2 quoted-esc dec-esc no-esc lit-esc) (pat (seq Int a b)) (body (and (= (at (seq Int a b) 0) a) (= (at (seq Int a b) 1) b) (= (len (seq Int a b)) 2) (= (cat (seq Int a) (seq Int b)) (seq Int a b)))))
(lemma quoted-1 ((s Q_Int) (c Int) (r Q_Int) (z Int)) (for quoted-esc) (pat (Quoted (cat s (cat (seq Int c) r)) (len s) z))
  (body (=> (isQ z) 
     (= (Quoted (cat s (cat (seq Int c) r)) (len s) z) (cat (qe (seq Int c) z) (Quoted (cat (cat s (seq Int c)) r) (+ (len s) 1) z))))))
(lemma quoted-2 ((s Q_Int) (c Int) (r Q_Int) (z Int)) (for quoted-esc) (pat (Quoted (cat s (cat (seq Int 92 c) r)) (len s) z))
  (body (=> (isQ z) (!= c z)
     (= (Quoted (cat s (cat (seq Int 92 c) r)) (len s) z) (cat (seq Int 92 c) (Quoted (cat (cat s (seq Int 92 c)) r) (+ (len s) 2) z))))))
(lemma quoted-esc ((s Q_Int) (e Q_Int) (r Q_Int) (z Int) (c Int)) (for quoted-step) (pat (Quoted (cat s (cat e r)) (len s) z) (escSeq e c z))
  (body (=> (isQ z) (escSeq e c z)
     (= (Quoted (cat s (cat e r)) (len s) z) (cat (qe e z) (Quoted (cat (cat s e) r) (+ (len s) (len e)) z))))))
(lemma dec-esc ((p Q_Int) (e Q_Int) (r Q_Int) (z Int) (c Int)) (for dec-step) (pat (Dec (cat p (cat (qe e z) r)) (len p)) (escSeq e c z))
  (body (=> (isQ z) (escSeq e c z)
     (= (Dec (cat p (cat (qe e z) r)) (len p)) (cat (seq Int c) (Dec (cat (cat p (qe e z)) r) (+ (len p) (len (qe e z)))))))))
(lemma isub-cons ((q Q_Int) (i Int)) (for dec-quoted quoted-none) (pat (sub q i (len q))) (split (< (qdiff (cat (seq Int (at q i)) (sub q (+ i 1) (len q))) (sub q i (len q))) 1))
  (body (=> (<= 0 i) (< i (len q)) (= (cat (seq Int (at q i)) (sub q (+ i 1) (len q))) (sub q i (len q))))))
(lemma rep-step ((q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int)) (for quoted-step no-step) (pat (Rep q i o w)) (body (=> (<= 0 i) (< i (len q)) (= (Rep q i o w) (cat (ReplOf (at q i) o w 0) (Rep q (+ i 1) o w))))))
(lemma quoted-step ((s Q_Int) (q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int) (z Int)) (for dec-step lit-step) (pat (Quoted (cat s (Rep q i o w)) (len s) z))
  (body (=> (GoodRepl o w z) (isQ z) (<= 0 i) (< i (len q)) (let ((e (ReplOf (at q i) o w 0)))
     (= (Quoted (cat s (Rep q i o w)) (len s) z) (cat (qe e z) (Quoted (cat (cat s e) (Rep q (+ i 1) o w)) (+ (len s) (len e)) z)))))))
(lemma dec-step ((p Q_Int) (s Q_Int) (q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int) (z Int)) (for dec-quoted) (pat (Dec (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) (len p)))
  (body (=> (GoodRepl o w z) (isQ z) (<= 0 i) (< i (len q)) (let ((e (ReplOf (at q i) o w 0)))
    (= (Dec (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) (len p))
      (cat (seq Int (at q i)) (Dec (cat (cat p (qe e z)) (Quoted (cat (cat s e) (Rep q (+ i 1) o w)) (len (cat s e)) z)) (len (cat p (qe e z))))))))))
(lemma dec-quoted ((p Q_Int) (s Q_Int) (q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int) (z Int)) (for dec-0) (pat (Dec (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) (len p)))
  (split (< i (len q))) (induct (- (len q) i)) (hyp (cat p (qe (ReplOf (at q i) o w 0) z)) (cat s (ReplOf (at q i) o w 0)) q (+ i 1) o w z)
  (body (=> (GoodRepl o w z) (isQ z) (<= 0 i) (<= i (len q))
    (= (Dec (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) (len p)) (sub q i (len q))))))
(defrec NoFrom ((w Q_Int) (i Int) (d Int)) Bool (or (<= (len w) i) (and (!= (at w i) d) (NoFrom w (+ i 1) d))))
(lemma no-esc ((s Q_Int) (e Q_Int) (r Q_Int) (z Int) (c Int) (d Int)) (for no-step) (pat (NoFrom (cat s (cat e r)) (len s) d) (escSeq e c z))
  (body (=> (escSeq e c z) (NoFrom (cat s (cat e r)) (len s) d) (and (!= (at e 0) d) (NoFrom (cat (cat s e) r) (+ (len s) (len e)) d)))))
(lemma lit-esc ((p Q_Int) (e Q_Int) (r Q_Int) (z Int) (c Int) (d Int)) (for lit-step) (pat (LitBody (cat p (cat (qe e z) r)) d (len p)) (escSeq e c z))
  (body (=> (isQ z) (escSeq e c z) (or (= d 34) (= d 39)) (or (= z d) (!= (at e 0) d))
     (= (LitBody (cat p (cat (qe e z) r)) d (len p)) (LitBody (cat (cat p (qe e z)) r) d (+ (len p) (len (qe e z))))))))
(lemma no-step ((s Q_Int) (q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int) (z Int) (d Int)) (for lit-step) (pat (NoFrom (cat s (Rep q i o w)) (len s) d) (GoodRepl o w z))
  (body (=> (GoodRepl o w z) (isQ z) (<= 0 i) (< i (len q)) (NoFrom (cat s (Rep q i o w)) (len s) d) (let ((e (ReplOf (at q i) o w 0)))
    (and (!= (at e 0) d) (NoFrom (cat (cat s e) (Rep q (+ i 1) o w)) (len (cat s e)) d))))))
(lemma lit-step ((p Q_Int) (s Q_Int) (q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int) (z Int) (d Int)) (for lit-quoted) (pat (LitBody (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) d (len p)))
  (body (=> (GoodRepl o w z) (isQ z) (or (= d 34) (= d 39)) (<= 0 i) (< i (len q)) (or (= z d) (NoFrom (cat s (Rep q i o w)) (len s) d)) (let ((e (ReplOf (at q i) o w 0)))
    (and (= (LitBody (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) d (len p))
      (LitBody (cat (cat p (qe e z)) (Quoted (cat (cat s e) (Rep q (+ i 1) o w)) (len (cat s e)) z)) d (len (cat p (qe e z)))))
      (or (= z d) (NoFrom (cat (cat s e) (Rep q (+ i 1) o w)) (len (cat s e)) d)))))))
(lemma lit-quoted ((p Q_Int) (s Q_Int) (q Q_Int) (i Int) (o Q_Int) (w Q_Q_Int) (z Int) (d Int)) (for lit-0) (pat (LitBody (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) d (len p)))
  (split (< i (len q))) (induct (- (len q) i)) (hyp (cat p (qe (ReplOf (at q i) o w 0) z)) (cat s (ReplOf (at q i) o w 0)) q (+ i 1) o w z d)
  (body (=> (GoodRepl o w z) (isQ z) (or (= d 34) (= d 39)) (<= 0 i) (<= i (len q)) (or (= z d) (NoFrom (cat s (Rep q i o w)) (len s) d))
    (LitBody (cat p (Quoted (cat s (Rep q i o w)) (len s) z)) d (len p)))))
(lemma all-runes ((q Q_Int) (k Int) (i Int)) (for quoted-none all-qpre) (pat (AllRunes q k) (at q i)) (induct k) (hyp q (- k 1) i)
  (body (=> (AllRunes q k) (<= 0 i) (< i k) (is_rune (at q i)))))
(lemma quoted-none ((w Q_Int) (i Int)) (pat (Quoted w i -1)) (split (< i (len w))) (induct (- (len w) i)) (hyp w (+ i 1))
  (body (=> (<= 0 i) (<= i (len w)) (AllRunes w (len w)) (= (Quoted w i -1) (sub w i (len w))))))
; what the loop which quotes puts out
(defrec QPre ((w Q_Int) (k Int) (z Int)) Q_Int
  (ite (<= k 0) (empty Int) (cat (QPre w (- k 1) z) (ite (= (at w (- k 1)) z) (seq Int 92 z) (seq Int (at w (- k 1)))))))
(lemma qpre-rest ((w Q_Int) (k Int) (z Int)) (for qpre-all) (pat (QPre w k z)) (split (< 0 k)) (induct k) (hyp w (- k 1) z)
  (body (=> (<= 0 k) (<= k (len w)) (= (cat (QPre w k z) (Quoted w k z)) (Quoted w 0 z)))))
(lemma qpre-all ((w Q_Int) (k Int) (z Int)) (pat (QPre w k z)) (for all-quoted MakeKeyString) (split (< (qdiff (cat (QPre w k z) (Quoted w k z)) (QPre w k z)) (len (QPre w k z)))) (body (=> (= k (len w)) (= (QPre w k z) (Quoted w 0 z)))))
(template quote ((o Q_Int mod) (b Q_Int const) (w Q_Int const) (k Int mod)) (= o (cat b (QPre w k 34))) (in MakeKeyString))
(template quote1 ((o Q_Int mod) (s Str const) (k Int mod)) (= o (cat (seq Int 34) (QPre (runes s) k 34))) (in MakeKeyString))
(template plain ((b Bool mod) (s Str const) (k Int mod)) (=> (not b) (PlainN (runes s) k)) (in MakeKeyString))
(template plain2 ((s Str const) (k Int mod)) (PlainN (runes s) k) (in MakeKeyString))
; runes which can be encoded
(lemma all-runes-s ((s Str) (k Int)) (pat (AllRunes (runes s) k)) (induct k) (hyp s (- k 1)) (body (=> (<= k (len (runes s))) (AllRunes (runes s) k))))
(lemma all-cat-1 ((a Q_Int) (b Q_Int) (k Int)) (for all-cat-2 all-cat) (pat (AllRunes (cat a b) k)) (induct k) (hyp a b (- k 1)) (body (=> (<= k (len a)) (= (AllRunes (cat a b) k) (AllRunes a k)))))
(lemma all-cat-2 ((a Q_Int) (b Q_Int) (k Int)) (for all-cat all-qpre) (pat (AllRunes (cat a b) k)) (induct k) (hyp a b (- k 1)) (body (=> (<= (len a) k) (<= k (+ (len a) (len b)))
   (= (AllRunes (cat a b) k) (and (AllRunes a (len a)) (AllRunes b (- k (len a))))))))
(lemma all-cat ((a Q_Int) (b Q_Int)) (for all-qpre) (pat (AllRunes (cat a b) (len (cat a b)))) (body (= (AllRunes (cat a b) (len (cat a b))) (and (AllRunes a (len a)) (AllRunes b (len b))))))
(lemma all-qpre ((w Q_Int) (k Int) (z Int)) (pat (AllRunes (QPre w k z) (len (QPre w k z)))) (split (< 0 k) (= (at w (- k 1)) z) (AllRunes (seq Int 92 z) 2) (AllRunes (seq Int (at w (- k 1))) 1)) (induct k) (hyp w (- k 1) z)
  (body (=> (AllRunes w (len w)) (is_rune z) (<= k (len w)) (AllRunes (QPre w k z) (len (QPre w k z))))))
(fun no_ints () Q_Int) (axiom no_ints (= (no_ints) (empty Int)))
(lemma dec-0 ((q Q_Int) (o Q_Int) (w Q_Q_Int) (z Int)) (pat (Dec (Quoted (Rep q 0 o w) 0 z) 0))
  (split (= (Dec (cat (no_ints) (Quoted (cat (no_ints) (Rep q 0 o w)) (len (no_ints)) z)) (len (no_ints))) (empty Int)))
  (body (=> (GoodRepl o w z) (isQ z) (= (Dec (Quoted (Rep q 0 o w) 0 z) 0) q))))
(lemma lit-0 ((q Q_Int) (o Q_Int) (w Q_Q_Int) (z Int) (d Int)) (pat (LitBody (Quoted (Rep q 0 o w) 0 z) d 0))
  (split (= (LitBody (cat (no_ints) (Quoted (cat (no_ints) (Rep q 0 o w)) (len (no_ints)) z)) d (len (no_ints))) true))
  (body (=> (GoodRepl o w z) (isQ z) (or (= d 34) (= d 39)) (or (= z d) (NoFrom (Rep q 0 o w) 0 d)) (LitBody (Quoted (Rep q 0 o w) 0 z) d 0))))
(lemma no-rune ((s Str) (i Int) (d Int)) (pat (NoFrom (runes s) i d) (index_rune s d)) (induct (- (len (runes s)) i)) (hyp s (+ i 1) d)
  (body (=> (= (index_rune s d) -1) (<= 0 d) (< d 128) (<= 0 i) (NoFrom (runes s) i d))))
(lemma all-quoted ((w Q_Int) (z Int)) (pat (Quoted w 0 z)) (split (= (QPre w (len w) z) (Quoted w 0 z))) (body (=> (AllRunes w (len w)) (is_rune z) (AllRunes (Quoted w 0 z) (len (Quoted w 0 z))))))
(lemma quoted-id ((w Q_Int)) (pat (Quoted w 0 -1)) (split (= (sub w 0 (len w)) w)) (body (=> (AllRunes w (len w)) (= (Quoted w 0 -1) w))))
; literals
(lemma lit-cat ((a Str) (s Str) (o Q_Int) (w Q_Q_Int) (d Int)) (pat (s_cat (s_cat a (s_repl s o w)) a) (index_rune (s_repl s o w) d)) (reveal IsLit Unesc) (for MakeKeyString)
  (split (= (Quoted (Rep (runes s) 0 o w) 0 -1) (Rep (runes s) 0 o w)))
  (body (=> (valid s) (GoodRepl o w -1) (or (and (= a "'") (= d 39)) (and (= a "\"") (= d 34))) (= (index_rune (s_repl s o w) d) -1)
    (let ((r (s_cat (s_cat a (s_repl s o w)) a))) (and (IsLit r) (valid r) (= (Unesc r) s))))))
(lemma mid ((x Q_Int) (c Int) (d Int)) (pat (snoc (cat (seq Int c) x) d)) (for lit-runes) (split (< (qdiff (sub (snoc (cat (seq Int c) x) d) 1 (+ (len x) 1)) x) (len x)))
  (body (and (= (sub (snoc (cat (seq Int c) x) d) 1 (+ (len x) 1)) x) (= (len (snoc (cat (seq Int c) x) d)) (+ (len x) 2)) (= (at (snoc (cat (seq Int c) x) d) 0) c) (= (last (snoc (cat (seq Int c) x) d)) d))))
(lemma lit-runes-b ((s Str) (o Q_Int) (w Q_Q_Int)) (pat (Quoted (Rep (runes s) 0 o w) 0 34)) (for lit-runes) (split (AllRunes (runes (s_repl s o w)) (len (runes (s_repl s o w)))))
  (body (=> (valid s) (= (runes (s_of_runes (Quoted (Rep (runes s) 0 o w) 0 34))) (Quoted (Rep (runes s) 0 o w) 0 34)))))
(lemma lit-runes ((p Q_Int) (s Str) (o Q_Int) (w Q_Q_Int)) (pat (s_of_runes (snoc p 34)) (s_repl s o w)) (reveal IsLit Unesc) (for MakeKeyString)
  (body (=> (valid s) (GoodRepl o w 34) (= p (cat (seq Int 34) (Quoted (runes (s_repl s o w)) 0 34)))
    (let ((r (s_of_runes (snoc p 34)))) (and (IsLit r) (valid r) (= (Unesc r) s))))))
(only MakeKeyString)
(axiom rune_pos-zero (forall ((s Str) (k Int)) (=> (<= 0 k) (= (= (rune_pos s k) 0) (= k 0))) (pat (rune_pos s k))))
(axiom rune-small-1 (forall ((c Int)) (=> (<= 0 c) (< c 55296) (is_rune c)) (pat (is_rune c))))
(axiom rune-range-1 (forall ((c Int)) (=> (is_rune c) (<= 0 c)) (pat (is_rune c))))
(only Join)
(axiom cat-empty-join (forall ((s Str)) (= (s_cat "" s) s) (pat (s_cat "" s))))
(axiom cat-len-join (forall ((a Str) (b Str)) (= (slen (s_cat a b)) (+ (slen a) (slen b))) (pat (s_cat a b))))
; the form of a key: what MakeKeyString gives for it (a function of the key)
(fun MK (Str) Str)
(define formOf ((f Str) (s Str)) Bool (or (and (= f s) (PlainKey s)) (and (IsLit f) (= (Unesc f) s))))
(defrec JoinF ((p Q_Str) (k Int)) Str (ite (<= k 0) "" (s_cat (s_cat (JoinF p (- k 1)) "/") (MK (at p (- k 1))))))
; keys which are addressed by name
(defrec NamedN ((p Q_Str) (k Int)) Bool (or (<= k 0) (and (NamedN p (- k 1)) (valid (at p (- k 1))) (!= (at p (- k 1)) "*"))))
(defrec FormsN ((p Q_Str) (k Int)) Bool (or (<= k 0) (and (FormsN p (- k 1)) (formOf (MK (at p (- k 1))) (at p (- k 1))))))
(defrec KeySelsN ((p Q_Str) (k Int)) Q_Sel (ite (<= k 0) (empty Sel) (snoc (KeySelsN p (- k 1)) (mk keySelector (at p (- k 1)) nil_Expr))))
(defrec FalsesN ((k Int)) Q_Bool (ite (<= k 0) (empty Bool) (snoc (FalsesN (- k 1)) false)))
(lemma named-le ((p Q_Str) (n Int) (k Int)) (pat (NamedN p n) (NamedN p k)) (induct n) (hyp p (- n 1) k) (body (=> (NamedN p n) (<= k n) (NamedN p k))))
(lemma join-empty ((p Q_Str) (k Int)) (pat (JoinF p k)) (split (<= k 0) (< (slen (JoinF p (- k 1))) 0)) (body (= (= (slen (JoinF p k)) 0) (<= k 0))))
; What the lexer and the parser make of forms of keys, each after a '/' (trusted;
; the harness tries it)
(axiom grammar-join (forall ((p Q_Str) (k Int)) (=> (FormsN p k) (< 0 k) (= k (len p))
   (let ((s (JoinF p k))) (and (not (SyntaxErr s)) (isSimple s) (!= s "/") (= (SPS (simpleTree s)) (KeySelsN p k)) (= (SPR (simpleTree s)) (FalsesN k)))))
  (pat (JoinF p k))))
(contract MakeKeyString (input) aux (results r) (modifies)
  (determines (= r (MK input)))
  (ensures (=> (valid input) (valid r))
    (=> (= input "*") (= r "*"))
    (=> (valid input) (!= input "*") (formOf r input))))
(template joined ((s Str mod) (p Q_Str const) (k Int modp)) (= s (JoinF p k)) (in Join))
(template forms ((p Q_Str const) (k Int modp)) (=> (NamedN p k) (FormsN p k)) (in Join))
(contract Join (parts) (results r) (modifies)
  (ensures (=> (= (len parts) 0) (= r "/"))
    (=> (NamedN parts (len parts)) (not (ParseFail r)))
    (=> (NamedN parts (len parts)) (= (ParsedS r) (cat (seq Sel (mk rootElementSelector)) (KeySelsN parts (len parts)))))
    (=> (NamedN parts (len parts)) (= (ParsedR r) (cat (seq Bool false) (FalsesN (len parts)))))))
(only)
