(load "sx:prelude.scm")
;; Numbers and characters of the Scheme library.
(define (pow b n) (if (= n 0) 1 (* b (pow b (- n 1)))))
(define (digits n) (sx-list n (lambda () (sx-choice 2))))
(define (digit d) (integer->char (if (< d 10) (+ d 48) (+ d 87))))
(define (value ds base) (let loop ((v 0) (l ds)) (if (null? l) v (loop (+ (* v base) (car l)) (cdr l)))))
(define (numeral ds) (list->string (sx-map digit ds)))
(define (mag) (sx-of 7 1000 4294967296 4611686018427387904))
(define (in? lo i hi) (if (< i lo) #f (not (> i hi))))
(define-macro (twice name . body) `(sx-test ,name ,@body))

(sx-test order
  (let* ((a (sx-u64)) (b (sx-u64)) (c (sx-u64)))
    (sx-check '<= (<= a b) (not (> a b)))
    (sx-check '>= (>= a b) (not (< a b)))
    (sx-check '<=3 (<= a b c) (if (> a b) #f (not (> b c))))
    (sx-check '>=3 (>= a b c) (if (< a b) #f (not (< b c))))))
(sx-test sign
  (let* ((a (sx-u64)))
    (sx-check 'zero (zero? a) (= a 0)) (sx-check 'negative (negative? a) (< a 0)) (sx-check 'positive (positive? a) (> a 0))
    (sx-check '1+ (1+ a) (+ a 1)) (sx-check '1- (1- a) (- a 1))
    (sx-check 'abs (abs a) (if (< a 0) (- 0 a) a))
    (sx-assert 'number (and (number? a) (integer? a)))))
(sx-test max
  (let* ((a (sx-u64)) (b (sx-u64)) (m (max a b)) (n (min a b)))
    (sx-assert 'max (not (or (< m a) (< m b)))) (sx-assert 'max-one (or (= m a) (= m b)))
    (sx-assert 'min (not (or (> n a) (> n b)))) (sx-assert 'min-one (or (= n a) (= n b)))
    (sx-check 'max1 (max a) a) (sx-check 'min1 (min a) a)))
(sx-test max3
  (let* ((a (sx-u64)) (b (sx-u64)) (c (sx-u64)))
    (sx-check 'max3 (max a b c) (max a (max b c))) (sx-check 'min3 (min a b c) (min a (min b c)))))
(sx-test divide
  (let* ((a (sx-int -40 40)) (b (sx-of 1 -1 2 -2 3 -3 7 -7 40 -41)) (q (quotient a b)) (r (remainder a b)))
    (sx-check 'division (+ (* q b) r) a)
    (sx-assert 'remainder-size (< (abs r) (abs b)))
    (sx-assert 'remainder-sign (or (= r 0) (eq? (< r 0) (< a 0))))))
(sx-test divide-u64
  (let* ((a (sx-u64)) (b (sx-of 2 -2 16)) (q (quotient a b)) (r (remainder a b)))
    (sx-check 'division (+ (* q b) r) a)
    (sx-assert 'remainder-size (< (abs r) (abs b)))
    (sx-assert 'remainder-sign (or (= r 0) (eq? (< r 0) (< a 0))))))
(sx-test modulo
  (let* ((a (sx-int -40 40)) (b (sx-of 1 -1 2 -2 3 -3 7 -7 40 -41)) (m (modulo a b)))
    (sx-assert 'modulo-range (if (> b 0) (and (>= m 0) (< m b)) (and (<= m 0) (> m b))))
    (sx-check 'modulo (remainder (- a m) b) 0)))
(sx-test even
  (let* ((a (sx-u64)))
    (sx-check 'even (even? a) (= 0 (logand a 1))) (sx-check 'odd (odd? a) (= 1 (logand a 1)))))
(sx-test expt
  (let* ((a (sx-u64)) (n (sx-choice 5)) (b (sx-int -6 6)) (m (sx-choice 9)))
    (sx-check 'expt (expt b m) (pow b m))
    (sx-check 'expt-u64 (expt a n) (pow a n))))
(sx-test shift
  (let* ((a (sx-u64)) (n (sx-of 0 1 7 31 32 62)))
    (sx-check 'ash (ash a n) (* a (expt 2 n)))
    (sx-check 'logior (+ (logand a 255) (logand a (lognot 255))) a)))
(sx-test numeral
  (let* ((base (sx-of 10 2 8 16 3)) (ds (cons 1 (sx-list (sx-upto (sx-deep 3 4)) (lambda () (sx-int 0 (- base 1)))))) (v (value ds base)))
    (sx-check 'number->string (number->string v base) (numeral ds))
    (sx-check 'number->string-negative (number->string (- 0 v) base) (string-append "-" (numeral ds)))))
(sx-test numeral-long
  (let* ((base (sx-of 10 2 16)) (n (sx-of 4 9 13)) (tail (sx-list 2 (lambda () (sx-int 0 (- base 1)))))
         (ds (cons 1 (sx-append (sx-list n (lambda () 0)) tail))) (v (value ds base)))
    (sx-check 'number->string (number->string v base) (numeral ds))))
(sx-test numeral-default
  (let* ((d (sx-int 0 9)))
    (sx-check 'number->string (number->string d) (string (digit d)))
    (sx-check 'zero (number->string 0 2) "0") 
    (sx-check 'min (number->string -9223372036854775807) "-9223372036854775807")
    (sx-check 'max (number->string 9223372036854775807 16) "7fffffffffffffff")
    (sx-check 'least (number->string (- -9223372036854775807 1)) "-9223372036854775808")
    (sx-check 'least-16 (number->string (- -9223372036854775807 1) 16) "-8000000000000000")
    (sx-check 'least-8 (number->string (- -9223372036854775807 1) 8) "-1000000000000000000000")
    (sx-check 'near-least (number->string (- -9223372036854775807 0) 16) "-7fffffffffffffff")))
(sx-test string->number
  (let* ((base (sx-of 10 2 8 16 3)) (ds (sx-list (+ 1 (sx-upto 2)) (lambda () (sx-int 0 (- base 1))))) (v (value ds base)) (s (numeral ds)))
    (sx-check 'string->number (string->number s base) v)
    (sx-check 'string->number-negative (string->number (string-append "-" s) base) (- 0 v))
    (sx-check 'string->number-zero (string->number (string-append "00" s) base) v)
    (if (= base 10) (sx-check 'default (string->number s) v))
    (if (= base 16) (begin (sx-check 'hex (string->number (string-append "#x" s)) v) (sx-check 'upper (string->number (string-upcase s) 16) v)))))
(sx-test string->number-any
  (let* ((base (sx-of 10 2 8 16)) (s (sx-string (sx-upto 2))) (l (string->list s))
         (dig (lambda (c) (let* ((i (char->integer c))
                                 (d (if (in? 48 i 57) (- i 48) (if (in? 97 i 102) (- i 87) (if (in? 65 i 70) (- i 55) 99)))))
                            (if (< d base) d #f))))
         (neg (if (pair? l) (= 45 (char->integer (car l))) #f))
         (ds (if neg (cdr l) l)))
    (if (let dots ((l l)) (if (null? l) #f (if (= 46 (char->integer (car l))) #t (dots (cdr l))))) (sx-kill))
    (if (if (pair? l) (= 43 (char->integer (car l))) #f) (sx-kill))
    (sx-check 'string->number (string->number s base)
      (if (null? ds) #f
          (let loop ((l ds) (v 0))
            (if (null? l) (if neg (- 0 v) v)
                (let ((d (dig (car l)))) (if d (loop (cdr l) (+ (* v base) d)) #f))))))))
(sx-test round-trip
  (let* ((n (+ (sx-of 0 123 -4000 9007199254740000 -9223372036854775000) (sx-int 0 40))) (base (sx-of 2 8 10 16)))
    (sx-check 'round-trip (string->number (number->string n base) base) n)))
(sx-test char-order
  (let* ((a (sx-char 0 255)) (b (sx-char 0 255)) (i (char->integer a)) (j (char->integer b)))
    (sx-check 'char=? (char=? a b) (= i j)) (sx-check 'char<? (char<? a b) (< i j)) (sx-check 'char>? (char>? a b) (> i j))
    (sx-check 'char<=? (char<=? a b) (not (> i j))) (sx-check 'char>=? (char>=? a b) (not (< i j)))))
(sx-test char-class
  (let* ((a (sx-char 0 255)) (i (char->integer a)))
    (sx-check 'alphabetic (char-alphabetic? a) (or (in? 65 i 90) (in? 97 i 122)))
    (sx-check 'numeric (char-numeric? a) (in? 48 i 57))
    (sx-check 'upcase (char-upcase a) (if (in? 97 i 122) (integer->char (- i 32)) a))
    (sx-check 'downcase (char-downcase a) (if (in? 65 i 90) (integer->char (+ i 32)) a))
    (sx-check 'whitespace (char-whitespace? a) (or (= i 32) (in? 9 i 13)))
    (sx-check 'number (char-numeric? i) #f)))
(sx-run)
