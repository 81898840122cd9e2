(load "sx:prelude.scm")
(mes-use-module (mes guile))
;; The library's write and display: text by an own printer, and reading back.
(define (flip l) (sx-reverse l '()))
(define (same? a b) (= (char->integer a) (char->integer b)))
(define (chars s) (string->list s))
(define (cat . ls) (if (null? ls) '() (sx-append (car ls) (apply cat (cdr ls)))))
(define hex '(#\0 #\1 #\2 #\3 #\4 #\5 #\6 #\7 #\8 #\9 #\a #\b #\c #\d #\e #\f))
(define escapes '((0 . #\0) (7 . #\a) (8 . #\b) (9 . #\t) (10 . #\n) (11 . #\v) (12 . #\f) (13 . #\r) (27 . #\e) (34 . #\") (92 . #\\)))
(define names '((0 . "nul") (7 . "alarm") (8 . "backspace") (9 . "tab") (10 . "newline") (11 . "vtab") (12 . "page") (13 . "return") (32 . "space")))
(define (find n l) (if (null? l) #f (if (= n (car (car l))) (cdr (car l)) (find n (cdr l)))))
(define (hexdigits n) (if (< n 16) (list (sx-nth hex n)) (list (sx-nth hex (quotient n 16)) (sx-nth hex (- n (* 16 (quotient n 16)))))))
(define (digits n r) (let ((r (cons (sx-nth hex (- n (* 10 (quotient n 10)))) r))) (if (< n 10) r (digits (quotient n 10) r))))
(define (string-text l)
  (if (null? l) '()
      (let ((e (find (char->integer (car l)) escapes)))
        (if e (cons #\\ (cons e (string-text (cdr l)))) (cons (car l) (string-text (cdr l)))))))
(define (char-text c)
  (let* ((n (char->integer c)) (e (find n names)))
    (cons #\# (cons #\\ (if e (chars e) (if (if (< 32 n) (< n 127) #f) (list c) (cons #\x (hexdigits n))))))))
(define (text x w)
  (cond ((number? x) (if (< x 0) (cons #\- (digits (- 0 x) '())) (digits x '())))
        ((char? x) (if w (char-text x) (list x)))
        ((string? x) (if w (cat '(#\") (string-text (chars x)) '(#\")) (chars x)))
        ((eq? x '$abbreviated) (chars "#(...)"))
        ((symbol? x) (chars (symbol->string x)))
        ((keyword? x) (cons #\# (cons #\: (chars (keyword->string x)))))
        ((eq? x #t) '(#\# #\t))
        ((eq? x #f) '(#\# #\f))
        ((null? x) '(#\( #\)))
        ((vector? x) (cons #\# (cat '(#\() (items (sx-map inner (vector->list x)) w) '(#\)))))
        (#t (cat '(#\() (items x w) '(#\))))))
(define (items x w)
  (cond ((null? x) '())
        ((null? (cdr x)) (text (car x) w))
        ((pair? (cdr x)) (cat (text (car x) w) '(#\space) (items (cdr x) w)))
        (#t (cat (text (car x) w) '(#\space #\. #\space) (text (cdr x) w)))))
;; a vector directly inside a vector is abbreviated
(define (inner x) (if (vector? x) '$abbreviated x))
(define (abbreviated? x)
  (if (pair? x) (or (abbreviated? (car x)) (abbreviated? (cdr x)))
      (if (vector? x) (let loop ((l (vector->list x))) (if (null? l) #f (or (vector? (car l)) (abbreviated? (car l)) (loop (cdr l))))) #f)))
(define (written x) (with-output-to-string (lambda () (write x))))
(define (shown x) (with-output-to-string (lambda () (display x))))
(define (both tag x)
  (let ((s (written x)))
    (sx-check tag (chars s) (text x #t))
    (sx-check 'display (chars (shown x)) (text x #f))
    (if (not (abbreviated? x)) (sx-assert 'read (equal? x (with-input-from-string s read))))))
(define (atom k)
  (case k ((0) 0) ((1) -12) ((2) #\a) ((3) "q\"\\") ((4) 'sym) ((5) #t) ((6) #f) ((7) '()) ((8) #\newline) ((9) "") (else #:key)))
(define (leaf) (atom (sx-choice 11)))
(define (few) (sx-nth (list 7 #\space "s" 'y #f '()) (sx-choice 6)))
(define (shape a b c k)
  (case k ((0) (cons a b)) ((1) (list a b)) ((2) (list a)) ((3) (vector a b)) ((4) (vector a)) ((5) (list a b c)) ((6) (cons a (cons b c))) (else (vector))))
(sx-test atoms (let ((x (leaf))) (both 'atom x)))
(sx-test numbers (let ((n (sx-int -120 120))) (both 'number n)))
(sx-test limits
  (let ((n (sx-of 2147483647 -2147483648 4294967296 9223372036854775807 1000000007 -999)))
    (both 'limit n)))
(sx-test characters (let ((c (sx-char 0 255))) (both 'char c)))
(sx-test strings (let ((s (sx-string (sx-upto (sx-deep 1 2))))) (both 'string s)))
(sx-test control (let ((s (list->string (list #\a (sx-char 0 32) #\b)))) (both 'control s)))
(sx-test pairs (let* ((a (leaf)) (b (sx-nth (list 7 "s" 'y #f) (sx-choice 4)))) (both 'pair (shape a b a (sx-choice 8)))))
(sx-test nested
  (let* ((a (few)) (i (shape a 2 "z" (sx-choice 8))))
    (both 'nested (case (sx-choice 6) ((0) (list i)) ((1) (cons i i)) ((2) (cons a i)) ((3) (vector i a)) ((4) (vector a i)) (else (list a i 'e))))))
(sx-test deep (let ((x (list 1 (list 2 (vector 3 (list 4 (vector 5 (list 6 (cons 7 (few)))))))))) (both 'deep x)))
(sx-test quoted (let ((x (sx-of ''a '`(a ,b) '(quote) '(quote a b) '(1 . (quote b))))) (both 'quoted x)))
(sx-test port
  (let* ((x (list (few) "p" #\q)) (f "sx-file") (p (open-output-file f)))
    (display "out")
    (write x p)
    (display x p)
    (newline p)
    (sx-check 'current (chars (sx-out 1)) (chars "out"))
    (sx-check 'file (chars (with-input-from-file f read-string)) (cat (text x #t) (text x #f) '(#\newline)))))
(sx-test error-port
  (let* ((x (list (few) "p")))
    (write x (current-error-port))
    (sx-check 'stderr (chars (sx-out 2)) (text x #t))
    (sx-check 'stdout (chars (sx-out 1)) '())))
(sx-run)
