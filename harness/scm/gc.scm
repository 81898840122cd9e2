(load "sx:prelude.scm")
(mes-use-module (mes scm))
(mes-use-module (mes syntax))
(mes-use-module (srfi srfi-1))
(mes-use-module (srfi srfi-9))
(mes-use-module (srfi srfi-13))
(mes-use-module (mes guile))
;; Programs with collections at every possible moment.
(define (v) (sx-u64))
(define a (v)) (define b (v)) (define c (sx-char 0 255))
(define sx-steps (sx-deep 30 100))
(define sx-stride (sx-deep 2 1))
;; the collections: one at any of the first steps, or at every 3rd or 7th step
(define (arm)
  (let ((n (sx-choice (+ sx-steps 2))))
    (if (< n sx-steps) (sx-gc-at (* n sx-stride) 0) (sx-gc-at 1 (if (= n sx-steps) 7 3)))))
(define-macro (gc-test name expect . body)
  `(sx-test ,name (let ((want ,expect)) (arm) (let ((got (begin ,@body))) (sx-gc-ran) (sx-check ',name got want)))))
(define-record-type cell-type (make-rec x y) rec? (x rec-x set-rec-x!) (y rec-y))
(define-macro (twice e) `(list ,e ,e))
(define-syntax swap! (syntax-rules () ((swap! p q) (let ((tmp p)) (set! p q) (set! q tmp)))))
(define counter 0)
(define (tick) (set! counter (+ counter 1)) counter)
(define (deep n) (if (= n 0) (list a) (cons n (deep (- n 1)))))
(define (flat l) (cond ((null? l) '()) ((pair? (car l)) (append (flat (car l)) (flat (cdr l)))) (#t (cons (car l) (flat (cdr l))))))
(gc-test closures (list a b (+ a b) a)
  (let* ((mk (lambda (x) (lambda (f) (f x)))) (p (mk a)) (q (mk b)))
    (list (p (lambda (x) x)) (q (lambda (x) x)) (p (lambda (x) (q (lambda (y) (+ x y))))) (p (lambda (x) x)))))
(gc-test recursion (list 6 5 4 3 2 1 a) (deep 6))
(gc-test lists (list (list 1 a) (list 2 b) (list 3 a)) (map list '(1 2 3) (list a b a)))
(gc-test fold (list a 3 2 1) (fold cons (list a) '(3 2 1)) (append (list a) (reverse '(1 2 3))))
(gc-test vectors (list a c "s" b) (let ((x (make-vector 4 0))) (vector-set! x 0 a) (vector-set! x 1 c) (vector-set! x 2 (string-append "" "s")) (vector-set! x 3 b) (vector->list x)))
(gc-test strings (list #\a c #\space c #\1 #\2) (string->list (string-append (list->string (list #\a c)) " " (list->string (list c)) (number->string 12))))
(gc-test symbols (list 'abc 'foo-bar #t) (list (string->symbol (string-append "a" "bc")) (symbol-append 'foo '-bar) (eq? 'new (string->symbol "new"))))
(gc-test records (list #t a b a #f) (let ((r (make-rec a 0)) (s (make-rec b 1))) (set-rec-x! r (list a)) (list (rec? r) (car (rec-x r)) (rec-x s) (car (rec-x r)) (rec? 'r))))
(gc-test tables (list a b 'none) (let ((h (make-hash-table 3))) (hashq-set! h 'x a) (hashq-set! h 'y (+ 0 b)) (hashq-set! h 'z 1) (list (hashq-ref h 'x 0) (hashq-ref h 'y 0) (hashq-ref h 'w 'none))))
(gc-test escapes (list a 1 b) (let ((x (call/cc (lambda (k) (map (lambda (y) (if (= y 2) (k a) y)) '(1 2 3)))))) (list x 1 b)))
(gc-test reentry (list 3 (list a)) (let* ((n 0) (k #f) (x (list (call/cc (lambda (kk) (set! k kk) 0))))) (set! n (+ n 1)) (if (< n 3) (k a)) (list n x)))
(gc-test values (list a (list b c)) (call-with-values (lambda () (values a b c)) (lambda (x . r) (list x r))))
(gc-test catching (list 'oops (list a)) (catch 'oops (lambda () (deep 2) (throw 'oops a) 5) (lambda (key . args) (list key args))))
(gc-test macros (list (list a a) (list 2 1)) (let ((p 1) (q 2)) (swap! p q) (list (twice a) (list p q))))
(gc-test ports (list #\x #\y 12) (let ((s (with-output-to-string (lambda () (display "xy") (display 12))))) (append (list (string-ref s 0) (string-ref s 1)) (list (string->number (substring s 2 4))))))
(gc-test reading (list 1 'two "three" #\4) (with-input-from-string "(1 two \"three\" #\\4)" read))
(gc-test evaluation (list a 4) (primitive-eval '((lambda (x) (define y (+ x 1)) (list a y)) 3)))
(gc-test tree (list a 1 b 2 3) (flat (list (list a 1) (list (list b) 2) 3)))
(gc-test assignment (list 3 a) (let ((old counter)) (tick) (tick) (tick) (list (- counter old) a)))
(gc-test cyclic (list 1 2 1 2 a) (let ((l (list 1 2))) (set-cdr! (cdr l) l) (let ((r (list (car l) (cadr l) (car (cddr l)) (cadr (cddr l)) a))) (set-cdr! (cdr l) '()) r)))
(gc-test sharing (list #t #t #f) (let* ((x (list a)) (y (list x x (list a)))) (deep 3) (list (eq? (car y) (cadr y)) (eq? x (car y)) (eq? x (caddr y)))))
(gc-test dynamic (list a 2 1) (let ((f (make-fluid 1))) (let ((r (with-fluids ((f 2)) (deep 2) (list a (fluid-ref f))))) (append r (list (fluid-ref f))))))
(sx-run)
