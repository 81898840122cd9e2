(load "sx:prelude.scm")
;; A function of one argument, entered and left through its continuation at any point of an expression.
(define sx-k #f)
(define sx-log '())
(define (note x) (set! sx-log (cons x sx-log)) x)
(define (v) (sx-u64))
;; Contexts: (name text-with-hole reference-on-value)
(define a (sx-u64)) (define b (sx-u64))
(define contexts
  (list
   (cons (lambda (e) `(+ a ,e)) (lambda (x) (+ a x)))
   (cons (lambda (e) `(+ ,e b)) (lambda (x) (+ x b)))
   (cons (lambda (e) `(list a ,e b)) (lambda (x) (list a x b)))
   (cons (lambda (e) `(begin (note 1) ,e)) (lambda (x) x))
   (cons (lambda (e) `(begin ,e b)) (lambda (x) b))
   (cons (lambda (e) `(if ,e a b)) (lambda (x) a))
   (cons (lambda (e) `(let ((y ,e)) (list y y))) (lambda (x) (list x x)))
   (cons (lambda (e) `((lambda (y . r) (cons r y)) ,e a)) (lambda (x) (cons (list a) x)))
   (cons (lambda (e) `(sx-map1 (lambda (y) (list y ,e)) '(1))) (lambda (x) (list (list 1 x))))
   (cons (lambda (e) `(car (cons ,e 1))) (lambda (x) x))
   (cons (lambda (e) `(let ((f (lambda () ,e))) (cons (f) 2))) (lambda (x) (cons x 2)))
   (cons (lambda (e) `(apply list (list ,e))) (lambda (x) (list x)))
   (cons (lambda (e) `(let ((y 0)) (set! y ,e) y)) (lambda (x) x))
   (cons (lambda (e) `(call-with-values (lambda () (values ,e a)) list)) (lambda (x) (list x a)))
   (cons (lambda (e) `(call/cc (lambda (k) ,e))) (lambda (x) x))
   (cons (lambda (e) `(call/cc (lambda (k) (+ 1 (k ,e))))) (lambda (x) x))
   (cons (lambda (e) `(or #f ,e)) (lambda (x) x))
   (cons (lambda (e) `(vector ,e)) (lambda (x) (vector x)))))
(define (sx-map1 f l) (if (null? l) '() (cons (f (car l)) (sx-map1 f (cdr l)))))
(define number-in (list 0 1))          ; contexts that want a number: + ; used innermost or around numbers only
(define (pick) (sx-nth contexts (sx-choice (sx-length contexts))))
(define (inner? c) (or (eq? c (car contexts)) (eq? c (cadr contexts))))
;; escape: k called at depth, before or after the call/cc returned, from inside nested procedures
(define (nest n) ; -> (text-maker . reference)
  (if (= n 0) (cons (lambda (e) e) (lambda (x) x))
      (let ((c (pick)) (d (nest (- n 1))))
        (if (and (inner? c) (> n 1)) (sx-kill))
        (cons (lambda (e) ((car c) ((car d) e))) (lambda (x) ((cdr c) ((cdr d) x)))))))
(define (run text) (primitive-eval text))
(define (around c d) (if (and (inner? c) (not (eq? d sx-hole))) (sx-kill)) (cons (lambda (e) ((car c) ((car d) e))) (lambda (x) ((cdr c) ((cdr d) x)))))
(define sx-hole (nest 0))
(define (escape-case outer)
  (lambda ()
  (let* ((out (around outer (if (= 0 (sx-choice (sx-deep 1 2))) sx-hole (nest 1)))) (in (nest 1)) (x (sx-u64)))
    (case (sx-choice 4)
      ;; normal return
      ((0) (set! sx-x x)
       (sx-check 'return (run ((car out) `(call/cc (lambda (k) sx-x)))) ((cdr out) x)))
      ;; escape out of a context inside
      ((1) (set! sx-x x)
       (sx-check 'escape (run ((car out) `(call/cc (lambda (k) ,((car in) '(k sx-x)))))) ((cdr out) x)))
      ;; escape from a procedure called inside
      ((2) (set! sx-x x)
       (sx-check 'escape-deep (run ((car out) `(call/cc (lambda (k) ((lambda (f) ,((car in) '(f sx-x))) (lambda (y) (+ 1 (k y)))))))) ((cdr out) x)))
      ;; through the long name
      (else (set! sx-x x)
       (sx-check 'long-name (run ((car out) `(call-with-current-continuation (lambda (k) ,((car in) '(k sx-x)))))) ((cdr out) x)))))))
(define sx-x 0)
(define sx-tests (sx-map escape-case (cons (cons (lambda (e) e) (lambda (x) x)) contexts)))
;; re-entry: the continuation of any context is entered again with other values
(define sx-count 0)
(sx-test re-entry
  (let* ((out (nest (+ 1 (sx-upto (sx-deep 0 1))))) (n 3) (x (sx-u64)))
    (set! sx-x x)
    (set! sx-results '())
    (set! sx-count 0)
    (let ((r (run ((car out) '(call/cc (lambda (k) (set! sx-k k) sx-x))))))
      (set! sx-results (cons r sx-results))
      (set! sx-count (+ sx-count 1))
      (if (< sx-count 3) (sx-k (+ x sx-count)))
      (sx-check 're-entry sx-results (list ((cdr out) (+ x 2)) ((cdr out) (+ x 1)) ((cdr out) x))))))
(define sx-results '())
;; values reach the receiver
(sx-test values
  (let* ((l (sx-list (sx-upto 4) (lambda () (sx-u64)))))
    (sx-check 'values (call-with-values (lambda () (apply values l)) list) l)
    (sx-check 'values-rest (call-with-values (lambda () (apply values (cons 1 l))) (lambda (x . r) (list x r))) (list 1 l))))
(sx-test one-value
  (let ((x (sx-of (sx-u64) (list 1 2) '() "s" #\a 'sym #t #f (lambda (x) x))))
    (sx-check 'one-value (call-with-values (lambda () x) list) (list x))
    (sx-check 'one-values (call-with-values (lambda () (values x)) list) (list x))
    (sx-check 'values-plain (values x) x)))
(sx-test values-arity
  (sx-expect-error)
  (call-with-values (lambda () (sx-of (values) (values 1) 5 (values 1 2 3))) (lambda (x y) x))
  (sx-fail 'no-error))
;; generators: two coroutines exchange control
(sx-test coroutine
  (let* ((l (sx-list (sx-upto 3) (lambda () (sx-u64)))) (return #f) (got '()))
    (define (each f l) (if (pair? l) (begin (f (car l)) (each f (cdr l)))))
    (define (gen) (call/cc (lambda (r) (set! return r) (each (lambda (x) (call/cc (lambda (next) (set! resume next) (return x)))) l) (return 'done))))
    (define resume #f)
    (define (next) (call/cc (lambda (r) (set! return r) (if resume (resume 'go) (gen)))))
    (let loop ((x (next)))
      (if (eq? x 'done) (sx-check 'generator (reverse got) l)
          (begin (set! got (cons x got)) (loop (next)))))))
;; search with an early exit
(sx-test early
  (let* ((l (sx-ints 3 0 2)) (k (sx-int 0 2)))
    (define (ref l) (if (null? l) 'none (if (= (car l) k) (cons 'found l) (ref (cdr l)))))
    (sx-check 'early (call/cc (lambda (return) (let loop ((r l)) (if (null? r) 'none (begin (if (= (car r) k) (return (cons 'found r))) (loop (cdr r))))))) (ref l))
    (sx-check 'early-for-each (call/cc (lambda (return) (for-each (lambda (x) (if (= x k) (return 'yes))) l) 'no)) (if (pair? (ref l)) 'yes 'no))))
;; a continuation stays usable after its call/cc returned and keeps no part of the caller
(sx-test later
  (let ((x (sx-u64)) (seen '()))
    (let ((r (+ 1 (call/cc (lambda (k) (set! sx-k k) x)))))
      (set! seen (cons r seen))
      (if (null? (cdr seen)) ((lambda (y) (list (sx-k y))) 10))
      (sx-check 'later seen (list 11 (+ 1 x))))))
(sx-test kinds
  (sx-assert 'continuation? (continuation? (call/cc (lambda (k) k))))
  (sx-assert 'not-continuation (not (or (continuation? car) (continuation? (lambda () 1)) (continuation? 1)))))
(sx-run)
