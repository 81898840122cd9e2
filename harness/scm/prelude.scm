;; Tests: a list of thunks; every one is a case of its own.
(define sx-tests '())
(define-macro (sx-test name . body)
  `(set! sx-tests (cons (lambda () ,@body) sx-tests)))
(define (sx-nth l n) (if (= n 0) (car l) (sx-nth (cdr l) (- n 1))))
(define (sx-length l) (if (null? l) 0 (+ 1 (sx-length (cdr l)))))
(define (sx-reverse l r) (if (null? l) r (sx-reverse (cdr l) (cons (car l) r))))
(define (sx-append a b) (if (null? a) b (cons (car a) (sx-append (cdr a) b))))
(define (sx-map f l) (if (null? l) '() ((lambda (h) (cons h (sx-map f (cdr l)))) (f (car l)))))
(define (sx-run)
  ((lambda (tests)
     ((sx-nth tests (sx-case (sx-length tests))))
     (sx-cover 'ok)
     (sx-done))
   (sx-reverse sx-tests '())))
;; one of the arguments
(define (sx-of . l) (sx-nth l (sx-choice (sx-length l))))
;; a list of n results of the thunk
(define (sx-list n f) (if (= n 0) '() ((lambda (h) (cons h (sx-list (- n 1) f))) (f))))
(define (sx-upto n) (sx-choice (+ n 1)))
(define (sx-ints max lo hi) (sx-list (sx-upto max) (lambda () (sx-int lo hi))))
(define (sx-same? a b) (if (and (pair? a) (pair? b)) (and (sx-same? (car a) (car b)) (sx-same? (cdr a) (cdr b))) (eq? a b)))
