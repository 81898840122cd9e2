(load "sx:prelude.scm")
;; Every composition of tail contexts around a call: the call needs no stack.
(define sx-contexts
  (list
   (lambda (x) `(if (< n 100) ,x 1))
   (lambda (x) `(if (> n 100) 1 ,x))
   (lambda (x) `(begin n ,x))
   (lambda (x) `((lambda () ,x)))
   (lambda (x) `((lambda (y) n ,x) n))
   (lambda (x) `(let ((y n)) ,x))
   (lambda (x) `(let* ((y n) (z y)) ,x))
   (lambda (x) `(letrec ((y n)) ,x))
   (lambda (x) `(let loop ((y 1)) (if (> y 0) (loop (- y 1)) ,x)))
   (lambda (x) `(cond ((> n 100) 1) ((< n 100) ,x) (else 2)))
   (lambda (x) `(cond ((> n 100) 1) (else n ,x)))
   (lambda (x) `(cond (n => (lambda (y) ,x))))
   (lambda (x) `(case n ((100) 2) (else ,x)))
   (lambda (x) `(case n ((0 1 2 3 4 5) ,x) (else 1)))
   (lambda (x) `(case (+ n 0) ((100) 2) (else ,x)))
   (lambda (x) `(and n ,x))
   (lambda (x) `(and n n ,x))
   (lambda (x) `(or #f ,x))
   (lambda (x) `(or #f #f ,x))
   (lambda (x) `(when n ,x))
   (lambda (x) `(unless #f 1 ,x))
   (lambda (x) `(let () (define y n) ,x))
   (lambda (x) `(do ((y 0 (+ y 1))) ((= y 2) ,x)))
   (lambda (x) `((if n (lambda (y) ,x) 1) n))
   (lambda (x) `(call-with-values (lambda () (values n 1)) (lambda (y z) ,x)))
   (lambda (x) `(sx-id (lambda () ,x)))))
(define (sx-id f) (f))
(define (sx-pick) (sx-nth sx-contexts (sx-choice (sx-length sx-contexts))))
(define (sx-nest k x) (if (= k 0) x ((sx-pick) (sx-nest (- k 1) x))))
(define sx-depths '())
(define (sx-record) (set! sx-depths (cons (sx-stack) sx-depths)))
(define (sx-flat) (if (or (null? sx-depths) (null? (cdr sx-depths))) #t (if (= (car sx-depths) (cadr sx-depths)) (begin (set! sx-depths (cdr sx-depths)) (sx-flat)) #f)))
(define (sx-loop make)
  (let ((f (primitive-eval `(lambda (n) (sx-record) (if (= n 0) (begin 'end) ,(make '(sx-f (- n 1))))))))
    (set! sx-f f)
    (sx-check 'tail-result (f 5) 'end)
    (sx-assert 'tail-count (= (sx-length sx-depths) 6))
    (sx-assert 'tail-stack (sx-flat))))
(define sx-f #f)
(define sx-more 1)
(define sx-part (sx-length sx-contexts))
(define (sx-by i) (set! sx-tests (cons (lambda () (sx-loop (lambda (x) ((sx-nth sx-contexts i) (sx-nest (sx-upto sx-more) x))))) sx-tests)))
(define (sx-all i) (if (< i (sx-length sx-contexts)) (begin (sx-by i) (sx-all (+ i 1)))))
(sx-all 0)
;; two procedures that call each other
(sx-test mutual
  (set! sx-g (lambda (n) (sx-record) (sx-f (- n 1))))
  (let ((f (primitive-eval `(lambda (n) (sx-record) (if (< n 0) 'end ,(sx-nest 1 '(sx-g n)))))))
    (set! sx-f f)
    (sx-check 'mutual (f 4) 'end)
    (sx-assert 'mutual-stack (let loop ((d sx-depths)) (if (null? (cdr (cdr d))) #t (if (= (car d) (caddr d)) (loop (cdr d)) #f))))))
(define sx-g #f)
;; a context that is not a tail position does need stack: the measure is sharp
(sx-test sharp
  (set! sx-f (lambda (n) (sx-record) (if (= n 0) 0 (+ 1 (sx-f (- n 1))))))
  (sx-check 'sharp (sx-f 3) 3)
  (sx-assert 'sharp-stack (not (sx-flat))))
(sx-run)
