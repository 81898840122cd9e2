(load "sx:prelude.scm")
(mes-use-module (mes syntax))
(mes-use-module (srfi srfi-16))
(mes-use-module (srfi srfi-8))
(mes-use-module (srfi srfi-26))
;; Macros: expansion happens before evaluation, arguments arrive unevaluated, the expansion is evaluated in the place of the form.
(define log '())
(define (tst x) (set! log (cons x log)) x)
(define-macro (m-first a . rest) a)
(define-macro (m-quote . all) (list 'quote all))
(define-macro (m-twice x) `(begin ,x ,x))
(define-macro (m-swap a b) `(let ((swap-tmp ,a)) (set! ,a ,b) (set! ,b swap-tmp)))
(define-macro (m-unless c . body) `(if ,c 'no (begin ,@body)))
(define-macro (m-nest x) `(m-unless #f (m-twice ,x)))
(define-macro (m-count . l) (length l))
(define-macro (m-rec n x) (if (= n 0) x `(list (m-rec ,(- n 1) ,x))))
(define-macro (m-def name v) `(define ,name ,v))
(define-macro (m-let name v . body) `((lambda (,name) ,@body) ,v))
(define-macro (m-op) '+)
(define-macro m-lambda (lambda (a) `(list ,a ,a)))
(define-syntax s-swap (syntax-rules () ((s-swap a b) (let ((s-swap-tmp a)) (set! a b) (set! b s-swap-tmp)))))
(define-syntax s-or (syntax-rules () ((s-or) #f) ((s-or e) e) ((s-or e r ...) (let ((s-or-t e)) (if s-or-t s-or-t (s-or r ...))))))
(define-syntax s-pairs (syntax-rules (=>) ((s-pairs (a => b) ...) (list (cons a b) ...)) ((s-pairs (a b) ...) (list (list a b) ...))))
(define-syntax s-let (syntax-rules () ((s-let ((n v) ...) b ...) ((lambda (n ...) b ...) v ...))))
(define-syntax s-let* (syntax-rules () ((s-let* () b ...) (s-let () b ...)) ((s-let* ((n v) r ...) b ...) (s-let ((n v)) (s-let* (r ...) b ...)))))
(define-syntax s-while (syntax-rules () ((s-while c b ...) (let s-while-loop () (when c b ... (s-while-loop))))))
(define-syntax s-for (syntax-rules (in) ((s-for x in l b ...) (for-each (lambda (x) b ...) l))))
(define-syntax s-dot (syntax-rules () ((s-dot (a . b)) '(a b)) ((s-dot a) '(atom a))))
(define-syntax s-lit (syntax-rules () ((s-lit 1) 'one) ((s-lit "s") 'string) ((s-lit #t) 'true) ((s-lit x) 'else)))
(define-syntax s-deep (syntax-rules () ((s-deep ((a b ...) ...)) '((b ... a) ...))))
(define-syntax-rule (s-rule a b) (list b a))
(define a 0) (define b 0)
(m-def m-global 41)
(m-def m-proc (lambda (x) (m-twice (tst x))))
(define (m-user x) (m-let y (+ x 1) (m-let z (* y 2) (list x y z))))
(define (values!) (set! a (sx-u64)) (set! b (sx-u64)) (set! log '()))
(sx-test define-macro
  (values!)
  (sx-check 'first (m-first a (tst 1)) a)
  (sx-check 'unevaluated log '())
  (sx-check 'quote (m-quote a (tst 1) . ()) '(a (tst 1)))
  (sx-check 'twice (m-twice (tst a)) a)
  (sx-check 'twice-effects log (list a a))
  (m-swap a b)
  (let ((x a) (y b)) (m-swap x y) (sx-check 'swap (list x y) (list b a)))
  (sx-check 'nest (m-nest (tst b)) b)
  (sx-check 'count (list (m-count) (m-count (tst 9)) (m-count 1 2 3)) '(0 1 3))
  (sx-check 'recursive (m-rec 3 a) (list (list (list a))))
  (sx-check 'defined (list m-global (m-proc a)) (list 41 a))
  (sx-check 'in-procedure (list (m-user a) (m-user b)) (list (list a (+ a 1) (* 2 (+ a 1))) (list b (+ b 1) (* 2 (+ b 1)))))
  (sx-check 'in-argument (list (m-first a) (m-first (m-first b))) (list a b))
  (sx-check 'in-lambda ((lambda (x) (m-twice (set! x (+ x 1))) x) a) (+ a 2))
  (sx-check 'in-quote '(m-first 1 2) (list 'm-first 1 2))
  (sx-check 'in-let (let ((x (m-first a))) (let* ((y (m-first x))) (list y))) (list a))
  (sx-check 'in-cond (cond ((m-first #f) 1) ((m-first a) => (lambda (x) (m-first (list x)))) (else 2)) (list a))
  (sx-check 'in-quasiquote `(1 ,(m-first a) ,@(m-first (list b))) (list 1 a b))
  (sx-check 'in-set! (let ((x 1)) (set! x (m-first b)) x) b)
  (sx-check 'lambda-form (m-lambda a) (list a a)))
(sx-test repeated                ; a form expands the same way each time it runs
  (values!)
  (define (f x) (m-unless (eq? x a) (m-twice (tst x)) (list x)))
  (let* ((n (sx-upto 3)))
    (let loop ((i n)) (if (> i 0) (begin (sx-check 'repeated (f i) (if (= i a) 'no (list i))) (loop (- i 1)))))))
(sx-test syntax-rules
  (values!)
  (let ((x a) (y b)) (s-swap x y) (sx-check 's-swap (list x y) (list b a)))
  (let* ((p (sx-of #f a)) (q (sx-of #f b)) (r (sx-of #f 3)))
    (sx-check 's-or (list (s-or) (s-or p) (s-or p q) (s-or p q r)) (list #f p (if p p q) (if p p (if q q r)))))
  (sx-check 's-or-effects (begin (s-or (tst #f) (tst a) (tst b)) log) (list a #f))
  (sx-check 's-pairs (list (s-pairs) (s-pairs (a => b)) (s-pairs (a => 1) (2 => b)) (s-pairs (a 1) (b 2))) (list '() (list (cons a b)) (list (cons a 1) (cons 2 b)) (list (list a 1) (list b 2))))
  (sx-check 's-let (s-let ((x a) (y b)) (set! x (+ x 1)) (list x y)) (list (+ a 1) b))
  (sx-check 's-let* (s-let* ((x a) (y (list x)) (x b)) (list x y)) (list b (list a)))
  (sx-check 's-while (let ((i 0) (l '())) (s-while (< i 3) (set! l (cons (+ i a) l)) (set! i (+ i 1))) l) (list (+ a 2) (+ a 1) a))
  (sx-check 's-for (let ((l '())) (s-for x in (list a b) (set! l (cons x l))) l) (list b a))
  (sx-check 's-dot (list (s-dot (1 2 3)) (s-dot (1)) (s-dot x)) '((1 (2 3)) (1 ()) (atom x)))
  (sx-check 's-lit (list (s-lit 1) (s-lit "s") (s-lit #t) (s-lit 2) (s-lit (1))) '(one string true else else))
  (sx-check 's-deep (s-deep ((1 2 3) (4) (5 6))) '((2 3 1) (4) (6 5)))
  (sx-check 's-rule (s-rule a b) (list b a)))
(sx-test local-syntax
  (values!)
  (sx-check 'let-syntax (let-syntax ((foo (syntax-rules () ((foo x) (list x a))))) (foo b)) (list b a)))
(sx-test case-lambda
  (values!)
  (let ((f (case-lambda ((x) (list 1 x)) ((x y) (list 2 x y)) ((x y . r) (list 'rest x y r)))))
    (sx-check 'case-lambda (list (f a) (f a b) (f a b 3) (f 1 2 a b)) (list (list 1 a) (list 2 a b) (list 'rest a b '(3)) (list 'rest 1 2 (list a b))))))
(sx-test receive
  (values!)
  (sx-check 'receive (receive (x y) (values a b) (list y x)) (list b a))
  (sx-check 'receive-rest (receive (x . r) (values a b 1) (list r x)) (list (list b 1) a))
  (sx-check 'receive-all (receive all (values a b) all) (list a b)))
(sx-test cut
  (values!)
  (sx-check 'cut (list ((cut list 1 <> 3) a) ((cut list <> b <>) 1 2) ((cut list <...>) a b) ((cut + a <>) 1) ((cut <> a b) list)) (list (list 1 a 3) (list 1 b 2) (list a b) (+ a 1) (list a b))))
(sx-test cute
  (values!)
  (let ((f (cute list (tst a) <>)) (g (cut list (tst b) <>)))
    (sx-check 'cute (list (f 1) (f 2)) (list (list a 1) (list a 2)))
    (sx-check 'cute-once log (list a))
    (sx-check 'cut-each (list (g 1) (g 2)) (list (list b 1) (list b 2)))
    (sx-check 'cut-each log (list b b a))
    (sx-check 'cute-rest ((cute list <> a <...>) 1 2 b) (list 1 a 2 b))))
(sx-run)
