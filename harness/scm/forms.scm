(load "sx:prelude.scm")
;; Derived forms against references written with if, lambda and set! alone.
(define log '())
(define vals '())
(define (tst i) (set! log (cons i log)) (sx-nth vals i))
(define (val) (case (sx-choice 3) ((0) #f) ((1) (sx-u64)) (else '())))
(define (set-vals n) (set! vals (sx-list n val)))
(define (eval-form e) (set! log '()) (primitive-eval e))
(define (from i n) (if (= i n) '() (cons i (from (+ i 1) n))))
(define (tsts l) (sx-map (lambda (i) `(tst ,i)) l))
(define (check id e value effects)
  (let ((got (eval-form e)))
    (sx-check id got value)
    (sx-check id log (sx-reverse effects '()))))
;; and, or: -> (value . effects)
(define (ref-and i n last) (if (= i n) (cons last '()) (let ((v (sx-nth vals i))) (if (eq? v #f) (cons #f (list i)) (let ((r (ref-and (+ i 1) n v))) (cons (car r) (cons i (cdr r))))))))
(define (ref-or i n) (if (= i n) (cons #f '()) (let ((v (sx-nth vals i))) (if (eq? v #f) (let ((r (ref-or (+ i 1) n))) (cons (car r) (cons i (cdr r)))) (cons v (list i))))))
(sx-test and
  (let ((n (sx-upto 4)))
    (set-vals n)
    (let ((r (ref-and 0 n #t))) (check 'and `(and ,@(tsts (from 0 n))) (car r) (cdr r)))))
(sx-test or
  (let ((n (sx-upto 4)))
    (set-vals n)
    (let ((r (ref-or 0 n))) (check 'or `(or ,@(tsts (from 0 n))) (car r) (cdr r)))))
(sx-test and-or
  (set-vals 3)
  (check 'and-or `(and (or (tst 0) (tst 1)) (tst 2))
         (if (sx-nth vals 0) (sx-nth vals 2) (if (sx-nth vals 1) (sx-nth vals 2) #f))
         (if (sx-nth vals 0) '(0 2) (if (sx-nth vals 1) '(0 1 2) '(0 1)))))
;; cond: clause kinds 0 (t b), 1 (t), 2 (t => f), 3 (t b b)
(define (clause i kind)
  (case kind
    ((0) `((tst ,i) (list ,i)))
    ((1) `((tst ,i)))
    ((2) `((tst ,i) => (lambda (x) (list ,i x))))
    (else `((tst ,i) (tst ,i) (list 3 ,i)))))
(define (ref-cond i kinds else?)
  (if (null? kinds) (cons (if else? 'else *unspecified*) '())
      (let ((v (sx-nth vals i)))
        (if (eq? v #f) (let ((r (ref-cond (+ i 1) (cdr kinds) else?))) (cons (car r) (cons i (cdr r))))
            (case (car kinds)
              ((0) (cons (list i) (list i)))
              ((1) (cons v (list i)))
              ((2) (cons (list i v) (list i)))
              (else (cons (list 3 i) (list i i))))))))
(sx-test cond
  (let* ((n (+ 1 (sx-upto 1))) (kinds (sx-list n (lambda () (sx-choice 4)))) (else? (= 1 (sx-choice 2))))
    (set-vals n)
    (let ((r (ref-cond 0 kinds else?)))
      (check 'cond `(cond ,@(sx-map (lambda (i) (clause i (sx-nth kinds i))) (from 0 n)) ,@(if else? '((else 'no 'else)) '())) (car r) (cdr r)))))
(sx-test cond3
  (let* ((kinds (list (sx-choice 4) 0 (sx-choice 4))))
    (set-vals 3)
    (let ((r (ref-cond 0 kinds #t)))
      (check 'cond `(cond ,@(sx-map (lambda (i) (clause i (sx-nth kinds i))) (from 0 3)) (else 'else)) (car r) (cdr r)))))
;; case
(sx-test case
  (let* ((k (sx-of (sx-int -1 6) (sx-char 97 102) 'a 'b "a" '())) (n (sx-choice 2)))
    (set! vals (list k))
    (let ((want (if (number? k) (cond ((= k 1) 'one) ((or (= k 2) (= k 3)) 'two) ((= k 5) 'five) (else 'other))
                    (if (char? k) (cond ((eq? k #\a) 'ca) ((or (eq? k #\c) (eq? k #\d)) 'cc) (else 'other))
                        (cond ((eq? k 'a) 'sa) ((eq? k 'b) 'sa) ((null? k) 'nil) (else 'other))))))
      (if (= n 0)
          (check 'case '(case (tst 0) ((1) 'one) ((2 3 #\c #\d) 'no (if (number? (car vals)) 'two 'cc)) ((5 55) 'five) ((#\a) 'ca) ((a b) 'sa) ((()) 'nil) (else 1 'other)) want '(0))
          (check 'case '(let ((x (car vals))) (case x ((1) 'one) ((2 3 #\c #\d) 'no (if (number? x) 'two 'cc)) ((5 55) 'five) ((#\a) 'ca) ((a b) 'sa) ((()) 'nil) (else 1 'other))) want '())))))
(sx-test case-nested
  (let* ((a (sx-int 0 2)) (b (sx-int 0 2)))
    (set! vals (list a b))
    (check 'case-nested '(case (tst 0) ((0) (case (tst 1) ((0) 'a) ((1) 'b) (else 'c))) ((1) 'd) (else (list (tst 1))))
           (cond ((= a 0) (cond ((= b 0) 'a) ((= b 1) 'b) (else 'c))) ((= a 1) 'd) (else (list b)))
           (cond ((= a 0) '(0 1)) ((= a 1) '(0)) (else '(0 1))))))
(sx-test when-unless
  (set-vals 1)
  (let ((v (car vals)))
    (check 'when '(when (tst 0) (tst 0) 'yes) (if v 'yes *unspecified*) (if v '(0 0) '(0)))
    (check 'unless '(unless (tst 0) (tst 0) 'no) (if v *unspecified* 'no) (if v '(0) '(0 0)))))
;; binding forms
(define a 0) (define b 0) (define c 0)
(sx-test let
  (set! a (sx-u64)) (set! b (sx-u64)) (set! c (sx-u64))
  (let-syntax-free))
(define (let-syntax-free)
  (sx-check 'let (primitive-eval '(let ((a b) (b a)) (list a b c))) (list b a c))
  (sx-check 'let (primitive-eval '(let ((x a) (y b)) (let ((x y) (y x)) (list x y)))) (list b a))
  (sx-check 'let* (primitive-eval '(let* ((a b) (b a) (a (list a b))) (list a b c))) (list (list b b) b c))
  (sx-check 'let* (primitive-eval '(let* () a b)) b)
  (sx-check 'let-body (primitive-eval '(let ((x a)) (set! x b) (set! x (list x c)) x)) (list b c))
  (sx-check 'let-define (primitive-eval '(let ((x a)) (define y (list x)) (define (f z) (list y z)) (f b))) (list (list a) b))
  (sx-check 'letrec (primitive-eval '(letrec ((even? (lambda (n) (if (= n 0) #t (odd? (- n 1))))) (odd? (lambda (n) (if (= n 0) #f (even? (- n 1)))))) (list (even? 4) (even? 3) (odd? 3)))) (list #t #f #t))
  (sx-check 'letrec-value (primitive-eval '(letrec ((x a) (f (lambda () (list x y))) (y b)) (f))) (list a b))
  (sx-check 'named-let (primitive-eval '(let loop ((i 0) (r '())) (if (= i 3) r (loop (+ i 1) (cons (+ i a) r))))) (list (+ 2 a) (+ 1 a) a))
  (sx-check 'named-let-scope (primitive-eval '(let loop ((x (let ((loop (lambda (y) (list y b)))) (loop a)))) x)) (list a b))
  (sx-check 'named-let-outer (primitive-eval '(let ((loop (lambda (y) (list y c)))) (let loop ((x (loop a)) (n 1)) (if (= n 0) x (loop x 0))))) (list a c))
  (sx-check 'closure-per-binding (primitive-eval '(let ((l (map (lambda (i) (lambda () (list i a))) (list b c)))) (list ((car l)) ((cadr l))))) (list (list b a) (list c a)))
  (sx-check 'set-shared (primitive-eval '(let ((n a)) (let ((inc (lambda () (set! n (+ n 1)) n)) (get (lambda () n))) (inc) (inc) (list (get) n)))) (list (+ a 2) (+ a 2)))
  (sx-check 'define-redefine (primitive-eval '(let () (define x a) (define (get) x) (set! x b) (list (get) x))) (list b b)))
(sx-test do
  (let* ((n (sx-int 0 3)) (x (sx-u64)))
    (set! a n) (set! b x)
    (define (ref i acc) (if (= i n) (list acc i x) (ref (+ i 1) (cons (+ i x) acc))))
    (sx-check 'do (primitive-eval '(do ((i 0 (+ i 1)) (acc '() (cons (+ i b) acc)) (k b)) ((= i a) 'no (list acc i k)))) (ref 0 '()))
    (sx-check 'do-body (primitive-eval '(let ((l '())) (do ((i 0 (+ i 1))) ((= i a) l) (set! l (cons i l)) (set! l (cons b l)))))
              (let loop ((i 0) (l '())) (if (= i n) l (loop (+ i 1) (cons x (cons i l))))))
    (sx-check 'do-nested (primitive-eval '(let ((s 0)) (do ((i 0 (+ i 1))) ((= i a) s) (do ((j 0 (+ j 1))) ((= j 2)) (set! s (+ s (* 10 i) j))))))
              (let loop ((i 0) (s 0)) (if (= i n) s (loop (+ i 1) (+ s (* 20 i) 1)))))))
;; the user's names are the user's: any name in scope around a form keeps its meaning inside
(define names '(r test x loop key val v t f e body clause pred args lst n thunk handler result value tmp temp y cc k h p name rest acc))
(define name-count (sx-length names))
(sx-test hygiene
  (let* ((n (sx-nth names (sx-choice name-count))) (v (sx-u64)))
    (set! a v)
    (define (try e want) (sx-check 'hygiene (primitive-eval `(let ((,n a)) ,e)) want))
    (try `(or #f ,n) v)
    (try `(and #t ,n) v)
    (try `(cond (#f 1) (else ,n)) v)
    (try `(cond (2 => (lambda (z) ,n))) v)
    (try `(cond (#f) (3 ,n)) v)
    (try `(case (+ 1 1) ((1) 0) ((2) ,n)) v)
    (try `(case 2 ((1) 0) (else (list ,n))) (list v))
    (try `(when #t ,n) v)
    (try `(unless #f ,n) v)
    (try `(let* ((q 1)) ,n) v)
    (try `(letrec ((q (lambda () ,n))) (q)) v)
    (try `(let lp ((q 1)) (if (> q 0) (lp (- q 1)) ,n)) v)
    (try `(do ((q 0 (+ q 1)) (w '() (cons ,n w))) ((= q 1) (car w))) v)
    (try `(quasiquote (1 (unquote ,n) (unquote-splicing (list ,n)))) (list 1 v v))
    (try `(catch #t (lambda () ,n) (lambda z 1)) v)
    (try `(catch 'k (lambda () (throw 'k ,n)) (lambda (z w) (list w ,n))) (list v v))
    (try `(call-with-values (lambda () (values ,n 1)) (lambda (z w) (list z ,n))) (list v v))
    (try `(let ((s 0)) (for-each (lambda (z) (set! s (+ z ,n))) '(1)) s) (+ 1 v))
    (try `(map (lambda (z) ,n) '(1 2)) (list v v))
    (try `(let ((q 0)) (define (g z) (list z ,n)) (g q)) (list 0 v))))
;; quasiquote
(define (qq-tree d)
  (case (sx-choice (if (= d 0) 4 6))
    ((0) (cons 'sym 'sym))
    ((1) (cons '(unquote a) a))
    ((2) (cons '(unquote (+ b 1)) (+ b 1)))
    ((3) (cons 7 7))
    ((4) (let* ((x (qq-tree (- d 1)))) (cons (list 'vec (car x)) (list 'vec (cdr x)))))
    (else (cons '(unquote (list a 'q)) (list a 'q)))))
(define (qq-list n)
  (if (= n 0) (sx-of (cons '() '()) (cons 'tail 'tail) (cons '(unquote b) b) (cons '(unquote (list 1 b)) (list 1 b)))
      (let* ((splice (sx-choice 3)) (rest (qq-list (- n 1))))
        (case splice
          ((0) (let* ((x (qq-tree 1))) (cons (cons (car x) (car rest)) (cons (cdr x) (cdr rest)))))
          ((1) (cons (cons '(unquote-splicing (list a b)) (car rest)) (cons a (cons b (cdr rest)))))
          (else (cons (cons '(unquote-splicing '()) (car rest)) (cdr rest)))))))
(sx-test quasiquote
  (set! a (sx-u64)) (set! b (sx-u64))
  (let* ((t (qq-list (sx-upto 2))))
    (sx-check 'quasiquote (primitive-eval (list 'quasiquote (car t))) (cdr t))))
(sx-test quasiquote-vector
  (set! a (sx-u64)) (set! b (sx-u64))
  (sx-check 'quasiquote-vector `#(1 ,a ,@(list b 2) sym) (vector 1 a b 2 'sym))
  (sx-check 'quasiquote-in (let ((x `(a (b ,(+ a 1)) . ,b))) x) (cons 'a (cons (list 'b (+ a 1)) b)))
  (sx-check 'quasiquote-nested `(1 `(2 ,(3 ,a))) (list 1 (list 'quasiquote (list 2 (list 'unquote (list 3 a))))))
  (sx-check 'quasiquote-nested `(1 `(2 ,@(3 ,@(list a b)))) (list 1 (list 'quasiquote (list 2 (list 'unquote-splicing (list 3 a b))))))
  (sx-check 'quasiquote-dotted `(1 . ,a) (cons 1 a))
  (sx-check 'quasiquote-self `,a a))
;; definitions
(define d-a (sx-u64)) (define d-b (sx-u64))
(define (d-rest x . r) (list x r))
(define d-val (list d-a))
(define (d-all . r) r)
(define d-lam (lambda (x) (list x d-val)))
(define d-1 (list (d-rest d-a) (d-rest 1 d-a d-b) (d-all) (d-all d-b) (d-lam 2)))
(define d-val d-b)
(define d-2 (d-lam 3))
(set! d-val d-a)
(define d-3 (d-lam 3))
(define d-old (lambda () (d-rest 1)))
(define (d-rest x) (list 'new x))
(define d-4 (list (d-rest 1) (d-old)))
(define (d-local x) (define y (+ x 1)) (define (g z) (set! y (+ y z)) y) (g 1) (list x y d-val))
(begin (define d-begin d-a) (define (d-begin-f) (list d-begin d-b)))
(if #t (define d-if d-b))
(sx-test define
  (sx-check 'define d-1 (list (list d-a '()) (list 1 (list d-a d-b)) '() (list d-b) (list 2 (list d-a))))
  (sx-check 'redefine d-2 (list 3 d-b))
  (sx-check 'set! d-3 (list 3 d-a))
  (sx-check 'redefine-procedure d-4 '((new 1) (new 1)))
  (sx-check 'define-local (d-local d-b) (list d-b (+ d-b 2) d-a))
  (sx-check 'define-local-again (list (d-local d-a) (d-local 1)) (list (list d-a (+ d-a 2) d-a) (list 1 3 d-a)))
  (sx-check 'define-in-begin (list d-begin (d-begin-f) d-if) (list d-a (list d-a d-b) d-b)))
;; cond-expand, srfi-0
(sx-test cond-expand
  (sx-check 'cond-expand (list (cond-expand (mes 'm) (guile 'g) (else 'e)) (cond-expand (guile 'g) (mes 'm)) (cond-expand (no-such-thing 'g) (else 'e))) '(m m e)))
(sx-run)
