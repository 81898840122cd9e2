(load "sx:prelude.scm")
;; The list library against plain recursive definitions.
(define N (sx-deep 3 4))
(define (ints) (sx-ints N 0 2))
(define (ints2) (sx-ints 2 0 2))
(define (u64s n) (sx-list (sx-upto n) sx-u64))
(define (foldl f i l) (if (null? l) i (foldl f (f (car l) i) (cdr l))))
(define (foldr f i l) (if (null? l) i (f (car l) (foldr f i (cdr l)))))
(define (keep p l) (if (null? l) '() (if (p (car l)) (cons (car l) (keep p (cdr l))) (keep p (cdr l)))))
(define (zip2 f a b) (if (if (null? a) #t (null? b)) '() ((lambda (h) (cons h (zip2 f (cdr a) (cdr b)))) (f (car a) (car b)))))
(define (in? x l) (if (null? l) #f (if (= x (car l)) #t (in? x (cdr l)))))
(define (tail-from p l) (if (null? l) #f (if (p (car l)) l (tail-from p (cdr l)))))
(define (index p l i) (if (null? l) #f (if (p (car l)) i (index p (cdr l) (+ i 1)))))
(define (one? x) (= x 1))
(define (copy l) (if (pair? l) (cons (car l) (copy (cdr l))) l))
(define (id x) x)
(define log '())
(define (note x) (set! log (cons x log)) x)
(define (unchanged l c) (sx-check 'argument-kept l c))

(sx-test map
  (let* ((l (u64s N)) (c (copy l)))
    (sx-check 'map (map note l) l) (sx-check 'map-order log (sx-reverse l '()))
    (sx-check 'map-value (map (lambda (x) (+ x 1)) l) (sx-map (lambda (x) (+ x 1)) l))
    (unchanged l c)))
(sx-test map2
  (let* ((a (u64s 2)) (b (u64s 3)))
    (sx-check 'map2 (map list a b) (zip2 list a b))
    (sx-check 'append-map (append-map (lambda (x) (list x x)) a) (foldr (lambda (x r) (cons x (cons x r))) '() a))
    (sx-check 'append-map2 (append-map list a b) (foldr (lambda (x r) (cons (car x) (cons (cadr x) r))) '() (zip2 list a b)))
    (set! log '())
    (for-each (lambda (x y) (note (list x y))) a b)
    (sx-check 'for-each2 (sx-reverse log '()) (zip2 list a b))))
(sx-test map3
  (let* ((a (u64s 2)) (b (u64s 2)) (c (u64s 2)))
    (sx-check 'map3 (map list a b c) (zip2 (lambda (x p) (cons x p)) a (zip2 list b c)))))
(sx-test map4
  (let* ((a (u64s 1)) (b (u64s 1)) (c (u64s 1)) (d (u64s 2)))
    (sx-check 'map4 (map list a b c d) (zip2 (lambda (x p) (cons x p)) a (zip2 (lambda (x p) (cons x p)) b (zip2 list c d))))))
(sx-test for-each
  (let* ((l (u64s N)))
    (for-each note l)
    (sx-check 'for-each (sx-reverse log '()) l)))
(sx-test fold
  (let* ((l (u64s N)) (a (u64s 2)) (b (u64s 3)) (c (copy l)))
    (sx-check 'fold (fold cons 'end l) (foldl cons 'end l))
    (sx-check 'fold-right (fold-right cons 'end l) (foldr cons 'end l))
    (sx-check 'fold-sum (fold + 0 l) (foldl + 0 l))
    (unchanged l c)
    (sx-check 'fold2 (fold list 0 a b) (foldl (lambda (p r) (list (car p) (cadr p) r)) 0 (zip2 list a b)))
    (sx-check 'fold-right2 (fold-right list 0 a b) (foldr (lambda (p r) (list (car p) (cadr p) r)) 0 (zip2 list a b)))))
(sx-test fold3
  (let* ((a (u64s 2)) (b (u64s 1)) (c (u64s 2)))
    (define (zip3) (zip2 (lambda (x p) (cons x p)) a (zip2 list b c)))
    (sx-check 'fold3 (fold list 0 a b c) (foldl (lambda (p r) (append p (list r))) 0 (zip3)))
    (sx-check 'fold-right3 (fold-right list 0 a b c) (foldr (lambda (p r) (append p (list r))) 0 (zip3)))))
(sx-test filter
  (let* ((l (ints)) (c (copy l)) (two? (lambda (x) (= x 2))))
    (sx-check 'filter (filter one? l) (keep one? l))
    (sx-check 'remove (remove one? l) (keep (lambda (x) (not (one? x))) l))
    (sx-check 'delete (delete 1 l) (keep (lambda (x) (not (one? x))) l))
    (sx-check 'delq (delq 2 l) (keep (lambda (x) (not (two? x))) l))
    (sx-check 'filter-map (filter-map (lambda (x) (if (= x 1) #f (+ x 5))) l) (sx-map (lambda (x) (+ x 5)) (keep (lambda (x) (not (one? x))) l)))
    (sx-check 'filter-map-order (begin (filter-map note l) log) (sx-reverse l '()))
    (unchanged l c)))
(sx-test filter-map2
  (let* ((a (ints2)) (b (ints2)))
    (if (= (sx-length a) (sx-length b))
        (sx-check 'filter-map2 (filter-map (lambda (x y) (if (= x y) (list x) #f)) a b)
                  (foldr (lambda (p r) (if (= (car p) (cadr p)) (cons (list (car p)) r) r)) '() (zip2 list a b))))))
(sx-test search
  (let* ((l (ints)) (k (sx-int 0 2)) (p (lambda (x) (= x k))))
    (let ((t (tail-from p l)))
      (sx-check 'find (find p l) (if t (car t) #f))
      (sx-assert 'member (sx-same? (member k l) t))
      (sx-assert 'member-eq (eq? (member k l) t))
      (sx-assert 'memq (eq? (memq k l) t))
      (sx-assert 'memv (eq? (memv k l) t))
      (sx-check 'list-index (list-index p l) (index p l 0))
      (sx-check 'any (any (lambda (x) (if (= x k) (list x) #f)) l) (if t (list k) #f))
      (sx-check 'every (every (lambda (x) (if (= x k) (list x) #f)) l)
                (if (null? l) #t (if (null? (keep (lambda (x) (not (p x))) l)) (list k) #f))))))
(sx-test member-equal
  (let* ((x (sx-u64)) (y (sx-u64)) (l (list "a" (list x) #\b (vector 1 y) '() 'sym)))
    (sx-assert 'member-list (eq? (member (list y) l) (if (= x y) (cdr l) #f)))
    (sx-assert 'member-string (eq? (member "a" l) l))
    (sx-assert 'member-vector (eq? (member (vector 1 x) l) (if (= x y) (cdr (cdr (cdr l))) #f)))
    (sx-assert 'member-nil (eq? (member '() l) (cdr (cdr (cdr (cdr l))))))
    (sx-check 'member-pred (member 2 '(1 3 4) <) '(3 4))))
(sx-test two-lists
  (let* ((a (ints2)) (b (sx-ints 3 0 1)))
    (sx-check 'any2 (any = a b) (if (null? (keep id (zip2 = a b))) #f #t))
    (sx-check 'every2 (every = a b) (if (null? (keep not (zip2 = a b))) #t #f))
    (sx-check 'list-index2 (list-index = a b) (index id (zip2 = a b) 0))))
(sx-test short-circuit
  (let* ((l (ints)))
    (any (lambda (x) (note x) (= x 1)) l)
    (let ((seen (sx-reverse log '())))
      (define (upto p l) (if (null? l) '() (if (p (car l)) (list (car l)) (cons (car l) (upto p (cdr l))))))
      (sx-check 'any-stops seen (upto one? l))
      (set! log '())
      (every (lambda (x) (note x) (not (= x 1))) l)
      (sx-check 'every-stops (sx-reverse log '()) (upto one? l))
      (set! log '())
      (find (lambda (x) (note x) (= x 1)) l)
      (sx-check 'find-stops (sx-reverse log '()) (upto one? l)))))
(define (dedupe l) (if (null? l) '() (cons (car l) (dedupe (keep (lambda (x) (not (= x (car l)))) (cdr l))))))
(sx-test sets
  (let* ((l (ints)) (c (copy l)))
    (sx-check 'delete-duplicates (delete-duplicates l) (dedupe l))
    (sx-check 'delete-duplicates= (delete-duplicates l =) (dedupe l))
    (unchanged l c)))
(sx-test lset
  (let* ((a (ints2)) (b (ints2)))
    (sx-check 'lset-intersection (lset-intersection = a b) (keep (lambda (x) (in? x b)) a))
    (sx-check 'lset-difference (lset-difference = a b) (keep (lambda (x) (not (in? x b))) a))
    (sx-check 'lset-difference1 (lset-difference = a) a)
    (let ((u (lset-union = a b)))
      (sx-assert 'lset-union (and (every (lambda (x) (in? x u)) a) (every (lambda (x) (in? x u)) b) (every (lambda (x) (or (in? x a) (in? x b))) u))))))
(sx-test lset3
  (let* ((a (ints2)) (b (sx-ints 1 0 2)) (c (sx-ints 1 0 2)))
    (sx-check 'lset-intersection3 (lset-intersection = a b c) (keep (lambda (x) (and (in? x b) (in? x c))) a))
    (sx-check 'lset-difference3 (lset-difference = a b c) (keep (lambda (x) (not (or (in? x b) (in? x c)))) a))))
(sx-test reverse
  (let* ((l (u64s N)) (c (copy l)) (tail (sx-of '() (list 7))))
    (sx-check 'reverse (reverse l) (sx-reverse c '()))
    (unchanged l c)
    (sx-check 'reverse! (reverse! (copy l)) (sx-reverse c '()))
    (sx-check 'reverse!-tail (reverse! (copy l) tail) (sx-reverse c tail))))
(sx-test append
  (let* ((a (u64s 2)) (b (u64s 2)) (c (u64s 1)) (ka (copy a)))
    (sx-check 'append (append a b c) (sx-append a (sx-append b c)))
    (sx-assert 'append-shares (if (null? b) #t (eq? (sx-tail (append a b) (sx-length a)) b)))
    (unchanged a ka)
    (sx-check 'append0 (append) '()) (sx-check 'append1 (append 5) 5) (sx-check 'append-dotted (append a 5) (sx-append a 5))
    (sx-check 'append-nil (append '() a '() b '()) (sx-append a b))))
(define (sx-tail l n) (if (= n 0) l (sx-tail (cdr l) (- n 1))))
(define (sx-head l n) (if (= n 0) '() (cons (car l) (sx-head (cdr l) (- n 1)))))
(sx-test positions
  (let* ((l (u64s N)) (n (sx-length l)) (k (sx-int 0 N)) (c (copy l)))
    (if (<= k n)
        (begin
          (sx-check 'list-head (list-head l k) (sx-head l k))
          (sx-assert 'list-tail (eq? (list-tail l k) (sx-tail l k)))
          (sx-check 'drop-right (drop-right l k) (sx-head l (- n k)))))
    (if (< k n)
        (begin
          (sx-check 'list-ref (list-ref l k) (sx-nth l k))
          (let ((m (copy l)))
            (list-set! m k 'new)
            (sx-check 'list-set! m (sx-append (sx-head l k) (cons 'new (sx-tail l (+ k 1))))))))
    (if (pair? l)
        (begin (sx-check 'last (last l) (sx-nth l (- n 1)))
               (sx-assert 'last-pair (eq? (last-pair l) (sx-tail l (- n 1))))))
    (sx-check 'take-while (take-while (lambda (x) (not (eq? x (if (pair? l) (last l) 0)))) l)
              (let loop ((l l) (k (if (pair? l) (last l) 0))) (if (or (null? l) (= (car l) k)) '() (cons (car l) (loop (cdr l) k)))))
    (unchanged l c)))
(sx-test make
  (let* ((n (sx-int 0 4)) (x (sx-u64)) (s (sx-int -2 2)))
    (define (times n x) (if (= n 0) '() (cons x (times (- n 1) x))))
    (define (count i n s) (if (= n 0) '() (cons i (count (+ i s) (- n 1) s))))
    (sx-check 'make-list (make-list n x) (times n x))
    (sx-check 'make-list-unspecified (sx-length (make-list n)) n)
    (sx-check 'iota (iota n) (count 0 n 1))
    (sx-check 'iota2 (iota n x) (count x n 1))
    (sx-check 'iota3 (iota n x s) (count x n s))
    (sx-check 'cons* (list (cons* x) (cons* x n) (cons* x n '(1))) (list x (cons x n) (list x n 1)))
    (sx-check 'list (list x n) (cons x (cons n '())))
    (sx-check 'unfold (unfold (lambda (i) (= i n)) (lambda (i) (+ i x)) (lambda (i) (+ i 1)) 0) (count x n 1))
    (sx-check 'unfold-tail (unfold (lambda (i) (= i n)) (lambda (i) (+ i x)) (lambda (i) (+ i 1)) 0 (lambda (i) (list i))) (sx-append (count x n 1) (list n)))))
(define (u) (sx-of (sx-u64) 'a "s" #\c '() (list 1)))
(sx-test predicates
  (let* ((l (sx-of '() (list 1 2) (cons 1 2) (cons 1 (cons 2 3)) 5 "s" 'a (vector 1))))
    (define (proper? l) (if (null? l) #t (if (pair? l) (proper? (cdr l)) #f)))
    (sx-check 'list? (list? l) (proper? l))
    (sx-check 'pair? (pair? l) (if (memq l (list '() 5 'a)) #f (not (or (string? l) (vector? l)))))
    (sx-check 'null? (null? l) (eq? l '()))))
;; association lists
(sx-test alist
  (let* ((k1 (sx-int 0 1)) (k2 (sx-int 0 1)) (k (sx-int 0 2)) (v1 (sx-u64)) (v2 (sx-u64)) (v (sx-u64)) (e1 (cons k1 v1)) (e2 (cons k2 v2)) (al (list e1 e2)))
    (define first (if (= k k1) e1 (if (= k k2) e2 #f)))
    (sx-assert 'assq (eq? (assq k al) first))
    (sx-assert 'assv (eq? (assv k al) first))
    (sx-assert 'assoc (eq? (assoc k al) first))
    (let ((d (if first (cdr first) #f)))
      (sx-check 'assq-ref (assq-ref al k) d)
      (sx-check 'assv-ref (assv-ref al k) d)
      (sx-check 'assoc-ref (assoc-ref al k) d))
    (sx-check 'acons (acons k v al) (cons (cons k v) al))
    (case (sx-choice 2)
      ((0) (sx-check 'assq-set! (assq-set! al k v) (if (= k k1) (list (cons k1 v) (cons k2 v2)) (if (= k k2) (list (cons k1 v1) (cons k2 v)) (list (cons k v) (cons k1 v1) (cons k2 v2))))))
      (else (sx-check 'assoc-set! (assoc-set! al k v) (if (= k k1) (list (cons k1 v) (cons k2 v2)) (if (= k k2) (list (cons k1 v1) (cons k2 v)) (list (cons k v) (cons k1 v1) (cons k2 v2)))))))))
(sx-test alist-keys
  (let* ((x (sx-u64)) (y (sx-u64)) (al (list (cons "a" x) (cons (list y) 2) (cons 'k 3) (cons #\c 4))))
    (sx-check 'assoc-ref-string (assoc-ref al "a") x)
    (sx-check 'assoc-ref-list (assoc-ref al (list x)) (if (= x y) 2 #f))
    (sx-check 'assq-ref-symbol (assq-ref al 'k) 3)
    (sx-check 'assq-ref-char (assq-ref al #\c) 4)
    (sx-check 'assoc-ref-none (assoc-ref al "b") #f)
    (sx-check 'assq-ref-false (assq-ref #f 'k) #f)
    (sx-check 'assoc-ref-empty (assoc-ref '() 'k) #f)))
;; composition
(sx-test compose
  (let* ((x (sx-u64)) (y (sx-u64)))
    (sx-check 'compose ((compose list (lambda (x) (+ x 1)) (lambda (x y) (* x y))) x y) (list (+ (* x y) 1)))
    (sx-check 'compose1 ((compose list) x) (list x))
    (sx-check 'apply (list (apply + (list x y)) (apply + x (list y)) (apply list x y '()) (apply list x (list y x))) (list (+ x y) (+ x y) (list x y) (list x y x)))
    (sx-check 'identity (identity x) x)
    (sx-check 'const ((const x) y) x)
    (sx-check 'negate (list ((negate =) x x) ((negate =) 1 2)) '(#f #t))
    (sx-check 'and=> (list (and=> x list) (and=> #f list)) (list (list x) #f))))
;; cxr
(sx-test cxr
  (let* ((t (lambda (a d) (cons a d))) (l (sx-list 8 sx-u64))
         (x (apply (lambda (a b c d e f g h) (cons (cons (cons a b) (cons c d)) (cons (cons e f) (cons g h)))) l)))
    (sx-check 'cxr (list (caaar x) (cdaar x) (cadar x) (cddar x) (caadr x) (cdadr x) (caddr x) (cdddr x)) l)
    (sx-check 'cxr2 (list (caar x) (cdar x) (cadr x) (cddr x)) (list (car (car x)) (cdr (car x)) (car (cdr x)) (cdr (cdr x))))
    (sx-check 'cadddr (cadddr l) (sx-nth l 3))))
;; arguments of no length, improper use
(sx-test errors
  (sx-expect-error)
  (case (sx-choice 9)
    ((0) (list-ref '(1 2) (sx-of 2 3)))
    ((1) (list-tail '(1 2) 3))
    ((2) (list-head '(1 2) 3))
    ((3) (map car '(1)))
    ((4) (fold + 0 '(1 . 2)))
    ((5) (apply car '(1 2)))
    ((6) (for-each car (list 1)))
    ((7) (last '()))
    (else (reverse 'a)))
  (sx-fail 'no-error))
(sx-run)
