(load "sx:prelude.scm")
(mes-use-module (srfi srfi-9))
(mes-use-module (srfi srfi-9 gnu))
(mes-use-module (srfi srfi-43))
;; Records, vectors, hash tables and association lists of the Scheme library.
(define N (sx-deep 3 4))
(define (u64s n) (sx-list (sx-upto n) sx-u64))
(define (nth l n) (sx-nth l n))
(define (put l n v) (if (= n 0) (cons v (cdr l)) (cons (car l) (put (cdr l) (- n 1) v))))
(define-record-type <p> (make-p x y) p? (x p-x set-p-x!) (y p-y set-p-y!))
(define-record-type <q> (make-q c a) q? (a q-a set-q-a!) (b q-b set-q-b!) (c q-c))
(define-immutable-record-type <r> (make-r a b c) r? (a r-a) (b r-b) (c r-c))

(sx-test record
  (let* ((x (sx-u64)) (y (sx-u64)) (z (sx-u64)) (p (make-p x y)) (p2 (make-p y z)))
    (sx-check 'get-x (p-x p) x) (sx-check 'get-y (p-y p) y)
    (set-p-x! p z)
    (sx-check 'set-x (p-x p) z) (sx-check 'set-keeps (p-y p) y)
    (sx-check 'other (list (p-x p2) (p-y p2)) (list y z))
    (set-p-y! p 'w) (sx-check 'set-y (p-y p) 'w) (sx-check 'set-keeps-x (p-x p) z)))
(sx-test record-order
  (let* ((x (sx-u64)) (y (sx-u64)) (z (sx-u64)) (q (make-q x y)))
    (sx-check 'constructor-order (list (q-a q) (q-c q)) (list y x))
    (set-q-b! q z) (sx-check 'set-b (list (q-a q) (q-b q) (q-c q)) (list y z x))
    (set-q-a! q x) (sx-check 'set-a (list (q-a q) (q-b q) (q-c q)) (list x z x))))
(sx-test record-predicate
  (let* ((x (sx-u64)) (p (make-p x x)) (q (make-q x x)) (r (make-r x x x))
         (others (list x '() #t #f "s" 'sym #\a (list x) (vector x x x x x) car (lambda () x) (current-module) (make-hash-table 2) <p> <q> p? q r)))
    (sx-assert 'p? (eq? (p? p) #t))
    (sx-check 'p?-other (p? (nth others (sx-choice (sx-length others)))) #f)
    (sx-check 'q?-p (q? p) #f) (sx-check 'r?-p (r? p) #f) (sx-check 'p?-q (p? q) #f) (sx-assert 'q? (q? q))))
(sx-test set-field
  (let* ((x (sx-u64)) (y (sx-u64)) (z (sx-u64)) (r (make-r x y z)) (name (sx-u64)) (type (sx-u64)) (set 3)
         (k (sx-choice 3))
         (s (nth (list (lambda () (set-field r (r-a) name)) (lambda () (set-field r (r-b) type)) (lambda () (set-field r (r-c) set))) k))
         (s (s)) (v (nth (list name type set) k)))
    (sx-check 'set-field (list (r-a s) (r-b s) (r-c s)) (put (list x y z) k v))
    (sx-check 'set-field-keeps (list (r-a r) (r-b r) (r-c r)) (list x y z))
    (sx-assert 'set-field-type (r? s))))
(sx-test record-field-error
  (let* ((x 5) (q (make-q x x)))
    (sx-expect-error)
    ((sx-of (lambda () (p-x q)) (lambda () (set-p-x! q x)) (lambda () (p-y x)) (lambda () (make-p x)) (lambda () (make-p x x x)) (lambda () (r-a (make-p x x)))))
    (sx-fail 'no-error)))
(sx-test vector
  (let* ((l (u64s N)) (v (list->vector l)) (n (sx-length l)))
    (sx-check 'vector->list (vector->list v) l)
    (sx-check 'vector (apply vector l) v)
    (sx-check 'vector-length (vector-length v) n)
    (let ((w (vector-copy v)))
      (sx-check 'vector-copy w v)
      (if (> n 0) (let ((i (sx-choice n)) (x (sx-u64)))
                    (vector-set! w i x)
                    (sx-check 'vector-set (vector->list w) (put l i x))
                    (sx-check 'vector-ref (vector-ref w i) x)
                    (sx-check 'vector-copy-fresh (vector->list v) l))))))
(sx-test vector-fill
  (let* ((x (sx-u64)) (n (sx-upto N)) (v (make-vector n x)))
    (sx-check 'make-vector (vector->list v) (sx-list n (lambda () x)))))
(sx-test vector-map
  (let* ((l (u64s N)) (v (list->vector l)) (log '()))
    (sx-check 'vector-map (vector->list (vector-map (lambda (i x) (set! log (cons (cons i x) log)) (+ i x)) v))
              (let loop ((l l) (i 0)) (if (null? l) '() (cons (+ i (car l)) (loop (cdr l) (+ i 1))))))
    (sx-check 'vector-map-order (sx-reverse log '()) (let loop ((l l) (i 0)) (if (null? l) '() (cons (cons i (car l)) (loop (cdr l) (+ i 1))))))
    (set! log '())
    (vector-for-each (lambda (i x) (set! log (cons (cons i x) log))) v)
    (sx-check 'vector-for-each (sx-reverse log '()) (let loop ((l l) (i 0)) (if (null? l) '() (cons (cons i (car l)) (loop (cdr l) (+ i 1))))))
    (sx-check 'kept (vector->list v) l)))
(define keys '("ab" "b" "a" "ba" "c"))
(define (key) (sx-nth keys (sx-choice 5)))
(define (find k al) (if (null? al) #f (if (equal? k (car (car al))) (car al) (find k (cdr al)))))
(sx-test hash
  (let loop ((n (sx-deep 3 4)) (h (apply make-hash-table (sx-of '() '(1) '(2) '(5)))) (m '()))
    (if (> n 0)
        (let ((k (key)) (v (sx-u64))) (hash-set! h k v) (loop (- n 1) h (cons (cons k v) m)))
        (let* ((k (key)) (e (find k m)))
          (sx-check 'hash-ref (hash-ref h k 'none) (if e (cdr e) 'none))))))
(sx-test hashq
  (let loop ((n 3) (h (apply make-hash-table (sx-of '() '(1) '(2) '(5)))) (m '()))
    (if (> n 0)
        (let ((k (sx-of 'a 'b 'c 'ab)) (v (sx-u64))) (hashq-set! h k v) (loop (- n 1) h (cons (cons k v) m)))
        (let* ((k (sx-of 'a 'b 'c 'ab)) (e (find k m)) (hd (hashq-get-handle h k #f)))
          (sx-check 'hashq-ref (hashq-ref h k #f) (if e (cdr e) #f))
          (sx-check 'hashq-get-handle hd (if e (cons k (cdr e)) #f))))))
(sx-test alist-assoc
  (let loop ((n 3) (al '()) (m '()))
    (if (> n 0)
        (let* ((k (key)) (v (sx-u64))) (loop (- n 1) (assoc-set! al k v) (cons (cons k v) m)))
        (let* ((k (key)) (e (find k m)))
          (sx-check 'assoc-ref (assoc-ref al k) (if e (cdr e) #f))
          (sx-check 'assoc (assoc k al) (if e (cons (car e) (cdr e)) #f))
          (sx-assert 'assoc-one (not (let count ((l al) (n 0)) (if (null? l) (> n 1) (count (cdr l) (if (equal? k (car (car l))) (+ n 1) n))))))))))
(sx-test alist-assq
  (let loop ((n 3) (al '()) (m '()))
    (if (> n 0)
        (let* ((k (sx-of 'a 'b 'c)) (v (sx-u64))) (loop (- n 1) (assq-set! al k v) (cons (cons k v) m)))
        (let* ((k (sx-of 'a 'b 'c)) (e (find k m)))
          (sx-check 'assq-ref (assq-ref al k) (if e (cdr e) #f))
          (sx-check 'assv-ref (assv-ref al k) (if e (cdr e) #f))
          (sx-check 'assq (assq k al) (if e (cons (car e) (cdr e)) #f))))))
(sx-test alist-more
  (let* ((x (sx-u64)) (y (sx-u64)) (al (list (cons 'a x) (cons 'b y) (cons 'a y))) (k (sx-of 'a 'b 'c)))
    (sx-check 'acons (acons k x al) (cons (cons k x) al))
    (sx-check 'assq-first (assq-ref al 'a) x)
    (sx-check 'assv (assv k al) (assq k al))
    (sx-check 'alist-empty (list (assq-ref '() k) (assoc-ref '() k) (assoc-ref #f k) (assq-ref #f k)) '(#f #f #f #f))))
(sx-test list-ops
  (let* ((l (cons (sx-u64) (u64s N))) (n (sx-length l)) (i (sx-choice n)) (x (sx-u64)))
    (sx-check 'list-ref (list-ref l i) (nth l i))
    (sx-check 'make-list (make-list i x) (sx-list i (lambda () x)))
    (sx-check 'list-tail+head (append (list-head l i) (list-tail l i)) l)
    (let ((c (append l '())))
      (list-set! c i x) (sx-check 'list-set! c (put l i x)))))
(sx-test compose
  (let* ((x (sx-u64)))
    (sx-check 'compose ((compose list (lambda (x) (+ x 1)) (lambda (x) (- x 3))) x) (list (- x 2)))
    (sx-check 'compose1 ((compose 1+) x) (+ x 1))
    (sx-check 'negate (list ((negate zero?) x) ((negate (lambda (a b) (< a b))) x 0)) (list (not (= x 0)) (not (< x 0))))
    (sx-check 'const ((const x) 1 2) x)
    (sx-check 'identity (identity x) x)
    (sx-check 'and=> (list (and=> x list) (and=> #f list)) (list (list x) #f))))
(sx-test gensym
  (let* ((a (gensym)) (b (gensym)) (c (gensym)))
    (sx-assert 'gensym (and (symbol? a) (symbol? b) (not (eq? a b)) (not (eq? b c)) (not (eq? a c))))))
(sx-run)
