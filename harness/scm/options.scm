(load "sx:prelude.scm")
(mes-use-module (mes getopt-long))
(mes-use-module (mes match))
(mes-use-module (mes pmatch))
;; Command line options, optional arguments, pattern matching.
(define spec '((all (single-char #\a)) (big (single-char #\b) (value #t)) (opt (single-char #\o) (value optional)) (long) (need (value #t))))
(define words '("-a" "--all" "-b" "--big" "--big=v" "--big=" "--long" "-ab" "-ba" "-b5" "--" "v" "w" "-" "" "-o" "--opt=z" "--need=x y" "-l" "--none" "--long=1"))
(define (flag? s) (if (> (string-length s) 0) (eq? (string-ref s 0) #\-) #f))
;; the options of one word before --: (option value|need|optional ...) or 'bad
(define (meaning w)
  (let loop ((m '(("-a" all) ("--all" all) ("-b" big next) ("--big" big next) ("--big=v" big "v") ("--big=" big "") ("--long" long)
                  ("-ab" all big next) ("-ba" big all) ("-b5" big "5") ("-o" opt maybe) ("--opt=z" opt "z") ("--need=x y" need "x y")
                  ("-l" bad) ("--none" bad) ("--long=1" bad))))
    (if (null? m) #f (if (equal? w (car (car m))) (cdr (car m)) (loop (cdr m))))))
;; reference: (options . rest) or #f
(define (ref words stop?)
  (let loop ((ws words) (found '()) (etc '()))
    (define (done rest) (cons (sx-reverse found '()) (sx-append (sx-reverse etc '()) rest)))
    (if (null? ws) (done '())
        (let ((m (meaning (car ws))))
          (if (equal? (car ws) "--") (done (cdr ws))
              (if (not m) (if stop? (done (let drop ((l ws)) (if (null? l) '() (if (equal? (car l) "--") (cdr l) (cons (car l) (drop (cdr l)))))))
                              (loop (cdr ws) found (cons (car ws) etc)))
                  (let step ((m m) (found found))
                    (if (null? m) (loop (cdr ws) found etc)
                        (let ((o (car m)) (a (if (pair? (cdr m)) (car (cdr m)) #f)))
                          (if (eq? o 'bad) #f
                              (if (eq? o 'all) (step (cdr m) (cons (cons 'all #t) found))
                                  (if (eq? o 'long) (step (cdr m) (cons (cons 'long #t) found))
                                      (if (string? a) (step (cdr (cdr m)) (cons (cons o a) found))
                                          (if (eq? a 'all) #f
                                              (let ((v (if (pair? (cdr ws)) (if (equal? (car (cdr ws)) "--") #f (if (flag? (car (cdr ws))) #f (car (cdr ws)))) #f)))
                                                (if v (loop (cdr (cdr ws)) (cons (cons o v) found) etc)
                                                    (if (eq? a 'maybe) (loop (cdr ws) (cons (cons o #t) found) etc) #f)))))))))))))))))
(define (values-of k l) (if (null? l) '() (if (eq? k (car (car l))) (cons (cdr (car l)) (values-of k (cdr l))) (values-of k (cdr l)))))
(define (command n stop?)
  (let* ((ws (sx-list n (lambda () (sx-nth words (sx-choice (sx-length words))))))
         (r (ref ws stop?)))
    ;; clumped words split an argument word for the options after them only without stop
    (if (not r) (begin (sx-expect-error) (if stop? (getopt-long (cons "p" ws) spec #:stop-at-first-non-option #t) (getopt-long (cons "p" ws) spec)) (sx-fail 'no-error)))
    (let ((got (if stop? (getopt-long (cons "p" ws) spec #:stop-at-first-non-option #t) (getopt-long (cons "p" ws) spec))))
      (sx-check 'arguments (option-ref got '() #f) (cdr r))
      (sx-map (lambda (k)
                (let ((vs (values-of k (car r))))
                  (sx-check 'values (values-of k (cdr got)) (sx-reverse vs '()))
                  (sx-check 'option-ref (option-ref got k 'no) (if (null? vs) 'no (car (sx-reverse vs '()))))))
              '(all big opt long need)))))
(sx-test getopt1 (command (sx-upto 1) #f))
(sx-test getopt2 (command 2 #f))
(sx-test getopt2-stop (command 2 #t))
(sx-test getopt3
  (set! words (sx-deep '("-a" "-b" "--" "v" "-ab" "-o" "--big=v") '("-a" "-b" "--" "v" "-ab" "-ba" "-b5" "-" "" "-o" "--big=v" "--opt=z")))
  (command 3 (= 0 (sx-choice 2))))
(sx-test getopt-required
  (let* ((s '((all (single-char #\a)) (big (required? #t) (value #t)))) (w (sx-of '() '("-a") '("v") '("--" "--big=1"))))
    (sx-expect-error) (getopt-long (cons "p" w) s) (sx-fail 'no-error)))

(sx-test optional
  (let* ((a (sx-u64)) (b (sx-u64)) (c (sx-u64)) (n (sx-upto 2)) (log '())
         (f (lambda* (x #:optional (y (begin (set! log '(y)) (+ x 1))) z) (list x y z))))
    (sx-check 'optional (apply f a (list-head (list b c) n)) (if (= n 0) (list a (+ a 1) #f) (if (= n 1) (list a b #f) (list a b c))))
    (sx-check 'default-only-if-needed log (if (= n 0) '(y) '()))))
(sx-test keys
  (let* ((a (sx-u64)) (b (sx-u64)) (c (sx-u64)) (k (sx-choice 5))
         (f (lambda* (x #:key (y 7) z) (list x y z))))
    (sx-check 'key (sx-nth (list (f a) (f a #:y b) (f a #:z c) (f a #:z c #:y b) (f a #:y b #:z c)) k)
              (sx-nth (list (list a 7 #f) (list a b #f) (list a 7 c) (list a b c) (list a b c)) k))))
(define* (opt-def a #:optional (b 2) . r) (list a b r))
(define* (key-def a #:key b #:allow-other-keys) (list a b))
(define* (rest-def a #:rest r) (list a r))
(sx-test define*
  (let* ((a (sx-u64)) (b (sx-u64)) (c (sx-u64)))
    (sx-check 'define*-1 (opt-def a) (list a 2 '()))
    (sx-check 'define*-2 (opt-def a b) (list a b '()))
    (sx-check 'define*-3 (opt-def a b c a) (list a b (list c a)))
    (sx-check 'define*-key (key-def a #:q c #:b b) (list a b))
    (sx-check 'define*-rest (list (rest-def a) (rest-def a b c)) (list (list a '()) (list a (list b c))))))
(sx-test optional-errors
  (let* ((f (lambda* (x #:optional y) (list x y))) (g (lambda* (x #:key y) (list x y))))
    (sx-expect-error)
    ((sx-of (lambda () (f)) (lambda () (f 1 2 3)) (lambda () (g 1 #:z 2)) (lambda () (g))))
    (sx-fail 'no-error)))
(sx-test pmatch
  (let* ((x (sx-u64)) (y (sx-u64)) (t (sx-of (list 'add x y) (list 'neg x) x '() (list 'add x) (cons 'add x) "add" (list (list 'neg x) y)))
         (f (lambda (e) (pmatch e ((add ,a ,b) (guard (number? a) (> a b)) (list 'gt a b)) ((add ,a ,b) (list 'sum a b)) ((neg ,a) (list 'minus a)) (() 'nil)
                                  ((add . ,r) (list 'rest r)) (((neg ,a) _) (list 'nested a)) (,n (guard (number? n)) (list 'num n)) (_ 'other))))
         (r (f t)))
    (sx-check 'pmatch r
      (cond ((number? t) (list 'num x)) ((null? t) 'nil) ((string? t) 'other)
            ((pair? (car t)) (list 'nested x))
            ((eq? (car t) 'neg) (list 'minus x))
            ((not (pair? (cdr t))) (list 'rest x))
            ((null? (cdr (cdr t))) (list 'rest (list x)))
            ((> x y) (list 'gt x y)) (else (list 'sum x y))))))
(sx-test match
  (let* ((x (sx-u64)) (y (sx-u64)) (t (sx-of (list 'add x y) (list 'neg x) x '() (list 'add x) (cons 'add x) "add" (list (list 'neg x) y) (list x y x)))
         (r (match t (('add a b) (list 'sum a b)) (('neg a) (list 'minus a)) (() 'nil) ((? number? n) (list 'num n))
                     (('add . r) (list 'rest r)) ((('neg a) _) (list 'nested a)) ("add" 'string) ((a b c) (list 'three a b c)) (_ 'other))))
    (sx-check 'match r
      (cond ((number? t) (list 'num x)) ((null? t) 'nil) ((string? t) 'string)
            ((pair? (car t)) (list 'nested x))
            ((number? (car t)) (list 'three x y x))
            ((eq? (car t) 'neg) (list 'minus x))
            ((not (pair? (cdr t))) (list 'rest x))
            ((null? (cdr (cdr t))) (list 'rest (list x)))
            (else (list 'sum x y))))))
(sx-test match-more
  (let* ((x (sx-u64)) (y (sx-u64)) (t (sx-of 'p 'q 'r x)))
    (sx-check 'match-and (match x ((and a (? number?)) a)) x)
    (sx-check 'match-or (match t ((or 'p 'q) 1) ((? symbol? s) (list s)) (n (list n n)))
              (if (number? t) (list x x) (if (eq? t 'r) (list 'r) 1)))
    (sx-check 'match-same (match (list x y) ((a b) (list b a))) (list y x))))
(sx-run)
