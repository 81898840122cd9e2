(load "sx:prelude.scm")
;; Programs of catch, throw, values and effects; the reference passes results explicitly: (ok v) or (throw key . args).
(define sx-log '())
(define (note x) (set! sx-log (cons x sx-log)) x)
(define ref-log '())
(define (ref-note x) (set! ref-log (cons x ref-log)) x)
(define (ok v) (list 'ok v))
(define (ok? r) (eq? (car r) 'ok))
;; a program: (value x) (throw key args) (seq p q) (in p) (catch key p handler) ; handler: list | value | rethrow | other | q: a program
(define (run p)
  (case (car p)
    ((value) (note (cadr p)))
    ((throw) (apply throw (cadr p) (caddr p)))
    ((seq) (run (cadr p)) (run (caddr p)))
    ((in) (list (run (cadr p))))
    ((call) ((lambda (f) (cons 1 (f (cadr p)))) run))
    ((map) (sx-map run (list (cadr p) '(value 5))))
    ((catch) (catch (cadr p) (lambda () (run (caddr p)))
               (lambda (key . args)
                 (note (cons key args))
                 (case (cadddr p)
                   ((list) (cons key args))
                   ((rethrow) (apply throw key args))
                   ((other) (throw 'k2 9))
                   (else (run (cadddr p)))))))))
(define (bind r f) (if (ok? r) (f (cadr r)) r))
(define (ref p)
  (case (car p)
    ((value) (ok (ref-note (cadr p))))
    ((throw) (cons 'throw (cons (cadr p) (caddr p))))
    ((seq) (bind (ref (cadr p)) (lambda (v) (ref (caddr p)))))
    ((in) (bind (ref (cadr p)) (lambda (v) (ok (list v)))))
    ((call) (bind (ref (cadr p)) (lambda (v) (ok (cons 1 v)))))
    ((map) (bind (ref (cadr p)) (lambda (v) (bind (ref '(value 5)) (lambda (w) (ok (list v w)))))))
    ((catch)
     (let ((r (ref (caddr p))))
       (if (or (ok? r) (not (or (eq? (cadr p) #t) (eq? (cadr p) (cadr r))))) r
           (begin
             (ref-note (cdr r))
             (case (cadddr p)
               ((list) (ok (cdr r)))
               ((rethrow) r)
               ((other) '(throw k2 9))
               (else (ref (cadddr p))))))))))
(define (key) (sx-of 'k1 'k2))
(define rot 0)
(define (leaf)
  (set! rot (+ rot 1))
  (if (= 0 (sx-choice 2)) (list 'value (sx-u64))
      (list 'throw (key) (case (remainder rot 3) ((0) '()) ((1) (list (sx-u64))) (else (list "m" (sx-u64)))))))
(define (gen d)
  (if (= d 0) (leaf)
      (case (sx-choice 7)
        ((0) (leaf))
        ((1) (let* ((p (gen (- d 1)))) (list 'seq p (leaf))))
        ((2) (let* ((p (leaf))) (list 'seq p (gen (- d 1)))))
        ((3) (list (sx-of 'in 'call 'map) (gen (- d 1))))
        ((4 5) (let* ((k (sx-of #t 'k1 'k2)) (p (gen (- d 1)))) (list 'catch k p (sx-of 'list 'rethrow 'other '(value 3)))))
        (else (let* ((k (sx-of 'k1 #t))) (list 'catch k (list 'throw 'k1 (list 1)) (gen (- d 1))))))))
(define (check p)
  (let* ((want (ref p))
         (got (catch #t (lambda () (ok (run p))) (lambda args (cons 'throw args)))))
    (sx-check 'catch-result got want)
    (sx-check 'catch-effects sx-log ref-log)
    ;; nothing of it remains
    (sx-check 'catch-after (catch 'k9 (lambda () (throw 'k9 1)) (lambda args args)) '(k9 1))))
(define (deep i)
  (lambda ()
    (let* ((p (gen (sx-deep 1 2))))
      (check (case i
               ((0) p)
               ((1) (list 'catch 'k1 p 'list))
               ((2) (list 'catch #t p 'list))
               ((3) (list 'catch 'k2 p 'rethrow))
               ((4) (list 'catch 'k1 p 'other))
               ((5) (list 'seq p p))
               ((6) (list 'catch 'k1 (list 'catch 'k2 p 'list) '(value 1)))
               ((7) (list 'map p))
               ((8) (list 'catch 'k1 '(throw k1 (1)) p))
               ((9) (list 'seq (list 'catch 'k1 p 'list) p)))))))
(define sx-tests (sx-reverse (sx-map deep '(0 1 2 3 4 5 6 7 8 9)) '()))
;; errors of primitive operations and of error reach the handler
(sx-test primitive-errors
  (let* ((bad (sx-choice 10)))
    (sx-check 'primitive-error
              (catch #t
                (lambda ()
                  (case bad
                    ((0) (car (sx-of 1 '() "s" 'sym #\a)))
                    ((1) (cdr (sx-of 1 '() "s" 'sym #\a)))
                    ((2) (primitive-eval 'an-unbound-variable))
                    ((3) (error 'an-error "text" 1))
                    ((4) ((sx-of 1 "s" #f '()) 1))
                    ((5) ((lambda (x) x) 1 2))
                    ((6) (+ 1 (sx-of "s" 'sym '())))
                    ((7) (set-car! (sx-of 1 '()) 2))
                    ((8) ((sx-of car cons) 1 2 3))
                    (else (raise-it)))
                  'returned)
                (lambda (key . args) 'handled))
              'handled)
    ;; and the program goes on
    (sx-check 'primitive-after (catch 'k (lambda () (throw 'k 1)) (lambda args args)) '(k 1))))
(define (raise-it) (throw 'some-key))
(sx-test error-key
  (sx-check 'error-key (catch 'my-key (lambda () (error 'my-key 1 2)) (lambda (key . args) key)) 'my-key))
;; without a handler the program ends with an error
(sx-test uncaught
  (sx-expect-error)
  (case (sx-choice 4)
    ((0) (throw 'k 1))
    ((1) (catch 'k1 (lambda () (throw 'k2)) (lambda args 1)))
    ((2) (catch #t (lambda () (throw 'k1)) (lambda args (throw 'k2))))
    (else (catch #t (lambda () 1) (lambda args 1)) (throw 'k)))
  (sx-fail 'no-error))
;; fluids
(sx-test fluids
  (let* ((f (make-fluid 1)) (g (make-fluid)) (x (sx-u64)) (y (sx-u64)) (z (sx-u64)))
    (fluid-set! g z)
    (sx-check 'fluid-default (fluid-ref f) 1)
    (fluid-set! f x)
    (sx-check 'fluid (list (fluid-ref f) (fluid-ref g)) (list x z))
    (sx-check 'with-fluids (with-fluids ((f y) (g x)) (list (fluid-ref f) (fluid-ref g))) (list y x))
    (sx-check 'fluid-restored (list (fluid-ref f) (fluid-ref g)) (list x z))
    (sx-check 'with-fluid* (with-fluid* f y (lambda () (fluid-set! g y) (fluid-ref f))) y)
    (sx-check 'fluid-restored (list (fluid-ref f) (fluid-ref g)) (list x y))
    (sx-check 'with-fluids-nested (with-fluids ((f y)) (list (with-fluids ((f z)) (fluid-ref f)) (fluid-ref f))) (list z y))))
(sx-test dynamic-wind
  (let* ((x (sx-u64)))
    (sx-check 'dynamic-wind (dynamic-wind (lambda () (note 'in)) (lambda () (note 'body) x) (lambda () (note 'out))) x)
    (sx-check 'dynamic-wind-order sx-log '(out body in))))
(sx-run)
