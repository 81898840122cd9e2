(load "sx:prelude.scm")
;; The string library: strings as lists of characters, against plain recursive definitions.
(define N (sx-deep 3 5))
(define NEW (string->list "xyz"))
(define (foldr f i l) (if (null? l) i (f (car l) (foldr f i (cdr l)))))
(define (foldl f i l) (if (null? l) i (foldl f (f (car l) i) (cdr l))))
(define (take l n) (if (= n 0) '() (cons (car l) (take (cdr l) (- n 1)))))
(define (tail l n) (if (= n 0) l (tail (cdr l) (- n 1))))
(define (prefix? a b) (if (null? a) #t (if (null? b) #f (if (same? (car a) (car b)) (prefix? (cdr a) (cdr b)) #f))))
(define (same? a b) (= (char->integer a) (char->integer b)))
(define (string-of cs) (list->string cs))
(define (white? c) (let ((i (char->integer c))) (if (= i 32) #t (if (> i 8) (< i 14) #f))))
(define (drop-white l) (if (null? l) l (if (white? (car l)) (drop-white (cdr l)) l)))
(define (flip l) (sx-reverse l '()))
(define (index p l i) (if (null? l) #f (if (p (car l)) i (index p (cdr l) (+ i 1)))))
(define (rindex p l i r) (if (null? l) r (rindex p (cdr l) (+ i 1) (if (p (car l)) i r))))
(define (contains h n i) (if (prefix? n h) i (if (null? h) #f (contains (cdr h) n (+ i 1)))))
(define (split l c cur r)
  (if (null? l) (flip (cons (string-of (flip cur)) r))
      (if (same? (car l) c) (split (cdr l) c '() (cons (string-of (flip cur)) r))
          (split (cdr l) c (cons (car l) cur) r))))
(define (any-string n) (sx-string (sx-upto n)))
(define (letters n . cs) (string-of (sx-list (sx-upto n) (lambda () (sx-nth cs (sx-choice (sx-length cs)))))))
(define (kept s l) (sx-check 'argument-kept s (string-of l)))
(define (chars s) (string->list s))

(sx-test substring
  (let* ((s (any-string N)) (l (chars s)) (n (sx-length l)) (i (sx-upto n)) (j (+ i (sx-upto (- n i)))))
    (sx-check 'substring (substring s i j) (string-of (take (tail l i) (- j i))))
    (sx-check 'substring/copy (substring/copy s i j) (string-of (take (tail l i) (- j i))))
    (sx-check 'substring/shared (substring/shared s i) (string-of (tail l i)))
    (sx-check 'substring1 (substring s i) (string-of (tail l i)))
    (kept s l)))
(sx-test take-drop
  (let* ((s (any-string N)) (l (chars s)) (n (sx-length l)) (i (sx-upto n)))
    (sx-check 'string-take (string-take s i) (string-of (take l i)))
    (sx-check 'string-drop (string-drop s i) (string-of (tail l i)))
    (sx-check 'string-drop-right (string-drop-right s i) (string-of (take l (- n i))))
    (sx-check 'string-copy (string-copy s) s)
    (kept s l)))
(sx-test build
  (let* ((c (sx-char 0 255)) (n (sx-upto N)) (s (any-string 2)) (t (any-string 2)))
    (sx-check 'make-string (make-string n c) (string-of (sx-list n (lambda () c))))
    (sx-check 'string (apply string (chars s)) s)
    (sx-check 'string-append3 (string-append s t s) (string-of (sx-append (chars s) (sx-append (chars t) (chars s)))))
    (sx-check 'reverse-list->string (reverse-list->string (chars s)) (string-of (flip (chars s))))
    (sx-check 'string-null (string-null? s) (null? (chars s)))
    (sx-check 'string-length (string-length (string-append s t)) (+ (sx-length (chars s)) (sx-length (chars t))))))
(sx-test join
  (let* ((l (sx-list (sx-upto 3) (lambda () (any-string 1)))) (d (any-string 2))
         (cs (sx-map chars l)) (dc (chars d))
         (pre (foldr (lambda (x r) (sx-append dc (sx-append x r))) '() cs))
         (suf (foldr (lambda (x r) (sx-append x (sx-append dc r))) '() cs)))
    (sx-check 'join-prefix (string-join l d 'prefix) (string-of pre))
    (sx-check 'join-suffix (string-join l d 'suffix) (string-of suf))
    (sx-check 'join-infix (string-join l d 'infix) (string-of (if (null? l) '() (tail pre (sx-length dc)))))
    (sx-check 'join (string-join l d) (string-of (if (null? l) '() (tail pre (sx-length dc)))))))
(sx-test join-default
  (let* ((l (sx-list (sx-upto 3) (lambda () (any-string 1)))))
    (sx-check 'join-blank (string-join l) (string-join l " "))))
(sx-test split
  (let* ((s (any-string N)) (c (sx-of #\, #\a #\x0 #\xff)))
    (sx-check 'string-split (string-split s c) (split (chars s) c '() '()))
    (sx-check 'split-join (string-join (string-split s c) (string c)) s)))
(sx-test index
  (let* ((s (any-string N)) (l (chars s)) (c (sx-char 0 255)))
    (sx-check 'string-index (string-index s c) (index (lambda (x) (same? x c)) l 0))
    (sx-check 'string-rindex (string-rindex s c) (rindex (lambda (x) (same? x c)) l 0 #f))))
(sx-test index-pred
  (let* ((s (any-string N)) (l (chars s)))
    (sx-check 'index-pred (string-index s char-numeric?) (index (lambda (x) (let ((i (char->integer x))) (if (> i 47) (< i 58) #f))) l 0))
    (sx-check 'rindex-pred (string-rindex s white?) (rindex white? l 0 #f))))
(sx-test contains
  (let* ((s (letters 5 #\a #\b)) (n (letters 3 #\a #\b)))
    (sx-check 'string-contains (string-contains s n) (contains (chars s) (chars n) 0))))
(sx-test contains-any
  (let* ((s (any-string 3)) (n (sx-of "a" "ab" "\xff")))
    (sx-check 'string-contains (string-contains s n) (contains (chars s) (chars n) 0))))
(sx-test prefix
  (let* ((s (any-string N)) (p (any-string 2)))
    (sx-check 'string-prefix? (string-prefix? p s) (prefix? (chars p) (chars s)))
    (sx-check 'string-suffix? (string-suffix? p s) (prefix? (flip (chars p)) (flip (chars s))))
    (kept s (chars s))))
(sx-test symbol
  (let* ((s (letters 3 #\a #\b)) (p (letters 2 #\a #\z)))
    (sx-check 'symbol-prefix? (symbol-prefix? 'ab (string->symbol s)) (prefix? (chars "ab") (chars s)))
    (sx-check 'symbol (symbol->string (string->symbol s)) s)
    (sx-check 'symbol-append (symbol->string (symbol-append (string->symbol s) 'q (string->symbol p))) (string-append s "q" p))
    (sx-check 'symbol-append-eq (symbol-append (string->symbol s) (string->symbol p)) (string->symbol (string-append s p)))
    (sx-check 'keyword (keyword->symbol (symbol->keyword (string->symbol s))) (string->symbol s))
    (sx-check 'keyword-eq (equal? (symbol->keyword 'ab) (symbol->keyword (string->symbol s))) (equal? (chars s) '(#\a #\b)))))
(sx-test trim
  (let* ((s (any-string N)) (l (chars s)))
    (sx-check 'string-trim (string-trim s) (string-of (drop-white l)))
    (sx-check 'string-trim-right (string-trim-right s) (string-of (flip (drop-white (flip l)))))
    (sx-check 'string-trim-both (string-trim-both s) (string-of (flip (drop-white (flip (drop-white l))))))
    (kept s l)))
(sx-test case
  (let* ((s (string-append (letters 1 #\a #\Z) (any-string 1))) (l (chars s))
         (up (lambda (c) (let ((i (char->integer c))) (if (if (> i 96) (< i 123) #f) (integer->char (- i 32)) c))))
         (down (lambda (c) (let ((i (char->integer c))) (if (if (> i 64) (< i 91) #f) (integer->char (+ i 32)) c)))))
    (sx-check 'string-upcase (string-upcase s) (string-of (sx-map up l)))
    (sx-check 'string-downcase (string-downcase s) (string-of (sx-map down l)))
    (sx-check 'string-map (string-map (lambda (c) (integer->char (logxor 1 (char->integer c)))) s)
              (string-of (sx-map (lambda (c) (integer->char (logxor 1 (char->integer c)))) l)))
    (kept s l)))
(sx-test fold
  (let* ((s (any-string N)) (l (chars s)))
    (sx-check 'string-fold (string-fold cons '(z) s) (foldl cons '(z) l))
    (sx-check 'string-fold-right (string-fold-right cons '(z) s) (foldr cons '(z) l))
    (sx-check 'string-fold-count (string-fold (lambda (c n) (+ n (char->integer c))) 0 s) (foldl (lambda (c n) (+ (char->integer c) n)) 0 l))))
(sx-test delete
  (let* ((s (any-string N)) (l (chars s)) (c (sx-char 0 255)) (not-c (lambda (x) (not (same? x c)))))
    (sx-check 'delete-char (string-delete c s) (string-of (foldr (lambda (x r) (if (not-c x) (cons x r) r)) '() l)))
    (sx-check 'delete-pred (string-delete white? s) (string-of (foldr (lambda (x r) (if (white? x) r (cons x r))) '() l)))))
(sx-test replace
  (let* ((s (any-string N)) (l (chars s)) (n (sx-length l)) (i (sx-upto n)) (j (+ i (sx-upto (- n i)))) (r (any-string 2)))
    (sx-check 'string-replace (string-replace s r i j) (string-of (sx-append (take l i) (sx-append (chars r) (tail l j)))))
    (sx-check 'string-replace2 (string-replace s r i) (string-of (sx-append (take l i) (chars r))))
    (kept s l)))
(sx-test tokenize
  (let* ((s (letters (sx-deep 5 6) #\a #\b #\,)) (set (char-set #\a #\b))
         (parts (split (chars s) #\, '() '())))
    (sx-check 'string-tokenize (string-tokenize s set) (foldr (lambda (x r) (if (null? (chars x)) r (cons x r))) '() parts))))
(sx-test string=
  (let* ((a (letters 3 #\a #\b)) (b (letters 3 #\a #\b)) (la (chars a)) (lb (chars b))
         (na (sx-length la)) (i (sx-upto na)) (j (+ i (sx-upto (- na i)))))
    (sx-check 'string= (string= a b) (equal? la lb))
    (sx-check 'string=2 (string= a b i) (equal? (tail la i) lb))
    (sx-check 'string=3 (string= a b i j) (equal? (take (tail la i) (- j i)) lb))))
(sx-test string=5
  (let* ((a "abab") (b (letters 3 #\a #\b)) (la (chars a)) (lb (chars b))
         (i (sx-upto 4)) (j (+ i (sx-upto (- 4 i)))) (nb (sx-length lb)) (k (sx-upto nb)) (m (+ k (sx-upto (- nb k)))))
    (sx-check 'string=4 (string= a b i j k) (equal? (take (tail la i) (- j i)) (tail lb k)))
    (sx-check 'string=5 (string= a b i j k m) (equal? (take (tail la i) (- j i)) (take (tail lb k) (- m k))))))
(sx-test charset
  (let* ((c (sx-char 0 127)) (i (char->integer c)) (a (sx-char 0 255)) (b (sx-char 0 255)) (s (char-set a b)))
    (sx-check 'contains (char-set-contains? (char-set a b) c) (if (same? a c) #t (same? b c)))
    (sx-check 'string->char-set (char-set-contains? (string->char-set (string a b)) c) (if (same? a c) #t (same? b c)))
    (sx-check 'adjoin (char-set-contains? (char-set-adjoin (char-set a) b) c) (if (same? a c) #t (same? b c)))
    (sx-check 'list->char-set (char-set-contains? (list->char-set (list a b)) c) (if (same? a c) #t (same? b c)))
    (sx-check 'copy (char-set-contains? (char-set-copy s) c) (if (same? a c) #t (same? b c)))
    (sx-assert 'char-set? (char-set? s)) (sx-check 'not-char-set (char-set? (list a b)) #f)
    (sx-assert 'char-set= (char-set= s (char-set a b)))))
(sx-test charset-named
  (let* ((c (sx-char 0 255)) (i (char->integer c)) (in (lambda (lo hi) (if (< i lo) #f (not (> i hi))))))
    (sx-check 'digit (char-set-contains? char-set:digit c) (in 48 57))
    (sx-check 'lower (char-set-contains? char-set:lower-case c) (in 97 122))
    (sx-check 'upper (char-set-contains? char-set:upper-case c) (in 65 90))
    (sx-check 'white (char-set-contains? char-set:whitespace c) (white? c))
    (sx-check 'whitespace? (char-whitespace? c) (white? c))))
(sx-test charset-complement
  (let* ((a (sx-of #\a #\x0 #\x7f)) (s (char-set-complement (char-set a #\b))))
    (let loop ((i 0))
      (if (< i 128)
          (begin (sx-check 'complement (char-set-contains? s (integer->char i)) (not (if (same? a (integer->char i)) #t (= i 98))))
                 (loop (+ i 1)))))))
(sx-test list
  (let* ((s (any-string N)))
    (sx-check 'list->string (list->string (string->list s)) s)
    (sx-check 'string=? (string=? s (string-copy s)) #t)))
(sx-run)
