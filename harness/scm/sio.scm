(load "sx:prelude.scm")
(mes-use-module (mes guile))
;; Text input and output of the library: string ports, formatted output, lines.
(define N (sx-deep 3 4))
(define (flip l) (sx-reverse l '()))
(define (same? a b) (= (char->integer a) (char->integer b)))
(define (string-of cs) (list->string cs))
(define (chars s) (string->list s))
(define (any-string n) (sx-string (sx-upto n)))
(define (letters n . cs) (string-of (sx-list (sx-upto n) (lambda () (sx-nth cs (sx-choice (sx-length cs)))))))
(define (split l c cur r)
  (if (null? l) (flip (cons (string-of (flip cur)) r))
      (if (same? (car l) c) (split (cdr l) c '() (cons (string-of (flip cur)) r))
          (split (cdr l) c (cons (car l) cur) r))))
(sx-test out
  (let* ((s (any-string N)) (r (with-output-to-string (lambda () (display "x") (display s) (write-char #\y)))))
    (sx-check 'with-output-to-string r (string-append "x" s "y"))
    (display "done") (sx-check 'port-restored (sx-out 1) "done")))
(sx-test format
  (let* ((n (sx-int -12 12)) (s (any-string 1)))
    (sx-check 'format (simple-format #f "a~a b~A c~a" n s 'q) (string-append "a" (number->string n) " b" s " cq"))
    (sx-check 'format-write (format #f "~s~S" "q\"" #\a) "\"q\\\"\"#\\a")
    (simple-format #t "~a;" s)
    (sx-check 'format-port (sx-out 1) (string-append s ";"))
    (sx-check 'object->string (object->string (list s n)) (with-output-to-string (lambda () (write (list s n)))))))
(sx-test in
  (let* ((s (any-string N)) (l (chars s)))
    (sx-check 'with-input (with-input-from-string s (lambda () (let loop ((c (read-char)) (r '())) (if (eof-object? c) (flip r) (loop (read-char) (cons c r)))))) l)
    (sx-check 'peek (with-input-from-string s (lambda () (let* ((a (peek-char)) (b (read-char))) (if (eof-object? a) (eof-object? b) (eq? a b))))) #t)))
(sx-test lines
  (let* ((s (letters 4 #\a #\newline)) (l (chars s)) (parts (split l #\newline '() '())))
    (with-input-from-string s
      (lambda ()
        (let loop ((p parts))
          (let ((x (read-line)))
            (if (if (null? (cdr p)) (null? (chars (car p))) #f) (sx-assert 'read-line-eof (eof-object? x))
                (begin (sx-check 'read-line x (car p))
                       (if (pair? (cdr p)) (loop (cdr p)) (sx-assert 'read-line-end (eof-object? (read-line))))))))))))
(sx-test unread
  (let* ((s (string-append (letters 2 #\a #\b) "c")) (c (sx-char 0 255)))
    (sx-check 'unread (with-input-from-string s (lambda () (let* ((a (read-char))) (unread-char c) (let* ((b (peek-char)) (d (read-char)) (e (read-char))) (list a b d (if (eof-object? e) "end" e))))))
              (list (car (chars s)) c c (if (null? (cdr (chars s))) "end" (cadr (chars s)))))))
;; ports given as arguments, files
(define (file-bytes name) (with-input-from-file name (lambda () (read-string))))
(sx-test port-argument
  (let* ((s (any-string 2)))
    (display s (current-error-port)) (newline (current-error-port)) (write-char #\z (current-error-port)) (write 'q (current-error-port))
    (sx-check 'nothing-elsewhere (sx-out 1) "")
    (sx-check 'error-port (sx-out 2) (string-append s "\nzq"))
    (newline) (display s) (write-char #\c)
    (sx-check 'output-port (sx-out 1) (string-append "\n" s "c"))))
(sx-test with-port
  (let* ((s (any-string 1)))
    (sx-check 'value (with-output-to-port 2 (lambda () (display s) (write 5) 'v)) 'v)
    (display "o")
    (sx-check 'port (list (sx-out 2) (sx-out 1)) (list (string-append s "5") "o"))))
(sx-test file
  (let* ((s (any-string N)) (t (any-string 1)))
    (sx-check 'value (with-output-to-file "no-file" (lambda () (display s) (display t) 'v)) 'v)
    (display "o") (sx-check 'restored (sx-out 1) "o")
    (sx-check 'contents (file-bytes "no-file") (string-append s t))
    (with-output-to-file "no-file" (lambda () (display t)))
    (sx-check 'truncated (file-bytes "no-file") t)
    (sx-check 'chars (with-input-from-file "no-file" (lambda () (let loop ((c (read-char)) (r '())) (if (eof-object? c) (flip r) (loop (read-char) (cons c r)))))) (chars t))
    (sx-assert 'exists (file-exists? "no-file"))
    (delete-file "no-file")
    (sx-check 'deleted (file-exists? "no-file") #f)))
(sx-test file-error
  (let* ((s (any-string N)))
    (with-error-to-file "err" (lambda () (display s (current-error-port))))
    (display "e" (current-error-port))
    (sx-check 'contents (list (file-bytes "err") (sx-out 2)) (list s "e"))))
(sx-test missing
  (sx-check 'not-there (file-exists? "nothere") #f)
  (sx-check 'error (catch #t (lambda () (with-input-from-file "nothere" read-char)) (lambda (k . a) k)) 'system-error)
  (sx-check 'no-output (catch #t (lambda () (with-output-to-file "no:file" (lambda () (display "lost"))) 'ok) (lambda (k . a) 'failed)) 'failed)
  (sx-check 'nothing (sx-out 1) ""))
(sx-test two-inputs
  (let* ((a (sx-char 0 255)) (b (sx-char 0 255)) (c (sx-char 0 255)) (p (open-input-string (string a b))) (q (open-input-string (string c)))
         (k (sx-choice 3)))
    (sx-check 'interleaved
      (if (= k 0) (list (read-char p) (read-char q) (read-char p) (eof-object? (read-char q)))
          (if (= k 1) (list (read-char p) (string-ref (read-string q) 0) (string-ref (read-string p) 0) (eof-object? (read-char q)))
              (let* ((x (with-input-from-string "zz" (lambda () (list (read-char) (read-char p) (peek-char) (read-char q))))))
                (sx-check 'inside x (list #\z a #\z c))
                (list a c (read-char p) (eof-object? (read-char p))))))
      (list a c b #t))))
(sx-test set-port
  (let* ((s (any-string 2)) (prev (current-input-port)) (p (open-input-string s)))
    (sx-check 'previous (set-current-input-port p) prev)
    (sx-assert 'current (eq? (current-input-port) p))
    (sx-check 'read (read-string) s)
    (set-current-input-port prev)
    (sx-check 'restored (current-input-port) prev)))
(sx-test read-port
  (let* ((n (sx-int -9 9)) (p (open-input-string (string-append (number->string n) " (a . b) \"x\""))) (prev (current-input-port)))
    (sx-check 'read1 (read p) n) (sx-check 'read2 (read p) '(a . b)) (sx-check 'read3 (read p) "x") (sx-assert 'read-end (null? (read p)))
    (sx-check 'restored (current-input-port) prev)
    (sx-check 'read-current (with-input-from-string "q r" (lambda () (let* ((a (read)) (b (read))) (list a b)))) '(q r))))
(sx-test line-options
  (let* ((s (letters 3 #\a #\newline)) (p (open-input-string s)))
    (sx-check 'concat (let loop ((r "")) (let ((l (read-line p 'concat))) (if (eof-object? l) r (loop (string-append r l))))) s)
    (sx-check 'drain (drain-input (open-input-string s)) s)))
(sx-test names
  (let* ((s (letters 4 #\a #\/)) (l (chars s)))
    (define (last-part l r) (if (null? l) (flip r) (if (eq? (car l) #\/) (last-part (cdr l) '()) (last-part (cdr l) (cons (car l) r)))))
    (define (strip l) (if (null? l) l (if (eq? (car l) #\/) (strip (cdr l)) l)))
    (define (drop-last l) (if (null? l) l (if (eq? (car l) #\/) l (drop-last (cdr l)))))
    (define (squeeze l) (if (null? l) l (if (null? (cdr l)) l (if (eq? (car l) #\/) (if (eq? (cadr l) #\/) (squeeze (cdr l)) (cons (car l) (squeeze (cdr l)))) (cons (car l) (squeeze (cdr l)))))))
    (define (dir l) (let* ((r (strip (drop-last (strip (flip l)))))) (if (null? r) (if (if (pair? l) (eq? (car l) #\/) #f) "/" ".") (string-of (squeeze (flip r))))))
    (sx-check 'basename (basename s) (string-of (last-part l '())))
    (sx-check 'basename-ext (basename (string-append s "b.c") ".c") (string-of (sx-append (last-part l '()) (chars "b"))))
    (sx-check 'dirname (dirname s) (dir l))))
(sx-run)
