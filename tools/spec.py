"""The properties."""
P = []
NA = []
INP = ["inputs"]


def prop(kind, id, title, statement, q, why, files, mech, over=INP):
    P.append(dict(kind=kind, id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech))


def na(id, title, statement, q, why, files, mech, reason, over=INP):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, reason=reason))


prop("symx", "L01", "Memory block functions copy, move, fill, compare and search correctly",
     "memcpy, memmove, memset, memcmp, memchr, memmem and the BSD equivalents have exactly the effect and result ISO C and POSIX give them, for every length, overlap, content and byte argument. They touch no byte outside the blocks they are given, and bytes compare as unsigned.",
     "all block lengths, overlaps, contents and byte arguments", "The tests move one or two short ASCII strings; sign of high bytes, overlap directions and zero lengths are never sampled together.",
     ["lib/string/memcpy.c", "lib/string/memmove.c", "lib/string/memcmp.c", "lib/string/memchr.c", "lib/string/memset.c", "lib/string/memmem.c"],
     [("copy direction on overlap", "lib/string/memmove.c:memmove"), ("byte comparison", "lib/string/memcmp.c:memcmp")])
prop("symx", "L02", "String functions follow ISO C for every string, bound and byte",
     "Length, comparison, copying, concatenation, searching, spanning, duplication and case mapping of C strings give the results ISO C and POSIX define for every content, including bytes above 127, the terminator as a searched character, and empty strings. Bounded variants never read or write beyond their bound nor past the terminator.",
     "all strings and bounds", "Each function has at most one example-based test with ASCII letters.",
     ["lib/string"], [("search", "lib/string/strchr.c:strchr"), ("bounded copy", "lib/string/strncpy.c:strncpy"), ("comparison", "lib/string/strcmp.c:strcmp")])
prop("symx", "L03", "Character classification is right for every character",
     "Each character class predicate and case conversion answers as in the C locale for end-of-file and every character value, and answers false for every other integer. Digit recognition is right for every base from 2 to 36.",
     "every int value and base", "Tests classify a handful of characters.", ["lib/ctype"], [("classes", "lib/ctype/isxdigit.c:isxdigit"), ("digits of a base", "lib/ctype/isnumber.c:isnumber")])
prop("symx", "L04", "Text to integer conversion returns the denoted value and end",
     "Converting text to an integer skips leading white space, takes one optional sign, the prefix its base allows and the longest run of digits, and returns exactly the denoted value of the full result type. The reported end points behind the last consumed digit, or at the start of the text when there is no number.",
     "all texts, all bases, all values in range", "Tests convert a few small numbers; nothing converts 64-bit values, prefixes with signs or malformed text.",
     ["lib/mes/abtol.c", "lib/stdlib/strtol.c", "lib/stdlib/atoi.c", "lib/stdlib/atol.c"], [("digit loop", "lib/mes/abtol.c:abtol"), ("prefix and tail", "lib/stdlib/strtol.c:strtol")])
prop("symx", "L05", "Integer to text conversion yields the canonical numeral",
     "Converting an integer to text yields the numeral that denotes exactly that value in the requested base, without leading zeros, with a minus sign exactly for negative signed values. This holds for every value of the type, including its limits, and stays inside the conversion buffer.",
     "all values, bases 2 to 36, signed and unsigned", "Tests print small numbers only, so buffer underruns and width truncation stay unseen.",
     ["lib/mes/ntoab.c", "lib/mes/itoa.c", "lib/mes/ltoa.c", "lib/mes/ultoa.c", "lib/mes/utoa.c", "lib/mes/ltoab.c"], [("digit generation", "lib/mes/ntoab.c:ntoab")])
prop("symx", "L08", "Sorting yields an ordered permutation and respects the comparator's domain",
     "Sorting leaves exactly the original elements in an order the comparison function accepts, for every array, with equal elements and any element size. The comparison function only ever receives pointers to elements of the array, and nothing outside the array changes.",
     "all arrays and element sizes", "The test sorts one array of distinct elements.", ["lib/stdlib/qsort.c"], [("partitioning", "lib/stdlib/qsort.c:qpart"), ("recursion", "lib/stdlib/qsort.c:qsort")])
prop("symx", "L09", "Heap blocks are aligned, disjoint, accessible and keep their contents",
     "Every successful allocation returns an aligned block that is accessible in full and disjoint from every other live block; zeroed allocation is all zero and resizing keeps the common prefix. A request the kernel refuses, or whose size overflows, yields a null pointer and leaves the heap usable.",
     "all histories of allocator calls, sizes and kernel refusals", "No test makes the kernel refuse memory, requests overflowing sizes, or inspects neighbouring blocks.",
     ["lib/linux/malloc.c", "lib/stdlib/calloc.c", "lib/stdlib/realloc.c", "lib/linux/brk.c"], [("break bump", "lib/linux/malloc.c:malloc"), ("copy on resize", "lib/stdlib/realloc.c:realloc")], ["histories", "inputs", "fault_sequences"])
prop("symx", "L10", "The environment behaves as a map from names to values",
     "Looking up a variable returns the value most recently set for exactly that name, or nothing when it was never set or was removed; setting without overwrite keeps an existing value. No operation disturbs other variables, keeps the caller's strings, or writes outside its own storage, even when the initial vector is full.",
     "all histories of set, unset and lookup over any initial environment", "The test sets and reads one variable.", ["lib/posix/getenv.c", "lib/posix/setenv.c", "lib/posix/unsetenv.c"],
     [("lookup", "lib/posix/getenv.c:getenv"), ("replacement and growth", "lib/posix/setenv.c:setenv"), ("removal", "lib/posix/unsetenv.c:unsetenv")], ["histories", "inputs"])

prop("symx", "L06", "Formatted output is what the C standard describes",
     "vsnprintf, vsprintf, vfprintf and vprintf render each conversion of their format (d, i, u, o, x, X, c, s, n and %%) exactly as the C standard says, with flags - and 0, width, precision (given or *), and length modifiers; text outside conversions is copied. They return the number of characters of the whole text, store no more than the given size, end what they store with a null, and read no string beyond its precision.".replace("%%", "%"),
     "all values, strings, formats and buffer sizes", "Tests print a few values; combinations of flags, width, precision, length and truncation are not covered.", ["lib/stdio/vsnprintf.c", "lib/stdio/vfprintf.c", "lib/stdio/vsprintf.c", "lib/stdio/vprintf.c"],
     [("buffer", "lib/stdio/vsnprintf.c:vsnprintf"), ("stream", "lib/stdio/vfprintf.c:vfprintf"), ("digits", "lib/mes/ntoab.c:ntoab")], ["inputs", "formats"])
prop("symx", "L12", "Reading a stream yields the file's bytes in order, once each",
     "However fgetc, ungetc, fread, fgets, read, feof, fseek and ftell are mixed on a file or pipe, every byte comes out exactly once and in order, a pushed-back character comes first, positions are the file's, and end of file is reported only at the end. This holds for every size of the internal read buffer, every way the kernel splits reads, after failed calls, and when a descriptor is closed and used again.",
     "all histories of input calls over all contents and splits of reads", "Tests read one small file in one way.", ["lib/mes/__buffered_read.c", "lib/mes/fdgetc.c", "lib/mes/fdungetc.c", "lib/stdio/fread.c", "lib/stdio/fgets.c", "lib/stdio/fseek.c", "lib/linux/lseek.c", "lib/linux/dup2.c"],
     [("buffer", "lib/mes/__buffered_read.c:__buffered_read"), ("characters", "lib/mes/fdgetc.c:fdgetc"), ("blocks", "lib/stdio/fread.c:fread"), ("position", "lib/linux/lseek.c:lseek")], ["histories", "inputs", "faults"])
prop("symx", "L13", "What is written to a stream is what the file holds",
     "fopen opens for reading, writing, appending or both, creating and truncating exactly as its mode says. Whatever mixture of fputc, fputs, fwrite, write, seeks and reads follows, the file holds what was written at the positions C prescribes and nothing else. A call that could not write everything says so; a call that reports success wrote everything.",
     "all modes and histories of output calls, and all failures of the kernel", "Tests write one text and ignore failures.", ["lib/stdio/fopen.c", "lib/stdio/fputc.c", "lib/mes/fdputc.c", "lib/mes/fdputs.c", "lib/stdio/fwrite.c", "lib/mes/write.c", "lib/stdio/puts.c"],
     [("modes", "lib/stdio/fopen.c:fopen"), ("characters", "lib/mes/fdputc.c:fdputc"), ("blocks", "lib/stdio/fwrite.c:fwrite"), ("standard streams", "lib/stdlib/puts.c:puts")], ["histories", "inputs", "faults"])
prop("symx", "L14", "System call wrappers pass their arguments to the kernel and its answer back",
     "Each wrapper makes the system call of its name with the arguments in the kernel's order and layout, for every value of them. A refusal becomes -1 with errno set to the kernel's error, anything else is the kernel's result, and structures filled by the kernel (stat, times) are read back as the kernel laid them out.",
     "all arguments and all kernel results", "Tests make a few calls that succeed.", ["lib/linux/*.c", "lib/posix/*.c", "include/sys/stat.h", "include/linux/x86_64/syscall.h"],
     [("calls", "lib/linux/x86_64-mes-gcc/syscall.c:_sys_call"), ("open", "lib/linux/_open3.c:_open3"), ("stat", "include/sys/stat.h:struct stat"), ("signals", "lib/linux/signal.c:signal")], ["inputs", "faults"])
prop("symx", "L18", "Reading a directory yields each entry once",
     "opendir accepts a directory and refuses everything else with the error's reason; readdir then yields every existing entry exactly once, in the kernel's order and with its name and inode, skipping deleted ones, and then null, whatever the sizes of the blocks the kernel delivers. Failures release what was acquired.",
     "all directories and all splits of their entries", "No test reads a directory of more than one block.", ["lib/dirent/opendir.c", "lib/dirent/readdir.c", "lib/dirent/__getdirentries.c", "lib/dirent/closedir.c"],
     [("opening", "lib/dirent/opendir.c:opendir"), ("entries", "lib/dirent/readdir.c:readdir"), ("blocks", "lib/dirent/__getdirentries.c:__getdirentries")], ["inputs", "faults"])

prop("mes", "I01", "Garbage collection keeps all that the program can reach and frees the rest",
     "A collection, at whatever moment it happens, leaves every object that is reachable from the registers, the stack, the module, the symbols or the macro table as it was: its contents, its sharing, cycles and identity; what is not reachable becomes free again. A program computes the same results whenever collections happen. Live data that do not fit raise an error; nothing is lost or overwritten.",
     "all object graphs, roots, moments of collection and values", "Tests hardly collect at all, and never at a chosen moment; an object lost by one collection shows much later.",
     ["src/gc.c", "src/eval-apply.c", "src/vector.c", "src/struct.c"], [("copying", "src/gc.c:gc_copy"), ("tracing", "src/gc.c:gc_loop"), ("moving back", "src/gc.c:gc_cellcpy"), ("roots", "src/gc.c:gc_")], ["schedules", "inputs", "histories"])
prop("symx", "I03", "The reader turns text into exactly the datum it denotes",
     "Reading an external representation yields the datum it denotes, whatever blanks and line, block or datum comments surround its tokens, and consumes exactly that text, from files and from string ports alike. Numerals in every base keep their value, names become the interned symbol of that name, incomplete data raise an error, and no sequence of input bytes does anything but yield a datum or raise an error.",
     "all input texts", "Tests read a few hand-written data; odd comments, end of input, high bytes and numerals at the limits are not combined.",
     ["src/reader.c", "src/posix.c"], [("tokens", "src/reader.c:reader_read_identifier_or_number"), ("lists and comments", "src/reader.c:reader_read_list"), ("strings", "src/reader.c:reader_read_string"), ("characters", "src/reader.c:reader_read_character")])
prop("symx", "I04", "Printed text is the external representation and reads back as an equal object",
     "write prints an object's external representation: reading that text back yields an object equal to the original, for every nesting of lists, dotted pairs, vectors, strings, characters, numbers and symbols with readable names. display prints the same structure with strings and characters as their raw contents, and neither changes the object.",
     "all objects without procedures, ports or records", "Tests print a handful of lists; no test feeds printed text back to the reader.",
     ["src/display.c", "src/reader.c"], [("printer", "src/display.c:display_helper"), ("string escapes", "src/display.c:fdwrite_string_char"), ("character names", "src/display.c:fdwrite_char")])
prop("symx", "I05", "Integer arithmetic, comparison and bit operations are exact modulo 2^64",
     "Addition, subtraction, multiplication, quotient, modulo, comparison, bitwise operations and shifts on integers give the mathematically defined result modulo the machine word, for every operand and number of operands, and leave their operands unchanged. Operands that are not numbers and division by zero raise an error.",
     "all operands", "Tests use small positive operands.", ["src/math.c", "src/lib.c"], [("arithmetic", "src/math.c:divide"), ("remainder sign", "src/math.c:modulo"), ("shifts", "src/math.c:ash"), ("comparison", "src/math.c:less_p")])
prop("symx", "I06", "Pairs and lists: construction, sharing, search and structural equality",
     "Pair constructors, accessors and mutators, length, append, append-reverse, reverse!, last-pair, memq, assq, assoc, eq? and equal? have their Scheme meaning for elements of every type; searches return the first match. Operations that are not destructive neither change nor share the structure of their arguments beyond the last one, and applying them to what is not a pair or proper list raises an error.",
     "all lists and elements of every type", "Tests check a few literal lists with one element type.", ["src/core.c", "src/lib.c"], [("append", "src/core.c:append2"), ("search", "src/core.c:assq"), ("membership", "src/lib.c:memq"), ("structural equality", "src/lib.c:equal2_p")])
prop("symx", "I07", "Strings hold any bytes and operations on them are exact and bounded",
     "Conversion between strings and lists of characters, append, length, element access and comparison treat every byte value, zero included, and every length up to the configured limit exactly, produce fresh strings and leave their arguments unchanged. An index outside the string, an argument of another type, and a result beyond the limit raise an error and touch no other memory.",
     "all strings, indices and the length limit", "No test uses zero bytes, high bytes, limits or bad indices.", ["src/string.c", "src/gc.c"], [("list to string", "src/string.c:list_to_cstring"), ("append", "src/string.c:string_append"), ("element access", "src/string.c:string_ref")])
prop("symx", "I08", "Vectors and structs store and return elements of every type independently",
     "A vector or struct returns for each index the object most recently stored there, by identity or, for numbers and characters, by value; a store changes that element and nothing else. Objects taken out or put in are not aliased with the storage, conversions to and from lists keep order and elements, and an index out of range or an object of another type raises an error.",
     "all contents, indices and histories of stores", "Tests store one or two values and never index out of range.", ["src/vector.c", "src/struct.c"], [("store", "src/vector.c:vector_set_x_"), ("load", "src/vector.c:vector_ref_"), ("struct access", "src/struct.c:struct_ref_")], ["histories", "inputs"])
prop("symx", "I10", "Symbols are interned by name and hash tables behave as maps",
     "Two symbols are the same object exactly when their names are equal, converting between symbols, keywords and strings keeps the name, and the predefined names denote the interpreter's own symbols. A hash table returns for every key the value stored last under it, and the given default otherwise, whatever keys collide.",
     "all names and histories of stores", "Tests intern a few names that never collide in a bucket.", ["src/string.c", "src/hash.c", "src/symbol.c"], [("interning", "src/string.c:string_to_symbol"), ("hash", "src/hash.c:hash_cstring"), ("lookup", "src/hash.c:hashq_get_handle")], ["histories", "inputs"])

prop("mes", "I11", "Evaluation gives every core expression the value Scheme defines",
     "Evaluating constants, variables, quotation, conditionals, sequences, assignments, definitions, procedures with fixed and rest arguments, and calls yields the value the Scheme language defines, with lexical scope and every subexpression evaluated exactly once. Calls with the wrong number of arguments, of non-procedures and uses of unbound variables raise an error.",
     "all programs of the core language and all their inputs", "Tests evaluate a few dozen fixed expressions; combinations of scope, rest arguments, assignment and nested definitions are not enumerated.",
     ["src/eval-apply.c", "src/core.c"], [("evaluator", "src/eval-apply.c:eval_apply"), ("argument binding", "src/eval-apply.c:pairlis"), ("assignment", "src/eval-apply.c:set_env_x")], ["inputs"])
prop("mes", "I12", "Continuations and multiple values deliver values to where they were captured",
     "Calling a continuation abandons the current computation and returns the given values to the point of capture, any number of times, while the procedure that captured it is active or has returned; variables keep their latest values. Multiple values reach their consumer as its arguments, in order and unchanged, however many there are.",
     "all captured continuations, histories of calls and values", "Tests call two or three simple escapes.",
     ["src/eval-apply.c", "mes/module/mes/base.mes"], [("capture", "src/eval-apply.c:eval_apply"), ("values", "src/core.c:values")], ["histories", "inputs"])
prop("mes", "I13", "Calls in tail position do not consume evaluation stack",
     "A loop written with calls in tail position runs in constant evaluation stack: the last expression of a procedure body, both branches of a conditional, the last expression of a sequence, of a conditional clause and of a logical form, and a named loop, including mutual recursion. Results are those of the same loop unrolled.",
     "all tail positions and numbers of rounds", "Tests only loop a few hundred times, which fits the stack even when every round pushes a frame.",
     ["src/eval-apply.c"], [("tail calls", "src/eval-apply.c:eval_apply")], ["histories", "inputs"])
prop("mes", "I14", "Macros expand by their definition before evaluation",
     "A macro use means what its transformer makes of the unevaluated operands, evaluated in the place of the use, each time it is used; syntax-rules selects the first matching rule and instantiates its template with literals, ellipses and nesting as Scheme defines. Forms built on macros dispatch on argument count, bind multiple values and build procedures as their specifications say.",
     "all macro uses within the supported forms", "Tests expand one or two uses per macro.",
     ["src/eval-apply.c", "mes/module/mes/syntax.scm", "mes/module/srfi/srfi-16.scm", "mes/module/srfi/srfi-26.scm", "mes/module/srfi/srfi-8.mes"], [("expansion", "src/eval-apply.c:eval_apply"), ("rule matching", "mes/module/mes/syntax.scm:syntax-rules")], ["inputs"])
MC = ["module/mescc/compile.scm", "module/mescc/x86_64/as.scm", "module/mescc/i386/as.scm", "lib/x86_64-mes/x86_64.M1", "lib/x86-mes/x86.M1"]
prop("mc", "M01", "MesCC's code for operators and conversions computes C values",
     "Code that MesCC generates for an arithmetic, bitwise, shift, comparison, logical or unary operator, or for a conversion between integer types, yields for all operand values the value that C defines for the operand types, on each target architecture: promotion, the usual arithmetic conversions, truncation and extension included.",
     "all operators, operand types and operand values", "The compiler's tests run a few operand values through a few types.",
     MC, [("operators", "module/mescc/compile.scm:expr->register"), ("conversion", "module/mescc/compile.scm:convert-r0"), ("instructions", "module/mescc/x86_64/as.scm:x86_64:r0+r1")], ["inputs"])
prop("mc", "M02", "MesCC's conditional code takes the branch C defines",
     "A test compiled by MesCC selects the branch that the C value of its expression selects, for comparisons, logical operators and negation over operands of all integer types, whether the test stands in an if statement or a conditional expression; logical operators and comparisons yield 0 or 1.",
     "all tests, operand types and values", "Tests branch on small int values.",
     MC, [("tests", "module/mescc/compile.scm:test-jump-label->info"), ("comparisons", "module/mescc/compile.scm:expr->register")], ["inputs"])
prop("mc", "M03", "MesCC's assignments store exactly the object assigned",
     "Assignment, compound assignment, increment and decrement of a variable, parameter, array element, field or pointed-to object of any integer type store the value C defines in that object, leave neighbouring objects unchanged, and have the value and type of the object, for all old and new values.",
     "all objects, types, operators and values", "Tests assign small values and do not look at the neighbours.",
     MC, [("assignment", "module/mescc/compile.scm:expr->register"), ("stores", "module/mescc/compile.scm:r->ident")], ["inputs"])
prop("mc", "M04", "MesCC's statements run in the order C defines",
     "Loops, conditionals, switch with fallthrough and default in any place, break, continue, goto, return, nested blocks, calls and recursion compiled by MesCC execute the statements that C defines, in its order and number, for all values that control them, and leave registers and stack as the caller expects.",
     "all nestings of statements and controlling values", "Tests take one path through each construct.",
     MC, [("statements", "module/mescc/compile.scm:ast->info"), ("switch", "module/mescc/compile.scm:switch->info"), ("calls", "module/mescc/compile.scm:expr->register")], ["inputs", "histories"])
prop("mc", "M05", "MesCC's constants have their C value in every position",
     "An integer or character constant of any notation and size has its C value wherever it stands in the code MesCC generates: as an operand of each operator, an addend to a pointer, an initialiser, an index, a case label or an argument, on each side and for all values of the other operand.",
     "all constants at the limits of each size, and all values of the other operand", "Tests use small positive constants; each size of constant takes another instruction.",
     MC + ["module/mescc/M1.scm"], [("constants", "module/mescc/compile.scm:expr->number"), ("encoding", "module/mescc/M1.scm:infos->M1")], ["inputs"])
prop("mc", "M06", "MesCC lays out and initialises data as its types say",
     "Globals, arrays, strings, structures, unions and enumerations compiled by MesCC have the size, layout and initial contents their declarations define; indexing, field access and pointer arithmetic reach the element the types define, for all indices and contents.",
     "all declarations of the supported kinds, indices and contents", "Tests look at a few elements of a few declarations.",
     MC + ["module/mescc/info.scm"], [("declarations", "module/mescc/compile.scm:decl->info"), ("initialisers", "module/mescc/compile.scm:init->data"), ("fields", "module/mescc/compile.scm:field-offset")], ["inputs"])
prop("mc", "M07", "MesCC's code for nested expressions does not mix up operands",
     "Code for expressions of any depth, with operators, calls, conditional expressions and conversions nested in each other, yields the value of evaluating each part once with its own operands: no register, stack slot or label of one part is changed by another.",
     "all nestings of expressions up to the bounds, and all operand values", "Tests nest two or three operators; registers only run out in deeper ones.",
     MC, [("registers", "module/mescc/compile.scm:allocate-register"), ("calls", "module/mescc/compile.scm:expr->register")], ["inputs"])
prop("mes", "S01", "The list library computes what its specification says, in order",
     "Mapping, folding, filtering, searching, partitioning, deleting, appending and the other list procedures of the Scheme library return the results their specifications define for every list, call their procedure arguments once per element in the specified order, and leave their arguments unchanged unless their name ends in an exclamation mark.",
     "all lists, element values and procedure arguments", "Each procedure has one or two literal examples.",
     ["mes/module/srfi/srfi-1.mes", "mes/module/srfi/srfi-1.scm", "mes/module/mes/scm.mes", "mes/module/mes/base.mes"], [("folds", "mes/module/srfi/srfi-1.mes:fold"), ("search", "mes/module/srfi/srfi-1.scm:find")], ["inputs"])
prop("mes", "S02", "The string library is exact for every content and index",
     "Taking, dropping, joining, splitting, searching, trimming, replacing, mapping, folding, tokenizing and comparing strings gives the results defined for the sequence of their characters, for every byte value, every index including both ends, and empty strings, and leaves the arguments unchanged. Character sets contain exactly the given characters.",
     "all strings, indices and characters", "Each procedure has one or two ASCII examples that avoid empty strings and the ends.",
     ["mes/module/srfi/srfi-13.mes", "mes/module/srfi/srfi-14.mes", "mes/module/mes/scm.mes"], [("search", "mes/module/srfi/srfi-13.mes:string-contains"), ("character sets", "mes/module/srfi/srfi-14.mes:char-set-contains?")], ["inputs"])
prop("mes", "S03", "Derived forms evaluate exactly what they define, once and in order",
     "The forms and, or, cond, case, when, unless, do, let, let*, letrec, named let, quasiquote and local definitions evaluate their parts in the defined order, each at most once and only when selected, bind variables with the defined scope, and yield the defined value, for every value of the tested expressions.",
     "all uses and values", "Tests use constants, so double evaluation, capture and empty forms do not show.",
     ["mes/module/mes/base.mes", "mes/module/mes/scm.mes", "mes/module/mes/let.mes", "mes/module/mes/quasiquote.mes"], [("conditionals", "mes/module/mes/base.mes:cond"), ("bindings", "mes/module/mes/let.mes:let"), ("templates", "mes/module/mes/quasiquote.mes:quasiquote")], ["inputs"])
prop("mes", "S04", "Numeric and character procedures of the library are exact",
     "Comparison, sign, parity, extremes, division, powers and shifts agree with integer arithmetic for every operand; converting an integer to text and back gives the canonical numeral and the same integer in every base, and text that is no numeral gives false. Characters are ordered, classified and mapped by their codes.",
     "all numbers, bases, texts and characters", "Tests use small positive numbers in base ten.",
     ["mes/module/mes/scm.mes", "mes/module/srfi/srfi-14.mes", "src/math.c"], [("to text", "mes/module/mes/scm.mes:number->string"), ("from text", "mes/module/mes/scm.mes:string->number")], ["inputs"])
prop("mes", "S05", "Raised errors reach the innermost matching handler exactly once",
     "Raising an error, by the program or by the interpreter, runs the handler of the innermost active catch whose key matches, with the key and the arguments, in the context of that catch, and the value of the handler becomes the value of the catch; without an error the value of the body does. Handlers are inactive while they run and after their catch ends; fluids have the value last bound or set.",
     "all nestings of handlers and raised keys", "Tests raise one error in one catch.",
     ["mes/module/mes/catch.mes", "mes/module/mes/fluids.mes", "src/eval-apply.c"], [("handlers", "mes/module/mes/catch.mes:catch"), ("fluids", "mes/module/mes/fluids.mes:make-fluid")], ["histories", "inputs"])
prop("mes", "S06", "Text written by the library is the external representation and reads back equal",
     "Once the library's write and display are loaded, writing a datum made of numbers, characters, strings, symbols, keywords, booleans, pairs and vectors yields its external representation at every nesting and for every tail (only a vector directly inside a vector is abbreviated), and reading unabbreviated text yields an equal datum. Display differs only in printing strings and characters as they are. The text goes to the port named, or else to the current output port, and nowhere else.",
     "all data and ports", "Tests display a few data and do not read them back.", ["mes/module/mes/display.mes"],
     [("printer", "mes/module/mes/display.mes:display")], ["inputs"])
prop("mes", "S07", "Records, vectors, tables and association lists keep each stored value",
     "A record constructor stores each argument in the field it names, accessors and setters touch only their field, functional update copies, and a record predicate answers true exactly for records of its type whatever object it is given. Vector, hash table, association list and list element procedures return the value last stored under an index or key and leave the others unchanged.",
     "all histories of stores, all values and all objects given to predicates", "Tests construct one record with arguments in field order and store a few values.",
     ["mes/module/srfi/srfi-9-struct.mes", "mes/module/srfi/srfi-9/gnu-struct.mes", "mes/module/srfi/srfi-43.mes", "mes/module/mes/scm.mes"], [("construction", "mes/module/srfi/srfi-9-struct.mes:record-constructor"), ("predicate", "mes/module/srfi/srfi-9-struct.mes:record-predicate"), ("association", "mes/module/mes/scm.mes:assoc-set!")], ["histories", "inputs"])
prop("mes", "S08", "Option parsing, optional arguments and matching follow their grammar",
     "Parsing a command line yields for every sequence of words exactly the options, values and remaining arguments its option grammar defines, and raises an error for unknown, missing or superfluous values. Optional and keyword arguments get the given value or their default, evaluated only when needed, and pattern matching runs the first clause whose pattern and guard accept the datum, with its parts bound.",
     "all command lines, argument lists and data", "Tests parse a few well-formed command lines; empty words, values that look like options and words behind the first argument are not combined.",
     ["module/mes/getopt-long.scm", "module/mes/optargs.scm", "mes/module/system/base/pmatch.scm", "mes/module/mes/match.scm"], [("option loop", "module/mes/getopt-long.scm:process-options"), ("keyword arguments", "module/mes/optargs.scm:lambda*"), ("clauses", "mes/module/system/base/pmatch.scm:pmatch")], ["inputs"])
prop("mes", "S09", "Ports deliver exactly the text written to them, to the reader named",
     "Output procedures write exactly their text to the port given, or to the current one, and input procedures take the next text of theirs; redirection of input or output lasts exactly as long as its body and other ports are unaffected. Reading lines, characters, data or everything from a string or file yields its text, end of file included, a file holds exactly what was written last, and a missing file raises an error.",
     "all texts and interleavings of ports", "Tests read and write one port at a time with ordinary text.",
     ["src/posix.c", "src/string.c", "mes/module/mes/guile.mes", "mes/module/mes/simple-format.mes", "mes/module/mes/display.mes"], [("reading", "src/posix.c:readchar"), ("redirection", "mes/module/mes/guile.mes:with-output-to-file"), ("string output", "mes/module/mes/simple-format.mes:with-output-to-string")], ["histories", "inputs"])
