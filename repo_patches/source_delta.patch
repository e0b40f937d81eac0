From ea1bc2261ac1d9e893387815ce360f70fd845966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:32 +0000
Subject: [PATCH 01/58] fix: reserve room for the terminating NUL of the module
 library name

---
 lib/core/module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index ad1ef96..6a295d1 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -109,8 +109,8 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /* LIB NAME .DYLIB\0 = 3 + STRLEN(NAME) + 7 */
   const size_t lib_name_len = strlen(name) + 10;
 #else
-  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 3 */
-  const size_t lib_name_len = strlen(name) + 6;
+  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 4 */
+  const size_t lib_name_len = strlen(name) + 7;
 #endif
   char* const lib_name = alloca(lib_name_len);
   memset(lib_name, 0, lib_name_len);
-- 
2.43.0


From 1bfbb591983e62822b58245c2e7cb072d3403a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:35 +0000
Subject: [PATCH 02/58] fix: keep the text printed so far when an unquoted NIL
 is printed

lisp_prin_atom returned 0 instead of the current buffer index for NIL in
unquoted mode, so (prinl '(1 NIL 2)) dropped everything before the NIL.
---
 lib/core/print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/print.c b/lib/core/print.c
index 19ded27..62c3fb3 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -69,7 +69,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
 {
   switch (cell->type) {
     case T_NIL:
-      return s ? lisp_write(handle, buf, idx, "NIL", 3) : 0;
+      return s ? lisp_write(handle, buf, idx, "NIL", 3) : idx;
     case T_TRUE:
       return lisp_write(handle, buf, idx, "T", 1);
     case T_CHAR: {
@@ -123,7 +123,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
     case T_WILDCARD:
       return lisp_write(handle, buf, idx, "_", 1);
     default:
-      return 0;
+      return idx;
   }
 }
 
-- 
2.43.0


From df86d963ab96c0cc91b4888dc5670ee15eed61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 03/58] fix: leave room for the NUL written by
 lisp_make_cstring

lisp_make_cstring writes up to LEN characters plus a terminator; these
callers passed the full size of their buffer, so a long enough string was
terminated one byte past its end.
---
 lib/core/debug.c        | 2 +-
 lib/core/utils.c        | 2 +-
 lib/mnml/io/in.c        | 4 ++--
 lib/mnml/io/out.c       | 2 +-
 lib/mnml/unix/connect.c | 4 ++--
 lib/mnml/unix/unlink.c  | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index e28d98f..b4c12e4 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -93,7 +93,7 @@ lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
        */
       if (!IS_NULL(atom) && lisp_is_string(atom)) {
         char buffer[1024];
-        size_t len = lisp_make_cstring(atom, buffer, 1024, 0);
+        size_t len = lisp_make_cstring(atom, buffer, 1023, 0);
         fprintf(fp, "\"%.*s\"", (int)len, buffer);
         break;
       }
diff --git a/lib/core/utils.c b/lib/core/utils.c
index 8fbdcf1..2090839 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -652,7 +652,7 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
   if (IS_NULL(lisp->ichan)) {
     strcpy(absl_buf, getenv("PWD"));
   } else {
-    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX, 0);
+    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX - 1, 0);
   }
   /*
    * Get the fullpath for the file.
diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 2a15749..20b741f 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -25,7 +25,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
   /*
    * Get the working directory for the current lisp->ichan.
    */
-  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX, 0);
+  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX - 1, 0);
   /*
    * Process the CHAN.
    */
@@ -46,7 +46,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index d50821a..ba29f55 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -41,7 +41,7 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/unix/connect.c b/lib/mnml/unix/connect.c
index ccca91e..5e5dc18 100644
--- a/lib/mnml/unix/connect.c
+++ b/lib/mnml/unix/connect.c
@@ -27,7 +27,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char address[1024];
-  size_t len = lisp_make_cstring(ADDRESS, address, 1024, 0);
+  size_t len = lisp_make_cstring(ADDRESS, address, 1023, 0);
   if (len == 0) {
     TRACE("Cannot convert address to a C string");
     return lisp_make_nil(lisp);
@@ -36,7 +36,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char service[1024];
-  len = lisp_make_cstring(PORT, service, 1024, 0);
+  len = lisp_make_cstring(PORT, service, 1023, 0);
   if (len == 0) {
     TRACE("Cannot convert service to a C string");
     return lisp_make_nil(lisp);
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 4d47dfa..20a2b13 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -18,7 +18,7 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
    * Convert the argument.
    */
   char name_buf[PATH_MAX];
-  lisp_make_cstring(NAME, name_buf, PATH_MAX, 0);
+  lisp_make_cstring(NAME, name_buf, PATH_MAX - 1, 0);
   /*
    * Call unlink().
    */
-- 
2.43.0


From 638fc62c0c60caf86dcf2d2a118b6bf66092c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:57 +0000
Subject: [PATCH 04/58] fix: process escape sequences in string literals only

lisp_make_string is also used for run-time data (readline, str, ARGV, ENV,
accept, file paths), where a backslash is an ordinary character: it was
dropped, or turned into a newline or a tab. Do the processing where string
literals are parsed.
---
 lib/core/lisp.c      | 2 +-
 lib/grammar/parser.y | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/core/lisp.c b/lib/core/lisp.c
index f0e254c..b7a6e8c 100644
--- a/lib/core/lisp.c
+++ b/lib/core/lisp.c
@@ -81,7 +81,7 @@ lisp_make_string(const lisp_t lisp, const char* const str, const size_t len)
     atom_t c = lisp_make_char(lisp, str[len - i - 1]);
     res = lisp_cons(lisp, c, res);
   }
-  return lisp_process_escapes(lisp, res, false, lisp_make_nil(lisp));
+  return res;
 }
 
 /*
diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 49b2e72..6e6c79e 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -92,7 +92,9 @@ item(A) ::= CHAR(B).
 
 item(A) ::= STRING(B).
 {
-  A = lisp_make_string(lexer->lisp, B, strlen(B));
+  atom_t nil = lisp_make_nil(lexer->lisp);
+  atom_t str = lisp_make_string(lexer->lisp, B, strlen(B));
+  A = lisp_process_escapes(lexer->lisp, str, false, nil);
   free(B);
 }
 
-- 
2.43.0


From 568ac46160bbc520fbdc422cb2bfda3297a95373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:01 +0000
Subject: [PATCH 05/58] fix: keep the last character of an unterminated last
 line in readline

The last character was removed whether or not it was a newline. Also free
the line buffer when the end of the file is reached.
---
 lib/mnml/io/readline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index 1cef7fe..bf3aa68 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -15,13 +15,14 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   size_t cap = 0;
   ssize_t len = getline(&line, &cap, handle);
   if (len < 0) {
+    free(line);
     MAKE_SYMBOL_STATIC(eof_s, "EOF");
     return lisp_make_symbol(lisp, eof_s);
   }
   /*
    * Remove the extra newline character.
    */
-  if (len > 0 && line[len - 1] != 0) {
+  if (len > 0 && line[len - 1] == '\n') {
     line[len - 1] = 0;
     len -= 1;
   }
-- 
2.43.0


From bbad52a37b8dada527db02b37cb3c29e62d6a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 06/58] fix: release the name when def is given something that
 is not a symbol

---
 lib/mnml/std/def.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/std/def.c b/lib/mnml/std/def.c
index 92be82f..a9879a2 100644
--- a/lib/mnml/std/def.c
+++ b/lib/mnml/std/def.c
@@ -12,6 +12,7 @@ lisp_function_def(const lisp_t lisp, const atom_t closure)
    */
   atom_t symb = lisp_car(lisp, ANY);
   if (!IS_SYMB(symb)) {
+    X(lisp, symb);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 712ed99f54849f4f70351119018130ae51c293f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 07/58] fix: don't look for tail calls in a function without a
 lisp body

lisp_mark_tail_calls walked the body of a native function bound by let, or
of a def with an empty body, as if it were a list, and crashed.
---
 lib/core/utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 2090839..38e09a4 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -524,6 +524,12 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   TRACE_TAIL_SEXP(symb);
   TRACE_TAIL_SEXP(args);
   TRACE_TAIL_SEXP(body);
+  /*
+   * Native functions and empty bodies have no tail call.
+   */
+  if (!IS_PAIR(body)) {
+    return;
+  }
   /*
    * Grab the last expression of the body.
    */
-- 
2.43.0


From 9302d9ac3f1e122db9793db25a7a70cc5896f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:31 +0000
Subject: [PATCH 08/58] fix: make <- return the old value of a global and
 release its arguments

For a global, <- returned the (symbol . old value) pair instead of the old
value it returns for a local. The list of its arguments was leaked on every
call, and so was the new pair when the symbol was not found (with one
release too many on the symbol and the value).
---
 lib/mnml/std/set.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/std/set.c b/lib/mnml/std/set.c
index 742c6e4..e1d6388 100644
--- a/lib/mnml/std/set.c
+++ b/lib/mnml/std/set.c
@@ -13,6 +13,7 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t sym = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t val = lisp_eval(lisp, C, lisp_car(lisp, cdr));
+  X(lisp, cdr);
   /*
    * Check if sym is a symbol.
    */
@@ -40,14 +41,15 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t elt = lisp_cons(lisp, sym, val);
   atom_t res = lisp_tree_upd(lisp, lisp->globals, elt);
   if (!IS_NULL(res)) {
-    return res;
+    atom_t old = lisp_cdr(lisp, res);
+    X(lisp, res);
+    return old;
   }
-  X(lisp, res);
   /*
    * The symbol was not found.
    */
-  X(lisp, sym, val);
-  return lisp_make_nil(lisp);
+  X(lisp, elt);
+  return res;
 }
 
 /* clang-format off */
-- 
2.43.0


From 9bc2435105b434f6d96d3927ce519a3434af8a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 09/58] fix: evaluate the subject of match in the caller's
 environment

It was evaluated in the environment of match itself, where match's own
parameter hides a variable called ANY.
---
 lib/mnml/std/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/std/match.c b/lib/mnml/std/match.c
index dc05375..b7674f2 100644
--- a/lib/mnml/std/match.c
+++ b/lib/mnml/std/match.c
@@ -64,7 +64,7 @@ static atom_t USED
 lisp_function_match(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_eval(lisp, closure, lisp_car(lisp, ANY));
+  atom_t car = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   return lisp_match(lisp, C, car, cdr);
 }
-- 
2.43.0


From 011bd71d5cb4f92f1e53e3d8de6cf3263a3da815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 10/58] fix: declare all the arguments of select

select takes FDS, ON_READ and ON_ERROR but only declared FDS: a debug build
aborted on the argument check, any other build used ON_ERROR as the list of
descriptors and looked the callbacks up in the environment without them.
---
 lib/mnml/unix/select.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index ab82f0a..828821d 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -58,7 +58,8 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     if (FD_ISSET(CAR(fds)->number, set) && !IS_NULL(cb)) {
       atom_t fdn = lisp_car(lisp, fds);
       atom_t cn0 = lisp_cons(lisp, fdn, lisp_make_nil(lisp));
-      atom_t cn1 = lisp_cons(lisp, UP(cb), cn0);
+      atom_t fun = lisp_cons(lisp, lisp_make_quote(lisp), UP(cb));
+      atom_t cn1 = lisp_cons(lisp, fun, cn0);
       X(lisp, act);
       act = lisp_eval(lisp, closure, cn1);
     }
@@ -100,21 +101,10 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
   }
 }
 
-static atom_t
-process(const lisp_t lisp, const atom_t closure, const atom_t fds,
-        const char* const cb_name, const fd_set* const set)
-{
-  MAKE_SYMBOL_STATIC(cb_s, cb_name);
-  atom_t cbk = lisp_make_symbol(lisp, cb_s);
-  atom_t res = process_r(lisp, closure, fds, cbk, set);
-  X(lisp, cbk);
-  return res;
-}
-
 static atom_t USED
 lisp_function_select(const lisp_t lisp, const atom_t closure)
 {
-  LISP_ARGS(closure, C, FDS);
+  LISP_ARGS(closure, C, FDS, ON_READ, ON_ERROR);
   /*
    * Check that the fds argument is a list.
    */
@@ -139,8 +129,8 @@ lisp_function_select(const lisp_t lisp, const atom_t closure)
   /*
    * Process the events.
    */
-  atom_t rres = process(lisp, C, FDS, "ON_READ", &rset);
-  atom_t eres = process(lisp, C, FDS, "ON_ERROR", &eset);
+  atom_t rres = process_r(lisp, C, FDS, ON_READ, &rset);
+  atom_t eres = process_r(lisp, C, FDS, ON_ERROR, &eset);
   /*
    * Build the result.
    */
-- 
2.43.0


From 6a51e48414fede02278fe001a8eefff94f902c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 11/58] fix: only give valid descriptors to FD_SET, FD_ISSET
 and close in select

A negative descriptor, one past FD_SETSIZE or an element that is not a
number made select write or read outside of its sets, or close whatever
descriptor the bits of the element stood for.
---
 lib/mnml/unix/select.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index 828821d..31ecd21 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -5,6 +5,12 @@
 #include <sys/select.h>
 #include <unistd.h>
 
+static bool
+is_fd(const atom_t atom)
+{
+  return IS_NUMB(atom) && atom->number >= 0 && atom->number < FD_SETSIZE;
+}
+
 static int
 convert(const atom_t fds, fd_set* const rset, fd_set* const eset)
 {
@@ -18,12 +24,10 @@ convert(const atom_t fds, fd_set* const rset, fd_set* const eset)
   /*
    * Add CAR in the result set if valid.
    */
-  if (IS_NUMB(CAR(fds))) {
-    if (CAR(fds)->number >= 0 && CAR(fds)->number < UINT32_MAX) {
-      FD_SET(CAR(fds)->number, rset);
-      FD_SET(CAR(fds)->number, eset);
-      cur = CAR(fds)->number;
-    }
+  if (is_fd(CAR(fds))) {
+    FD_SET(CAR(fds)->number, rset);
+    FD_SET(CAR(fds)->number, eset);
+    cur = CAR(fds)->number;
   }
   /*
    * Process the rest of the list.
@@ -46,7 +50,7 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
   /*
    * Check if CAR is in the set.
    */
-  if (IS_NUMB(CAR(fds))) {
+  if (is_fd(CAR(fds))) {
     /*
      * Keep the file descriptor around.
      */
@@ -89,7 +93,9 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     }
     case T_NIL: {
       X(lisp, act);
-      close(CAR(fds)->number);
+      if (is_fd(CAR(fds))) {
+        close(CAR(fds)->number);
+      }
       return process_r(lisp, closure, CDR(fds), cb, set);
     }
     default: {
-- 
2.43.0


From 8f13b41694ae1ffa91ca0e493ffc8f50d3aa15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 12/58] fix: look for tail calls in the last expression of when
 and unless

The first expression of the body was taken for the tail: a recursive call
there was not evaluated before the expressions that follow it.
---
 lib/core/utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 38e09a4..b60fba2 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -492,7 +492,12 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
           lisp_symbol_equal(CAR(cell), "when")) {
         atom_t cd0 = lisp_cdr(lisp, cell);
         atom_t cd1 = lisp_cdr(lisp, cd0);
-        res = lisp_collect_tails(lisp, lisp_car(lisp, cd1));
+        FOREACH(cd1, p)
+        {
+          NEXT(p);
+        }
+        atom_t last = IS_PAIR(cd1) ? UP(p->car) : lisp_make_nil(lisp);
+        res = lisp_collect_tails(lisp, last);
         X(lisp, cell, cd0, cd1);
         break;
       }
-- 
2.43.0


From 24112783597d0a680807e12f48d0a765b905262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 13/58] fix: don't mark the last expression of a stream as a
 tail call

The result of that expression is not the result of the stream: it is the
function that the stream applies to the result of the previous one.
---
 lib/core/utils.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index b60fba2..096be66 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -472,10 +472,9 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
         break;
       }
       /*
-       * Check for PROG and STREAM constructs.
+       * Check for PROG constructs.
        */
-      if (lisp_symbol_equal(CAR(cell), "prog") ||
-          lisp_symbol_equal(CAR(cell), "|>")) {
+      if (lisp_symbol_equal(CAR(cell), "prog")) {
         FOREACH(cell, p)
         {
           NEXT(p);
-- 
2.43.0


From 13c5814332287fef440b674ce002d26eca6d4c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:06 +0000
Subject: [PATCH 14/58] fix: evaluate tail calls whatever the name the function
 is called by

A tail call was only carried on when the function had been called by the
symbol it was marked with. Called by another name (an alias, an argument of
a higher-order function, an anonymous call), a tail-recursive function
returned the internal tail-call cell; when a parameter hid its name, the
wrong function was called. Make the cell hold the function that was called.
---
 lib/core/eval.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index 7e243a1..8927876 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -139,12 +139,12 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
       X(lisp, body, narg, clos);
     }
     /*
-     * Return the (SYMB, BSCL) tail-call for further evaluation.
+     * Return the ((DSCL . BODY) . BSCL) tail-call for further evaluation.
      */
     else if (IS_TAIL_CALL(symb)) {
-      rslt = lisp_cons(lisp, UP(symb), bscl);
+      rslt = lisp_cons(lisp, lisp_cons(lisp, dscl, body), bscl);
       SET_TAIL_CALL(rslt);
-      X(lisp, body, dscl, narg);
+      X(lisp, narg);
     }
     /*
      * Evaluate the lisp function.
@@ -167,18 +167,21 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
          * Evaluate the function's body.
          */
         atom_t res = lisp_prog(lisp, cls1, UP(body), lisp_make_nil(lisp));
-        X(lisp, cls1);
         /*
          * If the result is not a tail call, stop the evaluation.
          */
-        if (!IS_TAIL_CALL(res) || !lisp_symbol_match(CAR(res), &symb->symbol)) {
+        if (!IS_PAIR(res) || !IS_TAIL_CALL(res)) {
+          X(lisp, cls1);
           rslt = res;
           break;
         }
         /*
-         * If it's a tail call, evaluate the function with the new arguments.
+         * If it's a tail call, evaluate the called function with the new
+         * arguments from the current closure.
          */
-        X(lisp, bscl);
+        X(lisp, cls0, body, bscl);
+        cls0 = lisp_merge(lisp, cls1, CAR(CAR(res)));
+        body = UP(CDR(CAR(res)));
         bscl = lisp_cdr(lisp, res);
         X(lisp, res);
       }
-- 
2.43.0


From e6119f7c35eb98f80270c252f85a626e8fc21aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 15/58] fix: let the arguments of a partial application hide
 captured variables

The curried arguments were put before the definition-site closure, and the
latter wins when they are merged: an argument with the same name as a
captured variable was lost.
---
 lib/core/eval.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index 8927876..78fb5b0 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -195,7 +195,17 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
    * Else handle partial application.
    */
   else {
-    atom_t clos = lisp_conc(lisp, bscl, dscl);
+    atom_t clos;
+    /*
+     * For binary functions the arguments must remain in reverse order. For lisp
+     * functions the arguments must override the definition-site closure.
+     */
+    if (IS_NUMB(body)) {
+      clos = lisp_conc(lisp, bscl, dscl);
+    } else {
+      clos = lisp_conc(lisp, lisp_dup(lisp, dscl), bscl);
+      X(lisp, dscl);
+    }
     atom_t con0 = lisp_cons(lisp, clos, body);
     rslt = lisp_cons(lisp, narg, con0);
   }
-- 
2.43.0


From 0ad677458a40735945261e2206b370eb00ec9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 16/58] fix: rotate the current node when rebalancing after an
 insertion

Case 2 rotated the inserted node instead of the node the fix-up has reached,
which loses the red-black invariants of the tree.
---
 lib/core/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 72c6d26..9946dab 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -285,7 +285,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == RIGHT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_lrot(next, node);
+          next = lisp_tree_lrot(next, x);
         }
         /*
          * Case 3.
@@ -310,7 +310,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == LEFT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_rrot(next, node);
+          next = lisp_tree_rrot(next, x);
         }
         /*
          * Case 3.
-- 
2.43.0


From 885707ca60f523025d78fcd66a63634fa28027c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:52 +0000
Subject: [PATCH 17/58] fix: restore the red-black invariants after a removal

Case 1 did not color the parent, and used the parent of a NIL node on the
right side; case 4 lost the new root when the rotation changed it; the
color of the node that ends the fix-up was not cleared.
---
 lib/core/tree.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 9946dab..bb52622 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -480,6 +480,7 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
+        SET_COLOR(p);
         next = lisp_tree_lrot(next, p);
         w = RIGHT(p);
       }
@@ -509,7 +510,7 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(RIGHT(w));
-        x = lisp_tree_lrot(next, p);
+        x = next = lisp_tree_lrot(next, p);
       }
     }
     /*
@@ -522,7 +523,8 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
-        next = lisp_tree_rrot(next, PARENT(x));
+        SET_COLOR(p);
+        next = lisp_tree_rrot(next, p);
         w = LEFT(p);
       }
       /*
@@ -551,13 +553,14 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(LEFT(w));
-        x = lisp_tree_rrot(next, p);
+        x = next = lisp_tree_rrot(next, p);
       }
     }
   }
   /*
-   * Return the new root.
+   * Clear the color of the current node and return the new root.
    */
+  CLR_COLOR(x);
   return next;
 }
 
-- 
2.43.0


From 97f0b06cb6cc8bbf25119660e5284a603ceb768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 18/58] fix: return the tree when the key to remove is not in
 it

---
 lib/core/tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index bb52622..0b89761 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -574,7 +574,8 @@ lisp_tree_rem(const lisp_t lisp, const atom_t root, const symbol_t key)
   const atom_t node = tree_get_node(lisp, root, key);
   if (IS_NULL(node)) {
     UNWEAK(root);
-    return node;
+    X(lisp, node);
+    return root;
   }
   /*
    * Remove the node.
-- 
2.43.0


From 3ef691580e63be55336aa579403eca423bb78045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 19/58] fix: end a string literal at its first unescaped quote

The string rule also took an escaped backslash followed by the closing quote
for an escaped quote, and being the longest match it carried on up to the
next quote of the input.
---
 lib/grammar/lexer.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 7361b6c..a7437c1 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -171,7 +171,7 @@ backt   = '`';
 tilde   = '~';
 number  = '-'? digit+;
 char    = '^' . (print - '\\' | "\\\\" | "\\e" | "\\n" | "\\r" | "\\t") $!parse_error;
-string  = '"' . ([^"] | '\\' '"')* . '"';
+string  = '"' . ([^"\\] | '\\' any)* . '"';
 marks   = [!@$%&*_+\-={}\[\]:;|\\<>?,./];
 symbol  = (alpha | marks) . (alnum | marks){,15} $!parse_error;
 comment = '#' . [^\n]*;
-- 
2.43.0


From eefa57c77bd2693bdcdf6005e5b1f453e866d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 20/58] fix: read lines of any length

Input was read in chunks of 1023 bytes, each parsed as if nothing followed:
a token across two chunks was cut in two, and a token longer than a chunk
was read forever. Read whole lines.
---
 lib/core/read.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/core/read.c b/lib/core/read.c
index 4dd83f8..eef3192 100644
--- a/lib/core/read.c
+++ b/lib/core/read.c
@@ -6,8 +6,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
-
-#define RBUFLEN 1024
+#include <sys/types.h>
 
 static void
 lisp_consumer(const lisp_t lisp, const atom_t cell)
@@ -58,15 +57,27 @@ lisp_read(const lisp_t lisp, const atom_t cell)
   FILE* handle = (FILE*)hnd->number;
   /*
    */
-  char buffer[RBUFLEN] = { 0 };
+  char *line = NULL, *buffer = NULL;
+  size_t cap = 0;
   do {
-    char* p = fgets(buffer + lexer->rem, RBUFLEN - lexer->rem, handle);
-    if (p == NULL) {
+    ssize_t len = getline(&line, &cap, handle);
+    if (len < 0) {
       break;
     }
-    size_t len = strlen(p);
-    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < RBUFLEN);
+    /*
+     * Append the line to what remains of the previous ones.
+     */
+    const size_t mark = lexer->te > lexer->ts ? lexer->te - lexer->ts : 0;
+    buffer = (char*)realloc(buffer, lexer->rem + len);
+    memcpy(buffer + lexer->rem, line, len);
+    if (lexer->ts != NULL) {
+      lexer->ts = buffer;
+      lexer->te = buffer + mark;
+    }
+    lexer_parse(lexer, buffer, lexer->rem + len, true);
   } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))) || lexer_pending(lexer));
+  free(line);
+  free(buffer);
   /*
    * Grab the result and return it.
    */
-- 
2.43.0


From 637a7b9ba51b7acf8a92d53f1120aee8810168e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 21/58] fix: print the backslash character so that it can be
 read back

A lone ^\ is not a character for the reader, which expects ^\\\\.
---
 lib/core/print.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/print.c b/lib/core/print.c
index 62c3fb3..4d471e0 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -89,6 +89,9 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
           case '\t':
             nxt = lisp_write(handle, buf, nxt, "\\t", 2);
             break;
+          case '\\':
+            nxt = lisp_write(handle, buf, nxt, "\\\\", 2);
+            break;
           default:
             nxt = lisp_write(handle, buf, nxt, &c, 1);
             break;
-- 
2.43.0


From 3d2c7a29071e15439fc24cbef2573374882211f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 22/58] fix: release what was parsed of an expression that is
 never completed

An unterminated list at the end of the input, or a token refused by the
parser, was never released.
---
 lib/grammar/parser.y | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 6e6c79e..b54c32d 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -15,6 +15,13 @@
 extern void syntax_error();
 }
 
+%destructor list { X(lexer->lisp, $$); }
+%destructor items { X(lexer->lisp, $$); }
+%destructor prefix { X(lexer->lisp, $$); }
+%destructor item { X(lexer->lisp, $$); }
+%destructor STRING { free($$); }
+%destructor SYMBOL { free($$); }
+
 %syntax_error
 {
   syntax_error();
-- 
2.43.0


From 3423d9b20ba106371c2892ca9f8c2cf30b88b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 23/58] fix: only reuse a cached closure that is large enough

The closures of all the functions of a transpiled module share one cache,
whatever their size: when a callback called another function of the module,
the latter could be given a closure too small for its variables and write
past its end.
---
 include/mnml/closure.h | 1 +
 lib/core/closure.c     | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mnml/closure.h b/include/mnml/closure.h
index bc76822..eaac3c5 100644
--- a/include/mnml/closure.h
+++ b/include/mnml/closure.h
@@ -20,6 +20,7 @@ typedef union value
 typedef struct closure
 {
   struct closure* C;
+  size_t N;
   value_t V[];
 }* closure_t;
 
diff --git a/lib/core/closure.c b/lib/core/closure.c
index 5554ff3..4cdd0ce 100644
--- a/lib/core/closure.c
+++ b/lib/core/closure.c
@@ -3,7 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MALLOC_SIZE(_N) (sizeof(closure_t) + (_N) * sizeof(atom_t))
+#define MALLOC_SIZE(_N) (sizeof(struct closure) + (_N) * sizeof(atom_t))
 
 closure_t
 lisp_closure_get(closure_t* const $, const closure_t C, const size_t N)
@@ -12,11 +12,12 @@ lisp_closure_get(closure_t* const $, const closure_t C, const size_t N)
   /*
    * Allocate the new closure, preferably from the cache.
    */
-  if (*$ != NULL) {
+  if (*$ != NULL && (*$)->N >= N) {
     result = *$;
     *$ = result->C;
   } else {
     result = (closure_t)malloc(MALLOC_SIZE(N));
+    result->N = N;
   }
   /*
    * Return the closure.
-- 
2.43.0


From 11f99c7507277f32299eff3b31715e59542c17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 24/58] fix: evaluate the subject of cond once

It was evaluated again for each predicate (and not at all without any): the
side effects of the subject were repeated, and each predicate could see a
different value.
---
 lib/mnml/std/cond.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/std/cond.c b/lib/mnml/std/cond.c
index e31f1f3..963956d 100644
--- a/lib/mnml/std/cond.c
+++ b/lib/mnml/std/cond.c
@@ -57,7 +57,8 @@ static atom_t USED
 lisp_function_cond(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_car(lisp, ANY);
+  atom_t val = lisp_eval(lisp, C, lisp_car(lisp, ANY));
+  atom_t car = lisp_cons(lisp, lisp_make_quote(lisp), val);
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t res = lisp_cond(lisp, C, car, cdr);
   return res;
-- 
2.43.0


From 007f2b2cebf03f407928a9fe3152cc6b0e76d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:48 +0000
Subject: [PATCH 25/58] fix: don't crash on a division by zero and on
 arithmetic overflow

/ and % by zero, and of the smallest integer by -1, killed the interpreter.
They now return NIL, and the wrapped result. The overflow of +, - and * was
undefined; it wraps as well.
---
 include/mnml/module.h |  3 ++-
 lib/mnml/math/div.c   | 20 +++++++++++++++++++-
 lib/mnml/math/mod.c   | 20 +++++++++++++++++++-
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/include/mnml/module.h b/include/mnml/module.h
index 192d019..f80be8f 100644
--- a/include/mnml/module.h
+++ b/include/mnml/module.h
@@ -203,7 +203,8 @@ void module_load_defaults(const lisp_t lisp);
   static atom_t lisp_function_##_n(const lisp_t l, const atom_t c) \
   {                                                                \
     LISP_ARGS(c, C, _x, _y);                                       \
-    return lisp_make_number(l, (_x)->number _o _y->number);        \
+    uint64_t r = (uint64_t)(_x)->number _o(uint64_t) _y->number;   \
+    return lisp_make_number(l, (int64_t)r);                        \
   }
 
 #define BINARY_COMPARE_GEN(_n, _o, _x, _y)                                    \
diff --git a/lib/mnml/math/div.c b/lib/mnml/math/div.c
index e105512..f51381b 100644
--- a/lib/mnml/math/div.c
+++ b/lib/mnml/math/div.c
@@ -2,7 +2,25 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(div, /, X, Y);
+static atom_t
+lisp_function_div(const lisp_t lisp, const atom_t closure)
+{
+  LISP_ARGS(closure, C, X, Y);
+  /*
+   * There is no result for a division by zero.
+   */
+  if (unlikely(Y->number == 0)) {
+    return lisp_make_nil(lisp);
+  }
+  /*
+   * Negate X when Y is -1, as INT64_MIN / -1 overflows.
+   */
+  if (unlikely(Y->number == -1)) {
+    return lisp_make_number(lisp, (int64_t)(0 - (uint64_t)X->number));
+  }
+  return lisp_make_number(lisp, X->number / Y->number);
+}
+
 LISP_MODULE_SETUP(div, /, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
diff --git a/lib/mnml/math/mod.c b/lib/mnml/math/mod.c
index fdea586..6bad8e4 100644
--- a/lib/mnml/math/mod.c
+++ b/lib/mnml/math/mod.c
@@ -2,7 +2,25 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(mod, %, X, Y);
+static atom_t
+lisp_function_mod(const lisp_t lisp, const atom_t closure)
+{
+  LISP_ARGS(closure, C, X, Y);
+  /*
+   * There is no result for a division by zero.
+   */
+  if (unlikely(Y->number == 0)) {
+    return lisp_make_nil(lisp);
+  }
+  /*
+   * The remainder is always 0 when Y is -1, but INT64_MIN % -1 overflows.
+   */
+  if (unlikely(Y->number == -1)) {
+    return lisp_make_number(lisp, 0);
+  }
+  return lisp_make_number(lisp, X->number % Y->number);
+}
+
 LISP_MODULE_SETUP(mod, %, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
-- 
2.43.0


From b7c0230cecbbdac97489e4699ad3c88fa75d6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 26/58] fix: bound the length of expanded paths and accept a
 missing file name

lisp_get_fullpath copied the prefix, the working directory and the path
without checking that they fit, and wrote before its buffer for a missing
file given without a directory. Loading a file crashed without PWD.
---
 lib/core/utils.c | 62 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 096be66..823f2d1 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -587,10 +587,19 @@ lisp_timestamp()
  * Lisp load file.
  */
 
+static bool
+lisp_join_path(char* const buffer, const char* const a, const char* const b,
+               const char* const c)
+{
+  const int len = snprintf(buffer, PATH_MAX, "%s%s%s", a, b, c);
+  return len >= 0 && len < PATH_MAX;
+}
+
 const char*
 lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
                   const char* const filepath, char* const buffer)
 {
+  bool res;
   char expn_buf[PATH_MAX];
   char absl_buf[PATH_MAX];
   /*
@@ -598,27 +607,32 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
    */
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      strcpy(expn_buf, getenv("MNML_SCRIPT_PATH"));
+      const char* prefix = getenv("MNML_SCRIPT_PATH");
+      res = lisp_join_path(expn_buf, prefix, "", &filepath[4]);
     } else {
-      strcpy(expn_buf, lisp_prefix());
-      strcat(expn_buf, "/share/mnml");
+      const char* prefix = lisp_prefix();
+      res = lisp_join_path(expn_buf, prefix, "/share/mnml", &filepath[4]);
     }
-    strcat(expn_buf, &filepath[4]);
   } else if (filepath[0] == '~' && getenv("HOME") != NULL) {
-    strcpy(expn_buf, getenv("HOME"));
-    strcat(expn_buf, &filepath[1]);
+    res = lisp_join_path(expn_buf, getenv("HOME"), "", &filepath[1]);
   } else {
-    strcpy(expn_buf, filepath);
+    res = lisp_join_path(expn_buf, filepath, "", "");
+  }
+  if (!res) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * If the expanded path is not absolute, prepend the current CWD.
    */
   if (expn_buf[0] != '/' && !IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, cwd);
-    strcat(absl_buf, "/");
-    strcat(absl_buf, expn_buf);
+    res = lisp_join_path(absl_buf, cwd, "/", expn_buf);
   } else {
-    strcpy(absl_buf, expn_buf);
+    res = lisp_join_path(absl_buf, expn_buf, "", "");
+  }
+  if (!res) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * Get the fullpath.
@@ -631,13 +645,18 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
    * If the last entry does not exist yet, realpath is going to fail.
    * So we remove it and try to resolve the directory path.
    */
-  char *last = absl_buf, *p;
-  while ((p = strstr(last, "/"))) {
-    last = p + 1;
+  char* last = strrchr(absl_buf, '/');
+  if (last == NULL) {
+    path = realpath(".", buffer);
+    last = absl_buf;
+  } else if (last == absl_buf) {
+    path = realpath("/", buffer);
+    last += 1;
+  } else {
+    *last = '\0';
+    path = realpath(absl_buf, buffer);
+    last += 1;
   }
-  *(last - 1) = '\0';
-  path = realpath(absl_buf, buffer);
-  *(last - 1) = '/';
   if (path == NULL) {
     ERROR("Cannot get realpath for %s", absl_buf);
     return NULL;
@@ -645,7 +664,12 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   /*
    * Return the full path.
    */
-  strcat(buffer, (last - 1));
+  if (strlen(buffer) + strlen(last) + 2 > PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
+  }
+  strcat(buffer, "/");
+  strcat(buffer, last);
   return path;
 }
 
@@ -660,7 +684,7 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
    * Get CWD.
    */
   if (IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, getenv("PWD"));
+    absl_buf[0] = '\0';
   } else {
     lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX - 1, 0);
   }
-- 
2.43.0


From aa37930d922c0d12b8ce8e8bbba9f55b01326822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 27/58] fix: don't depend on PWD in out, and refuse a channel
 that is not a string

Without PWD, out crashed. The elements of a list that is not a string were
used as characters.
---
 lib/mnml/io/out.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index ba29f55..d765f19 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -26,7 +26,9 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
    * Get the current working directory. Output files are expected to be relative
    * to where the program is run, not where the program is located.
    */
-  strcpy(dirn_buf, getenv("PWD"));
+  if (getcwd(dirn_buf, PATH_MAX) == NULL) {
+    return lisp_make_nil(lisp);
+  }
   /*
    * Process the CHAN.
    */
@@ -38,6 +40,12 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       fd = dup((int)CHAN->number);
       break;
     case T_PAIR:
+      /*
+       * That argument must be a string.
+       */
+      if (!lisp_is_string(CHAN)) {
+        return lisp_make_nil(lisp);
+      }
       /*
        * Get the filepath.
        */
-- 
2.43.0


From 4045a249bd05479e65df0f101f6536af2e89fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:19 +0000
Subject: [PATCH 28/58] fix: bound the module search paths and don't depend on
 HOME

The module search path was built in fixed-size buffers without checking its
length, and the interpreter crashed at start-up without HOME.
---
 lib/core/module.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index 6a295d1..d8949b2 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -8,9 +8,12 @@
 #include <dlfcn.h>
 #include <errno.h>
 #include <limits.h>
+#include <pwd.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
 /*
  * Helper functions.
@@ -43,8 +46,14 @@ lisp_usercache_prefix()
   static bool is_set = false;
   static char buffer[PATH_MAX];
   if (!is_set) {
-    strcpy(buffer, getenv("HOME"));
-    strcat(buffer, "/.mnml");
+    const char* home = getenv("HOME");
+    if (home == NULL) {
+      const struct passwd* pw = getpwuid(getuid());
+      home = pw != NULL ? pw->pw_dir : "/";
+    }
+    if (snprintf(buffer, PATH_MAX, "%s/.mnml", home) >= PATH_MAX) {
+      ERROR("Path too long: %s", home);
+    }
     is_set = true;
   }
   return buffer;
@@ -54,7 +63,7 @@ static char*
 module_paths()
 {
   static bool is_set = false;
-  static char buffer[8192];
+  static char* buffer = NULL;
   /*
    * Prepare the path if not set.
    */
@@ -62,21 +71,21 @@ module_paths()
     /*
      * Set the system prefix first.
      */
-    strcpy(buffer, lisp_library_prefix());
+    const char* prefix = lisp_library_prefix();
     /*
      * Then, append the user cache path.
      */
-    strcat(buffer, ":");
-    strcat(buffer, lisp_usercache_prefix());
+    const char* ucache = lisp_usercache_prefix();
     /*
      * Append the user-defined variable.
      */
-    if (getenv("MNML_MODULE_PATH") != NULL) {
-      strcat(buffer, ":");
-      strcat(buffer, getenv("MNML_MODULE_PATH"));
-    }
+    const char* user = getenv("MNML_MODULE_PATH");
+    user = user != NULL ? user : "";
     /*
      */
+    const size_t len = strlen(prefix) + strlen(ucache) + strlen(user) + 3;
+    buffer = (char*)malloc(len);
+    snprintf(buffer, len, "%s:%s:%s", prefix, ucache, user);
     is_set = true;
   }
   /*
@@ -144,10 +153,12 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /*
    * Build the file path.
    */
-  memset(path, 0, PATH_MAX);
-  strcpy(path, dirpath);
-  strcat(path, "/");
-  strcat(path, de->d_name);
+  const int len = snprintf(path, PATH_MAX, "%s/%s", dirpath, de->d_name);
+  if (len < 0 || len >= PATH_MAX) {
+    ERROR("Path too long: %s", dirpath);
+    closedir(dir);
+    return false;
+  }
   /*
    * Return the result.
    */
-- 
2.43.0


From f1fef299b41ab5a69021bb33c29261341f1deba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 29/58] fix: release the symbols and the library when a module
 cannot be loaded

---
 lib/core/module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index d8949b2..23f5c35 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -209,6 +209,7 @@ module_load_at_path(const char* const path, const char* const name)
   const char* (*get_name)() = dlsym(handle, "lisp_module_name");
   if (get_name == NULL) {
     ERROR("%s is not a module", path);
+    dlclose(handle);
     return NULL;
   }
   /*
@@ -378,6 +379,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
      */
     handle = module_load_at_path(path, bsym);
     if (handle == NULL) {
+      X(lisp, symbols);
       return lisp_make_nil(lisp);
     }
     /*
@@ -391,6 +393,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
   const module_entry_t* (*entries)() = dlsym(handle, "lisp_module_entries");
   if (entries == NULL) {
     DLCLOSE(add_to_cache, handle);
+    X(lisp, symbols);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 7d6f4f7717b43df494aae11002979af3ae1a2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 30/58] fix: don't recurse on the tail of a list to release it

Releasing a long list exhausted the stack.
---
 lib/core/lisp.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/core/lisp.c b/lib/core/lisp.c
index b7a6e8c..cf537f0 100644
--- a/lib/core/lisp.c
+++ b/lib/core/lisp.c
@@ -50,23 +50,28 @@ lisp_allocate(const lisp_t lisp)
 void
 lisp_deallocate(const lisp_t lisp, const atom_t atom)
 {
-  TRACE_SLAB_SEXP(atom);
+  atom_t cell = atom;
+  TRACE_SLAB_SEXP(cell);
   /*
-   * Most likely this is a pair.
+   * Most likely this is a pair. Don't recurse on CDR as lists can be long.
    */
-  if (likely(IS_PAIR(atom))) {
-    if (likely(!IS_WEAKREF(atom))) {
-      X(lisp, CAR(atom));
+  while (likely(IS_PAIR(cell))) {
+    if (likely(!IS_WEAKREF(cell))) {
+      X(lisp, CAR(cell));
     }
-    X(lisp, CDR(atom));
-    slab_deallocate(lisp->slab, atom);
+    atom_t cdr = CDR(cell);
+    slab_deallocate(lisp->slab, cell);
+    DOWN(cdr);
+    if (cdr->refs != 0) {
+      return;
+    }
+    cell = cdr;
+    TRACE_SLAB_SEXP(cell);
   }
   /*
    * Process atoms.
    */
-  else {
-    slab_deallocate(lisp->slab, atom);
-  }
+  slab_deallocate(lisp->slab, cell);
 }
 
 /*
-- 
2.43.0


From d783f003990678a0f593a1c878322bee4f694220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 31/58] fix: don't stop at a NIL expression in the argument of
 -e

---
 bin/mnml.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index a862ae2..3bc59ed 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -356,13 +356,9 @@ main(const int argc, char** const argv)
      * Evaluate the parsed expressions.
      */
     result = lisp_make_nil(lisp);
-    while (keep_running) {
+    while (keep_running && IS_PAIR(PAIRS)) {
       atom_t nil = lisp_make_nil(lisp);
       atom_t car = lisp_pop(lisp);
-      if (IS_NULL(car)) {
-        X(lisp, nil, car);
-        break;
-      }
       X(lisp, result);
       result = lisp_eval(lisp, nil, car);
       X(lisp, nil);
-- 
2.43.0


From cb4d81b016b4178b12e16d09628fb1025777ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:45 +0000
Subject: [PATCH 32/58] fix: check the types of the arguments of exec

---
 lib/mnml/unix/exec.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index c4f592e..6fe56d9 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -16,6 +16,15 @@ extern char** environ;
 
 #define MAX_ARGS 128
 
+static bool
+lisp_exec_are_strings(const atom_t cell)
+{
+  if (!IS_PAIR(cell)) {
+    return IS_NULL(cell);
+  }
+  return lisp_is_string(CAR(cell)) && lisp_exec_are_strings(CDR(cell));
+}
+
 static size_t
 lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
                        const size_t len, const size_t idx)
@@ -44,6 +53,14 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    * Get the arguments.
    */
   LISP_ARGS(closure, C, PATH, ARGS, ENVP);
+  /*
+   * Check the arguments.
+   */
+  if (!lisp_is_string(PATH) || !lisp_exec_are_strings(ARGS) ||
+      !lisp_exec_are_strings(ENVP)) {
+    printf("%s\n", strerror(EINVAL));
+    exit(EINVAL);
+  }
   /*
    * Build the path string.
    */
-- 
2.43.0


From 022aa16e3f5b1fc9b72868300b7f4298cbcb88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:05 +0000
Subject: [PATCH 33/58] fix: release the operand of compiled predicates

---
 share/mnml/cc.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 68916f2..74f34f6 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -90,7 +90,8 @@
 								(prin "IS_NULL(")
 								(cc:value:atm ARGS kvar arg)
 								(prinl ") };")))
-			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))))
+			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))
+		(when (= kvar arg) (cc:gen:x ARGS kvar arg))))
 
 (def cc:op:num:one (ARGS TYPES kvar body)
 	"Generate C code for binary numeric operations."
-- 
2.43.0


From e93b88ae10fc22b8178a4c8140f2784815bc85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:49 +0000
Subject: [PATCH 34/58] fix: don't limit the nesting of the expressions that
 can be read

---
 lib/grammar/parser.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index b54c32d..eadf020 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -1,6 +1,9 @@
 %extra_argument { lexer_t lexer }
 
 %token_type { void * }
+
+%stack_size 0
+
 %type list  { atom_t }
 %type items { atom_t }
 %type prefix { atom_t }
-- 
2.43.0


From 2eb961b793edc663c636f0f5a7a3ddf13cd4829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 35/58] fix: read a quoted NIL, T or _ as the constant

---
 lib/grammar/lexer.rl | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index a7437c1..ea3d26e 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -158,8 +158,19 @@ action tok_symbol
 { 
   const char * start = UNPREFIX(ts);
   size_t len = te - start;
-  MAKE_SYMBOL_DYNAMIC_N(sym, start, len);
-  Parse(lexer->parser, SYMBOL, sym, lexer);
+  /*
+   * Prefixed constants are recognized as symbols.
+   */
+  if (len == 3 && strncmp(start, "NIL", len) == 0) {
+    Parse(lexer->parser, C_NIL, 0, lexer);
+  } else if (len == 1 && *start == 'T') {
+    Parse(lexer->parser, C_TRUE, 0, lexer);
+  } else if (len == 1 && *start == '_') {
+    Parse(lexer->parser, C_WILDCARD, 0, lexer);
+  } else {
+    MAKE_SYMBOL_DYNAMIC_N(sym, start, len);
+    Parse(lexer->parser, SYMBOL, sym, lexer);
+  }
   lisp_consume_token(lexer);
 }
 
-- 
2.43.0


From 7d3dbb23d6686e20fed95f07e3a083afea0ba7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:13 +0000
Subject: [PATCH 36/58] fix: don't recurse over each character of a string
 literal

---
 lib/core/utils.c | 73 ++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 823f2d1..bd79ae4 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -307,47 +307,46 @@ atom_t
 lisp_process_escapes(const lisp_t lisp, const atom_t cell, const bool esc,
                      const atom_t res)
 {
-  bool nesc = false;
-  /*
-   */
-  if (IS_NULL(cell)) {
-    X(lisp, cell);
-    return res;
-  }
-  /*
-   */
-  atom_t nxt;
-  atom_t car = lisp_car(lisp, cell);
-  atom_t cdr = lisp_cdr(lisp, cell);
-  X(lisp, cell);
-  /*
-   * Process the character.
-   */
-  if (esc) {
-    switch ((char)car->number) {
-      case 'n':
-        X(lisp, car);
-        car = lisp_make_char(lisp, '\n');
-        break;
-      case 't':
-        X(lisp, car);
-        car = lisp_make_char(lisp, '\t');
-        break;
-      default:
-        break;
+  bool nesc = esc;
+  atom_t cur = cell, out = res;
+  /*
+   */
+  while (!IS_NULL(cur)) {
+    atom_t car = lisp_car(lisp, cur);
+    atom_t cdr = lisp_cdr(lisp, cur);
+    X(lisp, cur);
+    /*
+     * Process the character.
+     */
+    if (nesc) {
+      switch ((char)car->number) {
+        case 'n':
+          X(lisp, car);
+          car = lisp_make_char(lisp, '\n');
+          break;
+        case 't':
+          X(lisp, car);
+          car = lisp_make_char(lisp, '\t');
+          break;
+        default:
+          break;
+      }
+      out = lisp_append(lisp, out, car);
+      nesc = false;
+    } else if (car->number == '\\') {
+      X(lisp, car);
+      nesc = true;
+    } else {
+      out = lisp_append(lisp, out, car);
     }
-    nxt = lisp_append(lisp, res, car);
-    nesc = false;
-  } else if (car->number == '\\') {
-    X(lisp, car);
-    nesc = true;
-    nxt = res;
-  } else {
-    nxt = lisp_append(lisp, res, car);
+    /*
+     */
+    cur = cdr;
   }
   /*
    */
-  return lisp_process_escapes(lisp, cdr, nesc, nxt);
+  X(lisp, cur);
+  return out;
 }
 
 /*
-- 
2.43.0


From 31607d74307b6605f1202bf1e4bb799f976b3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 37/58] fix: read a quoted negative number as a number

---
 lib/grammar/lexer.rl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index ea3d26e..2ef4fa8 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -210,18 +210,18 @@ main := |*
   (backt . popen) %tok_backt $!err_prefix => tok_popen;
   (tilde . popen) %tok_tilde $!err_prefix => tok_popen;
   #
-  # Escaped SYMBOL.
-  #
-  (quote . symbol) %tok_quote $!err_prefix => tok_symbol;
-  (backt . symbol) %tok_backt $!err_prefix => tok_symbol;
-  (tilde . symbol) %tok_tilde $!err_prefix => tok_symbol;
-  #
   # Escaped NUMBER.
   #
   (quote . number) %tok_quote $!err_prefix => tok_number;
   (backt . number) %tok_backt $!err_prefix => tok_number;
   (tilde . number) %tok_tilde $!err_prefix => tok_number;
   #
+  # Escaped SYMBOL.
+  #
+  (quote . symbol) %tok_quote $!err_prefix => tok_symbol;
+  (backt . symbol) %tok_backt $!err_prefix => tok_symbol;
+  (tilde . symbol) %tok_tilde $!err_prefix => tok_symbol;
+  #
   # Garbage.
   #
   comment;
-- 
2.43.0


From 2da10907af81dcfca21d69f548f2758b27b2d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 38/58] fix: flush the separators and newlines that print and
 prinl write

---
 lib/mnml/io/prinl.c  | 4 +++-
 lib/mnml/io/print.c  | 4 +++-
 lib/mnml/io/printl.c | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/io/prinl.c b/lib/mnml/io/prinl.c
index 2a3fbd5..533f563 100644
--- a/lib/mnml/io/prinl.c
+++ b/lib/mnml/io/prinl.c
@@ -33,7 +33,9 @@ lisp_function_prinl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_prinl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* const out = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, out);
+  fflush(out);
   return res;
 }
 
diff --git a/lib/mnml/io/print.c b/lib/mnml/io/print.c
index cd36a27..c9070fa 100644
--- a/lib/mnml/io/print.c
+++ b/lib/mnml/io/print.c
@@ -26,7 +26,9 @@ lisp_print_all(const lisp_t lisp, const atom_t closure, const atom_t cell,
    */
   lisp_prin(lisp, car, true);
   if (!IS_NULL(cdr)) {
-    fwrite(" ", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+    FILE* const out = (FILE*)CAR(CAR(lisp->ochan))->number;
+    fwrite(" ", 1, 1, out);
+    fflush(out);
   }
   return lisp_print_all(lisp, closure, cdr, car);
 }
diff --git a/lib/mnml/io/printl.c b/lib/mnml/io/printl.c
index 40917b2..fa39c5c 100644
--- a/lib/mnml/io/printl.c
+++ b/lib/mnml/io/printl.c
@@ -26,7 +26,9 @@ lisp_printl_all(const lisp_t lisp, const atom_t closure, const atom_t cell,
    */
   lisp_prin(lisp, car, true);
   if (!IS_NULL(cdr)) {
-    fwrite(" ", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+    FILE* const out = (FILE*)CAR(CAR(lisp->ochan))->number;
+    fwrite(" ", 1, 1, out);
+    fflush(out);
   }
   return lisp_printl_all(lisp, closure, cdr, car);
 }
@@ -36,7 +38,9 @@ lisp_function_printl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_printl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* const out = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, out);
+  fflush(out);
   return res;
 }
 
-- 
2.43.0


From e8f32f719b8133ca203745f0e3a5b4210e4d7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:54 +0000
Subject: [PATCH 39/58] fix: don't stop at a NIL element in last

---
 share/mnml/manips.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/manips.l b/share/mnml/manips.l
index 269b80f..75e9d0b 100644
--- a/share/mnml/manips.l
+++ b/share/mnml/manips.l
@@ -37,7 +37,7 @@
 
 (def last (lst)
 	"Return the last item of LST."
-	(if (nil? (cadr lst))
+	(if (nil? (cdr lst))
 		(car lst)
 		(last (cdr lst))))
 
-- 
2.43.0


From 187f775deb3069957b5ea05e01fe16b3845ba7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:07 +0000
Subject: [PATCH 40/58] fix: serve on the port given to http/serve

---
 share/mnml/http.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index e5ac621..9453925 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -122,7 +122,7 @@
 
 (def http/serve (port cb)
 	"Start a HTTP server on PORT, using CB as a request handler."
-	(let ((srv . (listen 8080))
+	(let ((srv . (listen port))
 				(fds . (list srv))
 				(run . T))
 		(while run
-- 
2.43.0


From 3f827b61f534a0a6684f8cb2b49681d7cc65b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 41/58] fix: make whitespace? test each white space character

---
 share/mnml/trim.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/mnml/trim.l b/share/mnml/trim.l
index 84a6b3c..f4b703b 100644
--- a/share/mnml/trim.l
+++ b/share/mnml/trim.l
@@ -2,11 +2,11 @@
 	"iterators.l"
 	"rev.l"
 	'(logic = or)
-	'(std \ |> car cdr cons if))
+	'(std \ car cdr cons if))
 
 (def whitespace? (chr)
 	"Return T if CHR is a white space."
-	(|> (= chr ^ ) (or (= chr ^\t)) (or (= chr ^\n)) (or (= chr ^\r))))
+	(or (= chr ^ ) (or (= chr ^\t) (or (= chr ^\n) (= chr ^\r)))))
 
 (def triml (strn)
 	"Trim STRN of leading white spaces."
-- 
2.43.0


From 8a871403ce44fdf5e83d581a0bca7de99bb2d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 42/58] fix: don't release the placeholders of the other branch
 in compiled functions

---
 share/mnml/cc.l | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 74f34f6..be10c50 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -71,6 +71,14 @@
 			(aton (cdr tostr))
 			(cc:arg:idx ARGS ref 0))))
 
+(def cc:live (ARGS REFS kvar nvar)
+	"Remove from REFS the placeholders between KVAR and its branch NVAR."
+	(let ((top . (cc:ref:idx ARGS kvar))
+				(bot . (cc:ref:idx ARGS nvar)))
+		(filter (\ ((ref . _)) (let ((idx . (cc:ref:idx ARGS ref)))
+														 (if idx (and (> idx bot) (< idx top)))))
+						REFS)))
+
 #
 # Operation generators.
 #
@@ -489,8 +497,11 @@
 																(if (lst? cont) cont)))
 										ite))
 				(conts	. (filter nil? clist)))
+		#
+		# NOTE The placeholders of the other branch are not live.
+		#
 		(iter (\ ((_ args body))
-						(cc:gen:cont NAME ARGS REFS TYPES CONT (last args) body)) conts)
+						(cc:gen:cont NAME ARGS (cc:live ARGS REFS kvar (last args)) TYPES CONT (last args) body)) conts)
 		(cc:gen:function NAME ARGS REFS TYPES CONT kvar (cons symb (cons cnd first)))))
 
 (def cc:gen:cont (NAME ARGS REFS TYPES CONT kvar fun)
-- 
2.43.0


From 89be044c1198c56ee3b77dfe7b118069e8d8a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:01 +0000
Subject: [PATCH 43/58] fix: leave the input files of the parent alone when
 exec fails

---
 lib/mnml/unix/exec.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index 6fe56d9..f0c6ab2 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -45,6 +45,17 @@ lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
   return lisp_exec_make_strings(lisp, cdr, array, len, idx + 1);
 }
 
+/*
+ * NOTE: exit() would rewind the input files shared with the parent process.
+ */
+static void __attribute__((noreturn))
+lisp_exec_failed(const int code)
+{
+  printf("%s\n", strerror(code));
+  fflush(NULL);
+  _exit(code);
+}
+
 static atom_t USED
 lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
 {
@@ -58,8 +69,7 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    */
   if (!lisp_is_string(PATH) || !lisp_exec_are_strings(ARGS) ||
       !lisp_exec_are_strings(ENVP)) {
-    printf("%s\n", strerror(EINVAL));
-    exit(EINVAL);
+    lisp_exec_failed(EINVAL);
   }
   /*
    * Build the path string.
@@ -81,8 +91,7 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    * Call execve.
    */
   execve(buffer, arg_str, len == 0 ? environ : env_str);
-  printf("%s\n", strerror(errno));
-  exit(errno);
+  lisp_exec_failed(errno);
 }
 
 LISP_MODULE_SETUP(exec, exec, PATH, ARGS, ENVP, NIL)
-- 
2.43.0


From 5a65573c5f3431379c6634cdb9db44d8fa7536ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:31 +0000
Subject: [PATCH 44/58] fix: pass arguments of any length to exec

---
 lib/mnml/unix/exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index f0c6ab2..ad02411 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -36,12 +36,12 @@ lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
   }
   /*
    */
-  char buffer[PATH_MAX + 1];
   atom_t car = lisp_car(lisp, cell);
   atom_t cdr = lisp_cdr(lisp, cell);
   X(lisp, cell);
-  lisp_make_cstring(car, buffer, PATH_MAX, 0);
-  array[idx] = strdup(buffer);
+  const size_t size = lisp_len(car);
+  array[idx] = (char*)malloc(size + 1);
+  lisp_make_cstring(car, array[idx], size, 0);
   return lisp_exec_make_strings(lisp, cdr, array, len, idx + 1);
 }
 
-- 
2.43.0


From f9e2c21b9a48e81191e6564bd331e584ca989970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:59 +0000
Subject: [PATCH 45/58] fix: close the listening socket when http/serve ends

---
 share/mnml/http.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 9453925..51432e9 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -129,4 +129,5 @@
 			(let (((r e) . (select fds (http/ingress srv cb) NIL)))
 				(<- 'fds r)
 				(<- 'run (> (len fds) 1))
-				))))
+				))
+		(close srv)))
-- 
2.43.0


From 1ea796a6f44c37a6b7246617cf99158057fbdbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 46/58] fix: drop the whole expression in which a parse error
 occurs

A token the grammar does not accept was ignored silently: what was evaluated
was not what was written, and a misplaced closing parenthesis left the parser
in the middle of an expression, swallowing everything after it. A bad token in
a list dropped the rest of its line and went on with the next one.

Both are now parse errors and drop the expression and the rest of the line.
Prefixes are given to the parser with their token, as a quoted number of more
than 16 characters relied on the second quote being ignored.
---
 include/mnml/lexer.h |   1 +
 lib/grammar/lexer.rl | 119 ++++++++++++++++++++++++++++++++-----------
 lib/grammar/parser.y |   8 +--
 3 files changed, 96 insertions(+), 32 deletions(-)

diff --git a/include/mnml/lexer.h b/include/mnml/lexer.h
index 96728ab..8472e09 100644
--- a/include/mnml/lexer.h
+++ b/include/mnml/lexer.h
@@ -19,6 +19,7 @@ typedef struct lexer
   const char* ts;
   const char* te;
   size_t depth;
+  bool error;
   size_t rem;
   lisp_t lisp;
   lisp_consumer_t consumer;
diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 2ef4fa8..2f3a71b 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -15,69 +15,99 @@
 #define ts  lexer->ts
 #define te  lexer->te
 
-#define UNPREFIX(_ts) (*(_ts) == '\'' || *(_ts) == '`' ? (_ts) + 1 : (_ts))
+#define IS_PREFIX(_c) ((_c) == '\'' || (_c) == '`' || (_c) == '~')
+#define UNPREFIX(_ts) (IS_PREFIX(*(_ts)) ? (_ts) + 1 : (_ts))
 
 extern void parse_error(const lisp_t lisp);
 
+static void
+lisp_parse_prefix(const lexer_t lexer, const char c)
+{
+  switch (c) {
+    case '\'':
+      Parse(lexer->parser, CQUOTE, 0, lexer);
+      break;
+    case '`':
+      Parse(lexer->parser, BACKTICK, 0, lexer);
+      break;
+    case '~':
+      Parse(lexer->parser, TILDE, 0, lexer);
+      break;
+    default:
+      break;
+  }
+}
+
 static void
 lisp_consume_token(const lexer_t lexer)
 {
-  if (lexer->depth == 0) {
+  if (lexer->depth == 0 && !lexer->error) {
     Parse(lexer->parser, 0, 0, lexer);
   }
 }
 
+/*
+ * Report an error and forget the expression in which it occurs.
+ */
+static void
+lisp_discard_tokens(const lexer_t lexer)
+{
+  parse_error(lexer->lisp);
+  ParseFree(lexer->parser, free);
+  lexer->parser = ParseAlloc(malloc);
+  lexer->depth = 0;
+  lexer->error = false;
+}
+
 %%{
 
 machine minimal;
 
 action err_prefix
 {
-  parse_error(lexer->lisp);
+  lisp_discard_tokens(lexer);
   fhold; fgoto purge;
 }
 
 action parse_error
 {
-  parse_error(lexer->lisp);
+  lisp_discard_tokens(lexer);
   fhold; fgoto purge;
 }
 
 action tok_popen
 {
+  lisp_parse_prefix(lexer, *ts);
   Parse(lexer->parser, POPEN, 0, lexer);
   lexer->depth += 1;
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_pclose
 {
   if (lexer->depth == 0) {
-    parse_error(lexer->lisp);
+    lisp_discard_tokens(lexer);
     fhold; fgoto purge;
   }
   Parse(lexer->parser, PCLOSE, 0, lexer);
   lexer->depth -= 1;
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_dot
 {
   Parse(lexer->parser, DOT, 0, lexer);
-}
-
-action tok_quote
-{
-  Parse(lexer->parser, CQUOTE, 0, lexer);
-}
-
-action tok_backt
-{
-  Parse(lexer->parser, BACKTICK, 0, lexer);
-}
-
-action tok_tilde
-{
-  Parse(lexer->parser, TILDE, 0, lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_number
@@ -88,8 +118,13 @@ action tok_number
   strncpy(val, start, len);
   val[len] = 0;
   int64_t value = strtoll(val, NULL, 10);
+  lisp_parse_prefix(lexer, *ts);
   Parse(lexer->parser, NUMBER, (void *)value, lexer);
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_char
@@ -122,6 +157,10 @@ action tok_char
    */
   Parse(lexer->parser, CHAR, (void *)val, lexer);
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_string
@@ -134,30 +173,47 @@ action tok_string
    */
   Parse(lexer->parser, STRING, val, lexer);
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_nil
 { 
   Parse(lexer->parser, C_NIL, 0, lexer);
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_true
 { 
   Parse(lexer->parser, C_TRUE, 0, lexer);
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_wildcard
 { 
   Parse(lexer->parser, C_WILDCARD, 0, lexer);
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_symbol
 { 
   const char * start = UNPREFIX(ts);
   size_t len = te - start;
+  lisp_parse_prefix(lexer, *ts);
   /*
    * Prefixed constants are recognized as symbols.
    */
@@ -172,6 +228,10 @@ action tok_symbol
     Parse(lexer->parser, SYMBOL, sym, lexer);
   }
   lisp_consume_token(lexer);
+  if (lexer->error) {
+    lisp_discard_tokens(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 popen   = '(';
@@ -206,21 +266,21 @@ main := |*
   #
   # Escaped POPEN.
   #
-  (quote . popen) %tok_quote $!err_prefix => tok_popen;
-  (backt . popen) %tok_backt $!err_prefix => tok_popen;
-  (tilde . popen) %tok_tilde $!err_prefix => tok_popen;
+  (quote . popen) $!err_prefix => tok_popen;
+  (backt . popen) $!err_prefix => tok_popen;
+  (tilde . popen) $!err_prefix => tok_popen;
   #
   # Escaped NUMBER.
   #
-  (quote . number) %tok_quote $!err_prefix => tok_number;
-  (backt . number) %tok_backt $!err_prefix => tok_number;
-  (tilde . number) %tok_tilde $!err_prefix => tok_number;
+  (quote . number) $!err_prefix => tok_number;
+  (backt . number) $!err_prefix => tok_number;
+  (tilde . number) $!err_prefix => tok_number;
   #
   # Escaped SYMBOL.
   #
-  (quote . symbol) %tok_quote $!err_prefix => tok_symbol;
-  (backt . symbol) %tok_backt $!err_prefix => tok_symbol;
-  (tilde . symbol) %tok_tilde $!err_prefix => tok_symbol;
+  (quote . symbol) $!err_prefix => tok_symbol;
+  (backt . symbol) $!err_prefix => tok_symbol;
+  (tilde . symbol) $!err_prefix => tok_symbol;
   #
   # Garbage.
   #
@@ -238,6 +298,7 @@ lexer_create(const lisp_t lisp, const lisp_consumer_t consumer)
   lexer_t lexer = (lexer_t)malloc(sizeof(struct lexer));
   %% write init;
   lexer->depth = 0;
+  lexer->error = false;
   lexer->rem = 0;
   lexer->lisp = lisp;
   lexer->consumer = consumer;
diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index eadf020..3d6e79d 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -15,7 +15,7 @@
 #include <mnml/utils.h>
 #include <stdlib.h>
 
-extern void syntax_error();
+extern void syntax_error(const lisp_t lisp);
 }
 
 %destructor list { X(lexer->lisp, $$); }
@@ -27,12 +27,14 @@ extern void syntax_error();
 
 %syntax_error
 {
-  syntax_error();
+  lexer->error = true;
+  syntax_error(lexer->lisp);
 }
 
 %parse_failure
 {
-  syntax_error();
+  lexer->error = true;
+  syntax_error(lexer->lisp);
 }
 
 root ::= prefix(A).
-- 
2.43.0


From 910dbbda7d8d97eabd97881588e5bed18828f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 47/58] fix: number the placeholders of >& consistently when an
 if is an argument

---
 share/mnml/cps.l | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cps.l b/share/mnml/cps.l
index 300100f..ac0167a 100644
--- a/share/mnml/cps.l
+++ b/share/mnml/cps.l
@@ -16,6 +16,24 @@
 	"Generate a symbol placeholder using ID."
 	(sym (cons ^_ (ntoa id))))
 
+#
+# Skip the placeholders used when a form is lifted. The branches of a control
+# form are lifted in place, from the last to the first, before its statement.
+#
+(def cps:skip (counter body)
+	"Advance COUNTER past the placeholders used to lift BODY."
+	(if (lst? body)
+		(match body
+			~(foldl
+				 (\ (acc e) (cons (cons e '(let (((op stmt . branches) . body))
+																		 (cps:skip
+																			 (foldr (\ (e id) (cps:skip id e)) branches counter)
+																			 (list op stmt))))
+												 acc))
+				 NIL '((if _ _) (unless _ _) (when _ _) (if _ _ _)))
+			(_ . (foldr (\ (e id) (if (lst? e) (cps:skip (+ id 1) e) id)) body counter)))
+		counter))
+
 #
 # Reverse-scan a function body and replace the funcall arguments with
 # numbered placeholders like _0, _1, or _2.
@@ -25,7 +43,7 @@
 	(foldr (\ (e (id . result))
 					 (if (lst? e)
 						 (let ((larg . (cps:symbol id))
-									 ((next . _) . (cps:swap kvar (+ id 1) e)))
+									 (next . (cps:skip (+ id 1) e)))
 							 (cons next (cons larg result)))
 						 (cons id (cons e result))))
 		body
-- 
2.43.0


From 506814021c5648c13096d31d6a83121af04c0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 48/58] fix: TAIL traces follow the TAIL category

---
 lib/core/debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index b4c12e4..39b14d2 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -36,7 +36,7 @@ lisp_debug_set_flag(const char* const flag)
   MNML_DEBUG_REFC = MNML_DEBUG_REFC || strcmp(flag, "REFC") == 0;
   MNML_DEBUG_SLAB = MNML_DEBUG_SLAB || strcmp(flag, "SLAB") == 0;
   MNML_DEBUG_SLOT = MNML_DEBUG_SLOT || strcmp(flag, "SLOT") == 0;
-  MNML_DEBUG_TAIL = MNML_DEBUG_SLOT || strcmp(flag, "TAIL") == 0;
+  MNML_DEBUG_TAIL = MNML_DEBUG_TAIL || strcmp(flag, "TAIL") == 0;
 }
 
 void
-- 
2.43.0


From 2b2a40bdeb5a45478513215649fb7647257eed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 49/58] fix: don't look at the target of weak references in
 traces

---
 lib/core/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index 39b14d2..8ca7970 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -89,9 +89,9 @@ lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
     }
     case T_PAIR:
       /*
-       * Check if it's a string.
+       * Check if it's a string. The target of a weak reference may be gone.
        */
-      if (!IS_NULL(atom) && lisp_is_string(atom)) {
+      if (!IS_WEAKREF(atom) && lisp_is_string(atom)) {
         char buffer[1024];
         size_t len = lisp_make_cstring(atom, buffer, 1023, 0);
         fprintf(fp, "\"%.*s\"", (int)len, buffer);
-- 
2.43.0


From 7b268a6ba3aaa564649eecbd54cf5001d453a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 50/58] fix: iter2 loads the functions it uses

---
 share/mnml/iter2.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/iter2.l b/share/mnml/iter2.l
index e9de0a5..b657758 100644
--- a/share/mnml/iter2.l
+++ b/share/mnml/iter2.l
@@ -1,4 +1,4 @@
-(load '(logic and) '(std if car cdr))
+(load '(logic and) '(std if car cdr let))
 
 (def iter2 (fun lst1 lst2)
 	"Iterate over list LST1 and LST1 and call FUN on each pair of item."
-- 
2.43.0


From 6064974577cc4525fae42dec0f3cb89ffd17c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 51/58] fix: release the strings and symbols a parse error
 drops

---
 lib/grammar/parser.y | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 3d6e79d..78bbbc9 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -22,8 +22,16 @@ extern void syntax_error(const lisp_t lisp);
 %destructor items { X(lexer->lisp, $$); }
 %destructor prefix { X(lexer->lisp, $$); }
 %destructor item { X(lexer->lisp, $$); }
-%destructor STRING { free($$); }
-%destructor SYMBOL { free($$); }
+
+%token_destructor
+{
+  /*
+   * Only strings and symbols carry memory of their own.
+   */
+  if (yymajor == STRING || yymajor == SYMBOL) {
+    free($$);
+  }
+}
 
 %syntax_error
 {
-- 
2.43.0


From 4dcbd61df244ca7253851d7a86b0847f60d80a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 52/58] fix: splice a copy of the list given to tilde

---
 lib/grammar/parser.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 78bbbc9..d433a66 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -79,8 +79,9 @@ items(A) ::= items(B) TILDE prefix(C).
 {
   atom_t nil = lisp_make_nil(lexer->lisp);
   C = lisp_eval(lexer->lisp, nil, C);
-  A = lisp_conc(lexer->lisp, B, C);
-  X(lexer->lisp, nil);
+  atom_t dup = lisp_dup(lexer->lisp, C);
+  A = lisp_conc(lexer->lisp, B, dup);
+  X(lexer->lisp, C, nil);
 }
 
 prefix(A) ::= item(B).
-- 
2.43.0


From 056f444588da3afecfdd8d3dab5229fcb5d85466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:41 +0000
Subject: [PATCH 53/58] fix: set up the channels before reading the argument of
 -e

---
 bin/mnml.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index 3bc59ed..d7a3019 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -340,6 +340,11 @@ main(const int argc, char** const argv)
      * Setup the PAIRS to NIL.
      */
     PAIRS = lisp_make_nil(lisp);
+    /*
+     * Push the IO context.
+     */
+    PUSH_IO_CONTEXT(lisp, lisp->ichan, stdin, cwd);
+    PUSH_IO_CONTEXT(lisp, lisp->ochan, stdout, cwd);
     /*
      * Parse the expression.
      */
@@ -347,11 +352,6 @@ main(const int argc, char** const argv)
     size_t len = strlen(expr);
     lexer_parse(lexer, expr, len, true);
     lexer_destroy(lexer);
-    /*
-     * Push the IO context.
-     */
-    PUSH_IO_CONTEXT(lisp, lisp->ichan, stdin, cwd);
-    PUSH_IO_CONTEXT(lisp, lisp->ochan, stdout, cwd);
     /*
      * Evaluate the parsed expressions.
      */
-- 
2.43.0


From b7fb149d7b96f0fb2c1ab685d554b892fa3d913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 54/58] fix: show the name of the program in usage

---
 bin/mnmlc         | 2 +-
 share/mnml/test.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/mnmlc b/bin/mnmlc
index 9f54a16..767f76e 100755
--- a/bin/mnmlc
+++ b/bin/mnmlc
@@ -8,7 +8,7 @@
 
 (def usage ()
   "Print out a usage string for this script."
-  (let ((arg0 . (car (cdr ARGV)))
+  (let ((arg0 . (car ARGV))
         (prgn . (car (rev (split arg0 ^/)))))
     (prinl "Usage: " prgn " -c FILE.l -o FILE.c -m MODULE -s SYM1,SYM2,...")
     (prinl)
diff --git a/share/mnml/test.l b/share/mnml/test.l
index 66d5443..a363597 100644
--- a/share/mnml/test.l
+++ b/share/mnml/test.l
@@ -13,7 +13,7 @@
 
 (def usage ()
   "Print out a usage string for the testsuite."
-  (let ((arg0 . (car (cdr ARGV)))
+  (let ((arg0 . (car ARGV))
         (prgn . (car (rev (split arg0 ^/)))))
     (prinl "Usage: " prgn " [-l|-t test1,test2,...|-h] ")
     (prinl)
-- 
2.43.0


From 6bfb152ff0469cfa292e3be4fc8024cb558ef9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 55/58] fix: refuse paths too long for in and out instead of
 cutting them

---
 lib/mnml/io/in.c  | 4 ++++
 lib/mnml/io/out.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 20b741f..a350261 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -46,6 +46,10 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
+      if (lisp_len(CHAN) >= PATH_MAX) {
+        ERROR("Path too long");
+        return lisp_make_nil(lisp);
+      }
       lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index d765f19..3764153 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -49,6 +49,10 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
+      if (lisp_len(CHAN) >= PATH_MAX) {
+        ERROR("Path too long");
+        return lisp_make_nil(lisp);
+      }
       lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
-- 
2.43.0


From 471bf1ac72c20e8a68fdd263ca111d0527053b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 56/58] fix: refuse paths too long for load instead of cutting
 them

---
 lib/mnml/std/load.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mnml/std/load.c b/lib/mnml/std/load.c
index f88fdd4..e7ef9d5 100644
--- a/lib/mnml/std/load.c
+++ b/lib/mnml/std/load.c
@@ -39,6 +39,12 @@ lisp_load(const lisp_t lisp, const atom_t closure, const atom_t cell)
          * Construct the file name.
          */
         char buffer[PATH_MAX + 1];
+        if (lisp_len(car) > PATH_MAX) {
+          ERROR("Path too long");
+          X(lisp, car);
+          res = lisp_make_nil(lisp);
+          break;
+        }
         lisp_make_cstring(car, buffer, PATH_MAX, 0);
         X(lisp, car);
         /*
-- 
2.43.0


From ade96b4ef662330e6dfc051643996d89d41d88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 57/58] fix: refuse names too long for unlink, exec and connect
 instead of cutting them

---
 lib/mnml/unix/connect.c | 8 ++++++++
 lib/mnml/unix/exec.c    | 3 +++
 lib/mnml/unix/unlink.c  | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/lib/mnml/unix/connect.c b/lib/mnml/unix/connect.c
index 5e5dc18..18f34f5 100644
--- a/lib/mnml/unix/connect.c
+++ b/lib/mnml/unix/connect.c
@@ -1,6 +1,7 @@
 #include <mnml/lisp.h>
 #include <mnml/module.h>
 #include <mnml/slab.h>
+#include <mnml/utils.h>
 #include <errno.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
@@ -23,6 +24,13 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
     TRACE("Address and service must be strings");
     return lisp_make_nil(lisp);
   }
+  /*
+   * Make sure that they are not too long.
+   */
+  if (unlikely(lisp_len(ADDRESS) > 1023 || lisp_len(PORT) > 1023)) {
+    TRACE("Address or service too long");
+    return lisp_make_nil(lisp);
+  }
   /*
    * Convert the address to a C string.
    */
diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index ad02411..4cb8603 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -75,6 +75,9 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    * Build the path string.
    */
   char buffer[PATH_MAX + 1];
+  if (lisp_len(PATH) > PATH_MAX) {
+    lisp_exec_failed(ENAMETOOLONG);
+  }
   lisp_make_cstring(PATH, buffer, PATH_MAX, 0);
   TRACE_EVAL("%s", buffer);
   /*
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 20a2b13..4c26f1e 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -1,6 +1,7 @@
 #include <mnml/lisp.h>
 #include <mnml/module.h>
 #include <mnml/slab.h>
+#include <mnml/utils.h>
 #include <limits.h>
 #include <unistd.h>
 
@@ -18,6 +19,9 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
    * Convert the argument.
    */
   char name_buf[PATH_MAX];
+  if (lisp_len(NAME) >= PATH_MAX) {
+    return lisp_make_nil(lisp);
+  }
   lisp_make_cstring(NAME, name_buf, PATH_MAX - 1, 0);
   /*
    * Call unlink().
-- 
2.43.0


From 8420e70e68654ecbbbc2158227ea4c69fb70e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 58/58] fix: MNML_SCRIPT_PATH is a list of paths

---
 lib/core/utils.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index bd79ae4..9ec3f82 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -594,6 +594,31 @@ lisp_join_path(char* const buffer, const char* const a, const char* const b,
   return len >= 0 && len < PATH_MAX;
 }
 
+static bool
+lisp_find_script(const char* const base, const char* const paths,
+                 const char* const name, char* const buffer)
+{
+  bool found = false;
+  bool first = true;
+  char expn_buf[PATH_MAX];
+  char absl_buf[PATH_MAX];
+  /*
+   * Pick the first path where the script exists or else the first path.
+   */
+  FOR_EACH_TOKEN(paths, ":", entry, {
+    const bool rel = entry[0] != '/' && base != NULL;
+    if (!found && lisp_join_path(expn_buf, entry, "", name) &&
+        lisp_join_path(absl_buf, rel ? base : "", rel ? "/" : "", expn_buf)) {
+      found = access(absl_buf, F_OK) == 0;
+      if (found || first) {
+        strcpy(buffer, expn_buf);
+        first = false;
+      }
+    }
+  });
+  return !first || lisp_join_path(buffer, paths, "", name);
+}
+
 const char*
 lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
                   const char* const filepath, char* const buffer)
@@ -606,8 +631,9 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
    */
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      const char* prefix = getenv("MNML_SCRIPT_PATH");
-      res = lisp_join_path(expn_buf, prefix, "", &filepath[4]);
+      const char* base = IS_NULL(lisp->ichan) ? NULL : cwd;
+      const char* paths = getenv("MNML_SCRIPT_PATH");
+      res = lisp_find_script(base, paths, &filepath[4], expn_buf);
     } else {
       const char* prefix = lisp_prefix();
       res = lisp_join_path(expn_buf, prefix, "/share/mnml", &filepath[4]);
-- 
2.43.0

