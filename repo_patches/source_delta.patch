From 1f6b0c86e2646ef0a68af3eb5371e229ba0a5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 01/50] fix: shifts take the promoted type of their left
 operand

---
 c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 203f0e5..fb148bb 100644
--- a/c.c
+++ b/c.c
@@ -380,7 +380,8 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
 /* binary operation between two numbers */
 static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
 {
-  ts_t tz = ts_arith_common(tx, ty);
+  bool shift = (op == TT_SHL || op == TT_SHR) && ty < TS_FLOAT; /* result has type of the left operand */
+  ts_t tz = shift ? ts_integral_promote(tx) : ts_arith_common(tx, ty);
   numval_t vx = *pvx, vy = *pvy; 
   numval_convert(tz, tx, &vx); numval_convert(tz, ty, &vy);
   switch (tz) {
@@ -2936,7 +2937,8 @@ static node_t *compile_binary(node_t *prn, node_t *pan1, tt_t op, node_t *pan2)
     if (ts2 == TS_ENUM) ts2 = TS_INT;
   }
   if (ts_numerical(ts1) && ts_numerical(ts2)) {
-    ts_t rts = ts_arith_common(ts1, ts2); 
+    bool shift = (op == TT_SHL || op == TT_SHR) && ts2 < TS_FLOAT; /* result has type of the left operand */
+    ts_t rts = shift ? ts_integral_promote(ts1) : ts_arith_common(ts1, ts2); 
     node_t rtn = mknd(), *prtn, *pcn = npnewcode(prn); ndsettype(&rtn, rts);
     if (rts != ts1) pan1 = compile_cast(prn, &rtn, pan1); /* fixme: constant fold oportunity */
     if (rts != ts2) pan2 = compile_cast(prn, &rtn, pan2); /* fixme: constant fold oportunity */
-- 
2.43.0


From e8b09bda2232c44cd387827405d13c46fdcc1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 02/50] fix: && and || yield int 0 or 1

---
 c.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/c.c b/c.c
index fb148bb..f511459 100644
--- a/c.c
+++ b/c.c
@@ -3043,6 +3043,18 @@ node_t *compile_booltest(node_t *prn, node_t *pan)
   return pan;
 }
 
+/* compile x to serve as 0/1 operand of && and || */
+static node_t *compile_boolval(node_t *prn, node_t *pan)
+{
+  ts_t ts = acode_type(pan)->ts; numval_t v;
+  if (ts_numerical(ts) && ts != TS_BOOL) { 
+    instr_t in = icblen(&pan->data) > 0 ? icbref(&pan->data, icblen(&pan->data)-1)->in : 0;
+    if (in >= IN_I32_EQZ && in <= IN_F64_GE) return pan; /* already there */
+    pan = compile_binary(prn, pan, TT_NE, compile_numlit(prn, TS_INT, (v.i = 0, &v)));
+  }
+  return pan;
+}
+
 /* compile x to serve as an integer selector */
 node_t *compile_intsel(node_t *prn, node_t *pan)
 {
@@ -3805,9 +3817,11 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
       node_t *pan2 = expr_compile(ndcref(pn, 1), prib, NULL);
       switch (pn->op) {
         case TT_AND_AND: {
+          pan2 = compile_boolval(pn, pan2); /* result is 0 or 1 */
           pcn = compile_cond(pn, pan1, pan2, compile_numlit(pn, TS_INT, (v.i = 0, &v)));
         } break;
         case TT_OR_OR: {
+          pan2 = compile_boolval(pn, pan2); /* result is 0 or 1 */
           pcn = compile_cond(pn, pan1, compile_numlit(pn, TS_INT, (v.i = 1, &v)), pan2);
         } break;
         default: { /* normal binary */
-- 
2.43.0


From d9b52390837f1311d823afc3f23de480bd6c9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 03/50] fix: long and unsigned int convert to unsigned long

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index f511459..309aa27 100644
--- a/c.c
+++ b/c.c
@@ -203,7 +203,8 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   if (ts1 == TS_ULLONG || ts2 == TS_ULLONG) return TS_ULLONG;
   if (ts1 == TS_LLONG  || ts2 == TS_LLONG)  return TS_LLONG;
   if (ts1 == TS_ULONG  || ts2 == TS_ULONG)  return TS_ULONG;
-  if (ts1 == TS_LONG   || ts2 == TS_LONG)   return TS_LONG;
+  if (ts1 == TS_LONG   || ts2 == TS_LONG)   /* wasm32: long can't hold all values of unsigned int */
+    return (ts1 == TS_UINT || ts2 == TS_UINT) ? TS_ULONG : TS_LONG; 
   if (ts1 == TS_UINT   || ts2 == TS_UINT)   return TS_UINT;
   return TS_INT;
 }
-- 
2.43.0


From bf18dc6b071a2294d61cfc7bd345f57ed7ccf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 04/50] fix: data initialisers may refer to data placed later

---
 w.c | 52 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/w.c b/w.c
index 1234fc5..51855b9 100644
--- a/w.c
+++ b/w.c
@@ -3794,6 +3794,13 @@ typedef struct modid {
   iekind_t iek;
 } modid_t;
 
+/* reference in data chunk, to be patched */
+typedef struct dref {
+  modid_t mi;        /* what it refers to */
+  long long addend;  /* offset from address of mi */
+  size_t dsoff;      /* where to put the address */
+} dref_t;
+
 int modid_cmp(const void *pv1, const void *pv2)
 {
   modid_t *pmi1 = (modid_t *)pv1, *pmi2 = (modid_t *)pv2;
@@ -3971,6 +3978,7 @@ size_t watify_wat_module(wat_module_t* pm)
   cbuf_t dseg = mkcb(); size_t i;
   buf_t dpmap = mkbuf(sizeof(dpme_t));
   buf_t table = mkbuf(sizeof(dpme_t));
+  buf_t drefs = mkbuf(sizeof(dref_t));
   dsmebuf_t dsmap; dsmebinit(&dsmap);
   
   /* reverse exports so leafs are processed before non-leafs */
@@ -4011,31 +4019,26 @@ size_t watify_wat_module(wat_module_t* pm)
         align = pd->align, n = addr % align;
         if (n > 0) addr += align - n;
         if (n > 0) bufresize(&dseg, buflen(&dseg) + (align-n));
-        if (icblen(&pd->code) > 0) { /* patch pd->data */
-          size_t i; cbuf_t cb = mkcb(); bool gotarg = false;
+        if (icblen(&pd->code) > 0) { /* schedule patching of pd->data */
+          size_t i; inscode_t *pica = NULL;
           for (i = 0; i < icblen(&pd->code); ++i) {
-            modid_t mi; dpme_t *pdpme; size_t off; 
-            inscode_t *pic = icbref(&pd->code, i);
-            if (!gotarg && pic->in == IN_REF_DATA) {
-              unsigned address;
-              mi.mod = pic->arg2.mod; mi.id = pic->id;
-              pdpme = bufsearch(&dpmap, &mi, &modid_cmp); /* linear, still adding to it */
-              if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
-                mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
-              address = (unsigned)((long long)pdpme->address + pic->arg.i);
-              bufclear(&cb); binuint(address, &cb); /* wasm32 */
-              gotarg = true;
-            } else if (gotarg && pic->in == IN_DATA_PUT_REF) {
+            size_t off; inscode_t *pic = icbref(&pd->code, i);
+            if (!pica && pic->in == IN_REF_DATA) {
+              pica = pic;
+            } else if (pica && pic->in == IN_DATA_PUT_REF) {
+              dref_t *pdr;
               off = (size_t)pic->arg.u; assert(pic->id == 0);
               if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
                 eprintf("internal error: cannot patch data: bad offset %lu", (unsigned long)off);
-              memcpy(cbdata(&pd->data) + off, cbdata(&cb), 4); /* wasm32 */
-              gotarg = false;
+              /* refs may go either way, so patch when all addresses are known */
+              pdr = bufnewbk(&drefs);
+              pdr->mi.mod = pica->arg2.mod; pdr->mi.id = pica->id;
+              pdr->addend = pica->arg.i; pdr->dsoff = buflen(&dseg) + off;
+              pica = NULL;
             } else {
               eprintf("internal error in data patch");
             }
           }
-          cbfini(&cb);
         }
         cbcat(&dseg, &pd->data);
         curaddr = addr + buflen(&pd->data);
@@ -4053,6 +4056,20 @@ size_t watify_wat_module(wat_module_t* pm)
   /* prepare dpmap for binary search */
   bufqsort(&dpmap, &modid_cmp);
   
+  /* patch scheduled refs in the data chunk */
+  if (buflen(&drefs) > 0) {
+    cbuf_t cb = mkcb();
+    for (i = 0; i < buflen(&drefs); ++i) {
+      dref_t *pdr = bufref(&drefs, i);
+      dpme_t *pdpme = bufbsearch(&dpmap, &pdr->mi, &modid_cmp);
+      if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
+        pdr->mi.mod ? symname(pdr->mi.mod) : "?", pdr->mi.id ? symname(pdr->mi.id) : "?");
+      bufclear(&cb); binuint((unsigned)((long long)pdpme->address + pdr->addend), &cb); /* wasm32 */
+      memcpy(cbdata(&dseg) + pdr->dsoff, cbdata(&cb), 4); /* wasm32 */
+    }
+    cbfini(&cb);
+  }
+  
   /* patch IN_REF_{DATA,FUNC}s, memory export, zero globals */
   for (i = 0; i < watieblen(&pm->exports); ++i) {
     watie_t *pe = watiebref(&pm->exports, i);
@@ -4125,6 +4142,7 @@ size_t watify_wat_module(wat_module_t* pm)
   
   cbfini(&dseg);
   dsmebfini(&dsmap);
+  buffini(&drefs);
   buffini(&dpmap);
   buffini(&table);
   
-- 
2.43.0


From b1718bf57bfe67b9e9028cd801a9c30cd138cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 05/50] fix: cast from float to bool compares with zero

---
 c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c.c b/c.c
index 309aa27..84bfbb1 100644
--- a/c.c
+++ b/c.c
@@ -2361,6 +2361,11 @@ static void asm_numerical_cast(ts_t tsto, ts_t tsfrom, icbuf_t *pdata)
           icbnewbk(pdata)->in = IN_F64_NE; /* i.e. x != 0.0 */
           return;
         } break;
+        case TS_FLOAT: { 
+          inscode_t *pic = icbnewbk(pdata); pic->in = IN_F32_CONST; pic->arg.f = 0.0f;
+          icbnewbk(pdata)->in = IN_F32_NE; /* i.e. x != 0.0f */
+          return;
+        } break;
         case TS_CHAR:  case TS_SHORT:  case TS_INT:  case TS_LONG:/* wasm32 */ 
         case TS_UCHAR: case TS_USHORT: case TS_UINT: case TS_ULONG:/* wasm32 */ {
           /* these are all ints, we need to compare to zero and negate */
-- 
2.43.0


From 561d640f9c21f8168b7b4d8a0521b71cd16a2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:31 +0000
Subject: [PATCH 06/50] fix: switch over far-apart case values

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index 84bfbb1..bd7d122 100644
--- a/c.c
+++ b/c.c
@@ -3509,6 +3509,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     const node_t *pni = pcv+i; assert(pni->nt == NT_CASE && ndlen(pni) == 2);
     psn = ndcref(pni, 0); assert(psn->nt == NT_LITERAL && psn->ts == TS_INT);
     pgn = ndcref(pni, 1); assert(pgn->nt == NT_GOTO && pgn->name != 0);
+    if ((long long)(int)psn->val.i - off - curidx > (long long)cc) return NULL; /* too sparse */
     idx = (int)psn->val.i - off; assert(idx >= 0);
     while (curidx < idx) { /* fill gap with defaults */
       acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
-- 
2.43.0


From 147f231137e6a7544a134a5f621a277694182334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 07/50] fix: union initializers

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index bd7d122..b38f848 100644
--- a/c.c
+++ b/c.c
@@ -1168,7 +1168,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
         } else {
           neprintf(pdn, "initializer is too short");
         }
-        if (ptn->ts == TS_UNION) break; /* first member only! */
+        if (ptn->ts == TS_UNION) { ++j; break; } /* first member only! */
       }
       if (j != ndlen(pdn)) 
         neprintf(pdn, "initializer is too long");
-- 
2.43.0


From 30e819b33d1675fa28a19922e1442029d97d8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:36 +0000
Subject: [PATCH 08/50] fix: negative constants in local initializers

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index b38f848..5d0dce9 100644
--- a/c.c
+++ b/c.c
@@ -1585,8 +1585,9 @@ static bool static_display(node_t *pn, buf_t *prib)
           sym_t mod; const node_t *ptn = lookup_var_type(pn->name, prib, &mod);
           return ptn && ts_bulk(ptn->ts); /* ok if bulk */
         }
+        return false;
       }
-      return false;
+      return arithmetic_constant_expr(pn);
     } break;
     case NT_CAST: {
       ts_t tc;
-- 
2.43.0


From c13fd19fc8807f243dbd7c861e36b177ea6068e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:50 +0000
Subject: [PATCH 09/50] fix: strndup stays inside its copy and the first n
 characters

---
 lib/src/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index a427d7f..4ce3434 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -228,11 +228,11 @@ char *strncpy(char *dst, const char *src, size_t n)
 
 char *strndup(const char *s, size_t n)
 {
-  size_t sl = strlen(s), l = (n > sl ? sl : n) + 1;
-  char *d = malloc(l);
+  size_t l = strnlen(s, n);
+  char *d = malloc(l + 1);
   if (!d) return NULL;
   _bcopy(d, s, l);
-  d[n] = '\0';
+  d[l] = '\0';
   return d;
 }
 
-- 
2.43.0


From 851d5d0eca5840a64ba6a80115317eca06678597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:50 +0000
Subject: [PATCH 10/50] fix: strrchr finds the terminating zero

---
 lib/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/string.c b/lib/src/string.c
index 4ce3434..acbce6f 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -265,6 +265,7 @@ char *strrchr(const char *s, int c)
     if (*s == (char)c) found = s;
     s++;
   }
+  if (!(char)c) found = s;
   return (char *)found;
 }
 
-- 
2.43.0


From eec8f550eed8e9ee138e47601f8449478472c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:50 +0000
Subject: [PATCH 11/50] fix: strstr with an empty needle

---
 lib/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/string.c b/lib/src/string.c
index acbce6f..8525caa 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -284,6 +284,7 @@ size_t strspn(const char *s1, const char *s2)
 
 char *strstr(const char *haystack, const char *needle)
 {
+  if (!*needle) return (char *)haystack;
   return (char *)memmem(haystack, strlen(haystack), needle,
                         strlen(needle));
 }
-- 
2.43.0


From 6072ee4dcd9cbcbfc05a306c3dc8b4ec877b14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:50 +0000
Subject: [PATCH 12/50] fix: strncasecmp folds to lower case as strcasecmp does

---
 lib/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 8525caa..03300e7 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -182,7 +182,7 @@ int strncasecmp(const char *s1, const char *s2, size_t n)
   const unsigned char *c2 = (const unsigned char *)s2;
   unsigned char ch; int d = 0;
   while (n--) {
-    d = toupper(ch = *c1++) - toupper(*c2++);
+    d = tolower(ch = *c1++) - tolower(*c2++);
     if (d || !ch) break;
   }
   return d;
-- 
2.43.0


From c17e721a101a7ce2080d7f64e0f6cbb095358b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 13/50] fix: isspace knows vertical tab and form feed, iscntrl
 only control characters

---
 lib/src/ctype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 4b7cab3..a2daf76 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -12,7 +12,7 @@ int isalpha(int c)
 
 int iscntrl(int c)
 {
-  return !isprint(c);
+  return (c >= 0 && c < ' ') || c == 0x7f;
 }
 
 int isdigit(int c)
@@ -42,7 +42,7 @@ int ispunct(int c)
 
 int isspace(int c)
 {
-  return c == ' ' || c == '\n' || c == '\t' || c == '\r';
+  return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
 int isupper(int c)
-- 
2.43.0


From 275b8200def149ba24fb141e54385d4409bc17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 14/50] fix: getenv finds the variable asked for

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3493ac8..7dcdfc2 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -485,7 +485,7 @@ char *getenv(const char *name)
     initialize_environ();
     char **env;
     for (env = _environ; *env; ++env) {
-      if (strncmp(name, *env, len) && (*env)[len] == '=')
+      if (!strncmp(name, *env, len) && (*env)[len] == '=')
         return *env + len + 1;
     }
   }
-- 
2.43.0


From bb2968e97cb490bff01ff680a9616a158d051a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 15/50] fix: rand is never negative and starts as after
 srand(1)

---
 lib/src/stdlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 7dcdfc2..69268f7 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -395,7 +395,7 @@ uintmax_t strtoumax(const char *nptr, char **endptr, int base)
   return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
 }
 
-static unsigned short rand48_seed[3]; 
+static unsigned short rand48_seed[3] = { 0x330e, 1, 0 }; 
 static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 {
   uint64_t x;
@@ -412,7 +412,7 @@ static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 
 int rand(void)
 {
-  return (int)jrand48(rand48_seed) >> 1;
+  return (int)((unsigned long)jrand48(rand48_seed) >> 1);
 }
 
 void srand(unsigned seedval)
-- 
2.43.0


From cf095082ab53ce0ca2f982074bc9c59296691a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 16/50] fix: realloc keeps the old block when it fails and
 refuses huge sizes

---
 lib/src/stdlib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 69268f7..00616f2 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -653,13 +653,14 @@ void *realloc(void *p, size_t n)
     assert(bi < NBUCKETS);
     assert(bi > SBRKBUCKET || !((uintptr_t)pb & (uintptr_t)(BI2BLKSZ(bi)-1UL)));
     if (n > 0) { /* realloc */
-      if (n + sizeof(header_t) <= BI2BLKSZ(bi)) {
+      if (n <= BI2BLKSZ(bi) - sizeof(header_t)) {
         pb->used.plsz = n;
         return p;
       } else {
         void *np = realloc(NULL, n); /* malloc */
         size_t orgn = pb->used.plsz;
-        if (np != NULL) memcpy(np, p, n < orgn ? n : orgn);
+        if (np == NULL) return NULL; /* old block stays valid */
+        memcpy(np, p, n < orgn ? n : orgn);
         pushblock(bi, pb);
         return np;
       }
-- 
2.43.0


From 8d74523dc68b908260fcb6a920df1c1f85fd1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 17/50] fix: calloc of zero-sized elements

---
 lib/src/stdlib.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 00616f2..e1a15e5 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -690,8 +690,7 @@ void *malloc(size_t n)
 void *calloc(size_t n, size_t sz)
 {
   void *p = NULL; 
-  assert(sz);
-  if (n <= MAXPAYLOAD/sz) {
+  if (!sz || n <= MAXPAYLOAD/sz) {
     n *= sz;
     p = realloc(NULL, n);
     if (p != NULL) memset(p, 0, n);
-- 
2.43.0


From 5c007716db6aa40e613ea5c3e04c431eb40689b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 18/50] fix: malloc of more than a gigabyte fails instead of
 trapping

---
 lib/src/stdlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index e1a15e5..f30466d 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -566,6 +566,7 @@ static header_t* buckets[NBUCKETS];
 static header_t *sbrkblock(size_t bi)
 {
   assert(bi >= SBRKBUCKET);
+  if ((intptr_t)BI2BLKSZ(bi) < 0) return NULL; /* out of sbrk range */
   void *p = sbrk((intptr_t)BI2BLKSZ(bi));
   if (p == (void *)-1) return NULL;
   assert(!((uintptr_t)(p) & (uintptr_t)(WASMPAGESIZE-1)));
-- 
2.43.0


From 04c56e507df4c69048541b8e01dc50a29eab4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 19/50] fix: mbtowc with a null destination and on the null
 character

---
 lib/src/stdlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index f30466d..e574fe8 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -775,8 +775,8 @@ int mbtowc(wchar_t *p, const char *s, size_t n)
       if ((c0 & t->cmask) == t->cval) {
         l &= t->lmask;
         if (l < t->lval) goto ilseq;
-        *p = (wchar_t)l;
-        return nc;
+        if (p) *p = (wchar_t)l;
+        return l ? nc : 0;
       }
       if (n <= nc) goto ilseq;
       ip++;
-- 
2.43.0


From 80313524919e49117ba140ee91417f555e607563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 20/50] fix: strtol family reports missing digits and overflow

---
 lib/src/stdlib.c | 52 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index e574fe8..66865a2 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <limits.h>
 #include <stddef.h>
 #include <stdbool.h>
 #include <errno.h>
@@ -325,9 +326,11 @@ static int digitval(int c)
   return -1;
 }
 
-static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
+/* umax is the largest value of the unsigned variant of the result type */
+static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n, uintmax_t umax, bool sig)
 {
-  int minus = 0; uintmax_t v = 0; int d;
+  int minus = 0; uintmax_t v = 0, lim; int d;
+  const char *start = nptr; bool any = false, over = false;
   while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
   if (n) {
     char c = *nptr;
@@ -337,62 +340,59 @@ static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
       n--;
     }
   }
-  if (base == 0) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2; base = 16;
-    } else if (n >= 1 && nptr[0] == '0') {
-      n--; nptr++; base = 8;
-    } else {
-      base = 10;
-    }
-  } else if (base == 16) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2;
-    }
+  if ((base == 0 || base == 16) && n >= 3 && nptr[0] == '0' &&
+      (nptr[1] == 'x' || nptr[1] == 'X') && isxdigit((unsigned char)nptr[2])) {
+    n -= 2; nptr += 2; base = 16;
+  } else if (base == 0) {
+    base = (n >= 1 && nptr[0] == '0') ? 8 : 10;
   }
+  lim = !sig ? umax : minus ? umax/2 + 1 : umax/2;
   while (n && (d = digitval(*nptr)) >= 0 && d < base) {
-    v = v * base + d;
-    n--; nptr++;
+    if (v > (lim - d)/base) over = true;
+    else v = v * base + d;
+    any = true; n--; nptr++;
+  }
+  if (endptr) *endptr = (char *)(any ? nptr : start);
+  if (over) {
+    errno = ERANGE;
+    return (sig && minus) ? -lim : lim;
   }
-  if (endptr) *endptr = (char *)nptr;
   return minus ? -v : v;
 }
 
 intmax_t strntoimax(const char *nptr, char **endptr, int base, size_t n)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, n);
+  return (intmax_t)strntoumax(nptr, endptr, base, n, UINTMAX_MAX, true);
 }
 
 intmax_t strtoimax(const char *nptr, char **endptr, int base)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, UINTMAX_MAX, true);
 }
 
 long strtol(const char *nptr, char **endptr, int base)
 {
-  return (long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long)strntoumax(nptr, endptr, base, ~(size_t)0, ULONG_MAX, true);
 }
 
 long long strtoll(const char *nptr, char **endptr, int base)
 {
-  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0, ULLONG_MAX, true);
 }
 
 unsigned long strtoul(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0, ULONG_MAX, false);
 }
 
 unsigned long long strtoull(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0, ULLONG_MAX, false);
 }
 
 uintmax_t strtoumax(const char *nptr, char **endptr, int base)
 {
-  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, UINTMAX_MAX, false);
 }
 
 static unsigned short rand48_seed[3] = { 0x330e, 1, 0 }; 
-- 
2.43.0


From 4cf7014ccccdf701781072d71134074018400c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 21/50] fix: mbstowcs and wcstombs stay inside the result
 array, terminate it and report bad characters

---
 lib/src/stdlib.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 66865a2..1c4878d 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -823,35 +823,33 @@ size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n)
   const unsigned char *ip = (const unsigned char *)s;
   while (*ip && n > 0) {
     if (*ip & 0x80) {
-      int size = mbtowc(op, (const char *)ip, n);
-      if (size == -1) { /* ignore character and move on */
-        ip++; n--;
-      } else {
-        op++; ip += size; n -= size;
-      }
+      int size = mbtowc(op, (const char *)ip, 6);
+      if (size == -1) return (size_t)-1;
+      op++; ip += size; n--;
     } else {
       *op++ = *ip++; n--;
     }
   }
+  if (n > 0) *op = 0;
   return op - pwcs;
 }
 
 size_t wcstombs(char *s, const wchar_t *pwcs, size_t maxlen) 
 {
   const wchar_t *ip = pwcs; 
-  unsigned char *op = (unsigned char *)s;
+  unsigned char *op = (unsigned char *)s, buf[6];
   while (*ip && maxlen > 0) {
     if (*ip > 0x7f) {
-      int size = wctomb_chk(op, *ip, maxlen);
-      if (size == -1) { /* ignore character and move on */
-        maxlen--;
-      } else {
-        op += size; maxlen -= size;
-      }
+      int size = wctomb_chk(&buf[0], *ip, 6);
+      if (size == -1) return (size_t)-1;
+      if (size > maxlen) return op - (unsigned char *)s; /* no room for the whole character */
+      memcpy(op, &buf[0], size);
+      op += size; maxlen -= size;
     } else {
-      *op++ = (unsigned char)*ip;
+      *op++ = (unsigned char)*ip; maxlen--;
     }
     ip++;
   }
+  if (maxlen > 0) *op = 0;
   return op - (unsigned char *)s;
 }
-- 
2.43.0


From cd8d02de09e572f88216c255cc60b45928187953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 22/50] fix: wctomb refuses values above 0x7fffffff

---
 lib/src/stdlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 1c4878d..18d605a 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -795,6 +795,7 @@ static int wctomb_chk(unsigned char *s, wchar_t wc, size_t maxlen)
   long l = wc; int c, nc = 0;
   struct utf8_table *t;
   if (s == NULL) return 0;
+  if (l < 0) return -1;
   for (t = utf8_table; t->cmask && maxlen; t++, maxlen--) {
     nc++;
     if (l <= t->lmask) {
-- 
2.43.0


From 681c84598fcd318a277ea44f33d7d13aad34d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 23/50] fix: printf integer conversions with '-' and precision,
 '#' and width, long fields

---
 lib/src/stdio.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 53093f5..67d9ccb 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1060,7 +1060,7 @@ int vsnscanf(const char *buf, size_t count, const char *format, va_list va)
 
 /* 'ntoa' conversion buffer size, this must be big enough to hold one converted
  * integer number including padded zeros (dynamically created on stack) */
-#define PRINTF_NTOA_BUFFER_SIZE    32U
+#define PRINTF_NTOA_BUFFER_SIZE    64U
 
 /* 'ftoa' conversion buffer size, this must be big enough to hold one converted
  * float number including padded zeros (dynamically created on stack) */
@@ -1131,26 +1131,31 @@ static size_t _out_rev(out_fct_t out, void *data, size_t idx, size_t maxlen, con
 /* internal itoa format */
 static size_t _ntoa_format(out_fct_t out, void *data, size_t idx, size_t maxlen, char *buf, size_t len, bool negative, unsigned int base, unsigned int prec, unsigned int width, unsigned int flags)
 {
-  if (!(flags & FLAGS_LEFT)) {
-    if (width && (flags & FLAGS_ZEROPAD) && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((len < prec) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-    while ((flags & FLAGS_ZEROPAD) && (len < width) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-  }
+  char pfx[3]; size_t npfx = 0, zeros, total, i;
+  if (negative) pfx[npfx++] = '-';
+  else if (flags & FLAGS_PLUS) pfx[npfx++] = '+'; 
+  else if (flags & FLAGS_SPACE) pfx[npfx++] = ' ';
   if (flags & FLAGS_HASH) {
-    if (!(flags & FLAGS_PRECISION) && len && ((len == prec) || (len == width))) {
-      --len; if (len && (base == 16U)) --len;
+    if (base == 8U) { /* first digit should be 0 */
+      if (prec <= len && !(len == 1 && buf[0] == '0')) prec = (unsigned)len + 1;
+    } else {
+      pfx[npfx++] = '0';
+      pfx[npfx++] = base == 2U ? 'b' : (flags & FLAGS_UPPERCASE) ? 'X' : 'x';
     }
-    if ((base == 16U) && !(flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'x';
-    else if ((base == 16U) && (flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'X';
-    else if ((base == 2U) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'b';
-    if (len < PRINTF_NTOA_BUFFER_SIZE) buf[len++] = '0';
   }
-  if (len < PRINTF_NTOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+'; 
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
+  zeros = prec > len ? prec - len : 0;
+  total = npfx + zeros + len;
+  if (total < width && !(flags & FLAGS_LEFT)) {
+    if (flags & FLAGS_ZEROPAD) zeros += width - total;
+    else for (i = total; i < width; ++i) (*out)(' ', data, idx++, maxlen);
   }
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+  for (i = 0; i < npfx; ++i) (*out)(pfx[i], data, idx++, maxlen);
+  while (zeros--) (*out)('0', data, idx++, maxlen);
+  while (len) (*out)(buf[--len], data, idx++, maxlen);
+  if (flags & FLAGS_LEFT) {
+    for (i = total; i < width; ++i) (*out)(' ', data, idx++, maxlen);
+  }
+  return idx;
 }
 
 /* internal itoa for 'long' type */
@@ -1158,7 +1163,7 @@ static size_t _ntoa_long(out_fct_t out, void *data, size_t idx, size_t maxlen, u
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
+  if (!value && base != 8) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
@@ -1174,7 +1179,7 @@ static size_t _ntoa_long_long(out_fct_t out, void *data, size_t idx, size_t maxl
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
+  if (!value && base != 8) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
-- 
2.43.0


From 4df4cf0bca2aafecd80754b8bb3930d1730c8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 24/50] fix: printf treats a negative precision argument as
 omitted

---
 lib/src/stdio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 67d9ccb..aaf2ba6 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1469,7 +1469,8 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
         precision = _atoi(&format);
       } else if (*format == '*') {
         const int prec = (int)va_arg(va, int);
-        precision = prec > 0 ? (unsigned int)prec : 0U;
+        if (prec >= 0) precision = (unsigned int)prec;
+        else flags &= ~FLAGS_PRECISION; /* as if omitted */
         ++format;
       }
     }
-- 
2.43.0


From 7fbaf08022e6cc3b561ba6afe309819872f28a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 25/50] fix: printf to a file writes NUL characters of %c

---
 lib/src/stdio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index aaf2ba6..95d00f7 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1111,7 +1111,7 @@ static void _out_null(char c, void *data, size_t idx, size_t maxlen)
 static void _out_file(char c, void *data, size_t idx, size_t maxlen)
 {
   FILE *fp = (FILE *)data;
-  if (c) putc(c, fp);
+  putc(c, fp);
 } 
 
 /* output the specified string in reverse, taking care of any zero-padding */
@@ -1600,7 +1600,8 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
     }
   }
 
-  (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
+  if (out == &_out_buffer) /* \0 */
+    (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen);
   return (int)idx; /* # of written chars sans \0 */
 }
 
-- 
2.43.0


From 657429158374d5685a5636068e1101b1af9db36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 26/50] fix: dividing the smallest long long constant by -1
 crashed the compiler

---
 c.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 5d0dce9..51c91c9 100644
--- a/c.c
+++ b/c.c
@@ -449,8 +449,12 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_AND:   pvz->i = integral_sext(tz, x & y); break;
         case TT_OR:    pvz->i = integral_sext(tz, x | y); break;
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
-        case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
-        case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
+        case TT_SLASH: /* NB: LLONG_MIN / -1 traps on the host */
+          if (y == -1) { if (x == LLONG_MIN) tz = TS_VOID; else pvz->i = integral_sext(tz, -x); }
+          else if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
+        case TT_REM:
+          if (y == -1) pvz->i = 0; 
+          else if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
         case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); break;
         case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
-- 
2.43.0


From ed474df9c42d4c451e01a9c852adf01a54910dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 27/50] fix: constant ?:, !NULL and static_assert were
 evaluated with a condition cut to int; && and || are constant expressions

---
 c.c | 82 +++++++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/c.c b/c.c
index 51c91c9..dd08eeb 100644
--- a/c.c
+++ b/c.c
@@ -781,6 +781,51 @@ static sym_t intern_strlit(node_t *pn)
   return pn->name;
 }
 
+/* evaluate pn expression statically as a condition, putting its truth value into pb */
+static bool static_eval_to_bool(node_t *pn, buf_t *prib, bool *pb)
+{
+  seval_t r;
+  if (!static_eval(pn, prib, &r)) return false;
+  if (ts_numerical(r.ts)) {
+    numval_convert(TS_BOOL, r.ts, &r.val);
+    *pb = r.val.i != 0;
+    return true;
+  } else if (r.ts == TS_PTR && !r.id) {
+    *pb = r.val.i != 0; /* NULL */
+    return true;
+  }
+  return false;
+}
+
+/* find arithmetic type of pn without the need to evaluate it (as it may be 1/0); VOID if unknown */
+static ts_t static_eval_ts(node_t *pn, buf_t *prib)
+{
+  seval_t r; const node_t *ptn; ts_t tx, ty;
+  switch (pn->nt) {
+    case NT_CAST: 
+      return ndref(pn, 0)->ts;
+    case NT_PREFIX:
+      if (pn->op == TT_NOT) return TS_INT;
+      if (pn->op != TT_PLUS && pn->op != TT_MINUS && pn->op != TT_TILDE) break;
+      tx = static_eval_ts(ndref(pn, 0), prib);
+      return ts_numerical(tx) ? ts_integral_promote(tx) : TS_VOID;
+    case NT_INFIX: case NT_COND:
+      if (pn->nt == NT_INFIX) switch (pn->op) {
+        case TT_EQ: case TT_NE: case TT_LT: case TT_GT: case TT_LE: case TT_GE:
+        case TT_AND_AND: case TT_OR_OR: return TS_INT;
+        default:;
+      }
+      tx = static_eval_ts(ndref(pn, pn->nt == NT_COND ? 1 : 0), prib);
+      ty = static_eval_ts(ndref(pn, pn->nt == NT_COND ? 2 : 1), prib);
+      if (!ts_numerical(tx) || !ts_numerical(ty)) return TS_VOID;
+      if (pn->nt == NT_INFIX && (pn->op == TT_SHL || pn->op == TT_SHR)) return ts_integral_promote(tx);
+      return ts_arith_common(tx, ty);
+    default:;
+  }
+  if (static_eval(pn, prib, &r)) return r.ts;
+  return (ptn = type_eval(pn, prib)) ? ptn->ts : TS_VOID;
+}
+
 /* evaluate pn expression statically, putting result into pr */
 bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
 {
@@ -908,7 +953,8 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
           numval_t vz; ts_t tz = numval_unop(pn->op, rx.ts, &rx.val, &vz);
           if (tz != TS_VOID) { pr->ts = tz; pr->val = vz; ok = true; }
         } else if (rx.ts == TS_PTR && pn->op == TT_NOT) {
-          pr->ts = TS_INT; pr->val.i = 0; ok = true; /* dseg ptr != NULL */
+          /* dseg ptr != NULL */
+          pr->ts = TS_INT; pr->val.i = !rx.id && rx.val.i == 0; ok = true; 
         }
       }
       return ok;
@@ -916,7 +962,13 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
     case NT_INFIX: {
       seval_t rx, ry; bool ok = false;
       assert(ndlen(pn) == 2); 
-      if (static_eval(ndref(pn, 0), prib, &rx) && static_eval(ndref(pn, 1), prib, &ry)) {
+      if (pn->op == TT_AND_AND || pn->op == TT_OR_OR) {
+        bool b, stop = (pn->op == TT_OR_OR);
+        if (static_eval_to_bool(ndref(pn, 0), prib, &b) &&
+            (b == stop || static_eval_to_bool(ndref(pn, 1), prib, &b))) {
+          pr->ts = TS_INT; pr->val.i = b; ok = true;
+        }
+      } else if (static_eval(ndref(pn, 0), prib, &rx) && static_eval(ndref(pn, 1), prib, &ry)) {
         if (ts_numerical(rx.ts) && ts_numerical(ry.ts)) {
           numval_t vz; ts_t tz = numval_binop(pn->op, rx.ts, &rx.val, ry.ts, &ry.val, &vz);
           if (tz != TS_VOID) { pr->ts = tz; pr->val = vz; ok = true; }
@@ -943,12 +995,21 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       return ok;
     } break;
     case NT_COND: {
-      seval_t r; bool ok = false; int cond;
+      seval_t r; bool ok = false, cond;
       assert(ndlen(pn) == 3);
-      if (arithmetic_eval_to_int(ndref(pn, 0), prib, &cond)) {
-        if (cond) ok = static_eval(ndref(pn, 1), prib, &r);
-        else ok = static_eval(ndref(pn, 2), prib, &r);
-        if (ok) *pr = r; /* can be num or ptr! */
+      if (static_eval_to_bool(ndref(pn, 0), prib, &cond)) {
+        node_t *psn = ndref(pn, cond ? 1 : 2), *pon = ndref(pn, cond ? 2 : 1); 
+        if (static_eval(psn, prib, &r)) {
+          ok = true; /* can be num or ptr! */
+          if (ts_numerical(r.ts)) { /* convert to common type */
+            ts_t tz = static_eval_ts(pon, prib);
+            if (ts_numerical(tz)) {
+              tz = ts_arith_common(r.ts, tz);
+              numval_convert(tz, r.ts, &r.val); r.ts = tz;
+            } else ok = false; /* other type is unknown */
+          }
+        }
+        if (ok) *pr = r; 
       } 
       return ok;
     } break;
@@ -1013,14 +1074,14 @@ bool arithmetic_eval(node_t *pn, buf_t *prib, node_t *prn)
 static void check_static_assert(node_t *pn, buf_t *prib)
 {
   if (pn->intr == INTR_SASSERT) {
-    node_t *pen, *psn; int res;
+    node_t *pen, *psn; bool res;
     assert(ndlen(pn) == 1 || ndlen(pn) == 2);
     pen = ndref(pn, 0), psn = ndlen(pn) == 2 ? ndref(pn, 1) : NULL;
     if (psn && (psn->nt != NT_LITERAL || psn->ts != TS_STRING))
       neprintf(pn, "unexpected 2nd arg of static_assert (string literal expected)");
-    if (!arithmetic_eval_to_int(pen, prib, &res))
+    if (!static_eval_to_bool(pen, prib, &res))
       n2eprintf(pen, pn, "unexpected lhs of static_assert comparison (static test expected)");
-    if (res == 0) {
+    if (!res) {
       if (!psn) neprintf(pn, "static_assert failed");
       else neprintf(pn, "static_assert failed (%s)", cbdata(&psn->data));
     }
@@ -1549,6 +1610,7 @@ static bool arithmetic_constant_expr(node_t *pn)
         case TT_OR:    case TT_XOR:   case TT_SLASH: case TT_REM:
         case TT_SHL:   case TT_SHR:   case TT_EQ:    case TT_NE:
         case TT_LT:    case TT_GT:    case TT_LE:    case TT_GE:
+        case TT_AND_AND: case TT_OR_OR:
           return arithmetic_constant_expr(ndref(pn, 0)) && arithmetic_constant_expr(ndref(pn, 1));
         default:;
       } 
-- 
2.43.0


From 643a2b4cfe92b0f22f94acb83e30327024efd543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 28/50] fix: mktime after 2038, outside 1901-2100, with fields
 out of range and without normalising its argument

---
 lib/src/time.c | 84 +++++++++++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 29ebb80..02cd132 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -14,29 +14,11 @@
 #define DAYS_PER_100Y (365*100 + 24)
 #define DAYS_PER_4Y   (365*4   + 1)
 #define DAYS_PER_WEEK 7
-/* year range is from 1901 to 2038, so no century can occur which is not a leap year
- * #define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0)) */
-#define is_leap(y)  ((y) % 4 == 0)
 
 static int days_in_month[] = {
   31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29
 };
 
-static const int mon_days[] = {
-  31,
-  31 + 28,
-  31 + 28 + 31,
-  31 + 28 + 31 + 30,
-  31 + 28 + 31 + 30 + 31,
-  31 + 28 + 31 + 30 + 31 + 30,
-  31 + 28 + 31 + 30 + 31 + 30 + 31,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 30,
-  31 + 28 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 30 + 31
-};
-
 static const char *wday_name[7] = {
   "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"
 };
@@ -257,30 +239,6 @@ void tzset(void)
   }
 }
 
-time_t mktime(struct tm *tm)
-{
-  long tyears, tdays, leaps, utc_hrs;
-  int leap_year;
-
-  tzset();
-  leap_year = is_leap(tm->tm_year + 1900);
-  tyears = tm->tm_year - 70;
-  leaps = (tyears + 2) / 4;
-  if (tyears < 0) {
-    leaps = (tyears - 2) / 4;
-    if (leap_year && tm->tm_mon > 1) ++leaps;
-  } else {
-    leaps = (tyears + 2) / 4; /* no of next two lines until year 2100. */
-    if (leap_year && (tm->tm_mon == 0 || tm->tm_mon == 1)) --leaps;
-  }
-  tdays = (tm->tm_mon > 0) ? mon_days[tm->tm_mon - 1] : 0;
-  tdays += tm->tm_mday - 1; /* days of month passed. */
-  tdays += (tyears * 365) + leaps;
-  utc_hrs = tm->tm_hour;
-
-  return (tdays * 86400L) + (utc_hrs * 3600L) + ((long)tm->tm_min * 60L) + (long)tm->tm_sec + timezone;
-}
-
 char *asctime_r(const struct tm *ptm, char *buf)
 {
   snprintf(buf, 26, 
@@ -300,6 +258,48 @@ struct tm *localtime_r(const time_t *pt, struct tm *ptm)
   return gmtime_r(&t, ptm);
 }
 
+/* days from 1970-01-01 to the first day of the given month of the given year (since 1900) */
+static long long month_to_days(long long year, int mon)
+{
+  long long cycles; int remyears;
+
+  year += mon / 12 + 1900;
+  mon %= 12;
+  if (mon < 0) {
+    mon += 12;
+    --year;
+  }
+
+  /* count years and months from March */
+  mon -= 2;
+  if (mon < 0) {
+    mon += 12;
+    --year;
+  }
+
+  cycles = year / 400;
+  remyears = (int)(year % 400);
+  if (remyears < 0) {
+    remyears += 400;
+    --cycles;
+  }
+
+  return cycles * DAYS_PER_400Y + remyears * 365 + remyears / 4 - remyears / 100 + (153 * mon + 2) / 5 - 719468;
+}
+
+time_t mktime(struct tm *ptm)
+{
+  struct tm tm; time_t t;
+
+  tzset();
+  t = (month_to_days(ptm->tm_year, ptm->tm_mon) + ptm->tm_mday - 1) * 86400LL + 
+    ptm->tm_hour * 3600LL + ptm->tm_min * 60LL + ptm->tm_sec + timezone;
+  if (localtime_r(&t, &tm) == NULL) return (time_t)-1;
+
+  *ptm = tm; /* normalize */
+  return t;
+}
+
 char *ctime_r(const time_t *pt, char *buf)
 {
   struct tm tm, *ptm = localtime_r(pt, &tm);
-- 
2.43.0


From 07d80fc792c62aba0f35e66de4e36cca7aae9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 29/50] fix: strftime terminates and counts its output; %p, %w,
 %x, %X, %c, %y, %Y and September

---
 lib/src/time.c | 65 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 02cd132..d4e35c8 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -34,7 +34,7 @@ static const char *mon_name[12] = {
 
 static const char *mon_full_name[] = { 
   "January", "February", "March", "April", "May", "June", 
-  "July", "August", "Sepember", "October", "November", "December" 
+  "July", "August", "September", "October", "November", "December" 
 };
 
 /* hidden state for non-reentrant functions */
@@ -348,15 +348,18 @@ static int get_week(const struct tm *tp, int start_monday)
 
 size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
 {
-  char *ptr = s; size_t count = 0;
+  size_t count = 0;
 
   tzset();
-  do {
+  if (smax == 0) return 0;
+  while (*fmt != '\0') {
+    const char *addstr = fmt; /* regular character */
+    size_t len = 1;
     if (*fmt == '%') {
-      const char *addstr = NULL;
       int addlen = -1;
       char addval[80];
-      int week;
+      int week, year;
+      addstr = NULL;
       switch (*++fmt) {
         case 'a':
           addlen = 3; /* abbrevation = first three characters */
@@ -381,13 +384,18 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           }
           break;
         case 'c':
-          strftime(addval, 80, "%a %b %d %x %Y", tp);
+          strftime(addval, 80, "%a %b %e %X %Y", tp);
           break;
         case 'd':
           addval[0] = '0' + (tp->tm_mday / 10);
           addval[1] = '0' + (tp->tm_mday % 10);
           addval[2] = '\0';
           break;
+        case 'e':
+          addval[0] = (tp->tm_mday < 10) ? ' ' : '0' + (tp->tm_mday / 10);
+          addval[1] = '0' + (tp->tm_mday % 10);
+          addval[2] = '\0';
+          break;
         case 'H':
           addval[0] = '0' + (tp->tm_hour / 10);
           addval[1] = '0' + (tp->tm_hour % 10);
@@ -418,7 +426,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'p':
-          if (tp->tm_hour > 0 && tp->tm_hour < 13) addstr = "AM";
+          if (tp->tm_hour < 12) addstr = "AM";
           else addstr = "PM";
           break;
         case 'S':
@@ -434,27 +442,24 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'w':
-          addval[0] = '0' + (tp->tm_wday / 10);
-          addval[1] = '0' + (tp->tm_wday % 10);
-          addval[2] = '\0';
-          break;
-        case 'X':
-          strftime(addval, 80, "%d.%m.%Y", tp);
+          addval[0] = '0' + tp->tm_wday;
+          addval[1] = '\0';
           break;
         case 'x':
+          strftime(addval, 80, "%m/%d/%y", tp);
+          break;
+        case 'X':
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-          addval[0] = '0' + ((tp->tm_year % 100) / 10);
-          addval[1] = '0' + ((tp->tm_year % 100) % 10);
+          year = tp->tm_year % 100;
+          if (year < 0) year += 100;
+          addval[0] = '0' + (year / 10);
+          addval[1] = '0' + (year % 10);
           addval[2] = '\0';
           break;
         case 'Y':
-          addval[0] = '0' + ((tp->tm_year + 1900) / 1000);
-          addval[1] = '0' + (((tp->tm_year + 1900) % 1000) / 100);
-          addval[2] = '0' + (((tp->tm_year + 1900) % 100) / 10);
-          addval[3] = '0' + ((tp->tm_year + 1900) % 10);
-          addval[4] = '\0';
+          snprintf(addval, 80, "%.4lld", tp->tm_year + 1900LL);
           break;
         case 'Z':
           addstr = tzname[tp->tm_isdst > 0];
@@ -469,20 +474,14 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           break;
       }
       if (addstr == NULL) addstr = addval;
-      if (*addstr != '\0') {
-        size_t len = (addlen < 0) ? strlen(addstr) : addlen;
-        if (count + len > smax) len = smax - count;
-        strncpy(ptr, addstr, len);
-        ptr += len;
-        count += len;
-      }
-      ++fmt;
-    } else {
-      if (count <= smax) *ptr++ = *fmt;
-      ++fmt;
+      len = (addlen < 0) ? strlen(addstr) : (size_t)addlen;
     }
-  } while (fmt[-1] != '\0');
+    if (len >= smax - count) return 0; /* no room for terminator */
+    memcpy(s + count, addstr, len);
+    count += len;
+    if (*fmt != '\0') ++fmt; /* may be at the end after trailing % */
+  }
+  s[count] = '\0';
 
-  if (count > smax) count = 0;
   return count;
 }
-- 
2.43.0


From d1268e367ac37a2d810008bcedfae6af893f8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 30/50] fix: fputc, fputs and fwrite: byte 255, unwritable
 streams, write errors and newlines on line-buffered streams

---
 lib/src/stdio.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 95d00f7..71b95ae 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -223,26 +223,25 @@ static int wrtchk(FILE *fp)
 /* putc helper; precondition: f->cnt <= 0 */
 int _flushbuf(int c, FILE *fp)
 {
-  unsigned char c1;
+  unsigned char c1 = (unsigned char)c;
   if (wrtchk(fp) != 0) return EOF;
   do {
     /* check for linebuffered with write perm, but no EOF */
     if ((fp->flags & (_IOLBF|_IOWRT|_IOEOF)) == (_IOLBF|_IOWRT)) {
       if (fp->ptr >= fp->end) break; /* flush buf and be done */
-      if ((*fp->ptr++ = c) != '\n') return c;
-      return writebuf(fp) == EOF ? EOF : c;
+      if ((*fp->ptr++ = c1) != '\n') return c1;
+      return writebuf(fp) == EOF ? EOF : c1;
     }
     /* write out an unbuffered file, if have write perm, but no EOF */
     if ((fp->flags & (_IONBF|_IOWRT|_IOEOF)) == (_IONBF|_IOWRT)) {
-      c1 = c; fp->cnt = 0;
-      if (write(fp->fd, (char *)&c1, 1) == 1) return c;
+      fp->cnt = 0;
+      if (write(fp->fd, (char *)&c1, 1) == 1) return c1;
       fp->flags |= _IOERR;
       return EOF;
     }
   } while (fp->flags & (_IONBF|_IOLBF));
-  writebuf(fp); /* full buffer: flush it */
-  putc((char)c, fp); /* then put "c" in newly emptied buf */
-  return ferror(fp) ? EOF : c;
+  if (writebuf(fp) == EOF) return EOF; /* full buffer: flush it */
+  return putc(c1, fp); /* then put "c" in newly emptied buf */
 }
 
 size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
@@ -271,8 +270,8 @@ size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
     /* done; flush if linebuffered with a newline */
     if ((nleft -= n) == 0) { 
       if (fp->flags & (_IOLBF|_IONBF)) {
-        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', count*size) != NULL)) 
-          writebuf(fp);
+        if ((fp->flags & _IONBF) || (memchr(buf, '\n', count*size) != NULL)) 
+          if (writebuf(fp) == EOF) return 0;
       }
       return (count);
     }
@@ -284,7 +283,7 @@ int fputs(const char *s, FILE *fp)
 {
   ssize_t ndone = 0, n;
   unsigned char *cptr; char *p;
-  if (wrtchk(fp) != 0) return 0;
+  if (wrtchk(fp) != 0) return EOF;
   if ((fp->flags & _IONBF) == 0) {
     for (;; s += n) {
       while ((n = fp->end - (cptr = fp->ptr)) <= 0) { /* full buf */
@@ -302,7 +301,10 @@ int fputs(const char *s, FILE *fp)
   } else {
     /* write out to an unbuffered file */
     size_t cnt = strlen(s);
-    write(fp->fd, s, cnt);
+    if (cnt > 0 && write(fp->fd, s, cnt) != (ssize_t)cnt) {
+      fp->flags |= _IOERR;
+      return EOF;
+    }
     return (int)cnt;
   }
   return 0; /* unreacheable */
-- 
2.43.0


From 17139e2881f2e128859f64e4ddf7350de48dcb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 31/50] fix: fflush(NULL) flushes every output stream

---
 lib/src/stdio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 71b95ae..c71558f 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -318,6 +318,12 @@ int puts(const char *s)
 
 int fflush(FILE *fp)
 {
+  if (fp == NULL) { /* flush all output streams */
+    int res = 0;
+    for (fp = &_iob[0]; fp < &_iob[FOPEN_MAX]; ++fp)
+      if ((fp->flags & _IOWRT) && fflush(fp) == EOF) res = EOF;
+    return res;
+  }
   if (!(fp->flags & _IOWRT)) {
     fp->cnt = 0;
     return 0;
-- 
2.43.0


From 19e73943f067752c18caa6bc3addeee0e78a2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 32/50] fix: ungetc before reading, at end of file and before
 seeking; fgetpos, ftell and fgets report errors

---
 lib/include/stdio.h |  1 +
 lib/src/stdio.c     | 74 ++++++++++++++++++++++++---------------------
 2 files changed, 41 insertions(+), 34 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index dca7459..0b54ebb 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -31,6 +31,7 @@ typedef struct _iobuf {
 #define _IOLBF   0100
 #define _IORW    0200
 #define _IOMYBUF 0400
+#define _IOUNGC 01000
 
 extern FILE _iob[FOPEN_MAX];
 #define stdin  (&_iob[0])
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index c71558f..0f613a1 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -8,6 +8,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <float.h>
+#include <limits.h>
 #include <stdio.h>
 #include <sys/intrs.h>
 
@@ -158,6 +159,7 @@ int _fillbuf(FILE *fp)
         fflush(fpi);
     }
   fp->ptr = fp->base;
+  fp->flags &= ~_IOUNGC;
   readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->base;
   fp->cnt = read(fp->fd, (char *)fp->base, readc);
   if (--fp->cnt >= 0) return (*fp->ptr++);
@@ -351,7 +353,7 @@ char *fgets(char *s, int size, FILE *fp)
   for (size--; size > 0; size -= (int)n) {
     if (fp->cnt <= 0) { /* empty buffer */
       if (_fillbuf(fp) == EOF) {
-        if (s0 == s) return NULL;
+        if (s0 == s || !feof(fp)) return NULL; /* nothing read or read error */
         break; /* no more data */
       }
       fp->ptr--; fp->cnt++;
@@ -368,25 +370,36 @@ char *fgets(char *s, int size, FILE *fp)
 
 int ungetc(int c, FILE *fp)
 {
-  if (c == EOF) return -1;
-  if ((fp->flags & _IOREAD) == 0 || fp->ptr <= fp->base) {
-    if (fp->ptr == fp->base && fp->cnt == 0) ++fp->ptr;
-    else return -1;
+  if (c == EOF) return EOF;
+  if (!(fp->flags & _IOREAD)) {
+    if ((fp->flags & (_IORW|_IOWRT)) != _IORW) return EOF; /* not readable now */
+    fp->flags |= _IOREAD;
   }
-  *--fp->ptr = c; ++fp->cnt;
-  return c;
+  if (fp->base == NULL) addbuf(fp);
+  if (fp->ptr <= fp->base) {
+    if (fp->cnt > 0) return EOF; /* no room */
+    fp->ptr = fp->base + 1;
+  }
+  if (fp->cnt < 0) fp->cnt = 0;
+  *--fp->ptr = (unsigned char)c; ++fp->cnt;
+  fp->flags = fp->flags & ~_IOEOF | _IOUNGC; /* buffer no longer mirrors the file */
+  return *fp->ptr;
 }
 
 int fseek(FILE *fp, long offset, int origin)
 {
-  ssize_t c; long p;
+  ssize_t c; off_t offs = offset, p = -1, cur;
   fp->flags &= ~_IOEOF;
   if (fp->flags & _IOREAD) {
-    if (origin < 2 && fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      if (origin == 0) p += (long)c - (long)lseek(fp->fd, 0, SEEK_CUR);
-      else offset -= (long)c;
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+    if (origin < 2 && fp->base != NULL) {
+      c = fp->cnt; p = offs;
+      if (origin == 0) {
+        cur = lseek(fp->fd, 0, SEEK_CUR);
+        if (cur < 0) return -1;
+        p += (off_t)c - cur;
+      } else offs -= (off_t)c;
+      /* keep the buffer if it has the target, and room for an ungetc before it */
+      if (!(fp->flags & (_IONBF|_IORW|_IOUNGC)) && c > 0 && p <= c && p > fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
         return 0;
       }
@@ -395,7 +408,7 @@ int fseek(FILE *fp, long offset, int origin)
       fp->ptr = fp->base;
       fp->flags &= ~_IOREAD;
     }
-    p = (long)lseek(fp->fd, offset, origin);
+    p = lseek(fp->fd, offs, origin);
     fp->cnt = 0;
   } else if (fp->flags & (_IOWRT|_IORW)) {
     fflush(fp);
@@ -404,25 +417,17 @@ int fseek(FILE *fp, long offset, int origin)
       fp->flags &= ~_IOWRT;
       fp->ptr = fp->base;
     }
-    p = (long)lseek(fp->fd, offset, origin);
+    p = lseek(fp->fd, offs, origin);
   }
   return (p == -1) ? -1 : 0;
 }
 
 long ftell(FILE *fp)
 {
-  long offset; ssize_t adjust;
-  if (fp->cnt < 0) fp->cnt = 0;
-  if (fp->flags & _IOREAD) {
-    adjust = - fp->cnt;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    adjust = 0;
-    if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
-      adjust = fp->ptr - fp->base;
-  } else return -1;
-  offset = (long)lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += (long)adjust;
-  return offset;
+  off_t offset; 
+  if (fgetpos(fp, &offset) != 0) return -1;
+  if (offset > LONG_MAX) { errno = EOVERFLOW; return -1; }
+  return (long)offset;
 }
 
 void rewind(FILE *fp)
@@ -447,21 +452,22 @@ int fgetpos(FILE *fp, fpos_t *ptr)
       adjust = fp->ptr - fp->base;
   } else return -1;
   offset = lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += adjust;
-  *ptr = offset;
+  if (offset < 0) return -1;
+  *ptr = offset + adjust;
   return 0;
 }
 
 int fsetpos(FILE *fp, const fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  ssize_t c; off_t offset = *ptr, p;
+  ssize_t c; off_t offset = *ptr, p = -1, cur;
   fp->flags &= ~_IOEOF;
   if (fp->flags & _IOREAD) {
-    if (fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      p += (off_t)c - lseek(fp->fd, 0, SEEK_CUR);
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+    if (fp->base != NULL && !(fp->flags & (_IONBF|_IORW|_IOUNGC))) {
+      cur = lseek(fp->fd, 0, SEEK_CUR);
+      if (cur < 0) return -1;
+      c = fp->cnt; p = offset + (off_t)c - cur;
+      if (c > 0 && p <= c && p > fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
         return 0;
       }
-- 
2.43.0


From dc77c65e9a49c7ea74b80ffd661ba5749e942b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 33/50] fix: a failing fseek or fsetpos leaves the position of
 an input stream alone

---
 lib/src/stdio.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 0f613a1..89834cf 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -389,7 +389,6 @@ int ungetc(int c, FILE *fp)
 int fseek(FILE *fp, long offset, int origin)
 {
   ssize_t c; off_t offs = offset, p = -1, cur;
-  fp->flags &= ~_IOEOF;
   if (fp->flags & _IOREAD) {
     if (origin < 2 && fp->base != NULL) {
       c = fp->cnt; p = offs;
@@ -401,14 +400,16 @@ int fseek(FILE *fp, long offset, int origin)
       /* keep the buffer if it has the target, and room for an ungetc before it */
       if (!(fp->flags & (_IONBF|_IORW|_IOUNGC)) && c > 0 && p <= c && p > fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
+        fp->flags &= ~_IOEOF;
         return 0;
       }
     }
+    p = lseek(fp->fd, offs, origin);
+    if (p < 0) return -1; /* position and buffer are unchanged */
     if (fp->flags & _IORW) {
       fp->ptr = fp->base;
       fp->flags &= ~_IOREAD;
     }
-    p = lseek(fp->fd, offs, origin);
     fp->cnt = 0;
   } else if (fp->flags & (_IOWRT|_IORW)) {
     fflush(fp);
@@ -419,7 +420,9 @@ int fseek(FILE *fp, long offset, int origin)
     }
     p = lseek(fp->fd, offs, origin);
   }
-  return (p == -1) ? -1 : 0;
+  if (p < 0) return -1;
+  fp->flags &= ~_IOEOF;
+  return 0;
 }
 
 long ftell(FILE *fp)
@@ -461,7 +464,6 @@ int fsetpos(FILE *fp, const fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
   ssize_t c; off_t offset = *ptr, p = -1, cur;
-  fp->flags &= ~_IOEOF;
   if (fp->flags & _IOREAD) {
     if (fp->base != NULL && !(fp->flags & (_IONBF|_IORW|_IOUNGC))) {
       cur = lseek(fp->fd, 0, SEEK_CUR);
@@ -469,14 +471,16 @@ int fsetpos(FILE *fp, const fpos_t *ptr)
       c = fp->cnt; p = offset + (off_t)c - cur;
       if (c > 0 && p <= c && p > fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
+        fp->flags &= ~_IOEOF;
         return 0;
       }
     }
+    p = lseek(fp->fd, offset, SEEK_SET);
+    if (p < 0) return -1; /* position and buffer are unchanged */
     if (fp->flags & _IORW) {
       fp->ptr = fp->base;
       fp->flags &= ~_IOREAD;
     }
-    p = lseek(fp->fd, offset, SEEK_SET);
     fp->cnt = 0;
   } else if (fp->flags & (_IOWRT|_IORW)) {
     fflush(fp);
@@ -487,7 +491,9 @@ int fsetpos(FILE *fp, const fpos_t *ptr)
     }
     p = lseek(fp->fd, offset, SEEK_SET);
   }
-  return (p == -1) ? -1 : 0;
+  if (p < 0) return -1;
+  fp->flags &= ~_IOEOF;
+  return 0;
 }
 
 int setvbuf(FILE *fp, char *buf, int mode, size_t size)
-- 
2.43.0


From 4cfc0e957cf625b1c974a1d10565929767028bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 34/50] fix: reading an update stream after fflush

---
 lib/src/stdio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 89834cf..802f26e 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -334,6 +334,10 @@ int fflush(FILE *fp)
          (fp->base != NULL) && (fp->ptr > fp->base)) {
     writebuf(fp);
   }
+  if (fp->flags & _IORW) { /* either reading or writing can be next */
+    fp->flags &= ~_IOWRT;
+    fp->cnt = 0;
+  }
   return ferror(fp) ? EOF : 0;
 }
 
-- 
2.43.0


From 4c9e6b0ef7a14d924f648e8cea12c218b23343c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 35/50] fix: streams are closed after all atexit handlers, even
 those registered before the first i/o

---
 lib/src/stdio.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 802f26e..49cbebf 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -11,6 +11,7 @@
 #include <limits.h>
 #include <stdio.h>
 #include <sys/intrs.h>
+#include <sys/crt.h>
 
 /* stream i/o after K&R TCPL */
 
@@ -41,13 +42,24 @@ static void closeall(void)
   }
 }
 
+/* the handler registered first, which has to run before streams are closed */
+static onterm_func_t first_onterm;
+
+static void closelast(void)
+{
+  (*first_onterm)();
+  closeall();
+}
+
 static void initialize(void)
 {
   if (!initialized) {
     /* make stdin and stdout line-buffered if associated with a tty */
     if (isatty(STDIN_FILENO)) stdin->flags |= _IOLBF; 
     if (isatty(STDOUT_FILENO)) stdout->flags |= _IOLBF; 
-    atexit(&closeall);
+    /* streams are closed after all atexit handlers, in whatever order they came */
+    if (onterm_count == 0) atexit(&closeall);
+    else { first_onterm = onterm_funcs[0]; onterm_funcs[0] = &closelast; }
     initialized = true;
   }
 }
-- 
2.43.0


From 3caf405fa6335fd039d678dcf19cf16f5222997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 36/50] fix: ?: evaluated its simple branches before the side
 effects of its condition

---
 c.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index dd08eeb..ba7aa5e 100644
--- a/c.c
+++ b/c.c
@@ -2825,6 +2825,24 @@ static bool acode_simple_noeff(node_t *pan)
   return false;
 }
 
+/* check if this node can change variables */
+static bool acode_has_effects(node_t *pan)
+{
+  size_t i;
+  if (pan->nt != NT_ACODE) return true;
+  for (i = 0; i < icblen(&pan->data); ++i) {
+    switch (icbref(&pan->data, i)->in) {
+      case IN_LOCAL_SET: case IN_LOCAL_TEE: case IN_GLOBAL_SET:
+      case IN_CALL: case IN_CALL_INDIRECT: return true;
+      default:;
+    }
+  }
+  for (i = 1; i < ndlen(pan); ++i) {
+    if (acode_has_effects(ndref(pan, i))) return true;
+  }
+  return false;
+}
+
 /* check if this node is a const; returns 0 or ts_t/nv */
 static ts_t acode_const(node_t *pan, numval_t **ppnv)
 {
@@ -3162,7 +3180,9 @@ static node_t *compile_cond(node_t *prn, node_t *pan1, node_t *pan2, node_t *pan
   else if (patn2->ts == TS_PTR && patn3->ts == TS_PTR && (pctn = common_ptr_type(patn2, patn3)) != NULL) /* ok */; 
   else if (same_type(patn2, patn3)) pctn = patn2;
   else neprintf(prn, "incompatible types of logical operator branches");
-  use_select = acode_simple_noeff(pan2) && acode_simple_noeff(pan3);
+  /* NB: select evaluates both branches before the condition */
+  use_select = acode_simple_noeff(pan2) && acode_simple_noeff(pan3) &&
+    ((acode_const(pan2, NULL) && acode_const(pan3, NULL)) || !acode_has_effects(pan1));
   if (!same_type(pctn, patn2)) pan2 = compile_cast(prn, pctn, pan2);
   if (!same_type(pctn, patn3)) pan3 = compile_cast(prn, pctn, pan3);
   pan1 = compile_booltest(prn, pan1); /* add !=0 if not i32 */
-- 
2.43.0


From 9ffe109edaf67c38af631d010f33d43a9ce38fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 37/50] fix: pow lost the sign of overflow and underflow for
 odd powers above 2^31

---
 lib/src/math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/math.c b/lib/src/math.c
index 67c73cf..7c87713 100644
--- a/lib/src/math.c
+++ b/lib/src/math.c
@@ -1001,18 +1001,18 @@ static double ieee754_pow(double x, double y)
     if (ix < IC(0x3fefffff)) {
       if (hy < 0) {
         feraiseexcept(FE_OVERFLOW);
-        return HUGE_VAL;
+        return (hx < 0 && yisint == 1) ? -HUGE_VAL : HUGE_VAL;
       }
       feraiseexcept(FE_UNDERFLOW);
-      return 0;
+      return Zero[hx < 0 && yisint == 1];
     }
     if (ix > IC(0x3ff00000)) {
       if (hy > 0) {
         feraiseexcept(FE_OVERFLOW);
-        return HUGE_VAL;
+        return (hx < 0 && yisint == 1) ? -HUGE_VAL : HUGE_VAL;
       }
       feraiseexcept(FE_UNDERFLOW);
-      return 0;
+      return Zero[hx < 0 && yisint == 1];
     }
     /* now |1-x| is tiny <= 2**-20, suffice to compute 
        log(x) by x-x^2/2+x^3/3-x^4/4 */
-- 
2.43.0


From 2053b4303ae8a37440f4cd20e2c7fa31b542209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 38/50] fix: isfinite was true for infinities and NaNs only

---
 lib/src/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/math.c b/lib/src/math.c
index 7c87713..e406f69 100644
--- a/lib/src/math.c
+++ b/lib/src/math.c
@@ -293,7 +293,7 @@ int fpclassify(double x)
 
 int isfinite(double x)
 {
-  return (_dasull(x) & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL;  
+  return (_dasull(x) & 0x7FF0000000000000ULL) != 0x7FF0000000000000ULL;  
 }
 
 int isinf(double x)
-- 
2.43.0


From 03f7ccb277eaf1fc0184a8d15f0f4da2db97bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 39/50] fix: -O merged a constant into a load offset where the
 address sum wraps around

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index ba7aa5e..d41fd38 100644
--- a/c.c
+++ b/c.c
@@ -4221,7 +4221,8 @@ static void fundef_peephole(node_t *pcn, int optlvl)
           if (pprevi->in == IN_I32_ADD && ppprei->in == IN_I32_CONST) {
             unsigned long long n = pthisi->arg.u & 0xFFFFFFFFU;
             long long off = (ppprei->arg.i << 32) >> 32; /* may be negative */
-            if (off >= 0 && (n + (unsigned long long)off) < 0xFFFFFFFFU) { 
+            /* address sum may wrap around, offset does not: stay below the first object */
+            if (off >= 0 && (n + (unsigned long long)off) <= g_sdbaddr) { 
               pthisi->arg.u += (unsigned long long)off;
               icbrem(picb, i-2);
               icbrem(picb, i-2);
-- 
2.43.0


From fa89b3d1ad5717c4bb44fbbff5ce993ee6a2d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 40/50] fix: subnormal floating literals were rejected

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index a586a92..79959d9 100644
--- a/p.c
+++ b/p.c
@@ -2547,7 +2547,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
     case TT_FLOAT: {
       char *ns = pw->tokstr; double d;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, d = strtod(ns, NULL), !errno) {
+      if (errno = 0, d = strtod(ns, NULL), !errno || d < 1.0) { /* subnormals are fine */
         pn->val.f = (float)d;
       } else reprintf(pw, startpos, "invalid float literal"); 
       pn->ts = TS_FLOAT;
@@ -2556,7 +2556,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
     case TT_DOUBLE: {
       char *ns = pw->tokstr; double d;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, d = strtod(ns, NULL), !errno) {
+      if (errno = 0, d = strtod(ns, NULL), !errno || d < 1.0) { /* subnormals are fine */
         pn->val.d = d;
       } else reprintf(pw, startpos, "invalid double literal"); 
       pn->ts = TS_DOUBLE;
-- 
2.43.0


From 20c50cec0e0c61de71e593332681da4f2b93fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 41/50] fix: stat() and fstat() left st_mode uninitialised

---
 lib/src/stat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stat.c b/lib/src/stat.c
index 798e120..faf9c3b 100644
--- a/lib/src/stat.c
+++ b/lib/src/stat.c
@@ -25,6 +25,7 @@ static void to_public_stat(const filestat_t *in, struct stat *out)
   out->st_dev = in->dev;
   out->st_ino = in->ino;
   out->st_nlink = in->nlink;
+  out->st_mode = 0;
   static_assert(sizeof(off_t) == sizeof(filesize_t));
   out->st_size = (off_t)in->size;
   timestamp_to_timespec(in->atim, &out->st_atime, &out->st_atime_ns);
-- 
2.43.0


From d5acee9480d754be237d2301ff9a81558dd14ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 42/50] fix: sscanf took byte 0xFF for the end of the string

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 49cbebf..2d9c314 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -614,7 +614,7 @@ typedef int(*in_fct_t)(void *data, size_t idx, size_t maxlen, bool get);
 /* internal buffer input */
 static int _in_buffer(void *data, size_t idx, size_t maxlen, bool get)
 {
-  if (idx < maxlen) return ((char*)data)[idx];
+  if (idx < maxlen) return ((unsigned char*)data)[idx];
   return EOF;
 }
 
-- 
2.43.0


From ae75dd2d593050cf6a5ff232cc24974bec313c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 43/50] fix: scanf reported end of file for a text that does
 not match

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 2d9c314..ea1175b 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -998,7 +998,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
           }
         }
         if (!i || (t == 'c' && i != width)) 
-          return matchc ? matchc : EOF;
+          return matchc;
         if (t != 'c') {
           if (s) s[i] = 0;
         }
-- 
2.43.0


From 12a9d2d01222a9ed2231b7dd2f0b2649c254c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 44/50] fix: scanf rejected a signed zero for %i and %x

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index ea1175b..d51ef01 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -667,7 +667,7 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '0') {
-        (*in)(data, (*pidx)++, maxlen, true);
+        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         ++dc;
         if (*pidx >= maxidx) goto stop;
         c = (*in)(data, *pidx, maxlen, false);
@@ -682,7 +682,7 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '0') {
-        (*in)(data, (*pidx)++, maxlen, true);
+        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         ++dc;
         if (*pidx >= maxidx) goto stop;
         c = (*in)(data, *pidx, maxlen, false);
-- 
2.43.0


From 9e34fece2507eace9133c95356624787fcfb0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 45/50] fix: scanf ignored the field width for inf and nan

---
 lib/src/stdio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index d51ef01..67724cd 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -741,10 +741,10 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
 }
 
 /* internal scanner for special values */
-static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t *pidx)
+static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t maxidx, size_t *pidx)
 {
   int n = 0; bool full = true;
-  while (*s) {
+  while (*s && *pidx < maxidx) {
     int c = (*in)(data, *pidx, maxlen, false);
     if (c == EOF) break;
     if (*s == '*') {
@@ -779,11 +779,11 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
     if (c == 'i' || c == 'I') {
-      int n = _atos(in, data, maxlen, "INFINITY", pidx);
+      int n = _atos(in, data, maxlen, "INFINITY", maxidx, pidx);
       if (n == 3 || n == 8) return neg ? -HUGE_VAL : HUGE_VAL;
       errno = EILSEQ; return 0;
     } else if (c == 'n' || c == 'N') {
-      int n = _atos(in, data, maxlen, "NAN(*)", pidx);
+      int n = _atos(in, data, maxlen, "NAN(*)", maxidx, pidx);
       if (n >= 3) return -HUGE_VAL + HUGE_VAL; /* fixme */
       errno = EILSEQ; return 0;
     }
-- 
2.43.0


From 0bcf819cdb02157bfddc6fec4c1984e7ab8fbb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 46/50] fix: stdlib.h could not be included twice

---
 lib/include/stdlib.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/stdlib.h b/lib/include/stdlib.h
index cf06f17..fdceff2 100644
--- a/lib/include/stdlib.h
+++ b/lib/include/stdlib.h
@@ -1,5 +1,7 @@
 /* General utilities */
 
+#pragma once
+
 #define EXIT_FAILURE 1
 #define EXIT_SUCCESS 0
 #define MB_CUR_MAX 4 /* utf-8 */
-- 
2.43.0


From 33d68712de1fd384790c0585d325360672ec3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 47/50] fix: scanf consumed an exponent without a number before
 it

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 67724cd..3bd1a42 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -819,7 +819,7 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     if (len < SCANF_ATON_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
-      if (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E')) {
+      if (dc && (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E'))) {
         buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         if (len < SCANF_ATON_BUFFER_SIZE - 1) {
           if (*pidx >= maxidx) goto stop;
-- 
2.43.0


From 318a406196544c8f925284182330f16e7f8bfa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 48/50] fix: scanf rejected inf and nan after an earlier error

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 3bd1a42..9cb831e 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -780,11 +780,11 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     c = (*in)(data, *pidx, maxlen, false);
     if (c == 'i' || c == 'I') {
       int n = _atos(in, data, maxlen, "INFINITY", maxidx, pidx);
-      if (n == 3 || n == 8) return neg ? -HUGE_VAL : HUGE_VAL;
+      if (n == 3 || n == 8) { errno = 0; return neg ? -HUGE_VAL : HUGE_VAL; }
       errno = EILSEQ; return 0;
     } else if (c == 'n' || c == 'N') {
       int n = _atos(in, data, maxlen, "NAN(*)", maxidx, pidx);
-      if (n >= 3) return -HUGE_VAL + HUGE_VAL; /* fixme */
+      if (n >= 3) { errno = 0; return -HUGE_VAL + HUGE_VAL; } /* fixme */
       errno = EILSEQ; return 0;
     }
     while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-- 
2.43.0


From b9242b3700ed122a9d8dd22b6b7c81caa2f77717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 49/50] fix: a line splice inside a token re-read the character
 before it

---
 p.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p.c b/p.c
index 79959d9..eb28af2 100644
--- a/p.c
+++ b/p.c
@@ -231,6 +231,7 @@ static int fetchline(pws_t *pw, char **ptbase, int *pendi)
       pw->inateof = true;
     } else {
       size_t pos = buflen(pp) + pw->discarded;
+      bool spliced = !bufempty(pp) && *(char*)bufbk(pp) != '\n';
       unsigned long ch = 0; char *ln = line; 
       while (*ln) {
         ch = unutf8((unsigned char **)&ln);
@@ -246,6 +247,10 @@ static int fetchline(pws_t *pw, char **ptbase, int *pendi)
       *(size_t*)bufnewbk(&pw->lsposs) = pos;
       *ptbase = cbdata(pp);
       *pendi = (int)cblen(pp);
+      if (spliced) { /* text goes on with no line break */
+        if (pw->curi < *pendi) c = (*ptbase)[pw->curi++];
+        else c = fetchline(pw, ptbase, pendi);
+      }
     }
   }
   return c;  
-- 
2.43.0


From 6a7b8203c8bdd499b22ba9eecd3e37eac166e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 50/50] fix: indented directives were not seen in an inactive
 conditional group

---
 p.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index eb28af2..46b76ad 100644
--- a/p.c
+++ b/p.c
@@ -4140,7 +4140,8 @@ static bool parse_cc_inactive(pws_t *pw, bool gotactive)
         else reprintf(pw, pw->pos, "can't skip token inside inactive cc block");
         bol = false; dropt(pw); continue;
       case TT_WHITESPACE:
-        bol = (pw->tokstr[0] == '\n'); dropt(pw); continue;
+        if (pw->tokstr[0] == '\n') bol = true; /* blanks and comments do not change it */
+        dropt(pw); continue;
       case TT_HASH:
         if (bol) {
           int startpos = pw->pos;
-- 
2.43.0

