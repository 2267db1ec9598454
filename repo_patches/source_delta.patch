From 36cd1bc8a939c51df8bd2deae6bd91582817ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 01/93] fix: rex pattern characters above 0x7F no longer index
 ctype tables or match ASCII operators

---
 rex/rexcompiler.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8e465c6..d0a7669 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -70,9 +70,25 @@ static int rex_compiler_isspace(int c)
 }
 
 
+/*
+ * The token can be any unicode character, so it can't be passed directly
+ * to the ctype functions, which are only defined for unsigned char.
+ */
+static int rex_compiler_isdigit(int c)
+{
+	return (c >= '0' && c <= '9') ? 1 : 0;
+}
+
+
+static int rex_compiler_isxdigit(int c)
+{
+	return (rex_compiler_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) ? 1 : 0;
+}
+
+
 static int rex_compiler_isblank(rexcompiler_t *co, int c)
 {
-	return r_strchr(co->blankchars, c) ? 1 : 0;
+	return (c > 0 && c < 0x80 && r_strchr(co->blankchars, c)) ? 1 : 0;
 }
 
 
@@ -226,10 +242,10 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 		} else {
 			base = 8;
 		}
-	} else if (!isdigit(co->token)) {
+	} else if (!rex_compiler_isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && rex_compiler_isxdigit(co->token)) || (base == 8 && rex_compiler_isdigit(co->token) && co->token != '8' && co->token != '9') || rex_compiler_isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -361,9 +377,9 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	int i = 0;
 
 	rex_compiler_getnbtok(co);		/* eat '{' */
-	if (!isdigit(co->token))
+	if (!rex_compiler_isdigit(co->token))
 		return -1;
-	for (i = 0; isdigit(co->token); i++) {
+	for (i = 0; rex_compiler_isdigit(co->token); i++) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i] = co->token;
@@ -379,8 +395,8 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	if (co->token == ',') {
 		rex_compiler_getnbtok(co);		/* eat ',' */
 		co->tocount = (size_t)-1;
-		if (isdigit(co->token)) {
-			for (i = 0; isdigit(co->token); i++) {
+		if (rex_compiler_isdigit(co->token)) {
+			for (i = 0; rex_compiler_isdigit(co->token); i++) {
 				if (i >= REX_CONV_BUFSIZE)
 					return -1;
 				convbuf[i] = co->token;
@@ -408,7 +424,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	rexstate_t *srcstate;
 	size_t nstates, i;
 
-	if (strchr("{}*?+]\n\r)", co->token)) {
+	if (co->token > 0 && co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
 		/*
 		 * Unexpected char.
 		 */
-- 
2.43.0


From 38cf655a8cf7015ee3cf2377b1167f4e232680b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 02/93] fix: rex nested repeat counts, e.g. (a{2}){3}, keep the
 outer count

---
 rex/rexcompiler.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index d0a7669..ee917f6 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -496,26 +496,28 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 		}
 		do {
 			size_t count;
+			size_t fromcount = co->fromcount;	/* Compiling a nested {n,m} overwrites the counts in co */
+			size_t tocount = co->tocount;
 			const char *saved_start = co->start;
 			const char *saved_end = co->end;
 			const char *saved_ptr = co->ptr;
 			const char *saved_tokenptr = co->tokenptr;
 			int saved_token = co->token;
-			for (count = 1; count < co->tocount; count++) {
+			for (count = 1; count < tocount; count++) {
 				co->start = fstart;
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
 				rex_compiler_catexpression(co, rexdb);
 				frag2 = FPOP(co);
-				if (co->tocount == (size_t)-1 && count >= co->fromcount) {
+				if (tocount == (size_t)-1 && count >= fromcount) {
 					frag2 = rex_fragment_mop(rexdb, frag2);
 					frag1 = FPOP(co);
 					frag1 = rex_fragment_cat(rexdb, frag1, frag2);
 					FPUSH(co, frag1);
 					break;
 				}
-				if (count >= co->fromcount) {
+				if (count >= fromcount) {
 					frag2 = rex_fragment_opt(rexdb, frag2);
 				}
 				frag1 = FPOP(co);
-- 
2.43.0


From 92ea82fee33c2bf6b584022f604b4858ae8d2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 03/93] fix: rex reversed character ranges are inserted by
 their low end, keeping the transitions sorted

---
 rex/rextransition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..449605a 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -86,7 +86,7 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 	while (max > min) {
 		mid = (min + max)/2;
 		t = (rex_transition_t *)r_array_slot(trans, mid);
-		if (c1 >= t->lowin) {
+		if (ntrans.lowin >= t->lowin) {
 			min = mid + 1;
 		} else {
 			max = mid;
-- 
2.43.0


From 4d1e0d75dc943101d2c17d6a7160b6b05d2ba41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 04/93] fix: rex {0} repeat neither leaks its fragment nor
 unescapes the token that follows it

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index ee917f6..bb6e4b6 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -477,13 +477,13 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			 * Special case
 			 */
 			frag = FPOP(co);
+			rex_fragment_destroy(frag);
 			for (i = nstates; i < r_array_length(rexdb->states); i++) {
 				srcstate = rex_db_getstate(rexdb, i);
 				rex_state_destroy(srcstate);
 			}
 			r_array_setlength(rexdb->states, nstates);
 			srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-			rex_compiler_adjustescapedtoken(co);
 			rex_state_addtransition_e(srcstate, -1);
 			frag = rex_fragment_create(srcstate);
 			FPUSH(co, frag);
-- 
2.43.0


From 666444ff9799c28a203f568023818d87fb28395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 05/93] fix: rex byte encoding match treats bytes above 0x7F as
 characters 0x80-0xFF

---
 rex/rexregex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..644f6ac 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -172,7 +172,7 @@ static int rex_regex_match_byte(rexregex_t *regex, const char *start, const char
 	rexdfs_t *s;
 
 	while (input < end) {
-		wc = *input;
+		wc = (unsigned char)*input;
 		REX_DFA_NEXT(dfa, nstate, wc, &nstate);
 		if (nstate == 0)
 			break;
-- 
2.43.0


From def7105a0f5d45582c0ea3fc0856dd39fd03bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 06/93] fix: rex_regex_create returns NULL, not a freed object,
 for an invalid expression

---
 rex/rexregex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index 644f6ac..e719de5 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -81,8 +81,8 @@ rexregex_t *rex_regex_create(const char *str, unsigned int size)
 	rexregex_t *regex;
 
 	regex = (rexregex_t*)r_object_create(sizeof(*regex));
-	rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
-	return regex;
+	/* On failure rex_regex_init destroys the object and returns NULL */
+	return (rexregex_t*)rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
 }
 
 
-- 
2.43.0


From b179c2c6e41faaebe17be1f864fbae83af0687cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 07/93] fix: rex rejects empty alternatives and unbalanced ')'
 instead of crashing or ignoring the rest

---
 rex/rexcompiler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index bb6e4b6..82ed16e 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -549,7 +549,8 @@ static int rex_compiler_catexpression(rexcompiler_t *co, rexdb_t *rexdb)
 		case REX_TOKEN_EOF:
 		case '|':
 		case ')':
-			return 0;
+			/* An empty alternative leaves nothing on the stack */
+			return nfactors ? 0 : -1;
 		}
 		if (rex_compiler_qfactor(co, rexdb) < 0)
 			return -1;
@@ -608,6 +609,8 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
 		goto error;
+	if (co->token != REX_TOKEN_EOF)
+		goto error; /* Unbalanced ')' */
 	frag1 = FPOP(co);
 	frag2 = rex_fragment_create(rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_ACCEPT)));
 	rex_state_setuserdata(REX_FRAG_STATE(frag2), userdata);
-- 
2.43.0


From fd4d4ba98993854890e8e8f00db3cbfb846b7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 08/93] fix: rex_db_setblanks reads only the given number of
 bytes

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 82ed16e..a7f6c46 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -97,7 +97,7 @@ long rex_compiler_setblanks(rexcompiler_t *co, const char *str, size_t size)
 	if (size + 1 > sizeof(co->blankchars))
 		return -1;
 	r_memset(co->blankchars, 0, sizeof(co->blankchars));
-	r_strncpy(co->blankchars, str, sizeof(co->blankchars) - 1);
+	r_memcpy(co->blankchars, str, size);
 	return 0;
 }
 
-- 
2.43.0


From 4f721124f9276d6e0784e572b65d2712fb14078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 09/93] fix: rexcc does not read its context after destroying
 it

---
 rexcc/rexccmain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 4ba073e..78b851d 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -100,6 +100,7 @@ int main(int argc, const char *argv[])
 	rexcc_t *pCC;
 	int i, ret = 0, dumponly = 0;
 	int withsubstates = 0;
+	int showtime = 0;
 	FILE *devnull = NULL;
 	rexdb_t *tempdb = NULL;
 	FILE *cfile = stdout;
@@ -203,8 +204,9 @@ int main(int argc, const char *argv[])
 	}
 
 end:
+	showtime = pCC->showtime;
 	rex_cc_destroy(pCC);
-	if (pCC->showtime) {
+	if (showtime) {
 		fprintf(stdout, "memory: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem()/1024, (long)r_debug_get_allocmem());
 	}
 	if (devnull)
-- 
2.43.0


From 42188ea98538f87082de01db77529ee660c5e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 10/93] fix: rexcc reports an invalid or unreadable grammar
 with a non-zero exit code

---
 rexcc/rexcc.c     | 5 ++++-
 rexcc/rexccmain.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 9e800b1..5f7e294 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -475,7 +475,10 @@ int rex_cc_load_buffer(rexcc_t *pCC, rbuffer_t *text)
 	pCC->input = text->s;
 	pCC->end = text->s + text->size;
 	r_array_setlength(pCC->parseinfo, 0);
-	if (rex_cc_parse(pCC) == 0) {
+	if (rex_cc_parse(pCC) < 0) {
+		fprintf(stdout, "Line %d, (%s) Invalid grammar.\n", rex_cc_getlineno(pCC, pCC->input), "Error");
+		return -1;
+	} else {
 		for (i = 0; i < r_array_length(pCC->parseinfo); i++) {
 			pi = (struct parseinfo_s *)r_array_slot(pCC->parseinfo, i);
 			if (rex_cc_load_pattern(pCC, &pi->regex, i) < 0) {
diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 78b851d..ee4a200 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -168,6 +168,7 @@ int main(int argc, const char *argv[])
 					/*
 					 * Error
 					 */
+					ret = 1;
 				}
 				if (pCC->startuid >= 0) {
 					tempdb = rex_db_createdfa(pCC->nfa, pCC->startuid);
@@ -184,13 +185,15 @@ int main(int argc, const char *argv[])
 				/*
 				 * Error
 				 */
+				fprintf(stderr, "Failed to read file: %s\n", argv[i]);
+				ret = 1;
 			}
 			break;
 		} else if (argv[i][1] == 'o'){
 			++i;
 		}
 	}
-	if (dumponly == 1) {
+	if (dumponly == 1 && pCC->dfa) {
 		for (i = 0; i < (int)pCC->dfa->nstates; i++) {
 			rex_dfa_dumpstate(pCC->dfa, i);
 		}
-- 
2.43.0


From e1323e84eebbad1ac031d69eebf0c6e9b8b513af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 11/93] fix: rexcc rule ending in an escaped backslash does not
 swallow the next line

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 5f7e294..eeffb3b 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -58,7 +58,7 @@ static struct tokeninfo_s tokens[] = {
 		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n]|\\\\\")*\")+|'.+'"},
 		{REXCC_TOKEN_SPACE,			"space",		"[ \\t]+"},
 		{REXCC_TOKEN_CR,			"cr ",			"[\\r]?[\\n]"},
-		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\[\\r]?[\\n]|.)+\\r?\\n"},
+		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\[\\r]?[\\n]|\\\\.|[^\\\\\\n])+\\r?\\n"},
 		{0, NULL, NULL},
 };
 
-- 
2.43.0


From b967e7b11728640fc174810e8fdafb08c73f6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 12/93] fix: rexgrep does not read its context after destroying
 it

---
 rexgrep/rexgrep-main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 95b9715..1cfcda8 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -111,6 +111,7 @@ rbuffer_t *grep_buffer_loadfile(FILE *pFile)
 int main(int argc, const char *argv[])
 {
 	int ret, scanned = 0, i;
+	int showtime = 0;
 	rexgrep_t *pGrep;
 	rarray_t *buffers;
 	const char *binfile = NULL;
@@ -376,9 +377,10 @@ end:
 					(unsigned long long) 1000 * sckb / milsec);
 		}
 	}
+	showtime = pGrep->showtime;
 	rex_grep_destroy(pGrep);
 #ifdef R_DEBUG_MEMALLOC
-	if (pGrep->showtime) {
+	if (showtime) {
 		fprintf(stdout, "\tMemory Allocator: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem() / 1024, (long)r_debug_get_allocmem());
 	}
 #endif
-- 
2.43.0


From e3343b1fa5a2717b208643dcf0b6599572bf9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 13/93] fix: rexgrep -s string is not also searched as a path

---
 rexgrep/rexgrep-main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 1cfcda8..9f9e7bc 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -329,7 +329,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rex_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b' || argv[i][1] == 's'){
 			++i;
 		}
 		
-- 
2.43.0


From 509fe43aaecdff190d21b0b302fef8d5a012235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 14/93] fix: directory walk does not read before its path
 buffer for a relative directory

---
 rexgrep/unix/fsenum.c | 2 +-
 rpagrep/unix/fsenum.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexgrep/unix/fsenum.c b/rexgrep/unix/fsenum.c
index 0c98d5d..d31cfed 100644
--- a/rexgrep/unix/fsenum.c
+++ b/rexgrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
diff --git a/rpagrep/unix/fsenum.c b/rpagrep/unix/fsenum.c
index 0c98d5d..d31cfed 100644
--- a/rpagrep/unix/fsenum.c
+++ b/rpagrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
-- 
2.43.0


From 5707e64911327865439d4800b057fd57152c9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 15/93] fix: r_array_move does not read its source past the end
 of the array

---
 rlib/rarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rarray.c b/rlib/rarray.c
index e7c980f..ed51e0d 100644
--- a/rlib/rarray.c
+++ b/rlib/rarray.c
@@ -201,7 +201,7 @@ void *r_array_slot_expand(rarray_t *array, size_t index)
 int r_array_move(rarray_t *array, size_t dst, size_t src, size_t size)
 {
 	size_t i;
-	if ((dst + size) > r_array_length(array))
+	if ((dst + size) > r_array_length(array) || (src + size) > r_array_length(array))
 		return -1;
 	if (dst == src)
 		return 0;
-- 
2.43.0


From ef4b9271df26f12785f735792e5090911174b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 16/93] fix: r_harray_taillookup_s returns the last entry of a
 name, not the first

---
 rlib/rharray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rharray.c b/rlib/rharray.c
index 58398c0..d42ffa4 100644
--- a/rlib/rharray.c
+++ b/rlib/rharray.c
@@ -213,7 +213,7 @@ long r_harray_taillookup(rharray_t *harray, const char *name, unsigned int names
 
 long r_harray_taillookup_s(rharray_t *harray, const char *name)
 {
-	return r_harray_lookup(harray, name, r_strlen(name));
+	return r_harray_taillookup(harray, name, r_strlen(name));
 }
 
 
-- 
2.43.0


From 93f7bb7fdaf5215a718186f575cea9139a9872fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 17/93] fix: r_map_add without a value zeroes a reused slot as
 it does a new one

---
 rlib/rmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlib/rmap.c b/rlib/rmap.c
index adbe23a..320cff4 100644
--- a/rlib/rmap.c
+++ b/rlib/rmap.c
@@ -187,6 +187,8 @@ size_t r_map_add(rmap_t *map, const char *name, size_t namesize, rconstpointer p
 	node = r_map_getfreenode(map, name, namesize);
 	if (pval)
 		r_memcpy(node->value.data, pval, map->elt_size);
+	else
+		r_memset(node->value.data, 0, map->elt_size);
 	node->nbucket = (r_map_rstring_hash(node->key) & r_map_hashmask(map));
 	r_list_addt(&map->hash[node->nbucket], &node->hash);
 	r_list_addt(&map->active, &node->active);
-- 
2.43.0


From 92734a3593275e05af53c3f29081de4edae6c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 18/93] fix: hash keys of a given size are compared in full,
 not up to the first NUL

---
 rlib/rhash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rlib/rhash.c b/rlib/rhash.c
index af993a5..fe2b893 100644
--- a/rlib/rhash.c
+++ b/rlib/rhash.c
@@ -18,6 +18,7 @@
  *  Martin Stoilov <martin@rpasearch.com>
  */
 
+#include <string.h>
 #include "rlib/rmem.h"
 #include "rlib/rstring.h"
 #include "rlib/rhash.h"
@@ -144,7 +145,7 @@ rboolean r_hash_rstrequal(rconstpointer key1, rconstpointer key2)
 	const rstr_t *k1 = (const rstr_t *)key1;
 	const rstr_t *k2 = (const rstr_t *)key2;
 
-	return (k1->size == k2->size && r_strncmp((const char*)k1->str, (const char*)k2->str, k1->size) == 0) ? TRUE : FALSE;
+	return (k1->size == k2->size && memcmp(k1->str, k2->str, k1->size) == 0) ? TRUE : FALSE;
 }
 
 
@@ -173,7 +174,7 @@ rboolean r_hash_rstring_equal(rconstpointer key1, rconstpointer key2)
 	const rstring_t *k1 = (const rstring_t *)key1;
 	const rstring_t *k2 = (const rstring_t *)key2;
 
-	return (k1->size == k2->size && r_strncmp((const char*)k1->str, (const char*)k2->str, k1->size) == 0) ? TRUE : FALSE;
+	return (k1->size == k2->size && memcmp(k1->str, k2->str, k1->size) == 0) ? TRUE : FALSE;
 }
 
 
-- 
2.43.0


From 0bcee86652c4861de5616f0e6900d146052eb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 19/93] fix: r_ref_create keeps the requested reference type

---
 rlib/rref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rref.c b/rlib/rref.c
index f474976..16297a6 100644
--- a/rlib/rref.c
+++ b/rlib/rref.c
@@ -36,7 +36,7 @@ rref_t *r_ref_create(rref_type_t type)
 {
 	rref_t *ref;
 	ref = (rref_t*)r_object_create(sizeof(*ref));
-	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, RREF_TYPE_SHARED);
+	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, type);
 	return ref;
 }
 
-- 
2.43.0


From 7433cffe38b95afd94b8e284c15a39e03f2f53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 20/93] fix: r_string_create_from_double converts doubles of
 any magnitude

---
 rlib/rstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rstring.c b/rlib/rstring.c
index c5d1dd3..de52648 100644
--- a/rlib/rstring.c
+++ b/rlib/rstring.c
@@ -284,7 +284,7 @@ rstring_t *r_string_cat(rstring_t *str1, rstring_t *str2)
 
 rstring_t *r_string_create_from_double(double d)
 {
-	char temp[128];
+	char temp[512];
 	int size;
 
 	r_memset(temp, 0, sizeof(temp));
-- 
2.43.0


From 8993d52c0fc60576ea5ed6d20cbe23a84379793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 21/93] fix: spin lock release is an ordered atomic store, as
 are atomic get and set

---
 arch/unix/rtypes.h | 4 ++--
 rlib/rspinlock.c   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arch/unix/rtypes.h b/arch/unix/rtypes.h
index 5de94a4..90ccc53 100644
--- a/arch/unix/rtypes.h
+++ b/arch/unix/rtypes.h
@@ -59,10 +59,10 @@ typedef struct {ruint32 p1; ruint32 p2;} rpair_t;
 	do { res = __sync_fetch_and_sub(ptr, val); } while (0)
 
 #define R_ATOMIC_GET(ptr, res) \
-	do { __sync_synchronize (); res = *ptr; } while (0)
+	do { res = __atomic_load_n(ptr, __ATOMIC_SEQ_CST); } while (0)
 
 #define R_ATOMIC_SET(ptr, val) \
-	do { *ptr = val; __sync_synchronize (); } while (0)
+	do { __atomic_store_n(ptr, val, __ATOMIC_SEQ_CST); } while (0)
 
 #define R_DEBUG_BRAKE assert(0)
 #define R_ASSERT(__a__) do { if (!(__a__)) R_DEBUG_BRAKE; } while (0)
diff --git a/rlib/rspinlock.c b/rlib/rspinlock.c
index e098a69..30f04c9 100644
--- a/rlib/rspinlock.c
+++ b/rlib/rspinlock.c
@@ -41,7 +41,7 @@ void r_spinlock_lock(rspinlock_t *lock)
 
 void r_spinlock_unlock(rspinlock_t *lock)
 {
-	*lock = 0;
+	r_atomic_set(lock, 0);
 }
 
 
-- 
2.43.0


From dd38ad72e0d3d4dc95ec9280c59f1a078e6e0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 22/93] fix: right recursion after a group, '^' or '-'
 expression is not taken for left recursion

---
 rpa/rpadbex.c         | 11 +++++++++--
 rpa/rpaoptimization.c | 37 +++++++++++++++++++++++++++++++++++++
 rpa/rpaoptimization.h |  6 ++++++
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83347c6..71130b7 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -26,6 +26,7 @@
 #include "rlib/rmem.h"
 #include "rlib/rutf.h"
 #include "rpa/rpabitmap.h"
+#include "rpa/rpaoptimization.h"
 #include "rpa/rpadbexpriv.h"
 #include "rpa/rpadbex.h"
 #include "rpa/rpastatpriv.h"
@@ -1124,6 +1125,7 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 	const char *name;
 	long i;
 	int ret = 0;
+	int parallel;
 	rparecord_t *prec;
 
 	if (parent == loopto && inderction > 0)
@@ -1136,6 +1138,7 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 
 	if (!(prec = (rparecord_t *)r_array_slot(dbex->records, parent)))
 		return 0;
+	parallel = (prec->ruleuid == RPA_PRODUCTION_OROP || prec->ruleuid == RPA_PRODUCTION_NOROP || prec->ruleuid == RPA_PRODUCTION_MINOP || prec->ruleuid == RPA_PRODUCTION_CLS);
 	if (prec->ruleuid == RPA_PRODUCTION_AREF || prec->ruleuid == RPA_PRODUCTION_CREF)
 		i = parent;
 	else
@@ -1165,8 +1168,12 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 				break;
 		}
 
-		if ((prec->usertype & RPA_MATCH_OPTIONAL) == 0 && (prec->ruleuid == RPA_PRODUCTION_CREF || prec->ruleuid == RPA_PRODUCTION_AREF ||
-				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR))
+		/*
+		 * What follows an expression that always consumes input is not
+		 * in a left recursive position. The branches of an OROP and of a
+		 * MINOP are different: they all start at the same input position.
+		 */
+		if (!parallel && rpa_optimization_consumes(dbex->records, i))
 			break;
 
 	}
diff --git a/rpa/rpaoptimization.c b/rpa/rpaoptimization.c
index b253632..66c5864 100644
--- a/rpa/rpaoptimization.c
+++ b/rpa/rpaoptimization.c
@@ -20,6 +20,7 @@
 
 #include "rpa/rpaoptimization.h"
 #include "rpa/rpaparser.h"
+#include "rpa/rpavm.h"
 
 
 static long rpa_copy_handler(rarray_t *records, long rec, rpointer userdata)
@@ -86,3 +87,39 @@ void rpa_optimiztion_orop(rarray_t *records, long orop)
 
 	r_array_destroy(temp);
 }
+
+
+int rpa_optimization_consumes(rarray_t *records, long rec)
+{
+	rparecord_t *prec = rpa_record_get(records, rec);
+	long child;
+
+	if (!prec || (rpa_record_getusertype(records, rec) & RPA_MATCH_OPTIONAL))
+		return 0;
+	if (rpa_record_getusertype(records, rec) & RPA_MATCH_MULTIPLE)
+		return 1;
+	switch (prec->ruleuid) {
+	case RPA_PRODUCTION_CHAR:
+	case RPA_PRODUCTION_SPECIALCHAR:
+	case RPA_PRODUCTION_CLS:
+	case RPA_PRODUCTION_AREF:
+	case RPA_PRODUCTION_CREF:
+	case RPA_PRODUCTION_NOTOP:
+	case RPA_PRODUCTION_OROP:
+		return 1;
+	case RPA_PRODUCTION_MINOP:
+		child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_START);
+		return (child >= 0) ? rpa_optimization_consumes(records, child) : 0;
+	case RPA_PRODUCTION_REQOP:
+	case RPA_PRODUCTION_BRACKETEXP:
+	case RPA_PRODUCTION_ALTBRANCH:
+	case RPA_PRODUCTION_NEGBRANCH:
+		for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_START); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_START)) {
+			if (rpa_optimization_consumes(records, child))
+				return 1;
+		}
+		return 0;
+	default:
+		return 0;
+	}
+}
diff --git a/rpa/rpaoptimization.h b/rpa/rpaoptimization.h
index f4a07aa..a4ee1ea 100644
--- a/rpa/rpaoptimization.h
+++ b/rpa/rpaoptimization.h
@@ -30,6 +30,12 @@ extern "C" {
 
 void rpa_optimiztion_orop(rarray_t *records, long orop);
 
+/*
+ * Return non-zero if every match of the expression rec consumes at least one
+ * character, zero if it might match without consuming any input.
+ */
+int rpa_optimization_consumes(rarray_t *records, long rec);
+
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 2ca3d3b4d9cda021fb598c6e906c416db88018d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 23/93] fix: first-character bitmap of a sequence looks past a
 group that may match nothing

---
 rpa/rpabitmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0f6eae8..4b0ee22 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -19,6 +19,7 @@
  */
 
 #include "rpa/rpabitmap.h"
+#include "rpa/rpaoptimization.h"
 #include "rlib/rutf.h"
 #include "rlib/rmem.h"
 #include "rpa/rpaparser.h"
@@ -150,7 +151,7 @@ static long rpa_bitmap_set_namedrule(rarray_t *records, rparecord_t *record, lon
 		for (child = rpa_recordtree_next(records, child, RPA_RECORD_END); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_END)) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(childrecord));
-			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
+			if (rpa_optimization_consumes(records, child))
 				break;
 		}
 	}
@@ -166,7 +167,7 @@ static long rpa_bitmap_set_expression(rarray_t *records, rparecord_t *record, lo
 		for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_END)) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(childrecord));
-			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
+			if (rpa_optimization_consumes(records, child))
 				break;
 		}
 	}
-- 
2.43.0


From 42af6ea2cbc102c9af0311a6b1bd37723d158f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 24/93] fix: first-character bitmap of an indirectly left
 recursive rule includes the other rules of the loop

---
 rpa/rpabitmap.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 4b0ee22..b73131c 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -263,18 +263,43 @@ static long rpa_bitmap_set_numrng(rarray_t *records, rparecord_t *record, long r
 }
 
 
+static int rpa_bitmap_isselfref(rpadbex_t *dbex, rarray_t *records, rparecord_t *name, long rec)
+{
+	rparecord_t *record;
+	long parent;
+
+	for (parent = rec; parent >= 0; parent = rpa_recordtree_parent(records, parent, RPA_RECORD_START)) {
+		record = rpa_record_get(records, parent);
+		if (record->ruleuid == RPA_PRODUCTION_NAMEDRULE) {
+			record = rpa_record_get(records, rpa_recordtree_firstchild(records, parent, RPA_RECORD_END));
+			return rpa_dbex_lookup(dbex, record->input, record->inputsiz) == rpa_dbex_lookup(dbex, name->input, name->inputsiz);
+		}
+	}
+	return 0;
+}
+
+
 static long rpa_bitmap_set_ref(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
 {
 	rpa_bitmapcompiler_t *bc = (rpa_bitmapcompiler_t*)userdata;
-	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH) == 0) {
+	if (record->type & RPA_RECORD_END) {
 		long child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END);
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
-			rparule_t rid = rpa_dbex_lookup(bc->dbex, childrecord->input, childrecord->inputsiz);
-			if (rid >= 0) {
-				RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), rpa_dbex_getrulebitmap(bc->dbex, rid));
+			if (record->usertype & RPA_LOOP_PATH) {
+				/*
+				 * A rule that starts with itself starts with whatever its other
+				 * branches start with. In all other cases the rules on the path of
+				 * the left recursion can contribute characters of their own.
+				 */
+				if ((record->usertype & RPA_MATCH_OPTIONAL) || !rpa_bitmap_isselfref(bc->dbex, records, childrecord, rec))
+					RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
+			} else {
+				rparule_t rid = rpa_dbex_lookup(bc->dbex, childrecord->input, childrecord->inputsiz);
+				if (rid >= 0) {
+					RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), rpa_dbex_getrulebitmap(bc->dbex, rid));
+				}
 			}
-
 		}
 	}
 	return 0;
-- 
2.43.0


From ea8d2a31562500fdd8bd249c7315e9d281c750f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 25/93] fix: first-character bitmap does not reject a '-'
 expression that may match nothing

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 71130b7..0d36582 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -681,7 +681,7 @@ static int rpa_dbex_rh_minexp(rpadbex_t *dbex, long rec)
 	prec = rpa_dbex_record(dbex, rec);
 	R_ASSERT(prec);
 	rpa_dbex_debug_recordhead(dbex, rec);
-	rpa_compiler_exp_begin(dbex->co, prec->usertype & RPA_MATCH_MASK, RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(prec)));
+	rpa_compiler_exp_begin(dbex->co, prec->usertype & RPA_MATCH_MASK, rpa_optimization_consumes(records, rec) ? RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(prec)) : 0);
 	rpa_dbex_debug_recordtail(dbex, rec);
 	if (rpa_dbex_playreversechildrecords(dbex, rec) < 0)
 		return -1;
-- 
2.43.0


From 9b83ffaaaea1d98e8e8a30ce278a4d015ef6634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 26/93] fix: rpa_recordtree_copy copies the requested branch

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..ca4d13c 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From d89fbd7f9fbd4fa6a428862ed9ddd5def3b97c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 27/93] fix: rpagrep -a dumps only the records of the parse

---
 rpagrep/rpagrep.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 85cd361..6becb05 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -236,14 +236,10 @@ int rpa_grep_match(rpa_grep_t *pGrep, const char* buffer, unsigned long size)
 
 void dump_ast_records(rarray_t *records)
 {
-	long i = 0;
-	rparecord_t *prec = NULL;
+	long i;
 
-	prec = (rparecord_t *)r_array_slot(records, i);
-	while (prec->type & (RPA_RECORD_START | RPA_RECORD_END)) {
+	for (i = 0; i < rpa_records_length(records); i++)
 		rpa_record_dump(records, i, 0);
-		prec = (rparecord_t *)r_array_slot(records, ++i);
-	}
 }
 
 int rpa_grep_parse(rpa_grep_t *pGrep, const char* buffer, unsigned long size)
-- 
2.43.0


From c282fc78d45f293521c3db793c8728b489a2f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 28/93] fix: a failed branch of an indirect left recursion does
 not bar the branches after it

---
 rpa/rpacompiler.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5fd7847..2667648 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -735,7 +735,6 @@ int rpa_compiler_nonloopybranch_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R1, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R1, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R0, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, LR, XX, XX, 0));
-- 
2.43.0


From 416b7a89610a554d38d9df894894083969a10c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 29/93] fix: the tree of nested left recursions is built right

---
 rpa/rpastat.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..9e595db 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -165,7 +165,6 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 					erec = rpa_record_get(records, temp_start);
 					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
 						strayrecs_start = temp_start;
-						r_printf("----> strayrecs_start = %ld\n", strayrecs_start);
 						continue;
 					}
 					break;
@@ -173,8 +172,12 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 				strayrecs_size = strayrecs_end - strayrecs_start + 1;
 
 				for (j = 0; j < size; j++) {
-					srec = (rparecord_t *) r_array_slot(records, i + j);
-					if (!(srec->usertype & RPA_LOOP_PATH) || !(srec->type & RPA_RECORD_START)) {
+					rparecord_t *lrec = rpa_record_get(records, i + j);
+					/*
+					 * Only the records that start where the loop starts
+					 * enclose what the previous loop has matched.
+					 */
+					if (!lrec || !(lrec->usertype & RPA_LOOP_PATH) || !(lrec->type & RPA_RECORD_START) || lrec->input != srec->input) {
 						break;
 					}
 					ssize++;
-- 
2.43.0


From fa154d6f7f289cb0d2e67b64c8a268ede08750a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 30/93] fix: a left recursion that doesn't consume ends the
 loop

---
 rpa/rpacompiler.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 2667648..dd4d6ee 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -386,10 +386,12 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rpa_ruledef_t exp = r_array_pop(co->expressions, rpa_ruledef_t);
 
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R2, XX, XX, 0));		// Pop the accumulated ret, the loop ends if it doesn't grow
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.failidx, rvm_asm(RVM_BEQ, DA, XX, XX, 0));	// ------------- R_TOP is the same
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, R2, XX, 0));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.successidx, rvm_asm(RVM_BLEQ, DA, XX, XX, 0));	// ----- no progress
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {                                            //       |
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITEND, DA, R_OTP, R0, 0)); //      |
 	}
@@ -400,6 +402,11 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));	         //        <-------------------------------------
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
+	rvm_codegen_redefinelabel_default(co->cg, exp.successidx);	// No progress, return what was accumulated
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_ADD, R_TOP, R_OTP, R2, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, R2, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 
 	/*
 	 *  END FAILED:
-- 
2.43.0


From d83b0a1bc13f5cadde231eff4875140a1f58e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 31/93] fix: first-character bitmap of a left recursion inside
 a group

---
 rpa/rpabitmap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index b73131c..87ca3f3 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -266,10 +266,15 @@ static long rpa_bitmap_set_numrng(rarray_t *records, rparecord_t *record, long r
 static int rpa_bitmap_isselfref(rpadbex_t *dbex, rarray_t *records, rparecord_t *name, long rec)
 {
 	rparecord_t *record;
-	long parent;
+	long parent, alternatives = 0;
 
 	for (parent = rec; parent >= 0; parent = rpa_recordtree_parent(records, parent, RPA_RECORD_START)) {
 		record = rpa_record_get(records, parent);
+		/*
+		 * The alternatives of a nested group are not all the alternatives of the rule.
+		 */
+		if (record->ruleuid == RPA_PRODUCTION_OROP && ++alternatives > 1)
+			return 0;
 		if (record->ruleuid == RPA_PRODUCTION_NAMEDRULE) {
 			record = rpa_record_get(records, rpa_recordtree_firstchild(records, parent, RPA_RECORD_END));
 			return rpa_dbex_lookup(dbex, record->input, record->inputsiz) == rpa_dbex_lookup(dbex, name->input, name->inputsiz);
-- 
2.43.0


From d2cec4d20f78955697bd2546e178f9c137774fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 32/93] fix: a left recursion reached behind an optional
 expression doesn't run past the input

---
 rpa/rpacompiler.c | 4 ++--
 rpa/rpadbex.c     | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index dd4d6ee..01e86ff 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -395,7 +395,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {                                            //       |
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITEND, DA, R_OTP, R0, 0)); //      |
 	}
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R0, XX, 0));                                                //          |
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_TOP, XX, 0));                                             //          |
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R_OTP, XX, 0));                                          //          |
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.loopidx, rvm_asm(RVM_B, DA, XX, XX, 0));        //          |
 	rvm_codegen_redefinelabel_default(co->cg, exp.failidx);	                                                    //          |
@@ -423,7 +423,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	} else {
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	}
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_ADD, R_TOP, R_TOP, R3, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R3, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	return 0;
 }
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 0d36582..64201ba 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -981,9 +981,13 @@ static void rpa_dbex_rh_loopref(rpadbex_t *dbex, rparecord_t *prec)
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
 	rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
-	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_ADD, R_TOP, R_TOP, R_LOO, 0));
-	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, R_LOO, XX, 0));
+	/*
+	 * R_LOO is where the previous iteration has ended
+	 */
+	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_SUBS, R0, R_LOO, R_TOP, 0));
 	rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
+	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOV, R_TOP, R_LOO, XX, 0));
+	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, R0, XX, 0));
 	rpa_compiler_exp_end(dbex->co);
 }
 
-- 
2.43.0


From f959573be0a79d76f520d877dd51886a20f80b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 33/93] fix: a machine error is reported to the caller instead
 of aborting the process

---
 rvm/rvmcpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 26fe889..224f205 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,7 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
-#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; R_ASSERT(0); return; } while (0)
+#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
 #define BITS(__f__, __l__)  (BITR(__f__, __l__, R0)) | (BITR(__f__, __l__, R1)) | (BITR(__f__, __l__, R2)) | (BITR(__f__, __l__, R3)) | \
-- 
2.43.0


From a94d49d8c23f1b1102ab20a7c233326a24c98dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 34/93] fix: invalid input ranges and execution errors are
 reported

---
 rpa/rpastat.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 9e595db..f3714a1 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		r_memset(&stat->err, 0, sizeof(stat->err));
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_PARAM);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
@@ -126,17 +130,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		ret = rvm_cpu_exec(stat->cpu, prog, off);
 	}
 	if (ret < 0) {
-		if (!stat->cpu->error) {
-			if (stat->cpu->error) {
-				RPA_STAT_SETERROR_CODE(stat, stat->cpu->error);
-			} else {
-				/*
-				 * We should never get to here. Error have to be more
-				 * specific and set at the places they are detected.
-				 */
-				RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
-			}
-		}
+		/*
+		 * Keep the more specific error, if it is set where the error is detected.
+		 */
+		if (!stat->err.code)
+			RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
 		return -1;
 	}
 	ret = (long)RVM_CPUREG_GETL(stat->cpu, R0);
-- 
2.43.0


From 5144495e69e7c22f61d6ef8b07d54666d1201057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 35/93] fix: scanning goes on at the next character after an
 aborted attempt

---
 rpa/rpastat.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index f3714a1..7f80425 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -260,12 +260,8 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 			*where = input;
 			return ret;
 		}
-		if (topsiz == 0) {
-			ptp = &stat->instack[0];
-			input += ptp->wcsize;
-		} else {
-			input += 1;
-		}
+		ptp = &stat->instack[0];
+		input += ptp->wcsize;
 	}
 	return 0;
 }
-- 
2.43.0


From 0fab022656ae7b24d6d6b483db3bd34856887913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 36/93] fix: multiplication and division signs and other
 unpaired characters have no other case

---
 rlib/rcharconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rlib/rcharconv.c b/rlib/rcharconv.c
index 0d9ff57..1e0ace4 100644
--- a/rlib/rcharconv.c
+++ b/rlib/rcharconv.c
@@ -39,7 +39,9 @@ unsigned long r_charhigh(unsigned long c)
 
 unsigned long r_charicase(unsigned long c)
 {
-	if (c >= 'A' && c <= 'Z')
+	if (c == 0x00D7 || c == 0x00F7 || c == 0x00DF || c == 0x00FF || c == 0x0390 || c == 0x03B0)
+		return c;	/* No case, or the other case is not at the regular distance */
+	else if (c >= 'A' && c <= 'Z')
 		return c + ('a' - 'A');
 	else if (c >= 'a' && c <= 'z')
 		return c + ('A' - 'a');
-- 
2.43.0


From 9bb090929ee449a4b3b5616c898426a8e0633276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 37/93] fix: a rule that aborts on failure aborts at the end of
 the input too

---
 rpa/rpastat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 7f80425..4d3d9e3 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -295,6 +295,8 @@ rboolean rpa_stat_matchbitmap(rpastat_t *stat, long top, rpabitmap_t bitmap)
 	int ret = FALSE;
 	rpainput_t *in = &stat->instack[top];
 
+	if (bitmap == (rpabitmap_t)-1)
+		return TRUE;	/* Nothing is known about the first character, there might be none */
 	if (in->eof)
 		return 0;
 	if (stat->encoding & RPA_ENCODING_ICASE) {
-- 
2.43.0


From d7b999158dbbc31cf65579ee2b02bc3d0e4628a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 38/93] fix: a left recursive rule that aborts reports where it
 began

---
 rpa/rpacompiler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 01e86ff..7ef1cb6 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -401,6 +401,9 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_redefinelabel_default(co->cg, exp.failidx);	                                                    //          |
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));	         //        <-------------------------------------
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
+	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_ABORTONFAIL)) {
+		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_OTP, R0, 0));
+	}
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	rvm_codegen_redefinelabel_default(co->cg, exp.successidx);	// No progress, return what was accumulated
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));
@@ -419,7 +422,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_ABORTONFAIL)) {
-		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_OTP, R0, 0));
+		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_TOP, R0, 0));
 	} else {
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	}
-- 
2.43.0


From 69dfe3a6a06907aea8c26cb3c1e7ae626a4dd977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 39/93] fix: forget the loop marks of earlier closes when a
 database is reopened and extended

---
 rpa/rpadbex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 64201ba..d623d3b 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1231,6 +1231,12 @@ static void rpa_dbex_buildloopinfo(rpadbex_t *dbex)
 	rharray_t *rules = dbex->rules;
 	rpa_ruleinfo_t *info;
 
+	/*
+	 * Loops may have changed since the last time this database was closed.
+	 */
+	for (i = 0; i < r_array_length(dbex->records); i++)
+		((rparecord_t *)r_array_slot(dbex->records, i))->usertype &= ~(RPA_LOOP_PATH | RPA_NONLOOP_PATH);
+
 	for (i = 0; i < r_array_length(rules->members); i++) {
 		if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, i)) != NULL)
 			rpa_parseinfo_marklooppath(dbex, info->startrec);
-- 
2.43.0


From 380fde39853c8537928c759cbce59bc68518f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 40/93] fix: compile a reopened database without bitmaps and
 inline state of an earlier compilation

---
 rpa/rpadbex.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index d623d3b..9c799a4 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1937,6 +1937,7 @@ static int rpa_dbex_compile_rule(rpadbex_t *dbex, rparule_t rid)
 
 int rpa_dbex_compile(rpadbex_t *dbex)
 {
+	unsigned long i;
 	rparule_t rid;
 	rvm_codelabel_t *labelerr;
 
@@ -1954,6 +1955,15 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	dbex->co = rpa_compiler_create();
 	rpa_dbex_setemit(dbex, TRUE);
 
+	/*
+	 * Leave nothing behind from an earlier compilation: it may have failed
+	 * half way through, and its bitmaps may be out of date.
+	 */
+	r_array_setlength(dbex->recstack, 0);
+	r_array_setlength(dbex->inlinestack, 0);
+	for (i = 0; i < r_array_length(dbex->records); i++)
+		RPA_BITMAP_CLRALL(RPA_RECORD2BITMAP((rparecord_t *)r_array_slot(dbex->records, i)));
+
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
 			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
-- 
2.43.0


From 4cae365bce4f03da2630138db197b0c423f6157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 41/93] fix: a failed inlined rule of a left recursion fails
 the compilation

---
 rpa/rpadbex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 9c799a4..990c5de 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1030,11 +1030,13 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 				 * RPA_MATCH_MULTIPLE
 				 */
 				rpa_compiler_exp_begin(dbex->co, RPA_MATCH_OPTIONAL, 0);
-				rpa_dbex_playrecord(dbex, info->startrec);
+				if (rpa_dbex_playrecord(dbex, info->startrec) < 0)
+					return -1;
 				rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 				rpa_compiler_exp_end(dbex->co);
 			} else {
-				rpa_dbex_playrecord(dbex, info->startrec);
+				if (rpa_dbex_playrecord(dbex, info->startrec) < 0)
+					return -1;
 			}
 		}
 	} else {
-- 
2.43.0


From acab369c56a2b243e20e8d44437c40d5a61e6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 42/93] fix: records of inlined left recursive rules defined
 further down carry their rule id

---
 rpa/rpadbex.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 990c5de..a0be6bc 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1966,6 +1966,13 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	for (i = 0; i < r_array_length(dbex->records); i++)
 		RPA_BITMAP_CLRALL(RPA_RECORD2BITMAP((rparecord_t *)r_array_slot(dbex->records, i)));
 
+	/*
+	 * Left recursive rules are inlined in rules that might be defined before them,
+	 * so associate all the rules with their rid before any of them gets compiled.
+	 */
+	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid))
+		rpa_compiler_rulepref_set_ruleid_s(dbex->co, rpa_dbex_name(dbex, rid), rid);
+
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
 			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
-- 
2.43.0


From bd86d341d1983f053c197b1803c4b5a04dc09f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 43/93] fix: bitmaps of rules that refer to a rule with an
 abort directive further down let it abort

---
 rpa/rpadbex.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index a0be6bc..5b54636 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -56,6 +56,29 @@ static void rpa_dbex_buildbitmapinfo(rpadbex_t *dbex);
 static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid);
 static void rpa_dbex_bitmapinfo_set_all(rpadbex_t *dbex, rparule_t rid);
 
+/*
+ * The abort directive might come after the rules that refer to the aborting rule,
+ * their bitmaps have to let the rule fail too.
+ */
+static rboolean rpa_dbex_hasabortdirective(rpadbex_t *dbex, rparule_t rid)
+{
+	const char *rulename = rpa_dbex_name(dbex, rid);
+	unsigned long rulenamesize = rulename ? r_strlen(rulename) : 0;
+	const char *name;
+	unsigned long namesize;
+	unsigned long i;
+
+	for (i = 0; i < r_array_length(dbex->rules->members); i++) {
+		rpa_ruleinfo_t *info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, i);
+		if (info->type != RPA_RULEINFO_DIRECTIVE || rpa_record_get(dbex->records, info->startrec)->ruleuid != RPA_PRODUCTION_DIRECTIVEABORT)
+			continue;
+		if (rpa_dbex_rulename(dbex, info->startrec, &name, &namesize) >= 0 && namesize == rulenamesize && r_strncmp(name, rulename, namesize) == 0)
+			return TRUE;
+	}
+	return FALSE;
+}
+
+
 static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 {
 	rpa_bitmapcompiler_t bc;
@@ -65,11 +88,10 @@ static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 	r_memset(&bc, 0, sizeof(bc));
 	bc.dbex = dbex;
 	if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, rid)) != NULL) {
-		rpa_rulepref_t *rulepref = rpa_compiler_rulepref_lookup_s(dbex->co, rpa_dbex_name(dbex, rid));
 		rparecord_t *record = rpa_record_get(dbex->records, info->startrec);
 		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 		rpa_recordtree_walk(dbex->records, info->startrec, 0, rpa_bitmap_set, (rpointer)&bc);
-		if (rulepref && (rulepref->flags & RPA_RFLAG_ABORTONFAIL))
+		if (rpa_dbex_hasabortdirective(dbex, rid))
 			rpa_dbex_bitmapinfo_set_all(dbex, rid);
 	}
 }
-- 
2.43.0


From b868e461c54f11ae2d070b2cc89cc5e6a79a5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 44/93] fix: rule names of 256 and more characters no longer
 crash the compiler

---
 rpa/rpacompiler.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 7ef1cb6..9605f8e 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -308,27 +308,22 @@ void rpa_compiler_rulepref_set_s(rpa_compiler_t *co, const char *name, long rule
 }
 
 
-#define RPA_RULEBLOB_SIZE (RPA_RULENAME_MAXSIZE + sizeof(rpa_ruledata_t) + 2*sizeof(unsigned long))
-
 long rpa_compiler_addblob(rpa_compiler_t *co, long ruleid, long ruleuid, unsigned long flags, const char *name, unsigned long namesize)
 {
-	char blob[RPA_RULEBLOB_SIZE];
-	char *ptr;
-	rpa_ruledata_t *pblob = (rpa_ruledata_t *)blob;
+	long ret;
+	unsigned long size = sizeof(rpa_ruledata_t) + namesize + 1;
+	rpa_ruledata_t *pblob = (rpa_ruledata_t *)r_zmalloc(size);
 
-	if (namesize >= RPA_RULENAME_MAXSIZE)
-		return -1;
-	r_memset(pblob, 0, RPA_RULEBLOB_SIZE);
-	ptr = blob + sizeof(rpa_ruledata_t);
-	pblob->name = (unsigned long)(ptr - blob);
+	pblob->name = sizeof(rpa_ruledata_t);
 	pblob->ruleid = ruleid;
 	pblob->ruleuid = ruleuid;
 	pblob->flags = flags;
 	pblob->namesize = namesize;
-	r_strncpy(ptr, name, namesize);
-	ptr += namesize;
-	pblob->size = (long)(ptr - blob + 1);
-	return rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	pblob->size = size;
+	r_memcpy((char *)pblob + pblob->name, name, namesize);
+	ret = rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	r_free(pblob);
+	return ret;
 }
 
 
-- 
2.43.0


From 55733cc269dc9291a5ac23e084ee570934bc3faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 45/93] fix: walk record trees of any depth

---
 rpa/rparecord.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index ca4d13c..a8710ac 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -227,20 +227,20 @@ int rpa_recordtree_move(rarray_t *records, long dst, long src, long size)
 
 long rpa_recordtree_walk(rarray_t *records, long rec, long level, rpa_recordtree_callback callback, rpointer userdata)
 {
-	long child;
+	long last;
 
-	if (level > 128)
-		return -1;
+	/*
+	 * The records of a subtree are stored in the order they have to be visited,
+	 * so there is no need to recurse and to limit the depth of the tree.
+	 */
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (callback && callback(records, rec, userdata) < 0)
+	last = rpa_recordtree_get(records, rec, RPA_RECORD_END);
+	if (rec < 0 || last < 0)
 		return -1;
-	for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_START); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_START)) {
-		if (rpa_recordtree_walk(records, child, level + 1, callback, userdata) < 0)
+	for (; rec <= last; rec++) {
+		if (callback && callback(records, rec, userdata) < 0)
 			return -1;
 	}
-	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (callback && callback(records, rec, userdata) < 0)
-		return -1;
 	return 0;
 }
 
-- 
2.43.0


From ca134b47733019a82fc7a78838bc2baa3a6c68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 46/93] fix: report an error code for grammar text too deeply
 nested for the parser

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 5b54636..d539ebd 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1484,7 +1484,7 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
-
+		RPA_DBEX_SETERRINFO_CODE(dbex, rpa_stat_lasterror(dbex->pa->stat));
 		return -1;
 	}
 	if (ret != (long)size) {
-- 
2.43.0


From 23c052d782966dfe582c6d49bb0b318421f71228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 47/93] fix: dumping user ids of a database that is not closed
 leaks memory

---
 rpa/rpadbex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index d539ebd..5fcf0f6 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1711,7 +1711,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 	unsigned long i;
 	long rec;
 	rpa_ruleinfo_t *info;
-	char *buffer = r_zmalloc(32 * sizeof(char));
+	char *buffer;
 
 	if (!dbex)
 		return -1;
@@ -1719,6 +1719,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	buffer = r_zmalloc(32 * sizeof(char));
 	for (i = 0; i < r_array_length(dbex->rules->names); i++) {
 		info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, i);
 		if (info->type == RPA_RULEINFO_DIRECTIVE) {
-- 
2.43.0


From d7591807cc6e01258c25ff6119ad2e7c55efdbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 48/93] fix: compile errors keep the unresolved symbol, error
 information carries no stale fields

---
 rpa/rpadbex.c     | 9 +++++++--
 rpa/rpastatpriv.h | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 5fcf0f6..401ce38 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -32,7 +32,7 @@
 #include "rpa/rpastatpriv.h"
 
 
-#define RPA_DBEX_SETERRINFO_CODE(__d__, __e__) do { (__d__)->err.code = __e__; (__d__)->err.mask |= RPA_ERRINFO_CODE; } while (0)
+#define RPA_DBEX_SETERRINFO_CODE(__d__, __e__) do { (__d__)->err.code = __e__; (__d__)->err.mask = RPA_ERRINFO_CODE; } while (0)
 #define RPA_DBEX_SETERRINFO_OFFSET(__d__, __o__) do { (__d__)->err.offset = __o__; (__d__)->err.mask |= RPA_ERRINFO_OFFSET; } while (0)
 #define RPA_DBEX_SETERRINFO_LINE(__d__, __l__) do { (__d__)->err.line = __l__; (__d__)->err.mask |= RPA_ERRINFO_LINE; } while (0)
 #define RPA_DBEX_SETERRINFO_NAME(__d__, __n__, __s__) do { \
@@ -1975,6 +1975,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	/*
 	 * By default all production rules emit
 	 */
+	r_memset(&dbex->err, 0, sizeof(dbex->err));
 	if (dbex->co)
 		rpa_compiler_destroy(dbex->co);
 	dbex->co = rpa_compiler_create();
@@ -1998,7 +1999,11 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
-			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
+			/*
+			 * Keep the more specific error, if it is set where the error is detected.
+			 */
+			if (dbex->err.code != RPA_E_SYNTAXERROR && dbex->err.code != RPA_E_UNRESOLVEDSYMBOL)
+				RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
 			return -1;
 		}
 	}
diff --git a/rpa/rpastatpriv.h b/rpa/rpastatpriv.h
index 731c5f4..717574f 100644
--- a/rpa/rpastatpriv.h
+++ b/rpa/rpastatpriv.h
@@ -35,7 +35,7 @@
 extern "C" {
 #endif
 
-#define RPA_STAT_SETERROR_CODE(__d__, __e__) do { (__d__)->err.code = (long)(__e__); (__d__)->err.mask |= RPA_ERRINFO_CODE;} while (0)
+#define RPA_STAT_SETERROR_CODE(__d__, __e__) do { (__d__)->err.code = (long)(__e__); (__d__)->err.mask = RPA_ERRINFO_CODE;} while (0)
 #define RPA_STAT_SETERRINFO_OFFSET(__d__, __o__) do { (__d__)->err.offset = (long)(__o__); (__d__)->err.mask |= RPA_ERRINFO_OFFSET; } while (0)
 #define RPA_STAT_SETERRINFO_RULEUID(__d__, __r__) do { (__d__)->err.ruleuid = (long)(__r__); (__d__)->err.mask |= RPA_ERRINFO_RULEUID; } while (0)
 #define RPA_STAT_SETERRINFO_NAME(__d__, __n__, __s__) do { \
-- 
2.43.0


From f9d80c1e8e2d347b7baf1ffa9df0be09359498d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 49/93] fix: looking up the name of a negative rule id reads
 out of bounds

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 401ce38..7710b78 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1812,7 +1812,7 @@ const char *rpa_dbex_name(rpadbex_t *dbex, rparule_t rid)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return NULL;
 	}
-	if (rid >= (rparule_t)r_array_length(dbex->rules->members))
+	if (rid < 0 || rid >= (rparule_t)r_array_length(dbex->rules->members))
 		return NULL;
 	name = r_array_index(dbex->rules->names, rid, rstr_t*);
 	return name->str;
-- 
2.43.0


From ff75962339c2e0fcc3ffd130e4992fae473e1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 50/93] fix: refuse to execute a directive, there is no code
 for it

---
 rpa/rpadbex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 7710b78..a0507d1 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -2049,7 +2049,10 @@ long rpa_dbex_executableoffset(rpadbex_t *dbex, rparule_t rid)
 		return -1;
 	}
 	info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
-	if (!info) {
+	if (!info || info->type == RPA_RULEINFO_DIRECTIVE) {
+		/*
+		 * Directives are listed with the rules, but there is nothing to execute
+		 */
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTFOUND);
 		return -1;
 	}
-- 
2.43.0


From 2e76b0287949871bccf592f336b56c30635e90c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 51/93] fix: JSON strings may escape a slash

---
 rexjson/rexjsondfa.rexcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjsondfa.rexcc b/rexjson/rexjsondfa.rexcc
index 46a4fc1..8ca4794 100644
--- a/rexjson/rexjsondfa.rexcc
+++ b/rexjson/rexjsondfa.rexcc
@@ -21,7 +21,7 @@
 #define TOKEN_RIGHTCB 273
 
 %%
-TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
+TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\/bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
 TOKEN_INT           -?[0-9]|-?[1-9][0-9]+
 TOKEN_NUMBER        -?([1-9][0-9]*|0)([.][0-9]+)?([eE][+\-]?[0-9]+)?
 TOKEN_TRUE          true
-- 
2.43.0


From 8f765309f2c85ef12adb02b971ae272fe04ff6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 52/93] fix: \u escapes in JSON strings decode to UTF-8

---
 rexjson/rexjson++.cpp | 55 ++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 247b397..e564e64 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -72,6 +72,31 @@ static void escape_str_val(const value& v, std::ostream& os)
 	}
 }
 
+static unsigned int unescape_unit(std::string::const_iterator it)
+{
+	std::string ustr(it, it + 4);
+	return static_cast<unsigned int>(std::strtol(ustr.c_str(), NULL, 16));
+}
+
+static void write_utf8(unsigned int wc, std::ostream& os)
+{
+	if (wc <= 0x007F) {
+		os << static_cast<unsigned char>(wc);
+	} else if (wc <= 0x07FF) {
+		os << static_cast<unsigned char>(0xc0 | (wc >> 6));
+		os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
+	} else if (wc <= 0xFFFF) {
+		os << static_cast<unsigned char>(0xe0 | (wc >> 12));
+		os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
+		os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
+	} else {
+		os << static_cast<unsigned char>(0xf0 | (wc >> 18));
+		os << static_cast<unsigned char>(0x80 | ((wc >> 12) & 0x3f));
+		os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
+		os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
+	}
+}
+
 static std::string unescape_str(const std::string& s)
 {
 	std::ostringstream os;
@@ -101,28 +126,16 @@ static std::string unescape_str(const std::string& s)
 		} else if (*it == '\\' && (it + 1) < s.end() && *(it + 1) == 't') {
 			os << '\t';
 			it++;
-		} else if (*it == '\\' && (it + 5) < s.end() && *(it + 1) == 'u') {
-			std::string ustr(it + 2, it + 6);
-			unsigned int wc = static_cast<unsigned int>(std::strtol(ustr.c_str(), NULL, 16));
-			unsigned int count = 0;
-			if (wc <= 0x007F)
-				count = 1;
-			else if (wc <= 0x07FF)
-				count = 2;
-			else if (wc <= 0xFFFF)
-				count = 3;
-			switch (count) {
-				case 3:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0x800;
-				case 2:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0xc0;
-				case 1:
-					os << static_cast<unsigned char>(wc);
+		} else if (*it == '\\' && s.end() - it > 5 && *(it + 1) == 'u') {
+			unsigned int wc = unescape_unit(it + 2);
+			if (wc >= 0xD800 && wc <= 0xDBFF && s.end() - it > 11 && *(it + 6) == '\\' && *(it + 7) == 'u') {
+				unsigned int low = unescape_unit(it + 8);
+				if (low >= 0xDC00 && low <= 0xDFFF) {
+					wc = 0x10000 + ((wc - 0xD800) << 10) + (low - 0xDC00);
+					it += 6;
+				}
 			}
+			write_utf8(wc, os);
 			it += 5;
 		} else if (*it == '\\' && (it + 1) < s.end()) {
 			os << *it++;
-- 
2.43.0


From fdd161167b62cef8799819c6f18928101e564369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 53/93] fix: strings written as JSON read back as the same
 string

---
 rexjson/rexjson++.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index e564e64..745367b 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -51,10 +51,7 @@ std::string value::get_typename(unsigned int type)
 static void escape_str_val(const value& v, std::ostream& os)
 {
 	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
-		if (*it == '\\' && (it + 1) != v.get_str().end()) {
-			os << *it++;
-			os << *it;
-		} else if (*it == '"') {
+		if (*it == '"' || *it == '\\') {
 			os << '\\' << *it;
 		} else if (*it == '\b') {
 			os << "\\b";
@@ -66,6 +63,9 @@ static void escape_str_val(const value& v, std::ostream& os)
 			os << "\\r";
 		} else if (*it == '\t') {
 			os << "\\t";
+		} else if (static_cast<unsigned char>(*it) < 0x20) {
+			static const char* hex = "0123456789abcdef";
+			os << "\\u00" << hex[(*it >> 4) & 0xf] << hex[*it & 0xf];
 		} else {
 			os << *it;
 		}
@@ -358,11 +358,7 @@ void value::check_type(value_type vtype) const
 
 value& value::operator=(const char* v)
 {
-	destroy();
-	check_type(null_type);
-	value_type_ = str_type;
-	store_.v_string_ = new std::string(v);
-	return *this;
+	return operator=(std::string(v));
 }
 
 value& value::operator=(bool v)
-- 
2.43.0


From bb8845455a68cab5e986c24109f050c4068eb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 54/93] fix: write every number that is not finite as null

---
 rexjson/rexjson++.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 745367b..9da8743 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -19,7 +19,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <cstdlib>
-#include <limits>
+#include <cmath>
 #include "rexjson++.h"
 #include "rexjsondfa.h"
 
@@ -532,7 +532,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 	} else if (v.value_type_ == int_type) {
 		os << v.get_int64();
 	} else if (v.value_type_ == real_type) {
-		if (v.get_real() != std::numeric_limits<double>::infinity() && v.get_real() != std::numeric_limits<double>::quiet_NaN()) {
+		if (std::isfinite(v.get_real())) {
 			os.precision(precision_);
 			os.setf(std::ios::fixed, std:: ios::floatfield);
 			os << v.get_real();
-- 
2.43.0


From 52c85c613ee54b1666bdbead8b449dc20ac7b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 55/93] fix: escapes in the names of JSON properties

---
 rexjson/rexjson++.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 9da8743..730fe06 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -48,9 +48,9 @@ std::string value::get_typename(unsigned int type)
 	return ret;
 }
 
-static void escape_str_val(const value& v, std::ostream& os)
+static void escape_str(const std::string& s, std::ostream& os)
 {
-	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
+	for (std::string::const_iterator it = s.begin(); it != s.end(); it++) {
 		if (*it == '"' || *it == '\\') {
 			os << '\\' << *it;
 		} else if (*it == '\b') {
@@ -504,7 +504,9 @@ void output::write_stream_namevalue(const std::string& n, const value& v, std::o
 	std::string indent(level * tabsize_, ' ');
 	if (pretty_)
 		os << indent;
-	os << '"' << n << '"';
+	os << '"';
+	escape_str(n, os);
+	os << '"';
 	if (pretty_)
 		os << ' ';
 	os << ":";
@@ -541,7 +543,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 		}
 	} else if (v.value_type_ == str_type) {
 		os << '"';
-		escape_str_val(v, os);
+		escape_str(v.get_str(), os);
 		os << '"';
 	} else if (v.value_type_ == obj_type) {
 		size_t elems = 0;
@@ -654,7 +656,7 @@ void input::parse_name(std::string &str)
 {
 	if (token_id_ != TOKEN_STRING)
 		error_unexpectedtoken();
-	str = (token_.length() > 2) ? token_.substr(1, token_.length() - 2) : std::string();
+	str = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 	next_token();
 }
 
-- 
2.43.0


From 034e4aa243ccbf8e2eb7e9c123219c9344d5ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 56/93] fix: characters behind a JSON token are not skipped

---
 rexjson/rexjson++.cpp | 42 +++++++++++++++++++++++++++---------------
 rexjson/rexjson++.h   |  6 +++++-
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 730fe06..95a9957 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -587,27 +587,23 @@ void input::get_token()
 {
 	rexdfss_t *acc_ss = NULL;
 	rexuint_t nstate = REX_DFA_STARTSTATE;
-	char ch = 0;
+	size_t i;
 
 	loctok_.clear();
 	token_.clear();
 	token_id_ = 0;
-	while (is_) {
-		++offset_;
-		ch = is_.get();
+	for (i = 0; ; i++) {
+		if (i >= ahead_.length()) {
+			int next = is_.get();
+			if (next == std::char_traits<char>::eof())
+				break;
+			ahead_ += static_cast<char>(next);
+		}
+		char ch = ahead_[i];
 		loctok_ += ch;
 		REX_DFA_NEXT(dfa, nstate, ch, &nstate);
-		if (nstate == REX_DFA_DEADSTATE) {
-			is_.unget();
-			--offset_;
+		if (nstate == REX_DFA_DEADSTATE)
 			break;
-		}
-		if (ch == '\n') {
-			errline_++;
-			errpos_ = 1;
-		} else {
-			errpos_++;
-		}
 		if (REX_DFA_STATE(dfa, nstate)->type == REX_STATETYPE_ACCEPT) {
 			/*
 			 * Note: We will not break out of the loop here. We will keep going
@@ -618,6 +614,22 @@ void input::get_token()
 			token_ = loctok_;
 		}
 	}
+	/*
+	 * Only the longest match is consumed, whatever was read behind it belongs to the next token.
+	 */
+	tokoffset_ = offset_;
+	tokline_ = errline_;
+	tokpos_ = errpos_;
+	for (i = 0; i < token_.length(); i++) {
+		++offset_;
+		if (token_[i] == '\n') {
+			errline_++;
+			errpos_ = 1;
+		} else {
+			errpos_++;
+		}
+	}
+	ahead_.erase(0, token_.length());
 }
 
 void input::read_steam(value& v, size_t maxlevels)
@@ -641,7 +653,7 @@ void input::next_token()
 void input::error_unexpectedtoken()
 {
 	std::ostringstream os;
-	os << "Unexpected (" << errline_ << ":" << errpos_ + 1 - loctok_.length() << "): " << "'" << loctok_ << "' at offset " << offset_ + 1 - loctok_.length();
+	os << "Unexpected (" << tokline_ << ":" << tokpos_ << "): " << "'" << loctok_ << "' at offset " << tokoffset_;
 	throw std::runtime_error(os.str());
 }
 
diff --git a/rexjson/rexjson++.h b/rexjson/rexjson++.h
index d90de34..84e95e7 100644
--- a/rexjson/rexjson++.h
+++ b/rexjson/rexjson++.h
@@ -217,7 +217,7 @@ inline void value::get<std::string>(std::string& ret) const
 
 class input {
 public:
-	input(std::istream& is) : is_(is), token_id_(0), offset_(0), levels_(0), errline_(1), errpos_(1) {}
+	input(std::istream& is) : is_(is), token_id_(0), offset_(0), levels_(0), errline_(1), errpos_(1), tokoffset_(0), tokline_(1), tokpos_(1) {}
 	void read_steam(value& v, size_t maxlevels = 32);
 
 protected:
@@ -236,11 +236,15 @@ protected:
 	std::istream& is_;
 	std::string token_;
 	std::string loctok_;
+	std::string ahead_;
 	int token_id_;
 	size_t offset_;
 	size_t levels_;
 	size_t errline_;
 	size_t errpos_;
+	size_t tokoffset_;
+	size_t tokline_;
+	size_t tokpos_;
 };
 
 class output {
-- 
2.43.0


From fbb9efd69b21327ace2480de38a016b1f3ecf17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 57/93] fix: assign a JSON value to its own parent or child

---
 rexjson/rexjson++.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 95a9957..a0610d6 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -20,6 +20,7 @@
 #include <stdexcept>
 #include <cstdlib>
 #include <cmath>
+#include <utility>
 #include "rexjson++.h"
 #include "rexjsondfa.h"
 
@@ -425,18 +426,24 @@ value& value::operator=(const array& v)
 
 value& value::operator=(const value& v)
 {
+	value tmp;
+
 	if (&v == this)
 		return *this;
-	destroy();
-	value_type_ = v.value_type_;
-	if (get_type() == str_type)
-		store_.v_string_ = new std::string(*v.store_.v_string_);
-	else if (get_type() == array_type)
-		store_.v_array_ = new array(*v.store_.v_array_);
-	else if (get_type() == obj_type)
-		store_.v_object_ =  new object(*v.store_.v_object_);
+	/*
+	 * Copy before destroying, one of the two values could be inside the other.
+	 */
+	if (v.get_type() == str_type)
+		tmp.store_.v_string_ = new std::string(*v.store_.v_string_);
+	else if (v.get_type() == array_type)
+		tmp.store_.v_array_ = new array(*v.store_.v_array_);
+	else if (v.get_type() == obj_type)
+		tmp.store_.v_object_ =  new object(*v.store_.v_object_);
 	else
-		store_ = v.store_;
+		tmp.store_ = v.store_;
+	tmp.value_type_ = v.value_type_;
+	std::swap(value_type_, tmp.value_type_);
+	std::swap(store_, tmp.store_);
 	return *this;
 }
 
-- 
2.43.0


From a0621ac80cd2e4838aab4f6821130289d26c7758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 58/93] fix: moving a JSON value loses the old value or itself

---
 rexjson/rexjson++.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index a0610d6..9905b29 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -162,10 +162,15 @@ void value::destroy()
 
 void value::move(value& v)
 {
-	value_type_ = v.value_type_;
-	store_ = v.store_;
-	v.value_type_ = null_type;
-	v.store_.v_null_ = NULL;
+	value tmp;
+
+	/*
+	 * Destroy the old value last, v could be inside of it.
+	 */
+	std::swap(tmp.value_type_, v.value_type_);
+	std::swap(tmp.store_, v.store_);
+	std::swap(value_type_, tmp.value_type_);
+	std::swap(store_, tmp.store_);
 }
 
 value::value(const value& v)
-- 
2.43.0


From 204054c4649aa8644dd9d77260d1427d636439e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 59/93] fix: JSON integers beyond 32 bits

---
 rexjson/rexjson++.cpp | 2 +-
 rexjson/rexjson++.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 9905b29..32d0e66 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -207,7 +207,7 @@ value::value(int v)
 value::value(unsigned int v)
 {
 	value_type_ = int_type;
-	store_.v_int_ = (signed int)v;
+	store_.v_int_ = v;
 }
 
 value::value(long int v)
diff --git a/rexjson/rexjson++.h b/rexjson/rexjson++.h
index 84e95e7..ddb0ed8 100644
--- a/rexjson/rexjson++.h
+++ b/rexjson/rexjson++.h
@@ -111,7 +111,7 @@ public:
 	template<typename T>
 	void get(T& ret) const
 	{
-		ret = get_int();
+		ret = get_int64();
 	}
 
 	template<typename T>
-- 
2.43.0


From 8717478ea5fd2efe2b0d6659a4fd46e94f531d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 60/93] fix: report the offset of the JSON token that is wrong

---
 rexjson/rexjson.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 89babab..7b4f047 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -50,6 +50,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 	int size = ctx->bufsize - ctx->offset;
 
 	ctx->token_str = buffer;
+	ctx->token_offset = ctx->offset;
 	ctx->token_size = 0;
 	ctx->token_id = -1;
 	for (i = 0; i < size; i++) {
@@ -68,10 +69,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 			ctx->token_id = (int) acc_ss->userdata;
 		}
 	}
-	if (ctx->token_size > 0) {
-		ctx->token_offset = ctx->offset;
-		ctx->offset += ctx->token_size;
-	}
+	ctx->offset += ctx->token_size;
 }
 
 static void rexjson_next_token(rexjson_t *ctx)
-- 
2.43.0


From cef6cd0434b70ff9c6893528960a66644778072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 61/93] fix: JSON objects and arrays end at their closing
 bracket

---
 rexjson/rexjson.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 7b4f047..3b8d767 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -129,6 +129,7 @@ static ssize_t rexjson_parse_namevalue(rexjson_t* ctx)
 static ssize_t rexjson_parse_object(rexjson_t* ctx)
 {
 	size_t cur_offset = ctx->token_offset;
+	size_t size;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTCB) < 0)
@@ -143,17 +144,19 @@ static ssize_t rexjson_parse_object(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	size = ctx->token_offset + ctx->token_size - cur_offset;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTCB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = size;
 	record->valtype = REXJSON_VALUE_OBJECT;
-	return (ctx->token_offset - cur_offset);
+	return size;
 }
 
 static ssize_t rexjson_parse_array(rexjson_t* ctx)
 {
 	size_t cur_offset = ctx->token_offset;
+	size_t size;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTSB) < 0)
@@ -168,12 +171,13 @@ static ssize_t rexjson_parse_array(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	size = ctx->token_offset + ctx->token_size - cur_offset;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTSB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = size;
 	record->valtype = REXJSON_VALUE_ARRAY;
-	return (ctx->token_offset - cur_offset);
+	return size;
 }
 
 
-- 
2.43.0


From cae61f828e45cbd7916d6f4f55cda4054747a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 62/93] fix: mark the end of the JSON records

---
 rexjson/rexjson.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 3b8d767..a00a557 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -335,9 +335,14 @@ void rexjson_dump_records(FILE *file, rexjson_record_t* recs, size_t recsize, co
 
 ssize_t rexjson_parse_buffer(rexjson_t *ctx, rexjson_record_t* recs, size_t recsize, const char* buffer, size_t bufsize, size_t maxlevels)
 {
+	ssize_t ret;
+
 	rexjson_init(ctx, recs, recsize, buffer, bufsize, maxlevels);
 	rexjson_next_token(ctx);
-	return rexjson_parse_value(ctx);
+	ret = rexjson_parse_value(ctx);
+	if (ctx->top < ctx->stacksize)
+		ctx->stack[ctx->top].rectype = REXJSON_RECORD_NONE;
+	return ret;
 }
 
 static ssize_t rexjson_recordtree_end(rexjson_record_t* recs, size_t recsize, ssize_t rec_index)
-- 
2.43.0


From ab7d6e2caf8f59105263ace182c5edc30f327dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 63/93] fix: RPC answers keep the backslashes of names,
 messages and results

---
 rexjson/rexjson++.cpp  |  8 ++++++++
 rexjson/rexjson++.h    |  6 ++++++
 rexjsonrpc/rpcserver.h | 25 ++++++++++++++++++-------
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 32d0e66..31bb70d 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -73,6 +73,14 @@ static void escape_str(const std::string& s, std::ostream& os)
 	}
 }
 
+std::string escape(const std::string& s)
+{
+	std::ostringstream os;
+
+	escape_str(s, os);
+	return os.str();
+}
+
 static unsigned int unescape_unit(std::string::const_iterator it)
 {
 	std::string ustr(it, it + 4);
diff --git a/rexjson/rexjson++.h b/rexjson/rexjson++.h
index ddb0ed8..58daa2a 100644
--- a/rexjson/rexjson++.h
+++ b/rexjson/rexjson++.h
@@ -297,6 +297,12 @@ inline bool read_no_throw(value& v, const std::string& str, size_t maxlevels = 3
 }
 
 
+/**
+ * Values are constructed from (and assigned) strings in JSON notation.
+ * Convert any string to this notation.
+ */
+std::string escape(const std::string& s);
+
 inline std::string write(const value& v)
 {
 	return v.write(false);
diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 030a979..029fd26 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -100,7 +100,7 @@ struct rpc_wrapperbase
 	{
 		auto is = std::index_sequence_for<Args...>();
 		std::tuple<Args...> tuple = params_to_tuple(params, is);
-		return call_with_tuple(tuple, is);
+		return to_value(call_with_tuple(tuple, is));
 	}
 
 	rexjson::value operator()(const rexjson::array& params, rpc_exec_mode mode)
@@ -109,6 +109,17 @@ struct rpc_wrapperbase
 	}
 
 protected:
+	template<typename U>
+	static rexjson::value to_value(const U& v)
+	{
+		return v;
+	}
+
+	static rexjson::value to_value(const std::string& v)
+	{
+		return rexjson::escape(v);
+	}
+
 	template<std::size_t... is>
 	std::array<unsigned int, sizeof...(is)> make_types_array(const std::tuple<Args...>& tuple, std::index_sequence<is...>)
 	{
@@ -277,7 +288,7 @@ public:
 //				ret = ret.substr(ret.find('\n') + 1);
 //				result += ret.substr(0, ret.find('\n')) + "\n";
 			}
-			return result;
+			return rexjson::escape(result);
 		}
 		rexjson::array ignored;
 		return call_method_name(params[0], ignored, help);
@@ -354,7 +365,7 @@ public:
 			return create_json_spec(types, ntypes);
 		if (mode == helpspec)
 			return create_json_helpspec(types, ntypes);
-		return help_msg;
+		return rexjson::escape(help_msg);
 	}
 
 	static rexjson::object create_rpc_error(
@@ -363,7 +374,7 @@ public:
 	{
 		rexjson::object error;
 		error["code"] = code;
-		error["message"] = message;
+		error["message"] = rexjson::escape(message);
 		return error;
 	}
 
@@ -436,7 +447,7 @@ public:
 			error = e;
 		} catch (std::exception& e) {
 			rexjson::object errobj;
-			errobj["message"] = e.what();
+			errobj["message"] = rexjson::escape(e.what());
 			errobj["code"] = RPC_MISC_ERROR;
 			error = errobj;
 		}
@@ -450,7 +461,7 @@ public:
 	{
 		rexjson::object req;
 		req["id"] = id;
-		req["method"] = rexjson::value(name);
+		req["method"] = rexjson::value(rexjson::escape(name));
 		req["params"] = rexjson::value(params);
 		return call(rexjson::value(req), mode);
 	}
@@ -470,7 +481,7 @@ public:
 			error = e;
 		} catch (std::exception& e) {
 			rexjson::object errobj;
-			errobj["message"] = e.what();
+			errobj["message"] = rexjson::escape(e.what());
 			errobj["code"] = RPC_MISC_ERROR;
 			error = errobj;
 		}
-- 
2.43.0


From 37898d4289b55f388fe1f9791b0deb2d809d4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 64/93] fix: copying or asking an empty property, assigning a
 property to itself or to its parent

---
 rexjsonrpc/property.cpp | 9 ++++++---
 rexjsonrpc/property.h   | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 2657849..3992deb 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -35,7 +35,7 @@ property::property()
 
 property::property(const property& v)
 {
-	object_ = v.object_->duplicate();
+	object_ = v.object_ ? v.object_->duplicate() : nullptr;
 }
 
 property::property(property&& v)
@@ -73,8 +73,10 @@ property& property::operator[](const std::string& name)
 
 property& property::operator=(const property& v)
 {
+	iproperty_object* object = v.object_ ? v.object_->duplicate() : nullptr;
+
 	delete(object_);
-	object_ = v.object_->duplicate();
+	object_ = object;
 	return *this;
 }
 
@@ -98,6 +100,7 @@ rexjson::value property::get_prop()
 
 property_access property::access() const
 {
+	check_object();
 	return object_->access();
 }
 
@@ -107,7 +110,7 @@ void property::enumerate_children(const std::string& path, const enumarate_child
 	object_->enumarate_children(*this, path, callback);
 }
 
-void property::check_object()
+void property::check_object() const
 {
 	if (!object_)
 		throw std::runtime_error("Invalid property");
diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 5271f64..f4c34ea 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -349,7 +349,7 @@ public:
 	rexjson::value get_prop();
 	property_access access() const;
 	void enumerate_children(const std::string& path, const enumarate_children_callback& callback);
-	void check_object();
+	void check_object() const;
 	rexjson::value to_json();
 
 
-- 
2.43.0


From 0d71866ea96dd50d3c2261f7640763272859f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 65/93] fix: properties without hooks

---
 rexjsonrpc/property.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index f4c34ea..f2ea003 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -82,9 +82,11 @@ public:
 	{
 		if ((access_ & property_access::writeonly) == 0)
 			throw std::runtime_error("No write access");
-		check_hook_(val);
+		if (check_hook_)
+			check_hook_(val);
 		set_prop_impl<T>(propaddr_, val);
-		modified_hook_(ctx_);
+		if (modified_hook_)
+			modified_hook_(ctx_);
 	}
 
 	virtual rexjson::value get_prop() override
@@ -213,9 +215,11 @@ public:
 	{
 		if ((access_ & property_access::writeonly) == 0)
 			throw std::runtime_error("No write access");
-		check_hook_(val);
+		if (check_hook_)
+			check_hook_(val);
 		*propaddr_ = val.get_bool();
-		modified_hook_(ctx_);
+		if (modified_hook_)
+			modified_hook_(ctx_);
 	}
 
 	virtual rexjson::value get_prop() override
@@ -281,7 +285,8 @@ public:
 	{
 		if ((base::access_ & property_access::writeonly) == 0)
 			throw std::runtime_error("No write access");
-		base::check_hook_(val);
+		if (base::check_hook_)
+			base::check_hook_(val);
 		size_t i = 0;
 		const rexjson::array& a = val.get_array();
 		for (auto v : a) {
@@ -290,7 +295,8 @@ public:
 			base::set_prop_impl(base::propaddr_ + i, v);
 			++i;
 		}
-		base::modified_hook_(base::ctx_);
+		if (base::modified_hook_)
+			base::modified_hook_(base::ctx_);
 	}
 
 	virtual rexjson::value get_prop() override
-- 
2.43.0


From 9b54c473b1fd58411c36fd570db2d2011d14d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 66/93] fix: only digits are an index of a property array

---
 rexjsonrpc/property.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index f2ea003..571c433 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -451,7 +451,9 @@ public:
 
 	virtual property& operator[](const std::string& name)
 	{
-		size_t idx = atol(name.c_str());
+		if (name.empty() || name.find_first_not_of("0123456789") != std::string::npos)
+			throw std::range_error("Invalid index");
+		size_t idx = strtoul(name.c_str(), nullptr, 10);
 		if (idx >= array_.size())
 			throw std::range_error("Invalid index");
 		return array_.operator [](idx);
-- 
2.43.0


From 12fbe253452f46826297566c23088e7a2a7fad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 67/93] fix: a refused value leaves a property range as it was

---
 rexjsonrpc/property.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 571c433..56e73d7 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -23,6 +23,7 @@
 #define RPCPROPERTY_H_
 
 #include <assert.h>
+#include <algorithm>
 #include <functional>
 #include "rexjson/rexjson++.h"
 
@@ -287,14 +288,13 @@ public:
 			throw std::runtime_error("No write access");
 		if (base::check_hook_)
 			base::check_hook_(val);
-		size_t i = 0;
 		const rexjson::array& a = val.get_array();
-		for (auto v : a) {
-			if (i >= size_)
-				throw std::range_error("The array of values passed is of bigger size than the property range.");
-			base::set_prop_impl(base::propaddr_ + i, v);
-			++i;
-		}
+		if (a.size() > size_)
+			throw std::range_error("The array of values passed is of bigger size than the property range.");
+		std::vector<T> values(base::propaddr_, base::propaddr_ + a.size());
+		for (size_t i = 0; i < a.size(); i++)
+			base::set_prop_impl(&values[i], a[i]);
+		std::copy(values.begin(), values.end(), base::propaddr_);
 		if (base::modified_hook_)
 			base::modified_hook_(base::ctx_);
 	}
-- 
2.43.0


From bccbeb10d056e9aca8ebf3b5425fc912494b911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 68/93] fix: read access of property ranges

---
 rexjsonrpc/property.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 56e73d7..b677de8 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -301,6 +301,8 @@ public:
 
 	virtual rexjson::value get_prop() override
 	{
+		if ((base::access_ & property_access::readonly) == 0)
+			throw std::runtime_error("No read access");
 		rexjson::array ret;
 		for (size_t i = 0; i < size_; i++) {
 			ret.push_back(base::get_prop_impl(base::propaddr_ + i));
-- 
2.43.0


From 15c459e8ebb533ec7de8cfda16d6cf934a1e8049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 69/93] fix: string properties keep their backslashes

---
 rexjsonrpc/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index b677de8..cd197e1 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -144,7 +144,7 @@ public:
 	typename std::enable_if<std::is_base_of<std::string, U>::value, std::string>::type
 	get_prop_impl(U* prop)
 	{
-		return *prop;
+		return rexjson::escape(*prop);
 	}
 
 	template <typename U>
-- 
2.43.0


From 7972cac0fd184d51b57f7d97bd3490c125f7689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 70/93] fix: ADC and SBC lose the carry when the operand plus
 the carry wraps

---
 rvm/rvmcpu.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..a1f0bb4 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -372,10 +372,11 @@ static void rvm_op_adds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_adc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
-	
-	res = op2 + op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0);
+	ruword carry = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0;
+
+	res = op2 + op3 + carry;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || res < op3);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, carry ? res <= op2 : res < op2);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) == (op3 & RVM_SIGN_BIT) &&
@@ -634,10 +635,11 @@ static void rvm_op_subs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_sbc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword borrow = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : 1;
 
-	res = op2 - op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : -1);
+	res = op2 - op3 - borrow;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(res > op2));	/* borrow = !carry */
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, borrow ? op2 > op3 : op2 >= op3);	/* borrow = !carry */
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) != (op3 & RVM_SIGN_BIT) &&
-- 
2.43.0


From b66a8c1742694e40fac680cd17e758b63ab7f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 71/93] fix: ASR copies the sign bit into the top bit only

---
 rvm/rvmcpu.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index a1f0bb4..acb8f77 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -446,8 +446,7 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
-	res = op2 >> op3;
-	res |= op2 & RVM_SIGN_BIT;
+	res = (ruword)(((rword)op2) >> op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From 9e78a4cdb23cc8495fe4725cad581d4fc09ebbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 72/93] fix: ROR by a large count runs for as many steps, or
 forever

---
 rvm/rvmcpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index acb8f77..40b2169 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -457,7 +457,7 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_ror(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	unsigned int i;
-	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3) % RVM_REGISTER_BITS;
 	
 	res = op2;
 	for (i = 0; i < op3; i++) {
-- 
2.43.0


From 8e9e1619c65efdad6360cc43933e87725f906cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 73/93] fix: MODS writes a debugging line to the standard
 output

---
 rvm/rvmcpu.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 40b2169..0786cf0 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -718,7 +718,6 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
 	res = op2 % op3;
-	r_printf("mod RES: %ld\n", res);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From 85adc4c5e8943b15972f4a7f521d53d22f6a7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 74/93] fix: DVS and MODS of the smallest number by -1 kill the
 process

---
 rvm/rvmcpu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 0786cf0..a80f3bb 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -717,7 +717,7 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = op2 % op3;
+	res = op3 == -1 ? 0 : op2 % op3;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -732,7 +732,7 @@ static void rvm_op_dvs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = (rword)(op2 / op3);
+	res = op3 == -1 ? (rword)(0 - (ruword)op2) : (rword)(op2 / op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From ccaceac7a587c1055c8b38849d8e9f3ea8096504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 75/93] fix: POP, POPM, LDS and PUSHM reach outside the stack

---
 rvm/rvmcpu.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index a80f3bb..d5daeab 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -755,6 +755,8 @@ static void rvm_op_lds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = ((ins->op2 != XX) ? RVM_CPUREG_GETU(cpu, ins->op2) : 0) + ((ins->op3 != XX) ? RVM_CPUREG_GETU(cpu, ins->op3) : 0);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 }
 
@@ -775,7 +777,7 @@ static void rvm_op_pushm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword bits = RVM_CPUREG_GETU(cpu, ins->op1);
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
-	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + 1) || !RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
 		RVM_ABORT(cpu, RVM_E_NOMEM);
 
 	if (!(bits & ((1<<(RVM_REGS_NUM / 2)) - 1)))
@@ -804,6 +806,8 @@ static void rvm_op_popm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	for (; bits && i >= 0; i--) {
 		n = 1 << i;
 		if (n & bits) {
+			if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+				RVM_ABORT(cpu, RVM_E_NOMEM);
 			RVM_CPUREG_SET(cpu, i, RVM_STACK_READ(cpu->stack, sp));
 			sp -= 1;
 			bits &= ~n;
@@ -818,6 +822,8 @@ static void rvm_op_pop(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 	if (ins->op1 != SP)
 		RVM_CPUREG_SETU(cpu, SP, sp - 1);
-- 
2.43.0


From 1e0829f985d0028ae1bbd9f7cad9bd15e670a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 76/93] fix: an operation without a handler calls a null
 pointer

---
 rvm/rvmcpu.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index d5daeab..ddc0228 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -1133,6 +1133,12 @@ static void rvm_op_settype(rvmcpu_t *cpu, rvm_asmins_t *ins)
 }
 
 
+static void rvm_op_illegal(rvmcpu_t *cpu, rvm_asmins_t *ins)
+{
+	RVM_ABORT(cpu, RVM_E_ILLEGAL);
+}
+
+
 static void rvm_op_abort(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	RVM_ABORT(cpu, RVM_CPUREG_GETU(cpu, ins->op1));
@@ -1307,6 +1313,7 @@ int rvm_cpu_setophandler(rvmcpu_t *cpu, unsigned int opcode, const char *opname,
 rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 {
 	rvmcpu_t *cpu;
+	unsigned int i;
 
 	cpu = (rvmcpu_t *)r_malloc(sizeof(*cpu));
 	if (!cpu)
@@ -1318,6 +1325,8 @@ rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 	cpu->data = r_carray_create(sizeof(rvmreg_t));
 	cpu->gc = r_gc_create();
 
+	for (i = 0; i < RVM_COUNT; i++)
+		rvm_cpu_setophandler(cpu, i, "ILLEGAL", rvm_op_illegal);
 	rvm_cpu_setophandler(cpu, RVM_EXT, "EXT", rvm_op_exit);
 	rvm_cpu_setophandler(cpu, RVM_ABORT, "ABORT", rvm_op_abort);
 	rvm_cpu_setophandler(cpu, RVM_PRN, "PRN", rvm_op_prn);
-- 
2.43.0


From 4fa241f8c5b0f54e88b0620319660c2e21201e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 77/93] fix: rvm_reg_double reads a double register as a double

---
 rvm/rvmreg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index b639fcb..8064ec4 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -438,6 +438,8 @@ rboolean rvm_reg_boolean(const rvmreg_t *src)
 double rvm_reg_double(const rvmreg_t *src)
 {
 	R_ASSERT(src);
+	if (rvm_reg_gettype(src) == RVM_DTYPE_DOUBLE)
+		return RVM_REG_GETD(src);
 	return (double)RVM_REG_GETL(src);
 }
 
-- 
2.43.0


From e672676f334f267ca2e78633b91e48c42772c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 78/93] fix: a scan goes on when it is aborted in between two
 attempts

---
 rpa/rpastat.c     | 9 +++++++++
 rpa/rpastatpriv.h | 1 +
 2 files changed, 10 insertions(+)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 4d3d9e3..c83c64c 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -247,6 +247,7 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 		return -1;
 	}
 
+	stat->aborted = 0;
 	while (input < end) {
 		topsiz = rpa_stat_exec(stat, exec, offset, encoding, input, start, end, NULL);
 		if (topsiz < 0) {
@@ -260,6 +261,13 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 			*where = input;
 			return ret;
 		}
+		if (stat->aborted) {
+			/*
+			 * Aborted in between two attempts
+			 */
+			RPA_STAT_SETERROR_CODE(stat, RPA_E_USERABORT);
+			return -1;
+		}
 		ptp = &stat->instack[0];
 		input += ptp->wcsize;
 	}
@@ -284,6 +292,7 @@ int rpa_stat_abort(rpastat_t *stat)
 	if (!stat) {
 		return -1;
 	}
+	stat->aborted = 1;
 	RPA_STAT_SETERROR_CODE(stat, RPA_E_USERABORT);
 	rvm_cpu_abort(stat->cpu);
 	return 0;
diff --git a/rpa/rpastatpriv.h b/rpa/rpastatpriv.h
index 717574f..033b9c6 100644
--- a/rpa/rpastatpriv.h
+++ b/rpa/rpastatpriv.h
@@ -51,6 +51,7 @@ struct rpastat_s {
 	rpa_errinfo_t err;
 	unsigned int encoding;
 	unsigned int debug;
+	volatile unsigned int aborted;	/* rpa_stat_abort was called during the current operation */
 	rarray_t *records;
 	rpainput_t *instackbuffer;
 	rpainput_t *instack;			/* instack = &instackbuffer[1]; This allows R_TOP = -1, without any additional checks */
-- 
2.43.0


From c8379928b32cde691fd32afffac2fb817074633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 79/93] fix: rpagrep reads its exit code from freed memory

---
 rpagrep/unix/rpagrep-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index 921ed4d..be1abfe 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -313,8 +313,9 @@ end:
 
 	if (devnull)
 		fclose(devnull);
+	ret = pGrep->ret;
 	rpa_grep_destroy(pGrep);
-	return pGrep->ret;
+	return ret;
 
 error:
 	if (devnull)
-- 
2.43.0


From 16cfd4693684c32ba7afec4144e265dd0a1cccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 80/93] fix: rpagrep takes the argument of -s as a path, too

---
 rpagrep/unix/rpagrep-main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index be1abfe..9f3322e 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -276,7 +276,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rpa_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'c' || argv[i][1] == 'C'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 's' || argv[i][1] == 'c' || argv[i][1] == 'C'){
 			++i;
 		}
 		
-- 
2.43.0


From dbd700f0c22c4657b5e0bed517dfbe0bf4d75c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 81/93] fix: rpagrep ignores text without a newline in line
 mode

---
 rpagrep/rpagrep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 6becb05..f2bb8c5 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -386,8 +386,8 @@ again:
 			}
 		}
 	}
-	if (!lines)
-		return 0;
+	if (lend > end)
+		lend = end;
 	ret = rpa_stat_scan(hStat, pGrep->hPattern, pGrep->encoding, lstart, lstart, lend, &matched);
 	if (ret > 0) {
 		rpa_grep_matchfound(pGrep);
-- 
2.43.0


From aba50156b94d5da3d8323771b45f2036645dd59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 82/93] fix: rpa_record_dump writes outside its buffer when the
 name of the rule is long

---
 rpa/rparecord.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index a8710ac..8c2bc02 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -384,6 +384,8 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	if (prec->type & RPA_RECORD_END)
 		n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "END   ");
 	n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "%s ", prec->rule);
+	if (n > bufsize)
+		n = bufsize;
 
 	r_memset(buf + n, ' ', bufsize - n);
 	n = 90;
-- 
2.43.0


From e69440a716a5b3d8ad17892dbf0f7daa3bce705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 83/93] fix: listing code without a machine crashes, and so
 does rpagrep --debug-compile

---
 rvm/rvmcpu.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index ddc0228..ad1ccc4 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -1022,6 +1022,11 @@ int rvm_asm_dump_pi_to_str(rvmcpu_t *vm, rvm_asmins_t *pi, char *str, unsigned i
 		}
 		if ((ret = rvm_snprintf(str, sz, "%16s   ", szSwi)) < 0)
 			return ret;
+	} else if (!vm) {
+		char szOp[64];
+		rvm_snprintf(szOp, sizeof(szOp), "OPCODE(%d)", pi->opcode);
+		if ((ret = rvm_snprintf(str, sz, "%16s   ", szOp)) < 0)
+			return ret;
 	} else {
 		if ((ret = rvm_snprintf(str, sz, "%16s   ", vm->ops[pi->opcode].name)) < 0)
 			return ret;
-- 
2.43.0


From 687fbf1accd023f905cbbb8424abbc2685ca21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 84/93] fix: emptying a collector takes objects off the list
 twice, losing or corrupting others when a cleanup changes the list

---
 rlib/rgc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rlib/rgc.c b/rlib/rgc.c
index a9404e6..0abe964 100644
--- a/rlib/rgc.c
+++ b/rlib/rgc.c
@@ -68,6 +68,7 @@ void r_gc_deallocateall(rgc_t *gc)
 	while (!r_list_empty(head)) {
 		obj = r_list_entry(r_list_first(head), robject_t, lnk);
 		r_list_del(&obj->lnk);
+		r_list_init(&obj->lnk);	/* The cleanup takes the object off the list it is on */
 		obj->gc = NULL;
 		r_object_destroy(obj);
 	}
-- 
2.43.0


From 261a9d4ecfb5c7280f4d24fc6f5475bb94801667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 85/93] fix: parsing the same text again into one array of
 records rearranges the records of the earlier parse

---
 rpa/rpastat.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index c83c64c..4cf0b02 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -144,13 +144,16 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 	return ret;
 }
 
-static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
+/*
+ * Only the records from 'first' on belong to this parse.
+ */
+static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records, long first)
 {
 	rparecord_t *srec, *erec;
 	long i, temp_start, strayrecs_start, strayrecs_size, strayrecs_end;
 	long size = r_array_length(records);
 
-	for (i = 1; i < size; i++) {
+	for (i = first + 1; i < size; i++) {
 		srec = (rparecord_t *) r_array_slot(records, i);
 		if ((srec->usertype & RPA_LOOP_PATH) && (srec->type & RPA_RECORD_START)) {
 			erec = rpa_record_get(records, i - 1);
@@ -158,7 +161,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 				long ssize = 0, j;
 				strayrecs_end = i - 1;
 				strayrecs_start = rpa_recordtree_get(records, strayrecs_end, RPA_RECORD_START);
-				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= 0;
+				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= first;
 					temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START)) {
 					erec = rpa_record_get(records, temp_start);
 					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
@@ -191,7 +194,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 
 	}
 
-	for (i = 0; i < size; i++) {
+	for (i = first; i < size; i++) {
 		erec = (rparecord_t *) r_array_slot(records, i);
 		erec->usertype = 0;
 	}
@@ -201,6 +204,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encoding, const char *input, const char *start, const char *end, rarray_t *records)
 {
 	long topsiz = 0;
+	long first = records ? (long)r_array_length(records) : 0;
 	rpainput_t *ptp;
 	long offset;
 	rvm_asmins_t *exec;
@@ -223,7 +227,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 		return 0;
 	ptp = &stat->instack[topsiz];
 	if (records)
-		rpa_stat_normalizeleftrecursion(stat, records);
+		rpa_stat_normalizeleftrecursion(stat, records, first);
 	return (long)(ptp->input - input);
 }
 
-- 
2.43.0


From c96b29c042064a220ccea065ee8a1e4d3df6da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 86/93] fix: r_buffer_append appends instead of overwriting the
 content

---
 rlib/rbuffer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rlib/rbuffer.c b/rlib/rbuffer.c
index 1155db4..468b237 100644
--- a/rlib/rbuffer.c
+++ b/rlib/rbuffer.c
@@ -59,12 +59,12 @@ int r_buffer_append(rbuffer_t *buffer, void *src, unsigned long size)
 {
 	char *s;
 
-	s = (char *)r_realloc(buffer->s, size + 1);
+	s = (char *)r_realloc(buffer->s, buffer->size + size + 1);
 	if (!s)
 		return -1;
 	buffer->s = s;
-	buffer->size = size;
-	r_memcpy(buffer->s, src, size);
+	r_memcpy(buffer->s + buffer->size, src, size);
+	buffer->size += size;
 	buffer->s[buffer->size] = '\0';
 	return 0;
 }
-- 
2.43.0


From 1e4288bc6c913d1c0bbec030819235b82684343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 87/93] fix: r_dbg_calloc of elements of size 0 writes outside
 its block

---
 rlib/rmem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlib/rmem.c b/rlib/rmem.c
index 1d5a496..06fd357 100644
--- a/rlib/rmem.c
+++ b/rlib/rmem.c
@@ -64,6 +64,10 @@ static rpointer r_dbg_calloc(size_t nmemb, size_t size)
 {
 	ruword *mem = NULL;
 
+	if (!size) {
+		nmemb = 0;
+		size = 1;
+	}
 	nmemb += (size < sizeof(ruword)) ? sizeof(ruword) : 1;
 	mem = (ruword*)calloc(nmemb, size);
 	*((ruword*)mem) = size * nmemb;
-- 
2.43.0


From 5915022588ace35766bb0617f50ebb6d225097e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 88/93] fix: clear circular references of chunked and named
 arrays to collected objects

---
 rvm/rvmreg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index 8064ec4..b92c46a 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -73,7 +73,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * set the size to 0, to prevent circular references to come back here
 			 */
-			array->alloc_size = 0;
+			r_carray_length(array) = 0;
 			for (i = 0; i < size; i++) {
 				r = (rvmreg_t*) r_carray_slot(array, i);
 				if (rvm_reg_tstflag(r, RVM_INFOBIT_ROBJECT)) {
@@ -93,7 +93,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * Restore the size
 			 */
-			array->alloc_size = size;
+			r_carray_length(array) = size;
 		}
 	}
 }
-- 
2.43.0


From c6dcb5a1b57cf398e1383f401a1a4d852c0606aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 89/93] fix: copying a rex state keeps its user data

---
 rex/rexstate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rex/rexstate.c b/rex/rexstate.c
index 16d7840..bdb311b 100644
--- a/rex/rexstate.c
+++ b/rex/rexstate.c
@@ -69,6 +69,7 @@ robject_t* rex_state_copy(const robject_t *obj)
 	state->subset = (rarray_t*)src->subset->obj.copy((robject_t *)src->subset);
 	state->type = src->type;
 	state->uid = src->uid;
+	state->userdata = src->userdata;
 	return (robject_t *)state;
 }
 
-- 
2.43.0


From d4822e9d5d384029117b7d7ac1fc08ea95f048c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:55 +0000
Subject: [PATCH 90/93] fix: adding a transition returns a pointer into the
 array as it is after it has grown

---
 rex/rextransition.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 449605a..f514303 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -29,12 +29,14 @@
 rex_transition_t *rex_transitions_add_e(rarray_t *etrans, size_t srcuid, size_t dstuid)
 {
 	rex_transition_t ntrans;
+	size_t index;
 
 	r_memset(&ntrans, 0, sizeof(ntrans));
 	ntrans.type = REX_TRANSITION_EMPTY;
 	ntrans.srcuid = srcuid;
 	ntrans.dstuid = dstuid;
-	return (rex_transition_t *)r_array_slot(etrans, r_array_add(etrans, &ntrans));
+	index = r_array_add(etrans, &ntrans);
+	return (rex_transition_t *)r_array_slot(etrans, index);
 }
 
 
@@ -92,7 +94,8 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 			max = mid;
 		}
 	}
-	return (rex_transition_t *)r_array_slot(trans, r_array_insert(trans, min, &ntrans));
+	min = r_array_insert(trans, min, &ntrans);
+	return (rex_transition_t *)r_array_slot(trans, min);
 }
 
 
-- 
2.43.0


From 6d881042e8a3797f922d560724ede0d07535b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:15 +0000
Subject: [PATCH 91/93] fix: coming back to an accepting start set leads to an
 accepting DFA state

---
 rex/rexdfaconv.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rex/rexdfaconv.c b/rex/rexdfaconv.c
index bf77c17..1b1a790 100644
--- a/rex/rexdfaconv.c
+++ b/rex/rexdfaconv.c
@@ -366,7 +366,16 @@ rexdb_t *rex_dfaconv_run(rexdfaconv_t *co, rexdb_t *nfa, size_t start)
 	rex_subset_clear(co->setU);
 	rex_subset_push(co->setU, start);
 	rex_dfaconv_eclosure(co, nfa, co->setU, s->subset);
-	r_hash_insert_object(co->hash, s->subset, &s->uid);
+	/*
+	 * The START state is never accepting, if its sub-states are then
+	 * coming back to them must lead to another state, one that accepts.
+	 */
+	for (i = 0; i < rex_subset_length(s->subset); i++) {
+		if (rex_db_getstate(nfa, rex_subset_index(s->subset, i))->type == REX_STATETYPE_ACCEPT)
+			break;
+	}
+	if (i == rex_subset_length(s->subset))
+		r_hash_insert_object(co->hash, s->subset, &s->uid);
 
 	for (i = 0; i < r_array_length(dfa->states); i++) {
 		s = r_array_index(dfa->states, i, rexstate_t*);
-- 
2.43.0


From d74d98e65c025a117b38880334226d87e78d958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 92/93] fix: record accessors check that the other record of
 the pair was found

---
 rpa/rparecord.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 8c2bc02..d7079ad 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -271,7 +271,7 @@ long rpa_record_getruleuid(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->ruleuid;
@@ -285,12 +285,12 @@ void rpa_record_setusertype(rarray_t *records, long rec, ruint32 usertype, rvals
 	if (rec < 0)
 		return;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
@@ -304,7 +304,7 @@ long rpa_record_getusertype(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0)
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->usertype;
-- 
2.43.0


From 6bf072353842b6a96d6e4e395293003a0c3bb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:45 +0000
Subject: [PATCH 93/93] fix: dumping automata with characters beyond those of
 isprint

---
 rex/rexdb.c         | 10 ++++++++--
 rex/rexdfa.c        | 10 ++++++++--
 rex/rextransition.c | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/rex/rexdb.c b/rex/rexdb.c
index e6c9886..e2c0409 100644
--- a/rex/rexdb.c
+++ b/rex/rexdb.c
@@ -7,6 +7,12 @@
 #include "rex/rexdfaconv.h"
 #include "rex/rexcompiler.h"
 
+
+static int rex_db_printable(rexchar_t c)
+{
+	return c < 128 && isprint((int)c) && !isspace((int)c);
+}
+
 struct rexdfa_ctx {
 	size_t nstates;
 	size_t ntrnas;
@@ -258,12 +264,12 @@ void rex_db_dumpstate(rexdb_t *rexdb, size_t uid)
 		if (t->type == REX_TRANSITION_EMPTY) {
 			fprintf(stdout, "    epsilon -> %ld\n", t->dstuid);
 		} else if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin))
+			if (rex_db_printable(t->lowin) && rex_db_printable(t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if (rex_db_printable(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        0x%X ", t->lowin);
diff --git a/rex/rexdfa.c b/rex/rexdfa.c
index 301c839..6649398 100644
--- a/rex/rexdfa.c
+++ b/rex/rexdfa.c
@@ -26,6 +26,12 @@
 #include "rex/rexdfa.h"
 
 
+static int rex_dfa_printable(rexchar_t c)
+{
+	return c < 128 && isprint((int)c) && !isspace((int)c);
+}
+
+
 rexdfa_t *rex_dfa_create(rexuint_t nstates, rexuint_t ntrans, rexuint_t naccsubstates, rexuint_t nsubstates)
 {
 	rexdfa_t *dfa = (rexdfa_t *)r_zmalloc(sizeof(*dfa));
@@ -218,12 +224,12 @@ void rex_dfa_dumpstate(rexdfa_t *dfa, rexuint_t nstate)
 		t = &dfa->trans[s->trans + index];
 		n = 0;
 		if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin) && !r_strchr("[]-^", t->lowin) && !r_strchr("[]-^", t->highin))
+			if (rex_dfa_printable(t->lowin) && rex_dfa_printable(t->highin) && !r_strchr("[]-^", t->lowin) && !r_strchr("[]-^", t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if (rex_dfa_printable(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    0x%X ", t->lowin);
diff --git a/rex/rextransition.c b/rex/rextransition.c
index f514303..1ab2156 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -23,6 +23,12 @@
 #include "rlib/rstring.h"
 #include "rex/rextransition.h"
 
+
+static int rex_transition_printable(rexchar_t c)
+{
+	return c < 128 && isprint((int)c) && !isspace((int)c);
+}
+
 /*
  * Add empty transition
  */
@@ -198,12 +204,12 @@ void rex_transitions_dump(rarray_t *trans)
 		if (t->type == REX_TRANSITION_EMPTY) {
 			fprintf(stdout, "    epsilon -> %ld\n", t->dstuid);
 		} else if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin))
+			if (rex_transition_printable(t->lowin) && rex_transition_printable(t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if (rex_transition_printable(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        0x%X ", t->lowin);
-- 
2.43.0

