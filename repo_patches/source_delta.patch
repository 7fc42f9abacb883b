From a73b7d38f22e7e8d6873aa5d8177d5d680dce8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 01/98] fix: release the string or blob an atom owns exactly
 once

Blob atoms were freed as bundles when overwritten, never when they sat in
an atom array, and strings set with osc_atom_u_setStringPtr() were freed
with the atom although the caller owns them.
---
 osc_atom_array_u.c  | 11 +----------
 osc_atom_u.c        | 21 ++++-----------------
 osc_expr.c          |  3 +++
 osc_legacy_parser.y |  8 ++++----
 osc_parser.y        |  8 ++++----
 5 files changed, 16 insertions(+), 35 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index f4f1adc..d97f6a0 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -43,16 +43,7 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar)
 	if(ar){
 		int i;
 		for(i = 0; i < osc_atom_array_u_getLen(ar); i++){
-			t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-			if(a->alloc && a->typetag == 's'){
-				if(a->w.s){
-					osc_mem_free(a->w.s);
-				}
-			}else if(a->typetag == OSC_BUNDLE_TYPETAG){
-				if(a->w.bndl){
-					osc_bundle_u_free(a->w.bndl);
-				}
-			}
+			osc_atom_u_clear(osc_atom_array_u_get(ar, i));
 		}
 		osc_array_free(ar);
 	}
diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..2d18215 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -52,21 +52,7 @@ void osc_atom_u_free(t_osc_atom_u *a)
 	if(!a){
 		return;
 	}
-	if(a->typetag == 's'){
-		if(a->w.s){
-			osc_mem_free(a->w.s);
-		}
-	}else if(a->typetag == OSC_BUNDLE_TYPETAG){
-		//if(a->alloc){ // should always be true
-		//osc_mem_free(osc_bundle_s_getPtr(a->w.bndl));
-			osc_bundle_u_free(a->w.bndl);
-			//}
-    }
-    else if(a->typetag == 'b'){
-        if(a->w.s){
-            osc_mem_free(a->w.b);
-        }
-    }
+	osc_atom_u_clear(a);
 	osc_mem_free(a);
 }
 
@@ -81,7 +67,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 	}
 	aa->next = aa->prev = NULL;
 	aa->typetag = src->typetag;
-	aa->alloc = src->alloc;
+	aa->alloc = (src->typetag == 's' || src->typetag == 'b');	// the copy owns what it points to
 	switch(aa->typetag){
         case 's':
             aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
@@ -134,7 +120,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
@@ -1237,6 +1223,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	memcpy(copy, blob, l + 4);
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
diff --git a/osc_expr.c b/osc_expr.c
index a65e306..2ec2588 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5877,6 +5877,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 					return 1;
 				}
 				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
+				osc_mem_free(b);
 			}else{
 				char *blob = osc_mem_alloc(n + 4);
 				for(int i = 0; i < n; i++){
@@ -5885,6 +5886,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				*((int32_t *)blob) = hton32(n);
 				*out = osc_atom_array_u_alloc(1);
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), blob);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}
 		}else{
 			int n = osc_atom_array_u_getLen(*argv);
@@ -6021,6 +6023,7 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
 	osc_atom_u_setBlobPtr(dest, blob);
+	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
diff --git a/osc_legacy_parser.y b/osc_legacy_parser.y
index 18f94fa..9081de3 100644
--- a/osc_legacy_parser.y
+++ b/osc_legacy_parser.y
@@ -199,7 +199,7 @@ arglist:
 		PP("add STRING to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
   	}
 	| OSCADDRESS {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -207,7 +207,7 @@ arglist:
 		PP("add OSCADDRESS to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
 	}
 	| OSCFLOAT {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -280,11 +280,11 @@ arglist:
 	  }
 	| arglist STRING {
 		PP("add STRING to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCADDRESS {
 		PP("add OSCADDRESS to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCFLOAT {
 		PP("add OSCFLOAT to MSG %p := %f\n", *msg, $2);
diff --git a/osc_parser.y b/osc_parser.y
index 78e80de..23a62a1 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -297,7 +297,7 @@ arglist:
 		PP("add STRING to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
   	}
 	| OSCADDRESS {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -305,7 +305,7 @@ arglist:
 		PP("add OSCADDRESS to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
 	}
 	| OSCFLOAT {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -378,11 +378,11 @@ arglist:
 	  }
 	| arglist STRING {
 		PP("add STRING to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCADDRESS {
 		PP("add OSCADDRESS to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCFLOAT {
 		PP("add OSCFLOAT to MSG %p := %f\n", *msg, $2);
-- 
2.43.0


From b70a19a595ac7a3e23a393d8bd1f07af9f936f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 02/98] fix: serialise 8- and 16-bit integers from the member
 that holds them

---
 osc_atom_u.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 2d18215..741381c 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1342,7 +1342,8 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			// only the member that was set is defined
+			int32_t i = osc_atom_u_getInt32(a);
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
-- 
2.43.0


From 006eda071e0f1e262d5e6e9cf718368dce27b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 03/98] fix: release an atom's old value when it is set to a
 string or bundle

---
 osc_atom_u.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 741381c..d3e8aa3 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1098,23 +1098,16 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 	if(!a){
 		return;
 	}
-	if(a->w.s && a->typetag == 's' && a->alloc){
-		if(v){
-			long len = strlen(v) + 1;
-			a->w.s = osc_mem_resize(a->w.s, len);
-			strncpy(a->w.s, v, len);
-		}else{
-			a->w.s = NULL;
-		}
-	}else{
-		if(v){
-			a->w.s = osc_mem_alloc(strlen(v) + 1);
-			strcpy(a->w.s, v);
-			a->typetag = 's';
-			a->alloc = 1;
-		}else{
-			a->w.s = NULL;
-		}
+	char *s = NULL;
+	if(v){
+		s = osc_mem_alloc(strlen(v) + 1);
+		strcpy(s, v);
+	}
+	osc_atom_u_clear(a);
+	a->w.s = s;
+	if(s){
+		a->typetag = 's';
+		a->alloc = 1;
 	}
 }
 
@@ -1193,6 +1186,10 @@ void osc_atom_u_setBndl_s(t_osc_atom_u *a, long len, char *ptr)
 
 void osc_atom_u_setBndl_u(t_osc_atom_u *a, t_osc_bndl_u *b)
 {
+	if(!a){
+		return;
+	}
+	osc_atom_u_clear(a);
 	a->w.bndl = b;
 	a->typetag = OSC_BUNDLE_TYPETAG;
 }
-- 
2.43.0


From 0c9c9a046e2604395e49c880d0607268b92c8a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 04/98] fix: atom conversions read and write only the value
 they convert

Reading a blob as a 64-bit integer returned half of it, copying a string
or blob into a blob touched memory past the end, copied blobs kept
uninitialised padding, and a bundle that did not fit was serialised as a
time tag.
---
 osc_atom_u.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d3e8aa3..06b3af3 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -82,6 +82,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         int32_t len = ntoh32(*((int32_t *)(src->w.b)));
         int32_t size = osc_util_getPaddingForNBytes(len);
         aa->w.s = osc_mem_alloc(size + 4);
+        memset(aa->w.b, '\0', size + 4);
         memcpy(aa->w.b, src->w.b, len + 4);
     }
         break;
@@ -269,6 +270,7 @@ int8_t osc_atom_u_getInt8(t_osc_atom_u *a){
 				return *s;
 			}
 		}
+		return 0;
 	case 'T': // true
 		return 1;
 	case 'F': // false
@@ -471,6 +473,7 @@ uint8_t osc_atom_u_getUInt8(t_osc_atom_u *a){
 				return *s;
 			}
 		}
+		return 0;
 	case 'u': // signed 16-bit int
 		return (uint8_t)a->w.u;
 	case 'U': // unsigned 16-bit int
@@ -630,7 +633,7 @@ uint64_t osc_atom_u_getUInt64(t_osc_atom_u *a){
 			char *blob = a->w.b;
 			int32_t len = ntoh32(*((int32_t *)blob));
 			if(len == 8){
-				return ntoh32(*((uint32_t *)(blob + 4)));
+				return ntoh64(*((uint64_t *)(blob + 4)));
 			}
 		}
 	}
@@ -927,7 +930,9 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->w.b, *buflen);
+		if(bloblen + 4 <= *buflen){
+			memcpy(*blob, a->w.b, bloblen + 4);
+		}
 		break;
 	case 'c':
 	case 'C':
@@ -947,7 +952,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	case 'h':
 	case 'H':
 		{
-			int64_t i = a->w.i;
+			int64_t i = a->w.h;
 			*((int32_t *)(*blob)) = hton32(8);
 			*((int64_t *)((*blob) + 4)) = hton64(i);
 		}
@@ -970,7 +975,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		{
 			*((int32_t *)(*blob)) = hton32(*buflen - 4);
 			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen, &p);
+			osc_atom_u_getString(a, *buflen - 4, &p);
 		}
 		break;
 	case OSC_BUNDLE_TYPETAG:
@@ -1386,6 +1391,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 				return osc_bundle_u_nserialize(buf + 4, len, a->w.bndl) + 4;
 			}
 		}
+		break;
 	case OSC_TIMETAG_TYPETAG:
 		if(!buf){
 			return OSC_TIMETAG_SIZEOF;
-- 
2.43.0


From 1905ac11b105640e0691d018ec3bdb81c2434f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 05/98] fix: message copies and string arguments do not leak

Copying into an existing message dropped its address and arguments,
clearing an address dropped the old one, and prepending or inserting a
string leaked a temporary copy.
---
 osc_message_u.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..d47bd35 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -109,9 +109,9 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 		*dest = osc_message_u_alloc();
 	}
 	(*dest)->size = src->size;
-	(*dest)->argc = 0;
-	(*dest)->arghead = NULL;
-	(*dest)->argtail = NULL;
+	osc_message_u_clearArgs(*dest);
+	osc_mem_free((*dest)->address);
+	(*dest)->address = NULL;
 	if(src->address){
 		char *address = NULL;
 		osc_util_strdup(&address, src->address);
@@ -171,6 +171,7 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		return OSC_ERR_INVAL;
 	}
 	if(!address){
+		osc_mem_free(m->address);
 		m->address = NULL;
 		return OSC_ERR_NONE;
 	}
@@ -595,10 +596,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -764,10 +762,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From 016b898f2f84a296375b4225e47c1f862fd3276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 06/98] fix: inserting an atom at the end ends the argument
 list

An atom that had been in another list kept its old successor, so the
message went on into that list; negative positions walked off the list.
---
 osc_message_u.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index d47bd35..8447758 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -216,7 +216,7 @@ t_osc_atom_u *osc_message_u_getArg(t_osc_msg_u *m, int n)
 		return NULL;
 	}
 	int nn = osc_message_u_getArgCount(m);
-	if(nn <= n){
+	if(nn <= n || n < 0){
 		return NULL;
 	}
 	if(n == 0){
@@ -280,10 +280,11 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
-	if(pos == 0){
+	if(pos <= 0){
 		a->next = m->arghead;
 		if(m->arghead){
 			m->arghead->prev = a;
-- 
2.43.0


From e9813cd49af6cbce2ad036789a4c22b51d73f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 07/98] fix: osc_bundle_u_removeMsg keeps the message count in
 step

---
 osc_bundle_u.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..94d10c7 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -263,7 +263,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -410,6 +409,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
@@ -422,7 +422,6 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
             if(!strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
-- 
2.43.0


From 9b91d0ee43398d972b5d17fdb7629059b0a73c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 08/98] fix: osc_bundle_u_addMsgList links the messages both
 ways

The messages kept no pointer to their predecessors, so removing one from
a parsed bundle left it reachable, and messages already in the bundle
were dropped.
---
 osc_bundle_u.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 94d10c7..89975b5 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -379,17 +379,12 @@ t_osc_err osc_bundle_u_addMsgList(t_osc_bndl_u *bndl, t_osc_msg_u *msgs)
 	if(!bndl){
 		return OSC_ERR_NOBUNDLE;
 	}
-	int n = 0;
-	t_osc_msg_u *last = msgs;
-	bndl->msghead = msgs;
 	while(msgs){
-		n++;
-		last = msgs;
-		msgs = osc_message_u_next(msgs);
+		t_osc_msg_u *next = osc_message_u_next(msgs);
+		osc_bundle_u_addMsg(bndl, msgs);
+		msgs = next;
 	}
-	bndl->msgcount = n;
-	bndl->msgtail = last;
-	return 0;
+	return OSC_ERR_NONE;
 }
 
 t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
-- 
2.43.0


From e527493da64db67027f75901b5da7bce0a66c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 09/98] fix: bundle lookups skip messages that have no address

---
 osc_bundle_u.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 89975b5..25de71d 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -227,6 +227,9 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 			matchbuflen += 16;
 		}
 		t_osc_msg_u *current_message = osc_bndl_it_u_next(it);
+		if(!osc_message_u_getAddress(current_message)){
+			continue;
+		}
 		int po, ao;
 		int r = osc_match(address, osc_message_u_getAddress(current_message), &po, &ao);
 		if(fullmatch){
@@ -275,7 +278,7 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
             t_osc_msg_u *m = bndl->msghead;
             while(m){
                 t_osc_msg_u *next = m->next;
-                if(!strcmp(address, osc_message_u_getAddress(m))){
+                if(osc_message_u_getAddress(m) && !strcmp(address, osc_message_u_getAddress(m))){
                     // later maybe try to maintain memmory location if the value is a bundle?
                     // in that case we might not clear first, but copy the new value into the bundle at this message
                     t_osc_msg_u * next = m->next;
@@ -410,11 +413,11 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 
 void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
 {
-    if(address){
+    if(bndl && address){
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            if(osc_message_u_getAddress(m) && !strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
             }
-- 
2.43.0


From fd0ddc1ace90ce9f49c9ebc52f3eb6f5bcaa7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 10/98] fix: read 8- and 16-bit integers and negative ints from
 serialised atoms

---
 osc_atom_s.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..0717f62 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -230,7 +230,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int32_t)ntoh32(*((int32_t *)(a->data)));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +241,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -325,7 +325,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
@@ -363,10 +363,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
-- 
2.43.0


From 439cc1af5111ab14eb608a46e88d4d99e25356b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 11/98] fix: copies of strings and blobs stay inside their
 buffers and are terminated

---
 osc_atom_s.c | 24 ++++++++++++++++--------
 osc_atom_u.c |  5 ++++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 0717f62..eef37a8 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -491,7 +491,10 @@ int osc_atom_s_getString(t_osc_atom_s *a, size_t n, char **out)
 	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->data, nn);
+		if(nn > 0){
+			strncpy(*out, a->data, nn);
+			(*out)[nn - 1] = '\0';
+		}
 		break;
 	case 'i': // signed 32-bit int
 		{
@@ -696,14 +699,19 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 		}
 		*buflen += 4;
 		*blob = osc_mem_alloc(*buflen);
+		if(!(*blob)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
-	switch(osc_atom_s_getTypetag(a)){
-	case 'b':
-		memcpy(*blob, a->data, *buflen);
-		break;
-	default:
-		*((int32_t *)(*blob)) = hton32(bloblen);
-		memcpy((*blob) + 4, a->data, *buflen);
+	if(*buflen < 4){
+		return OSC_ERR_NONE;
+	}
+	memset(*blob, '\0', *buflen);
+	*((int32_t *)(*blob)) = hton32(bloblen);
+	if(a->data){
+		memcpy((*blob) + 4,
+		       osc_atom_s_getTypetag(a) == 'b' ? a->data + 4 : a->data,
+		       bloblen < *buflen - 4 ? bloblen : *buflen - 4);
 	}
 	return OSC_ERR_NONE;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 06b3af3..4f8761b 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -762,7 +762,10 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->w.s, nn);
+		if(nn > 0){
+			strncpy(*out, a->w.s, nn);
+			(*out)[nn - 1] = '\0';
+		}
 		break;
 	case 'i': // signed 32-bit int
 		osc_strfmt_int32(*out, nn, a->w.i);
-- 
2.43.0


From 2fdfa325be1592726c176a776b75c9b69f475d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 12/98] fix: the text length of an unsigned 8-bit integer
 matches its text

---
 osc_atom_s.c | 2 +-
 osc_atom_u.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index eef37a8..b7476ac 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -433,7 +433,7 @@ int osc_atom_s_getStringLen(t_osc_atom_s *a)
 	case 'C': // unsigned 8-bit int
 		{
 			uint8_t i = (uint8_t)ntoh32(*((int32_t *)(a->data)));
-			return osc_strfmt_uint32(NULL, 0, i);
+			return osc_strfmt_uint8(NULL, 0, i);
 		}
 	case 'u': // signed 16-bit int
 		{
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 4f8761b..b82e465 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -727,7 +727,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
-- 
2.43.0


From b219e330519f424dc97c5d9ce96b82bc11cc6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 13/98] fix: allocate room for the whole header of an empty
 bundle

---
 osc_bundle_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..faca4c6 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -54,7 +54,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -499,7 +499,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
-- 
2.43.0


From df4f397d48d21df957d21693a79cd657114e1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 14/98] fix: osc_bundle_s_addressIsBound finds the message's
 own type tags

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index faca4c6..0472358 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -196,7 +196,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
-- 
2.43.0


From 7101fc0e7055fe582d6c542cb9826be2390e2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 15/98] fix: a malformed pattern does not match every address

---
 osc_bundle_s.c | 6 +++---
 osc_bundle_u.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 0472358..b2ceedd 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -190,7 +190,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + size;
 				continue;
 			}
@@ -225,7 +225,7 @@ t_osc_err osc_bundle_s_addressExists(long len, char *buf, char *address, int ful
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + ntoh32(*((int32_t *)msg));
 				continue;
 			}
@@ -256,7 +256,7 @@ t_osc_msg_ar_s *osc_bundle_s_lookupAddress(long len, char *buf, const char *addr
 				goto cont;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				goto cont;
 			}
 		}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 25de71d..7759552 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -148,7 +148,7 @@ t_osc_err osc_bundle_u_addressExists(t_osc_bndl_u *bndl, char *address, int full
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
@@ -176,7 +176,7 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }else{
-            if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+            if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
                 continue;
             }
         }
@@ -237,7 +237,7 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r >= OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
-- 
2.43.0


From c661751689e6a0eb1309779624f3fcfb91cebb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 16/98] fix: bundles made by wrapping and by set operations
 have a defined time tag

---
 osc_bundle_s.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index b2ceedd..b4afba9 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -339,7 +339,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		}
 		*alloc = 1;
 	}
-	osc_bundle_s_setBundleID(*bndl);
+	memcpy(*bndl, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 	*((int32_t *)((*bndl) + OSC_HEADER_SIZE)) = hton32(len);
 	memcpy((*bndl) + OSC_HEADER_SIZE + 4, msg, len);
 	return OSC_ERR_NONE;
@@ -699,7 +699,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
-		osc_bundle_s_setBundleID(bndl_out);
+		memcpy(bndl_out, bndl1 ? bndl1 : OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
 	}
@@ -756,7 +756,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
-		osc_bundle_s_setBundleID(*bndl_out);
+		memcpy(*bndl_out, bndl1 ? bndl1 : OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
@@ -801,7 +801,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
-		osc_bundle_s_setBundleID(*bndl_out);
+		memcpy(*bndl_out, bndl1 ? bndl1 : OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From c39a8608ac8380ce692f6e37efddd298c7cb259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 17/98] fix: sanity checks stay within the bytes given and
 check addresses, type tags, argument data and nested bundles

---
 osc_error.c | 112 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 94 insertions(+), 18 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..92ffa1a 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -26,6 +26,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <stdarg.h>
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_util.h"
 #include "osc_bundle_s.h"
 #include "osc_byteorder.h"
 
@@ -134,6 +135,94 @@ char *osc_error_string(t_osc_err err)
 	}
 }
 
+// the space taken by the padded string at ptr, or -1 if it doesn't end before end
+static long osc_error_paddedStringSize(char *ptr, char *end)
+{
+	if(ptr >= end || !memchr(ptr, '\0', end - ptr)){
+		return -1;
+	}
+	long n = osc_util_getPaddedStringLen(ptr);
+	return n > end - ptr ? -1 : n;
+}
+
+// verifies a message that occupies at most len bytes, including the size
+static t_osc_err osc_error_checkMsg(char *msg, long len)
+{
+	if(len < 4){
+		return OSC_ERR_MSGTOOSMALL;
+	}
+	int32_t size = ntoh32(*((int32_t *)msg));
+	if(size < 4){
+		return OSC_ERR_MSGTOOSMALL;
+	}
+	if(size > len - 4){
+		return OSC_ERR_MSGTOOLARGE;
+	}
+	if(size % 4){
+		return OSC_ERR_MALFORMEDMSG;
+	}
+	char *ptr = msg + 4;
+	char *end = ptr + size;
+	if(*ptr != '/'){
+		return OSC_ERR_MALFORMEDADDRESS;
+	}
+	long n = osc_error_paddedStringSize(ptr, end);
+	if(n < 0){
+		return OSC_ERR_MALFORMEDADDRESS;
+	}
+	ptr += n;
+	if(ptr == end){
+		return OSC_ERR_NONE; // no typetags and no data
+	}
+	n = osc_error_paddedStringSize(ptr, end);
+	if(n < 0 || *ptr != ','){
+		return OSC_ERR_MALFORMEDMSG;
+	}
+	char *tt = ptr + 1;
+	ptr += n;
+	for(; *tt; tt++){
+		long datasize = -1;
+		switch(*tt){
+		case 's':
+		case 'S':
+			datasize = osc_error_paddedStringSize(ptr, end);
+			break;
+		case 'b':
+		case OSC_BUNDLE_TYPETAG:
+			{
+				int32_t l = -1;
+				if(end - ptr >= 4){
+					l = ntoh32(*((int32_t *)ptr));
+				}
+				if(l < 0 || l > end - ptr - 4){
+					return OSC_ERR_MALFORMEDMSG;
+				}
+				if(*tt == OSC_BUNDLE_TYPETAG){
+					t_osc_err ret = osc_error_bundleSanityCheck(l, ptr + 4);
+					if(ret){
+						return ret;
+					}
+				}
+				datasize = osc_sizeof(*tt, ptr);
+			}
+			break;
+		default:
+			{
+				size_t s = osc_sizeof(*tt, ptr);
+				if(s > 16){ // not a type we know the size of
+					return OSC_ERR_BADTYPETAG;
+				}
+				datasize = s;
+			}
+		}
+		if(datasize < 0 || datasize > end - ptr){
+			return OSC_ERR_MALFORMEDMSG;
+		}
+		ptr += datasize;
+	}
+	return OSC_ERR_NONE;
+}
+
 t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 {
 	if(!bundle){
@@ -146,33 +235,20 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 		return OSC_ERR_NOBUNDLEID;
 	}
 	char *ptr = bundle + OSC_HEADER_SIZE;
-	int cumsize = OSC_HEADER_SIZE;
 	while((ptr - bundle) < len){
-		cumsize += 4; // msg size
-		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
-		if(cumsize > len){
-			return OSC_ERR_MSGTOOLARGE;
-		}
-		int ret;
-		if((ret = osc_error_msgSanityCheck(ptr))){
+		t_osc_err ret = osc_error_checkMsg(ptr, len - (ptr - bundle));
+		if(ret){
 			return ret;
 		}
-		ptr += size + 4;
+		ptr += ntoh32(*((int32_t *)ptr)) + 4;
 	}
 	return OSC_ERR_NONE;
 }
 
 t_osc_err osc_error_msgSanityCheck(char *msg)
 {
-	int size = ntoh32(*((uint32_t *)msg));
-	if(size < 4){
-		return OSC_ERR_MSGTOOSMALL;
-	}
-	if(*(msg + 4) != '/'){
-		return OSC_ERR_MALFORMEDADDRESS;
-	}
-	return OSC_ERR_NONE;
+	int32_t size = ntoh32(*((int32_t *)msg));
+	return osc_error_checkMsg(msg, (long)size + 4);
 }
 
 t_osc_err osc_error_validateAddress(char *address){
-- 
2.43.0


From 50695d8dc177513435afd8a16b247e419e770aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 18/98] fix: formatting into a buffer that is too short no
 longer writes past it

---
 osc_bundle_s.c  |  9 +++++----
 osc_bundle_u.c  | 13 +++++++------
 osc_message_s.c | 17 +++++++++--------
 osc_message_u.c | 13 +++++++------
 osc_strfmt.c    | 19 +++++++++++--------
 osc_strfmt.h    |  4 ++++
 6 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index b4afba9..1dcadf1 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -40,6 +40,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_atom_s.h"
 #include "osc_util.h"
 #include "osc_array.h"
+#include "osc_strfmt.h"
 
 #define myprintf(st, args...)
 //#define myprintf(st, args...)printf(st, ##args)
@@ -650,9 +651,9 @@ long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int ninde
 	}else{
 		while(osc_bndl_it_s_hasNext(it)){
 			t_osc_msg_s *m = osc_bndl_it_s_next(it);
-			offset += osc_message_s_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_s_nformat(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), m, nindent);
 			if(osc_bndl_it_s_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), ",\n");
 			}
 		}
 	}
@@ -677,8 +678,8 @@ long osc_bundle_s_nformatNestedBndl(char *buf, long n, long bndllen, char *bndl,
 		offset += osc_bundle_s_nformat(NULL, 0, bndllen, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += osc_bundle_s_nformat(buf + offset, n - offset, bndllen, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += osc_bundle_s_nformat(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), bndllen, bndl, nindent);
+		offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "\n%s}", tabs);
 	}
 	return offset;
 }
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 7759552..c8d61bd 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -37,6 +37,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_bundle_u.r"
 #include "osc_bundle_iterator_u.h"
 #include "osc_array.h"
+#include "osc_strfmt.h"
 
 t_osc_bndl_u *osc_bundle_u_alloc(void)
 {
@@ -668,11 +669,11 @@ long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 			}
 		}
 	}else{
-		while(osc_bndl_it_u_hasNext(it) && offset < n){
+		while(osc_bndl_it_u_hasNext(it)){
 			t_osc_msg_u *m = osc_bndl_it_u_next(it);
-			offset += osc_message_u_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_u_nformat(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), m, nindent);
 			if(osc_bndl_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), ",\n");
 			}
 		}
 	}
@@ -697,9 +698,9 @@ long osc_bundle_u_nformatNestedBndl(char *buf, long n, t_osc_bndl_u *bndl, int n
 		offset += osc_bundle_u_nformat(NULL, 0, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += snprintf(buf + offset, n - offset, "{\n");
-		offset += osc_bundle_u_nformat(buf + offset, n - offset, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "{\n");
+		offset += osc_bundle_u_nformat(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), bndl, nindent);
+		offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "\n%s}", tabs);
 
 	}
 	return offset;
diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..54b032e 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -32,6 +32,7 @@
 #include "osc_array.h"
 #include "osc_mem.h"
 #include "osc_util.h"
+#include "osc_strfmt.h"
 
 t_osc_msg_s *osc_message_s_alloc(void)
 {
@@ -342,29 +343,29 @@ long osc_message_s_nformat(char *buf, long n, t_osc_msg_s *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "%s%s : [", tabs, osc_message_s_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "%s%s : ", tabs, osc_message_s_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_s_getAddress(m));
+			offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "%s%s", tabs, osc_message_s_getAddress(m));
 		}
 		while(osc_msg_it_s_hasNext(it)){
 			//offset += snprintf(NULL, 0, " ");
 			t_osc_atom_s *a = osc_msg_it_s_next(it);
-			offset += osc_atom_s_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_s_nformat(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), a, nindent);
 			if(osc_msg_it_s_hasNext(it)){
 				//if(osc_atom_s_getTypetag(a) == OSC_BUNDLE_TYPETAG){
-				//offset += snprintf(buf + offset, n - offset, ",\n");
+				//offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), ",\n");
 				//}else{
-					offset += snprintf(buf + offset, n - offset, ", ");
+					offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), ", ");
 					//}
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "]");
 		}
-		//offset += snprintf(buf + offset, n - offset, "\n");
+		//offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "\n");
 	}
 	osc_msg_it_s_destroy(it);
 	return offset;
diff --git a/osc_message_u.c b/osc_message_u.c
index 8447758..9affac2 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -33,6 +33,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_mem.h"
 #include "osc_byteorder.h"
 #include "osc_util.h"
+#include "osc_strfmt.h"
 
 t_osc_msg_u *osc_message_u_alloc()
 {
@@ -1091,22 +1092,22 @@ long osc_message_u_nformat(char *buf, long n, t_osc_msg_u *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "%s%s : [", tabs, osc_message_u_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "%s%s : ", tabs, osc_message_u_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_u_getAddress(m));
+			offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "%s%s", tabs, osc_message_u_getAddress(m));
 		}
 		while(osc_msg_it_u_hasNext(it)){
 			t_osc_atom_u *a = osc_msg_it_u_next(it);
-			offset += osc_atom_u_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_u_nformat(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), a, nindent);
 			if(osc_msg_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ", ");
+				offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), ", ");
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(OSC_STRFMT_PTR(buf, n, offset), OSC_STRFMT_LEN(n, offset), "]");
 		}
 	}
 	osc_msg_it_u_destroy(it);
diff --git a/osc_strfmt.c b/osc_strfmt.c
index 952dfc4..14832bb 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -127,12 +127,15 @@ int osc_strfmt_blob(char *buf, size_t n, char *blob)
 	char *ptr = blob + 4;
 	int32_t len = ntoh32(*((int32_t *)blob));
 	int c = 0;
+	if(len < 1){
+		return snprintf(buf, n, "blob()");
+	}
 	if(buf){
 		c = snprintf(buf, n, "blob(%d", *ptr++);
 		for(int i = 1; i < len; i++){
-			c += snprintf(buf + c, n - c, ", %d", *ptr++);
+			c += snprintf(OSC_STRFMT_PTR(buf, n, c), OSC_STRFMT_LEN(n, c), ", %d", *ptr++);
 		}
-		c += snprintf(buf + c, n - c, ")");
+		c += snprintf(OSC_STRFMT_PTR(buf, n, c), OSC_STRFMT_LEN(n, c), ")");
 	}else{
 		c = snprintf(NULL, 0, "blob(%d", *ptr++);
 		for(int i = 1; i < len; i++){
@@ -177,8 +180,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 		}
 		if(i < n){
 			buf[i] = '\0';
-		}else{
-			buf[i - 1] = '\0';
+		}else if(n > 0){
+			buf[n - 1] = '\0';
 		}
 		return i;
 	}
@@ -189,8 +192,8 @@ int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str)
 	if(!str){
 		return 0;
 	}
-	if(!buf){
-		return osc_strfmt_stringWithQuotedMeta(buf, n, str) + 2;
+	if(!buf || n < 1){
+		return osc_strfmt_stringWithQuotedMeta(NULL, 0, str) + 2;
 	}else{
 		char tmp[n];
 		int nn = osc_strfmt_stringWithQuotedMeta(tmp, n, str);
@@ -213,7 +216,7 @@ int osc_strfmt_addQuotes(int len, char *buf, char **out)
 	}
 	strncpy((*out) + i, buf, len);
 	i += len;
-	if(buf[len - 1] != '\"'){
+	if(len < 1 || buf[len - 1] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	(*out)[i] = '\0';
@@ -250,7 +253,7 @@ int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **out)
 	}
 	int n = len + 2 + osc_strfmt_countMeta(len, buf);
 	if(!(*out)){
-		*out = osc_mem_alloc(n);
+		*out = osc_mem_alloc(n + 1);
 	}
 	int i = 0;
 	if(1){//buf[0] != '\"'){
diff --git a/osc_strfmt.h b/osc_strfmt.h
index 37fe9b2..564355b 100644
--- a/osc_strfmt.h
+++ b/osc_strfmt.h
@@ -41,6 +41,10 @@ extern "C" {
 #define OSC_DEPRECATED(decl, msg) decl __attribute__((deprecated(msg)));
 #endif
 
+// where the next part of a text goes after offset bytes of a buffer of n: nowhere (just get its length) once the buffer is full
+#define OSC_STRFMT_PTR(buf, n, offset) ((offset) < (n) ? (buf) + (offset) : NULL)
+#define OSC_STRFMT_LEN(n, offset) ((offset) < (n) ? (n) - (offset) : 0)
+
 #define OSC_STRFMT_META_CHARS ((char []){'"', '\\'})
 
 int osc_strfmt_int8(char *buf, size_t n, int8_t i);
-- 
2.43.0


From 397303a1620f178f720d5bbc36c1a9b66dd48a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 19/98] fix: arguments of types without an editable form become
 nil when deserialised

---
 osc_atom_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index b7476ac..f5a213e 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -1013,6 +1013,10 @@ void osc_atom_s_deserializeInto(t_osc_atom_u **dest, t_osc_atom_s *src)
 	case 'b':
 		osc_atom_u_setBlob(atom_u, a->data);
 		break;
+	default:
+		// there's no editable form of this type
+		osc_atom_u_setNil(atom_u);
+		break;
 	}	
 }
 
-- 
2.43.0


From 13056b4c774491eee89d119ae7d33e207f973db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 20/98] fix: renaming a message without type tags copied from a
 null pointer

---
 osc_message_s.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 54b032e..cce0b9e 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -151,7 +151,9 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	if(src->typetags){
+		memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	}
 	return newlen;
 }
 
-- 
2.43.0


From 91d3a6c75f537db682901cc793a1e83b5089fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 21/98] fix: formatting an empty bundle left the text
 unterminated

---
 osc_bundle_s.c | 3 +++
 osc_bundle_u.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 1dcadf1..51d1699 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -630,6 +630,9 @@ long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int ninde
 	if(!bndl){
 		return 0;
 	}
+	if(buf && n > 0){
+		*buf = '\0';
+	}
 	int msgcount = 0;
 	t_osc_err e = osc_bundle_s_getMsgCount(bndllen, bndl, &msgcount);
 	if(e){
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index c8d61bd..f2bb2c7 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -655,6 +655,9 @@ char *osc_bundle_u_format(t_osc_bndl_u *bndl)
 
 long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 {
+	if(buf && n > 0){
+		*buf = '\0';
+	}
 	if(!bndl || osc_bundle_u_getMsgCount(bndl) == 0){
 		return 0;
 	}
-- 
2.43.0


From 8fa845531840a4918ed570a82021efb6dd3bf8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 22/98] fix: storeSafe of a key already present leaked the new
 element

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..71f134e 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From 2bb9bc47b8bd7a2fb33d5d1ef2438d0fcb804cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 23/98] fix: hash tables of more than 152287 slots read past
 the table of primes

---
 osc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index 71f134e..99f4e8d 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -87,7 +87,7 @@ static uint32_t osc_hashtab_getPrime(uint32_t n){
 			return primes[i];
 		}
 	}
-	return primes[i];
+	return primes[i - 1];
 }
 
 static void osc_hashtab_rehash(t_osc_hashtab *ht)
-- 
2.43.0


From b1cdff0600d2d4e984361d47fa352d731fff44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 24/98] fix: osc_hashtab_remove compared keys with one its
 destructor had freed

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index 99f4e8d..1a71a69 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -254,6 +254,7 @@ void osc_hashtab_remove(t_osc_hashtab *ht, int keylen, char *key, t_osc_hashtab_
 			}
 			ht->nentries--;
 			osc_mem_free(e);
+			return; // keys are unique, and the destructor may have freed the one we were given
 		}else{
 			prev = e;
 		}
-- 
2.43.0


From 5eb745e16cada980f0bad0b8dd32efecd5d0a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 25/98] fix: arrays grow when copied into, and survive a failed
 or empty resize

---
 osc_array.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..7f994d0 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -43,6 +43,10 @@ t_osc_array *osc_array_allocWithSize(long len, size_t membersize)
 		ar->ar = NULL;
 	}else{
 		ar->ar = osc_mem_alloc(len * membersize);
+		if(!(ar->ar)){
+			osc_mem_free(ar);
+			return NULL;
+		}
 	}
 	ar->len = len;
 	ar->membersize = membersize;
@@ -63,7 +67,7 @@ void osc_array_free(t_osc_array *ar)
 
 void osc_array_clear(t_osc_array *ar)
 {
-	if(ar){
+	if(ar && ar->ar){
 		memset(ar->ar, '\0', ar->len * ar->membersize);
 	}
 }
@@ -72,7 +76,7 @@ void *osc_array_get(t_osc_array *ar, long idx){
 	if(!ar){
 		return NULL;
 	}
-	if(ar->len <= idx){
+	if(idx < 0 || ar->len <= idx){
 		return NULL;
 	}
 	return ar->ar + (idx * ar->membersize);
@@ -92,7 +96,9 @@ t_osc_array *osc_array_copy(t_osc_array *array)
 		return NULL;
 	}
 	t_osc_ar *cp = osc_array_allocWithSize(array->len, array->membersize);
-	memcpy(cp->ar, array->ar, cp->len * cp->membersize);
+	if(cp && cp->ar){
+		memcpy(cp->ar, array->ar, cp->len * cp->membersize);
+	}
 	return cp;
 }
 
@@ -105,28 +111,36 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
-	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
-			}
+		if(!(*dest)){
+			return OSC_ERR_OUTOFMEM;
+		}
+	}else if((*dest)->len < destlen){
+		t_osc_err e = osc_array_resize(*dest, destlen);
+		if(e){
+			return e;
 		}
 	}
-	memcpy((*dest)->ar + (offset * srcsize), src->ar, srclen_bytes);
+	if(srclen_bytes > 0){
+		memcpy((*dest)->ar + (offset * srcsize), src->ar, srclen_bytes);
+	}
 	return OSC_ERR_NONE;
 }
 
 t_osc_err osc_array_resize(t_osc_array *array, int newlen)
 {
-	if(!array){
+	if(!array || newlen < 0){
 		return OSC_ERR_INVAL;
 	}
-	array->ar = osc_mem_resize(array->ar, newlen * array->membersize);
-	if(array->ar){
+	if(newlen == 0){
+		// resizing the memory to 0 bytes could free it
+		array->len = 0;
+		return OSC_ERR_NONE;
+	}
+	char *ar = osc_mem_resize(array->ar, newlen * array->membersize);
+	if(ar){
+		array->ar = ar;
 #ifdef OSC_ARRAY_CLEAR_ON_ALLOC
 		if(newlen > array->len){
 			memset(array->ar + (array->len * array->membersize), '\0', (newlen - array->len) * array->membersize);
@@ -135,7 +149,6 @@ t_osc_err osc_array_resize(t_osc_array *array, int newlen)
 		array->len = newlen;
 		return OSC_ERR_NONE;
 	}else{
-		array->len = 0;
 		return OSC_ERR_OUTOFMEM;
 	}
 }
-- 
2.43.0


From 3d36273473db7c34a7ec88ec712f01f8f51aff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 26/98] fix: atom array conversions and copies report running
 out of memory

---
 osc_atom_array_s.c | 21 +++++++++++++++++++++
 osc_atom_array_u.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 64 insertions(+), 3 deletions(-)

diff --git a/osc_atom_array_s.c b/osc_atom_array_s.c
index 5badf8f..c8865a2 100644
--- a/osc_atom_array_s.c
+++ b/osc_atom_array_s.c
@@ -40,6 +40,9 @@ t_osc_err osc_atom_array_s_getDoubleArray(t_osc_atom_ar_s *array, double **out){
 	long len = osc_atom_array_s_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(double) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -52,6 +55,9 @@ t_osc_err osc_atom_array_s_getFloatArray(t_osc_atom_ar_s *array, float **out){
 	long len = osc_atom_array_s_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(float) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -64,6 +70,9 @@ t_osc_err osc_atom_array_s_getInt32Array(t_osc_atom_ar_s *array, int32_t **out){
 	long len = osc_atom_array_s_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(int32_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -76,6 +85,9 @@ t_osc_err osc_atom_array_s_getInt64Array(t_osc_atom_ar_s *array, int64_t **out){
 	long len = osc_atom_array_s_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(int64_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -88,6 +100,9 @@ t_osc_err osc_atom_array_s_getUInt32Array(t_osc_atom_ar_s *array, uint32_t **out
 	long len = osc_atom_array_s_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(uint32_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -100,6 +115,9 @@ t_osc_err osc_atom_array_s_getUInt64Array(t_osc_atom_ar_s *array, uint64_t **out
 	long len = osc_atom_array_s_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(uint64_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -112,6 +130,9 @@ t_osc_err osc_atom_array_s_getBoolArray(t_osc_atom_ar_s *array, char **out){
 	long len = osc_atom_array_s_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(char) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index d97f6a0..76f493f 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -54,6 +54,9 @@ t_osc_err osc_atom_array_u_getDoubleArray(t_osc_atom_ar_u *array, double **out)
 	long len = osc_atom_array_u_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(double) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -67,6 +70,9 @@ t_osc_err osc_atom_array_u_getFloatArray(t_osc_atom_ar_u *array, float **out)
 	long len = osc_atom_array_u_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(float) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -80,6 +86,9 @@ t_osc_err osc_atom_array_u_getInt32Array(t_osc_atom_ar_u *array, int32_t **out)
 	long len = osc_atom_array_u_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(int32_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -93,6 +102,9 @@ t_osc_err osc_atom_array_u_getInt64Array(t_osc_atom_ar_u *array, int64_t **out)
 	long len = osc_atom_array_u_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(int64_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -106,6 +118,9 @@ t_osc_err osc_atom_array_u_getUInt32Array(t_osc_atom_ar_u *array, uint32_t **out
 	long len = osc_atom_array_u_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(uint32_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -119,6 +134,9 @@ t_osc_err osc_atom_array_u_getUInt64Array(t_osc_atom_ar_u *array, uint64_t **out
 	long len = osc_atom_array_u_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(uint64_t) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -132,6 +150,9 @@ t_osc_err osc_atom_array_u_getBoolArray(t_osc_atom_ar_u *array, char **out)
 	long len = osc_atom_array_u_getLen(array);
 	if(!(*out)){
 		*out = osc_mem_alloc(sizeof(char) * len);
+		if(len && !(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	int i;
 	for(i = 0; i < len; i++){
@@ -144,9 +165,14 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 {
 	long arlen = osc_atom_array_u_getLen(array);
 	long buflen = *len;
+	int allocated = 0;
 	if(!(*out)){
+		allocated = 1;
 		buflen = 256;
 		*out = osc_mem_alloc(buflen); // guess that each element will be around 8 chars
+		if(!(*out)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	char *ptr = *out;
 	int seplen = 0;
@@ -155,16 +181,21 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 	}
 	int i;
 	for(i = 0; i < arlen; i++){
-		int n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i));
+		// room for the separator and the terminator as well
+		long n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i)) + seplen + 1;
 		if((buflen - (ptr - *out)) < n){
 			long offset = ptr - *out;
-			int nbytes = n * (arlen - i) + 1; // assume the rest of the atoms are the same size
+			long nbytes = n * (arlen - i); // assume the rest of the atoms are the same size
 			char *tmp = osc_mem_resize(*out, buflen + nbytes);
 			if(tmp){
 				*out = tmp;
 				ptr = (*out) + offset;
 				buflen += nbytes;
 			}else{
+				if(allocated){
+					osc_mem_free(*out);
+					*out = NULL;
+				}
 				return OSC_ERR_OUTOFMEM;
 			}
 		}
@@ -189,6 +220,9 @@ t_osc_atom_array_u *osc_atom_array_u_copy(t_osc_atom_array_u *array)
 	}
 	long len = osc_array_getLen((t_osc_array *)array);
 	t_osc_ar *cp = osc_atom_array_u_alloc(len);
+	if(!cp){
+		return NULL;
+	}
 	//memcpy(cp->ar, array->ar, cp->len * cp->membersize);
 	int i;
 	for(i = 0; i < len; i++){
@@ -208,8 +242,14 @@ t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_
 	long destlen = srclen + offset;
 	if(!(*dest)){
 		*dest = osc_atom_array_u_alloc(destlen);
+		if(!(*dest)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}else if(osc_atom_array_u_getLen(*dest) < destlen){
-		osc_atom_array_u_resize(*dest, destlen);
+		t_osc_err e = osc_atom_array_u_resize(*dest, destlen);
+		if(e){
+			return e;
+		}
 	}
 	int i;
 	for(i = 0; i < srclen; i++){
-- 
2.43.0


From c5e689144684030376d858d7cbbe51a50206be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:02 +0000
Subject: [PATCH 27/98] fix: time tag subtraction borrows from the seconds when
 the first tag is earlier

---
 osc_timetag.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index ba4e9f3..271b11f 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -77,10 +77,9 @@ t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
 		}
 	}else{
 		r.sec = t2_ntp.sec - t1_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-		}else{
-			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		if(t1_ntp.frac_sec > t2_ntp.frac_sec){
+			r.sec--;
 		}
 	}
 
-- 
2.43.0


From e17051ca76d5e370761215fe2a306200206bdf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 28/98] fix: osc_timetag_now wrapped its fraction in the last
 microseconds of a second

---
 osc_timetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 271b11f..bc80aa0 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -612,7 +612,7 @@ t_osc_timetag osc_timetag_now(void)
 		//0 + //(uint32_t)(60 * tz.tz_minuteswest) +
 		//(uint32_t)(tz.tz_dsttime == 1 ? 3600 : 0);
     
-	n.frac_sec = (uint32_t)(tv.tv_usec * 4295); // 2^32-1 / 1.0e6
+	n.frac_sec = (uint32_t)(((uint64_t)tv.tv_usec << 32) / 1000000);
 
 	return *((t_osc_timetag *)(&n));
 #elif OSC_TIMETAG_FORMAT == OSC_TIMETAG_PTP
-- 
2.43.0


From 495f48a002ac30380c12a5d5a52b76b78f7bdd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 29/98] fix: time tags format as the date and time they stand
 for

---
 osc_timetag.c | 47 +++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index bc80aa0..a18285c 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -307,11 +307,18 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 {
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	char s1[20];
-	if(!buf){
-		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
-	}
 	uint32_t secs = osc_timetag_ntp_getSeconds(timetag);
-	unsigned short int year, month, day, hour, minute, yrcount, leap = 0;
+	// round to the nearest microsecond, carrying into the seconds
+	uint32_t usecs = (uint32_t)((((uint64_t)osc_timetag_ntp_getFraction(timetag)) * 1000000 + 0x80000000UL) >> 32);
+	if(usecs >= 1000000){
+		if(secs < 0xffffffff){
+			secs++;
+			usecs = 0;
+		}else{
+			usecs = 999999;
+		}
+	}
+	unsigned short int year, month, day, hour, minute, leap = 0;
 	
 	const DWORD SEC_PER_YEAR = 31536000;
 	const DWORD SEC_PER_DAY = 86400;
@@ -321,23 +328,14 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 0; secs >= SEC_PER_YEAR; year++){ //determine # years elapse since epoch
-		secs -= SEC_PER_YEAR;
-		if(osc_timetag_isleap(year)){
-			secs -= SEC_PER_DAY;
+	for(year = 1900; ; year++){ //determine # years elapse since epoch, 1/1/1900, 00:00
+		DWORD secs_in_year = SEC_PER_YEAR + (osc_timetag_isleap(year) ? SEC_PER_DAY : 0);
+		if(secs < secs_in_year){
+			break;
 		}
+		secs -= secs_in_year;
 	}
-	//year+=1970;  //1/1/1970, 00:00 is epoch
-	year += 1900;  //1/1/1900, 00:00 is ntp epoch
-	//for (yrcount=1970;yrcount<year;yrcount++) //scroll from 1970 to last year to find leap yrs.
-	/*
-	for(yrcount = 1900; yrcount < year; yrcount++){
-		leap = osc_timetag_isleap(yrcount);  
-		if(leap == 1){
-			secs -= SEC_PER_DAY;  //if it's a leap year, subtract a day's worth of seconds
-		}
-	} 
-	*/
+
 	leap = osc_timetag_isleap(year); //Is this a leap year?
 
 
@@ -422,14 +420,7 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 		s1[i++] = '\0';
 	}
 
-	double d = osc_timetag_ntp_to_float(timetag);
-	double dm1 = fmod(d, 1.0);
-	//int l = osc_strfmt_float64(NULL, 0, dm1);
-	int l = snprintf(NULL, 0, "%05fZ", dm1);
-	char s2[l + 1];
-	snprintf(s2, l, "%05fZ", dm1);
-	//osc_strfmt_float64(s2, l + 1, dm1);
-	return snprintf(buf, n, "%s.%sZ", s1, s2+2);
+	return snprintf(buf, buf ? n : 0, "%s.%06uZ", s1, usecs);
 
 	/*
 	time_t i;
@@ -463,7 +454,7 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	struct tm t;
 	memset(&t, '\0', sizeof(struct tm));
-	double fsec;
+	double fsec = 0;
 	//char s1[];
 	//memset(s1, '\0', sizeof(s1));
     
-- 
2.43.0


From b76154787a9880a089daefa4306fcc938d2779b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 30/98] fix: the streaming parser forgot that it had met an
 error

---
 osc_serial.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 3359f60..f1e3221 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -199,6 +199,11 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 	uint32_t count = s & 0x00000000ffffffff;
 	uint32_t ctrm4 = count % 4;
 
+	if(osc_serial_errorp(s)){
+		// stay here until the caller starts over with OSC_SERIAL_INIT
+		OSC_SERIAL_RETURN(s);
+	}
+
 	switch(macro){
 	case OSC_SERIAL_INIT:
 		switch(b){
-- 
2.43.0


From 0af0797adced4add28a7d9189518e1e8bd8625db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 31/98] fix: the streaming parser reads all four bytes of a
 message's size

---
 osc_serial.c | 43 ++++++++++++++++++++++++++-----------------
 osc_serial.h |  2 ++
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index f1e3221..9bcf3a1 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -90,7 +90,8 @@ static char *_osc_serial_addressMicroStr[] = {
 	"inside curly braces: comma",
 	"inside square brackets",
 	"inside square brackets: dash",
-	"null padding"
+	"null padding",
+	"first byte"
 };
 
 static char *_osc_serial_typetagMicroStr[] = {
@@ -190,6 +191,15 @@ int osc_serial_errorp(uint64_t state)
 	return (state & OSC_SERIAL_ERROR_MASK) != 0;
 }
 
+// first byte of the size of a message in a bundle
+static uint64_t osc_serial_processFirstSizeByte(char b)
+{
+	if(b & 0x80){
+		return OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_NEGATIVESIZE;
+	}
+	return OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | ((uint32_t)(b & 0xff) << 24);
+}
+
 uint64_t osc_serial_processByte(char b, uint64_t s)
 {
 	uint64_t macro = s & 0xff00000000000000;
@@ -274,36 +284,35 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			case 6:
 				OSC_SERIAL_RETURN(s + 1);
 			case 7:
-				// do negative size check
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 24));
+				OSC_SERIAL_RETURN(osc_serial_processFirstSizeByte(b));
 			}
 		}
 	case OSC_SERIAL_BUNDLE_MESSAGE:
 		switch(state){
 		case OSC_SERIAL_MESSAGE_SIZE:
 			{
-				int32_t c = count & 0xff;
+				uint32_t c = count & 0xff;
 				switch(c){
 				case 0:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 16) | (c + 1));
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xff000000) | ((uint32_t)(b & 0xff) << 16) | (c + 1));
 				case 1:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 8) | (c + 1));
-				case 2:
-					// negative size check
-					//count = ntoh32(count | b);
-					count = count | b;
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count - 2));
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xffff0000) | ((uint32_t)(b & 0xff) << 8) | (c + 1));
 				default:
-					//count = ntoh32(count);
-					if(b == '/'){
-						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
-					}else{
-						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
+					count = (count & 0xffffff00) | (uint32_t)(b & 0xff);
+					if(count % 4){
+						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_BADALIGNMENT);
 					}
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_FIRST | count);
 				}
 			}
 		case OSC_SERIAL_MESSAGE_ADDRESS:
 			switch(micro){
+			case OSC_SERIAL_MESSAGE_ADDRESS_FIRST:
+				if(b == '/'){
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
+				}else{
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
+				}
 			case 0:
 				switch(b){
 				case '[':
@@ -423,7 +432,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			}
 		case OSC_SERIAL_MESSAGE_DATA:
 			if(count <= 0){
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE);
+				OSC_SERIAL_RETURN(osc_serial_processFirstSizeByte(b));
 			}else{
 				OSC_SERIAL_RETURN(s - 1);
 			}
diff --git a/osc_serial.h b/osc_serial.h
index 8bd03ea..e5df7b1 100644
--- a/osc_serial.h
+++ b/osc_serial.h
@@ -10,6 +10,7 @@ header	   |    timetag    |	<none>     |
 	   |		   |		   |
 message	   |	size	   |	<none>	   |
 	   |		   |		   |
+message	   |	address	   |	first byte |
 message	   |	address	   |	<none>	   |
 message	   |	address	   |	curly br.  |
 message	   |	address	   |	square br. |
@@ -63,6 +64,7 @@ gone off the end of the buffer or started a new message.
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS 0x0000040000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH 0x0000080000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING 0x0000100000000000ull
+#define OSC_SERIAL_MESSAGE_ADDRESS_FIRST 0x0000200000000000ull
 
 // typetags micro states
 #define OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING 0x0000010000000000ull
-- 
2.43.0


From 1d199307a602cc6932635deefb3badb6c00a7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:23 +0000
Subject: [PATCH 32/98] fix: the streaming parser lost track of messages that
 end before or with their type tags

---
 osc_serial.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 9bcf3a1..3083888 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -200,7 +200,30 @@ static uint64_t osc_serial_processFirstSizeByte(char b)
 	return OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | ((uint32_t)(b & 0xff) << 24);
 }
 
+static uint64_t osc_serial_processMessageByte(char b, uint64_t s);
+
 uint64_t osc_serial_processByte(char b, uint64_t s)
+{
+	uint64_t r = osc_serial_processMessageByte(b, s);
+	if(!osc_serial_errorp(r) && (r & 0xff00000000000000) == OSC_SERIAL_BUNDLE_MESSAGE && (r & 0x00000000ffffffff) == 0){
+		// that was the last byte of the message
+		uint64_t micro = r & 0x0000ff0000000000;
+		switch(r & 0x00ff000000000000){
+		case OSC_SERIAL_MESSAGE_ADDRESS:
+			if(micro == OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING){
+				OSC_SERIAL_RETURN(r | OSC_SERIAL_ERROR_NOTYPETAGS);
+			}
+			OSC_SERIAL_RETURN(r | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+		case OSC_SERIAL_MESSAGE_TYPETAGS:
+			if(micro != OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING){
+				OSC_SERIAL_RETURN(r | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+			}
+		}
+	}
+	return r;
+}
+
+static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 {
 	uint64_t macro = s & 0xff00000000000000;
 	uint64_t state = s & 0x00ff000000000000;
@@ -421,6 +444,9 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				}
 			case OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING:
 				if(ctrm4 == 0){
+					if(count == 0){ // no data
+						OSC_SERIAL_RETURN(osc_serial_processFirstSizeByte(b));
+					}
 					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_DATA | (count - 1));
 				}else{
 					if(b == '\0'){
-- 
2.43.0


From 41852eee5d2fa64524fe3f2dfa52089eb668467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 33/98] fix: the streaming parser took two separators inside
 brackets for two in a row

---
 osc_serial.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 3083888..e9d0e89 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -356,6 +356,7 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 				case ',':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLECOMMA);
 				}
+				s = (s ^ OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS:
 				switch(b){
@@ -380,6 +381,7 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 				case '-':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLEDASH);
 				}
+				s = (s ^ OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS:
 				switch(b){
@@ -483,6 +485,7 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 				case ',':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLECOMMA);
 				}
+				s = (s ^ OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS:
 				switch(b){
@@ -505,6 +508,7 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 				case '-':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLEDASH);
 				}
+				s = (s ^ OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS:
 				switch(b){
-- 
2.43.0


From ed44f87a5c6ca558590e7ff24ffd811b3c87dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 34/98] fix: the streaming parser rejected blobs

---
 osc_serial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index e9d0e89..c7d24a3 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -433,6 +433,7 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
@@ -558,6 +559,7 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
-- 
2.43.0


From 2c9e9963d926c47f88fc0c0a127e3398ab48b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:27 +0000
Subject: [PATCH 35/98] fix: the streaming parser checks the brackets of
 messages outside bundles too

---
 osc_serial.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index c7d24a3..408b5f9 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -478,6 +478,10 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS) + 1);
 				case '\0':
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING) + 1);
+				case ']':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTSQUAREBRACKET);
+				case '}':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -501,6 +505,8 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA | (count + 1));
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -524,6 +530,8 @@ static uint64_t osc_serial_processMessageByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH | (count + 1));
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
-- 
2.43.0


From 367a172ae2818b5d9fd7e975d44defff70bea294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 36/98] fix: osc_vtable_free released everything but the table
 itself

---
 osc_vtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index 050333b..f71e848 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -65,6 +65,7 @@ void osc_vtable_free(t_osc_vtable *vtab){
 	if(vtab->hashtab){
 		osc_hashtab_destroy(vtab->hashtab);
 	}
+	osc_mem_free(vtab);
 }
 
 void osc_vtable_setDelegationMethod(t_osc_vtable *vtab,
-- 
2.43.0


From 07c89790a819b0f62ef63939c60a66ba378cbb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 37/98] fix: handlers could not be found by selector after the
 table had grown

---
 osc_vtable.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index f71e848..9219d51 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -27,6 +27,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
 #include "osc_error.h"
@@ -110,7 +111,7 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 	}
 	// osc_hashtab_store doesn't make a copy of the key, so make sure to use the selector that we have 
 	// allocated memory for.
-	osc_hashtab_store(vtab->hashtab, strlen(entry->selector), entry->selector, entry);
+	osc_hashtab_store(vtab->hashtab, strlen(entry->selector), entry->selector, (void *)(intptr_t)(vtab->num_entries));
 	return OSC_ERR_NONE;
 
 }
@@ -131,7 +132,9 @@ t_osc_vtable_entry *osc_vtable_getEntryByIndex(t_osc_vtable *vtab, int index){
 }
 
 t_osc_vtable_entry *osc_vtable_getEntryBySelector(t_osc_vtable *vtab, char *selector){
-	return osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector);
+	// the hash table holds positions (counted from 1), since entries move when the table grows
+	intptr_t position = (intptr_t)osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector);
+	return position > 0 ? &(vtab->entries[position - 1]) : NULL;
 }
 
 int osc_vtable_getIndexForEntry(t_osc_vtable *vtab, t_osc_vtable_entry *e){
@@ -142,7 +145,7 @@ int osc_vtable_getIndexForEntry(t_osc_vtable *vtab, t_osc_vtable_entry *e){
 }
 
 int osc_vtable_getIndexForSelector(t_osc_vtable *vtab, char *selector){
-	t_osc_vtable_entry *e = osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector);
+	t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(vtab, selector);
 	return osc_vtable_getIndexForEntry(vtab, e);
 }
 
@@ -185,7 +188,7 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	}
 	strncpy(e->selector, new_selector, newlen + 1);
 	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)e);
+	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)(intptr_t)(e - vtab->entries + 1));
 	return OSC_ERR_NONE;
 }
 
@@ -207,7 +210,7 @@ int osc_vtable_call(t_osc_vtable *vtab,
 		    t_osc_bndl_s *partial_matches,
 		    t_osc_bndl_s *complete_matches)
 {
-	t_osc_vtable_entry *e = osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector);
+	t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(vtab, selector);
 	if(!e){
 		return 1;
 	}
-- 
2.43.0


From 5479fc41d2abb1031108cff2d1962421f34f8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 38/98] fix: a renamed handler's key was the caller's string

---
 osc_vtable.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 9219d51..fd8c9b7 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -181,14 +181,20 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	if(!e){
 		return OSC_ERR_INVAL;
 	}
-	int oldlen = strlen(old_selector);
 	int newlen = strlen(new_selector);
-	if(newlen > oldlen){
-		e->selector = osc_mem_resize(e->selector, newlen + 1);
+	if(!strcmp(e->selector, new_selector)){
+		return OSC_ERR_NONE;
+	}
+	char *selector = osc_mem_alloc(newlen + 1);
+	if(!selector){
+		return OSC_ERR_OUTOFMEM;
 	}
-	strncpy(e->selector, new_selector, newlen + 1);
-	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)(intptr_t)(e - vtab->entries + 1));
+	memcpy(selector, new_selector, newlen + 1);
+	// the hash table uses the entry's own copy of the selector as its key
+	osc_hashtab_remove(vtab->hashtab, strlen(e->selector), e->selector, NULL);
+	osc_mem_free(e->selector);
+	e->selector = selector;
+	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)(intptr_t)(e - vtab->entries + 1));
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 97cb47d9335050c09d58fface2390151eaa06165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 39/98] fix: adding a handler leaves the table as it was when
 memory runs out

---
 osc_vtable.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index fd8c9b7..6a5c8e1 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -82,12 +82,6 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 			      t_osc_vtable_method method,
 			      void *context)
 {
-	if(vtab->num_entries >= vtab->num_slots){
-		vtab->entries = osc_mem_resize(vtab->entries, ++(vtab->num_slots) * sizeof(t_osc_vtable_entry));
-		if(!(vtab->entries)){
-			return OSC_ERR_OUTOFMEM;
-		}
-	}
 	t_osc_vtable_entry *entry = osc_vtable_getEntryBySelector(vtab, selector);
 	if(entry){
 		// already an entry with this selector.  blow away the old one.
@@ -96,22 +90,34 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 
+	if(vtab->num_entries >= vtab->num_slots){
+		t_osc_vtable_entry *entries = osc_mem_resize(vtab->entries, (vtab->num_slots + 1) * sizeof(t_osc_vtable_entry));
+		if(!entries){
+			return OSC_ERR_OUTOFMEM;
+		}
+		vtab->entries = entries;
+		vtab->num_slots++;
+	}
+	int len = strlen(selector);
+	char *selector_copy = osc_mem_alloc(len + 1);
+	if(!selector_copy){
+		return OSC_ERR_OUTOFMEM;
+	}
+	memcpy(selector_copy, selector, len + 1);
 	entry = &(vtab->entries[vtab->num_entries]);
 	vtab->num_entries++;
-	if(selector){
-		int len = strlen(selector);
-		entry->selector = osc_mem_alloc(len + 1);
-		strncpy(entry->selector, selector, len);
-		entry->selector[len] = '\0';
-	}
+	entry->selector = selector_copy;
+	entry->method_list = NULL;
 	entry->method = method;
 	entry->context = context;
-	if(!(vtab->hashtab)){
-		vtab->hashtab = osc_hashtab_new(-1, NULL);
-	}
 	// osc_hashtab_store doesn't make a copy of the key, so make sure to use the selector that we have 
 	// allocated memory for.
 	osc_hashtab_store(vtab->hashtab, strlen(entry->selector), entry->selector, (void *)(intptr_t)(vtab->num_entries));
+	if(!osc_vtable_getEntryBySelector(vtab, selector)){
+		vtab->num_entries--;
+		osc_mem_free(selector_copy);
+		return OSC_ERR_OUTOFMEM;
+	}
 	return OSC_ERR_NONE;
 
 }
-- 
2.43.0


From 66a3291cc2e2ab8d6d9772f1c5edba8dc45af60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:17 +0000
Subject: [PATCH 40/98] fix: dispatching to a table without a delegate called a
 null pointer

---
 osc_vtable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 6a5c8e1..466be7d 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -230,7 +230,9 @@ int osc_vtable_call(t_osc_vtable *vtab,
 }
 
 int osc_vtable_delegate(t_osc_vtable *vtab, long bndllen, char *bndl, t_osc_bndl_s *unmatched){
-	vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	if(vtab->delegation_method){
+		vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 66040486f4986ff9276bcc23c1df2440dfaf4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 41/98] fix: dispatch stripped the wrong number of characters
 from addresses with patterns

---
 osc_dispatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 21ad226..db683f9 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,7 +112,7 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - ao, address + ao);
+			osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-- 
2.43.0


From 470f352cd01fb8a5c90e63d042259b012677b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 42/98] fix: osc_dispatch_selectors read past its results for
 handlers added during dispatch

---
 osc_dispatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index db683f9..73b1e45 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -281,7 +281,9 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 		t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(vtab, selector);
 		if(e){
 			int index = osc_vtable_getIndexForEntry(vtab, e);
-			osc_vtable_callWithEntry(vtab, e, bndllen, bndl, partial_matches[index], complete_matches[index]);
+			if(index < nentries){ // otherwise it was added by a handler just now
+				osc_vtable_callWithEntry(vtab, e, bndllen, bndl, partial_matches[index], complete_matches[index]);
+			}
 		}
 	}
 	for(i = 0; i < nentries; i++){
-- 
2.43.0


From 6b175084abc6ee3581da09525a64fc9ccbd0018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:34 +0000
Subject: [PATCH 43/98] fix: flatten stepped on from an argument it had freed

---
 osc_bundle_u.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index f2bb2c7..631034b 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -447,9 +447,9 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		t_osc_msg_u *mcopy = NULL;
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
-			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
-			while(osc_msg_it_u_hasNext(mit)){
-				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+			t_osc_atom_u *next = NULL;
+			for(t_osc_atom_u *a = osc_message_u_getArg(mcopy, 0); a; a = next){
+				next = a->next; // a may be removed and freed
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
@@ -480,13 +480,14 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 									      sep,
 									      remove_enclosing_address_if_empty);
 					}
+					osc_atom_u_free(a);
 					if(e){
+						osc_message_u_free(mcopy);
+						osc_bndl_it_u_destroy(bit);
 						return e;
 					}
-					osc_atom_u_free(a);
 				}
 			}
-			osc_msg_it_u_destroy(mit);
 		}
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
-- 
2.43.0


From 892b0d7fb4a663ed484c540d0f3e214c40a68b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 44/98] fix: explode kept a separator other than / in front of
 the rest of the address

---
 osc_message_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 9affac2..9fe0816 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -905,7 +905,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, (alen - i)); // without the separator
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
@@ -940,7 +940,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, (alen - i)); // without the separator
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
-- 
2.43.0


From e1f2c3678cc55bbe9ea96f3291aa1b8ad6621ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 45/98] fix: explode put a message whose address is a pattern
 into a bundle it matches

---
 osc_message_u.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 9fe0816..80645f7 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -839,6 +839,15 @@ t_osc_atom_u *osc_message_u_insertBlob(t_osc_msg_u *m, char *b, int pos)
 	return a;
 }
 
+static t_osc_msg_u *osc_message_u_explode_find(t_osc_bndl_u *bndl, char *address)
+{
+	t_osc_msg_u *m = osc_bundle_u_getFirstMsg(bndl);
+	while(m && (!m->address || strcmp(m->address, address))){
+		m = osc_message_u_next(m);
+	}
+	return m;
+}
+
 static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg, int level, int maxlevel, char *sep)
 {
 	if(level >= maxlevel && maxlevel >= 0){
@@ -862,18 +871,16 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 	strncpy(a1, a, i);
 	a1[i] = '\0';
 
-	int exists = 0;
-	osc_bundle_u_addressExists(dest, a1, 1, &exists);
-	if(exists){
+	// compare addresses as they are; a pattern must not end up in a bundle it matches
+	t_osc_msg_u *existing = osc_message_u_explode_find(dest, a1);
+	if(existing){
 		if(a[i] == '\0'){
 			osc_bundle_u_addMsgWithoutDups(dest, msg);
 			return OSC_ERR_NONE;
 		}else{
-			t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(dest, a1, 1);
 			t_osc_msg_u *m = NULL;
 			t_osc_bndl_u *b = NULL;
-			osc_message_u_deepCopy(&m, osc_message_array_u_get(ar, 0));
-			osc_message_array_u_free(ar);
+			osc_message_u_deepCopy(&m, existing);
 			int argc = osc_message_u_getArgCount(m);
 			if(argc > 1 || argc == 0){
 				osc_message_u_clearArgs(m);
-- 
2.43.0


From 960f9bd61791a6cdc796bc17affb6df266d4884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 46/98] fix: free the values a text parse gives up on

---
 osc_parser.y | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/osc_parser.y b/osc_parser.y
index 23a62a1..8d1ff20 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -175,6 +175,22 @@ void yyerror (YYLTYPE *yylloc, t_osc_bndl_u **bndl, void *scanner, long *buflen,
 %type <atom>data datum list subbundle 
 %token <atom>OSCADDRESS OSCVALUE 
 
+%destructor {
+	// the parser gave up on this value: it may be the head of a list
+	while($$){
+		t_osc_atom_u *next = $$->next;
+		osc_atom_u_free($$);
+		$$ = next;
+	}
+} <atom>
+%destructor {
+	while($$){
+		t_osc_msg_u *next = $$->next;
+		osc_message_u_free($$);
+		$$ = next;
+	}
+} <message>
+
 %%
 
 bundle: 
-- 
2.43.0


From d0d06dec21f53d7a93d83224cf17919e5f7cf7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:14 +0000
Subject: [PATCH 47/98] fix: appending an atom to a list links it backwards too

---
 osc_atom_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index b82e465..59197b4 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -136,6 +136,9 @@ void osc_atom_u_append(t_osc_atom_u *a1, t_osc_atom_u *a2)
 		a1 = a1->next;
 	}
 	a1->next = a2;
+	if(a2){
+		a2->prev = a1;
+	}
 }
 
 char osc_atom_u_getTypetag(t_osc_atom_u *a)
-- 
2.43.0


From 0ad1f6a3a8881919c5f227a36db2412024a301ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 48/98] fix: text that is not accepted yields no bundle

---
 osc_parser.y | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/osc_parser.y b/osc_parser.y
index 8d1ff20..be08f22 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -118,7 +118,8 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	osc_scanner_set_out(NULL, scanner);
 	long buflen = 0;
 	char *buf = NULL;
-	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
+	t_osc_bndl_u *b = NULL;
+	int ret = osc_parser_parse(&b, scanner, &buflen, &buf);
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
 	/*
@@ -129,9 +130,16 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 		osc_mem_free(bl);
 	}
 	*/
+	if(buf){
+		// the text ended inside a quoted string
+		osc_mem_free(buf);
+	}
 	if(ret){
+		// the bundle may be complete by the time trailing text turns out to be wrong
+		osc_bundle_u_free(b);
 		return OSC_ERR_PARSER;
 	}
+	*bndl = b;
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 1731a384f8568109ed4270859eef53d3338ac6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 49/98] fix: release the buffer of a quoted string with escapes

---
 osc_scanner.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_scanner.l b/osc_scanner.l
index 78d7a87..0779796 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -72,7 +72,7 @@ quoted_string [^\"\\]
 <quote>{quoted_string}+ {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
-		*buflen += yyleng + 1;
+		*buflen += yyleng;
 		strcat(*buf, yytext);
 	}else{
 		yylval->atom = osc_atom_u_allocWithString(yytext);
@@ -84,6 +84,7 @@ quoted_string [^\"\\]
 	BEGIN(0);
 	if(*buf){
 		yylval->atom = osc_atom_u_allocWithString(*buf);
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSCVALUE;
-- 
2.43.0


From 8f7477285727497060dbd5fb15eb55f02ba75e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 50/98] fix: reject text with an unterminated string or stray
 non-ASCII bytes

---
 osc_scanner.l | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/osc_scanner.l b/osc_scanner.l
index 0779796..449b222 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -107,6 +107,15 @@ quoted_string [^\"\\]
 	}
 }
 
+<quote>\\ {
+	return *yytext;		// nothing follows that it could escape
+}
+
+<quote><<EOF>> {
+	BEGIN(0);
+	return '"';		// the string is not terminated
+}
+
 \"\" {
     yylval->atom = osc_atom_u_alloc();
     osc_atom_u_setString(yylval->atom, "");
@@ -188,6 +197,6 @@ nil					{
 
 [ \t\n]+
 
-. {return *yytext;}
+. {return (unsigned char)*yytext;}	// a negative value would mean the end of the text
 
 %%
-- 
2.43.0


From bb655e1b6ed4f69d72a742d33960145d7e7e430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 51/98] fix: keep integers that do not fit into 32 bits

---
 osc_scanner.l | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/osc_scanner.l b/osc_scanner.l
index 449b222..6ba7c84 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -26,6 +26,8 @@
 */
 
 %{
+#include <stdint.h>
+#include <errno.h>
 #include "osc_parser.h"
 #include "osc_mem.h"
 #include "osc_timetag.h"
@@ -162,8 +164,23 @@ nil					{
 
 (-?([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
 						char *endp = NULL;
-					        long i = strtol(yytext, &endp, 10);
-						yylval->atom = osc_atom_u_allocWithInt32(i);
+						errno = 0;
+						int64_t i = strtoll(yytext, &endp, 10);
+						if(errno == ERANGE){
+							// too big for a signed integer
+							errno = 0;
+							uint64_t u = strtoull(yytext, &endp, 10);
+							if(errno == ERANGE || *yytext == '-'){
+								return *yytext;
+							}
+							yylval->atom = osc_atom_u_alloc();
+							osc_atom_u_setUInt64(yylval->atom, u);
+						}else if(i > INT32_MAX || i < INT32_MIN){
+							yylval->atom = osc_atom_u_alloc();
+							osc_atom_u_setInt64(yylval->atom, i);
+						}else{
+							yylval->atom = osc_atom_u_allocWithInt32(i);
+						}
 						return OSCVALUE;
 					}
 0[xX][[:digit:]abcdefABCDEF]+ 	{
-- 
2.43.0


From 4e8a441a09ea77ee878b58cdfcc7c1a50cd3a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 52/98] fix: a formatted float always reads back as a float

---
 osc_strfmt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 14832bb..f2a5f63 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -90,7 +90,10 @@ int osc_strfmt_float64(char *buf, size_t n, double f)
 #else
 int osc_strfmt_float64(char *buf, size_t n, double f)
 {
-	int need_point = f - floor(f) == 0 && f < 1000000. && f > -1000000. ? 1 : 0;
+	// a number whose digits leave no room for a fraction would read back as an integer
+	char digits[32];
+	snprintf(digits, sizeof(digits), "%g", f);
+	int need_point = isfinite(f) && !strpbrk(digits, ".e");
 	if(need_point){
 		return snprintf(buf, n, "%g.", f);
 	}else{
-- 
2.43.0


From 69f59ebeace466ae57fdd4767d12ff99402bb20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 53/98] fix: release the iterator when the buffer given to
 osc_bundle_u_nserialize is too small

---
 osc_bundle_u.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 631034b..cff67a4 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -616,6 +616,9 @@ t_osc_bndl_s *osc_bundle_u_serialize(t_osc_bndl_u *b)
 size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 {
 	size_t _n = 0;
+	if(buf && n < OSC_HEADER_SIZE){
+		return 0;
+	}
 	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
 	if(!buf){
 		_n += OSC_HEADER_SIZE;
@@ -624,9 +627,6 @@ size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 			_n += osc_message_u_nserialize(NULL, 0, m);
 		}
 	}else{
-		if(n < OSC_HEADER_SIZE){
-			return 0;
-		}
 		memcpy(buf, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		_n += OSC_HEADER_SIZE;
 		while(osc_bndl_it_u_hasNext(it) && _n < n){
-- 
2.43.0


From 2d61d6b8341e03ca392286f507541593c9f0501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 54/98] fix: terminate the string returned for atoms without a
 string form

---
 osc_atom_s.c | 5 +++++
 osc_atom_u.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f5a213e..8543071 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -574,6 +574,11 @@ int osc_atom_s_getString(t_osc_atom_s *a, size_t n, char **out)
 	case 'b': // blob
 		stringlen = osc_strfmt_blob(*out, nn, a->data);
 		break;
+	default: // no value, or one that has no string form
+		if(nn > 0){
+			(*out)[0] = '\0';
+		}
+		break;
 	}
 	return stringlen;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 59197b4..6f81b8b 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -815,6 +815,11 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	case 'b': // blob
 		stringlen = osc_strfmt_blob(*out, nn, a->w.b);
 		break;
+	default: // no value, or one that has no string form
+		if(nn > 0){
+			(*out)[0] = '\0';
+		}
+		break;
 	}
 	return stringlen;
 }
-- 
2.43.0


From 9571ec3161a12d9ce4bb99da0cc2f30be807dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:07 +0000
Subject: [PATCH 55/98] fix: don't share the offset caches between copies of a
 serialized message

---
 osc_message_s.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index cce0b9e..43b39ac 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -46,17 +46,26 @@ size_t osc_message_s_getStructSize(void)
 	return sizeof(t_osc_msg_s);
 }
 
-void osc_message_s_free(t_osc_msg_s *m)
+static void osc_message_s_freeCache(t_osc_msg_s *m)
 {
-	if(!m){
-		return;
-	}
 	if(m->data_offset_cache){
 		osc_mem_free(m->data_offset_cache);
 	}
 	if(m->data_size_cache){
 		osc_mem_free(m->data_size_cache);
 	}
+	m->data_offset_cache = NULL;
+	m->data_size_cache = NULL;
+	m->cache_buf_size = 0;
+	m->cache_size = 0;
+}
+
+void osc_message_s_free(t_osc_msg_s *m)
+{
+	if(!m){
+		return;
+	}
+	osc_message_s_freeCache(m);
 	osc_mem_free(m);
 }
 
@@ -84,7 +93,16 @@ void osc_message_s_copy(t_osc_msg_s **dest, t_osc_msg_s *src)
 	if(!(*dest)){
 		*dest = osc_message_s_alloc();
 	}
+	if(*dest == src){
+		return;
+	}
+	// the offset caches belong to the message they were made for
+	osc_message_s_freeCache(*dest);
 	**dest = *src;
+	(*dest)->cache_buf_size = 0;
+	(*dest)->cache_size = 0;
+	(*dest)->data_offset_cache = NULL;
+	(*dest)->data_size_cache = NULL;
 }
 
 t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
-- 
2.43.0


From 6b680a5da424d6482732086dbc3fd8408d2b7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 56/98] fix: caching the offsets of a message again releases
 the earlier cache, and wrapping invalidates it

---
 osc_message_s.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/osc_message_s.c b/osc_message_s.c
index 43b39ac..531f53a 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -112,6 +112,7 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 	}
 	int32_t len = ntoh32(*((int32_t *)bytes));
 	m->size = bytes;
+	m->cache_size = 0; // offsets cached earlier were those of another message
 	char *address = m->address = bytes + 4;
 	/*
 	if(!(m->address)){
@@ -274,9 +275,20 @@ void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 
 t_osc_err osc_message_s_cacheDataOffsets(t_osc_msg_s *m)
 {
+	if(!m){
+		return OSC_ERR_NULLPTR;
+	}
+	osc_message_s_freeCache(m);
 	int n = osc_message_s_getArgCount(m);
+	if(n < 1){
+		return OSC_ERR_NONE;
+	}
 	m->data_offset_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->data_size_cache = (int *)osc_mem_alloc(n * sizeof(int));
+	if(!m->data_offset_cache || !m->data_size_cache){
+		osc_message_s_freeCache(m);
+		return OSC_ERR_OUTOFMEM;
+	}
 	m->cache_buf_size = n;
 	m->cache_size = n;
 	int i;
-- 
2.43.0


From fe49d51a479a7b824596d34594ce18ee79c5b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 57/98] fix: size the buffer of osc_atom_u_getBlobCopy from
 what is written to it

---
 osc_atom_u.c | 111 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 61 insertions(+), 50 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 6f81b8b..84e8540 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -909,7 +909,7 @@ int32_t osc_atom_u_getBlobLen(t_osc_atom_u *a)
 	case 's':
 		return strlen(a->w.s);
 	default:
-		return osc_sizeof(osc_atom_u_getTypetag(a), a->w.s);
+		return osc_sizeof(osc_atom_u_getTypetag(a), (char *)&(a->w));
 	}
 }
 
@@ -929,84 +929,95 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	if(!a){
 		return;
 	}
-	int bloblen = osc_atom_u_getBlobLen(a);
-	if(!(*blob)){
-		*buflen = bloblen + 1;
-		while(*buflen % 4){
-			*buflen += 1;
-		}
-		*buflen += 4;
-		*blob = osc_mem_alloc(*buflen);
-	}
-	memset(*blob, '\0', *buflen);
+	// the contents of the blob, in network byte order
+	char buf[8];
+	char *data = buf;
+	int32_t datalen = 0;
+	t_osc_bndl_s *bs = NULL;
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		if(bloblen + 4 <= *buflen){
-			memcpy(*blob, a->w.b, bloblen + 4);
+		if(a->w.b){
+			data = a->w.b + 4;
+			datalen = ntoh32(*((int32_t *)a->w.b));
 		}
 		break;
 	case 'c':
 	case 'C':
-		*((int32_t *)(*blob)) = hton32(1);
-		(*blob)[4] = a->w.c;
+		buf[0] = a->w.c;
+		datalen = 1;
 		break;
 	case 'u':
 	case 'U':
-		*((int32_t *)(*blob)) = hton32(2);
-		*((int16_t *)((*blob) + 4)) = hton16(a->w.u);
+		{
+			uint16_t i = hton16(a->w.u);
+			memcpy(buf, &i, 2);
+			datalen = 2;
+		}
 		break;
 	case 'i':
 	case 'I':
-		*((int32_t *)(*blob)) = hton32(4);
-		*((int32_t *)((*blob) + 4)) = hton32(a->w.i);
-		break;
-	case 'h':
-	case 'H':
-		{
-			int64_t i = a->w.h;
-			*((int32_t *)(*blob)) = hton32(8);
-			*((int64_t *)((*blob) + 4)) = hton64(i);
-		}
-		break;		
 	case 'f':
 		{
-			float f = a->w.f;
-			*((int32_t *)(*blob)) = hton32(4);
-			*((int32_t *)((*blob) + 4)) = hton32(*((int32_t *)&f));
+			uint32_t i = 0;
+			memcpy(&i, &(a->w), 4);
+			i = hton32(i);
+			memcpy(buf, &i, 4);
+			datalen = 4;
 		}
 		break;
+	case 'h':
+	case 'H':
 	case 'd':
 		{
-			double f = a->w.d;
-			*((int32_t *)(*blob)) = hton32(8);
-			*((int64_t *)((*blob) + 4)) = hton64(*((int64_t *)&f));
+			uint64_t i = 0;
+			memcpy(&i, &(a->w), 8);
+			i = hton64(i);
+			memcpy(buf, &i, 8);
+			datalen = 8;
 		}
 		break;
 	case 's':
-		{
-			*((int32_t *)(*blob)) = hton32(*buflen - 4);
-			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen - 4, &p);
-		}
+		data = a->w.s;
+		datalen = strlen(a->w.s);
 		break;
 	case OSC_BUNDLE_TYPETAG:
-		{
-			t_osc_bndl_s *bs = osc_bundle_u_serialize(a->w.bndl);
-			if(bs){
-				long l = osc_bundle_s_getLen(bs);
-				char *bndl = osc_bundle_s_getPtr(bs);
-				*((int32_t *)(*blob)) = hton32(l);
-				memcpy((*blob) + 4, bndl, l);
-				osc_bundle_s_deepFree(bs);
-			}
+		bs = osc_bundle_u_serialize(a->w.bndl);
+		if(bs){
+			data = osc_bundle_s_getPtr(bs);
+			datalen = osc_bundle_s_getLen(bs);
 		}
 		break;
 	case OSC_TIMETAG_TYPETAG:
-		*((int32_t *)(*blob)) = hton32(OSC_TIMETAG_SIZEOF);
-		osc_timetag_encodeForHeader(a->w.t, (*blob) + 4);
+		osc_timetag_encodeForHeader(a->w.t, buf);
+		datalen = OSC_TIMETAG_SIZEOF;
 		break;
 	default: ;
 	}
+	if(!(*blob)){
+		*buflen = datalen + 1;
+		while(*buflen % 4){
+			*buflen += 1;
+		}
+		*buflen += 4;
+		*blob = osc_mem_alloc(*buflen);
+	}
+	if(*blob && *buflen >= 4){
+		memset(*blob, '\0', *buflen);
+		int32_t room = *buflen - 4;
+		if(osc_atom_u_getTypetag(a) == 's'){
+			// a string is terminated and fills the buffer
+			*((int32_t *)(*blob)) = hton32(room);
+			if(room > 0){
+				memcpy((*blob) + 4, data, datalen < room ? datalen : room - 1);
+			}
+		}else if(datalen <= room){
+			*((int32_t *)(*blob)) = hton32(datalen);
+			memcpy((*blob) + 4, data, datalen);
+		}
+	}
+	if(bs){
+		osc_bundle_s_deepFree(bs);
+	}
 }
 
 void osc_atom_u_setFloat(t_osc_atom_u *a, float v)
-- 
2.43.0


From b2ab8f44b41654feb1198a40cd2b80c6754806e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:50 +0000
Subject: [PATCH 58/98] fix: osc_atom_array_u_copyInto releases what the
 overwritten atoms owned

---
 osc_atom_array_u.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index 76f493f..e7fe6d9 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -251,10 +251,14 @@ t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_
 			return e;
 		}
 	}
-	int i;
-	for(i = 0; i < srclen; i++){
+	if(*dest == src && offset == 0){
+		return OSC_ERR_NONE;
+	}
+	long i;
+	for(i = srclen - 1; i >= 0; i--){
 		t_osc_atom_u *s = osc_atom_array_u_get(src, i);
 		t_osc_atom_u *d = osc_atom_array_u_get(*dest, i + offset);
+		osc_atom_u_clear(d); // release what it held
 		osc_atom_u_copyInto(&d, s);
 	}
 	return OSC_ERR_NONE;
-- 
2.43.0


From fafb3fe84a7bd694fe7e681e752ec3037f18a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:55 +0000
Subject: [PATCH 59/98] fix: resolve the ^, ^= and . operators to functions
 that exist

---
 osc_expr_parser.y | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 524347a..a6a3ed6 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1261,7 +1261,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg '^' arg {
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| arg OSC_EXPR_EQ arg {
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "==", $1, $3);
@@ -1309,7 +1309,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg OSC_EXPR_POWEQ arg {
-		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| OSC_EXPR_OSCADDRESS '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
@@ -1320,9 +1320,9 @@ expr:
 		ptr = NULL;
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "getbundlemember", a1, a2);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_STRING '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
@@ -1334,9 +1334,8 @@ expr:
 		//ptr = NULL;
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		//osc_mem_free($1);
-		osc_mem_free($3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "getbundlemember", a1, a2);
+		osc_atom_u_free($3);
 	}
 	/* | OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg CLOSE_DBL_BRKTS '.' OSC_EXPR_OSCADDRESS{ */
 	/* 	printf("here\n"); */
@@ -1463,8 +1462,8 @@ expr:
 		osc_expr_arg_append(a1, a2);
 		osc_expr_arg_append(a1, $5);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assigntobundlemember", a1);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg ':' arg CLOSE_DBL_BRKTS '=' arg{
 		char *ptr = NULL;
-- 
2.43.0


From bd97463e1f864be081bd2be894e8f55bbd49b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 60/98] fix: release what the expression parser holds when it
 rejects its input

---
 osc_expr_parser.y  | 523 ++++++++++++++-------------------------------
 osc_expr_scanner.l |   3 +
 2 files changed, 162 insertions(+), 364 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index a6a3ed6..ebbbedc 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -159,6 +159,24 @@ static void osc_expr_parser_foldConstants(t_osc_expr *expr)
 }
 */
 
+static void osc_expr_parser_freeFunction(t_osc_expr_rec *rec)
+{
+	t_osc_expr *e = NULL;
+	osc_expr_rec_free(rec, (void **)&e);
+	if(e){
+		osc_expr_free(e);
+	}
+}
+
+static void osc_expr_parser_freeAtoms(t_osc_atom_u *a)
+{
+	while(a){
+		t_osc_atom_u *next = a->next;
+		osc_atom_u_free(a);
+		a = next;
+	}
+}
+
 t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 {
 	//printf("parsing %s\n", ptr);
@@ -200,6 +218,14 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 			exprstack = tmp_exprstack;
 		}
 	}
+	if(buf){
+		// the input ended in the middle of a string
+		osc_mem_free(buf);
+	}
+	if(ret){
+		osc_expr_free(exprstack);
+		exprstack = NULL;
+	}
 	//osc_expr_parser_foldConstants(exprstack);
 	*f = exprstack;
 	if(alloc){
@@ -233,10 +259,19 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 	char *buf = NULL;
 	int startcond = START_FUNCTION;
 	int started = 0;
-	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, f, scanner, ptr, &buflen, &buf, startcond, &started, context);
+	t_osc_expr_rec *rec = NULL;
+	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, &rec, scanner, ptr, &buflen, &buf, startcond, &started, context);
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
+	if(ret && rec){
+		osc_expr_parser_freeFunction(rec);
+		rec = NULL;
+	}
+	*f = rec;
 	return ret;
 }
 
@@ -253,7 +288,7 @@ void osc_expr_error_formatLocation(YYLTYPE *llocp, char *input_string, char **bu
 	int len = strlen(input_string);
 	if(llocp->first_column >= len || llocp->last_column >= len){
 		*buf = osc_mem_alloc(len + 1);
-		strncpy(*buf, input_string, len );
+		memcpy(*buf, input_string, len + 1);
 		return;
 	}
 	char s1[len * 2];
@@ -330,7 +365,6 @@ int osc_expr_parser_checkArity(void* context, YYLTYPE *llocp, char *input_string
 {
 
 	if(!r){
-        printf("no r\n");
 		return 1;
 	}
 
@@ -431,6 +465,8 @@ t_osc_expr *osc_expr_parser_reduce_InfixOperator(void *context, YYLTYPE *llocp,
 	t_osc_expr_rec *r = osc_expr_lookupFunction(function_name);
 	if(!r){
 		osc_expr_parser_reportUnknownFunctionError(context, llocp, input_string, function_name);
+		osc_expr_arg_freeList(left);
+		osc_expr_arg_freeList(right);
 		return NULL;
 	}
 	t_osc_expr *e = osc_expr_alloc();
@@ -448,9 +484,13 @@ t_osc_expr *osc_expr_parser_reduce_InfixAssignmentOperator(void *context, YYLTYP
 {
 	//printf("%s context %p\n", __func__, context);
 
-	t_osc_expr *infix = osc_expr_parser_reduce_InfixOperator(context, llocp, input_string, function_name, left, right);
 	t_osc_expr_arg *assign_target = NULL;
 	osc_expr_arg_copy(&assign_target, left);
+	t_osc_expr *infix = osc_expr_parser_reduce_InfixOperator(context, llocp, input_string, function_name, left, right);
+	if(!infix){
+		osc_expr_arg_freeList(assign_target);
+		return NULL;
+	}
 	t_osc_expr_arg *assign_arg = osc_expr_arg_alloc();
 	osc_expr_arg_setExpr(assign_arg, infix);
 	osc_expr_arg_setNext(assign_target, assign_arg);
@@ -469,9 +509,11 @@ t_osc_expr *osc_expr_parser_reduce_PrefixFunction(void *context,
 	t_osc_expr_rec *r = osc_expr_lookupFunction(function_name);
 	if(!r){
 		osc_expr_parser_reportUnknownFunctionError(context, llocp, input_string, function_name);
+		osc_expr_arg_freeList(arglist);
 		return NULL;
 	}
 	if(osc_expr_parser_checkArity(context, llocp, input_string, r, arglist)){
+		osc_expr_arg_freeList(arglist);
 		return NULL;
 	}
 	t_osc_expr *e = osc_expr_alloc();
@@ -551,6 +593,7 @@ t_osc_expr *osc_expr_parser_reduce_NullCoalescingOperator(void *context, YYLTYPE
 			       address,
 			       address);
 		osc_mem_free(address);
+		osc_expr_arg_freeList(arg_if_null);
 		return NULL;
 	}
 	t_osc_expr *expr_def = osc_expr_alloc();
@@ -579,6 +622,7 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 		char *buf = osc_mem_alloc(len);
 		memcpy(buf, st, len);
 		osc_expr_arg_setOSCAddress(a, buf);
+		osc_atom_u_free(value);
 	}else{
 		osc_expr_arg_setOSCAtom(a, value);
 	}
@@ -590,6 +634,57 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 	}
 }
 
+// params is a list of atoms in reverse order, args are the expressions that make up the body.
+// Both of them are used up.
+t_osc_expr_rec *osc_expr_parser_reduce_Lambda(t_osc_atom_u *params, t_osc_expr_arg *args)
+{
+	t_osc_expr_rec *func = osc_expr_rec_alloc();
+	osc_expr_rec_setName(func, "lambda");
+	int n = 0;
+	t_osc_atom_u *a = params;
+	while(a){
+		n++;
+		a = a->next;
+	}
+	if(n){
+		char *names[n];
+		a = params;
+		for(int i = n - 1; i >= 0; i--){
+			names[i] = osc_atom_u_getStringPtr(a);
+			a = a->next;
+		}
+		osc_expr_rec_setRequiredArgs(func, n, names, NULL);
+	}else{
+		osc_expr_rec_setRequiredArgs(func, 0, NULL, NULL);
+	}
+	osc_expr_parser_freeAtoms(params);
+	osc_expr_rec_setFunction(func, osc_expr_lambda);
+
+	t_osc_expr *exprlist = NULL;
+	while(args){
+		t_osc_expr_arg *arg = args;
+		t_osc_expr *e = NULL;
+		args = osc_expr_arg_next(arg);
+		osc_expr_arg_setNext(arg, NULL);
+		if(osc_expr_arg_getType(arg) == OSC_EXPR_ARG_TYPE_EXPR){
+			e = osc_expr_arg_getExpr(arg);
+			osc_expr_arg_setExpr(arg, NULL);
+			osc_expr_arg_free(arg);
+		}else{
+			e = osc_expr_alloc();
+			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
+			osc_expr_setArg(e, arg);
+		}
+		if(exprlist){
+			osc_expr_appendExpr(exprlist, e);
+		}else{
+			exprlist = e;
+		}
+	}
+	osc_expr_rec_setExtra(func, exprlist);
+	return func;
+}
+
 %}
 
 %define api.pure full
@@ -622,6 +717,12 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 	t_osc_expr_arg *arg;
 }
 
+// what is on the parser's stack when an error is found has to be released
+%destructor { osc_expr_parser_freeAtoms($$); } <atom>
+%destructor { osc_expr_free($$); } <expr>
+%destructor { osc_expr_parser_freeFunction($$); } <func>
+%destructor { osc_expr_arg_freeList($$); } <arg>
+
 %type <expr>expr bundle
 %type <func>function
 %type <arg>arg args msg msgs
@@ -668,7 +769,8 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 %%
 
 start: START_EXPNS expns
-       | START_FUNCTION function;
+       | START_FUNCTION function { *rec = $2; }
+;
 
 expns:  {
 		if(*tmp_exprstack){
@@ -698,7 +800,7 @@ expns:  {
  	}
 	| expns ',' {
         	osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", NULL, NULL);
-        	return 1;
+        	YYABORT;
  	}
 	| OSC_EXPR_OSCADDRESS {
 		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 1);
@@ -784,348 +886,13 @@ arg:    OSC_EXPR_NUM {
 function:
 //OSC_EXPR_LAMBDA '(' parameters ')' '{' expns '}' {
 	OSC_EXPR_LAMBDA '(' '[' parameters ']' ',' args ')' {
-		int n = 0;
-		t_osc_atom_u *a = $4;
-		while(a){
-			n++;
-			a = a->next;
-		}
-		char *params[n];
-		a = $4;
-		for(int i = n - 1; i >= 0; i--){
-			char *st = osc_atom_u_getStringPtr(a);
-			int len = strlen(st) + 1;
-			params[i] = (char *)osc_mem_alloc(len);
-			strncpy(params[i], st, len);
-			t_osc_atom_u *killme = a;
-			a = a->next;
-			osc_atom_u_free(killme);
-		}
-		t_osc_expr_rec *func = osc_expr_rec_alloc();
-		osc_expr_rec_setName(func, "lambda");
-		osc_expr_rec_setRequiredArgs(func, n, params, NULL);
-		for(int i = 0; i < n; i++){
-			if(params[i]){
-				osc_mem_free(params[i]);
-			}
-		}
-		/*
-		t_osc_expr *e = *tmp_exprstack;
-		while(e){
-			e = osc_expr_next(e);
-		}
-		*/
-		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $7;
-		t_osc_expr *exprlist = NULL;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				osc_expr_prependArg(e, aaa);
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
-		//osc_expr_rec_setExtra(func, *tmp_exprstack);
-		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
-// go through and make sure the parameters are unique
-/*
-		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-		t_osc_expr *e = osc_expr_alloc();
-		osc_expr_setRec(e, r);
-		t_osc_expr *expns_copy = NULL;
-		t_osc_expr *ee = $<expr>6;
-		while(ee){
-			t_osc_expr *copy = osc_expr_copy(ee);
-			if(expns_copy){
-				osc_expr_appendExpr(expns_copy, copy);
-			}else{
-				expns_copy = copy;
-			}
-			ee = osc_expr_next(ee);
-		}
-		t_osc_expr_arg *expns = osc_expr_arg_alloc();
-		osc_expr_arg_setExpr(expns, expns_copy);
-		osc_expr_arg_append($3, expns);
-		osc_expr_setArg(e, $3);
-*/
-//osc_expr_parser_bindParameters(&yylloc, input_string, e, $3, expns_copy);
-//$$ = e;
+		$$ = osc_expr_parser_reduce_Lambda($4, $7);
 	}
 	| OSC_EXPR_LAMBDA '(' parameter ',' args ')' {
-		int n = 0;
-		t_osc_atom_u *a = $3;
-		while(a){
-			n++;
-			a = a->next;
-		}
-		char *params[n];
-		a = $3;
-		for(int i = n - 1; i >= 0; i--){
-			char *st = osc_atom_u_getStringPtr(a);
-			int len = strlen(st) + 1;
-			params[i] = (char *)osc_mem_alloc(len);
-			strncpy(params[i], st, len);
-			t_osc_atom_u *killme = a;
-			a = a->next;
-			osc_atom_u_free(killme);
-		}
-		t_osc_expr_rec *func = osc_expr_rec_alloc();
-		osc_expr_rec_setName(func, "lambda");
-		osc_expr_rec_setRequiredArgs(func, n, params, NULL);
-		for(int i = 0; i < n; i++){
-			if(params[i]){
-				osc_mem_free(params[i]);
-			}
-		}
-		/*
-		t_osc_expr *e = *tmp_exprstack;
-		while(e){
-			e = osc_expr_next(e);
-		}
-		*/
-		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $5;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		t_osc_expr *exprlist = NULL;
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
-		//osc_expr_rec_setExtra(func, *tmp_exprstack);
-		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
-// go through and make sure the parameters are unique
-/*
-		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-		t_osc_expr *e = osc_expr_alloc();
-		osc_expr_setRec(e, r);
-		t_osc_expr *expns_copy = NULL;
-		t_osc_expr *ee = $<expr>6;
-		while(ee){
-			t_osc_expr *copy = osc_expr_copy(ee);
-			if(expns_copy){
-				osc_expr_appendExpr(expns_copy, copy);
-			}else{
-				expns_copy = copy;
-			}
-			ee = osc_expr_next(ee);
-		}
-		t_osc_expr_arg *expns = osc_expr_arg_alloc();
-		osc_expr_arg_setExpr(expns, expns_copy);
-		osc_expr_arg_append($3, expns);
-		osc_expr_setArg(e, $3);
-*/
-//osc_expr_parser_bindParameters(&yylloc, input_string, e, $3, expns_copy);
-//$$ = e;
+		$$ = osc_expr_parser_reduce_Lambda($3, $5);
 	}
 	| OSC_EXPR_LAMBDA '(' '[' ']' ',' args ')' {
-		int n = 0;
-		t_osc_expr_rec *func = osc_expr_rec_alloc();
-		osc_expr_rec_setName(func, "lambda");
-		osc_expr_rec_setRequiredArgs(func, 0, NULL, NULL);
-		/*
-		t_osc_expr *e = *tmp_exprstack;
-		while(e){
-			e = osc_expr_next(e);
-		}
-		*/
-		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $6;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		t_osc_expr *exprlist = NULL;
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
-		//osc_expr_rec_setExtra(func, *tmp_exprstack);
-		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
-// go through and make sure the parameters are unique
-/*
-		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-		t_osc_expr *e = osc_expr_alloc();
-		osc_expr_setRec(e, r);
-		t_osc_expr *expns_copy = NULL;
-		t_osc_expr *ee = $<expr>6;
-		while(ee){
-			t_osc_expr *copy = osc_expr_copy(ee);
-			if(expns_copy){
-				osc_expr_appendExpr(expns_copy, copy);
-			}else{
-				expns_copy = copy;
-			}
-			ee = osc_expr_next(ee);
-		}
-		t_osc_expr_arg *expns = osc_expr_arg_alloc();
-		osc_expr_arg_setExpr(expns, expns_copy);
-		osc_expr_arg_append($3, expns);
-		osc_expr_setArg(e, $3);
-*/
-//osc_expr_parser_bindParameters(&yylloc, input_string, e, $3, expns_copy);
-//$$ = e;
+		$$ = osc_expr_parser_reduce_Lambda(NULL, $6);
 	}
 ;
 
@@ -1193,23 +960,22 @@ expr:
 								     $3);
 		if(!e){
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		$$ = e;
 		osc_atom_u_free($1);
   	}
     | OSC_EXPR_STRING '(' args ',' ')' %prec OSC_EXPR_FUNC_CALL {
-        char *ptr = NULL;
-        osc_atom_u_getString($1, 0, &ptr);
-        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", ptr, ptr);
+        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", NULL, NULL);
         osc_atom_u_free($1);
-        return 1;
+        osc_expr_arg_freeList($3);
+        YYABORT;
     }
 	| OSC_EXPR_STRING '(' ')' %prec OSC_EXPR_FUNC_CALL {
 		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), NULL);
 		if(!e){
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		$$ = e;
 		osc_atom_u_free($1);
@@ -1363,7 +1129,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1375,7 +1141,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1388,7 +1154,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1400,7 +1166,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1418,8 +1184,10 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
+            osc_mem_free(ptr);
             osc_atom_u_free($1);
-			return 1;
+            osc_expr_arg_freeList($3);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 		osc_expr_arg_setOSCAddress(arg, ptr);
@@ -1431,8 +1199,11 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
+            osc_mem_free(ptr);
             osc_atom_u_free($1);
-			return 1;
+            osc_expr_arg_freeList($3);
+            osc_expr_arg_freeList($6);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 		t_osc_expr_arg *indexes = $3;
@@ -1470,8 +1241,12 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
+            osc_mem_free(ptr);
             osc_atom_u_free($1);
-			return 1;
+            osc_expr_arg_freeList($3);
+            osc_expr_arg_freeList($5);
+            osc_expr_arg_freeList($8);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 
@@ -1492,8 +1267,13 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
+            osc_mem_free(ptr);
             osc_atom_u_free($1);
-			return 1;
+            osc_expr_arg_freeList($3);
+            osc_expr_arg_freeList($5);
+            osc_expr_arg_freeList($7);
+            osc_expr_arg_freeList($10);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 
@@ -1564,13 +1344,17 @@ expr:
 		// /foo ?? 10 means /foo if /foo is in the bundle, otherwise 10
 		$$ = osc_expr_parser_reduce_NullCoalescingOperator(context, &yylloc, input_string, $1, $3);
 		osc_atom_u_free($1); // the above function will copy that
+		if(!$$){
+			YYABORT;
+		}
 	}
 	| OSC_EXPR_OSCADDRESS OSC_EXPR_DBLQMARKEQ arg {
 		// null coalescing operator from C#.
 		// /foo ?? 10 means /foo if /foo is in the bundle, otherwise 10
 		t_osc_expr *if_expr = osc_expr_parser_reduce_NullCoalescingOperator(context, &yylloc, input_string, $1, $3);
 		if(!if_expr){
-			return 1;
+			osc_atom_u_free($1);
+			YYABORT;
 		}
 		char *ptr = NULL;
 		osc_atom_u_getString($1, 0, &ptr);
@@ -1616,7 +1400,10 @@ expr:
 	}
 	| '`' OSC_EXPR_OSCADDRESS '`' {
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, osc_atom_u_getStringPtr($2));
+		char *address = NULL;
+		osc_atom_u_getString($2, 0, &address);
+		osc_expr_arg_setOSCAddress(arg, address);
+		osc_atom_u_free($2);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
 	}
 // invalid constructs that result in errors
@@ -1624,24 +1411,32 @@ expr:
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 ;
diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index cfa5e41..4549a46 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -300,6 +300,9 @@ quote[[:space:]]*\( {
 						return OSC_EXPR_NUM;
 					}
 lambda				{
+						if(alloc_atom){
+							yylval->atom = NULL;
+						}
 						return OSC_EXPR_LAMBDA;
 					}
 
-- 
2.43.0


From 08dfdea53044000b248e09f279262c162125488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 61/98] fix: keep the column of the expression scanner with the
 scanner, not in a global

---
 osc_expr_scanner.l | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 4549a46..6c80285 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -29,10 +29,8 @@
 #include "osc_expr_parser.h"
 #include "osc_expr.h"
 
-int colnum;
-
-#define YY_USER_INIT {yylineno = 0;colnum = 0; yylloc->first_line = 0; yylloc->first_column = 0; yylloc->last_column = 0; yylloc->last_line = 0;}
-#define YY_USER_ACTION {yylloc->first_line = yylineno; yylloc->first_column = colnum; colnum=colnum+yyleng; yylloc->last_column = colnum; yylloc->last_line = yylineno;}
+#define YY_USER_INIT {yylineno = 0; yylloc->first_line = 0; yylloc->first_column = 0; yylloc->last_column = 0; yylloc->last_line = 0;}
+#define YY_USER_ACTION {yylloc->first_line = yylineno; yylloc->first_column = yylloc->last_column; yylloc->last_column += yyleng; yylloc->last_line = yylineno;}
 
 int osc_expr_scanner_wrap(yyscan_t scanner){
 	return 1;
-- 
2.43.0


From 9ff1d772e5b695395c12eb859f06d2f851eee57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:11 +0000
Subject: [PATCH 62/98] fix: keep all of a string with more than one escaped
 quote, and all tokens tokenize() finds

---
 osc_expr.c         | 17 ++++++++---------
 osc_expr_scanner.l | 12 ++++++------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2ec2588..918e70e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2014,10 +2014,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	int startcond = START_EXPNS, started = 0;
 	int ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	while(ret){
-		if(i == n){
-			n += 64;
-			osc_array_resize(*ar, n);
-		}
 		char *st = NULL;
 		switch(ret){
 		case START_EXPNS:
@@ -2064,7 +2060,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "!=";
 			break;
 		case OSC_EXPR_EQ:
-			st = "=";
+			st = "==";
 			break;
 		case OSC_EXPR_GTE:
 			st = ">=";
@@ -2097,13 +2093,13 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			//osc_atom_u_setString((t_osc_atom_u *)(((long)out) + (i * atomsize)), st);
 			osc_atom_u_setString(osc_atom_array_u_get(*ar, i), st);
 		}
-		long len = osc_atom_u_nformat(NULL, 0, osc_atom_array_u_get(*ar, i), 0);
-		char *fmt = osc_mem_alloc(len + 1);
-		osc_atom_u_nformat(fmt, len + 1, osc_atom_array_u_get(*ar, i), 0);
-		//osc_atom_u_format(osc_atom_array_u_get(*ar, i), &len, &fmt);
 		i++;
 		//yylval_param.atom = (t_osc_atom_u *)(((long)out) + (i * atomsize));
 	cont:
+		if(i == n){
+			n += 64;
+			osc_array_resize(*ar, n);
+		}
 		yylval_param.atom = osc_atom_array_u_get(*ar, i);
 		ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	}
@@ -2112,6 +2108,9 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	osc_array_resize(*ar, i);
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
 	return 0;
 }
 
diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 6c80285..6cccf78 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -180,7 +180,7 @@ quote[[:space:]]*\( {
 <quote>[^\"]+ { 
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
-		*buflen += yyleng + 1;
+		*buflen += yyleng;
 		strcat(*buf, yytext);
 	}else{
 		//char *copy = osc_mem_alloc(yyleng + 1);
@@ -198,11 +198,11 @@ quote[[:space:]]*\( {
 <quote>\" {
 	BEGIN(0);
 	if(*buf){
-		t_osc_atom_u *a = osc_atom_u_alloc();
-		//osc_atom_u_setStringPtr(a, *buf);
-		//osc_atom_u_setShouldFreePtr(a, 1);
-		yylval->atom = osc_atom_u_allocWithString(*buf);
-		//yylval->string = *buf;
+		if(alloc_atom){
+			yylval->atom = osc_atom_u_alloc();
+		}
+		osc_atom_u_setString(yylval->atom, *buf);
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSC_EXPR_STRING;
-- 
2.43.0


From 69c4231a95946dbf0e90eec94ab7b1af5364648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 63/98] fix: do not use the text of a rejected expression as a
 format string

---
 osc_expr_parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index ebbbedc..04621b1 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -344,6 +344,7 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 				  NULL,
 				  -1,
 				  errorcode,
+				  "%s",
 				  buf);
 	}else{
 	  osc_error_handler(context,
-- 
2.43.0


From d9c74630b197491324e20558dde3e11d1bdb277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 64/98] fix: do not read an expression as the address string of
 an unbound argument

---
 osc_expr.c              | 34 +++++++++++++++++++++-------------
 osc_expr_privatedecls.h |  1 +
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 918e70e..5fa1358 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -381,7 +381,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			t_osc_atom_ar_u *atoms = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
 			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+				osc_expr_err_unboundArg(context, arg, "apply");
 				return e;
 			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
@@ -439,7 +439,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			t_osc_atom_ar_u *ar = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
 			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
+				osc_expr_err_unboundArg(context, f_argv, "apply");
 				return e;
 			}
 			if(!ar){
@@ -540,7 +540,7 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	while(a){
 		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
 		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+			osc_expr_err_unboundArg(context, a, "map");
 			// assume whoever generated this will post an error
 			for(int j = 0; j < i; j++){
 				if(args[j]){
@@ -643,7 +643,7 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 	t_osc_expr_arg *a = f_argv->next;
 	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
 	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
+		osc_expr_err_unboundArg(context, a,
 				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
 		if(args){
 			osc_atom_array_u_free(args);
@@ -684,7 +684,7 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 			t_osc_atom_ar_u *sc = NULL;
 			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
 			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
+				osc_expr_err_unboundArg(context, a,
 						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
 				if(args){
 					osc_atom_array_u_free(args);
@@ -810,7 +810,7 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 			err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &address_ar, context);
 		}
 		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "=");
+			osc_expr_err_unboundArg(context, f_argv, "=");
 			return err;
 		}
 		if(!address_ar){
@@ -931,7 +931,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
 	if(!msg_ar){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index =");
+		osc_expr_err_unboundArg(context, f_argv, "assign to index =");
 		return 1;
 	}
 
@@ -946,7 +946,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         // get data at target address
         err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, out, context);
         if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
+            osc_expr_err_unboundArg(context, f_argv, "assign to index");
             goto bail;
         }
         int outlen = osc_atom_array_u_getLen(*out);
@@ -1170,7 +1170,7 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		t_osc_atom_ar_u *ar = NULL;
 		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
 		if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+			osc_expr_err_unboundArg(context, f_argv, osc_expr_rec_getName(osc_expr_getRec(f)));
 			return r;
 		}
 		if(ar && osc_atom_array_u_getLen(ar) > 0){
@@ -1447,7 +1447,7 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
+		osc_expr_err_unboundArg(context, f_argv, "value");
 		return err;
 	}
 	if(arg){
@@ -1527,7 +1527,7 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "eval");
+		osc_expr_err_unboundArg(context, f_argv, "eval");
 		return err;
 	}
 	if(arg){
@@ -1621,7 +1621,7 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "tokenize");
+		osc_expr_err_unboundArg(context, f_argv, "tokenize");
 		return err;
 	}
 	if(arg){
@@ -1664,7 +1664,7 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 		t_osc_atom_ar_u *arg = NULL;
 		t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &arg, context);
 		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "compile");
+			osc_expr_err_unboundArg(context, f_argv, "compile");
 			osc_mem_free(key);
 			return err;
 		}
@@ -7232,6 +7232,14 @@ static void osc_expr_err_unbound(void *context, char *address, char *func)
 	osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s: address %s is unbound", func, address);
 }
 
+// only an argument that is an address has one to report, if it's an expression, it has already reported the error
+static void osc_expr_err_unboundArg(void *context, t_osc_expr_arg *arg, char *func)
+{
+	if(osc_expr_arg_getType(arg) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), func);
+	}
+}
+
 static void osc_expr_err_argnum(void *context, unsigned int expected, unsigned int found, unsigned int optional_args_allowed, char *func)
 {
 	if(expected == found){
diff --git a/osc_expr_privatedecls.h b/osc_expr_privatedecls.h
index 46752fb..4fa83a1 100644
--- a/osc_expr_privatedecls.h
+++ b/osc_expr_privatedecls.h
@@ -28,6 +28,7 @@
 
 static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, int argnum, t_osc_atom_u *left, t_osc_atom_u *right);
 static void osc_expr_err_unbound(void *context, char *address, char *func);
+static void osc_expr_err_unboundArg(void *context, t_osc_expr_arg *arg, char *func);
 static void osc_expr_err_argnum(void *context, unsigned int expected, unsigned int found, unsigned int optional_args_allowed, char *func);
 
 static t_osc_err osc_expr_evalArgInLexEnv(t_osc_expr_arg *arg,
-- 
2.43.0


From 5374fe25ad564761a803ebcd126afc5bb443c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 65/98] fix: apply() leaves the expression it evaluates alone
 and releases what it allocates

---
 osc_expr.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5fa1358..3a94e4d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -380,17 +380,25 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		for(int i = 0; (i < nparams) && arg; i++){
 			t_osc_atom_ar_u *atoms = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unboundArg(context, arg, "apply");
+			if(e){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unboundArg(context, arg, "apply");
+				}
+				osc_atom_array_u_free(atoms);
+				osc_expr_destroyLexenv(lexenv_copy);
 				return e;
 			}
+			if(!atoms){
+				// bound, but to an empty list
+				atoms = osc_atom_array_u_alloc(0);
+			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
 			arg = arg->next;
 		}
 		t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 		while(e){
 			int ret =  osc_expr_evalInLexEnv(e, lexenv_copy, len, oscbndl, out, context);
-			if(e->next){
+			if(e->next || ret){
 				osc_atom_array_u_free(*out);
 				*out = NULL;
 			}
@@ -423,14 +431,18 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
 				if(osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
 					r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
+					// apply it in an expression of its own: f has to look the name up
+					// again the next time it is evaluated
 					t_osc_expr_arg *a = osc_expr_arg_alloc();
 					osc_expr_arg_setFunction(a, r);
 					osc_expr_arg_setNext(a, f_argv->next);
-					osc_expr_setArg(f, a);
-					int ret = osc_expr_specFunc_apply(f, lexenv, len, oscbndl, out, context);
-					//osc_expr_setArg(f, f_argv);
-					//osc_expr_arg_setNext(a, NULL);
-					//osc_expr_arg_free(a);
+					t_osc_expr *e = osc_expr_alloc();
+					osc_expr_setRec(e, osc_expr_getRec(f));
+					osc_expr_setArg(e, a);
+					int ret = osc_expr_specFunc_apply(e, lexenv, len, oscbndl, out, context);
+					// neither the function nor the rest of the arguments are ours
+					osc_mem_free(a);
+					osc_mem_free(e);
 					return ret;
 				}
 				//osc_atom_array_u_free(xx);
@@ -438,8 +450,11 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		}else{
 			t_osc_atom_ar_u *ar = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unboundArg(context, f_argv, "apply");
+			if(e){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unboundArg(context, f_argv, "apply");
+				}
+				osc_atom_array_u_free(ar);
 				return e;
 			}
 			if(!ar){
@@ -448,10 +463,12 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			}
 			if(osc_atom_array_u_getLen(ar) != 1){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			char *stp = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
@@ -496,7 +513,8 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					  __LINE__,
 					  OSC_ERR_EXPPARSE,
 					  "unrecognized function %s",
-					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
+					  osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM ?
+					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)) : "");
 			return 1;
 		}
 		t_osc_expr *e = osc_expr_alloc();
-- 
2.43.0


From 9c8ca1e994a42e12945cd529569c0055fdf4cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 66/98] fix: map() and the reduce functions report failures and
 release what they use

---
 osc_expr.c | 187 +++++++++++++++++++++++------------------------------
 1 file changed, 80 insertions(+), 107 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3a94e4d..f2be4a8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -557,10 +557,12 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	t_osc_expr_arg *a = f_argv->next;
 	while(a){
 		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unboundArg(context, a, "map");
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unboundArg(context, a, "map");
+			}
 			// assume whoever generated this will post an error
-			for(int j = 0; j < i; j++){
+			for(int j = 0; j <= i; j++){
 				if(args[j]){
 					osc_atom_array_u_free(args[j]);
 				}
@@ -587,22 +589,25 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 		osc_expr_appendArg(e, func_args[i]);
 	}
 
-	t_osc_atom_ar_u *output[min];
-	memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
+	t_osc_atom_ar_u *output[min + 1];
+	memset(output, '\0', (min + 1) * sizeof(t_osc_atom_ar_u *));
 	int outcount = 0;
-	for(i = 0; i < min; i++){
+	int ret = 0;
+	for(i = 0; i < min && !ret; i++){
 		int j;
 		for(j = 0; j < ac; j++){
 			osc_expr_arg_setOSCAtom(func_args[j + 1], osc_atom_array_u_get(args[j], i));
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
 		outcount += osc_atom_array_u_getLen(output[i]);
 	}
-	*out = osc_atom_array_u_alloc(outcount);
-	int pos = 0;
-	for(i = 0; i < min; i++){
-		osc_atom_array_u_copyInto(out, output[i], pos);
-		pos += osc_atom_array_u_getLen(output[i]);
+	if(!ret){
+		*out = osc_atom_array_u_alloc(outcount);
+		int pos = 0;
+		for(i = 0; i < min; i++){
+			osc_atom_array_u_copyInto(out, output[i], pos);
+			pos += osc_atom_array_u_getLen(output[i]);
+		}
 	}
 	e->argv = NULL;
 	e->argc = 0;
@@ -627,7 +632,7 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 			osc_atom_array_u_free(output[i]);
 		}
 	}
-	return 0;
+	return ret;
 }
 
 static int osc_expr_specFunc_reduce(t_osc_expr *f,
@@ -643,37 +648,16 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_expr_rec *r = osc_expr_lookupFunction("apply");
-	t_osc_expr *e = osc_expr_alloc();
-	osc_expr_setRec(e, r);
-
-	int ac = 3;
-	t_osc_expr_arg *func_args[ac];  // function, arg1, arg2
-	func_args[0] = NULL;
-	osc_expr_arg_copy(func_args, f_argv);
-	osc_expr_appendArg(e, *func_args);
-	for(int i = 1; i < ac; i++){
-		func_args[i] = osc_expr_arg_alloc();
-		osc_expr_appendArg(e, func_args[i]);
-	}
+	char *name = f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce";
 
 	t_osc_atom_ar_u *args = NULL;
 	t_osc_expr_arg *a = f_argv->next;
 	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unboundArg(context, a,
-				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-		for(int i = 0; i < ac; i++){
-			if(func_args[i]){
-				osc_expr_arg_free(func_args[i]);
-			}
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unboundArg(context, a, name);
 		}
-		e->argv = NULL;
-		e->argc = 0;
-		osc_expr_free(e);
+		osc_atom_array_u_free(args);
 		return err;
 	}
 	int count = osc_atom_array_u_getLen(args);
@@ -689,73 +673,64 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		start = count - 1;
 	}
 
-	if(count == 0){
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-		if(args){
-			osc_atom_array_u_free(args);
+	// what has been computed so far: the initial value if there is one, the first element otherwise
+	t_osc_atom_ar_u *output = NULL;
+	t_osc_atom_u *first = NULL;
+	if(f_argc == 3){
+		a = f_argv->next->next;
+		t_osc_atom_ar_u *sc = NULL;
+		err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &sc, context);
+		if(!err && osc_atom_array_u_getLen(sc) == 0){
+			err = 1;
 		}
-	}else if(count == 1 && f_argc == 2){
-		*out = args;
-	}else{
-		t_osc_atom_ar_u *output = NULL;
-		if(f_argc == 3){
-			t_osc_atom_ar_u *sc = NULL;
-			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
+		if(err){
 			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unboundArg(context, a,
-						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-				if(args){
-					osc_atom_array_u_free(args);
-				}
-				for(int i = 0; i < ac; i++){
-					if(func_args[i]){
-						osc_expr_arg_free(func_args[i]);
-					}
-				}
-				e->argv = NULL;
-				e->argc = 0;
-				osc_expr_free(e);
-				return err;
-			}
-			if(sc){
-				t_osc_atom_u *acopy = NULL;
-				osc_atom_u_copyInto(&acopy, osc_atom_array_u_get(sc, 0));
-				osc_expr_arg_setOSCAtom(func_args[arg0], acopy);
-				if(sc){
-					osc_atom_array_u_free(sc);
-				}
-			}else{
-				//error
-				return 1;
+				osc_expr_err_unboundArg(context, a, name);
 			}
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
+			osc_atom_array_u_free(sc);
+			osc_atom_array_u_free(args);
+			return err;
+		}
+		output = osc_atom_array_u_alloc(1);
+		first = osc_atom_array_u_get(output, 0);
+		osc_atom_u_copyInto(&first, osc_atom_array_u_get(sc, 0));
+		osc_atom_array_u_free(sc);
+	}else if(count > 0){
+		output = osc_atom_array_u_alloc(1);
+		first = osc_atom_array_u_get(output, 0);
+		osc_atom_u_copyInto(&first, osc_atom_array_u_get(args, start));
+		start += delta;
+	}
+
+	t_osc_expr *e = osc_expr_alloc();
+	osc_expr_setRec(e, osc_expr_lookupFunction("apply"));
+	t_osc_expr_arg *func_args[3];  // function, arg1, arg2
+	func_args[0] = NULL;
+	osc_expr_arg_copy(func_args, f_argv);
+	osc_expr_appendArg(e, *func_args);
+	for(int i = 1; i < 3; i++){
+		func_args[i] = osc_expr_arg_alloc();
+		osc_expr_appendArg(e, func_args[i]);
+	}
+	for(int i = start; (delta > 0 ? i < count : i >= 0) && !err; i += delta){
+		t_osc_atom_ar_u *prev = output;
+		output = NULL;
+		if(osc_atom_array_u_getLen(prev) == 0){
+			// there's nothing to call the function with
+			err = 1;
 		}else{
-			osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(args, start));
-			start += delta;
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-
-		for(int i = start; delta > 0 ? i < count : i >= 0; i += delta){
-			t_osc_atom_u *copy1 = NULL;
-			t_osc_atom_u *copy2 = NULL;
-			osc_atom_u_copyInto(&copy1, osc_atom_array_u_get(output, 0));
-			osc_atom_u_copyInto(&copy2, osc_atom_array_u_get(args, i));
-			osc_expr_arg_setOSCAtom(func_args[arg0], copy1);
-			osc_expr_arg_setOSCAtom(func_args[arg1], copy2);
-			osc_atom_array_u_free(output);
-			output = NULL;
-			osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-			osc_expr_arg_clear(func_args[arg0]);
-			osc_expr_arg_clear(func_args[arg1]);
+			osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(prev, 0));
+			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, i));
+			err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
 		}
+		osc_atom_array_u_free(prev);
+	}
+	if(err){
+		osc_atom_array_u_free(output);
+	}else{
 		*out = output;
-		if(args){
-			osc_atom_array_u_free(args);
-		}
 	}
+	osc_atom_array_u_free(args);
 
 	e->argv = NULL;
 	e->argc = 0;
@@ -764,15 +739,13 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 	if(func_args[0]){
 		osc_expr_arg_free(func_args[0]);
 	}
-	for(int i = 1; i < ac; i++){
-		if(func_args[i]){
-			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
-			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
-			osc_mem_free(func_args[i]);
-		}
+	for(int i = 1; i < 3; i++){
+		// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
+		// but we don't want to free the underlying t_osc_atom_u because
+		// it will be freed when its array is freed.
+		osc_mem_free(func_args[i]);
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_assign(t_osc_expr *f,
-- 
2.43.0


From 0cc5ce073fa25610962d0aaec530dfb615bb38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 67/98] fix: release the partial output of a function that
 fails

---
 osc_expr.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f2be4a8..89f4732 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -110,12 +110,37 @@ int osc_expr_eval(t_osc_expr *f, long *len, char **oscbndl, t_osc_atom_ar_u **ou
 	return osc_expr_evalInLexEnv(f, NULL, len, oscbndl, out, context);
 }
 
+static int osc_expr_call(t_osc_expr *f,
+			 t_osc_expr_lexenv *lexenv,
+			 long *len,
+			 char **oscbndl,
+			 t_osc_atom_ar_u **out,
+			 void *context);
+
 int osc_expr_evalInLexEnv(t_osc_expr *f,
 			  t_osc_expr_lexenv *lexenv,
 			  long *len,
 			  char **oscbndl,
 			  t_osc_atom_ar_u **out,
 				void *context)
+{
+	t_osc_atom_ar_u *result = NULL;
+	int ret = osc_expr_call(f, lexenv, len, oscbndl, &result, context);
+	if(ret){
+		// a function that failed may have left some of its output behind
+		osc_atom_array_u_free(result);
+	}else if(result){
+		*out = result;
+	}
+	return ret;
+}
+
+static int osc_expr_call(t_osc_expr *f,
+			 t_osc_expr_lexenv *lexenv,
+			 long *len,
+			 char **oscbndl,
+			 t_osc_atom_ar_u **out,
+			 void *context)
 {
 	// printf("%s context %p\n",__func__, context );
 	//////////////////////////////////////////////////
-- 
2.43.0


From fce670652081426bf0162af9fe65c8bdd2f710ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:22 +0000
Subject: [PATCH 68/98] fix: assignment, if() and the bundle predicates report
 failures and release what they use

---
 osc_expr.c | 99 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 61 insertions(+), 38 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 89f4732..d217b0b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -825,8 +825,11 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 		if(!address_ar){
 			err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &address_ar, context);
 		}
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unboundArg(context, f_argv, "=");
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unboundArg(context, f_argv, "=");
+			}
+			osc_atom_array_u_free(address_ar);
 			return err;
 		}
 		if(!address_ar){
@@ -845,6 +848,7 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     t_osc_err err;
 	if((err = osc_error_validateAddress(address))){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign() must be an OSC address.");		
+		osc_mem_free(address);
 		return err;
 	}
 
@@ -869,7 +873,7 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
             }*/
         }
         else
-            osc_error(context, OSC_ERR_EXPR_EVAL, NULL);
+            osc_error(context, OSC_ERR_EXPR_EVAL, "error evaluating the value to be assigned to %s", address);
         
 		if(address){
 			osc_mem_free(address);
@@ -945,11 +949,17 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
+	if(osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign_to_index() must be an OSC address.");
+		return 1;
+	}
 	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
 	if(!msg_ar){
 		osc_expr_err_unboundArg(context, f_argv, "assign to index =");
 		return 1;
 	}
+	osc_message_array_s_free(msg_ar);
+	msg_ar = NULL;
 
 	t_osc_atom_ar_u *indexes = NULL;
 	t_osc_atom_ar_u *data = NULL;
@@ -961,26 +971,29 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 
         // get data at target address
         err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, out, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_expr_err_unboundArg(context, f_argv, "assign to index");
+        if(err){
+            if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+                osc_expr_err_unboundArg(context, f_argv, "assign to index");
+            }
             goto bail;
         }
         int outlen = osc_atom_array_u_getLen(*out);
 
         // get index(es)
         err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &indexes, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
-            // osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "assign to index 2");
+        if(err){
+            if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+                osc_expr_err_unboundArg(context, f_argv->next, "assign to index");
+            }
             goto bail;
         }
         int nindexes = osc_atom_array_u_getLen(indexes);
         // get data
         err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &data, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            //osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assign to index 3");
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
-
+        if(err){
+            if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+                osc_expr_err_unboundArg(context, f_argv->next->next, "assign to index");
+            }
             goto bail;
         }
         int ndata = osc_atom_array_u_getLen(data);
@@ -995,6 +1008,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
                 goto bail;
             }
             t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+            osc_atom_u_clear(dest);
             osc_atom_u_copyInto(&dest, osc_atom_array_u_get(data, 0));
         }else if(nindexes > 1 && ndata == 1){
             int i, idx;
@@ -1006,6 +1020,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
                     continue;
                 }
                 t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+                osc_atom_u_clear(dest);
                 osc_atom_u_copyInto(&dest, a);
             }
         }else{
@@ -1021,6 +1036,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
                     continue;
                 }
                 t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+                osc_atom_u_clear(dest);
                 osc_atom_u_copyInto(&dest, osc_atom_array_u_get(data, i));
             }
         }
@@ -1032,6 +1048,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         }
 
         t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
+        // evaluating the arguments may have changed the bundle, so find out where the message is now
+        msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
         if(msg_ar){
             osc_bundle_s_replaceMessage(len, len, oscbndl, osc_message_array_s_get(msg_ar, 0), osc_msg_s);
             osc_message_array_s_free(msg_ar);
@@ -1097,14 +1115,9 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		return err;
 	}
 
-	int test_result_len = osc_atom_array_u_getLen(argv);
-	t_osc_atom_ar_u *boolvec[test_result_len];
-	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
-	int outlen = 0;
-	int j = 0;
-	//for(int j = 0; j < osc_atom_array_u_getLen(argv); j++){
-		if(osc_atom_u_getInt32(osc_atom_array_u_get(argv, j))){
-			err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, boolvec + j, context);
+	t_osc_atom_ar_u *result = NULL;
+		if(osc_atom_u_getInt32(osc_atom_array_u_get(argv, 0))){
+			err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &result, context);
 			if(err){
                 if(err == OSC_ERR_EXPR_ADDRESSUNBOUND)
                 {
@@ -1125,10 +1138,9 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
                 }
                 goto out;
 			}
-			outlen += osc_atom_array_u_getLen(boolvec[j]);
 		}else{
 			if(f_argc > 2){
-				err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, boolvec + j, context);
+				err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &result, context);
 				if(err){
                     if(err == OSC_ERR_EXPR_ADDRESSUNBOUND)
                     {
@@ -1149,21 +1161,15 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
                     }
                     goto out;
 				}
-				outlen += osc_atom_array_u_getLen(boolvec[j]);
 			}
 		}
-		//}
-	*out = osc_atom_array_u_alloc(outlen);
-	for(int i = 0; i < test_result_len; i++){
-		osc_atom_array_u_copyInto(out, boolvec[i], j);
-		j += osc_atom_array_u_getLen(boolvec[i]);
+	if(!result){
+		result = osc_atom_array_u_alloc(0);
 	}
+	*out = result;
+	result = NULL;
  out:
-	for(int i = 0; i < test_result_len; i++){
-		if(boolvec[i]){
-			osc_atom_array_u_free(boolvec[i]);
-		}
-	}
+	osc_atom_array_u_free(result);
 	osc_atom_array_u_free(argv);
 	return err;
 }
@@ -1185,8 +1191,11 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
 		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-		if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unboundArg(context, f_argv, osc_expr_rec_getName(osc_expr_getRec(f)));
+		if(r){
+			if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unboundArg(context, f_argv, osc_expr_rec_getName(osc_expr_getRec(f)));
+			}
+			osc_atom_array_u_free(ar);
 			return r;
 		}
 		if(ar && osc_atom_array_u_getLen(ar) > 0){
@@ -1203,6 +1212,7 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		}else{
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}
+		osc_atom_array_u_free(ar);
 	}else{
 		if(*len == OSC_HEADER_SIZE){
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
@@ -1296,9 +1306,11 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 						goto err;
 					}
 					if(address[0] != '/'){
+						osc_mem_free(address);
 						osc_atom_array_u_free(ar);
 						goto err;
 					}
+					osc_atom_array_u_free(ar);
 				}
 			}
 		}
@@ -1352,7 +1364,14 @@ static int osc_expr_specFunc_getaddresses(t_osc_expr *f,
 	if(osc_expr_getArgCount(f)){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unboundArg(context, f_argv, osc_expr_rec_getName(osc_expr_getRec(f)));
+			}
+			osc_atom_array_u_free(ar);
+			return err;
+		}
 		if(ar){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG){
@@ -1420,6 +1439,7 @@ static int osc_expr_specFunc_delete(t_osc_expr *f,
 				char *st = NULL;
 				osc_atom_u_getString(a, 0, &st);
 				osc_bundle_s_removeMessage(st, len, *oscbndl, 1);
+				osc_mem_free(st);
 			}
 		}
 		f_argv = f_argv->next;
@@ -1462,8 +1482,11 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unboundArg(context, f_argv, "value");
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unboundArg(context, f_argv, "value");
+		}
+		osc_atom_array_u_free(arg);
 		return err;
 	}
 	if(arg){
-- 
2.43.0


From 25e7da4c377254e5391f2b3bdede728fa02ba915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 69/98] fix: eval, tokenize, compile and the time tag functions
 report failures and release what they use

---
 osc_expr.c | 57 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d217b0b..1fd30bb 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1565,8 +1565,11 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unboundArg(context, f_argv, "eval");
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unboundArg(context, f_argv, "eval");
+		}
+		osc_atom_array_u_free(arg);
 		return err;
 	}
 	if(arg){
@@ -1628,13 +1631,13 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 			}
 		}
 		osc_atom_array_u_free(arg);
-	}else{
+	}else if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS && osc_expr_funcobj_ht){
 		char *a = osc_expr_arg_getOSCAddress(f_argv);
 		if(a){
 			t_osc_expr *e = osc_hashtab_lookup(osc_expr_funcobj_ht, strlen(a), a);
 			if(e){
 				t_osc_atom_ar_u *ar = NULL;
-				int ret = osc_expr_eval(f, len, oscbndl, &ar, context);
+				int ret = osc_expr_eval(e, len, oscbndl, &ar, context);
 				*out = osc_atom_array_u_alloc(1);
 
 				osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
@@ -1659,25 +1662,29 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 	char *expr = NULL;
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unboundArg(context, f_argv, "tokenize");
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unboundArg(context, f_argv, "tokenize");
+		}
+		osc_atom_array_u_free(arg);
 		return err;
 	}
 	if(arg){
+		char *buf = NULL;
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
 			expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
 		}else{
 			long buflen = 0;
-			osc_atom_array_u_getStringArray(arg, &buflen, &expr, " ");
+			osc_atom_array_u_getStringArray(arg, &buflen, &buf, " ");
+			expr = buf;
 		}
 		if(expr){
-			t_osc_err e = osc_expr_lex(expr, out);
-			if(e){
-				return e;
-			}
+			err = osc_expr_lex(expr, out);
 		}
+		osc_mem_free(buf);
+		osc_atom_array_u_free(arg);
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_compile(t_osc_expr *f,
@@ -1693,8 +1700,6 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 	}
 	char *key_orig = osc_expr_arg_getOSCAddress(f_argv);
 	int keylen = strlen(key_orig);
-	char *key = osc_mem_alloc(keylen + 1);
-	strncpy(key, key_orig, keylen + 1);
 	char *expression = NULL;
 	t_osc_expr *thisf = NULL;
 	int arg2type = osc_expr_arg_getType(f_argv->next);
@@ -1702,9 +1707,10 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 		// 2nd arg is an OSC address--look it up in the bundle
 		t_osc_atom_ar_u *arg = NULL;
 		t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &arg, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unboundArg(context, f_argv, "compile");
-			osc_mem_free(key);
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unboundArg(context, f_argv->next, "compile");
+			}
 			return err;
 		}
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' &&
@@ -1719,15 +1725,16 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 		osc_atom_array_u_free(arg);
 	}else if(arg2type == OSC_EXPR_ARG_TYPE_EXPR){
 		// 2nd arg is an expr
-		osc_expr_copy(&f, osc_expr_arg_getExpr(f_argv->next));
+		osc_expr_copy(&thisf, osc_expr_arg_getExpr(f_argv->next));
 	}else{
-		// free mem here
 		return 1;
 	}
 	if(thisf){
 		if(!osc_expr_funcobj_ht){
 			osc_expr_funcobj_ht = osc_hashtab_new(-1, osc_expr_funcobj_dtor);
 		}
+		char *key = NULL;
+		osc_util_strdup(&key, key_orig);
 		osc_hashtab_store(osc_expr_funcobj_ht, keylen, key, thisf);
 	}
 	if(expression){
@@ -1743,6 +1750,9 @@ static int osc_expr_specFunc_gettimetag(t_osc_expr *f,
 			    t_osc_atom_ar_u **out,
 					void *context)
 {
+	if(!len || !oscbndl){
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 	t_osc_atom_u *a = osc_atom_array_u_get(*out, 0);
 	osc_atom_u_setTimetag(a, osc_bundle_s_getTimetag(*len, *oscbndl));
@@ -1758,21 +1768,26 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	if(err){
 		return 1;
 	}
+	int ret = 1;
 	if(arg){
 		if(osc_atom_array_u_getLen(arg) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(arg, 0);
 			if(a){
 				t_osc_timetag t = osc_atom_u_getTimetag(a);
 				osc_bundle_s_setTimetag(*len, *oscbndl, t);
-				return 0;
+				ret = 0;
 			}
 		}
+		osc_atom_array_u_free(arg);
 	}
-	return 1;
+	return ret;
 }
 
 static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
-- 
2.43.0


From 81b4ddd9e1e6cafa08bc43d82a272bad0ce6ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 70/98] fix: the bundle member operators report failures and
 release what they use

---
 osc_expr.c | 210 +++++++++++++++++++++++++----------------------------
 1 file changed, 99 insertions(+), 111 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1fd30bb..e8d23ee 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1790,6 +1790,47 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 	return ret;
 }
 
+// makes a serialized copy of the bundle a list holds, or of the bundle bound to the address it holds
+static int osc_expr_copyBundleFromArg(t_osc_atom_ar_u *arg,
+				      long *len,
+				      char **oscbndl,
+				      long *bndl_len_s,
+				      char **bndl_s)
+{
+	t_osc_atom_u *arg_atom = osc_atom_array_u_get(arg, 0);
+	*bndl_len_s = 0;
+	*bndl_s = NULL;
+	if(osc_atom_u_getTypetag(arg_atom) == 's'){
+		if(!len || !oscbndl){
+			return OSC_ERR_EXPR_ADDRESSUNBOUND;
+		}
+		char *string = osc_atom_u_getStringPtr(arg_atom);
+		t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(*len, *oscbndl, string, 1);
+		if(!msgar){
+			return OSC_ERR_EXPR_ADDRESSUNBOUND;
+		}
+		t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
+		t_osc_atom_s *a = NULL;
+		osc_message_s_getArg(m, 0, &a);
+		t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
+		if(b){
+			*bndl_len_s = osc_bundle_s_getLen(b);
+			*bndl_s = osc_bundle_s_getPtr(b);
+			osc_bundle_s_free(b);
+		}
+		if(a){
+			osc_atom_s_free(a);
+		}
+		osc_message_array_s_free(msgar);
+	}else if(osc_atom_u_getTypetag(arg_atom) == OSC_BUNDLE_TYPETAG){
+		t_osc_bndl_u *b = osc_atom_u_getBndl(arg_atom);
+		*bndl_len_s = osc_bundle_u_nserialize(NULL, 0, b);
+		*bndl_s = osc_mem_alloc(*bndl_len_s);
+		osc_bundle_u_nserialize(*bndl_s, *bndl_len_s, b);
+	}
+	return *bndl_s ? 0 : 1;
+}
+
 static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 					     t_osc_expr_lexenv *lexenv,
 					     long *len,
@@ -1799,90 +1840,47 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
-	osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
-	if(!arg1){
+	int ret = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+	if(ret || !arg1){
+		osc_atom_array_u_free(arg1);
 		return 1;
 	}
 	long bndl_len_s = 0;
 	char *bndl_s = NULL;
-	if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == 's'){
-		char *string = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg1, 0));
-		t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(*len, *oscbndl, string, 1);
-		if(msgar){
-			t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
-			t_osc_atom_s *a = NULL;
-			osc_message_s_getArg(m, 0, &a);
-			//char tmp[osc_bundle_s_getStructSize()];
-			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
-			osc_message_array_s_free(msgar);
-		}else{
-			return OSC_ERR_EXPR_ADDRESSUNBOUND;
-		}
-	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
-		t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0));
-		bndl_len_s = osc_bundle_u_nserialize(NULL, 0, b);
-		bndl_s = osc_mem_alloc(bndl_len_s);
-		osc_bundle_u_nserialize(bndl_s, bndl_len_s, b);
-	}//else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) ==
+	ret = osc_expr_copyBundleFromArg(arg1, len, oscbndl, &bndl_len_s, &bndl_s);
+	osc_atom_array_u_free(arg1);
+	if(ret){
+		return ret;
+	}
 
-	int ret = 0;
-	if(bndl_len_s && bndl_s){
-	/* if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){ */
-	/* 	t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0)); */
-	/* 	if(b){ */
-	/* 		long l = 0; */
-	/* 		char *p = NULL; */
-	/* 		osc_bundle_u_serialize(b, &l, &p); */
-		//if(p){
-
-		if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_EXPR){
-			t_osc_atom_ar_u *a = NULL;
-			t_osc_expr *e = osc_expr_arg_getExpr(f_argv->next);
-			if(e->rec->func == osc_expr_value){
-				ret = osc_expr_evalArgInLexEnv(osc_expr_getArgs(e), lexenv, len, oscbndl, &a, context);
-			}else{
-				ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
-			}
-			if(a){
-				t_osc_expr_arg *arg = osc_expr_arg_alloc();
-				char *st = NULL;
-				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
-				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
-				osc_atom_array_u_free(a);
-				osc_expr_arg_free(arg);
-			}else{
-				return ret;
-			}
-		}else if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_STRING ||
-			 osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_ATOM){
-			osc_expr_arg_setType(f_argv->next, OSC_EXPR_ARG_TYPE_ATOM);
-			t_osc_atom_ar_u *a = NULL;
+	int type = osc_expr_arg_getType(f_argv->next);
+	if(type == OSC_EXPR_ARG_TYPE_EXPR || type == OSC_EXPR_ARG_TYPE_ATOM){
+		t_osc_atom_ar_u *a = NULL;
+		t_osc_expr *e = type == OSC_EXPR_ARG_TYPE_EXPR ? osc_expr_arg_getExpr(f_argv->next) : NULL;
+		if(e && e->rec->func == osc_expr_value){
+			ret = osc_expr_evalArgInLexEnv(osc_expr_getArgs(e), lexenv, len, oscbndl, &a, context);
+		}else{
 			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
-			if(a){
-				t_osc_expr_arg *arg = osc_expr_arg_alloc();
-				char *st = NULL;
-				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
-				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
-				osc_atom_array_u_free(a);
-				osc_expr_arg_free(arg);
-			}else{
-				return ret;
+		}
+		char *st = NULL;
+		if(!ret){
+			osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
+			if(!st){
+				ret = 1;
 			}
-		}else{
-			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
 		}
-		osc_mem_free(bndl_s);
-		osc_atom_array_u_free(arg1);
-				return ret;
+		if(!ret){
+			t_osc_expr_arg *arg = osc_expr_arg_alloc();
+			osc_expr_arg_setOSCAddress(arg, st);
+			ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+			osc_expr_arg_free(arg);
+		}
+		osc_atom_array_u_free(a);
+	}else{
+		ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
 	}
-	return 1;
+	osc_mem_free(bndl_s);
+	return ret;
 }
 
 static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
@@ -1895,7 +1893,14 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
 
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_err error = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+	if(error && arg1){
+		osc_atom_array_u_free(arg1);
+		return error;
+	}
 	if(!arg1){
 		// if arg1 is unbound, create a bundle with message arg2 : arg3
 		if( error == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_getArgCount(f) > 2 &&
@@ -1904,9 +1909,12 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			t_osc_bundle_u * b = osc_bundle_u_alloc();
 			osc_message_u_appendBndl_u(m, b);
             
-			osc_bundle_s_appendMessage(len, oscbndl, osc_message_u_serialize(m) );
+			t_osc_msg_s *ms = osc_message_u_serialize(m);
+			osc_bundle_s_appendMessage(len, oscbndl, ms);
+			osc_message_s_deepFree(ms);
             
 			arg1 = osc_message_u_getArgArrayCopy(m);
+			osc_message_u_free(m);
             
 		}else{
 			return 1;
@@ -1915,28 +1923,7 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 	int free_arg1 = 1;
 	long bndl_len_s = 0;
 	char *bndl_s = NULL;
-	if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == 's'){
-		char *string = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg1, 0));
-		t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(*len, *oscbndl, string, 1);
-		if(msgar){
-			t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
-			t_osc_atom_s *a = NULL;
-			osc_message_s_getArg(m, 0, &a);
-			//char tmp[osc_bundle_s_getStructSize()];
-			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
-			osc_message_array_s_free(msgar);
-		}
-	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
-		t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0));
-		bndl_len_s = osc_bundle_u_nserialize(NULL, 0, b);
-		bndl_s = osc_mem_alloc(bndl_len_s);
-		osc_bundle_u_nserialize(bndl_s, bndl_len_s, b);
-	}
+	osc_expr_copyBundleFromArg(arg1, len, oscbndl, &bndl_len_s, &bndl_s);
 
 	if(bndl_len_s && bndl_s){
 		t_osc_expr *assign = osc_expr_alloc();
@@ -1944,24 +1931,21 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		osc_expr_setRec(assign, r);
 
 		t_osc_atom_array_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
-		int ret = 0;
-		if(!ar){
+		int ret = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
+		if(ret){
+			if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unboundArg(context, f_argv->next->next, "=");
+			}
+			osc_atom_array_u_free(ar);
 			goto cleanup;
 		}
+		if(!ar){
+			ar = osc_atom_array_u_alloc(0);
+		}
 		t_osc_expr_arg *target = NULL;
 		osc_expr_arg_copy(&target, f_argv->next);
 		t_osc_expr_arg *val = osc_expr_arg_alloc();
-		if(osc_atom_array_u_getLen(ar) == 1){
-			t_osc_atom_u *copy = osc_atom_u_alloc();
-			osc_atom_u_copyInto(&copy, osc_atom_array_u_get(ar, 0));
-			osc_expr_arg_setOSCAtom(val, copy);
-			osc_atom_array_u_free(ar);
-		}else{
-			t_osc_atom_ar_u *copy = osc_atom_array_u_copy(ar);
-			osc_expr_arg_setList(val, copy);
-			osc_atom_array_u_free(ar);
-		}
+		osc_expr_arg_setList(val, ar);
 		osc_expr_arg_append(target, val);
 		osc_expr_setArg(assign, target);
 		ret = osc_expr_specFunc_assign(assign, lexenv, &bndl_len_s, &bndl_s, out, context);
@@ -2042,6 +2026,7 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		return ret;
 	}
 
+	osc_atom_array_u_free(arg1);
 	return 1;
 }
 
@@ -6862,6 +6847,9 @@ t_osc_err osc_expr_arg_copy(t_osc_expr_arg **dest, t_osc_expr_arg *src)
 	memset(copy, '\0', sizeof(t_osc_expr_arg));
 	copy->type = src->type;
 	switch(src->type){
+	case OSC_EXPR_ARG_TYPE_LIST:
+		copy->arg.list = osc_atom_array_u_copy(src->arg.list);
+		break;
 	case OSC_EXPR_ARG_TYPE_ATOM:
 		osc_atom_u_copyInto(&(copy->arg.atom), src->arg.atom);
 		break;
-- 
2.43.0


From dc07da4a5dc3756fceb270d263da5b5e126ea45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:43 +0000
Subject: [PATCH 71/98] fix: nextafter() takes two arguments

---
 osc_expr_func.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 524b4fc..0475039 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1249,16 +1249,16 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (void *)logb},
 	//////////////////////////////////////////////////
 	{"nextafter",
-	 "/result = nextafter($1)",
-	 1,
+	 "/result = nextafter($1, $2)",
+	 2,
 	 0,
-	 (char *[]){"x"},
-	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
+	 (char *[]){"x", "y"},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){NULL},
 	 (int []){},
 	 (char *[]){"/math/constant", NULL},
 	 "Next representable double-precision floating-point number",
-	 osc_expr_1arg_dbl,
+	 osc_expr_2arg_dbl_dbl,
 	 (void *)nextafter},
 	//////////////////////////////////////////////////
 	{"remainder",
-- 
2.43.0


From 8f9f8a6980eec6e1ec76f0bec2001ebbf58063e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:45 +0000
Subject: [PATCH 72/98] fix: apply() checks the number of arguments before
 calling a function

---
 osc_expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index e8d23ee..1e43b91 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -542,6 +542,14 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)) : "");
 			return 1;
 		}
+		int argc = osc_expr_getArgCount(f) - 1;
+		int nreq = osc_expr_rec_getNumRequiredArgs(r);
+		int nopt = osc_expr_rec_getNumOptionalArgs(r);
+		if(argc < nreq || (nopt >= 0 && argc > nreq + nopt)){
+			// the parser can't check this for us
+			osc_expr_err_argnum(context, nreq, argc, nopt, osc_expr_rec_getName(r));
+			return 1;
+		}
 		t_osc_expr *e = osc_expr_alloc();
 		osc_expr_setRec(e, r);
 		osc_expr_setArg(e, f_argv->next);
-- 
2.43.0


From c8345d972c5b3f6fe3b2440df6db9c46ea72737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 73/98] fix: integer arithmetic handles every integer type and
 the most negative numbers

---
 osc_expr.c | 64 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1e43b91..aaae3bb 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2426,6 +2426,7 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // two booleans
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) + osc_atom_u_getInt32(f2));
 				break;
@@ -2478,7 +2479,11 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
 		}else{
-			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			if(tt1 == 'h' || tt2 == 'h' || tt1 == 'H' || tt2 == 'H'){
+				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) - osc_atom_u_getInt64(f2));
+			}else{
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			}
 		}
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
@@ -2528,6 +2533,7 @@ int osc_expr_multiply(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // two booleans
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) * osc_atom_u_getInt32(f2));
 				break;
@@ -2593,11 +2599,15 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 			// }
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // two booleans
 			case 'i':
 				{
 					int32_t i2 = osc_atom_u_getInt32(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
+					}else if(i2 == -1){
+						// the most negative number can't be divided by -1
+						osc_atom_u_setInt32(*result, 0u - (uint32_t)osc_atom_u_getInt32(f1));
 					}else{
 						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
 					}
@@ -2618,6 +2628,8 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					int64_t i2 = osc_atom_u_getInt64(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
+					}else if(i2 == -1){
+						osc_atom_u_setInt64(*result, 0ull - (uint64_t)osc_atom_u_getInt64(f1));
 					}else{
 						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
 					}
@@ -2665,11 +2677,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
@@ -3198,15 +3210,34 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) + 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) + 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) + 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
+			break;
+		case 'T':
+		case 'F':
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getInt32(a) + 1);
+			break;
+		default:
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "expected a number but found \"%c\"", tt);
+			return 1;
 		}
 	}
 	return 0;
@@ -3231,15 +3262,34 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) - 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) - 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) - 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
+			break;
+		case 'T':
+		case 'F':
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getInt32(a) - 1);
+			break;
+		default:
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "expected a number but found \"%c\"", tt);
+			return 1;
 		}
 	}
 	return 0;
-- 
2.43.0


From c201df6a8bf0031bb67f79b49ff018928a0ab473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:52 +0000
Subject: [PATCH 74/98] fix: sum() and product() keep floats and numbers
 outside the 32 bit range

---
 osc_expr.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index aaae3bb..9c40131 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3446,6 +3446,23 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 	return 0;
 }
 
+// store a whole number in the smallest integer type (32 bits or more) that can represent it,
+// or as a double if there isn't one.
+static void osc_expr_setSmallestInt(t_osc_atom_u *a, double val)
+{
+	if(val >= -2147483648. && val <= 2147483647.){
+		osc_atom_u_setInt32(a, (int32_t)val);
+	}else if(val >= 0 && val <= 4294967295.){
+		osc_atom_u_setUInt32(a, (uint32_t)val);
+	}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
+		osc_atom_u_setInt64(a, (int64_t)val);
+	}else if(val >= 0 && val < 18446744073709551616.){
+		osc_atom_u_setUInt64(a, (uint64_t)val);
+	}else{
+		osc_atom_u_setDouble(a, val);
+	}
+}
+
 int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	*out = osc_atom_array_u_alloc(1);
@@ -3462,23 +3479,16 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 		}
 		int i;
 		for(i = 0; i < len; i++){
+			if(OSC_TYPETAG_ISFLOAT(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[j], i)))){
+				doubleup = 1;
+			}
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setSmallestInt(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
@@ -3509,17 +3519,7 @@ int osc_expr_sum(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setSmallestInt(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
-- 
2.43.0


From ef6bcb6a082e1d48edecf8f54bbda2190184b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:15 +0000
Subject: [PATCH 75/98] fix: min, max, extrema, range, median and sortidx
 handle empty lists, infinities and strings

---
 osc_expr.c | 52 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9c40131..5685e19 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3809,8 +3809,14 @@ int osc_expr_median(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	*out = osc_atom_array_u_alloc(1);
 
 	long len = osc_atom_array_u_getLen(*argv);
+	if(len == 0){
+		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), NAN);
+		return 0;
+	}
 	double *tmp = NULL;
-	osc_atom_array_u_getDoubleArray(*argv, &tmp);
+	if(osc_atom_array_u_getDoubleArray(*argv, &tmp)){
+		return OSC_ERR_OUTOFMEM;
+	}
 	qsort((void *)(tmp), len, sizeof(double), comp);
 	if((len % 2) == 0){
 		//double left = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, (int)((len - 1) / 2.)));
@@ -3922,15 +3928,23 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     }
 */
     long n = osc_atom_array_u_getLen(argv[0]);
+    if(n == 0)
+    {
+        return 0;
+    }
     
     *out = osc_atom_array_u_alloc(n);
-    t_sortIndexStruct sort_ar[n];
+    t_sortIndexStruct *sort_ar = (t_sortIndexStruct *)osc_mem_alloc(n * sizeof(t_sortIndexStruct));
+    if(!*out || !sort_ar)
+    {
+        osc_mem_free(sort_ar);
+        return OSC_ERR_OUTOFMEM;
+    }
     
     for(int i = 0; i < n; i++)
     {
         sort_ar[i].index = i;
-        sort_ar[i].a = osc_atom_u_alloc();
-        osc_atom_u_copyInto(&sort_ar[i].a, osc_atom_array_u_get(argv[0], i));
+        sort_ar[i].a = osc_atom_array_u_get(argv[0], i);
     }
 
     
@@ -3939,8 +3953,8 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     for( int i = 0; i < n; i++ )
     {
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
-        osc_mem_free(sort_ar[i].a);
     }
+    osc_mem_free(sort_ar);
     
     return 0;
 }
@@ -4677,11 +4691,14 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX;
-	t_osc_atom_u *a = NULL;
+	double min = HUGE_VAL;
+	t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
 		if(f <= min){
@@ -4698,11 +4715,14 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double max = -DBL_MAX;
-	t_osc_atom_u *a = NULL;
+	double max = -HUGE_VAL;
+	t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
 		if(f >= max){
@@ -4719,11 +4739,14 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(2);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
-	t_osc_atom_u *amin = NULL, *amax = NULL;
+	double min = HUGE_VAL, max = -HUGE_VAL;
+	t_osc_atom_u *amin = osc_atom_array_u_get(*argv, 0), *amax = osc_atom_array_u_get(*argv, 0);
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
 		if(f <= min){
@@ -4746,10 +4769,13 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = HUGE_VAL, max = -HUGE_VAL;
 	char ttmin = 'i';
 	char ttmax = 'i';
 	//t_osc_atom_u *amin = NULL, *amax = NULL;
@@ -4770,7 +4796,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	if(ttmin == 'f' || ttmin == 'd' || ttmax == 'f' || ttmax == 'd'){
 		osc_atom_u_setDouble(r, max - min);
 	}else{
-		osc_atom_u_setInt32(r, max - min);
+		osc_expr_setSmallestInt(r, max - min);
 	}
 	return 0;
 }
-- 
2.43.0


From 53156a82e89980da06379bf1c7498523d1eb78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 76/98] fix: aseq() and nfill() reject empty, infinite and
 oversized requests

---
 osc_expr.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5685e19..7854eb3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4009,8 +4009,18 @@ int osc_expr_nfill(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	}
 	//t_osc_atom_u *val = NULL;
 
-	int outlen = n * osc_atom_array_u_getLen(argv[1]);
+	int64_t outlen = (int64_t)n * osc_atom_array_u_getLen(argv[1]);
+	if(outlen > INT32_MAX){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "nfill: the list is too long");
+		return 1;
+	}
+	if(outlen == 0){
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(outlen);
+	if(!*out){
+		return OSC_ERR_OUTOFMEM;
+	}
 	int j = 0;
 	for(int i = 0; i < n; i++){
 		osc_atom_array_u_copyInto(out, argv[1], j);
@@ -4044,6 +4054,12 @@ int osc_expr_aseq(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		return 1;
 	}
 	int dblup = 0;
+	for(int i = 0; i < argc && i < 3; i++){
+		if(osc_atom_array_u_getLen(argv[i]) == 0){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "aseq: argument %d is empty", i + 1);
+			return 1;
+		}
+	}
 	if(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0)) == 'f' ||
 	   osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0)) == 'f' ||
 	   osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0)) == 'd' ||
@@ -4092,8 +4108,19 @@ int osc_expr_aseq(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		max = tmp;
 	}
 	int i = 0;
-	int n = (int)(((max - min) / abs_step)) + 1;
+	double count = (max - min) / abs_step;
+	if(!(count < INT32_MAX)){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "aseq: the sequence is not finite or is too long");
+		return 1;
+	}
+	int n = (int)count + 1;
 	*out = osc_atom_array_u_alloc(n);
+	if(!*out){
+		return OSC_ERR_OUTOFMEM;
+	}
+	if(!dblup && (min < INT32_MIN || max > INT32_MAX)){
+		dblup = 1;
+	}
 
 	if(dblup){
 		for(i = 0; i < n; i++){
-- 
2.43.0


From 4226d461039d2751f94a452b7ed6f66103e9cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 77/98] fix: strcmp, strfind, split and join handle empty
 arguments

---
 osc_expr.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 7854eb3..d0f39fb 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5217,6 +5217,11 @@ int osc_expr_strcmp(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	char *st1 = NULL, *st2 = NULL;
 	osc_atom_u_getString(osc_atom_array_u_get(*argv, 0), 0, &st1);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &st2);
+	if(!st1 || !st2){
+		osc_mem_free(st1);
+		osc_mem_free(st2);
+		return 1;
+	}
 	int ret = 0;
 	if(argc == 3){
 		int n = osc_atom_u_getInt(osc_atom_array_u_get(argv[2], 0));
@@ -5301,6 +5306,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
     osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &substr);
     if(!substr || !str){
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5309,6 +5316,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long substrlen = strlen(substr);
     if(substrlen == 0)
     {
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 0;
     }
     
@@ -5346,6 +5355,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &sep);
 	if(!sep || !str){
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5355,6 +5366,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			osc_atom_u_setInt8(a, str[i]);
 		}
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 0;
 	}
 	int n = 16;
@@ -5394,8 +5407,6 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	int seplen = 0;
 	if(sep){
 		seplen = strlen(sep);
-	}else{
-		sep = "";
 	}
 	int n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5423,12 +5434,13 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	len++;
 	char *buf = (char *)osc_mem_alloc(len);
 	char *bufptr = buf;
+	*bufptr = 0;
 	for(int i = 0; i < n; i++){
 		if(ptrs[i]){
 			if(i == n - 1){
 				bufptr += sprintf(bufptr, "%s", ptrs[i]);
 			}else{
-				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep);
+				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep ? sep : "");
 			}
 			osc_mem_free(ptrs[i]);
 		}
-- 
2.43.0


From 62e17aeefac72050d89c4aee2f597abaaedf39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:05 +0000
Subject: [PATCH 78/98] fix: bitand() and bitor() take the result type from the
 operands they use

---
 osc_expr.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d0f39fb..f08a47b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5463,7 +5463,9 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
-	char largest_type = osc_typetag_getLargestType(argc, argv);
+	char tt1 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], 0));
+	char tt2 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0));
+	char largest_type = osc_typetag_compare(tt1, tt2) < 0 ? tt2 : tt1;
 	switch(largest_type){
 	case 'i':
 		{
@@ -5518,7 +5520,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
 	}
@@ -5534,7 +5536,9 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
-	char largest_type = osc_typetag_getLargestType(argc, argv);
+	char tt1 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], 0));
+	char tt2 = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0));
+	char largest_type = osc_typetag_compare(tt1, tt2) < 0 ? tt2 : tt1;
 	switch(largest_type){
 	case 'i':
 		{
@@ -5589,7 +5593,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
 	}
-- 
2.43.0


From 53b49414f7876a35725a98e5db4da92fda93e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:11 +0000
Subject: [PATCH 79/98] fix: casts never produce untyped atoms or read past a
 blob

---
 osc_expr.c | 52 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f08a47b..74d291c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6044,7 +6044,11 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
 				osc_mem_free(b);
 			}else{
-				char *blob = osc_mem_alloc(n + 4);
+				char *blob = osc_mem_alloc(osc_util_getPaddingForNBytes(n) + 4);
+				if(!blob){
+					return OSC_ERR_OUTOFMEM;
+				}
+				memset(blob, '\0', osc_util_getPaddingForNBytes(n) + 4);
 				for(int i = 0; i < n; i++){
 					blob[i + 4] = osc_atom_u_getInt8(osc_atom_array_u_get(*argv, i));
 				}
@@ -6144,7 +6148,15 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *s = NULL;
 	if(osc_atom_u_getTypetag(src) == 'b'){
 		char *b = osc_atom_u_getBlob(src);
-		osc_atom_u_setString(dest, b + 4);
+		int32_t n = ntoh32(*((int32_t *)b));
+		s = (char *)osc_mem_alloc(n + 1);
+		if(!s){
+			return 1;
+		}
+		memcpy(s, b + 4, n);
+		s[n] = 0;
+		osc_atom_u_setString(dest, s);
+		osc_mem_free(s);
 		return 0;
 	}else{
 		if(osc_atom_u_getTypetag(src) == 'c'){
@@ -6187,8 +6199,11 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	int32_t l = 0;
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
-	osc_atom_u_setBlobPtr(dest, blob);
-	osc_atom_u_setShouldFreePtr(dest, 1);
+	if(!blob){
+		return 1;
+	}
+	osc_atom_u_setBlob(dest, blob);
+	osc_mem_free(blob);
 	return 0;
 }
 
@@ -6216,6 +6231,7 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 		int i;
 		for(i = 0; i < n; i++){
 			char tt = osc_atom_u_getInt8(osc_atom_array_u_get(ttarray, i));
+			int ret = 0;
 			switch(tt){
 			case 'c':
 				osc_expr_explicitCast_int8(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
@@ -6248,11 +6264,21 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 				osc_expr_explicitCast_float64(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
 				break;
 			case 's':
-				osc_expr_explicitCast_string(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
+				ret = osc_expr_explicitCast_string(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
 				break;
 			case 'b':
-				osc_expr_explicitCast_blob(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
+				ret = osc_expr_explicitCast_blob(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
 				break;
+			default:
+				ret = 1;
+				break;
+			}
+			if(ret){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "cast: can't convert argument %d to type %d", i + 1, tt);
+				if(alloc){
+					osc_atom_array_u_free(ttarray);
+				}
+				return 1;
 			}
 		}
 		if(alloc){
@@ -6285,6 +6311,9 @@ int osc_expr_hton32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), hton32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton32: argument is not a 32 bit integer");
+				return 1;
 			}
 			k++;
 		}
@@ -6314,6 +6343,9 @@ int osc_expr_ntoh32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), ntoh32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh32: argument is not a 32 bit integer");
+				return 1;
 			}
 			k++;
 		}
@@ -6337,7 +6369,7 @@ int osc_expr_hton64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'u':
 			case 'i':
 			case 'h':
-				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getUInt64(a)));
+				osc_atom_u_setInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getInt64(a)));
 				break;
 			case 'C':
 			case 'U':
@@ -6345,6 +6377,9 @@ int osc_expr_hton64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton64: argument is not an integer");
+				return 1;
 			}
 			k++;
 		}
@@ -6376,6 +6411,9 @@ int osc_expr_ntoh64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), ntoh64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh64: argument is not an integer");
+				return 1;
 			}
 			k++;
 		}
-- 
2.43.0


From a10f2182f11806a81590aca3b58f31a4940e70fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:12 +0000
Subject: [PATCH 80/98] fix: bundle() and match() reject arguments they can't
 turn into bundles

---
 osc_expr.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 74d291c..53c2751 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6496,7 +6496,8 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	for(int i = 0; i < npatterns; i++){
 		t_osc_atom_u *pattern = osc_atom_array_u_get(argv[0], i);
 		if(osc_atom_u_getTypetag(pattern) != 's'){
-			continue;
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "match: patterns must be strings");
+			return 1;
 		}
 		char *pattern_string = osc_atom_u_getStringPtr(pattern);
 		t_osc_bndl_u *b = osc_bundle_u_alloc();
@@ -6504,8 +6505,8 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		t_osc_msg_u *full = osc_message_u_allocWithAddress("/full");
 		t_osc_msg_u *partial = osc_message_u_allocWithAddress("/partial");
 		t_osc_msg_u *unmatched = osc_message_u_allocWithAddress("/unmatched");
-		int matches[naddresses];
-		memset(matches, 0, sizeof(int) * naddresses);
+		int matches[naddresses + 1];
+		memset(matches, 0, sizeof(matches));
 		for(int j = 0; j < naddresses; j++){
 			t_osc_atom_u *address = osc_atom_array_u_get(argv[1], j);
 			if(osc_atom_u_getTypetag(address) != 's'){
@@ -6603,9 +6604,16 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 				int32_t len = 0;
 				char *ptr = NULL;
 				osc_atom_u_getBlobCopy(a, &len, &ptr);
-				len -= 4;
-				osc_atom_u_setBndl(aout, len, ptr);
-				return 0;
+				if(!ptr){
+					return OSC_ERR_OUTOFMEM;
+				}
+				len = ntoh32(*((int32_t *)ptr));
+				t_osc_err e = osc_error_bundleSanityCheck(len, ptr + 4);
+				if(!e){
+					osc_atom_u_setBndl(aout, len, ptr + 4);
+				}
+				osc_mem_free(ptr);
+				return e;
 			}else if(osc_atom_u_getTypetag(a) == 's'){
 				t_osc_bndl_u *b = osc_bundle_u_alloc();
 				t_osc_msg_u *m = osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(a));
@@ -6618,11 +6626,15 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			while(np % 4){
 				np++;
 			}
-			char buf[np];
-			memset(buf, 0, np);
+			char buf[np + 1];
+			memset(buf, 0, np + 1);
 			for(int i = 0; i < n; i++){
 				buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
 			}
+			t_osc_err e = osc_error_bundleSanityCheck(np, buf);
+			if(e){
+				return e;
+			}
 			osc_atom_u_setBndl(aout, np, buf);
 			return 0;
 		}
-- 
2.43.0


From 76ce19e5e57390ced50de718ed81911e10a5e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:50 +0000
Subject: [PATCH 81/98] fix: osc_expr_format sizes its buffer for the whole
 expression

---
 osc_expr.c | 103 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 58 insertions(+), 45 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 53c2751..4948593 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -29,6 +29,7 @@
 #include <string.h>
 #include <float.h>
 #include <inttypes.h>
+#include <stdarg.h>
 
 #include <string.h>
 #include <math.h>
@@ -7085,92 +7086,104 @@ void osc_expr_funcobj_dtor(char *key, void *val)
 	}
 }
 
-int osc_expr_format_r(t_osc_expr *fg, char *buf)
+// print at position pos of a buffer of n bytes, without ever writing past its end.
+// returns the position after the text, which can be larger than n.
+static long osc_expr_nprintf(char *buf, long n, long pos, const char *fmt, ...)
+{
+	va_list ap;
+	va_start(ap, fmt);
+	int len = vsnprintf(pos < n ? buf + pos : NULL, pos < n ? n - pos : 0, fmt, ap);
+	va_end(ap);
+	return pos + (len > 0 ? len : 0);
+}
+
+static long osc_expr_formatAtom(char *buf, long n, long pos, t_osc_atom_u *a)
+{
+	long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
+	char *tmp = osc_mem_alloc(buflen + 1);
+	if(!tmp){
+		return pos;
+	}
+	tmp[0] = 0;
+	osc_atom_u_nformat(tmp, buflen + 1, a, 0);
+	pos = osc_expr_nprintf(buf, n, pos, "%s ", tmp);
+	osc_mem_free(tmp);
+	return pos;
+}
+
+static long osc_expr_format_r(t_osc_expr *fg, char *buf, long n, long pos)
 {
 	if(!fg){
-		return 0;
+		return pos;
 	}
-	char *ptr = buf;
-	ptr += sprintf(ptr, "(%s ", fg->rec->name);
+	pos = osc_expr_nprintf(buf, n, pos, "(%s ", fg->rec->name);
 	t_osc_expr_arg *f_argv = fg->argv;
 	while(f_argv){
 		switch(f_argv->type){
 		case OSC_EXPR_ARG_TYPE_ATOM:
-			{
-				t_osc_atom_u *a = f_argv->arg.atom;
-				long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-				char buf[buflen + 1];
-				osc_atom_u_nformat(buf, buflen + 1, a, 0);
-				ptr += sprintf(ptr, "%s ", buf);
-			}
+			pos = osc_expr_formatAtom(buf, n, pos, f_argv->arg.atom);
 			break;
 		case OSC_EXPR_ARG_TYPE_LIST:
 			{
 				t_osc_atom_ar_u *ar = f_argv->arg.list;
 				for(int i = 0; i < osc_atom_array_u_getLen(ar); i++){
-					t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-					long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-					char buf[buflen + 1];
-					osc_atom_u_nformat(buf, buflen + 1, a, 0);
-					ptr += sprintf(ptr, "%s ", buf);
+					pos = osc_expr_formatAtom(buf, n, pos, osc_atom_array_u_get(ar, i));
 				}
 			}
 			break;
 		case OSC_EXPR_ARG_TYPE_OSCADDRESS:
-			ptr += sprintf(ptr, "%s ", f_argv->arg.osc_address);
+			pos = osc_expr_nprintf(buf, n, pos, "%s ", f_argv->arg.osc_address);
 			break;
 		case OSC_EXPR_ARG_TYPE_EXPR:
-			ptr += osc_expr_format_r(f_argv->arg.expr, ptr);
+			pos = osc_expr_format_r(f_argv->arg.expr, buf, n, pos);
 			break;
  		case OSC_EXPR_ARG_TYPE_FUNCTION:
 			{
 				t_osc_expr_rec *r = f_argv->arg.func;
-				ptr += sprintf(ptr, "(lambda (");
+				pos = osc_expr_nprintf(buf, n, pos, "(lambda (");
 				int numparams = osc_expr_rec_getNumRequiredArgs(r);
 				char **paramnames = osc_expr_rec_getRequiredArgsNames(r);
 				for(int i = 0; i < numparams; i++){
-					if(i < numparams - 1){
-						ptr += sprintf(ptr, "%s, ", paramnames[i]);
-					}else{
-						ptr += sprintf(ptr, "%s) ", paramnames[i]);
-					}
+					pos = osc_expr_nprintf(buf, n, pos, i < numparams - 1 ? "%s, " : "%s", paramnames[i]);
 				}
+				pos = osc_expr_nprintf(buf, n, pos, ") ");
 				t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 				while(e){
-					ptr += osc_expr_format_r(e, ptr);
+					pos = osc_expr_format_r(e, buf, n, pos);
 					e = osc_expr_next(e);
 				}
-				ptr += sprintf(ptr, ") ");
+				pos = osc_expr_nprintf(buf, n, pos, ") ");
 			}
 			break;
 		}
 		f_argv = f_argv->next;
 	}
-	ptr--;
-	ptr += sprintf(ptr, ") ");
-	return ptr - buf;
+	// replace the space after the last argument
+	return osc_expr_nprintf(buf, n, pos - 1, ") ");
 }
 
-void osc_expr_format(t_osc_expr *fg, long *buflen, char **fmt)
+static long osc_expr_formatLinked(t_osc_expr *f, char *buf, long n)
 {
-	if(!(*fmt)){
-		*fmt = osc_mem_alloc(512);
-	}
-	long bufsize = 512, bufpos = 0;
-	t_osc_expr *f = fg;
+	long pos = 0;
 	while(f){
-		if(bufpos < 256){
-			*fmt = osc_mem_resize(*fmt, bufsize + 256);
-		}
-		if(!(*fmt)){
-			return;
-		}
-		bufsize += 256;
-		bufpos += osc_expr_format_r(f, (*fmt) + bufpos);
-		bufpos += sprintf((*fmt) + bufpos, "\n");
+		pos = osc_expr_format_r(f, buf, n, pos);
+		pos = osc_expr_nprintf(buf, n, pos, "\n");
 		f = f->next;
 	}
-	*buflen = bufpos;
+	return pos;
+}
+
+void osc_expr_format(t_osc_expr *fg, long *buflen, char **fmt)
+{
+	long len = osc_expr_formatLinked(fg, NULL, 0);
+	char *buf = osc_mem_resize(*fmt, len + 1);
+	if(!buf){
+		return;
+	}
+	buf[0] = 0;
+	osc_expr_formatLinked(fg, buf, len + 1);
+	*fmt = buf;
+	*buflen = len;
 }
 
 void osc_expr_makeFunctionBundle(void)
-- 
2.43.0


From cd6edbb5c1da9b572ed002ed767a3d126024f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:03 +0000
Subject: [PATCH 82/98] fix: osc_bundle_s_replaceMessage reports an allocation
 failure and releases its copy

---
 osc_bundle_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 51d1699..a5f6744 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -407,6 +407,9 @@ t_osc_err osc_bundle_s_replaceMessage(long *buflen,
 		return OSC_ERR_INVAL;
 	}
 	char *copy = (char *)osc_mem_alloc(newbuflen);
+	if(!copy){
+		return OSC_ERR_OUTOFMEM;
+	}
 	char *oldptr = NULL;
     char *newptr = NULL;
     
@@ -428,6 +431,7 @@ t_osc_err osc_bundle_s_replaceMessage(long *buflen,
 	if(newbuflen > *buflen){
 		char *tmp = osc_mem_resize(*bndl, newbuflen);
 		if(!tmp){
+			osc_mem_free(copy);
 			return OSC_ERR_OUTOFMEM;
 		}
 		*bndl = tmp;
-- 
2.43.0


From b1b0cab5ab938110d9bccdf7acbaee167ddbbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:04 +0000
Subject: [PATCH 83/98] fix: creating a serialised bundle reports an allocation
 failure instead of crashing

---
 osc_bundle_s.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index a5f6744..95d00e9 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -48,6 +48,9 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 {
 	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	if(!b){
+		return NULL;
+	}
 	b->len = len;
 	b->ptr = ptr;
 	return b;
@@ -56,7 +59,10 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
 	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
-	osc_bundle_s_setBundleID_b(b);
+	if(osc_bundle_s_setBundleID_b(b)){
+		osc_bundle_s_free(b);
+		return NULL;
+	}
 	return b;
 }
 
@@ -484,6 +490,9 @@ t_osc_err osc_bundle_s_appendMessage(long *len, char **bndl, t_osc_msg_s *msg){
 t_osc_err osc_bundle_s_appendMessage_b(t_osc_bndl_s **bndl, t_osc_msg_s *msg){
 	if(!(*bndl)){
 		*bndl = osc_bundle_s_alloc(0, NULL);
+		if(!(*bndl)){
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
         int ret = osc_bundle_s_appendMessage(&((*bndl)->len), &((*bndl)->ptr), msg);
 	return ret;
@@ -510,10 +519,11 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		}
 	}else{
 		if(bndl->len < OSC_HEADER_SIZE){
-			bndl->ptr = (char *)osc_mem_resize(bndl->ptr, OSC_HEADER_SIZE);
-			if(!bndl->ptr){
+			char *ptr = (char *)osc_mem_resize(bndl->ptr, OSC_HEADER_SIZE);
+			if(!ptr){
 				return OSC_ERR_OUTOFMEM;
 			}
+			bndl->ptr = ptr;
 		}
 	}
 	memset(bndl->ptr + OSC_IDENTIFIER_SIZE, '\0', OSC_HEADER_SIZE - OSC_IDENTIFIER_SIZE);
-- 
2.43.0


From e8fe85854f65fd13cc91a9f644c7a7bac5035a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 84/98] fix: union, intersection and difference of serialised
 bundles report allocation failures

---
 osc_bundle_iterator_s.c |  3 +++
 osc_bundle_s.c          | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/osc_bundle_iterator_s.c b/osc_bundle_iterator_s.c
index 06d392b..f670304 100644
--- a/osc_bundle_iterator_s.c
+++ b/osc_bundle_iterator_s.c
@@ -38,6 +38,9 @@ t_osc_bndl_it_s *osc_bundle_iterator_s_getIterator(long len, char *ptr)
 	if(!it){
 		return NULL;
 	}
+	if(!it){
+		return NULL;
+	}
 	it->len = len;
 	it->bndl = ptr;
 	osc_bundle_iterator_s_resetIterator(it);
diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 95d00e9..96349ca 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -717,11 +717,17 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+		if(!bndl_out){
+			return NULL;
+		}
 		memcpy(bndl_out, bndl1 ? bndl1 : OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
 	}
 	bndl_out = osc_mem_alloc(len1 + len2);
+	if(!bndl_out){
+		return NULL;
+	}
 	memset(bndl_out, '\0', len1 + len2);
 
 	if(bndl1){
@@ -765,6 +771,9 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	len_out = len;
  out:
 	b = osc_bundle_s_alloc(len_out, bndl_out);
+	if(!b){
+		osc_mem_free(bndl_out);
+	}
 	return b;
 }
 
@@ -773,13 +782,21 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 	if(len1 == 0 || len2 == 0 || len1 == OSC_HEADER_SIZE || len2 == OSC_HEADER_SIZE){
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+			if(!(*bndl_out)){
+				return OSC_ERR_OUTOFMEM;
+			}
 		}
 		memcpy(*bndl_out, bndl1 ? bndl1 : OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
+	int allocated = 0;
 	if(!(*bndl_out)){
 		*bndl_out = osc_mem_alloc(len1 + len2);
+		if(!(*bndl_out)){
+			return OSC_ERR_OUTOFMEM;
+		}
+		allocated = 1;
 		memset(*bndl_out, '\0', len1 + len2);
 	}
 	char *bndl = *bndl_out;
@@ -793,6 +810,13 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 	}
 
 	t_osc_bndl_it_s *it = osc_bndl_it_s_get(len1, bndl1);
+	if(!it){
+		if(allocated){
+			osc_mem_free(*bndl_out);
+			*bndl_out = NULL;
+		}
+		return OSC_ERR_OUTOFMEM;
+	}
 	while(osc_bndl_it_s_hasNext(it)){
 		t_osc_msg_s *m = osc_bndl_it_s_next(it);
 		char *address = osc_message_s_getAddress(m);
@@ -818,13 +842,21 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+			if(!(*bndl_out)){
+				return OSC_ERR_OUTOFMEM;
+			}
 		}
 		memcpy(*bndl_out, bndl1 ? bndl1 : OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
+	int allocated = 0;
 	if(!(*bndl_out)){
 		*bndl_out = osc_mem_alloc(len1 + len2);
+		if(!(*bndl_out)){
+			return OSC_ERR_OUTOFMEM;
+		}
+		allocated = 1;
 		memset(*bndl_out, '\0', len1 + len2);
 	}
 
@@ -843,6 +875,13 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 	int i;
 	for(i = 0; i < 2; i++){
 		t_osc_bndl_it_s *it = osc_bndl_it_s_get(lens[i], bndls[i]);
+		if(!it){
+			if(allocated){
+				osc_mem_free(*bndl_out);
+				*bndl_out = NULL;
+			}
+			return OSC_ERR_OUTOFMEM;
+		}
 		while(osc_bndl_it_s_hasNext(it)){
 			t_osc_msg_s *m = osc_bndl_it_s_next(it);
 			char *address = osc_message_s_getAddress(m);
-- 
2.43.0


From 653fa8b2cdd1f1c03e94713403a141ff4b1bed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 85/98] fix: renaming a handler keeps the old selector when
 memory runs out

---
 osc_vtable.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 466be7d..916139f 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -197,10 +197,14 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	}
 	memcpy(selector, new_selector, newlen + 1);
 	// the hash table uses the entry's own copy of the selector as its key
+	osc_hashtab_store(vtab->hashtab, newlen, selector, (void *)(intptr_t)(e - vtab->entries + 1));
+	if(osc_vtable_getEntryBySelector(vtab, selector) != e){
+		osc_mem_free(selector);
+		return OSC_ERR_OUTOFMEM;
+	}
 	osc_hashtab_remove(vtab->hashtab, strlen(e->selector), e->selector, NULL);
 	osc_mem_free(e->selector);
 	e->selector = selector;
-	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)(intptr_t)(e - vtab->entries + 1));
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From f7e2255ac343686e2e67a7ad687f18166f6d984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:37 +0000
Subject: [PATCH 86/98] fix: copying atoms and arrays of them reports an
 allocation failure

---
 osc_atom_array_u.c | 34 +++++++++++++++++++++++-----------
 osc_atom_u.c       | 38 +++++++++++++++++++++++++++-----------
 osc_atom_u.h       |  2 +-
 3 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index e7fe6d9..6d2c103 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -31,6 +31,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_atom_u.h"
 #include "osc_atom_u.r" // need ths to get the size of the struct
 #include "osc_array.h"
+#include "osc_array.r" // need this to get the size of the struct
 #include "osc_atom_array_u.h"
 
 t_osc_atom_array_u *osc_atom_array_u_alloc(long len)
@@ -228,7 +229,11 @@ t_osc_atom_array_u *osc_atom_array_u_copy(t_osc_atom_array_u *array)
 	for(i = 0; i < len; i++){
 		t_osc_atom_u *src = osc_atom_array_u_get((t_osc_array *)array, i);
 		t_osc_atom_u *dest = osc_atom_array_u_get(cp, i);
-		osc_atom_u_copyInto(&dest, src);
+		if(osc_atom_u_copyInto(&dest, src)){
+			cp->len = i; // only these have been filled in
+			osc_atom_array_u_free(cp);
+			return NULL;
+		}
 	}
 	return (t_osc_atom_array_u *)cp;
 }
@@ -240,27 +245,34 @@ t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_
 	}
 	long srclen = osc_atom_array_u_getLen(src);
 	long destlen = srclen + offset;
+	if(*dest == src && offset == 0){
+		return OSC_ERR_NONE;
+	}
+	// copy the source first so that dest is left alone if we run out of memory
+	t_osc_atom_array_u *cp = osc_atom_array_u_copy(src);
+	if(!cp){
+		return OSC_ERR_OUTOFMEM;
+	}
+	t_osc_err e = OSC_ERR_NONE;
 	if(!(*dest)){
 		*dest = osc_atom_array_u_alloc(destlen);
 		if(!(*dest)){
-			return OSC_ERR_OUTOFMEM;
+			e = OSC_ERR_OUTOFMEM;
 		}
 	}else if(osc_atom_array_u_getLen(*dest) < destlen){
-		t_osc_err e = osc_atom_array_u_resize(*dest, destlen);
-		if(e){
-			return e;
-		}
+		e = osc_atom_array_u_resize(*dest, destlen);
 	}
-	if(*dest == src && offset == 0){
-		return OSC_ERR_NONE;
+	if(e){
+		osc_atom_array_u_free(cp);
+		return e;
 	}
 	long i;
-	for(i = srclen - 1; i >= 0; i--){
-		t_osc_atom_u *s = osc_atom_array_u_get(src, i);
+	for(i = 0; i < srclen; i++){
 		t_osc_atom_u *d = osc_atom_array_u_get(*dest, i + offset);
 		osc_atom_u_clear(d); // release what it held
-		osc_atom_u_copyInto(&d, s);
+		*d = *((t_osc_atom_u *)osc_atom_array_u_get(cp, i));
 	}
+	osc_array_free(cp); // dest owns the contents now
 	return OSC_ERR_NONE;
 }
 
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 84e8540..1dae91b 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -56,35 +56,50 @@ void osc_atom_u_free(t_osc_atom_u *a)
 	osc_mem_free(a);
 }
 
-void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
+t_osc_err osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 {
 	if(!src){
-		return;
+		return OSC_ERR_INVAL;
+	}
+	// get the memory for what the source points to first, so that dest is left alone if there is none
+	char *data = NULL;
+	if(src->typetag == 's'){
+		data = osc_mem_alloc(strlen(src->w.s) + 1);
+		if(!data){
+			return OSC_ERR_OUTOFMEM;
+		}
+		strcpy(data, src->w.s);
+	}else if(src->typetag == 'b'){
+		int32_t len = ntoh32(*((int32_t *)(src->w.b)));
+		int32_t size = osc_util_getPaddingForNBytes(len);
+		data = osc_mem_alloc(size + 4);
+		if(!data){
+			return OSC_ERR_OUTOFMEM;
+		}
+		memset(data, '\0', size + 4);
+		memcpy(data, src->w.b, len + 4);
 	}
 	t_osc_atom_u *aa = *dest;
 	if(!aa){
 		aa = osc_mem_alloc(sizeof(t_osc_atom_u));
+		if(!aa){
+			osc_mem_free(data);
+			return OSC_ERR_OUTOFMEM;
+		}
 	}
 	aa->next = aa->prev = NULL;
 	aa->typetag = src->typetag;
 	aa->alloc = (src->typetag == 's' || src->typetag == 'b');	// the copy owns what it points to
 	switch(aa->typetag){
         case 's':
-            aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
-            strcpy(aa->w.s, src->w.s);
+            aa->w.s = data;
         break;
         case OSC_BUNDLE_TYPETAG:
             aa->w.bndl = NULL;
             osc_bundle_u_copy(&(aa->w.bndl), src->w.bndl);
         break;
     case 'b':
-    {
-        int32_t len = ntoh32(*((int32_t *)(src->w.b)));
-        int32_t size = osc_util_getPaddingForNBytes(len);
-        aa->w.s = osc_mem_alloc(size + 4);
-        memset(aa->w.b, '\0', size + 4);
-        memcpy(aa->w.b, src->w.b, len + 4);
-    }
+        aa->w.b = data;
         break;
         default:
       //      memcpy(&aa->w, &src->w, sizeof(union _word));
@@ -93,6 +108,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         break;
 	}
 	*dest = aa;
+	return OSC_ERR_NONE;
 }
 
 t_osc_atom_u *osc_atom_u_copy(t_osc_atom_u *src)
diff --git a/osc_atom_u.h b/osc_atom_u.h
index 4996198..9a46421 100644
--- a/osc_atom_u.h
+++ b/osc_atom_u.h
@@ -72,7 +72,7 @@ If dest is NULL, a new #t_osc_atom_u will be allocated, but
 if dest is non-NULL, no new memory will be allocated
 no new memory will be allocated.
  */
-void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src);
+t_osc_err osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src);
 t_osc_atom_u *osc_atom_u_copy(t_osc_atom_u *src);
 
 /** \brief Set whether or not the data that this atom points to should be freed with the atom
-- 
2.43.0


From 553d5355bda6842c6faa465ef1ccbfda86b11109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 87/98] fix: creating a hash table or a method table reports an
 allocation failure

---
 osc_hashtab.c |  4 ++++
 osc_vtable.c  | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index 1a71a69..1b708e2 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -128,6 +128,10 @@ t_osc_hashtab *osc_hashtab_new(int nslots, t_osc_hashtab_dtor dtor){
 		return NULL;
 	}
 	ht->slots = (t_osc_hashtab_elem **)osc_mem_alloc(sizeof(t_osc_hashtab_elem *) * nslots);
+	if(!(ht->slots)){
+		osc_mem_free(ht);
+		return NULL;
+	}
 	memset(ht->slots, '\0', sizeof(t_osc_hashtab_elem *) * nslots);
 	ht->nslots = nslots;
 	ht->dtor = dtor;
diff --git a/osc_vtable.c b/osc_vtable.c
index 916139f..ae8e89c 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -38,15 +38,27 @@
 
 t_osc_vtable *osc_vtable_alloc(int num_entries){
 	t_osc_vtable *vtab = osc_mem_alloc(sizeof(t_osc_vtable));
+	if(!vtab){
+		return NULL;
+	}
 	vtab->entries = NULL;
 	vtab->num_entries = 0;
 	vtab->num_slots = 0;
 	if(num_entries > 0){
 		vtab->entries = osc_mem_alloc(num_entries * sizeof(t_osc_vtable_entry));
+		if(!(vtab->entries)){
+			osc_mem_free(vtab);
+			return NULL;
+		}
 		vtab->num_entries = 0;
 		vtab->num_slots = num_entries;
 	}
 	vtab->hashtab = osc_hashtab_new(num_entries, NULL);
+	if(!(vtab->hashtab)){
+		osc_mem_free(vtab->entries);
+		osc_mem_free(vtab);
+		return NULL;
+	}
 	vtab->delegation_context = NULL;
 	vtab->delegation_method = NULL;
 	return vtab;
-- 
2.43.0


From 7008d307037c75fbbeea3045f6b8f38c362853ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:47 +0000
Subject: [PATCH 88/98] fix: adding to a list does nothing when there is no
 memory

---
 osc_linkedlist.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_linkedlist.c b/osc_linkedlist.c
index c4633da..f8bbb06 100644
--- a/osc_linkedlist.c
+++ b/osc_linkedlist.c
@@ -128,6 +128,9 @@ void osc_linkedlist_prepend(t_osc_linkedlist *ll, void *data)
 {
 	if(ll && data){
 		t_osc_linkedlist_elem *e = osc_linkedlist_elem_alloc(data);
+		if(!e){
+			return;
+		}
 		if(ll->head){
 			ll->head->prev = e;
 			e->next = ll->head;
@@ -145,6 +148,9 @@ void osc_linkedlist_append(t_osc_linkedlist *ll, void *data)
 {
 	if(ll && data){
 		t_osc_linkedlist_elem *e = osc_linkedlist_elem_alloc(data);
+		if(!e){
+			return;
+		}
 		if(ll->tail){
 			ll->tail->next = e;
 			e->next = NULL;
-- 
2.43.0


From 80b561f71d83eff3736154f53cfcf2e98025ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:53 +0000
Subject: [PATCH 89/98] fix: describe the optional argument of nth

---
 osc_expr_func.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 0475039..a390fbe 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1294,7 +1294,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (char *[]){"argument (list)", "index"},
 	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"additional indexes"},
-	 (int []){},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"/vector", NULL},
 	 "Get an element of a list (same as [[ ]])",
 	 osc_expr_nth,
-- 
2.43.0


From 9569ed96bcf82ea2dae17fd858378f62180488b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:54 +0000
Subject: [PATCH 90/98] fix: threads that ask for documentation at the same
 time share one table

---
 osc_expr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4948593..be8c0ee 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7228,7 +7228,10 @@ void osc_expr_makeFunctionBundle(void)
 			osc_bundle_u_addMsg(b, m);
 		}
 	}
-	osc_expr_functionBundle = b;
+	// another thread may have made one in the meantime
+	if(!__sync_bool_compare_and_swap(&osc_expr_functionBundle, NULL, b)){
+		osc_bundle_u_free(b);
+	}
 }
 
 void osc_expr_makeCategoryBundle(void)
@@ -7245,8 +7248,12 @@ void osc_expr_makeCategoryBundle(void)
 	long len = osc_bundle_u_nserialize(NULL, 0, b);
 	char *ptr = osc_mem_alloc(len);
 	osc_bundle_u_nserialize(ptr, len, b);
-	osc_expr_categoryBundle = osc_bundle_s_alloc(len, ptr);
 	osc_bundle_u_free(b);
+	t_osc_bndl_s *s = osc_bundle_s_alloc(len, ptr);
+	// another thread may have made one in the meantime
+	if(!__sync_bool_compare_and_swap(&osc_expr_categoryBundle, NULL, s)){
+		osc_bundle_s_deepFree(s);
+	}
 }
 
 t_osc_bndl_s *osc_expr_getCategories(void)
-- 
2.43.0


From 9e0e37d97ab29c60e334bb4c1f7f990f08510029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:49 +0000
Subject: [PATCH 91/98] fix: string() of an int8 below -99 keeps all its digits

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index be8c0ee..0243ca7 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6167,7 +6167,7 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 				buf[0] = c;
 				buf[1] = 0;
 			}else{
-				snprintf(buf, 4, "%d", c);
+				snprintf(buf, sizeof(buf), "%d", c);
 			}
 			osc_atom_u_setString(dest, buf);
 			return 0;
-- 
2.43.0


From 7917c6e02ef6b4bac7080ae1751e56fb1264a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:51 +0000
Subject: [PATCH 92/98] fix: the determinant of a singular matrix with four or
 more rows is zero

---
 osc_expr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0243ca7..5e20413 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4477,7 +4477,7 @@ int LUPDecompose(double **A, int N, double Tol, int *P) {
 				imax = k;
 			}
 
-		if (maxA < Tol) return 0; //failure, matrix is degenerate
+		if (maxA <= Tol) return 0; //failure, matrix is degenerate
 
 		if (imax != i) {
 			//pivoting P
@@ -4573,8 +4573,10 @@ int osc_expr_det(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 		int P[argc + 1];
 		memset(P, 0, sizeof(int) * (argc + 1));
-		LUPDecompose(cells, argc, 0, P);
-		double d = LUPDeterminant(cells, P, argc);
+		double d = 0.;
+		if(LUPDecompose(cells, argc, 0, P)){
+			d = LUPDeterminant(cells, P, argc);
+		}
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), d);
 		for(int j = 0; j < argc; j++){
 			if(cells[j]){
-- 
2.43.0


From 36779135aa32fff9fbbb0a3b5d9b53ac61ff2fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:57 +0000
Subject: [PATCH 93/98] fix: tokenize() gives ??= as itself, not as the
 character its trigraph stands for

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5e20413..2edbccb 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2093,7 +2093,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "+=";
 			break;
 		case OSC_EXPR_DBLQMARKEQ:
-			st = "??=";
+			st = "?\?="; // not a trigraph
 			break;
 		case OSC_EXPR_DBLQMARK:
 			st = "??";
-- 
2.43.0


From 6b93d42d3f5697e65c7e00b19fd4f8b56c85f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 94/98] fix: osc_atom_u_setBlob copies the blob before it
 releases the old value

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 1dae91b..1809665 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1252,7 +1252,6 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	if(!a){
 		return;
 	}
-	osc_atom_u_clear(a);
 	int32_t l = ntoh32(*((int32_t *)blob));
 	int buflen = l + 1;
 	while(buflen % 4){
@@ -1261,6 +1260,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	char *copy = osc_mem_alloc(buflen + 4);
 	memset(copy, '\0', buflen + 4);
 	memcpy(copy, blob, l + 4);
+	osc_atom_u_clear(a); // blob may be the one a holds
 	a->w.b = copy;
 	a->typetag = 'b';
 	a->alloc = 1;
-- 
2.43.0


From bc11cd765358aea7ff228f1e9259483b23b27457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:42 +0000
Subject: [PATCH 95/98] fix: a copy of an array of messages owns its messages;
 clearing and shrinking release them

---
 osc_message_u.c | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 80645f7..f023a9d 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1130,9 +1130,25 @@ t_osc_message_array_u *osc_message_array_u_alloc(long len)
 	return (t_osc_message_array_u *)ar;
 }
 
+// releases what the messages of an array own, from a given one onwards
+static void osc_message_array_u_clearFrom(t_osc_msg_ar_u *ar, long idx)
+{
+	long n = osc_message_array_u_getLen(ar);
+	for(long i = idx; i < n; i++){
+		t_osc_msg_u *m = osc_message_array_u_get(ar, i);
+		if(m){
+			osc_message_u_clearArgs(m);
+			if(m->address){
+				osc_mem_free(m->address);
+			}
+			memset(m, '\0', sizeof(t_osc_msg_u));
+		}
+	}
+}
+
 void osc_message_array_u_clear(t_osc_msg_ar_u *ar)
 {
-	osc_array_clear((t_osc_array *)ar);
+	osc_message_array_u_clearFrom(ar, 0);
 }
 
 t_osc_msg_u *osc_message_array_u_get(t_osc_msg_ar_u *ar, long idx)
@@ -1147,28 +1163,34 @@ long osc_message_array_u_getLen(t_osc_msg_ar_u *ar)
 
 t_osc_msg_ar_u *osc_message_array_u_copy(t_osc_msg_ar_u *ar)
 {
-	return (t_osc_msg_ar_u *)osc_array_copy((t_osc_array *)ar);
+	if(!ar){
+		return NULL;
+	}
+	// an array owns its messages, so a copy needs its own
+	long n = osc_message_array_u_getLen(ar);
+	t_osc_msg_ar_u *cp = osc_message_array_u_alloc(n);
+	if(!cp){
+		return NULL;
+	}
+	for(long i = 0; i < n; i++){
+		t_osc_msg_u *m = osc_message_array_u_get(cp, i);
+		osc_message_u_deepCopy(&m, osc_message_array_u_get(ar, i));
+	}
+	return cp;
 }
 
 t_osc_err osc_message_array_u_resize(t_osc_msg_ar_u *ar, long newlen)
 {
+	if(newlen >= 0){
+		osc_message_array_u_clearFrom(ar, newlen);
+	}
 	return osc_array_resize((t_osc_array *)ar, newlen);
 }
 
 void osc_message_array_u_free(t_osc_msg_ar_u *ar)
 {
 	if(ar){
-		int i;
-		int n = osc_message_array_u_getLen(ar);
-		for(i = 0; i < n; i++){
-			t_osc_msg_u *m = osc_message_array_u_get(ar, i);
-			if(m){
-				osc_message_u_clearArgs(m);
-				if(m->address){
-					osc_mem_free(m->address);
-				}
-			}
-		}
+		osc_message_array_u_clearFrom(ar, 0);
 		osc_array_free((t_osc_array *)ar);
 	}
 }
-- 
2.43.0


From ee6976709f0267f04d4c6e7746c5755c99a28b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:01 +0000
Subject: [PATCH 96/98] fix: list the category of the bitwise functions

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2edbccb..78f0b9f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -68,7 +68,7 @@ char *osc_expr_typestrings[] = {"", "number", "list", "", "string", "", "", "",
 
 #define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + 1 + 12 // commas, spaces, and null byte
 
-char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
+char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/bitwise", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
 
 // this gets created the first time it's needed and then it's never freed
 t_osc_bndl_u *osc_expr_functionBundle = NULL;
-- 
2.43.0


From 4955ae306a0c7e12a111491938517f9ae756cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:03 +0000
Subject: [PATCH 97/98] fix: functions of a category with a long name

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 78f0b9f..ff46e26 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7274,13 +7274,17 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	if(!osc_expr_functionBundle){
 		osc_expr_makeFunctionBundle();
 	}
-	char buf[128];
+	char *buf = osc_mem_alloc(strlen(cat) + sizeof("/doc/category"));
+	if(!buf){
+		return OSC_ERR_OUTOFMEM;
+	}
 	if(strncmp(cat, "/doc/category", 13)){
 		sprintf(buf, "/doc/category%s", cat);
 	}else{
 		sprintf(buf, "%s", cat);
 	}
 	t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(osc_expr_functionBundle, buf, 0);
+	osc_mem_free(buf);
 	if(ar){
 		t_osc_bndl_u *bndl = osc_bundle_u_alloc();
 		osc_bundle_u_addMsgArrayCopy(bndl, ar);
-- 
2.43.0


From 810cf3f370f4779661046e34e6cfb4bd43ed9701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:17 +0000
Subject: [PATCH 98/98] fix: a message without an address has no serialised
 form

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index f023a9d..44564f9 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1039,6 +1039,9 @@ long osc_message_u_getSerializedSize(t_osc_msg_u *m)
 t_osc_msg_s *osc_message_u_serialize(t_osc_msg_u *m)
 {
 	size_t n = osc_message_u_nserialize(NULL, 0, m);
+	if(!n){
+		return NULL;
+	}
 	char *buf = osc_mem_alloc(n);
 	osc_message_u_nserialize(buf, n, m);
 	t_osc_msg_s *mm = osc_message_s_alloc();
-- 
2.43.0

