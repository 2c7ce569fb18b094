From a0d664d74f13d150f743238a2db2dd11f7512f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 001/153] fix: onion_dict_remove with repeated keys and its
 return value

With several entries of the same key, the successor looked up by key could
be another node, which lost that entry and left a dangling one behind.
Also return whether something was removed, as documented.
---
 src/onion/dict.c | 90 +++++++++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..c05c3b4 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -388,57 +388,76 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
+/// Restores the AA tree invariants of a node after one of its children lost a node.
+static onion_dict_node *onion_dict_node_rebalance(onion_dict_node * node) {
+  decrease_level(node);
+  node = skew(node);
+  if (node->right) {
+    node->right = skew(node->right);
+    if (node->right->right)
+      node->right->right = skew(node->right->right);
+  }
+  node = split(node);
+  if (node->right)
+    node->right = split(node->right);
+  return node;
+}
+
+/// Takes the first node (by key order) out of the subtree and gives its data. Only frees the node.
+static onion_dict_node *onion_dict_node_pop_first(onion_dict_node * node,
+                                                  onion_dict_node_data * data) {
+  if (!node->left) {
+    onion_dict_node *right = node->right;
+    memcpy(data, &node->data, sizeof(onion_dict_node_data));
+    onion_low_free(node);
+    return right;
+  }
+  node->left = onion_dict_node_pop_first(node->left, data);
+  return onion_dict_node_rebalance(node);
+}
+
+/// Takes the last node (by key order) out of the subtree and gives its data. Only frees the node.
+static onion_dict_node *onion_dict_node_pop_last(onion_dict_node * node,
+                                                 onion_dict_node_data * data) {
+  if (!node->right) {
+    onion_dict_node *left = node->left;
+    memcpy(data, &node->data, sizeof(onion_dict_node_data));
+    onion_low_free(node);
+    return left;
+  }
+  node->right = onion_dict_node_pop_last(node->right, data);
+  return onion_dict_node_rebalance(node);
+}
+
 /// AA tree remove the node
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
-                                               const char *key) {
+                                               const char *key, int *removed) {
   if (!node)
     return NULL;
   int cmp = d->cmp(key, node->data.key);
   if (cmp < 0) {
-    node->left = onion_dict_node_remove(d, node->left, key);
+    node->left = onion_dict_node_remove(d, node->left, key, removed);
     //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
   } else if (cmp > 0) {
-    node->right = onion_dict_node_remove(d, node->right, key);
+    node->right = onion_dict_node_remove(d, node->right, key, removed);
     //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
   } else {                      // Real remove
     //ONION_DEBUG("Remove here %p", node);
+    *removed = 1;
     onion_dict_node_data_free(&node->data);
     if (node->left == NULL && node->right == NULL) {
       onion_low_free(node);
       return NULL;
     }
-    if (node->left == NULL) {
-      onion_dict_node *t = node->right; // Get next key node
-      while (t->left)
-        t = t->left;
-      //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
-      //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
-    } else {
-      onion_dict_node *t = node->left;  // Get prev key node
-      while (t->right)
-        t = t->right;
-
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
-      //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
-    }
-  }
-  decrease_level(node);
-  node = skew(node);
-  if (node->right) {
-    node->right = skew(node->right);
-    if (node->right->right)
-      node->right->right = skew(node->right->right);
+    // Get the data of the next or prev node. Can not look for it by key, as
+    // there may be several nodes with the same key.
+    if (node->left == NULL)
+      node->right = onion_dict_node_pop_first(node->right, &node->data);
+    else
+      node->left = onion_dict_node_pop_last(node->left, &node->data);
   }
-  node = split(node);
-  if (node->right)
-    node->right = split(node->right);
-  return node;
+  return onion_dict_node_rebalance(node);
 }
 
 /**
@@ -449,8 +468,9 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
-  dict->root = onion_dict_node_remove(dict, dict->root, key);
-  return 1;
+  int removed = 0;
+  dict->root = onion_dict_node_remove(dict, dict->root, key, &removed);
+  return removed;
 }
 
 /**
-- 
2.43.0


From d7cfa2490e888ea9200282fdfa3bcc19fb9c1ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:11 +0000
Subject: [PATCH 002/153] fix: onion_dict_hard_dup keeps the case insensitive
 flag

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index c05c3b4..b6e8b9e 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From 8465c495ad2f459d80b5e881d5c96e8afeeefe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:26 +0000
Subject: [PATCH 003/153] fix: onion_html_quote_dup returned NULL for strings
 without special chars

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..291ee75 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -525,7 +525,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From 6175ed6e0b647c9fb9d99d79bd7b7fedc34a8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 004/153] fix: onion_unquote_inplace reads past the end on
 truncated escapes

---
 src/onion/codecs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 291ee75..9360fc9 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -21,6 +21,7 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
+#include <ctype.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -255,7 +256,8 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && isxdigit((unsigned char)r[1])
+        && isxdigit((unsigned char)r[2])) {
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From 89b6a1351ae1ed5c8937c725630f8c484acca6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 005/153] fix: onion_quote wrote past maxlength

---
 src/onion/codecs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 9360fc9..5a61877 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -303,13 +303,13 @@ int onion_quote(const char *str, char *res, int maxlength) {
   int l = strlen(str);
   int i;
   for (i = 0; i < l; i++) {
-    if (i >= maxlength)
+    if (nl + 1 >= maxlength)
       break;
     char c = str[i];
     if (is_alnum(c))
       res[nl++] = c;
     else {
-      if (i + 2 >= maxlength)
+      if (nl + 3 >= maxlength)
         break;
 
       res[nl++] = '%';
-- 
2.43.0


From 404a4566a0152acad03c65f66a7d11719316aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:48 +0000
Subject: [PATCH 006/153] fix: onion_c_quote mangled carriage returns and
 ignored its length limit

---
 src/onion/codecs.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 5a61877..284d185 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -350,6 +350,16 @@ char *onion_c_quote(const char *str, char *ret, int l) {
   *r++ = '"';
   l -= 3;                       // both " at start and end, and \0
   while (*p != '\0') {
+    int n = 1;                  // how much this char needs
+    if (*p == '\n')
+      n = 5;
+    else if (*p > 127)
+      n = 4;
+    else if (*p == '\r' || *p == '"' || *p == '\\' || *p == '\t')
+      n = 2;
+    if (l < n)                  // does not fit!
+      break;
+    l -= n;
     if (*p == '\n') {
       *r = '\\';
       r++;
@@ -363,7 +373,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
@@ -378,10 +388,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
       *r = 't';
     } else if (*p > 127) {
       int c = *p;
-      if (l < 4) {              // does not fit!
-        *r = '\0';
-        return ret;
-      }
       *r = '\\';
       r++;
       *r = '0' + ((c >> 6) & 0x03);
@@ -394,11 +400,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     }
     r++;
     p++;
-    l--;
-    if (l <= 0) {
-      *r = '\0';
-      break;
-    }
   }
   *r++ = '"';
   *r++ = '\0';
-- 
2.43.0


From f50b2f9d1c7a38a2be2291566464ec3162fa66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:57 +0000
Subject: [PATCH 007/153] fix: onion_base64_decode rejects invalid input and
 stays inside its buffers

---
 src/onion/codecs.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 284d185..fd1dc91 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -66,6 +66,9 @@ void printf_bin(const char c, int n) {
   fprintf(stderr, " ");
 }
 
+/// Not a value of the alphabet, but the padding char
+#define BASE64_PADDING 64
+
 static u_int8_t onion_base64_decode_get_next(const char **I){
   u_int8_t c = (int)**I;
   while (c == '\n' || c == '\r' || c == ' '){
@@ -73,7 +76,12 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
     c = (int)**I;
   }
   // ONION_DEBUG("GET %c", (char)c);
-  (*I)++;
+  if (c)
+    (*I)++;
+  if (c == '=')
+    return BASE64_PADDING;
+  if (c & 0x80)
+    return 255;
   return db64[c];
 }
 
@@ -117,34 +125,33 @@ char *onion_base64_decode(const char *orig, int *length) {
   int max_length = ((ol * 3) / 4) + 4;           // Conservative, but always true.
   char *ret = onion_low_scalar_malloc(max_length);  // Reserve 4 extra bytes, as final padding which may or not be used.
 
-  if (ol == 0){
-    ONION_DEBUG("Empty base64 string.");
-    return ret;
-  }
-
   I = orig;
   char *J = ret;
-  while (I < endI){
+  int ll = 0;
+  for (; ol > 0; ol -= 4){
     // ONION_DEBUG("I %p endI %p", I, endI);
     const u_int8_t c1 = onion_base64_decode_get_next(&I);
     const u_int8_t c2 = onion_base64_decode_get_next(&I);
     const u_int8_t c3 = onion_base64_decode_get_next(&I);
     const u_int8_t c4 = onion_base64_decode_get_next(&I);
 
+    // Padding only at the very end: xx== or xxx=
+    int padding = 0;
+    if (ol == 4 && c4 == BASE64_PADDING)
+      padding = (c3 == BASE64_PADDING) ? 2 : 1;
+    if (c1 > 63 || c2 > 63 || (c3 > 63 && padding < 2) || (c4 > 63 && padding < 1)) {
+      ONION_DEBUG("Invalid Base64 string. Invalid characters.");
+      onion_low_free(ret);
+      return NULL;
+    }
+
     *J++ = ((c1 & 0x3F) << 2) + ((c2 & 0x30) >> 4);
     *J++ = ((c2 & 0x0F) << 4) + ((c3 & 0x3C) >> 2);
-    *J++ = ((c3 & 0x03) << 6) + (c4);
+    *J++ = ((c3 & 0x03) << 6) + (c4 & 0x3F);
+    ll += 3 - padding;
 
     // ONION_DEBUG("%d / %d: %d %d %d %d -> %c %c %c", I - orig, endI - I, c1, c2, c3, c4, *(J-3), *(J-2), *(J-1));
   }
-  *J = 0;
-
-  // ONION_DEBUG("Two end? %c %c // ll %d, %d", *(I - 2), *(I - 1), max_length,  J - ret);
-  int ll = J - ret;
-  if (*(I - 2) == '=')
-    ll = ll - 2;
-  else if (*(I - 1) == '=')
-    ll = ll - 1;
 
   ret[ll] = 0;
 
-- 
2.43.0


From 27901a10df0f9bfd9f6c753612ba283228d4eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:25 +0000
Subject: [PATCH 008/153] fix: JSON reader ran past the end of unterminated
 strings and accepted invalid objects

---
 src/onion/codecs.c | 7 +++++--
 src/onion/dict.c   | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index fd1dc91..10430cf 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -705,13 +705,16 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (eos && !*data) {        // \0, expecting \" as eos
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
+    if (!*data)                 // \0 after a lone backslash
+      break;
     onion_block_add_char(block, *data);
     ++data;
   }
-  data++;
+  if (eos)
+    data++;
   return data - str;
 }
diff --git a/src/onion/dict.c b/src/onion/dict.c
index b6e8b9e..b3ad82b 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -773,6 +773,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
   onion_block *value = onion_block_new();
   while (*data != '}') {
     // Get Key
+    if (*data != '"') {         // Includes \0
+      ONION_DEBUG("Expected \" got %c", *data);
+      goto error;
+    }
     ssize_t read_bytes = onion_json_unquote_add(key, data);
     if (read_bytes < 0)
       goto error;
@@ -839,6 +843,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
     ++data;
     while (is_json_space(*data))
       ++data;
+    if (*data == '}') {
+      ONION_DEBUG("Expected \" got }");
+      goto error;
+    }
   }
   ++data;
   *_data = data;
-- 
2.43.0


From 5c9c751f68178028eea82e5ecf2ed5384185da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:25 +0000
Subject: [PATCH 009/153] fix: onion_dict_get_dict on a NULL dict returns NULL

---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index b3ad82b..5c340c4 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -494,6 +494,8 @@ const char *onion_dict_get(const onion_dict * dict, const char *key) {
  * @ingroup dict
  */
 onion_dict *onion_dict_get_dict(const onion_dict * dict, const char *key) {
+  if (!dict)                    // Same as onion_dict_get
+    return NULL;
   const onion_dict_node *r;
   r = onion_dict_find_node(dict, dict->root, key, NULL);
   if (r) {
-- 
2.43.0


From 10114ec115cf5e33b4c983a3a5c8e6dc09c69d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:11 +0000
Subject: [PATCH 010/153] fix: request parser token limit was skipped when data
 arrives byte by byte

---
 src/onion/request_parser.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..6321678 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -104,9 +104,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
 
   char c = data->data[data->pos++];
   while (!is_space(c)) {
-    token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +113,9 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    token->str[token->pos++] = c;
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -146,16 +146,17 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
 
   char c = data->data[data->pos++];
   while (c != delimiter && c != '\n') {
-    if (c != '\r')              // Just ignore it here
-      token->str[token->pos++] = c;
-    if (data->pos >= data->size) {
-      return OCS_NEED_MORE_DATA;
-    }
     if (token->pos >= (sizeof(token->str) - 1)) {
+      token->str[token->pos] = '\0';
       ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
                   token->str, token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (c != '\r')              // Just ignore it here
+      token->str[token->pos++] = c;
+    if (data->pos >= data->size) {
+      return OCS_NEED_MORE_DATA;
+    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From 57aca4ac6f5135769e735bbb6ac792de76423c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:11 +0000
Subject: [PATCH 011/153] fix: empty header lines read before the token, and
 CRLF folded headers were cut

---
 src/onion/request_parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6321678..039d2fd 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -213,10 +213,9 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
-    token->str[token->pos - 1] = '\0';
-  else
-    token->str[token->pos] = '\0';
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
+    token->pos--;
+  token->str[token->pos] = '\0';
   //token->pos=0;
 
   //ONION_DEBUG0("Found LINE token %s",token->str);
-- 
2.43.0


From f53e77be58916720d11153fc057f1d2d87e7b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:11 +0000
Subject: [PATCH 012/153] fix: folded header lines wrote past the token, and a
 blank one swallowed the next header

---
 src/onion/request_parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 039d2fd..ef335b1 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -732,10 +732,9 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
     char peek = data->data[data->pos++];
     if (peek != '\t' && peek != ' ') {
       onion_token *token = req->parser_data;
-      if (peek == '\n')
-        return OCS_NEED_MORE_DATA;
-      token->str[token->pos++] = ' ';
-      token->str[token->pos++] = peek;
+      if (token->pos < (sizeof(token->str) - 1))
+        token->str[token->pos++] = ' ';
+      data->pos--;              // Not for me, it is the value (or the end of line)
       req->parser = parse_headers_VALUE;
       return parse_headers_VALUE(req, data);
     }
-- 
2.43.0


From 1fa4cd5b03cd87f51dfe4d5dc4a9298c8c1617a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:11 +0000
Subject: [PATCH 013/153] fix: NUL at the start of a header line made the
 request parser loop forever

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index ef335b1..21d980c 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -747,7 +747,7 @@ parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
   char peek = token_peek_next_char(data);
   ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From c3372fa74b76a06fb9a35daf4af951a7ab34b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:28 +0000
Subject: [PATCH 014/153] fix: request line end split between two reads was
 refused

---
 src/onion/request_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 21d980c..28b40c5 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -299,7 +299,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
     else
       res = OCS_INTERNAL_ERROR;
   }
-  token->pos = 0;
 
   return res;
 }
-- 
2.43.0


From df72fa6f87f88048e976bb5d9dc5d1f792ab35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:28 +0000
Subject: [PATCH 015/153] fix: multipart fields with text similar to the
 boundary were corrupted

---
 src/onion/request_parser.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 28b40c5..1304ab9 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -498,19 +498,17 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
-        multipart->pos = 0;
+        multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
-        if (token->pos > 0 && *(d - 1) == '\n') {
-          token->pos--;
-          d--;
-        }
-        if (token->pos > 0 && *(d - 1) == '\r')
-          d--;
 
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
@@ -522,15 +520,18 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
       }
     } else {                    // No boundary
       if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
+        int r = multipart->pos - multipart->startpos;
+        if (multipart->post_total_size <= r) {
           ONION_ERROR("No space left for this post.");
           return OCS_INTERNAL_ERROR;
         }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Ignore read charater, try again. May be start of boundary.
+        continue;
       }
       if (multipart->post_total_size <= 0) {
         ONION_ERROR("No space left for this post.");
-- 
2.43.0


From f968ad60d461cf484b44bfc950b7387603047b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:11 +0000
Subject: [PATCH 016/153] fix: double free when an urlencoded POST is
 interrupted

---
 src/onion/request_parser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 1304ab9..9ec272d 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -715,7 +715,8 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
 
   req->POST = onion_dict_new();
   onion_request_parse_query_to_dict(req->POST, token->extra);
-  token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // Free when the request is freed.
+  token->extra = NULL;          // Not owned by the parser anymore.
 
   return OCS_REQUEST_READY;
 }
@@ -1040,8 +1041,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
-
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From 110818456323f534bc3e52eb14855c991a9e9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:11 +0000
Subject: [PATCH 017/153] fix: multipart names and filenames were not bounded
 by the post buffer nor parsed without blanks

---
 src/onion/request_parser.c | 39 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 9ec272d..7c40027 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -566,40 +566,41 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   //ONION_DEBUG("Got content type %s",token->str);
 
   onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
-  const char *name;
-  name = strstr(token->str, "filename=");
-  if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
+  const char *name = token->str;
+  while (is_space(*name))
+    name++;
+  if (strncmp(name, "filename=", 9) == 0) {
+    name += 9;
+    int l = strlen(name);
+    if (l >= multipart->post_total_size) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
       return OCS_INTERNAL_ERROR;
     }
+    multipart->post_total_size -= l + 1;
     multipart->filename = multipart->data;
-    memcpy(multipart->filename, name + 9, l);
-    multipart->filename[l] = 0;
+    memcpy(multipart->filename, name, l + 1);
     multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
+    if (l > 1 && *multipart->filename == '"' && multipart->filename[l - 1] == '"') {
+      multipart->filename[l - 1] = '\0';
       multipart->filename++;
     }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
   } else {
-    name = strstr(token->str, "name=");
-    if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
+    if (strncmp(name, "name=", 5) == 0) {
+      name += 5;
+      int l = strlen(name);
+      if (l >= multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
         return OCS_INTERNAL_ERROR;
       }
+      multipart->post_total_size -= l + 1;
       multipart->name = multipart->data;
-      memcpy(multipart->name, name + 5, l);
-      multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
+      memcpy(multipart->name, name, l + 1);
+      multipart->data = multipart->data + l + 1;
+      if (l > 1 && *multipart->name == '"' && multipart->name[l - 1] == '"') {
+        multipart->name[l - 1] = '\0';
         multipart->name++;
       }
-      multipart->data = multipart->name + l + 1;
       ONION_DEBUG0("Set field name '%s'", multipart->name);
     }
   }
-- 
2.43.0


From b48931bd0f0d484f07f8b611925ecc5585159499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:11 +0000
Subject: [PATCH 018/153] fix: multipart part without name crashed the server

---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 7c40027..02fc863 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -644,6 +644,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
     multipart->pos = 0;
 
+    if (!multipart->name) {
+      ONION_ERROR("Multipart part has no name.");
+      return OCS_INTERNAL_ERROR;
+    }
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
       multipart->fd = mkstemp(filename);
-- 
2.43.0


From 23809d797041ff3cd43b24231489961df9313f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:33 +0000
Subject: [PATCH 019/153] fix: multipart post buffer was too small for its own
 limit

---
 src/onion/request_parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 02fc863..a112115 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -510,6 +510,11 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
 
+        if (multipart->post_total_size <= 0) {
+          ONION_ERROR("No space left for this post.");
+          return OCS_INTERNAL_ERROR;
+        }
+        multipart->post_total_size--;
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
@@ -1064,7 +1069,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 6);
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
-- 
2.43.0


From 7547ff2f15a3f5925f9ca7fe3d59115c87911145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:33 +0000
Subject: [PATCH 020/153] fix: multipart Content-Disposition ended in ;
 swallowed the next line

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index a112115..ec07ae3 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -610,7 +610,7 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
     }
   }
 
-  if (res == STRING_NEW_LINE) {
+  if (res == STRING_NEW_LINE || res == NEW_LINE) {
     req->parser = parse_POST_multipart_headers_key;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From fbe3291d8b848ce797b5c86bde1947bbc96e8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:33 +0000
Subject: [PATCH 021/153] fix: bytes similar to the boundary counted twice
 towards max_file_size

---
 src/onion/request_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index ec07ae3..040ce41 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -435,7 +435,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_INTERNAL_ERROR;
       }
       if (multipart->pos != 0) {
-        multipart->file_total_size += multipart->pos;
         int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
         int w = write(multipart->fd, tmp, tmppos);
-- 
2.43.0


From c484947f85d8fea88f1881deb044b104f432ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:33 +0000
Subject: [PATCH 022/153] fix: PUT accepted truncated temporal files

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 040ce41..12d221f 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -363,7 +363,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 
   int *fd = (int *)token->extra;
   ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
+  if (w != length) {
     // cleanup
     close(*fd);
     onion_low_free(token->extra);
-- 
2.43.0


From 38c6a2131c41ae3c6b06341bfa716e56969eb944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:56 +0000
Subject: [PATCH 023/153] fix: interrupted uploads leaked the temporal file
 descriptor

---
 src/onion/request_parser.c | 39 ++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 12d221f..00f15ef 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -61,6 +61,8 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+
+  int fd;                       // Temporal file being written, -1 if none.
 } onion_token;
 
 /// @private
@@ -97,6 +99,13 @@ static onion_connection_status prepare_POST(onion_request * req);
 static onion_connection_status prepare_CONTENT_LENGTH(onion_request * req);
 static onion_connection_status prepare_PUT(onion_request * req);
 
+/// Closes the temporal file, if open.
+static void token_close_fd(onion_token * token) {
+  if (token->fd >= 0)
+    close(token->fd);
+  token->fd = -1;
+}
+
 /// Reads a string until a non-string char. Returns an onion_token
 int token_read_STRING(onion_token * token, onion_buffer * data) {
   if (data->pos >= data->size)
@@ -365,7 +374,7 @@ static onion_connection_status parse_PUT(onion_request * req,
   ssize_t w = write(*fd, &data->data[data->pos], length);
   if (w != length) {
     // cleanup
-    close(*fd);
+    token_close_fd(token);
     onion_low_free(token->extra);
     token->extra = NULL;
     ONION_ERROR("Could not write all data to temporal file.");
@@ -380,7 +389,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 #endif
 
   if (exit) {
-    close(*fd);
+    token_close_fd(token);
     onion_low_free(token->extra);
     token->extra = NULL;
     return OCS_REQUEST_READY;
@@ -420,11 +429,11 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
 
-        close(multipart->fd);
+        token_close_fd(token);
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -441,7 +450,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -450,7 +459,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != r) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -464,7 +473,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -477,7 +486,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
   if (w != tmppos) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
+    token_close_fd(token);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -654,9 +663,11 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     }
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      multipart->fd = token->fd = mkstemp(filename);
+      if (multipart->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
+        return OCS_INTERNAL_ERROR;
+      }
       if (!req->FILES)
         req->FILES = onion_dict_new();
       onion_dict_add(req->POST, multipart->name, multipart->filename, 0);
@@ -922,6 +933,7 @@ onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
     req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    ((onion_token *) req->parser_data)->fd = -1;
     req->parser = parse_headers_GET;
   }
 
@@ -1144,8 +1156,10 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   char filename[] = "/tmp/onion-XXXXXX";
   int fd = mkstemp(filename);
-  if (fd < 0)
+  if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
@@ -1166,7 +1180,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
   }
 
   int *pfd = onion_low_scalar_malloc(sizeof(fd));
-  *pfd = fd;
+  *pfd = token->fd = fd;
 
   assert(token->extra == NULL);
   token->extra = (char *)pfd;
@@ -1183,6 +1197,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 void onion_request_parser_data_free(void *t) {
   ONION_DEBUG0("Free parser data");
   onion_token *token = t;
+  token_close_fd(token);
   if (token->extra) {
     onion_low_free(token->extra);
     token->extra = NULL;
-- 
2.43.0


From d5c1ae47ee49c38e3b078be124615f32c53a9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:56 +0000
Subject: [PATCH 024/153] fix: requests without HTTP version had no query dict,
 crashing regexp urls

---
 src/onion/request_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 00f15ef..fc4debc 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -886,6 +886,8 @@ static onion_connection_status parse_headers_URL(onion_request * req,
   ONION_DEBUG0("URL path is %s", req->fullpath);
 
   if (res == STRING_NEW_LINE) { // Old HTTP/0? or lazy user, dont set the HTTP version, straigth new line.
+    if (!req->GET)
+      req->GET = onion_dict_new();
     req->parser = parse_headers_KEY;
     return parse_headers_KEY(req, data);
   } else {
-- 
2.43.0


From 391c52bd8d486af92ac26a7160649f9f2cf1b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:56 +0000
Subject: [PATCH 025/153] fix: line end after a request was taken as the start
 of the next one

---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index fc4debc..1a66681 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -899,6 +899,10 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 static onion_connection_status parse_headers_GET(onion_request * req,
                                                  onion_buffer * data) {
   onion_token *token = req->parser_data;
+  // Skip line ends before the request, as the one after the multipart end. RFC 7230 3.5.
+  while (token->pos == 0 && data->pos < data->size
+         && (data->data[data->pos] == '\r' || data->data[data->pos] == '\n'))
+    data->pos++;
   int res = token_read_STRING(token, data);
 
   if (res <= 1000)
-- 
2.43.0


From 6ae1b9b84fe4acbe92d0982ebace1af3f702266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:30 +0000
Subject: [PATCH 026/153] fix: freeing a listen point that never listened
 closed descriptor 0

---
 src/onion/listen_point.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index ebc5bb3..bbcfd73 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -63,6 +63,7 @@ static int onion_listen_point_read_ready(onion_request * req);
  */
 onion_listen_point *onion_listen_point_new() {
   onion_listen_point *ret = onion_low_calloc(1, sizeof(onion_listen_point));
+  ret->listenfd = -1;           // Not listening yet, 0 is a valid descriptor.
   return ret;
 }
 
-- 
2.43.0


From bc92e8ced675abee47d1f99a979bacab66e9869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:14 +0000
Subject: [PATCH 027/153] fix: auth_pam crashed or overread on malformed
 credentials, cut them at NULs and sent a NUL in its 401

---
 src/onion/handlers/auth_pam.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..bd95706 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,18 +58,17 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
+  if (o && strncmp(o, "Basic ", 6) == 0) {
     //fprintf(stderr,"auth: '%s'\n",&o[6]);
-    auth = onion_base64_decode(&o[6], NULL);
-    username = auth;
-    int i = 0;
-    while (auth[i] != '\0' && auth[i] != ':')
-      i++;
-    if (auth[i] == ':') {
-      auth[i] = '\0';           // so i have user ready
-      passwd = &auth[i + 1];
-    } else
-      passwd = NULL;
+    int length = 0;
+    auth = onion_base64_decode(&o[6], &length);
+    // Do not accept embedded NULs, PAM would get less than what the user sent
+    if (auth && strlen(auth) == length)
+      passwd = strchr(auth, ':');
+    if (passwd) {
+      username = auth;
+      *passwd++ = '\0';         // so i have user ready
+    }
   }
   // I have my data, try to authorize
   if (username && passwd) {
@@ -91,14 +90,14 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     onion_low_free(auth);
 
   // Not authorized. Ask for it.
-  char temp[256];
+  char temp[strlen(d->realm) + sizeof("Basic realm=\"\"")];
   sprintf(temp, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
-  onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
+  onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED) - 1);
 
   onion_response_write(res, RESPONSE_UNAUTHORIZED,
-                       sizeof(RESPONSE_UNAUTHORIZED));
+                       sizeof(RESPONSE_UNAUTHORIZED) - 1);
   return OCS_PROCESSED;
 }
 
@@ -177,7 +176,7 @@ int authorize(const char *pamname, const char *username, const char *password) {
   if (ok == PAM_SUCCESS)
     ok = pam_acct_mgmt(pamh, 0);        /* permitted access? */
 
-  if (pam_end(pamh, ok) != PAM_SUCCESS) {
+  if (pamh && pam_end(pamh, ok) != PAM_SUCCESS) {
     ONION_ERROR("Error releasing PAM structures");
   }
   if (ok == PAM_SUCCESS) {
-- 
2.43.0


From 5fc4dbfa9334ed4e63e82df28ef33ba425943abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:41 +0000
Subject: [PATCH 028/153] fix: cookie header parsing leaked without cookies and
 mixed up elements without value

---
 src/onion/request.c | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..bbeb21b 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -686,39 +686,22 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   if (!ccookies)
     return req->cookies;
   char *cookies = onion_low_strdup(ccookies);   // I prepare a temporary string, will modify it.
-  char *val = NULL;
-  char *key = NULL;
-  char *p = cookies;
-
-  int first = 1;
-  while (*p) {
-    if (*p != ' ' && !key && !val) {
-      key = p;
-    } else if (*p == '=' && key && !val) {
-      *p = 0;
-      val = p + 1;
-    } else if (*p == ';' && key && val) {
-      *p = 0;
-      if (first) {
-        // The first cookie is special as it is the pointer to the reserved area for all the keys and values
-        // for all th eother cookies, to free at dict free.
-        onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-        first = 0;
-      } else
-        onion_dict_add(req->cookies, key, val, 0);      /// Can use as static data as will be freed at first cookie free
-      ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
-      val = NULL;
-      key = NULL;
+  char *key = cookies;
+  while (key) {
+    char *next = strchr(key, ';');
+    if (next)
+      *next++ = 0;
+    while (*key == ' ')
+      key++;
+    char *val = strchr(key, '=');
+    if (val && val != key) {    // Ignore elements without name or value
+      *val++ = 0;
+      onion_dict_add(req->cookies, key, val, OD_DUP_ALL);
+      ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
     }
-    p++;
-  }
-  if (key && val && val < p) {  // A final element, with value.
-    if (first)
-      onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
-      onion_dict_add(req->cookies, key, val, 0);
-    ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+    key = next;
   }
+  onion_low_free(cookies);
 
   return req->cookies;
 }
-- 
2.43.0


From ceab0a1478df9d0dfdec917a456b11beb54c8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 029/153] fix: websocket writes lost data at multiples of 1024,
 sent wrong lengths from 65535 on, and long printfs were cut

---
 src/onion/websocket.c | 52 ++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..5b41adc 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -165,6 +165,22 @@ void onion_websocket_free(onion_websocket * ws) {
   onion_low_free(ws);
 }
 
+/// Writes all the data, even if the listen point only accepts part of it at a time.
+static ssize_t onion_websocket_write_all(onion_websocket * ws,
+                                         lpwriter_sig_t * lpwriter,
+                                         const char *data, ssize_t len) {
+  ssize_t pos = 0;
+  while (pos < len) {
+    ssize_t w = (*lpwriter) (ws->req, data + pos, len - pos);
+    if (w <= 0) {
+      ONION_ERROR("Error writing to websocket");
+      return -1;
+    }
+    pos += w;
+  }
+  return pos;
+}
+
 /**
  * @short Writes a fragment to the websocket
  * @memberof onion_websocket_t
@@ -194,7 +210,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     header[1] = 0x00;           // Do not mask on send
     if (len < 126)
       header[1] |= len;
-    else if (len < 0x0FFFF) {
+    else if (len <= 0x0FFFF) {
       header[1] |= 126;
       header[2] = (len >> 8) & 0x0FF;
       header[3] = (len) & 0x0FF;
@@ -202,9 +218,9 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     } else {
       header[1] |= 127;
       int i;
-      int tlen = len;
+      uint64_t tlen = len;
       for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
+        header[2 + 7 - i] = tlen & 0x0FF;
         tlen >>= 8;
       }
       hlen += 8;
@@ -217,25 +233,10 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
        }
      */
 
-    (*lpwriter) (ws->req, header, hlen);
-  }
-  /// FIXME! powerup using int32_t as basic type.
-  int ret = 0;
-  int i, j;
-  char tout[1024];
-  for (i = 0; i < len - 1024; i += 1024) {
-    for (j = 0; j < sizeof(tout); j++) {
-      //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
-      tout[j] = buffer[i + j];
-    }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
-  }
-  for (; i < len; i++) {
-    //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    if (onion_websocket_write_all(ws, lpwriter, header, hlen) < 0)
+      return -1;
   }
-
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  return onion_websocket_write_all(ws, lpwriter, buffer, len);
 }
 
 /**
@@ -314,7 +315,12 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
+  va_list args2;                // args can be used only once
+  va_copy(args2, args);
+  int l = vsnprintf(temp, sizeof(temp), fmt, args2);
+  va_end(args2);
+  if (l < 0)
+    return -1;
   if (l < sizeof(temp))
     return onion_websocket_write(ws, temp, l);
   else {
@@ -326,7 +332,7 @@ int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args)
       ONION_ERROR("Could not reserve %d bytes", l + 1);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, args);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From 2171c41f0b74d17e66b9eb1b6d52637c050bfde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 030/153] fix: websocket headers in several reads, control
 packets and read errors corrupted the stream

---
 src/onion/websocket.c | 96 +++++++++++++++++++++++++++++++++----------
 1 file changed, 74 insertions(+), 22 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 5b41adc..89499c9 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -264,8 +264,10 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return -1;
   }
+  if (len == 0)                 // Do not wait for the next packet if nothing is needed.
+    return 0;
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
-  if (ws->data_left == 0) {
+  while (ws->data_left == 0) {  // Skip empty packets.
     onion_connection_status status;
     if ((status = onion_websocket_read_packet_header(ws)) < 0) {
       if (status == -2)
@@ -282,6 +284,10 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
   }
   int r = (*lpreader) (ws->req, buffer, len);
+  if (r <= 0) {
+    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
+    return r;
+  }
   if (ws->flags & WS_MASK) {
     char *p = buffer;
     int i;
@@ -292,11 +298,12 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   }
   ws->data_left -= r;
 
-  if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
-
-  if (r < 0 || (r == 0 && errno != 0)) {
-    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
+  if (left_len && r == len) {
+    int r2 = onion_websocket_read(ws, &buffer[len], left_len);
+    if (r2 > 0)
+      r += r2;
+    else
+      ws->callback = NULL;      // Nothing more to come, but there is data to return.
   }
   return r;
 }
@@ -405,6 +412,33 @@ void onion_websocket_set_userdata(onion_websocket * ws, void *userdata,
   ws->free_user_data = free_userdata;
 }
 
+/// Reads exactly len bytes, even if they arrive in several parts.
+static int onion_websocket_read_all(onion_websocket * ws,
+                                    lpreader_sig_t * lpreader, char *data,
+                                    int len) {
+  int pos = 0;
+  while (pos < len) {
+    int r = (*lpreader) (ws->req, data + pos, len - pos);
+    if (r <= 0)
+      break;
+    pos += r;
+  }
+  return pos;
+}
+
+/// Reads and unmasks exactly len bytes of the current packet, used at control packets.
+static int onion_websocket_read_payload(onion_websocket * ws,
+                                        lpreader_sig_t * lpreader, char *data,
+                                        int len) {
+  int i, r = onion_websocket_read_all(ws, lpreader, data, len);
+  if (ws->flags & WS_MASK) {
+    for (i = 0; i < r; i++)
+      data[i] ^= ws->mask[(ws->mask_pos++) & 3];
+  }
+  ws->data_left -= r;
+  return r;
+}
+
 /**
  * @short Reads a packet header.
  */
@@ -421,13 +455,16 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
-  int r = (*lpreader) (ws->req, tmp, 2);
+  int r;
+next_packet:
+  r = onion_websocket_read_all(ws, lpreader, tmp, 2);
   //ONION_DEBUG("reading input r = %i", r);
   if (r != 2) {
     ONION_DEBUG("Error reading header");
     return OCS_CLOSE_CONNECTION;
   }
 
+  onion_websocket_opcode last_opcode = ws->opcode;
   ws->flags = 0;
   if (tmp[0] & 0x80)
     ws->flags |= WS_FIN;
@@ -436,7 +473,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
-    r = (*lpreader) (ws->req, tmp, 2);
+    r = onion_websocket_read_all(ws, lpreader, tmp, 2);
     if (r != 2) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
@@ -444,20 +481,24 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("%d %d", utmp[0], utmp[1]);
     ws->data_left = utmp[1] + utmp[0] * 256;
   } else if (ws->data_left == 127) {
-    r = (*lpreader) (ws->req, tmp, 8);
+    r = onion_websocket_read_all(ws, lpreader, tmp, 8);
     //ONION_DEBUG("%d %d %d %d %d %d %d", utmp[0], utmp[1], utmp[2], utmp[3], utmp[4], utmp[5], utmp[6], utmp[7]);
     if (r != 8) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
     ws->data_left = 0;
+    if (utmp[0] & 0x80) {
+      ONION_ERROR("Websocket packet length is not valid");
+      return OCS_CLOSE_CONNECTION;
+    }
     int i;
     for (i = 0; i < 8; i++)
       ws->data_left += ((uint64_t) utmp[i]) << ((7 - i) * 8);   // Maybe problematic on 32bits systems
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-    r = (*lpreader) (ws->req, ws->mask, 4);
+    r = onion_websocket_read_all(ws, lpreader, ws->mask, 4);
     //ONION_DEBUG("bytes read=%i", r);
     if (r != 4) {
       ONION_DEBUG("Error reading header (4)");
@@ -467,24 +508,34 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   }
 
   if (ws->opcode == OWS_PING) { // I do answer ping myself.
+    char data[125];             // Maximum for control packets
+    int length = ws->data_left;
+    if (ws->data_left > sizeof(data)) {
+      ONION_ERROR("Websocket ping is too long");
+      return OCS_CLOSE_CONNECTION;
+    }
+    if (onion_websocket_read_payload(ws, lpreader, data, length) != length)
+      return OCS_CLOSE_CONNECTION;
     onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
-
-    onion_websocket_write(ws, data, r);
+    r = onion_websocket_write(ws, data, length);
+    onion_websocket_set_opcode(ws, last_opcode);
+    if (r < 0)
+      return OCS_CLOSE_CONNECTION;
+    goto next_packet;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
-      ONION_DEBUG("Error reading status code");
+    if (ws->data_left < 2) {    // No status code
+      onion_websocket_write(ws, "", 0);
       return OCS_CLOSE_CONNECTION;
     }
     char status[2];
-    status[0] = utmp[0] ^ ws->mask[0];
-    status[1] = utmp[1] ^ ws->mask[1];
+    if (onion_websocket_read_payload(ws, lpreader, status, 2) != 2) {
+      ONION_DEBUG("Error reading status code");
+      return OCS_CLOSE_CONNECTION;
+    }
     ONION_DEBUG("Connection closed by client, status=%u",
-                (status[0] << 8) + status[1]);
-    onion_websocket_close(ws, (const char *)&status);
+                ((unsigned char)status[0] << 8) + (unsigned char)status[1]);
+    onion_websocket_close(ws, status);
     return OCS_CLOSE_CONNECTION;
   }
   return OCS_NEED_MORE_DATA;
@@ -525,7 +576,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       do {
         last_d_l = ws->data_left;
         ret = ws->callback(ws->user_data, ws, ws->data_left);
-      } while (ws->data_left != 0 && last_d_l != ws->data_left && ws->callback);
+      } while (ret == OCS_NEED_MORE_DATA && ws->data_left != 0
+               && last_d_l != ws->data_left && ws->callback);
     }
 
     if (!ws->callback)          // ws->callback can change ws->callback, so another test, not else.
-- 
2.43.0


From e27e05bfd5b1c9ca8a358f0c0e7802d4d3e5b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:20 +0000
Subject: [PATCH 031/153] fix: byte ranges past the end, suffix ranges, long
 ranges, and files sent partially by onion_shortcut_response_file

---
 src/onion/shortcuts.c | 145 ++++++++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 63 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..6eb64c7 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -25,6 +25,7 @@
 #define USE_SENDFILE
 #endif
 
+#include <ctype.h>
 #include <string.h>
 #include <stdarg.h>
 #include <fcntl.h>
@@ -137,6 +138,46 @@ onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                               root_handler, req, res);
 }
 
+/**
+ * @short Parses a byte range: first-last, first- or -last_n_bytes
+ *
+ * @returns 0 if ok, 1 if it can not be satisfied, and <0 if not understood; should be ignored.
+ */
+static int onion_shortcut_parse_range(const char *range, size_t size,
+                                      size_t * starts, size_t * ends) {
+  char *p;
+  if (*range == '-') {          // The last bytes
+    if (!isdigit((unsigned char)range[1]))
+      return -1;
+    size_t n = strtoul(range + 1, &p, 10);
+    if (*p)
+      return -1;
+    if (n == 0 || size == 0)
+      return 1;
+    *starts = n < size ? size - n : 0;
+    *ends = size - 1;
+    return 0;
+  }
+  if (!isdigit((unsigned char)*range))
+    return -1;
+  *starts = strtoul(range, &p, 10);
+  if (*p++ != '-')
+    return -1;
+  *ends = size - 1;
+  if (*p) {
+    if (!isdigit((unsigned char)*p))
+      return -1;
+    *ends = strtoul(p, &p, 10);
+    if (*p)
+      return -1;
+  }
+  if (*starts >= size || *starts > *ends)
+    return 1;
+  if (*ends >= size)
+    *ends = size - 1;
+  return 0;
+}
+
 /**
  * @short This shortcut returns the given file contents.
  * @ingroup shortcuts
@@ -159,7 +200,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   }
   int use_sendfile = onion_use_sendfile;        // Now that we know global, use some local info as well.
 
-  int fd = open(filename, O_RDONLY | O_CLOEXEC);
+  int fd = open(filename, O_RDONLY | O_CLOEXEC | O_NONBLOCK);   // Do not block on fifos
 
   if (fd < 0)
     return OCS_NOT_PROCESSED;
@@ -182,7 +223,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_NOT_PROCESSED;
   }
 
-  if (S_ISDIR(st.st_mode)) {
+  if (!S_ISREG(st.st_mode)) {
     close(fd);
     return OCS_NOT_PROCESSED;
   }
@@ -193,52 +234,37 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   if (length > 0x7ffff000) // ~2GB
     use_sendfile = 0; // - a documented limitation for sendfile() command
 
-  char etag[64];
+  char etag[128];
   onion_shortcut_etag(&st, etag);
 
   const char *range = onion_request_get_header(request, "Range");
+  if (range && strlen(range) > 64)      // Not a sane range, ignore it.
+    range = NULL;
   if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
+    strcat(etag, range);
   }
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
-    char tmp[1024];
-    if (strlen(range + 6) >= sizeof(tmp)) {
+    char tmp[128];
+    size_t starts, ends;
+    int r = onion_shortcut_parse_range(range + 6, length, &starts, &ends);
+    if (r > 0) {
+      ONION_DEBUG0("Range not satisfiable");
+      snprintf(tmp, sizeof(tmp), "bytes */%zu", length);
+      onion_response_set_header(res, "Content-Range", tmp);
+      onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
+      onion_response_set_length(res, 0);
+      onion_response_write_headers(res);
       close(fd);
-      return OCS_INTERNAL_ERROR;        // Bad specified range. Very bad indeed.
+      return OCS_PROCESSED;
     }
-    strncpy(tmp, range + 6, sizeof(tmp) - 1);
-    char *start = tmp;
-    char *end = tmp;
-    while (*end != '-' && *end)
-      end++;
-    if (*end == '-') {
-      *end = '\0';
-      end++;
-
-      //ONION_DEBUG("Start %s, end %s",start,end);
-      size_t ends, starts;
-      if (*end)
-        ends = atol(end);
-      else
-        ends = length - 1;
-      starts = atol(start);
-      if (starts > ends || starts > length) {
-        ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
-        onion_response_set_header(res, "Content-Range", tmp);
-        onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
-        onion_response_write_headers(res);
-        close(fd);
-        return OCS_PROCESSED;
-      }
+    if (r == 0) {
+      onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
+      snprintf(tmp, sizeof(tmp), "bytes %zu-%zu/%zu", starts, ends, length);
       length = ends - starts + 1;
       lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
       //onion_response_set_header(res, "Accept-Ranges","bytes");
       onion_response_set_header(res, "Content-Range", tmp);
     }
@@ -259,7 +285,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_PROCESSED;
   }
   onion_response_write_headers(res);
-  if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
+  if ((onion_request_get_flags(request) & OR_METHODS) == OR_HEAD) {        // Just head.
     length = 0;
   }
 
@@ -268,46 +294,39 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
       onion_response_write(res, NULL, 0);
       ONION_DEBUG("Using sendfile");
-      int r = sendfile(request->connection.fd, fd, NULL, length);
-      ONION_DEBUG("Wrote %d, should be %d (%s)", r, length,
-                  r == length ? "ok" : "nok");
-      if (r != length || r < 0) {
-        ONION_ERROR("Could not send all file (%s)", strerror(errno));
-        close(fd);
-        return OCS_INTERNAL_ERROR;
+      size_t left = length;
+      while (left > 0) {        // It may send it in several parts
+        ssize_t r = sendfile(request->connection.fd, fd, NULL, left);
+        if (r <= 0) {
+          ONION_ERROR("Could not send all file (%s)", strerror(errno));
+          close(fd);
+          return OCS_CLOSE_CONNECTION;
+        }
+        left -= r;
       }
       res->sent_bytes += length;
       res->sent_bytes_total += length;
     } else
 #endif
     {                           // Ok, no I cant, do it as always.
-      int r = 0, w;
-      size_t tr = 0;
+      ssize_t r, w;
       char tmp[4046];
-      if (length > sizeof(tmp)) {
-        size_t max = length - sizeof(tmp);
-        while (tr < max) {
-          r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
-            break;
-          w = onion_response_write(res, tmp, r);
-          if (w != r) {
-            ONION_ERROR
-                ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-                 w, r);
-            break;
-          }
+      while (length > 0) {
+        r = read(fd, tmp, length > sizeof(tmp) ? sizeof(tmp) : length);
+        if (r <= 0) {           // Client waits for more data, which will not come.
+          ONION_ERROR("Could not read all file (%s)", strerror(errno));
+          close(fd);
+          return OCS_CLOSE_CONNECTION;
         }
-      }
-      if (sizeof(tmp) >= (length - tr)) {
-        r = read(fd, tmp, length - tr);
         w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
               ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-               w, r);
+               (int)w, (int)r);
+          close(fd);
+          return OCS_CLOSE_CONNECTION;
         }
+        length -= r;
       }
     }
   }
-- 
2.43.0


From 874ec340c557fdd3648fee7403c123cdb91c0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:20 +0000
Subject: [PATCH 032/153] fix: date strings used the time as size of the buffer

---
 src/onion/shortcuts.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 6eb64c7..c1802b0 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -367,7 +367,8 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  if (strftime(dest, 32, "%a, %d %b %Y %T %Z", &ts) == 0)
+    dest[0] = '\0';
 }
 
 /**
@@ -379,7 +380,8 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  if (strftime(dest, 21, "%FT%TZ", &ts) == 0)
+    dest[0] = '\0';
 }
 
 /**
-- 
2.43.0


From 8b01a2d4a1a5d2c5c335d31e75ab4be0877fcdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:20 +0000
Subject: [PATCH 033/153] fix: onion_shortcut_rename between filesystems lost
 data on short writes and errors

---
 src/onion/shortcuts.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index c1802b0..1ce37ff 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -414,8 +414,10 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
       ok = 1;
       ONION_ERROR("Could not open orig for reading (%s)", strerror(errno));
     }
-    int fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
-    if (fd_dest < 0) {
+    int fd_dest = -1;
+    if (ok == 0)
+      fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    if (ok == 0 && fd_dest < 0) {
       ok = 1;
       ONION_ERROR("Could not open destination for writing (%s)",
                   strerror(errno));
@@ -423,22 +425,30 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
     if (ok == 0) {
       char tmp[4096];
       int r;
-      while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
-        if (r < 0) {
-          ONION_ERROR("Error writing to destination file (%s)",
-                      strerror(errno));
-          ok = 1;
-          break;
+      while (ok == 0 && (r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
+        int w, pos = 0;
+        while (pos < r) {       // May be written in several parts
+          w = write(fd_dest, &tmp[pos], r - pos);
+          if (w < 0) {
+            ONION_ERROR("Error writing to destination file (%s)",
+                        strerror(errno));
+            ok = 1;
+            break;
+          }
+          pos += w;
         }
       }
+      if (r < 0) {
+        ONION_ERROR("Error reading from original file (%s)", strerror(errno));
+        ok = 1;
+      }
     }
-    if (fd_orig >= 0) {
+    if (fd_orig >= 0)
       close(fd_orig);
+    if (fd_dest >= 0 && close(fd_dest) != 0)
+      ok = 1;
+    if (ok == 0)                // Keep the original if it could not be copied.
       unlink(orig);
-    }
-    if (fd_dest >= 0)
-      close(fd_dest);
   }
   return ok;
 }
-- 
2.43.0


From d303b89b7f18bc4a625e29a2f0cafaaf93347ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:20 +0000
Subject: [PATCH 034/153] fix: internal redirect to a part of the current path
 used freed memory

---
 src/onion/shortcuts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 1ce37ff..5e42442 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -132,8 +132,9 @@ onion_connection_status onion_shortcut_redirect(const char *newurl,
 onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                                                          onion_request * req,
                                                          onion_response * res) {
+  char *fullpath = onion_low_strdup(newurl);    // newurl may be part of the old path
   onion_low_free(req->fullpath);
-  req->fullpath = req->path = onion_low_strdup(newurl);
+  req->fullpath = req->path = fullpath;
   return onion_handler_handle(req->connection.listen_point->server->
                               root_handler, req, res);
 }
-- 
2.43.0


From ae4746dfb5cacefcdaf2768d9718cbc0a9f78269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:57 +0000
Subject: [PATCH 035/153] fix: webdav acted on cut paths when they were long

---
 src/onion/handlers/webdav.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..a2dbec1 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -111,9 +111,12 @@ onion_connection_status onion_webdav_handler(onion_webdav * wd,
   }
 #endif
 
-  char filename[512];
-  snprintf(filename, sizeof(filename), "%s/%s", wd->path,
-           onion_request_get_path(req));
+  char filename[PATH_MAX];
+  if (snprintf(filename, sizeof(filename), "%s/%s", wd->path,
+               onion_request_get_path(req)) >= sizeof(filename)) {
+    // Never act on a cut path
+    return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
+  }
 
   ONION_DEBUG("Check %s and %s", wd->path, filename);
   if (wd->check_permissions(wd->path, filename, req) != 0) {
-- 
2.43.0


From eff751ddd669612767383da86508db7fef396bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:57 +0000
Subject: [PATCH 036/153] fix: webdav default permissions allowed siblings of
 the share with the same prefix, and dangling links

---
 src/onion/handlers/webdav.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index a2dbec1..1399cee 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -729,6 +729,12 @@ int onion_webdav_default_check_permissions(const char *exported_path,
   }
 
   file = realpath(filename, NULL);
+  struct stat st;
+  if (!file && lstat(filename, &st) == 0) {     // It is there, but points to somewhere unknown
+    ONION_ERROR("Could not resolve %s", filename);
+    onion_low_free(base);
+    return 1;
+  }
   if (!file) {                  // Maybe it reffers to a non existent file, so we need the parent permissions
     char *fname = alloca(strlen(filename) + 1);
     strcpy(fname, filename);
@@ -739,10 +745,13 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
+  int base_length = strlen(base);
+  if (base_length == 1)         // Root directory, everything is inside
+    base_length = 0;
+  if ((ret == 0) && (strncmp(base, file, base_length) != 0 ||
+                     (file[base_length] != '\0' && file[base_length] != '/'))) {
     ret = 1;
-    ONION_ERROR("Base %s is not for file %s (%p)", base, file,
-                strncmp(base, file, strlen(base)));
+    ONION_ERROR("Base %s is not for file %s", base, file);
   }
 
   if (base)
-- 
2.43.0


From 8e4511a415cfaac0e5e5e74254463dc21a51bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:57 +0000
Subject: [PATCH 037/153] fix: webdav MOVE ignored the destination

---
 src/onion/handlers/webdav.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 1399cee..8cb9478 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -31,6 +31,7 @@
 #include <onion/response.h>
 #include <onion/block.h>
 #include <onion/shortcuts.h>
+#include <onion/codecs.h>
 #include <onion/low.h>
 
 #include "webdav.h"
@@ -194,9 +195,12 @@ onion_connection_status onion_webdav_move(const char *filename,
     if (*dest == 0)
       return OCS_INTERNAL_ERROR;
   dest--;
+  char *dest_path = alloca(strlen(dest) + 1);   // As any other URL it comes quoted.
+  strcpy(dest_path, dest);
+  onion_unquote_inplace(dest_path);
+  dest = dest_path;
 
   const char *fullpath = onion_request_get_fullpath(req);
-  const char *partialpath = onion_request_get_path(req);
   // Not the fixed URL part for this handler.
   int fpl = strlen(fullpath);   // Full path length
   int ppl = strlen(onion_request_get_path(req));        // Partial, the fullpath[fpl-ppl] is the end point of the handler path
@@ -212,24 +216,22 @@ onion_connection_status onion_webdav_move(const char *filename,
   }
   dest = &dest[fpl - ppl];
 
-  char orig[512];
-  snprintf(orig, sizeof(orig), "%s/%s", wd->path, partialpath);
-
-  if (wd->check_permissions(wd->path, orig, req) != 0) {
+  char fdest[PATH_MAX];
+  if (snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, dest) >= sizeof(fdest)
+      || wd->check_permissions(wd->path, fdest, req) != 0) {
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
 
-  const char *fdest = filename;
-
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
-  int ok = onion_shortcut_rename(orig, fdest);
+  int ok = onion_shortcut_rename(filename, fdest);
 
   if (ok == 0) {
     ONION_DEBUG("Created %s succesfully", fdest);
     return onion_shortcut_response("201 Created", 201, req, res);
   } else {
-    ONION_ERROR("Could not rename %s to %s (%s)", orig, fdest, strerror(errno));
+    ONION_ERROR("Could not rename %s to %s (%s)", filename, fdest,
+                strerror(errno));
     return onion_shortcut_response("Could not create resource", HTTP_FORBIDDEN,
                                    req, res);
   }
-- 
2.43.0


From 866892548aac6f12f2be158437ee90ed924ebadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:57 +0000
Subject: [PATCH 038/153] fix: webdav PROPFIND crashed without body and
 overflowed and mixed its base path

---
 src/onion/handlers/webdav.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 8cb9478..6b10c06 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -302,6 +302,8 @@ onion_connection_status onion_webdav_options(const char *filename,
  * 
  */
 static int onion_webdav_parse_propfind(const onion_block * block) {
+  if (!block)                   // No body is asking for all properties
+    return ~0;
   // For parsing the data
   xmlDocPtr doc;
   doc =
@@ -309,7 +311,7 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
 
   if (doc == NULL) {
     ONION_ERROR("Error: unable to parse OPTIONS");
-    return OCS_INTERNAL_ERROR;
+    return 0;
   }
 
   int props = 0;
@@ -389,7 +391,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
       ONION_ERROR("File path too long");
       return 1;
     }
-    strncpy(tmp, realpath, sizeof(tmp) - 1);
+    strcpy(tmp, realpath);
   }
   struct stat st;
   if (stat(tmp, &st) < 0) {
@@ -411,8 +413,8 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
       snprintf(tmp, sizeof(tmp), "%s/%s", basepath, urlpath);
     }
   }
-  if (S_ISDIR(st.st_mode) && urlpath[0] != 0)
-    strncat(tmp, "/", sizeof(tmp) - 1);
+  if (S_ISDIR(st.st_mode) && urlpath[0] != 0 && strlen(tmp) < sizeof(tmp) - 1)
+    strcat(tmp, "/");
   ONION_DEBUG0("Props for %s", tmp);
 
   xmlTextWriterStartElement(writer, BAD_CAST "D:response");
@@ -580,11 +582,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
   basepath = alloca(pathlen + 1);
-  memcpy(basepath, fullpath, pathlen + 1);
-  ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
-  while (basepath[pathlen] == '/' && pathlen > 0)
+  memcpy(basepath, fullpath, pathlen);
+  while (pathlen > 0 && basepath[pathlen - 1] == '/')
     pathlen--;
-  basepath[pathlen + 1] = 0;
+  basepath[pathlen] = 0;
 
   ONION_DEBUG0("PROPFIND; pathbase %s", basepath);
   int depth;
-- 
2.43.0


From 98d90c30992970f621f90912e7dc89bf5cebf241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:57 +0000
Subject: [PATCH 039/153] fix: webdav PROPPATCH crashed on invalid properties
 and non existent files

---
 src/onion/handlers/webdav.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 6b10c06..5e3096c 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -641,6 +641,8 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
     return OCS_INTERNAL_ERROR;
   doc =
       xmlParseMemory((char *)onion_block_data(block), onion_block_size(block));
+  if (!doc)
+    return OCS_INTERNAL_ERROR;
 
   xmlNode *root = NULL;
   root = xmlDocGetRootElement(doc);
@@ -661,10 +663,11 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
               xmlNode *prop = set->children;
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
-                if (strcmp((const char *)prop->name, "executable") == 0) {
+                struct stat st;
+                if (strcmp((const char *)prop->name, "executable") == 0
+                    && prop->children && prop->children->content
+                    && stat(filename, &st) == 0) {
                   ONION_DEBUG("Setting executable %s", prop->children->content);
-                  struct stat st;
-                  stat(filename, &st);
                   if (prop->children->content[0] == 'T'
                       || prop->children->content[0] == 't') {
                     chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
-- 
2.43.0


From 14b927c6cad8875f211c82e02c153512557cf990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:10 +0000
Subject: [PATCH 040/153] fix: HEAD with content bigger than the response
 buffer looped forever

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..c9be6f2 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -416,8 +416,10 @@ int onion_response_flush(onion_response * res) {
     onion_response_write(res, tmpb, tmpp);
     return 0;
   }
-  if (res->flags & OR_SKIP_CONTENT)     // HEAD request
+  if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
+    res->buffer_pos = 0;
     return 0;
+  }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
   onion_request *req = res->request;
-- 
2.43.0


From 600124c517629b66e189ed4aab9453f04d7a8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:10 +0000
Subject: [PATCH 041/153] fix: buffer of onion_response_set_length was too
 small for big lengths

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c9be6f2..38e0255 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -224,7 +224,7 @@ void onion_response_set_length(onion_response * res, size_t len) {
         ("Trying to set length after headers sent. Undefined onion behaviour.");
     return;
   }
-  char tmp[16];
+  char tmp[32];
   sprintf(tmp, "%lu", (unsigned long)len);
   onion_response_set_header(res, "Content-Length", tmp);
   res->length = len;
-- 
2.43.0


From 8cc7ab63b80fd022c314d3cc0ab27c49a1e367b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:10 +0000
Subject: [PATCH 042/153] fix: session cookie header was not ended in CRLF

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 38e0255..177770b 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -315,7 +315,7 @@ int onion_response_write_headers(onion_response * res) {
   onion_dict_preorder(res->headers, write_header, res);
 
   if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
-    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\n",
+    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
   onion_response_write(res, "\r\n", 2);
-- 
2.43.0


From 46ece082bc40af44baf47edcb04210926a65f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:29 +0000
Subject: [PATCH 043/153] fix: short and failed writes broke the chunked
 encoding, and data kept being sent after them

---
 src/onion/response.c | 66 +++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 177770b..c9204c1 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -45,6 +45,8 @@
 /// @defgroup response Response. Write response data to client: headers, content body...
 
 const char *onion_response_code_description(int code);
+static int onion_response_write_raw(onion_response * res, const char *data,
+                                    size_t length);
 
 // DONT_USE_DATE_HEADER is not defined anywhere, but here just in case needed in the future.
 
@@ -169,7 +171,7 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_request *req = res->request;
 
   if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    req->connection.listen_point->write(req, "0\r\n\r\n", 5);
+    onion_response_write_raw(res, "0\r\n\r\n", 5);
   }
 
   int r = OCS_CLOSE_CONNECTION;
@@ -390,6 +392,32 @@ ssize_t onion_response_write(onion_response * res, const char *data,
   return w;
 }
 
+/**
+ * @short Writes all the data to the connection, maybe with several writes.
+ * @ingroup response
+ *
+ * If data can not be fully written the framing of the response is lost, so nothing else is sent and
+ * the connection is not kept alive.
+ *
+ * @returns 0 if all data was written, OCS_CLOSE_CONNECTION on error.
+ */
+static int onion_response_write_raw(onion_response * res, const char *data,
+                                    size_t length) {
+  onion_request *req = res->request;
+  while (length > 0) {
+    ssize_t w = req->connection.listen_point->write(req, data, length);
+    if (w <= 0) {
+      req->flags |= OR_NO_KEEP_ALIVE;
+      res->flags |= OR_SKIP_CONTENT;
+      res->flags &= ~OR_CHUNKED;
+      return OCS_CLOSE_CONNECTION;
+    }
+    data += w;
+    length -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes all buffered output waiting for sending.
  * @ingroup response
@@ -422,45 +450,27 @@ int onion_response_flush(onion_response * res) {
   }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
-  onion_request *req = res->request;
-  ssize_t(*write) (onion_request *, const char *data, size_t len);
-  write = req->connection.listen_point->write;
-
-  ssize_t w;
-  off_t pos = 0;
-  //ONION_DEBUG0("Write %d bytes",res->buffer_pos);
   if (res->flags & OR_CHUNKED) {
     char tmp[16];
     snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
-    if ((w = write(req, tmp, strlen(tmp))) <= 0) {
+    if (onion_response_write_raw(res, tmp, strlen(tmp)) < 0) {
       ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
         (unsigned int)res->buffer_pos, strerror(errno));
-      
+      res->buffer_pos = 0;
       return OCS_CLOSE_CONNECTION;
     }
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
   }
   int savederrno = errno;
   errno = 0;
-  while ((w =
-          write(req, &res->buffer[pos], res->buffer_pos)) != res->buffer_pos) {
-    if (w <= 0 || res->buffer_pos < 0) {
-      ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection. Code %d. ",
-                  res->buffer_pos, strerror(errno), w);
-      res->buffer_pos = 0;
-      errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
-    }
-    pos += w;
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
-    res->buffer_pos -= w;
-  }
-  if (res->flags & OR_CHUNKED) {
-    write(req, "\r\n", 2);
-  }
+  int ret = onion_response_write_raw(res, res->buffer, res->buffer_pos);
+  if (ret < 0)
+    ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection.",
+                res->buffer_pos, strerror(errno));
+  else if (res->flags & OR_CHUNKED)
+    ret = onion_response_write_raw(res, "\r\n", 2);
   res->buffer_pos = 0;
   errno = savederrno;
-  return 0;
+  return ret;
 }
 
 /// Writes a 0-ended string to the response.
-- 
2.43.0


From 58b30f10be8e2e86845bec6e14a4012f72cb6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:44 +0000
Subject: [PATCH 044/153] fix: content written before
 onion_response_write_headers was sent before the headers, and the first flush
 did not send it

---
 src/onion/response.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c9204c1..7b6c734 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -283,6 +283,19 @@ int onion_response_write_headers(onion_response * res) {
         ("Bad formed response. Need a request at creation. Will not write headers.");
     return -1;
   }
+  if (res->flags & OR_HEADER_SENT) {
+    ONION_WARNING("Headers already sent. Not sending them again.");
+    return res->flags & OR_SKIP_CONTENT;
+  }
+  if (res->buffer_pos > 0) {    // Content already at the buffer, it has to go after the headers.
+    char tmpb[sizeof(res->buffer)];
+    int tmpp = res->buffer_pos;
+    memcpy(tmpb, res->buffer, tmpp);
+    res->buffer_pos = 0;
+    int r = onion_response_write_headers(res);
+    onion_response_write(res, tmpb, tmpp);
+    return r;
+  }
 
   res->flags |= OR_HEADER_SENT; // I Set at the begining so I can do normal writing.
   res->request->flags |= OR_HEADER_SENT;
@@ -428,22 +441,20 @@ static int onion_response_write_raw(onion_response * res, const char *data,
  * on more cases.
  */
 int onion_response_flush(onion_response * res) {
-  res->sent_bytes += res->buffer_pos;
-  res->sent_bytes_total += res->buffer_pos;
   if (res->buffer_pos == 0)     // Not used.
     return 0;
   if (!(res->flags & OR_HEADER_SENT)) { // Automatic header write
     ONION_DEBUG0
         ("Doing fast header hack: store current buffer, send current headers. Resend buffer.");
-    char tmpb[sizeof(res->buffer)];
-    int tmpp = res->buffer_pos;
-    memcpy(tmpb, res->buffer, res->buffer_pos);
-    res->buffer_pos = 0;
-
-    onion_response_write_headers(res);
-    onion_response_write(res, tmpb, tmpp);
-    return 0;
+    if (onion_response_write_headers(res) < 0) {        // No request, nowhere to write.
+      res->buffer_pos = 0;
+      return OCS_CLOSE_CONNECTION;
+    }
+    if (res->buffer_pos == 0)
+      return 0;
   }
+  res->sent_bytes += res->buffer_pos;
+  res->sent_bytes_total += res->buffer_pos;
   if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
     res->buffer_pos = 0;
     return 0;
-- 
2.43.0


From 78e5d172ca045ef41710799120dd2cd9451cca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:59 +0000
Subject: [PATCH 045/153] fix: HTTP/1.0 responses without length nor content
 were kept alive, so the client waits for them forever

---
 src/onion/response.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 7b6c734..2ac0883 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -184,8 +184,8 @@ onion_connection_status onion_response_free(onion_response * res) {
          onion_request_keep_alive(req), res->flags & OR_SKIP_CONTENT,
          res->length, res->sent_bytes, res->flags & OR_CHUNKED);
     if (onion_request_keep_alive(req)
-        && (res->flags & OR_SKIP_CONTENT || res->length == res->sent_bytes
-            || res->flags & OR_CHUNKED)
+        && (res->flags & OR_SKIP_CONTENT || res->flags & OR_CHUNKED
+            || (res->flags & OR_LENGTH_SET && res->length == res->sent_bytes))
         )
       r = OCS_KEEP_ALIVE;
 
-- 
2.43.0


From afa8827ed932eed7229c686c31f28b3fc39d3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:25 +0000
Subject: [PATCH 046/153] fix: blank folded header lines do not add blanks to
 the value

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 1a66681..0e55b96 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -753,7 +753,7 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
     char peek = data->data[data->pos++];
     if (peek != '\t' && peek != ' ') {
       onion_token *token = req->parser_data;
-      if (token->pos < (sizeof(token->str) - 1))
+      if (peek != '\n' && peek != '\r' && token->pos < (sizeof(token->str) - 1))
         token->str[token->pos++] = ' ';
       data->pos--;              // Not for me, it is the value (or the end of line)
       req->parser = parse_headers_VALUE;
-- 
2.43.0


From a4d5b71b48be4b78b30335d845dce5c2d50f276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 047/153] fix: response headers were case sensitive, so setting
 content-type sent two of them

---
 src/onion/response.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/response.c b/src/onion/response.c
index 2ac0883..18e04e9 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -85,6 +85,7 @@ onion_response *onion_response_new(onion_request * req) {
 
   res->request = req;
   res->headers = onion_dict_new();
+  onion_dict_set_flags(res->headers, OD_ICASE);
   res->code = 200;              // The most normal code, so no need to overwrite it in other codes.
   res->flags = 0;
   res->sent_bytes_total = res->length = res->sent_bytes = 0;
-- 
2.43.0


From 521ff5bd805c994ffb78a5a920254065967e4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 048/153] fix: response headers with end of lines allowed to
 inject headers and content

---
 src/onion/response.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/response.c b/src/onion/response.c
index 18e04e9..45f028e 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -251,6 +251,10 @@ void onion_response_set_code(onion_response * res, int code) {
 static void write_header(onion_response * res, const char *key,
                          const char *value, int flags) {
   //ONION_DEBUG0("Response header: %s: %s",key, value);
+  if (strpbrk(key, "\r\n") || strpbrk(value, "\r\n")) {
+    ONION_ERROR("Header with end of lines would be more than one header, or content. Not sent.");
+    return;
+  }
 
   onion_response_write0(res, key);
   onion_response_write(res, ": ", 2);
-- 
2.43.0


From d92e252c696ee1356bdd387ad6701d709702972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:01 +0000
Subject: [PATCH 049/153] fix: content was sent with 204 and 304 responses, and
 taken by clients as the next response

---
 src/onion/response.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 45f028e..0897d5e 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -305,12 +305,17 @@ int onion_response_write_headers(onion_response * res) {
   res->flags |= OR_HEADER_SENT; // I Set at the begining so I can do normal writing.
   res->request->flags |= OR_HEADER_SENT;
   char chunked = 0;
+  // These never have content, whatever the headers say.
+  char no_content = (res->code == 204 || res->code == HTTP_NOT_MODIFIED
+                     || (res->code >= 100 && res->code < 200
+                         && res->code != HTTP_SWITCH_PROTOCOL));
 
   if (res->request->flags & OR_HTTP11) {
     onion_response_printf(res, "HTTP/1.1 %d %s\r\n", res->code,
                           onion_response_code_description(res->code));
     //ONION_DEBUG("Response header: HTTP/1.1 %d %s\n",res->code, onion_response_code_description(res->code));
-    if (!(res->flags & OR_LENGTH_SET) && onion_request_keep_alive(res->request)) {
+    if (!(res->flags & OR_LENGTH_SET) && !no_content
+        && onion_request_keep_alive(res->request)) {
       onion_response_write(res, CONNECTION_CHUNK_ENCODING,
                            sizeof(CONNECTION_CHUNK_ENCODING) - 1);
       chunked = 1;
@@ -319,12 +324,12 @@ int onion_response_write_headers(onion_response * res) {
     onion_response_printf(res, "HTTP/1.0 %d %s\r\n", res->code,
                           onion_response_code_description(res->code));
     //ONION_DEBUG("Response header: HTTP/1.0 %d %s\n",res->code, onion_response_code_description(res->code));
-    if (res->flags & OR_LENGTH_SET)     // On HTTP/1.0, i need to state it. On 1.1 it is default.
+    if ((res->flags & OR_LENGTH_SET) || no_content)     // On HTTP/1.0, i need to state it. On 1.1 it is default.
       onion_response_write(res, CONNECTION_KEEP_ALIVE,
                            sizeof(CONNECTION_KEEP_ALIVE) - 1);
   }
 
-  if (!(res->flags & OR_LENGTH_SET) && !chunked
+  if (!(res->flags & OR_LENGTH_SET) && !chunked && !no_content
       && !(res->flags & OR_CONNECTION_UPGRADE))
     onion_response_write(res, CONNECTION_CLOSE, sizeof(CONNECTION_CLOSE) - 1);
 
@@ -343,7 +348,7 @@ int onion_response_write_headers(onion_response * res) {
   ONION_DEBUG0("Headers written");
   res->sent_bytes = -res->buffer_pos;   // the header size is not counted here. It will add again so start negative.
 
-  if ((res->request->flags & OR_METHODS) == OR_HEAD) {
+  if ((res->request->flags & OR_METHODS) == OR_HEAD || no_content) {
     onion_response_flush(res);
     res->flags |= OR_SKIP_CONTENT;
     return OR_SKIP_CONTENT;
-- 
2.43.0


From 6878daf8130ffa136f5812fa6724b3a31959a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:01 +0000
Subject: [PATCH 050/153] fix: HTTP/1.0 HEAD responses stated that the
 connection is closed and kept it

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 0897d5e..1bfc6ca 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -330,8 +330,10 @@ int onion_response_write_headers(onion_response * res) {
   }
 
   if (!(res->flags & OR_LENGTH_SET) && !chunked && !no_content
-      && !(res->flags & OR_CONNECTION_UPGRADE))
+      && !(res->flags & OR_CONNECTION_UPGRADE)) {
     onion_response_write(res, CONNECTION_CLOSE, sizeof(CONNECTION_CLOSE) - 1);
+    res->request->flags |= OR_NO_KEEP_ALIVE;
+  }
 
   if (res->flags & OR_CONNECTION_UPGRADE)
     onion_response_write(res, CONNECTION_UPGRADE,
-- 
2.43.0


From f2f80c2fa83520a2bcfb1c9ee947ccb857ac54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 051/153] fix: onion_response_add_cookie wrote past its buffer
 on long cookies, and crashed on far expire dates

---
 src/onion/response.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 1bfc6ca..e5af02c 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -658,7 +658,14 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
                                const char *cookievalue, time_t validity_t,
                                const char *path, const char *domain,
                                int flags) {
-  char data[4096];
+  // Room for all the data and the fixed attributes.
+  const size_t size = strlen(cookiename) + strlen(cookievalue)
+      + (path ? strlen(path) : 0) + (domain ? strlen(domain) : 0) + 256;
+  if (size > 4096 + 256) {
+    ONION_WARNING("Cookie too long to be constructed. Not added to response.");
+    return false;
+  }
+  char data[4096 + 256];
   int pos;
   pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
   if (validity_t == 0)
@@ -666,12 +673,15 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
         snprintf(data + pos, sizeof(data) - pos,
                  "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
-    struct tm *tmp;
+    struct tm tmp;
     time_t t = time(NULL) + validity_t;
-    tmp = localtime(&t);
+    if (localtime_r(&t, &tmp) == NULL) {
+      ONION_WARNING("Cookie validity out of range. Not added to response.");
+      return false;
+    }
     pos +=
         strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+                 "; expires=%a, %d %b %Y %H:%M:%S %Z", &tmp);
   }
   if (path)
     pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
@@ -696,7 +706,7 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     break;
   }
 
-  if (pos >= sizeof(data)) {
+  if (pos >= 4096) {
     ONION_WARNING("Cookie too long to be constructed. Not added to response.");
     return false;
   }
-- 
2.43.0


From 0ccc082da6373b35b3047fa19467921e6ba65866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 052/153] fix: only the last cookie added with
 onion_response_add_cookie was sent

---
 src/onion/response.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index e5af02c..f90188d 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -706,12 +706,17 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     break;
   }
 
+  if (strpbrk(data, "\r\n")) {
+    ONION_WARNING("Cookie with end of lines. Not added to response.");
+    return false;
+  }
   if (pos >= 4096) {
     ONION_WARNING("Cookie too long to be constructed. Not added to response.");
     return false;
   }
 
-  onion_response_set_header(res, "Set-Cookie", data);
+  // Not replace, there may be several cookies.
+  onion_dict_add(res->headers, "Set-Cookie", data, OD_DUP_ALL);
   ONION_DEBUG("Set cookie %s", data);
 
   return true;
-- 
2.43.0


From e33ba1333afc86df439195e3bb15901327f0a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 053/153] fix: OCS_FORBIDDEN from a handler was sent as an
 empty 200 OK

---
 src/onion/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index bbeb21b..d06d5a9 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -579,7 +579,7 @@ onion_connection_status onion_request_process(onion_request * req) {
       onion_handler_handle(req->connection.listen_point->server->root_handler,
                            req, res);
 
-  if (hs == OCS_INTERNAL_ERROR ||
+  if (hs == OCS_INTERNAL_ERROR || hs == OCS_FORBIDDEN ||
       hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
-- 
2.43.0


From d548498ff1acda85f7e4d2ce1b7561cb38d5dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 054/153] fix: content written by a handler that then fails was
 sent as 200 OK with the error page after it, and yielded responses with
 length 0

---
 src/onion/handler.c | 5 +++++
 src/onion/request.c | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 90a353e..4df53c9 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -67,6 +67,11 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
       res = handler->handler(handler->priv_data, request, response);
       ONION_DEBUG0("Result: %d", res);
       if (res) {
+        if (res == OCS_INTERNAL_ERROR || res == OCS_NOT_IMPLEMENTED
+            || res == OCS_FORBIDDEN)    // The error response is written by the server
+          return res;
+        if (res == OCS_YIELD)   // Will be written somewhere else
+          return res;
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
             && response->buffer_pos < sizeof(response->buffer))
diff --git a/src/onion/request.c b/src/onion/request.c
index d06d5a9..00a6e5b 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -581,6 +581,12 @@ onion_connection_status onion_request_process(onion_request * req) {
 
   if (hs == OCS_INTERNAL_ERROR || hs == OCS_FORBIDDEN ||
       hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
+    if (res->flags & OR_HEADER_SENT) {  // Too late to tell, it can only be cut.
+      onion_request_set_no_keep_alive(req);
+      onion_response_free(res);
+      return OCS_CLOSE_CONNECTION;
+    }
+    res->buffer_pos = 0;        // Forget what the handler wrote before the error.
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From 9061e3f7bbe998c34e3f23c5292f0f1c24190459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:49 +0000
Subject: [PATCH 055/153] fix: the end of chunked data was sent even when the
 headers could not be written

---
 src/onion/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index f90188d..c4508c9 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -357,7 +357,8 @@ int onion_response_write_headers(onion_response * res) {
   }
   if (chunked) {
     onion_response_flush(res);
-    res->flags |= OR_CHUNKED;
+    if (!(res->flags & OR_SKIP_CONTENT))        // else could not write
+      res->flags |= OR_CHUNKED;
   }
 
   return 0;
-- 
2.43.0


From 37ce60fac5fa5bf58583ac4c528dfe9185c9a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:16 +0000
Subject: [PATCH 056/153] fix: multipart max_file_size allowed one byte more,
 and counted the boundaries as part of the files [C04]

---
 src/onion/request_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 0e55b96..e22c5b9 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -422,8 +422,10 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
     if (*p == multipart->boundary[multipart->pos]) {
       multipart->pos++;
       if (multipart->pos == multipart->size) {
+        int startpos = multipart->startpos;
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
+        multipart->file_total_size -= multipart->size - 1 - startpos;   // The boundary is not part of the file
 
         int w = write(multipart->fd, tmp, tmppos);
         if (w != tmppos) {
@@ -438,7 +440,8 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
-      if (multipart->file_total_size >
+      // When not checking a boundary, this byte is from the file too
+      if (multipart->file_total_size + (multipart->pos == 0) >
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
-- 
2.43.0


From e456f825a4b6f720556fda13c534bca1544de0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:39 +0000
Subject: [PATCH 057/153] fix: internal redirect freed the memory of the query
 parameters

---
 src/onion/shortcuts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 5e42442..2c698eb 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -46,6 +46,7 @@
 #include "block.h"
 #include "mime.h"
 #include "types_internal.h"
+#include "ptr_list.h"
 #include "low.h"
 
 #ifndef O_CLOEXEC
@@ -133,7 +134,8 @@ onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                                                          onion_request * req,
                                                          onion_response * res) {
   char *fullpath = onion_low_strdup(newurl);    // newurl may be part of the old path
-  onion_low_free(req->fullpath);
+  // The query parameters live at the old path, so it has to stay until the end of the request.
+  req->free_list = onion_ptr_list_add(req->free_list, req->fullpath);
   req->fullpath = req->path = fullpath;
   return onion_handler_handle(req->connection.listen_point->server->
                               root_handler, req, res);
-- 
2.43.0


From 27c1fe350f1b770abbdc50e60ace414d182c9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:12 +0000
Subject: [PATCH 058/153] fix: handlers after a router or path handler that
 declined saw a shortened path [C07]

---
 src/onion/handlers/path.c |  5 ++++-
 src/onion/url.c           | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/path.c b/src/onion/handlers/path.c
index 53e27c0..6b87eaa 100644
--- a/src/onion/handlers/path.c
+++ b/src/onion/handlers/path.c
@@ -54,7 +54,10 @@ int onion_handler_path_handler(onion_handler_path_data * d,
 
   onion_request_advance_path(request, match[0].rm_eo);
 
-  return onion_handler_handle(d->inside, request, response);
+  int ret = onion_handler_handle(d->inside, request, response);
+  if (ret == OCS_NOT_PROCESSED) // Whoever tries next sees the full path again.
+    onion_request_advance_path(request, path - onion_request_get_path(request));
+  return ret;
 }
 
 void onion_handler_path_delete(void *data) {
diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..734ebd4 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -80,7 +80,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
         ONION_DEBUG0("Ok, simple match.");
 
         onion_request_advance_path(request, strlen(next->str));
-        return onion_handler_handle(next->inside, request, response);
+        int ret = onion_handler_handle(next->inside, request, response);
+        if (ret == OCS_NOT_PROCESSED)
+          request->path = (char *)path; // Whoever tries next sees the full path again.
+        return ret;
       }
     } else
         if (regexec
@@ -104,7 +107,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
 
-      return onion_handler_handle(next->inside, request, response);
+      int ret = onion_handler_handle(next->inside, request, response);
+      if (ret == OCS_NOT_PROCESSED)
+        request->path = (char *)path;   // Whoever tries next sees the full path again.
+      return ret;
     }
 
     next = next->next;
-- 
2.43.0


From 75070b0a750af48ef81a6c7a123b0ff500a2fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:12 +0000
Subject: [PATCH 059/153] fix: groups after an optional group that did not
 match were not set [C07]

---
 src/onion/url.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 734ebd4..343fa28 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -101,8 +101,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           snprintf(tmpn, sizeof(tmpn), "%d", i);
           onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
-        } else
-          break;
+        }
       }
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
-- 
2.43.0


From e8d124a0318f8dc3d76c693f8ae7b76101e8ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:12 +0000
Subject: [PATCH 060/153] fix: query parameters named as a route group could
 hide the captured value [C07]

---
 src/onion/url.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/url.c b/src/onion/url.c
index 343fa28..d5de808 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -99,6 +99,8 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           tmp[rm->rm_eo - rm->rm_so] = '\0';    // proper finish string
           char tmpn[4];
           snprintf(tmpn, sizeof(tmpn), "%d", i);
+          // The capture is what the handler gets, not what the client sent with that name.
+          while (onion_dict_remove(reqheader, tmpn)) ;
           onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
         }
-- 
2.43.0


From 699b13fb8e2ca30ad80196e5d452d673a4cc630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:12 +0000
Subject: [PATCH 061/153] fix: removing from a pointer list looped forever or
 leaked the node [C29]

---
 src/onion/ptr_list.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index 4b86b86..59de3b9 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -53,9 +53,13 @@ onion_ptr_list *onion_ptr_list_add(onion_ptr_list * l, void *ptr) {
 onion_ptr_list *onion_ptr_list_remove(onion_ptr_list * l, void *ptr) {
   if (!l)
     return l;
-  if (ptr == l->ptr)
-    return l->next;
-  return onion_ptr_list_remove(l, ptr);
+  if (ptr == l->ptr) {
+    onion_ptr_list *next = l->next;
+    onion_low_free(l);
+    return next;
+  }
+  l->next = onion_ptr_list_remove(l->next, ptr);
+  return l;
 }
 
 /**
@@ -100,7 +104,7 @@ onion_ptr_list *onion_ptr_list_filter(onion_ptr_list * l,
     l->next = next;
     return l;
   } else {
-    free(l);
+    onion_low_free(l);
     return next;
   }
 }
-- 
2.43.0


From 984ec04ba3da0cc518ebce0980c2211307ce7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 062/153] fix: onion_shortcut_rename left an empty or cut
 destination when it could not move between filesystems [C10]

---
 src/onion/shortcuts.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 2c698eb..62a6d1c 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -412,6 +412,12 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
   if (ok != 0 && errno == EXDEV) {      // Ok, old way, open both, copy
     ONION_DEBUG0("Slow cp, as tmp is in another FS");
     ok = 0;
+    struct stat st;
+    if (stat(orig, &st) != 0 || !S_ISREG(st.st_mode)) { // Do not touch the destination
+      ONION_ERROR("Only files can be moved to another filesystem");
+      return 1;
+    }
+    int existed = access(dest, F_OK) == 0;
     int fd_orig = open(orig, O_RDONLY);
     if (fd_orig < 0) {
       ok = 1;
@@ -450,6 +456,8 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
       close(fd_orig);
     if (fd_dest >= 0 && close(fd_dest) != 0)
       ok = 1;
+    if (ok != 0 && fd_dest >= 0 && !existed)    // Do not leave half a file.
+      unlink(dest);
     if (ok == 0)                // Keep the original if it could not be copied.
       unlink(orig);
   }
-- 
2.43.0


From eb67c7e73a4ef18e37b1148ddcdc58d630512736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 063/153] fix: exporting a directory gave access to siblings
 whose name starts the same [C08]

---
 src/onion/handlers/exportlocal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..387654e 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -89,7 +89,11 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  size_t base_length = strlen(d->localpath);
+  if (base_length == 1)         // Root directory, everything is inside
+    base_length = 0;
+  if (!ret || strncmp(realp, d->localpath, base_length) != 0
+      || (realp[base_length] != '\0' && realp[base_length] != '/')) {   // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
          d->localpath, realp);
-- 
2.43.0


From 41c22767c61599b227550df80e92827f9d2cac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 064/153] fix: directory listings used uninitialized data for
 broken links [C08]

---
 src/onion/handlers/exportlocal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 387654e..2a6ebc1 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -188,13 +188,14 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
 
   struct dirent *fi;
   struct stat st;
-  char temp[1024];
+  char temp[PATH_MAX];
   struct passwd *pwd;
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
     snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
-    stat(temp, &st);
+    if (stat(temp, &st) != 0 && lstat(temp, &st) != 0)  // Maybe a link to nowhere
+      continue;
     pwd = getpwuid(st.st_uid);
 
     if (S_ISDIR(st.st_mode))
-- 
2.43.0


From 2d1ea62b079f68e6f55bb7afaba993cc91f66e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 065/153] fix: file names were not quoted at directory listings
 [C08]

---
 src/onion/handlers/exportlocal.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 2a6ebc1..b8c07d6 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -37,6 +37,7 @@
 #include <onion/handler.h>
 #include <onion/response.h>
 #include <onion/codecs.h>
+#include <onion/block.h>
 #include <onion/log.h>
 #include <onion/low.h>
 
@@ -123,7 +124,9 @@ void onion_handler_export_local_header_default(onion_response * res,
                         " table a{ display: block; } th{ cursor: pointer} h1,h2{ color: black; text-align: center; } \n"
                         " a{ color: red; text-decoration: none; }</style>\n");
 
-  onion_response_printf(res, "<h1>Listing of directory %s</h1>\n", dirname);
+  onion_response_write0(res, "<h1>Listing of directory ");
+  onion_response_write_html_safe(res, dirname);
+  onion_response_write0(res, "</h1>\n");
 
   if (dirname[0] != '\0' && dirname[1] != '\0') // It will be 0, when showpath is "/"
     onion_response_write0(res, "<h2><a href=\"..\">Go up..</a></h2>\n");
@@ -136,6 +139,19 @@ void onion_handler_export_local_footer_default(onion_response * res,
                         "Under <a href=\"http://www.gnu.org/licenses/lgpl-3.0.html\">LGPL 3.0.</a> License.</h2>\n");
 }
 
+/**
+ * @short Writes a file name at a javascript string which will be used as HTML
+ */
+static void onion_handler_export_local_write_name(onion_response * res,
+                                                  const char *name) {
+  onion_block *block = onion_block_new();
+  char *quoted = onion_html_quote(name);        // No quotes left
+  onion_json_quote_add(block, quoted ? quoted : name);  // Nor backslashes nor new lines
+  onion_response_write(res, onion_block_data(block), onion_block_size(block));
+  onion_low_free(quoted);
+  onion_block_free(block);
+}
+
 /**
  * @short Returns the directory listing
  */
@@ -153,8 +169,9 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
                         "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n"
                         "<html>\n"
                         " <head><meta content=\"text/html; charset=UTF-8\" http-equiv=\"content-type\"/>\n");
-  onion_response_printf(res, "<title>Directory listing of %s</title>\n",
-                        showpath);
+  onion_response_write0(res, "<title>Directory listing of ");
+  onion_response_write_html_safe(res, showpath);
+  onion_response_write0(res, "</title>\n");
   onion_response_write0(res,
                         "</head>\n" " <body>\n" "<script>\n"
                         "showListing = function(){\n"
@@ -198,11 +215,13 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
       continue;
     pwd = getpwuid(st.st_uid);
 
+    onion_response_write0(res, "  ['");
+    onion_handler_export_local_write_name(res, fi->d_name);
     if (S_ISDIR(st.st_mode))
-      onion_response_printf(res, "  ['%s/',%ld,'%s','dir'],\n", fi->d_name,
+      onion_response_printf(res, "/',%ld,'%s','dir'],\n",
                             st.st_size, pwd ? pwd->pw_name : "???");
     else
-      onion_response_printf(res, "  ['%s',%ld,'%s','file'],\n", fi->d_name,
+      onion_response_printf(res, "',%ld,'%s','file'],\n",
                             st.st_size, pwd ? pwd->pw_name : "???");
   }
 
-- 
2.43.0


From 6e2cf289e3b40323a3b17336c63a7cc84080f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:57 +0000
Subject: [PATCH 066/153] fix: SQLite sessions kept the database locked after
 each access [C15]

---
 src/onion/sessions_sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..94b9126 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -93,6 +93,7 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
     ONION_ERROR("Invalid session data");
   }
  exit:
+  sqlite3_reset(p->get);        // Release the database lock
 #ifdef HAVE_PTHREADS
   pthread_mutex_unlock(&p->mutex);
 #endif
@@ -131,6 +132,7 @@ void onion_sessions_sqlite3_save(onion_sessions * sessions,
 
   ONION_DEBUG0("Session saved");
  error:
+  sqlite3_reset(p->save);       // Release the database lock
   onion_block_free(bl);
 #ifdef HAVE_PTHREADS
   pthread_mutex_unlock(&p->mutex);
-- 
2.43.0


From 675a7ea653b21b3b06fdba5de5edc9e3caef5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:57 +0000
Subject: [PATCH 067/153] fix: removed SQLite sessions were kept as empty ones
 [C15]

---
 src/onion/sessions_sqlite3.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index 94b9126..bfebb52 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->remove);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -101,8 +103,28 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
   return ret;
 }
 
+static void onion_sessions_sqlite3_remove(onion_sessions * sessions,
+                                          const char *session_id) {
+  onion_session_sqlite3 *p = sessions->data;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  sqlite3_reset(p->remove);
+  if (sqlite3_bind_text(p->remove, 1, session_id, -1, SQLITE_STATIC) !=
+      SQLITE_OK || sqlite3_step(p->remove) != SQLITE_DONE)
+    ONION_ERROR("Error removing session");
+  sqlite3_reset(p->remove);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  if (!data) {
+    onion_sessions_sqlite3_remove(sessions, session_id);
+    return;
+  }
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
@@ -153,6 +175,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
   rc = sqlite3_open(database_filename, &db);
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
@@ -176,6 +199,17 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   rc = sqlite3_prepare_v2(db, SAVE_SQL, strlen(SAVE_SQL), &save, NULL);
   if (rc != SQLITE_OK) {
     ONION_ERROR("Cant prepare statement to save (%d)", rc);
+    sqlite3_finalize(get);
+    sqlite3_close(db);
+    return NULL;
+  }
+
+  const char *REMOVE_SQL = "DELETE FROM sessions WHERE id=?";
+  rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_finalize(get);
+    sqlite3_finalize(save);
     sqlite3_close(db);
     return NULL;
   }
@@ -191,6 +225,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->remove = remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From cdac1eca560809173e3bba0809264e07f7aba304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:57 +0000
Subject: [PATCH 068/153] fix: sessions_mem.h and sessions_sqlite3.h could not
 be included together [C15]

---
 src/onion/sessions_mem.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/sessions_mem.h b/src/onion/sessions_mem.h
index 30b7a7c..0677235 100644
--- a/src/onion/sessions_mem.h
+++ b/src/onion/sessions_mem.h
@@ -21,8 +21,8 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
-#ifndef ONION_SESSIONS_SQLITE3_H
-#define ONION_SESSIONS_SQLITE3_H
+#ifndef ONION_SESSIONS_MEM_H
+#define ONION_SESSIONS_MEM_H
 
 #ifdef __cplusplus
 extern "C" {
-- 
2.43.0


From 8cec1d1dfdfbc33a2338f092521c2737d6067a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 069/153] fix: websocket ping and pong opcodes were not the
 ones of the specification [C16]

---
 src/onion/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/types.h b/src/onion/types.h
index 5ef24be..d86ced9 100644
--- a/src/onion/types.h
+++ b/src/onion/types.h
@@ -273,8 +273,8 @@ extern "C" {
     OWS_TEXT = 1,
     OWS_BINARY = 2,
     OWS_CONNECTION_CLOSE = 8,
-    OWS_PING = 0x0a,
-    OWS_PONG = 0x0b
+    OWS_PING = 0x09,
+    OWS_PONG = 0x0a
   };
 
   typedef enum onion_websocket_opcode_e onion_websocket_opcode;
-- 
2.43.0


From 011dac91d3e0b2acd711e9464068b984d6f175a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 070/153] fix: websocket subprotocol was answered in a
 misspelled header [C16]

---
 src/onion/websocket.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 89499c9..775b06b 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -120,8 +120,12 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_CONNECTION_UPGRADE;
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
-  if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+  if (ws_protocol) {            // May be a list, only one can be selected.
+    char *protocol = onion_low_strdup(ws_protocol);
+    protocol[strcspn(protocol, ", \t")] = '\0';
+    onion_response_set_header(res, "Sec-Websocket-Protocol", protocol);
+    onion_low_free(protocol);
+  }
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
-- 
2.43.0


From 2e71e1e8951a6cae26e79b7bf913831157d47817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 071/153] fix: websocket pongs were given to the application as
 data [C16]

---
 src/onion/websocket.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 775b06b..52247f5 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -527,6 +527,18 @@ next_packet:
       return OCS_CLOSE_CONNECTION;
     goto next_packet;
   }
+  if (ws->opcode == OWS_PONG) { // Not data, nothing to do with it.
+    char data[125];             // Maximum for control packets
+    int length = ws->data_left;
+    if (ws->data_left > sizeof(data)) {
+      ONION_ERROR("Websocket pong is too long");
+      return OCS_CLOSE_CONNECTION;
+    }
+    if (onion_websocket_read_payload(ws, lpreader, data, length) != length)
+      return OCS_CLOSE_CONNECTION;
+    onion_websocket_set_opcode(ws, last_opcode);
+    goto next_packet;
+  }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
     if (ws->data_left < 2) {    // No status code
       onion_websocket_write(ws, "", 0);
-- 
2.43.0


From 3b4769a9dbe90735394c9d98d76024b24c803ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 072/153] fix: websocket could be read and written after its
 close frame [C16]

---
 src/onion/websocket.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 52247f5..f6c9489 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -43,6 +43,8 @@
 enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
+  WS_CLOSE_SENT = 4,
+  WS_CLOSE_RECEIVED = 8,
 };
 
 // signature of writer in listen point.
@@ -200,6 +202,10 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     ONION_DEBUG("no request in websocket@%p", ws);
     return -1;
   }
+  if (ws->flags & WS_CLOSE_SENT) {
+    ONION_DEBUG("websocket@%p is already closed", ws);
+    return -1;
+  }
   lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
   ssize_t len = _len;           // I need it signed here
   if (!lpwriter) {
@@ -268,6 +274,8 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return -1;
   }
+  if (ws->flags & WS_CLOSE_RECEIVED)
+    return OCS_CLOSE_CONNECTION;
   if (len == 0)                 // Do not wait for the next packet if nothing is needed.
     return 0;
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
@@ -469,7 +477,7 @@ next_packet:
   }
 
   onion_websocket_opcode last_opcode = ws->opcode;
-  ws->flags = 0;
+  ws->flags &= ~(WS_FIN | WS_MASK);
   if (tmp[0] & 0x80)
     ws->flags |= WS_FIN;
   if (tmp[1] & 0x80)
@@ -540,8 +548,10 @@ next_packet:
     goto next_packet;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
+    ws->flags |= WS_CLOSE_RECEIVED;
     if (ws->data_left < 2) {    // No status code
       onion_websocket_write(ws, "", 0);
+      ws->flags |= WS_CLOSE_SENT;
       return OCS_CLOSE_CONNECTION;
     }
     char status[2];
@@ -611,6 +621,7 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
 void onion_websocket_close(onion_websocket * ws, const char *status) {
   onion_websocket_set_opcode(ws, OWS_CONNECTION_CLOSE);
   onion_websocket_write(ws, status, 2);
+  ws->flags |= WS_CLOSE_SENT;
 }
 
 /**
-- 
2.43.0


From df2afeeccc62cc7e1f368398801af1a547871047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 073/153] fix: error pages were sent with the length set by the
 failed handler [C26]

---
 src/onion/request.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00a6e5b..66f949b 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -587,6 +587,11 @@ onion_connection_status onion_request_process(onion_request * req) {
       return OCS_CLOSE_CONNECTION;
     }
     res->buffer_pos = 0;        // Forget what the handler wrote before the error.
+    if (res->flags & OR_LENGTH_SET) {   // and its length, the error page has another.
+      res->flags &= ~OR_LENGTH_SET;
+      res->length = 0;
+      onion_dict_remove(res->headers, "Content-Length");
+    }
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From aa5aa8dde341fb6bd43e287fba6fcbaad0f1f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 074/153] fix: connection was kept open when the error handler
 did not answer [C26]

---
 src/onion/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 66f949b..9faecdc 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -617,7 +617,7 @@ onion_connection_status onion_request_process(onion_request * req) {
   int rs = onion_response_free(res);
   if (hs >= 0 && rs == OCS_KEEP_ALIVE)  // if keep alive, reset struct to get the new request.
     onion_request_clean(req);
-  return hs > 0 ? rs : hs;
+  return hs >= 0 ? rs : hs;
 }
 
 /**
-- 
2.43.0


From ab2595b4435df8db21fa69bbecb2b27c9beadc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:27 +0000
Subject: [PATCH 075/153] fix: pages of the application error handler were sent
 with code 200 [C26]

---
 src/onion/request.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 9faecdc..ec65ddd 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -592,14 +592,23 @@ onion_connection_status onion_request_process(onion_request * req) {
       res->length = 0;
       onion_dict_remove(res->headers, "Content-Length");
     }
-    if (hs == OCS_INTERNAL_ERROR)
+    // The error handler may change the code
+    if (hs == OCS_INTERNAL_ERROR) {
       req->flags |= OR_INTERNAL_ERROR;
-    if (hs == OCS_NOT_IMPLEMENTED)
+      onion_response_set_code(res, HTTP_INTERNAL_ERROR);
+    }
+    if (hs == OCS_NOT_IMPLEMENTED) {
       req->flags |= OR_NOT_IMPLEMENTED;
-    if (hs == OCS_NOT_PROCESSED)
+      onion_response_set_code(res, HTTP_NOT_IMPLEMENTED);
+    }
+    if (hs == OCS_NOT_PROCESSED) {
       req->flags |= OR_NOT_FOUND;
-    if (hs == OCS_FORBIDDEN)
+      onion_response_set_code(res, HTTP_NOT_FOUND);
+    }
+    if (hs == OCS_FORBIDDEN) {
       req->flags |= OR_FORBIDDEN;
+      onion_response_set_code(res, HTTP_FORBIDDEN);
+    }
 
     hs = onion_handler_handle(req->connection.listen_point->server->
                               internal_error_handler, req, res);
-- 
2.43.0


From 7f6cbd736aa5deaf673125fefa13d1faaa9bbef4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 00:26:11 +0000
Subject: [PATCH 076/153] fix: poller timeouts set in the second of the last
 timer tick were lost [C18]

---
 src/onion/poller.c | 58 ++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 39d5678..d02d057 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -239,16 +239,14 @@ static int onion_poller_stop_helper(void *p) {
   return 1;
 }
 
-static time_t onion_poller_last_time = 0;
-
 static int onion_poller_timer(void *p_);
 
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
-  // If maybe timeout limit (p->current_timeout_limit is used atomically)
-  if (timelimit < p->current_timeout_limit) {
-    // Recalculate with proper mutexes.
+  // Must be woken up before what is currently set
+  pthread_mutex_lock(&p->mutex);
+  if (timelimit < p->current_timeout_limit)
     onion_poller_timer(p);
-  }
+  pthread_mutex_unlock(&p->mutex);
 }
 
 static int onion_poller_timer(void *p_) {
@@ -263,43 +261,27 @@ static int onion_poller_timer(void *p_) {
   time_t ctime = onion_time();
   time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
 
-  // Do this only once per second max.
-  if (ctime != onion_poller_last_time) {
-    onion_poller_last_time = ctime;
-    pthread_mutex_lock(&p->mutex);
-    onion_poller_slot *next = p->head;
-    while (next) {
-      onion_poller_slot *cur = next;
-      next = next->next;
-      if (cur->timeout_limit <= ctime) {
-        ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
-                    cur->timeout_limit, ctime);
-        cur->timeout_limit = INT_MAX;
-        shutdown(cur->fd, SHUT_RD);
-      } else if (cur->timeout_limit < next_timeout) {
-        next_timeout = cur->timeout_limit;
-      }
+  pthread_mutex_lock(&p->mutex);
+  onion_poller_slot *next = p->head;
+  while (next) {
+    onion_poller_slot *cur = next;
+    next = next->next;
+    if (cur->timeout_limit <= ctime) {
+      ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
+                  cur->timeout_limit, ctime);
+      cur->timeout_limit = INT_MAX;
+      shutdown(cur->fd, SHUT_RD);
+    } else if (cur->timeout_limit < next_timeout) {
+      next_timeout = cur->timeout_limit;
     }
-    pthread_mutex_unlock(&p->mutex);
   }
-  // Atomic store.
-  // Try until set if <= next_timeout.
-  time_t origval;
-  time_t oldval;
-  do {                          // Spin until change is acceptable.
-    origval = p->current_timeout_limit;
-    oldval =
-        __sync_val_compare_and_swap(&p->current_timeout_limit, origval,
-                                    next_timeout);
-  } while (                     // Repeat if
-            origval != oldval   // different, so not changed because somebody else changed the value
-            && oldval > next_timeout    // and current timer is for later than my timeout
-      );                        // Ths is when another thread changed if for a later timeout, so I must insist on mine
+  p->current_timeout_limit = next_timeout;
 
   //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
   // rearm
-  struct itimerspec next = { {0, 0}, {next_timeout - ctime, 0} };
-  timerfd_settime(p->timerfd, 0, &next, NULL);
+  struct itimerspec next_time = { {0, 0}, {next_timeout - ctime, 0} };
+  timerfd_settime(p->timerfd, 0, &next_time, NULL);
+  pthread_mutex_unlock(&p->mutex);
 
   return 1;
 }
-- 
2.43.0


From 2fd729da95490d19e0d4cca5b6f1b20db030ec80 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 00:26:11 +0000
Subject: [PATCH 077/153] fix: poller timeouts were cut before time, and
 negative ones were not forever [C18]

---
 src/onion/poller.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index d02d057..18811b9 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -215,7 +215,12 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
  * @param timeout Time in milliseconds that this file can be waiting.
  */
 void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout) {
-  el->timeout = timeout / 1000; // I dont have that resolution.
+  if (timeout < 0) {            // No timeout
+    el->timeout = -1;
+    el->timeout_limit = INT_MAX;
+    return;
+  }
+  el->timeout = (timeout + 999LL) / 1000;       // I dont have that resolution.
   el->timeout_limit = onion_time() + el->timeout;
   ONION_DEBUG0("Set timeout to %d, %d s", el->timeout_limit, el->timeout);
 }
-- 
2.43.0


From d75402aaeefbeedd59224de0e912d7fa49e7a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 078/153] fix: failures to listen at an address leaked it, or
 were not noticed [C28]

---
 src/onion/listen_point.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index bbcfd73..6c0a173 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -199,7 +199,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
   if (getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result)
       != 0) {
     ONION_ERROR("Error getting local address and port: %s", strerror(errno));
-    return errno;
+    return errno ? errno : EADDRNOTAVAIL;
   }
 
   int optval = 1;
@@ -222,7 +222,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
         0) {
       ONION_ERROR("Could not set socket options: %s", strerror(errno));
     }
-    if (bind(sockfd, rp->ai_addr, rp->ai_addrlen) == 0)
+    if (bind(sockfd, rp->ai_addr, rp->ai_addrlen) == 0 && listen(sockfd, 5) == 0)       // queue of only 5.
       break;                    // Success
     else {
       ONION_ERROR("Could not bind to socket: %s", strerror(errno));
@@ -231,7 +231,8 @@ int onion_listen_point_listen(onion_listen_point * op) {
   }
   if (rp == NULL) {
     ONION_ERROR("Could not find any suitable address to bind to.");
-    return errno;
+    freeaddrinfo(result);
+    return errno ? errno : EADDRNOTAVAIL;
   }
 #ifdef __DEBUG__
   char address[64];
@@ -240,7 +241,6 @@ int onion_listen_point_listen(onion_listen_point * op) {
   ONION_DEBUG("Listening to %s:%s, fd %d", address, &address[32], sockfd);
 #endif
   freeaddrinfo(result);
-  listen(sockfd, 5);            // queue of only 5.
 
   op->listenfd = sockfd;
   return 0;
-- 
2.43.0


From 374ada59c4efa65171d67224fe6b1355971752ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 079/153] fix: connections that could not be polled were leaked
 [C28]

---
 src/onion/listen_point.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 6c0a173..7a3d618 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -111,8 +111,10 @@ int onion_listen_point_accept(onion_listen_point * op) {
                                                       (void *)
                                                       onion_listen_point_read_ready,
                                                       req);
-      if (!slot)
+      if (!slot) {
+        onion_request_free(req);
         return 1;
+      }
       onion_poller_slot_set_timeout(slot,
                                     req->connection.listen_point->server->
                                     timeout);
-- 
2.43.0


From c82dcc308499be2df54b1cf6116b459a46d08b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 080/153] fix: onion_get_listen_point read after the end of the
 list [C28]

---
 src/onion/onion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 279fd18..0c2b068 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -670,7 +670,7 @@ int onion_add_listen_point(onion * server, const char *hostname,
  */
 onion_listen_point *onion_get_listen_point(onion * server, int nlisten_point) {
   onion_listen_point **next = server->listen_points;
-  while (next) {                // I have to go one by one, as NULL is the stop marker.
+  while (next && *next) {       // I have to go one by one, as NULL is the stop marker.
     if (nlisten_point == 0)
       return *next;
     nlisten_point--;
-- 
2.43.0


From 4b326cdd967d9bc6a754a03fb7b33029bc46de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 081/153] fix: replaced default error handler and user name
 were leaked [C28]

---
 src/onion/onion.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 0c2b068..bb88392 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -611,6 +611,10 @@ onion_handler *onion_get_root_handler(onion * server) {
  * @ingroup onion
  */
 void onion_set_internal_error_handler(onion * server, onion_handler * handler) {
+  if (server->internal_error_handler && server->internal_error_handler != handler
+      && server->internal_error_handler->handler ==
+      (onion_handler_handler) onion_default_error)
+    onion_handler_free(server->internal_error_handler);
   server->internal_error_handler = handler;
 }
 
@@ -725,6 +729,8 @@ int onion_flags(onion * onion) {
  * but the proper way should be use capabilities and/or SELinux.
  */
 void onion_set_user(onion * server, const char *username) {
+  if (server->username)
+    onion_low_free(server->username);
   server->username = onion_low_strdup(username);
 }
 
-- 
2.43.0


From a769a9d219736ff15b64397135a45d037b2050aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 082/153] fix: a stopped poller stopped again as soon as it was
 polled again [C28]

---
 src/onion/poller.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 18811b9..2085ecd 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -573,6 +573,10 @@ void onion_poller_poll(onion_poller * p) {
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
   p->npollers--;
+  if (p->npollers == 0) {       // Nobody else to tell to stop. Do not stop the next poll.
+    char data[8];
+    int __attribute__ ((unused)) r = read(p->eventfd, data, 8);
+  }
   ONION_DEBUG0("Npollers %d", p->npollers);
   pthread_mutex_unlock(&p->mutex);
 #endif
-- 
2.43.0


From 515085689efe6b381317c97fc03f951c8100656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:05 +0000
Subject: [PATCH 083/153] fix: stopping while starting or listening again lost
 the stop order, blocked, or used closed descriptors [C28]

---
 src/onion/onion.c          | 222 +++++++++++++++++++++++++------------
 src/onion/types_internal.h |   1 +
 2 files changed, 155 insertions(+), 68 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index bb88392..59ce340 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -151,6 +151,9 @@ onion_url_add_url(url, ...); // Nesting
 
 //#define HAVE_PTHREADS
 #ifdef HAVE_PTHREADS
+#include <unistd.h>
+#include <fcntl.h>
+#include <sys/socket.h>
 #include <pthread.h>
 #endif
 
@@ -259,8 +262,7 @@ onion *onion_new(int flags) {
 void onion_free(onion * onion) {
   ONION_DEBUG("Onion free");
 
-  if (onion->flags & O_LISTENING)
-    onion_listen_stop(onion);
+  onion_listen_stop(onion);
 
   if (onion->poller)
     onion_poller_free(onion->poller);
@@ -344,6 +346,11 @@ void *onion_client_data(onion * server) {
 // This marks if called more than once. but has to be cleaned after it worked,
 // for using onion_listen several times in the same program
 static bool shutdown_server_first_call = true;
+
+static int onion_listen_open(onion * o);
+static void onion_listen_close(onion * o);
+static void onion_listen_serve(onion * o);
+
 static void shutdown_server(int _) {
   if (shutdown_server_first_call) {
     if (last_onion) {
@@ -383,7 +390,7 @@ static void *onion_listen_start(void *data) {
   }
 #endif /*__USE_GNU */
 #endif /*__DEBUG__*/
-  onion_listen(o);
+  onion_listen_serve(o);
   return NULL;
 }
 
@@ -440,15 +447,49 @@ long onion_count_poller_threads(void) {
  * @returns !=0 if there is any error. It returns actualy errno from the network operations. See socket for more information.
  */
 int onion_listen(onion * o) {
+  int error = onion_listen_open(o);
+  if (error)
+    return error;
 #ifdef HAVE_PTHREADS
-  if (!(o->flags & O_DETACHED) && (o->flags & O_DETACH_LISTEN)) {       // Must detach and return
+  if (o->flags & O_DETACH_LISTEN) {     // Must detach and return
+    pthread_mutex_lock(&o->mutex);
     o->flags |= O_DETACHED;
-    int errcode =
+    error =
         onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
                                  o);
-    if (errcode != 0)
-      return errcode;
-    return 0;
+    if (error != 0)
+      o->flags &= ~O_DETACHED;
+    pthread_mutex_unlock(&o->mutex);
+    if (error != 0)
+      onion_listen_close(o);
+    return error;
+  }
+#endif
+  onion_listen_serve(o);
+  return 0;
+}
+
+/// Just asks the poller to stop. Not read, so it is also called by the threads that did not start yet to poll.
+static int onion_listen_stop_poller(void *poller) {
+  onion_poller_stop(poller);
+  return 1;
+}
+
+/// Opens all the listen points. From here on clients can connect, and it can be stopped. Returns !=0 on error.
+static int onion_listen_open(onion * o) {
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&o->mutex);
+  int already_listening = o->flags & O_LISTENING;
+  pthread_mutex_unlock(&o->mutex);
+  if (already_listening) {
+    ONION_ERROR("Already listening");
+    return EALREADY;
+  }
+  onion_listen_stop(o);         // Maybe there is a finished listen thread.
+#else
+  if (o->flags & O_LISTENING) {
+    ONION_ERROR("Already listening");
+    return EALREADY;
   }
 #endif
 
@@ -456,6 +497,11 @@ int onion_listen(onion * o) {
     onion_add_listen_point(o, NULL, NULL, onion_http_new());
     ONION_DEBUG("Created default HTTP listen port");
   }
+
+  if (!(o->flags & O_ONE) && pipe(o->stopfd) < 0) {
+    ONION_ERROR("Could not create the stop pipe: %s", strerror(errno));
+    return errno;
+  }
   /// Start listening
   size_t successful_listened_points = 0;
   onion_listen_point **lp = o->listen_points;
@@ -465,21 +511,82 @@ int onion_listen(onion * o) {
       successful_listened_points++;
     }
     lp++;
+    if ((o->flags & O_ONE) && *lp) {
+      ONION_WARNING
+          ("Trying to use non-poll and non-thread mode with several listen points. Only the first will be listened");
+      break;
+    }
   }
   if (!successful_listened_points) {
     ONION_ERROR("There are no available listen points");
+    onion_listen_close(o);
     return 1;
   }
 
+  if (!(o->flags & O_ONE)) {
+    int i;
+    for (i = 0; i < 2; i++)
+      fcntl(o->stopfd[i], F_SETFD, FD_CLOEXEC);
+    onion_poller_add(o->poller,
+                     onion_poller_slot_new(o->stopfd[0],
+                                           onion_listen_stop_poller,
+                                           o->poller));
+    for (lp = o->listen_points; *lp; lp++) {
+      onion_listen_point *p = *lp;
+      if (p->listenfd < 0)      // Could not listen there
+        continue;
+      ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
+      onion_poller_slot *slot =
+          onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
+                                p);
+      if (!slot)
+        continue;
+      onion_poller_slot_set_type(slot, O_POLL_ALL);
+      onion_poller_add(o->poller, slot);
+    }
+  }
+
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&o->mutex);
   o->flags |= O_LISTENING;
+  pthread_mutex_unlock(&o->mutex);
+#else
+  o->flags |= O_LISTENING;
+#endif
+  return 0;
+}
 
-  if (o->flags & O_ONE) {
-    onion_listen_point **listen_points = o->listen_points;
-    if (listen_points[1] != NULL) {
-      ONION_WARNING
-          ("Trying to use non-poll and non-thread mode with several listen points. Only the first will be listened");
+/// Closes all the listen points, nobody is using them anymore.
+static void onion_listen_close(onion * o) {
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&o->mutex);
+#endif
+  onion_listen_point **lp;
+  for (lp = o->listen_points; *lp; lp++) {
+    onion_listen_point *p = *lp;
+    if (p->listenfd >= 0 && onion_poller_get(o->poller, p->listenfd)) {
+      ONION_DEBUG("Removing %d from poller", p->listenfd);
+      onion_poller_remove(o->poller, p->listenfd);
     }
-    onion_listen_point *op = listen_points[0];
+    onion_listen_point_listen_stop(p);
+  }
+  if (!(o->flags & O_ONE)) {
+    if (onion_poller_get(o->poller, o->stopfd[0]))
+      onion_poller_remove(o->poller, o->stopfd[0]);
+    close(o->stopfd[0]);
+    close(o->stopfd[1]);
+  }
+  o->flags &= ~O_LISTENING;
+  shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&o->mutex);
+#endif
+}
+
+/// Attends the clients until told to stop
+static void onion_listen_serve(onion * o) {
+  if (o->flags & O_ONE) {
+    onion_listen_point *op = o->listen_points[0];
     do {
       onion_request *req = onion_request_new(op);
       if (!req)
@@ -495,54 +602,34 @@ int onion_listen(onion * o) {
       //req->connection.listen_point->close(req);
     } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd > 0);
   } else {
-    onion_listen_point **listen_points = o->listen_points;
-    while (*listen_points) {
-      onion_listen_point *p = *listen_points;
-      ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
-      onion_poller_slot *slot =
-          onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
-                                p);
-      onion_poller_slot_set_type(slot, O_POLL_ALL);
-      onion_poller_add(o->poller, slot);
-      listen_points++;
-    }
-
 #ifdef HAVE_PTHREADS
     ONION_DEBUG("Start polling / listening %p, %p, %p", o->listen_points,
                 *o->listen_points, *(o->listen_points + 1));
-    if (o->flags & O_THREADED) {
-      o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
+    if ((o->flags & O_THREADED) && o->nthreads > 1) {
+      o->threads = onion_low_malloc(sizeof(pthread_t) * o->nthreads);
       int i;
+      int nthreads = 0;
       for (i = 0; i < o->nthreads - 1; i++) {
-        onion_low_pthread_create(&o->threads[i], NULL, onion_poller_poll_start,
-                                 o->poller);
+        if (onion_low_pthread_create
+            (&o->threads[nthreads], NULL, onion_poller_poll_start,
+             o->poller) == 0)
+          nthreads++;
       }
 
       // Here is where it waits.. but eventually it will exit at onion_listen_stop
       onion_poller_poll(o->poller);
       ONION_DEBUG("Closing onion_listen");
 
-      for (i = 0; i < o->nthreads - 1; i++) {
+      for (i = 0; i < nthreads; i++) {
         onion_low_pthread_join(o->threads[i], NULL);
       }
+      onion_low_free(o->threads);
+      o->threads = NULL;
     } else
 #endif
       onion_poller_poll(o->poller);
-
-    listen_points = o->listen_points;
-    while (*listen_points) {
-      onion_listen_point *p = *listen_points;
-      if (p->listenfd > 0) {
-        ONION_DEBUG("Removing %d from poller", p->listenfd);
-        onion_poller_remove(o->poller, p->listenfd);
-      }
-      listen_points++;
-    }
   }
-
-  o->flags = o->flags & ~O_LISTENING;
-  shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
-  return 0;
+  onion_listen_close(o);
 }
 
 /**
@@ -555,33 +642,32 @@ int onion_listen(onion * o) {
  */
 void onion_listen_stop(onion * server) {
 #ifdef HAVE_PTHREADS
-    pthread_mutex_lock(&server->mutex);
-  /// Not listening
-    if ((server->flags & O_LISTENING) == 0) {
-      pthread_mutex_unlock(&server->mutex);
-    return;
+  pthread_mutex_lock(&server->mutex);
+#endif
+  if (server->flags & O_LISTENING) {
+    /// Stop listening
+    onion_listen_point **lp = server->listen_points;
+    while (*lp) {
+      if (server->flags & O_ONE)        // May be waiting there.
+        onion_listen_point_listen_stop(*lp);
+      else if ((*lp)->listenfd >= 0)    // No more connections, closed when not in use.
+        shutdown((*lp)->listenfd, SHUT_RDWR);
+      lp++;
+    }
+    if (!(server->flags & O_ONE)) {
+      ONION_DEBUG("Stop listening");
+      if (write(server->stopfd[1], "", 1) < 0) {
+        ONION_ERROR("Error signaling to stop listening: %s", strerror(errno));
+      }
     }
-#else /*no pthreads*/
-  /// Not listening
-  if ((server->flags & O_LISTENING) == 0)
-    return;
-#endif /*HAVE_PTHREADS*/
-
-  /// Stop listening
-  onion_listen_point **lp = server->listen_points;
-  while (*lp) {
-    onion_listen_point_listen_stop(*lp);
-    lp++;
-  }
-  if (server->poller) {
-    ONION_DEBUG("Stop listening");
-    onion_poller_stop(server->poller);
   }
 #ifdef HAVE_PTHREADS
-  if (server->flags & O_DETACHED)
+  int detached = server->flags & O_DETACHED;
+  server->flags &= ~O_DETACHED;
+  pthread_mutex_unlock(&server->mutex);
+  if (detached)
     onion_low_pthread_join(server->listen_thread, NULL);
-  pthread_mutex_unlock (&server->mutex);
-#endif	/* end HAVE_PTHREADS */
+#endif
 }
 
 /**
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 994333e..0b4fa5d 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -60,6 +60,7 @@ extern "C" {
   struct onion_t {
     int flags;
     int timeout;                ///< Timeout in milliseconds
+    int stopfd[2];              ///< Pipe with data when it has to stop listening. Only in poll modes.
     char *username;
     onion_poller *poller;
     onion_listen_point **listen_points; ///< List of listen_point. Everytime a new listen point adds, 
-- 
2.43.0


From e22d2789a00ac8b774fd2f21fe6183ba1a43b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:28 +0000
Subject: [PATCH 084/153] fix: stopping a detached server from one of its
 handlers blocked forever [C28]

---
 src/onion/onion.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 59ce340..4043f6d 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -369,8 +369,11 @@ static void shutdown_server(int _) {
 static pthread_mutex_t count_mtx;
 static long listen_counter;
 static long poller_counter;
+static __thread onion_poller *own_poller = NULL;        ///< On the threads of a server, its poller
+
 static void *onion_listen_start(void *data) {
   onion *o = data;
+  own_poller = o->poller;
   pthread_mutex_lock(&count_mtx);
   listen_counter++;
 #ifdef __DEBUG__
@@ -404,6 +407,7 @@ long onion_count_listen_threads(void) {
 
 static void *onion_poller_poll_start(void *data) {
   onion_poller *poller = data;
+  own_poller = poller;
   pthread_mutex_lock(&count_mtx);
   poller_counter++;
 #ifdef __DEBUG__
@@ -663,7 +667,10 @@ void onion_listen_stop(onion * server) {
   }
 #ifdef HAVE_PTHREADS
   int detached = server->flags & O_DETACHED;
-  server->flags &= ~O_DETACHED;
+  if (own_poller == server->poller)     // It can not wait for itself
+    detached = 0;
+  if (detached)
+    server->flags &= ~O_DETACHED;
   pthread_mutex_unlock(&server->mutex);
   if (detached)
     onion_low_pthread_join(server->listen_thread, NULL);
-- 
2.43.0


From 5b7499e2fdf3a37623d9950811658adf9b479d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:57 +0000
Subject: [PATCH 085/153] fix: slots of the poller were used by several threads
 without its lock [C23]

---
 src/onion/poller.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 2085ecd..b141d9e 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -397,6 +397,8 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
     poller->head->next = el;
     poller->n++;
   }
+  // From epoll_ctl on another thread may be using the slot
+  onion_poller_timer_check(poller, el->timeout_limit);
   pthread_mutex_unlock(&poller->mutex);
 
   struct epoll_event ev;
@@ -407,7 +409,6 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
     ONION_ERROR("Error add descriptor to listen to. %s", strerror(errno));
     return 1;
   }
-  onion_poller_timer_check(poller, el->timeout_limit);
 
   return 1;
 }
@@ -467,13 +468,15 @@ int onion_poller_remove(onion_poller * poller, int fd) {
  * This might be used for long polling, removing the default deleter.
  */
 onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
+  pthread_mutex_lock(&poller->mutex);
   onion_poller_slot *next = poller->head;
   while (next) {
     if (next->fd == fd)
-      return next;
+      break;
     next = next->next;
   }
-  return NULL;
+  pthread_mutex_unlock(&poller->mutex);
+  return next;
 }
 
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
@@ -533,7 +536,9 @@ void onion_poller_poll(onion_poller * p) {
       if (event[i].events & (EPOLLRDHUP | EPOLLHUP)) {
         n = -1;
       } else {                  // I also take care of the timeout, no timeout when on the handler, it should handle it itself.
+        pthread_mutex_lock(&p->mutex);
         el->timeout_limit = INT_MAX;
+        pthread_mutex_unlock(&p->mutex);
 
 #ifdef __DEBUG0__
         char **bs = backtrace_symbols((void *const *)&el->f, 1);
@@ -544,8 +549,10 @@ void onion_poller_poll(onion_poller * p) {
         n = el->f(el->data);
 
         if (el->timeout > 0) {
+          pthread_mutex_lock(&p->mutex);
           el->timeout_limit = onion_time() + el->timeout;
           onion_poller_timer_check(p, el->timeout_limit);
+          pthread_mutex_unlock(&p->mutex);
         }
       }
       if (n < 0) {
-- 
2.43.0


From 91fd2a43eb05d449e4a7823036622f21cf89e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:12 +0000
Subject: [PATCH 086/153] fix: onion_mime_update did not change known
 extensions [C27]

---
 src/onion/mime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index ea2925b..19dce96 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -176,7 +176,8 @@ void onion_mime_update(const char *extension, const char *mimetype) {
     onion_mime_fill();
 
   if (mimetype)
-    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+    onion_dict_add(onion_mime_dict, extension, mimetype,
+                   OD_DUP_ALL | OD_REPLACE);
   else
     onion_dict_remove(onion_mime_dict, extension);
 }
-- 
2.43.0


From 719794d1c8ccd2c3ab6de2778819342c7cc0bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:12 +0000
Subject: [PATCH 087/153] fix: long extensions of the mime table were cut, and
 hid the following ones [C27]

---
 src/onion/mime.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 19dce96..18053ba 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -111,7 +111,7 @@ static void onion_mime_fill() {
     return;
   }
   char mimetype[128];
-  char extension[8];
+  char extension[128];
   int mode = 0;                 // 0 mimetype, 1 extension
   int i = 0;
   int c;
@@ -142,18 +142,16 @@ static void onion_mime_fill() {
         }
       } else {
         if (mode == 0) {
-          if (i >= sizeof(mimetype) - 1) {
+          if (i >= sizeof(mimetype) - 1) {      // Too long, ignore it all
             while ((c = getc(fd)) >= 0 && c != '\n') ;
+            i = 0;
           } else
             mimetype[i++] = c;
         } else {
-          if (i >= sizeof(extension) - 1) {
+          if (i >= sizeof(extension) - 1) {     // Too long, ignore the rest
             while ((c = getc(fd)) >= 0 && c != '\n') ;
-            extension[i] = '\0';
             i = 0;
             mode = 0;
-            onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
-            //ONION_DEBUG("Add mimetype '%s' (%s)..", extension, mimetype);
           } else
             extension[i++] = c;
         }
-- 
2.43.0


From 4b163a61209bceb971c52d122fee256bd3ebad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:12 +0000
Subject: [PATCH 088/153] fix: mime table was filled by several threads at once
 [C23]

---
 src/onion/mime.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 18053ba..85a3b23 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -24,6 +24,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#ifdef HAVE_PTHREADS
+#include <pthread.h>
+#endif
 
 #include "types.h"
 #include "mime.h"
@@ -36,6 +39,14 @@
 /// Dict with all extension to mime type. This will never be freed.
 static onion_dict *onion_mime_dict = NULL;
 
+#ifdef HAVE_PTHREADS
+/// Any request may be the first to need the dict
+static pthread_mutex_t onion_mime_mutex = PTHREAD_MUTEX_INITIALIZER;
+#else
+#define pthread_mutex_lock(...)
+#define pthread_mutex_unlock(...)
+#endif
+
 static void onion_mime_fill();
 
 /**
@@ -47,9 +58,11 @@ static void onion_mime_fill();
  * At onion_server_free it is freed, as if this function is called again.
  */
 void onion_mime_set(onion_dict * d) {
+  pthread_mutex_lock(&onion_mime_mutex);
   if (onion_mime_dict)
     onion_dict_free(onion_mime_dict);
   onion_mime_dict = d;
+  pthread_mutex_unlock(&onion_mime_mutex);
 }
 
 /**
@@ -64,9 +77,6 @@ void onion_mime_set(onion_dict * d) {
  * If none is found, returns text/plain.
  */
 const char *onion_mime_get(const char *filename) {
-  if (!onion_mime_dict)
-    onion_mime_fill();
-
   const char *extension = filename;
   int l = strlen(filename);
   int i;
@@ -79,7 +89,11 @@ const char *onion_mime_get(const char *filename) {
 
   //ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
 
+  pthread_mutex_lock(&onion_mime_mutex);
+  if (!onion_mime_dict)
+    onion_mime_fill();
   const char *r = onion_dict_get(onion_mime_dict, extension);
+  pthread_mutex_unlock(&onion_mime_mutex);
   if (r)
     return r;
   //ONION_DEBUG("Mime type for extension '%s' %s",extension, r);
@@ -93,7 +107,6 @@ const char *onion_mime_get(const char *filename) {
  *
  */
 static void onion_mime_fill() {
-  onion_mime_set(NULL);
   onion_mime_dict = onion_dict_new();
   //ONION_DEBUG("Filling mime types");
 
@@ -170,6 +183,7 @@ static void onion_mime_fill() {
  * User can add new mime types, or remove (if mimetype == NULL).
  */
 void onion_mime_update(const char *extension, const char *mimetype) {
+  pthread_mutex_lock(&onion_mime_mutex);
   if (!onion_mime_dict)
     onion_mime_fill();
 
@@ -178,4 +192,5 @@ void onion_mime_update(const char *extension, const char *mimetype) {
                    OD_DUP_ALL | OD_REPLACE);
   else
     onion_dict_remove(onion_mime_dict, extension);
+  pthread_mutex_unlock(&onion_mime_mutex);
 }
-- 
2.43.0


From fa29a22e3a319f17ec671379335574f7b3595714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:12 +0000
Subject: [PATCH 089/153] fix: sendfile setting was initialized by several
 threads at once [C23]

---
 src/onion/shortcuts.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 62a6d1c..724adc5 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -193,15 +193,16 @@ static int onion_shortcut_parse_range(const char *range, size_t size,
 onion_connection_status onion_shortcut_response_file(const char *filename,
                                                      onion_request * request,
                                                      onion_response * res) {
-  if (onion_use_sendfile < 0) {
-    const char *use_sendfile = getenv("ONION_SENDFILE");
-    if (use_sendfile && strcmp(use_sendfile, "0") == 0) {
+  int use_sendfile = __sync_fetch_and_add(&onion_use_sendfile, 0);
+  if (use_sendfile < 0) {
+    const char *env_sendfile = getenv("ONION_SENDFILE");
+    if (env_sendfile && strcmp(env_sendfile, "0") == 0) {
       ONION_DEBUG("Sendfile is disabled");
-      onion_use_sendfile = 0;
+      use_sendfile = 0;
     } else
-      onion_use_sendfile = 1;
+      use_sendfile = 1;
+    __sync_bool_compare_and_swap(&onion_use_sendfile, -1, use_sendfile);
   }
-  int use_sendfile = onion_use_sendfile;        // Now that we know global, use some local info as well.
 
   int fd = open(filename, O_RDONLY | O_CLOEXEC | O_NONBLOCK);   // Do not block on fifos
 
-- 
2.43.0


From 6f3858a8ae5dba1b225c733e22c2e13716770469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:12 +0000
Subject: [PATCH 090/153] fix: session store was used by several threads
 without locks [C23]

---
 src/onion/sessions_mem.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/onion/sessions_mem.c b/src/onion/sessions_mem.c
index f8a31ce..b52502e 100644
--- a/src/onion/sessions_mem.c
+++ b/src/onion/sessions_mem.c
@@ -35,25 +35,29 @@ char *last_data = NULL;
 static onion_dict *onion_sessions_mem_get(onion_sessions * sessions,
                                           const char *session_id) {
   ONION_DEBUG0("Accessing session '%s'", session_id);
+  onion_dict_lock_read(sessions->data);
   onion_dict *sess = onion_dict_get_dict(sessions->data, session_id);
-  if (!sess) {
+  if (sess)
+    sess = onion_dict_dup(sess);        // Before anybody else can remove it
+  else
     ONION_DEBUG0("Unknown session '%s'.", session_id);
-    return NULL;
-  }
-  return onion_dict_dup(sess);
+  onion_dict_unlock(sessions->data);
+  return sess;
 }
 
 static void onion_sessions_mem_save(onion_sessions * sessions,
                                     const char *session_id, onion_dict * data) {
+  onion_dict_lock_write(sessions->data);
   if (data == NULL) {
     data = onion_dict_get_dict(sessions->data, session_id);
     if (data) {
       onion_dict_remove(sessions->data, session_id);
     }
-    return;
+  } else {
+    onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
+                   OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
   }
-  onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
-                 OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  onion_dict_unlock(sessions->data);
 }
 
 static void onion_sessions_mem_free(onion_sessions * sessions) {
-- 
2.43.0


From 649ecea05d7ff950e3c64facef443ef36f0ca5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:29 +0000
Subject: [PATCH 091/153] fix: server flags were read without lock while
 listening stops [C23]

---
 src/onion/onion.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 4043f6d..382648c 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -589,7 +589,8 @@ static void onion_listen_close(onion * o) {
 
 /// Attends the clients until told to stop
 static void onion_listen_serve(onion * o) {
-  if (o->flags & O_ONE) {
+  int flags = onion_flags(o);
+  if (flags & O_ONE) {
     onion_listen_point *op = o->listen_points[0];
     do {
       onion_request *req = onion_request_new(op);
@@ -604,12 +605,12 @@ static void onion_listen_serve(onion * o) {
       ONION_DEBUG("End of request %p", req);
       onion_request_free(req);
       //req->connection.listen_point->close(req);
-    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd > 0);
+    } while (((flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd > 0);
   } else {
 #ifdef HAVE_PTHREADS
     ONION_DEBUG("Start polling / listening %p, %p, %p", o->listen_points,
                 *o->listen_points, *(o->listen_points + 1));
-    if ((o->flags & O_THREADED) && o->nthreads > 1) {
+    if ((flags & O_THREADED) && o->nthreads > 1) {
       o->threads = onion_low_malloc(sizeof(pthread_t) * o->nthreads);
       int i;
       int nthreads = 0;
@@ -809,7 +810,14 @@ void onion_set_max_threads(onion * onion, int max_threads) {
  * @ingroup onion
  */
 int onion_flags(onion * onion) {
-  return onion->flags;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&onion->mutex);
+#endif
+  int flags = onion->flags;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&onion->mutex);
+#endif
+  return flags;
 }
 
 /**
-- 
2.43.0


From ae3f7267aa5a9a0b4fc312db40fc11e86e40fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:17 +0000
Subject: [PATCH 092/153] fix: session was read without lock while other
 requests change it [C23]

---
 src/onion/request.c  | 12 ++++++++++--
 src/onion/response.c | 18 +++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index ec65ddd..8dde964 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -59,6 +59,14 @@ const char *onion_request_methods[16] = {
   NULL, NULL, NULL, NULL
 };
 
+/// Whether the session has no data. Other requests may be changing it meanwhile.
+static int onion_request_session_is_empty(onion_request * req) {
+  onion_dict_lock_read(req->session);
+  int count = onion_dict_count(req->session);
+  onion_dict_unlock(req->session);
+  return count == 0;
+}
+
 /**
  * @short Creates a request object
  * @memberof onion_request_t
@@ -136,7 +144,7 @@ void onion_request_free(onion_request * req) {
     onion_dict_free(req->FILES);
   }
   if (req->session) {
-    if (onion_dict_count(req->session) == 0)
+    if (onion_request_session_is_empty(req))
       onion_request_session_free(req);
     else {
       onion_sessions_save(req->connection.listen_point->server->sessions,
@@ -198,7 +206,7 @@ void onion_request_clean(onion_request * req) {
     req->FILES = NULL;
   }
   if (req->session_id) {
-    if (onion_dict_count(req->session) == 0) {
+    if (onion_request_session_is_empty(req)) {
       onion_request_session_free(req);
     } else {
       onion_sessions_save(req->connection.listen_point->server->sessions,
diff --git a/src/onion/response.c b/src/onion/response.c
index c4508c9..77c3722 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -267,6 +267,22 @@ static void write_header(onion_response * res, const char *key,
 #define CONNECTION_CHUNK_ENCODING "Transfer-Encoding: chunked\r\n"
 #define CONNECTION_UPGRADE "Connection: Upgrade\r\n"
 
+/// Whether the session has any data. Other requests may be changing it meanwhile.
+static int onion_response_has_session_data(onion_response * res) {
+  onion_dict *session = res->request->session;
+  if (!res->request->session_id)
+    return 0;
+#ifdef HAVE_PTHREADS
+  int locked = (pthread_rwlock_rdlock(&session->lock) == 0);    // Not when this very thread is the writer.
+#endif
+  int count = onion_dict_count(session);
+#ifdef HAVE_PTHREADS
+  if (locked)
+    pthread_rwlock_unlock(&session->lock);
+#endif
+  return count > 0;
+}
+
 /**
  * @short Writes all the header to the given response
  * @memberof onion_response_t
@@ -341,7 +357,7 @@ int onion_response_write_headers(onion_response * res) {
 
   onion_dict_preorder(res->headers, write_header, res);
 
-  if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
+  if (onion_response_has_session_data(res))     // I have session with something, tell user
     onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
-- 
2.43.0


From 14ecff42da5a03aadc41ae57fc36547d9fce9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:30 +0000
Subject: [PATCH 093/153] fix: session was saved after the client had the reply
 [C23]

---
 src/onion/handler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 4df53c9..e717fb0 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -33,6 +33,7 @@
 
 #include "handler.h"
 #include "response.h"
+#include "sessions.h"
 #include "types_internal.h"
 #include "websocket.h"
 #include "low.h"
@@ -72,6 +73,12 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
           return res;
         if (res == OCS_YIELD)   // Will be written somewhere else
           return res;
+        // The client may ask again, elsewhere, as soon as it gets the pending data.
+        if (request->session
+            && (!(response->flags & OR_HEADER_SENT) || response->buffer_pos > 0
+                || (response->flags & OR_CHUNKED)))
+          onion_sessions_save(request->connection.listen_point->server->
+                              sessions, request->session_id, request->session);
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
             && response->buffer_pos < sizeof(response->buffer))
-- 
2.43.0


From ad4edeb9db1791ebb1a3c5e1b511d980dbab43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:24 +0000
Subject: [PATCH 094/153] fix: TLS handshake was tried on connections that
 could not be accepted [C24]

---
 src/onion/https.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index e1c9e71..09afb3f 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -202,7 +202,8 @@ static void onion_https_free_user_data(onion_listen_point * op) {
  * @returns <0 in case of error.
  */
 static int onion_https_request_init(onion_request * req) {
-  onion_listen_point_request_init_from_socket(req);
+  if (onion_listen_point_request_init_from_socket(req) < 0)
+    return -1;
   onion_https *https = (onion_https *) req->connection.listen_point->user_data;
 
   ONION_DEBUG("Accept new request, fd %d", req->connection.fd);
-- 
2.43.0


From edb0571d071b85fbb7c050eb9be09f8786f6149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:24 +0000
Subject: [PATCH 095/153] fix: clients that do not finish the TLS handshake
 kept a thread forever [C24]

---
 src/onion/https.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 09afb3f..b8795f0 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -220,10 +220,13 @@ static int onion_https_request_init(onion_request * req) {
 
   gnutls_transport_set_ptr(session,
                            (gnutls_transport_ptr_t) (long)req->connection.fd);
+  if (req->connection.listen_point->server->timeout > 0)
+    gnutls_handshake_set_timeout(session,
+                                 req->connection.listen_point->server->timeout);
   int ret;
   do {
     ret = gnutls_handshake(session);
-  } while (ret < 0 && gnutls_error_is_fatal(ret) == 0);
+  } while (ret < 0 && ret != GNUTLS_E_AGAIN && gnutls_error_is_fatal(ret) == 0);        // AGAIN is the timeout of the socket.
   if (ret < 0) {                // could not handshake. assume an error.
     ONION_ERROR("Handshake has failed (%s)", gnutls_strerror(ret));
     gnutls_bye(session, GNUTLS_SHUT_WR);
-- 
2.43.0


From d73b6d41c513dd175f955f05291accfd35eaf351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:22 +0000
Subject: [PATCH 096/153] fix: data received in the same TLS record was left
 waiting for more data [C24]

---
 src/onion/https.c          | 12 ++++++++++++
 src/onion/listen_point.c   |  7 ++++++-
 src/onion/types_internal.h |  3 +++
 src/onion/websocket.c      |  5 ++++-
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index b8795f0..3774ac0 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -67,6 +67,7 @@ int onion_http_read_ready(onion_request * req);
 static int onion_https_request_init(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
+static bool onion_https_read_pending(onion_request * req);
 static void onion_https_close(onion_request * req);
 static void onion_https_listen_stop(onion_listen_point * op);
 static void onion_https_free_user_data(onion_listen_point * op);
@@ -93,6 +94,7 @@ onion_listen_point *onion_https_new() {
   op->read = onion_https_read;
   op->write = onion_https_write;
   op->close = onion_https_close;
+  op->read_pending = onion_https_read_pending;
   op->read_ready = onion_http_read_ready;
   op->secure = true;
 
@@ -259,6 +261,16 @@ static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
   return ret;
 }
 
+/**
+ * @short Whether there is decrypted data that was not read yet.
+ * @memberof onion_https_t
+ * @ingroup https
+ */
+static bool onion_https_read_pending(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  return gnutls_record_check_pending(session) > 0;
+}
+
 /**
  * @short Writes some data to the HTTPS client.
  * @memberof onion_https_t
diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 7a3d618..b51a0e8 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -264,7 +264,12 @@ static int onion_listen_point_read_ready(onion_request * req) {
   }
 #endif
 
-  return req->connection.listen_point->read_ready(req);
+  onion_listen_point *op = req->connection.listen_point;
+  int r;
+  do {
+    r = op->read_ready(req);
+  } while (r >= 0 && op->read_pending && op->read_pending(req));
+  return r;
 }
 
 /**
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 0b4fa5d..9d74f0d 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -163,6 +163,9 @@ extern "C" {
     int listenfd;               ///< For socket listening listen points, the listen fd. For others may be -1 as not used, or an fd to watch and when changed calls the request_init with a new request.
     bool secure;                ///< Is this listen point secure?
 
+    /// Optional. Whether there is data already received, that polling the fd does not tell about (the rest of a TLS record).
+    bool (*read_pending) (onion_request * req);
+
     /// Internal data used by the listen point, for example in HTTPS is the certificate loaded data.
     void *user_data;
     /// Method to call to free the user data
diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index f6c9489..2c97980 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -576,7 +576,10 @@ next_packet:
 onion_connection_status onion_websocket_call(onion_websocket * ws) {
   onion_connection_status ret = OCS_NEED_MORE_DATA;
   while (ret == OCS_NEED_MORE_DATA) {
-    if (ws->req->connection.fd > 0) {
+    onion_listen_point *op = ws->req->connection.listen_point;
+    if (op->read_pending && op->read_pending(ws->req)) {
+      ONION_DEBUG0("There is data already received");
+    } else if (ws->req->connection.fd > 0) {
       struct pollfd pfd;
       pfd.events = POLLIN;
       pfd.fd = ws->req->connection.fd;
-- 
2.43.0


From c0ab106dd263bcf30d1f6ddfd6b1de4cb03aec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:34 +0000
Subject: [PATCH 097/153] fix: TLS records without data, as key updates, ended
 the connection [C24]

---
 src/onion/https.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 3774ac0..3a42436 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -27,6 +27,7 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <errno.h>
+#include <poll.h>
 
 #include "low.h"
 #include "https.h"
@@ -253,7 +254,16 @@ static int onion_https_request_init(onion_request * req) {
  */
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
-  ssize_t ret = gnutls_record_recv(session, data, len);
+  ssize_t ret;
+  do {
+    ret = gnutls_record_recv(session, data, len);
+    if (ret == GNUTLS_E_AGAIN) {        // Not for us (a key update), or it timed out. Both wait for the next data.
+      struct pollfd pfd = {.fd = req->connection.fd,.events = POLLIN };
+      if (poll(&pfd, 1, req->connection.listen_point->server->timeout) <= 0)
+        break;
+    }
+  } while (ret == GNUTLS_E_AGAIN || ret == GNUTLS_E_INTERRUPTED
+           || ret == GNUTLS_E_WARNING_ALERT_RECEIVED);
   ONION_DEBUG("Read! (%p), %d bytes", session, ret);
   if (ret < 0) {
     ONION_ERROR("Reading data has failed (%s)", gnutls_strerror(ret));
-- 
2.43.0


From ecc96c5695434b1b05ddb574f3f6999e9070b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:29 +0000
Subject: [PATCH 098/153] fix: PNG replies leaked, and wrong or tall images
 ended the process [C27]

libpng can not continue after an error, and aborts if the error handler
returns, so wrong bytes per pixel, sizes of 0 or sizes over the limits of
libpng aborted the server. Now it answers an internal error. The rows of tall
images did not fit at the stack, and all was leaked at HEAD requests.
---
 src/onion/extras/png.c | 52 +++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/onion/extras/png.c b/src/onion/extras/png.c
index f33811d..33a5b1c 100644
--- a/src/onion/extras/png.c
+++ b/src/onion/extras/png.c
@@ -21,27 +21,24 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
+#include <stdlib.h>
 #include <png.h>
 #include <onion/response.h>
 #include <onion/log.h>
 
 struct onion_png_data_t {
   onion_response *res;
-  int sent;
+  volatile int sent;            // set between setjmp and longjmp
 };
 
 typedef struct onion_png_data_t onion_png_data;
 
-// If not sent yet, writes the error. also always write it to the log.
+// Writes the error to the log and goes back to onion_png_response.
 static void error(png_struct * p, const char *msg) {
-  onion_png_data *d = (onion_png_data *) png_get_io_ptr(p);
-  if (!d->sent) {
-    onion_response_set_code(d->res, HTTP_INTERNAL_ERROR);
-    onion_response_printf(d->res, "Libpng error: %s", msg);
-    d->sent = 1;
-  }
-
   ONION_ERROR("%s", msg);
+
+  // libpng can not go on from here; if this returns it aborts the process.
+  png_longjmp(p, 1);
 }
 
 // Shows a warning on the logs
@@ -82,10 +79,23 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
    * the library version is compatible with the one used at compile time,
    * in case we are using dynamically linked libraries.  REQUIRED.
    */
+  if (width <= 0 || height <= 0 || Bpp < -4 || Bpp == 0 || Bpp > 4) {
+    ONION_ERROR("Wrong image size or bytes per pixel: %d x %d, %d", width,
+                height, Bpp);
+    return OCS_INTERNAL_ERROR;
+  }
+
+  // All the rows, libpng wants their addresses.
+  png_bytep *row_pointers = malloc(height * sizeof(png_bytep));
+  if (row_pointers == NULL) {
+    return OCS_INTERNAL_ERROR;
+  }
+
   png_ptr =
       png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, error, warning);
 
   if (png_ptr == NULL) {
+    free(row_pointers);
     return OCS_INTERNAL_ERROR;
   }
 
@@ -93,6 +103,7 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   info_ptr = png_create_info_struct(png_ptr);
   if (info_ptr == NULL) {
     png_destroy_write_struct(&png_ptr, NULL);
+    free(row_pointers);
     return OCS_INTERNAL_ERROR;
   }
 
@@ -102,9 +113,12 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   png_set_write_fn(png_ptr, (void *)&opd, onion_png_write, onion_png_flush);
   /* where user_io_ptr is a structure you want available to the callbacks */
 
-  onion_response_set_header(res, "Content-Type", "image/png");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
-    return OCS_PROCESSED;
+  if (setjmp(png_jmpbuf(png_ptr))) {    // Something failed, error() came here.
+    png_destroy_write_struct(&png_ptr, &info_ptr);
+    free(row_pointers);
+    // If part of the image was sent, there is no way to say there was an error but closing.
+    return opd.sent ? OCS_CLOSE_CONNECTION : OCS_INTERNAL_ERROR;
+  }
 
   /* Set the image information here.  Width and height are up to 2^31,
    * bit_depth is one of 1, 2, 4, 8, or 16, but valid values also depend on
@@ -146,27 +160,27 @@ int onion_png_response(unsigned char *image, int Bpp, int width, int height,
   }
 
   png_uint_32 k;
-  png_bytep row_pointers[height];
-
-  if (height > PNG_UINT_32_MAX / sizeof(png_bytep))
-    png_error(png_ptr, "Image is too tall to process in memory");
 
   for (k = 0; k < height; k++)
-    row_pointers[k] = (png_byte *) (image + k * width * Bpp);
+    row_pointers[k] = (png_byte *) (image + (size_t) k * width * Bpp);
 
   // Sets the rows to save at the image
   png_set_rows(png_ptr, info_ptr, row_pointers);
 
-  // If header already sent, then there was an error.
-  if (opd.sent) {
+  onion_response_set_header(res, "Content-Type", "image/png");
+  if (onion_response_write_headers(res) == OR_SKIP_CONTENT) {   // Maybe it was HEAD.
+    png_destroy_write_struct(&png_ptr, &info_ptr);
+    free(row_pointers);
     return OCS_PROCESSED;
   }
+
   opd.sent = 1;
   // Finally WRITE the image. Uses the onion_response_write via onion_png_write helper.
   png_write_png(png_ptr, info_ptr, 0, NULL);
 
   /* Clean up after the write, and free any memory allocated */
   png_destroy_write_struct(&png_ptr, &info_ptr);
+  free(row_pointers);
 
   /* That's it */
   return OCS_PROCESSED;
-- 
2.43.0


From f60219b365742dab489dbd61b0d582ba420c27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:29 +0000
Subject: [PATCH 099/153] fix: JPEG reply wrote after the buffer when the
 headers just fill it [C27]

---
 src/onion/extras/jpeg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index 3a9c1fe..ed63189 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -77,6 +77,10 @@ void onion_error_exit(j_common_ptr cinfo) {
 
 void onion_init_destination(j_compress_ptr cinfo) {
   onion_jpeg_data *d = (onion_jpeg_data *) cinfo->client_data;
+  // libjpeg needs some free space to start with
+  if (d->res->buffer_pos == sizeof(d->res->buffer)
+      && onion_response_flush(d->res) < 0)
+    d->sent = 2;
   cinfo->dest->next_output_byte =
       (JOCTET *) & (d->res->buffer[d->res->buffer_pos]);
   cinfo->dest->free_in_buffer = sizeof(d->res->buffer) - d->res->buffer_pos;
-- 
2.43.0


From 05fc871bbd0e4e072cf6998c6c178b1d09268699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:29 +0000
Subject: [PATCH 100/153] fix: JPEG errors were sent as text inside a good
 image reply [C27]

The headers were sent before libjpeg could complain about the image, and then
the error text was the content, and the handler said it had not processed the
request. When the client went away it was not processed neither.
---
 src/onion/extras/jpeg.c | 53 +++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/onion/extras/jpeg.c b/src/onion/extras/jpeg.c
index ed63189..a22bbf0 100644
--- a/src/onion/extras/jpeg.c
+++ b/src/onion/extras/jpeg.c
@@ -33,7 +33,7 @@
 
 struct onion_jpeg_data_t {
   onion_response *res;
-  int sent;
+  volatile int sent;            // 0 nothing yet, 1 sending, 2 could not write
 };
 
 typedef struct onion_jpeg_data_t onion_jpeg_data;
@@ -60,13 +60,6 @@ void onion_error_exit(j_common_ptr cinfo) {
   char *msg = (char *)malloc(JMSG_LENGTH_MAX);
   (*(cinfo->err->format_message)) (cinfo, msg);
 
-  onion_jpeg_data *d = (onion_jpeg_data *) cinfo->client_data;
-  if (!d->sent) {
-    onion_response_set_code(d->res, HTTP_INTERNAL_ERROR);
-    onion_response_printf(d->res, "Libpng error: %s", msg);
-    d->sent = 1;
-  }
-
   ONION_ERROR("%s", msg);
   free(msg);
   msg = NULL;
@@ -127,9 +120,13 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
   JSAMPROW row_pointer[1];      /* pointer to JSAMPLE row[s] */
   int row_stride;               /* physical row width in image buffer */
 
-  onion_response_set_header(res, "Content-Type", "image/jpeg");
-  if (onion_response_write_headers(res) == OR_SKIP_CONTENT)     // Maybe it was HEAD.
-    return OCS_PROCESSED;
+  onion_jpeg_data ojd;
+
+  if (image_width <= 0 || image_height <= 0 || image_num_color_channels <= 0) {
+    ONION_ERROR("Wrong image size or number of channels: %d x %d, %d",
+                image_width, image_height, image_num_color_channels);
+    return OCS_INTERNAL_ERROR;
+  }
 
   /* Step 1: allocate and initialize JPEG compression object */
   // 1.1 Setup used error routines
@@ -141,15 +138,15 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
      * We need to clean up the JPEG object, and return.
      */
     jpeg_destroy_compress(&cinfo);
-    return 0;
+    // If part of the image was sent, there is no way to say there was an error but closing.
+    return ojd.sent ? OCS_CLOSE_CONNECTION : OCS_INTERNAL_ERROR;
   }
 
+  ojd.res = res;
+  ojd.sent = 0;
   jpeg_create_compress(&cinfo);
 
   /* Step 2: specify data destination */
-  onion_jpeg_data ojd;
-  ojd.res = res;
-  ojd.sent = 0;
   cinfo.client_data = (void *)&ojd;
 
   // Set function handler to operate directly on response buffers
@@ -180,18 +177,25 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
   jpeg_set_quality(&cinfo, output_quality,
                    TRUE /* limit to baseline-JPEG values */ );
 
-  // If header already sent, then there was an error.
-  if (ojd.sent) {
-    return OCS_PROCESSED;
-  }
-
   /* Step 4: Start compressor */
 
   /* TRUE ensures that we will write a complete interchange-JPEG file.
    * Pass TRUE unless you are very sure of what you're doing.
+   * It checks the parameters too, and if wrong nothing has been sent yet.
    */
   jpeg_start_compress(&cinfo, TRUE);
 
+  // All looks right: send the headers, whatever libjpeg wrote goes after them.
+  onion_response_set_header(res, "Content-Type", "image/jpeg");
+  res->buffer_pos = sizeof(res->buffer) - cinfo.dest->free_in_buffer;
+  if (onion_response_write_headers(res) == OR_SKIP_CONTENT) {   // Maybe it was HEAD.
+    res->buffer_pos = 0;
+    jpeg_destroy_compress(&cinfo);
+    return OCS_PROCESSED;
+  }
+  ojd.sent = 1;
+  onion_init_destination(&cinfo);
+
   /* Step 5: while (scan lines remain to be written) */
   /*           jpeg_write_scanlines(...); */
 
@@ -207,16 +211,19 @@ int onion_jpeg_response(unsigned char *image, int image_num_color_channels, J_CO
      * Here the array is only one element long, but you could pass
      * more than one scanline at a time if that's more convenient.
      */
-    row_pointer[0] = &image[cinfo.next_scanline * row_stride];
+    row_pointer[0] = &image[(size_t) cinfo.next_scanline * row_stride];
     (void)jpeg_write_scanlines(&cinfo, row_pointer, 1);
 
     // Check if response creation was aborted.
-    if (ojd.sent) {
+    if (ojd.sent == 2) {
       break;
     }
   }
 
-  ojd.sent = 1;
+  if (ojd.sent == 2) {          // Could not write, nobody to send the rest to.
+    jpeg_destroy_compress(&cinfo);
+    return OCS_CLOSE_CONNECTION;
+  }
 
   /* Step 6: Finish compression */
   jpeg_finish_compress(&cinfo);
-- 
2.43.0


From ff72f85e1a8348ee635588c5ff718cb5968d6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:29 +0000
Subject: [PATCH 101/153] fix: mime.types without last new line lost its last
 extension [C27]

---
 src/onion/mime.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 85a3b23..fdb897d 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -133,7 +133,7 @@ static void onion_mime_fill() {
     if (c == '#') {
       while ((c = getc(fd)) >= 0 && c != '\n') ;
     }
-    if (c == '\n') {
+    if (c == '\n' || c < 0) {
       if (mode == 1 && i != 0) {
         extension[i] = 0;
         onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
@@ -143,7 +143,8 @@ static void onion_mime_fill() {
       i = 0;
     } else {
       if (is_space(c)) {
-        if (mode == 0) {
+        if (mode == 0 && i == 0) ;      // Spaces before the mime type
+        else if (mode == 0) {
           mimetype[i] = '\0';
           mode = 1;
           i = 0;
@@ -171,6 +172,10 @@ static void onion_mime_fill() {
       }
     }
   }
+  if (mode == 1 && i != 0) {    // No new line at the last line
+    extension[i] = 0;
+    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+  }
   fclose(fd);
 
   ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
-- 
2.43.0


From 30e73028fded884c5ba86386821ef6179a5f6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:29 +0000
Subject: [PATCH 102/153] fix: removing a mime type left other entries for the
 extension [C27]

---
 src/onion/mime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index fdb897d..6d4a545 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -195,7 +195,7 @@ void onion_mime_update(const char *extension, const char *mimetype) {
   if (mimetype)
     onion_dict_add(onion_mime_dict, extension, mimetype,
                    OD_DUP_ALL | OD_REPLACE);
-  else
-    onion_dict_remove(onion_mime_dict, extension);
+  else                          // The system table may have it several times
+    while (onion_dict_remove(onion_mime_dict, extension)) ;
   pthread_mutex_unlock(&onion_mime_mutex);
 }
-- 
2.43.0


From 354893a81e39c93a3441005e097e80777eb71a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:55 +0000
Subject: [PATCH 103/153] fix: updating a mime type left other entries for the
 extension [C27]

---
 src/onion/mime.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 6d4a545..a5ede22 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -192,10 +192,9 @@ void onion_mime_update(const char *extension, const char *mimetype) {
   if (!onion_mime_dict)
     onion_mime_fill();
 
+  // The system table may have it several times
+  while (onion_dict_remove(onion_mime_dict, extension)) ;
   if (mimetype)
-    onion_dict_add(onion_mime_dict, extension, mimetype,
-                   OD_DUP_ALL | OD_REPLACE);
-  else                          // The system table may have it several times
-    while (onion_dict_remove(onion_mime_dict, extension)) ;
+    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
   pthread_mutex_unlock(&onion_mime_mutex);
 }
-- 
2.43.0


From bb72a197b68bea25328f1f397601fb51c671447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 104/153] fix: assigning a C++ Dict to itself freed it, and
 copying a missing one crashed [C25]

---
 src/bindings/cpp/dict.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 110c4bf..34a23f8 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -76,20 +76,19 @@ Onion::Dict::Dict(const Dict & d)
 d.ptr.get(), &onion_dict_free}
 
 {
-  onion_dict_dup(ptr.get());
+  if (ptr)
+    onion_dict_dup(ptr.get());
 }
 
 Onion::Dict & Onion::Dict::operator=(const Dict & o) {
-  ptr = internal_pointer {
-  o.ptr.get(), &onion_dict_free};
-  onion_dict_dup(o.ptr.get());
-  return *this;
+  return *this = o.ptr.get();
 }
 
 Onion::Dict & Onion::Dict::operator=(onion_dict * o) {
+  if (o)                        // First get the new reference, it may be the same dict.
+    onion_dict_dup(o);
   ptr = internal_pointer {
   o, &onion_dict_free};
-  onion_dict_dup(ptr.get());
   return *this;
 }
 
-- 
2.43.0


From 2a76186bcd7a39f794c688e743e60563b3ddad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 105/153] fix: C++ Dict::fromJSON leaked the dictionary [C25]

---
 src/bindings/cpp/dict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 34a23f8..7e38617 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -129,7 +129,7 @@ std::string Onion::Dict::toJSON() const noexcept {
 }
 
 Onion::Dict Onion::Dict::fromJSON(const std::string & jsondata)noexcept {
-  return Dict(onion_dict_from_json(jsondata.c_str()));
+  return Dict(onion_dict_from_json(jsondata.c_str()), true);
 }
 
 Onion::Dict & Onion::Dict::merge(const Dict & other)noexcept {
-- 
2.43.0


From 541aab01fdfb1edc414bf2bd13203e02b9b153f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 106/153] fix: C++ Dict::getDict could be used after its parent
 freed it [C25]

---
 src/bindings/cpp/dict.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 7e38617..51d86b8 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -101,7 +101,10 @@ bool Onion::Dict::has(const std::string & k) const noexcept {
 }
 
 Onion::Dict Onion::Dict::getDict(const std::string & k) const noexcept {
-  return Dict(onion_dict_get_dict(ptr.get(), k.c_str()));
+  onion_dict *d = onion_dict_get_dict(ptr.get(), k.c_str());
+  if (d)                        // It is a reference too, may outlive its parent.
+    onion_dict_dup(d);
+  return Dict(d, true);
 }
 
 Onion::Dict & Onion::Dict::add(const std::string & k, const std::string & v,
-- 
2.43.0


From 4f9d4250d2f521869801495aa243c43e75948d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 107/153] fix: moving a C++ Dict lock crashed [C25]

---
 src/bindings/cpp/dict.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.hpp b/src/bindings/cpp/dict.hpp
index 77c7c1c..c60177f 100644
--- a/src/bindings/cpp/dict.hpp
+++ b/src/bindings/cpp/dict.hpp
@@ -77,7 +77,8 @@ namespace Onion {
                         /**
 			 * @short Automatically releases a lock when the scope is exited.
 			 */ ~lock() {
-        onion_dict_unlock(dict);
+        if (dict)
+          onion_dict_unlock(dict);
       }
  private:
       onion_dict * dict;
-- 
2.43.0


From 27e68a3eb88b31d61243fc3eaf616fb19e54f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 108/153] fix: moving the C++ Url of the root handler freed it
 twice [C25]

---
 src/bindings/cpp/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/url.cpp b/src/bindings/cpp/url.cpp
index cba09b0..5a9dc29 100644
--- a/src/bindings/cpp/url.cpp
+++ b/src/bindings/cpp/url.cpp
@@ -61,7 +61,7 @@ new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
 Onion::Url::Url(Url && o)
  : Handler {
 new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
-o.ptr.get(), &onion_url_free}
+o.ptr.get(), o.ptr.get_deleter()}
 
 {
   o.ptr.get_deleter() =[](onion_url *)->void {
-- 
2.43.0


From 67d597b13bf91c0cbe624ff99837a44d9cd35ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 109/153] fix: C++ HttpNotFound was answered as internal error
 [C25]

---
 src/bindings/cpp/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index c332356..dd34988 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -74,7 +74,7 @@ namespace Onion {
 	*/
   class HttpNotFound:public HttpException {
  public:
-    HttpNotFound(const std::string & str):HttpException(str) {
+    HttpNotFound(const std::string & str):HttpException(str, HTTP_NOT_FOUND) {
     };
     virtual ~ HttpNotFound()throw() {
     }
-- 
2.43.0


From 2635bba18c4d14f4990ffef37b628751606b2f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 110/153] fix: C++ Mime::set dictionary was freed twice [C25]

---
 src/bindings/cpp/mime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/mime.hpp b/src/bindings/cpp/mime.hpp
index 5dc65b5..7600b6e 100644
--- a/src/bindings/cpp/mime.hpp
+++ b/src/bindings/cpp/mime.hpp
@@ -34,7 +34,8 @@ namespace Onion {
 		 * @short Sets the mime dictionary (extension -> mime_type)
 		 */
     static void set(Onion::Dict & dict) {
-      onion_mime_set(dict.c_handler());
+      // The mime dict is another owner
+      onion_mime_set(onion_dict_dup(dict.c_handler()));
     }
                 /**
 		 * @short Get the mime type based on the file name.
-- 
2.43.0


From 6c4f07414f3d87ed9cefdb8384640fed6085f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 111/153] fix: C++ listen points were freed when given to the
 server, and leaked if not [C25]

---
 src/bindings/cpp/http.hpp         | 2 +-
 src/bindings/cpp/https.hpp        | 2 +-
 src/bindings/cpp/listen_point.hpp | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bindings/cpp/http.hpp b/src/bindings/cpp/http.hpp
index 5038ddb..e9c3a5f 100644
--- a/src/bindings/cpp/http.hpp
+++ b/src/bindings/cpp/http.hpp
@@ -39,7 +39,7 @@ namespace Onion {
 	 */
   class HttpListenPoint:public ListenPoint {
  public:
-    HttpListenPoint():ListenPoint(onion_http_new()) {
+    HttpListenPoint():ListenPoint(internal_pointer {onion_http_new(), onion_listen_point_free}) {
   }};
 }
 
diff --git a/src/bindings/cpp/https.hpp b/src/bindings/cpp/https.hpp
index 9fcb1a6..0cd8be1 100644
--- a/src/bindings/cpp/https.hpp
+++ b/src/bindings/cpp/https.hpp
@@ -42,7 +42,7 @@ namespace Onion {
 	 */
   class HttpsListenPoint:public ListenPoint {
  public:
-    HttpsListenPoint():ListenPoint(onion_https_new()) {
+    HttpsListenPoint():ListenPoint(internal_pointer {onion_https_new(), onion_listen_point_free}) {
     }
                 /**
 		 * @short Sets the SSL certificate and key.
diff --git a/src/bindings/cpp/listen_point.hpp b/src/bindings/cpp/listen_point.hpp
index 4392b8e..04c4507 100644
--- a/src/bindings/cpp/listen_point.hpp
+++ b/src/bindings/cpp/listen_point.hpp
@@ -38,6 +38,10 @@ namespace Onion {
         std::unique_ptr < onion_listen_point,
         decltype(onion_listen_point_free) * >;
     internal_pointer ptr;
+
+    /// For the subclasses that create it, so own it until given to an onion.
+    ListenPoint(internal_pointer && p):ptr(std::move(p)) {
+    }
  public:
      ListenPoint()
     :ptr(onion_listen_point_new(), onion_listen_point_free) {
@@ -57,7 +61,7 @@ namespace Onion {
 		 * @short Release ownership of the underlying pointer.
 		 */
     void release() {
-      ptr.reset(nullptr);
+      ptr.release();
     }
 
                 /**
-- 
2.43.0


From cefa09d30cf7a4f114160a9cd464566ed021e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 112/153] fix: C++ handlers throwing other than std::exception
 ended the process [C25]

---
 src/bindings/cpp/handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindings/cpp/handler.cpp b/src/bindings/cpp/handler.cpp
index 13c89c3..ccb1d2d 100644
--- a/src/bindings/cpp/handler.cpp
+++ b/src/bindings/cpp/handler.cpp
@@ -65,6 +65,10 @@ static onion_connection_status onion_handler_call_operator(void *ptr,
     ONION_ERROR("Catched exception: %s", e.what());
     return OCS_INTERNAL_ERROR;
   }
+  catch( ...) {                 // It can not go on into C code.
+    ONION_ERROR("Catched an exception that is not a std::exception");
+    return OCS_INTERNAL_ERROR;
+  }
 }
 
 static void onion_handler_delete_operator(void *ptr) {
-- 
2.43.0


From e5ea6288d9318be12bc6e85f51a93dc1c1425737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 113/153] fix: C++ Request::clientDescription failed when there
 is none [C25]

---
 src/bindings/cpp/request.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/request.hpp b/src/bindings/cpp/request.hpp
index bc20a37..b322eb2 100644
--- a/src/bindings/cpp/request.hpp
+++ b/src/bindings/cpp/request.hpp
@@ -183,7 +183,8 @@ namespace Onion {
                 /**
 		 * @short Returns a string with the client description
 		 */ const std::string clientDescription() const {
-      return onion_request_get_client_description(ptr);
+      const char *r = onion_request_get_client_description(ptr);
+       return r ? r : "";
     }
                 /**
 		 * @short Returns the language code for the current request.
-- 
2.43.0


From da83bafd800d3945232a57ff881e320a930eb917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:30 +0000
Subject: [PATCH 114/153] fix: C++ mime.hpp and exceptions.hpp did not compile
 after onion.hpp [C25]

Inside the namespace Onion, once the class Onion is known Onion::Dict means
something at that class.
---
 src/bindings/cpp/exceptions.hpp | 4 ++--
 src/bindings/cpp/mime.hpp       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index dd34988..3b2befd 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -54,8 +54,8 @@ namespace Onion {
       return str;
     }
     /// How to handle this exception type. May be a redirect, or just plain show this message.
-    virtual onion_connection_status handle(Onion::Request & req,
-                                           Onion::Response & res);
+    virtual onion_connection_status handle(Request & req,
+                                           Response & res);
   };
 
         /**
diff --git a/src/bindings/cpp/mime.hpp b/src/bindings/cpp/mime.hpp
index 7600b6e..66c2aaa 100644
--- a/src/bindings/cpp/mime.hpp
+++ b/src/bindings/cpp/mime.hpp
@@ -33,7 +33,7 @@ namespace Onion {
                 /**
 		 * @short Sets the mime dictionary (extension -> mime_type)
 		 */
-    static void set(Onion::Dict & dict) {
+    static void set(Dict & dict) {
       // The mime dict is another owner
       onion_mime_set(onion_dict_dup(dict.c_handler()));
     }
-- 
2.43.0


From 242f73361d1a7c2576cdc61307667816ddb98524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:36 +0000
Subject: [PATCH 115/153] fix: opack handlers returned the size of the file as
 the status [C21]

A file of 4 bytes was a websocket, one of 1 byte needed more data, and an empty
one was not found.
---
 tools/opack/opack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index fb63675..fa40d0d 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -169,6 +169,8 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
     }
     l += r;
   }
+  if (l == 0)                   // There are no empty arrays in C
+    fprintf(outfd, "0 ");
   fprintf(outfd, "};\n");
 
   const char *mime_type = onion_mime_get(filename);
@@ -177,7 +179,7 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
           "  onion_response_set_header(res, \"Content-Type\", \"%s\");\n",
           mime_type);
   fprintf(outfd,
-          "  return onion_response_write(res, data, sizeof(data));\n}\n\n");
+          "  onion_response_write(res, data, %d);\n  return OCS_PROCESSED;\n}\n\n", l);
 
   fprintf(outfd, "const unsigned int %s_length = %d;\n\n", fname, l);
 
-- 
2.43.0


From d7c21cecdf745ac98b52caed24aa127f1bba2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:36 +0000
Subject: [PATCH 116/153] fix: opack named every directory as the first
 argument [C21]

---
 tools/opack/opack.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index fa40d0d..8e07c45 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -90,9 +90,11 @@ int main(int argc, char **argv) {
   for (i = 1; i < argc; i++) {
     if (argv[i]) {
       struct stat st;
-      stat(argv[i], &st);
-      if (S_ISDIR(st.st_mode)) {
-        parse_directory(onion_basename(argv[1]), argv[i], outfd, assets);
+      if (stat(argv[i], &st) == 0 && S_ISDIR(st.st_mode)) {
+        int l = strlen(argv[i]);
+        while (l > 1 && argv[i][l - 1] == '/')  // the name is not after the last slash
+          argv[i][--l] = '\0';
+        parse_directory(onion_basename(argv[i]), argv[i], outfd, assets);
       } else {
         parse_file("", argv[i], outfd, assets);
       }
-- 
2.43.0


From 1b99fe37e640f649d4e0bebebcc1d05ee42540f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:36 +0000
Subject: [PATCH 117/153] fix: opack did not escape the names of the files
 [C21]

---
 tools/opack/opack.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 8e07c45..0606e4e 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -135,6 +135,19 @@ char *funcname(const char *prefix, const char *filename) {
   return ret;
 }
 
+/// Writes a string as a C literal
+static void print_literal(FILE * outfd, const char *str) {
+  fputc('"', outfd);
+  for (; *str; str++) {
+    if ((*str >= 'a' && *str <= 'z') || (*str >= 'A' && *str <= 'Z')
+        || (*str >= '0' && *str <= '9') || strchr(" ._-+,/", *str))
+      fputc(*str, outfd);
+    else
+      fprintf(outfd, "\\%03o", *str & 0x0FF);
+  }
+  fputc('"', outfd);
+}
+
 /**
  * @short Generates the necesary data to the output stream.
  */
@@ -177,9 +190,9 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
 
   const char *mime_type = onion_mime_get(filename);
   fprintf(outfd, "  onion_response_set_length(res, %d);\n", l);
-  fprintf(outfd,
-          "  onion_response_set_header(res, \"Content-Type\", \"%s\");\n",
-          mime_type);
+  fprintf(outfd, "  onion_response_set_header(res, \"Content-Type\", ");
+  print_literal(outfd, mime_type);
+  fprintf(outfd, ");\n");
   fprintf(outfd,
           "  onion_response_write(res, data, %d);\n  return OCS_PROCESSED;\n}\n\n", l);
 
@@ -234,11 +247,15 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
     char *fname = funcname(prefix, de->d_name);
     if (de->d_type == DT_DIR) {
       int l = strlen(de->d_name);
-      fprintf(outfd, "  if (strncmp(\"%s/\", path, %d)==0){\n", de->d_name,
-              l + 1);
+      fprintf(outfd, "  if (strncmp(");
+      print_literal(outfd, de->d_name);
+      fprintf(outfd, "\"/\", path, %d)==0){\n", l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
-    } else
-      fprintf(outfd, "  if (strcmp(\"%s\", path)==0){\n", de->d_name);
+    } else {
+      fprintf(outfd, "  if (strcmp(");
+      print_literal(outfd, de->d_name);
+      fprintf(outfd, ", path)==0){\n");
+    }
     fprintf(outfd, "    return %s(_, req, res);\n", fname);
     fprintf(outfd, "  }\n");
     free(fname);
-- 
2.43.0


From 487498e96aebdd088149c12295911c41df2ed677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:36 +0000
Subject: [PATCH 118/153] fix: opack mixed up files with similar or long names,
 and links [C21]

Files which only differ at non alphanumeric chars (a.b, a-b), or when one is
called as the other and _length, had the same function names, and the generated
code did not compile. Neither did directories with long paths. Links to
directories were packed as empty files. Also the path was not recovered when a
directory did not have the file.
---
 tools/opack/opack.c | 114 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 91 insertions(+), 23 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 0606e4e..c35c061 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -24,7 +24,6 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
-#include <libgen.h>
 #include <unistd.h>
 #include <dirent.h>
 #include <sys/stat.h>
@@ -34,7 +33,7 @@
 #include "../common/updateassets.h"
 
 void print_help();
-char *funcname(const char *prefix, const char *filename);
+char *funcname(const char *prefix, const char *filename, const char *path);
 void parse_file(const char *prefix, const char *filename, FILE * outfd,
                 onion_assets_file * assets);
 void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
@@ -109,9 +108,44 @@ int main(int argc, char **argv) {
   return 0;
 }
 
-/// Parses a filename to a function name (changes non allowed chars to _)
-char *funcname(const char *prefix, const char *filename) {
-  int l = 8;
+/// The symbols used up to now, and the file or directory that uses each.
+static struct {
+  char *name;
+  char *path;
+} *symbols = NULL;
+static int nsymbols = 0;
+
+/// Looks for a symbol, NULL if nobody uses it. Each function uses also name_length.
+static const char *symbol_owner(const char *name) {
+  int i;
+  for (i = 0; i < nsymbols; i++) {
+    int l = strlen(symbols[i].name);
+    if (strncmp(symbols[i].name, name, l) == 0
+        && (name[l] == '\0' || strcmp(&name[l], "_length") == 0))
+      return symbols[i].path;
+    l = strlen(name);
+    if (strncmp(symbols[i].name, name, l) == 0
+        && strcmp(&symbols[i].name[l], "_length") == 0)
+      return symbols[i].path;
+  }
+  return NULL;
+}
+
+/**
+ * @short Parses a filename to a function name (changes non allowed chars to _)
+ *
+ * If that name is already used by other file, appends a number.
+ *
+ * @param path The file it is for. It always gets the same name.
+ */
+char *funcname(const char *prefix, const char *filename, const char *path) {
+  int i;
+  for (i = 0; i < nsymbols; i++) {
+    if (strcmp(symbols[i].path, path) == 0)
+      return strdup(symbols[i].name);
+  }
+
+  int l = 8 + 12;
   if (prefix)
     l += strlen(prefix);
   if (filename)
@@ -125,13 +159,21 @@ char *funcname(const char *prefix, const char *filename) {
 
   if (filename && filename[0] != '\0')
     strcat(ret, filename);
-  int i = 0;
+  i = 0;
   while (ret[i] != '\0') {
     if (!((ret[i] >= 'a' && ret[i] <= 'z') || (ret[i] >= 'A' && ret[i] <= 'Z')
           || (ret[i] >= '0' && ret[i] <= '9')))
       ret[i] = '_';
     i++;
   }
+  int n;
+  for (n = 2; symbol_owner(ret); n++)
+    sprintf(&ret[i], "_%d", n);
+
+  symbols = realloc(symbols, sizeof(*symbols) * (nsymbols + 1));
+  symbols[nsymbols].name = strdup(ret);
+  symbols[nsymbols].path = strdup(path);
+  nsymbols++;
   return ret;
 }
 
@@ -160,7 +202,7 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
     onion_assets_file_free(assets);
     exit(3);
   }
-  char *fname = funcname(prefix, basename((char *)filename));
+  char *fname = funcname(prefix, onion_basename(filename), filename);
   char buffer[4096];
   buffer[4095] = 0;
 
@@ -202,6 +244,23 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
   free(fname);
 }
 
+/// Files documented as ignored
+static int ignored(const char *name) {
+  return name[0] == '.' || name[strlen(name) - 1] == '~';
+}
+
+/// Not all filesystems say it at readdir, and links are what they point to.
+static int is_directory(const char *path) {
+  struct stat st;
+  return stat(path, &st) == 0 && S_ISDIR(st.st_mode);
+}
+
+static char *join(const char *a, const char *b) {
+  char *ret = malloc(strlen(a) + strlen(b) + 2);
+  sprintf(ret, "%s/%s", a, b);
+  return ret;
+}
+
 /**
  * @short Bulk converts all files at dirname, excepting *~, and the creates a handler for such directory.
  */
@@ -215,26 +274,28 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
   }
   // First create other files/dirs
   struct dirent *de;
-  char fullname[1024];
   while ((de = readdir(dir))) {
-    if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
+    if (ignored(de->d_name))
       continue;
-    snprintf(fullname, sizeof(fullname), "%s/%s", dirname, de->d_name);
-    if (de->d_type == DT_DIR) {
-      char prefix2[256];
-      snprintf(prefix2, sizeof(prefix2), "%s/%s", prefix, de->d_name);
+    char *fullname = join(dirname, de->d_name);
+    if (is_directory(fullname)) {
+      char *prefix2 = join(prefix, de->d_name);
       parse_directory(prefix2, fullname, outfd, assets);
+      free(prefix2);
     } else
       parse_file(prefix, fullname, outfd, assets);
+    free(fullname);
   }
   closedir(dir);
   // Now create current
-  char *fname = funcname(prefix, NULL);
-  snprintf(fullname, sizeof(fullname),
-           "onion_connection_status %s(void *_, onion_request *req, onion_response *res);",
-           fname);
-  onion_assets_file_update(assets, fullname);
-  fprintf(stderr, "Parsing directory: %s to '%s'.\n", dirname, fullname);
+  char *fname = funcname(prefix, NULL, dirname);
+  const char *prototype =
+      "onion_connection_status %s(void *_, onion_request *req, onion_response *res);";
+  char *line = malloc(strlen(prototype) + strlen(fname) + 1);
+  sprintf(line, prototype, fname);
+  onion_assets_file_update(assets, line);
+  fprintf(stderr, "Parsing directory: %s to '%s'.\n", dirname, line);
+  free(line);
   fprintf(outfd,
           "onion_connection_status %s(void *_, onion_request *req, onion_response *res){\n",
           fname);
@@ -242,23 +303,30 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
 
   dir = opendir(dirname);
   while ((de = readdir(dir))) {
-    if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
+    if (ignored(de->d_name))
       continue;
-    char *fname = funcname(prefix, de->d_name);
-    if (de->d_type == DT_DIR) {
+    char *fullname = join(dirname, de->d_name);
+    char *fname = funcname(prefix, de->d_name, fullname);
+    if (is_directory(fullname)) {
       int l = strlen(de->d_name);
       fprintf(outfd, "  if (strncmp(");
       print_literal(outfd, de->d_name);
       fprintf(outfd, "\"/\", path, %d)==0){\n", l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
+      fprintf(outfd, "    onion_connection_status ret=%s(_, req, res);\n",
+              fname);
+      fprintf(outfd, "    if (ret==OCS_NOT_PROCESSED) // Next handlers need it\n");
+      fprintf(outfd, "      onion_request_advance_path(req, -%d);\n", l + 1);
+      fprintf(outfd, "    return ret;\n");
     } else {
       fprintf(outfd, "  if (strcmp(");
       print_literal(outfd, de->d_name);
       fprintf(outfd, ", path)==0){\n");
+      fprintf(outfd, "    return %s(_, req, res);\n", fname);
     }
-    fprintf(outfd, "    return %s(_, req, res);\n", fname);
     fprintf(outfd, "  }\n");
     free(fname);
+    free(fullname);
   }
   closedir(dir);
 
-- 
2.43.0


From d2d7ba686dd992a4119da075045f798e1acb8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:36 +0000
Subject: [PATCH 119/153] fix: updating an assets file larger than 4kb damaged
 it [C21]

---
 tools/common/updateassets.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 35484d9..611d03c 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -137,24 +137,18 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
   ret->tail = NULL;
 
   if (file) {
-    char buffer[4096];
-    int r = 0;
-    int o = 0;
+    char *buffer = NULL;
+    size_t size = 0;
+    ssize_t r;
     int total = 0;
-    do {
-      r = fread(&buffer[o], 1, sizeof(buffer) - o, file);
-      int i;
-      o = 0;
-      for (i = 0; i < r; i++) {
-        if (buffer[i] == '\n') {
-          buffer[i] = 0;
-          ONION_DEBUG("Read original line <%s>", &buffer[o]);
-          onion_assets_file_add_line(ret, &buffer[o]);
-          total += strlen(&buffer[o]);
-          o = i + 1;
-        }
-      }
-    } while (r > 0);
+    while ((r = getline(&buffer, &size, file)) > 0) {
+      if (buffer[r - 1] == '\n')
+        buffer[--r] = 0;
+      ONION_DEBUG("Read original line <%s>", buffer);
+      onion_assets_file_add_line(ret, buffer);
+      total += r;
+    }
+    free(buffer);
     onion_assets_file_set_tail(ret);
     fclose(file);
     if (total > 0) {
-- 
2.43.0


From fcb2c8f282a77b78e41d7a7df22132ef1175abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 120/153] fix: otemplate broke on many file names and on long
 paths [C22]

Function names are derived from the file name: every character that is not
valid in a C identifier is replaced, a '%' is not a format, and includes with
a directory refer to the same function their template defines.
---
 tools/otemplate/functions.c    |  5 ++---
 tools/otemplate/otemplate.c    | 14 ++++++++------
 tools/otemplate/tag_builtins.c | 12 ++++++------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 358f1cf..564d0a0 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -28,6 +28,7 @@
 
 #include <onion/log.h>
 #include <onion/block.h>
+#include <onion/utils.h>
 
 #include "list.h"
 #include "parser.h"
@@ -183,9 +184,7 @@ function_data *function_new(parser_status * st, const char *fmt, ...) {
 
     char *p = tmp;
     while (*p) {
-      if (*p == '.')
-        *p = '_';
-      if (*p == '-')
+      if (!is_alnum(*p))
         *p = '_';
       p++;
     }
diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index bd1576e..10206fe 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -32,6 +32,7 @@
 
 #include "onion/log.h"
 #include "onion/block.h"
+#include "onion/codecs.h"
 #include "onion/utils.h"
 #include "list.h"
 #include "parser.h"
@@ -180,9 +181,7 @@ int work(const char *infilename, const char *outfilename,
   status.line = 1;
   status.rawblock = onion_block_new();
   status.infilename = infilename;
-  char tmp2[256];
-  strncpy(tmp2, infilename, sizeof(tmp2) - 1);
-  const char *tname = onion_basename(tmp2);
+  const char *tname = onion_basename(infilename);
   ONION_DEBUG("Create init function on top, tname %s", tname);
   status.blocks_init = function_new(&status, "%s_blocks_init", tname);
   status.blocks_init->signature = "onion_dict *context";
@@ -198,7 +197,7 @@ int work(const char *infilename, const char *outfilename,
   }
 
   ONION_DEBUG("Create main function on top, tname %s", tname);
-  function_new(&status, tname);
+  function_new(&status, "%s", tname);
 
   function_add_code(&status,
                     "  int has_context=(context!=NULL);\n"
@@ -245,8 +244,11 @@ int work(const char *infilename, const char *outfilename,
 
   functions_write_main_code(&status);
 
-  if (use_orig_line_numbers)
-    fprintf(status.out, "#line 1 \"%s\"\n", infilename);
+  if (use_orig_line_numbers) {
+    char *quoted = onion_c_quote_new(infilename);
+    fprintf(status.out, "#line 1 %s\n", quoted);
+    free(quoted);
+  }
 
   functions_write_code(&status);
 
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 4cc9864..b9fd510 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -180,7 +180,8 @@ void tag_endif(parser_status * st, list * l) {
 void tag_include(parser_status * st, list * l) {
   assert(st != NULL);           // Tell coverty that at function_new it will keep a pointer to the original, always.
 
-  function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
+  function_data *d =
+      function_new(st, "%s", onion_basename(tag_value_arg(l, 1)));
   function_pop(st);
   onion_block_free(d->code);    // This means no impl
   d->code = NULL;
@@ -189,7 +190,8 @@ void tag_include(parser_status * st, list * l) {
 }
 
 void tag_extends(parser_status * st, list * l) {
-  function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
+  function_data *d =
+      function_new(st, "%s", onion_basename(tag_value_arg(l, 1)));
   function_pop(st);
   onion_block_free(d->code);
   d->code = NULL;
@@ -208,11 +210,9 @@ void tag_block(parser_status * st, list * l) {
                     "    if (f)\n"
                     "      f(context, res);\n" "  }\n", block_name);
 
-  char tmp[256];
-  assert(strlen(st->infilename) < sizeof(tmp));
-  strncpy(tmp, st->infilename, sizeof(tmp) - 1);
   function_data *d =
-      function_new(st, "%s__block_%s", onion_basename(tmp), block_name);
+      function_new(st, "%s__block_%s", onion_basename(st->infilename),
+                   block_name);
   function_add_code_f(st->blocks_init,
                       "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
                       "    onion_dict_add(context, \"__block_%s__\", %s, 0);\n",
-- 
2.43.0


From 7ac3e40a65997a373efb637ced7ef55e0af5f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 121/153] fix: otemplate cut lines of text longer than 4kb
 [C22]

---
 tools/otemplate/functions.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 564d0a0..cf6bc5f 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -21,6 +21,10 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdarg.h>
@@ -229,12 +233,14 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
   if (p->flags & F_NO_MORE_WRITE)
     return;
 
-  char tmp[4096];
+  char *tmp = NULL;
 
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  int r = vasprintf(&tmp, fmt, ap);
   va_end(ap);
+  if (r < 0)
+    abort();
 
   if (use_orig_line_numbers) {
     char line[32];
@@ -261,20 +267,24 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
     //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
     onion_block_add_str(st->current_code, tmp);
   }
+  free(tmp);
 }
 
 /**
  * @short Adds some code to a given function.
  */
 void function_add_code_f(struct function_data_t *f, const char *fmt, ...) {
-  char tmp[4096];
+  char *tmp = NULL;
 
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  int r = vasprintf(&tmp, fmt, ap);
   va_end(ap);
+  if (r < 0)
+    abort();
 
   //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
 
   onion_block_add_str(f->code, tmp);
+  free(tmp);
 }
-- 
2.43.0


From 9a0732d1a03138c878166cce4f1a992895db08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 122/153] fix: otemplate lost the text after a zero byte [C22]

And the generated code read past the string.
---
 tools/otemplate/parser.c | 47 +++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index efb3cad..7bd3c4e 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -129,38 +129,25 @@ void write_block(parser_status * st, onion_block * b) {
   switch (mode) {
   case TEXT:
     {
-      int oldl;
-      if ((oldl = onion_block_size(b))) {
-        if (oldl > 0) {         // Not Just \0
-          int use_orig_line_numbers_bak = use_orig_line_numbers;
-          use_orig_line_numbers = 0;
-          char *safe = onion_c_quote_new(onion_block_data(b));
-          function_add_code(st, "  onion_response_write(res, ");
-          int pos = 0;
-          int size = strlen(safe);
-          char *s = safe;
-          //ONION_DEBUG("------- pos %d, size %d",pos,size);
-          while (pos < size) {
-            //ONION_DEBUG("pos %d, size %d",pos,size);
-            char *e = strstr(s, "\n");
-            if (!e)
-              break;
-            *e = '\0';
-            if (pos == 0)
-              function_add_code(st, "%s\n", s);
-            else
-              function_add_code(st, "      %s\n", s);
-            pos += (e - s) + 1;
-            s = e + 1;
-          }
-          if (pos == 0)
-            function_add_code(st, "%s, %d);\n", s, oldl);
-          else
-            function_add_code(st, "      %s, %d);\n", s, oldl);
-          use_orig_line_numbers = use_orig_line_numbers_bak;
-          free(safe);
+      int use_orig_line_numbers_bak = use_orig_line_numbers;
+      use_orig_line_numbers = 0;
+      int size = onion_block_size(b);
+      const char *data = onion_block_data(b);
+      int pos = 0;
+      while (pos < size) {
+        if (data[pos] == '\0') {        // Can not be inside a C string
+          function_add_code(st, "  onion_response_write(res, \"\", 1);\n");
+          pos++;
+          continue;
         }
+        int l = strlen(&data[pos]);
+        char *safe = onion_c_quote_new(&data[pos]);
+        function_add_code(st, "  onion_response_write(res, %s, %d);\n", safe,
+                          l);
+        free(safe);
+        pos += l;
       }
+      use_orig_line_numbers = use_orig_line_numbers_bak;
     }
     break;
   case VARIABLE:
-- 
2.43.0


From e9aa43da3ea2ba4aacce46c0f699da31716d77af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 123/153] fix: otemplate parser mishandled % in tags, ##} and
 the end of the file [C22]

After a percent sign inside a tag any brace ended it, a comment that ends
with two hashes did not end, a last { was lost, and an unterminated variable,
tag or comment was accepted.
---
 tools/otemplate/parser.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index 7bd3c4e..2b1c0f8 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -76,7 +76,7 @@ void parse_template(parser_status * status) {
     case COMMENTHASH:
       if (c == '}')
         set_mode(status, TEXT);
-      else
+      else if (c != '#')
         set_mode(status, COMMENT);
       break;
     case VARIABLE:
@@ -94,19 +94,21 @@ void parse_template(parser_status * status) {
     case END_VARIABLE:
       if (c == '}')
         set_mode(status, TEXT);
-      else {
-        set_mode(status, VARIABLE);
+      else {                    // Was just a brace, still in the variable
         add_char(status, '}');
         add_char(status, c);
+        status->mode = VARIABLE;
       }
       break;
     case END_TAG:
       if (c == '}')
         set_mode(status, TEXT);
-      else {
-        set_mode(status, END_TAG);
+      else {                    // Was just a percent sign, still in the tag
         add_char(status, '%');
-        add_char(status, c);
+        if (c != '%') {
+          add_char(status, c);
+          status->mode = TAG;
+        }
       }
       break;
     default:
@@ -115,6 +117,19 @@ void parse_template(parser_status * status) {
       return;
     }
   }
+  if (status->mode == BEGIN) {  // Just a brace at the end
+    set_mode(status, TEXT);
+    add_char(status, '{');
+  } else if (status->mode != TEXT) {
+    ONION_ERROR("%s:%d Unterminated %s at the end of the template",
+                status->infilename, status->line,
+                (status->mode == VARIABLE
+                 || status->mode == END_VARIABLE) ? "variable"
+                : (status->mode == TAG
+                   || status->mode == END_TAG) ? "tag" : "comment");
+    status->status = 1;
+    return;
+  }
   set_mode(status, END);
 }
 
-- 
2.43.0


From 5a8b1614aae360613821bf462ac60ee74af1af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 124/153] fix: otemplate if was false for dicts and true for
 empty strings [C22]

As the test template expects.
---
 tools/otemplate/tag_builtins.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index b9fd510..26095e5 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -122,11 +122,14 @@ void tag_endfor(parser_status * st, list * l) {
 void tag_if(parser_status * st, list * l) {
   int lc = list_count(l);
   if (lc == 2) {
-    function_add_code(st, "  {\n" "    const char *tmp;\n");
+    function_add_code(st,
+                      "  {\n" "    const char *tmp;\n"
+                      "    onion_dict *dtmp=NULL;\n");
     variable_solve(st, tag_value_arg(l, 1), "tmp", tag_type_arg(l, 1));
+    if (tag_type_arg(l, 1) == STRING)
+      variable_solve(st, tag_value_arg(l, 1), "dtmp", DICT);
     function_add_code(st,
-                      "    if (tmp && strcmp(tmp, \"false\")!=0)\n",
-                      tag_value_arg(l, 1));
+                      "    if (tmp ? (*tmp && strcmp(tmp, \"false\")!=0) : onion_dict_count(dtmp)>0)\n");
   } else if (lc == 4) {
     const char *op = tag_value_arg(l, 2);
     const char *opcmp = NULL;
-- 
2.43.0


From ad1e73424d3a2d06b27b9a1b5ad830181cad27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 125/153] fix: otemplate if comparisons of a value with itself
 [C22]

Were always true, also for !=, < and >, and a missing value was not
different to a present one.
---
 tools/otemplate/tag_builtins.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 26095e5..8f7130b 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -149,9 +149,11 @@ void tag_if(parser_status * st, list * l) {
       function_add_code(st, "  {\n" "    const char *op1, *op2;\n");
       variable_solve(st, tag_value_arg(l, 1), "op1", tag_type_arg(l, 1));
       variable_solve(st, tag_value_arg(l, 3), "op2", tag_type_arg(l, 3));
+      // A missing value is equal only to another missing value, and has no order.
       function_add_code(st,
-                        "    if (op1==op2 || (op1 && op2 && strcmp(op1, op2)%s))\n",
-                        opcmp);
+                        "    if ((op1 && op2) ? strcmp(op1, op2)%s : %s)\n",
+                        opcmp, (strcmp(op, "!=") == 0) ? "op1!=op2" :
+                        (strchr(op, '=') != NULL) ? "op1==op2" : "0");
     } else {
       ONION_ERROR("%s:%d Unkonwn operator for if: %s", st->infilename, st->line,
                   op);
-- 
2.43.0


From 845c634c6244b76946f737957ea9c29e8b4bea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 126/153] fix: otemplate succeeded when it could not open its
 files [C22]

---
 tools/otemplate/otemplate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 10206fe..cf62a63 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -193,6 +193,7 @@ int work(const char *infilename, const char *outfilename,
 
   if (!status.in) {
     ONION_ERROR("Could not open in file %s", infilename);
+    status.status = 1;
     goto work_end;
   }
 
@@ -222,7 +223,8 @@ int work(const char *infilename, const char *outfilename,
   else
     status.out = fopen(outfilename, "wt");
   if (!status.out) {
-    ONION_ERROR("Could not open out file %s", infilename);
+    ONION_ERROR("Could not open out file %s", outfilename);
+    status.status = 1;
     goto work_end;
   }
 
-- 
2.43.0


From aec624abd0ba2992dd4b4bd83f53a29f18d9f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:28 +0000
Subject: [PATCH 127/153] fix: otemplate could not read from stdin, nor look
 for plugins at long paths [C22]

And the directory of the template was taken from the first argument even if
it was an option.
---
 tools/otemplate/load.c      |  3 ++-
 tools/otemplate/otemplate.c | 40 ++++++++++++++++++-------------------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/tools/otemplate/load.c b/tools/otemplate/load.c
index b9395a5..7ec9b3c 100644
--- a/tools/otemplate/load.c
+++ b/tools/otemplate/load.c
@@ -23,6 +23,7 @@
 
 #include <stdio.h>
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 
 #include <onion/log.h>
@@ -41,7 +42,7 @@ extern list *plugin_search_path;
  * @returns 0 on success, -1 on error
  */
 int load_external(const char *filename) {
-  char tmp[256];
+  char tmp[PATH_MAX];
 
   list_item *it = plugin_search_path->head;
   void *dl = NULL;
diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index cf62a63..4ab4865 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -46,13 +46,21 @@ int work(const char *infilename, const char *outfilename,
 
 void help(const char *msg);
 
+/// Adds to the plugin search path a directory at the same place as the file.
+static void add_search_path(const char *filename, const char *subdir) {
+  char *tmp = strdup(filename);
+  char *path = NULL;
+  if (tmp && asprintf(&path, "%s/%slib%%s.so", dirname(tmp), subdir) >= 0)
+    list_add(plugin_search_path, path);
+  free(tmp);
+}
+
 int main(int argc, char **argv) {
   // Add some plugin searhc paths
   plugin_search_path = list_new(free);
 
   const char *infilename = NULL;
   const char *outfilename = NULL;
-  char tmp[256];
   char *assetfilename = "assets.h";
 
   int i;
@@ -67,9 +75,11 @@ int main(int argc, char **argv) {
         help("Missing templatedir name");
         return 3;
       }
-      snprintf(tmp, sizeof(tmp), "%s/lib%%s.so", argv[i]);
-      ONION_DEBUG("Added templatedir %s", tmp);
-      list_add(plugin_search_path, strdup(tmp));        // dup, remember to free later.
+      char *tmp = NULL;
+      if (asprintf(&tmp, "%s/lib%%s.so", argv[i]) >= 0) {
+        ONION_DEBUG("Added templatedir %s", tmp);
+        list_add(plugin_search_path, tmp);
+      }
     } else if ((strcmp(argv[i], "--no-orig-lines") == 0)
                || (strcmp(argv[i], "-n") == 0)) {
       use_orig_line_numbers = 0;
@@ -103,29 +113,17 @@ int main(int argc, char **argv) {
     return 2;
   }
 
-  if (strcmp(infilename, "-") == 0) {
-    infilename = "";
-  } else {
-    char tmp2[256];
-    strncpy(tmp2, argv[1], sizeof(tmp2) - 1);
-    snprintf(tmp, sizeof(tmp), "%s/lib%%s.so", dirname(tmp2));
-    list_add(plugin_search_path, strdup(tmp));
-    strncpy(tmp2, argv[1], sizeof(tmp2) - 1);
-    snprintf(tmp, sizeof(tmp), "%s/templatetags/lib%%s.so", dirname(tmp2));
-    list_add(plugin_search_path, strdup(tmp));
+  if (strcmp(infilename, "-") != 0) {
+    add_search_path(infilename, "");
+    add_search_path(infilename, "templatetags/");
   }
 
   // Default template dirs
   list_add_with_flags(plugin_search_path, "lib%s.so", LIST_ITEM_NO_FREE);
   list_add_with_flags(plugin_search_path, "templatetags/lib%s.so",
                       LIST_ITEM_NO_FREE);
-  char tmp2[256];
-  strncpy(tmp2, argv[0], sizeof(tmp2) - 1);
-  snprintf(tmp, sizeof(tmp), "%s/templatetags/lib%%s.so", dirname(tmp2));
-  list_add(plugin_search_path, strdup(tmp));    // dupa is ok, as im at main.
-  strncpy(tmp2, argv[0], sizeof(tmp2) - 1);
-  snprintf(tmp, sizeof(tmp), "%s/lib%%s.so", dirname(tmp2));
-  list_add(plugin_search_path, strdup(tmp));    // dupa is ok, as im at main.
+  add_search_path(argv[0], "templatetags/");
+  add_search_path(argv[0], "");
   list_add_with_flags(plugin_search_path,
                       "/usr/local/lib/otemplate/templatetags/lib%s.so",
                       LIST_ITEM_NO_FREE);
-- 
2.43.0


From 41f5c2aac3d0c0cddd3dd144006337f0361a49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 128/153] fix: otemplate crashed on, or accepted, malformed
 templates [C22]

Unbalanced or crossed tags, missing arguments, repeated blocks, unterminated
strings and empty variables are now reported as errors.
---
 tools/otemplate/functions.c         |  1 +
 tools/otemplate/functions.h         |  1 +
 tools/otemplate/otemplate.c         |  7 +++
 tools/otemplate/tag_builtins.c      | 66 ++++++++++++++++++++++++++---
 tools/otemplate/tags.c              |  7 +++
 tools/otemplate/templatetags/i18n.c |  7 +++
 tools/otemplate/variables.c         |  9 ++++
 7 files changed, 93 insertions(+), 5 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index cf6bc5f..9cf058e 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -174,6 +174,7 @@ function_data *function_new(parser_status * st, const char *fmt, ...) {
     //ONION_DEBUG("push function stack, length is %d", list_count(st->function_stack));
   }
   d->signature = NULL;
+  d->opened_by = NULL;
 
   char tmp[512];                // Here at begining was 128, but somehow it was corrupting stack. Stack cheap here, so no risks.
   if (!fmt) {
diff --git a/tools/otemplate/functions.h b/tools/otemplate/functions.h
index 3324375..ad97953 100644
--- a/tools/otemplate/functions.h
+++ b/tools/otemplate/functions.h
@@ -39,6 +39,7 @@ struct function_data_t {
   int is_static:1;
   const char *signature;        /// The function signature. If NULL its the standard
   int flags;
+  const char *opened_by;        /// Tag that opened this function and must be closed. NULL if none.
 };
 
 typedef struct function_data_t function_data;
diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 4ab4865..db7d20d 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -206,6 +206,13 @@ int work(const char *infilename, const char *outfilename,
 
   parse_template(&status);
 
+  const char *unclosed =
+      ((function_data *) status.function_stack->tail->data)->opened_by;
+  if (unclosed) {
+    ONION_ERROR("%s:%d Unclosed %s", infilename, status.line, unclosed);
+    status.status = 1;
+  }
+
   ((function_data *) status.function_stack->tail->data)->flags = 0;
 
   function_add_code(&status,
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 8f7130b..d8a8007 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -68,6 +68,18 @@ void tag_init_builtins() {
   tag_add("endblock", tag_endblock);
 }
 
+/// Marks an error at the current position
+static void tag_error(parser_status * st, const char *msg, const char *what) {
+  ONION_ERROR("%s:%d %s: %s", st->infilename, st->line, msg, what);
+  st->status = 1;
+}
+
+/// Whether the innermost open tag is this one
+static int tag_is_open(parser_status * st, const char *tag) {
+  function_data *d = (function_data *) st->function_stack->tail->data;
+  return d->opened_by && strcmp(d->opened_by, tag) == 0;
+}
+
 /// Loads an external handler set
 void tag_load(parser_status * st, list * l) {
   list_item *it = l->head->next;
@@ -87,6 +99,12 @@ void tag_load(parser_status * st, list * l) {
 
 /// Do the first for part.
 void tag_for(parser_status * st, list * l) {
+  if (list_count(l) != 4 || strcmp(tag_value_arg(l, 2), "in") != 0) {
+    tag_error(st, "Malformed tag", "for. Should be 'for VAR in VAR'");
+    function_new(st, NULL);
+    function_new(st, NULL)->opened_by = "for";
+    return;
+  }
   function_add_code(st, "  {\n" "    onion_dict *loopdict=NULL;\n");
   variable_solve(st, tag_value_arg(l, 3), "loopdict", 2);
 // "    onion_dict_get_dict(context, \"%s\");\n", tag_value_arg (l,3));
@@ -98,15 +116,21 @@ void tag_for(parser_status * st, list * l) {
   function_data *d = function_new(st, NULL);
   d->signature = "dict_res *dr, const char *key, const void *value, int flags";
 
+  char *name = onion_c_quote_new(tag_value_arg(l, 1));
   function_add_code(st,
-                    "  onion_dict_add(dr->dict, \"%s\", value, OD_DUP_VALUE|OD_REPLACE|(flags&OD_TYPE_MASK));\n",
-                    tag_value_arg(l, 1));
+                    "  onion_dict_add(dr->dict, %s, value, OD_DUP_VALUE|OD_REPLACE|(flags&OD_TYPE_MASK));\n",
+                    name);
+  free(name);
 
-  function_new(st, NULL);
+  function_new(st, NULL)->opened_by = "for";
 }
 
 /// Ends a for
 void tag_endfor(parser_status * st, list * l) {
+  if (!tag_is_open(st, "for")) {
+    tag_error(st, "Unexpected tag", "endfor");
+    return;
+  }
   // First the preorder function
   function_data *d = function_pop(st);
   function_add_code(st, "  %s(dr->dict, dr->res);\n", d->id);
@@ -164,19 +188,27 @@ void tag_if(parser_status * st, list * l) {
                 st->infilename, st->line, lc - 1);
     st->status = 1;
   }
-  function_new(st, NULL);
+  function_new(st, NULL)->opened_by = "if";
 }
 
 /// Else part
 void tag_else(parser_status * st, list * l) {
+  if (!tag_is_open(st, "if")) {
+    tag_error(st, "Unexpected tag", "else");
+    return;
+  }
   function_data *d = function_pop(st);
   function_add_code(st, "      %s(context, res);\n    else\n", d->id);
 
-  function_new(st, NULL);
+  function_new(st, NULL)->opened_by = "else";
 }
 
 /// endif
 void tag_endif(parser_status * st, list * l) {
+  if (!tag_is_open(st, "if") && !tag_is_open(st, "else")) {
+    tag_error(st, "Unexpected tag", "endif");
+    return;
+  }
   function_data *d = function_pop(st);
   function_add_code(st, "      %s(context, res);\n  }\n", d->id);
 }
@@ -184,6 +216,10 @@ void tag_endif(parser_status * st, list * l) {
 /// Include an external html. This is only the call, the programmer must compile such html too.
 void tag_include(parser_status * st, list * l) {
   assert(st != NULL);           // Tell coverty that at function_new it will keep a pointer to the original, always.
+  if (list_count(l) != 2) {
+    tag_error(st, "Malformed tag", "include. Needs the name of the template");
+    return;
+  }
 
   function_data *d =
       function_new(st, "%s", onion_basename(tag_value_arg(l, 1)));
@@ -195,6 +231,10 @@ void tag_include(parser_status * st, list * l) {
 }
 
 void tag_extends(parser_status * st, list * l) {
+  if (list_count(l) != 2) {
+    tag_error(st, "Malformed tag", "extends. Needs the name of the template");
+    return;
+  }
   function_data *d =
       function_new(st, "%s", onion_basename(tag_value_arg(l, 1)));
   function_pop(st);
@@ -208,6 +248,10 @@ void tag_extends(parser_status * st, list * l) {
 
 void tag_block(parser_status * st, list * l) {
   const char *block_name = tag_value_arg(l, 1);
+  if (list_count(l) != 2) {
+    tag_error(st, "Malformed tag", "block. Needs the name of the block");
+    block_name = "";
+  }
   function_add_code(st,
                     "  {\n"
                     "    void (*f)(onion_dict *context, onion_response *res);\n"
@@ -218,6 +262,14 @@ void tag_block(parser_status * st, list * l) {
   function_data *d =
       function_new(st, "%s__block_%s", onion_basename(st->infilename),
                    block_name);
+  d->opened_by = "block";
+  list_item *it = st->functions->head;
+  while (it) {
+    function_data *other = it->data;
+    if (other != d && strcmp(other->id, d->id) == 0)
+      tag_error(st, "Repeated block", block_name);
+    it = it->next;
+  }
   function_add_code_f(st->blocks_init,
                       "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
                       "    onion_dict_add(context, \"__block_%s__\", %s, 0);\n",
@@ -225,5 +277,9 @@ void tag_block(parser_status * st, list * l) {
 }
 
 void tag_endblock(parser_status * st, list * l) {
+  if (!tag_is_open(st, "block")) {
+    tag_error(st, "Unexpected tag", "endblock");
+    return;
+  }
   function_pop(st);
 }
diff --git a/tools/otemplate/tags.c b/tools/otemplate/tags.c
index c435a24..9e6c629 100644
--- a/tools/otemplate/tags.c
+++ b/tools/otemplate/tags.c
@@ -125,6 +125,13 @@ void tag_write(parser_status * st, onion_block * b) {
   if (mode == 1)
     list_add(command, tag_token_new(&data[li], i - li, T_VAR));
 
+  if (mode == 2) {
+    ONION_ERROR("%s:%d Unterminated string", st->infilename, st->line);
+    st->status = 1;
+    list_free(command);
+    return;
+  }
+
   if (!command->head) {
     ONION_ERROR("%s:%d Incomplete command", st->infilename, st->line);
     st->status = 1;
diff --git a/tools/otemplate/templatetags/i18n.c b/tools/otemplate/templatetags/i18n.c
index 73b652b..fd5de97 100644
--- a/tools/otemplate/templatetags/i18n.c
+++ b/tools/otemplate/templatetags/i18n.c
@@ -24,12 +24,19 @@
 #include <stdlib.h>
 
 #include <onion/codecs.h>
+#include <onion/log.h>
 
 #include "../tags.h"
 #include "../functions.h"
 
 /// Following text is for gettext
 void tag_trans(parser_status * st, list * l) {
+  if (!tag_value_arg(l, 1)) {
+    ONION_ERROR("%s:%d Malformed tag: trans. Needs the text to translate",
+                st->infilename, st->line);
+    st->status = 1;
+    return;
+  }
   char *s = onion_c_quote_new(tag_value_arg(l, 1));
   function_add_code(st,
                     "  onion_response_write0(res, dgettext(onion_dict_get(context, \"LANG\"), %s));\n",
diff --git a/tools/otemplate/variables.c b/tools/otemplate/variables.c
index 4e1ba75..fc312af 100644
--- a/tools/otemplate/variables.c
+++ b/tools/otemplate/variables.c
@@ -27,6 +27,7 @@
 #include <onion/block.h>
 #include <onion/codecs.h>
 #include <onion/log.h>
+#include <onion/utils.h>
 #include <stdlib.h>
 
 /**
@@ -35,6 +36,14 @@
  * It can go deep inside a dict or list, and apply filters.
  */
 void variable_write(parser_status * st, onion_block * b) {
+  const char *name = onion_block_data(b);
+  while (is_space(*name))
+    name++;
+  if (!*name) {
+    ONION_ERROR("%s:%d Empty variable", st->infilename, st->line);
+    st->status = 1;
+    return;
+  }
 
   function_add_code(st, "  {\n" "    const char *tmp;\n");
   variable_solve(st, onion_block_data(b), "tmp", STRING);
-- 
2.43.0


From d874865e543ca91a264a3ada011a5f135bbb9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 129/153] fix: otemplate took tabs as part of the variable name
 [C22]

---
 tools/otemplate/variables.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/otemplate/variables.c b/tools/otemplate/variables.c
index fc312af..c0d046c 100644
--- a/tools/otemplate/variables.c
+++ b/tools/otemplate/variables.c
@@ -81,7 +81,7 @@ void variable_solve(parser_status * st, const char *data, const char *tmpname,
   for (i = 0; i < l; i++) {
     if (d[i] == '.')
       list_add(parts, lastblock = onion_block_new());
-    else if (d[i] == ' ')
+    else if (is_space(d[i]))
       continue;
     else
       onion_block_add_char(lastblock, d[i]);
-- 
2.43.0


From 2c74719f9228912cb27b76648eab199f22c27aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 130/153] fix: otemplate blocks inside loops crashed, and
 blocks stayed in the context [C22]

The function to call was copied as if it was a string. And rendering another
template with the same context used the blocks of the first one.
---
 tools/otemplate/otemplate.c    | 14 ++++++++------
 tools/otemplate/tag_builtins.c | 22 +++++++++++++++-------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index db7d20d..728a2b2 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -182,7 +182,7 @@ int work(const char *infilename, const char *outfilename,
   const char *tname = onion_basename(infilename);
   ONION_DEBUG("Create init function on top, tname %s", tname);
   status.blocks_init = function_new(&status, "%s_blocks_init", tname);
-  status.blocks_init->signature = "onion_dict *context";
+  status.blocks_init->signature = "onion_dict **context";
 
   if (strcmp(infilename, "-") == 0)
     status.in = stdin;
@@ -199,10 +199,10 @@ int work(const char *infilename, const char *outfilename,
   function_new(&status, "%s", tname);
 
   function_add_code(&status,
-                    "  int has_context=(context!=NULL);\n"
-                    "  if (!has_context)\n"
-                    "    context=onion_dict_new();\n"
-                    "  \n" "  %s(context);\n", status.blocks_init->id);
+                    "  onion_dict *orig_context=context;\n"
+                    "  \n" "  %s(&context);\n"
+                    "  if (!context)\n"
+                    "    context=onion_dict_new();\n", status.blocks_init->id);
 
   parse_template(&status);
 
@@ -216,7 +216,8 @@ int work(const char *infilename, const char *outfilename,
   ((function_data *) status.function_stack->tail->data)->flags = 0;
 
   function_add_code(&status,
-                    "  if (!has_context)\n" "    onion_dict_free(context);\n");
+                    "  if (context!=orig_context)\n"
+                    "    onion_dict_free(context);\n");
 
   if (status.status) {
     ONION_ERROR("Parsing error");
@@ -237,6 +238,7 @@ int work(const char *infilename, const char *outfilename,
           "/** Autogenerated by otemplate v. 0.2.0 */\n"
           "\n"
           "#include <libintl.h>\n"
+          "#include <stdio.h>\n"
           "#include <string.h>\n\n"
           "#include <onion/onion.h>\n"
           "#include <onion/dict.h>\n"
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index d8a8007..86ca1fb 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -254,10 +254,11 @@ void tag_block(parser_status * st, list * l) {
   }
   function_add_code(st,
                     "  {\n"
-                    "    void (*f)(onion_dict *context, onion_response *res);\n"
-                    "    f=(void*)onion_dict_get(context, \"__block_%s__\");\n"
-                    "    if (f)\n"
-                    "      f(context, res);\n" "  }\n", block_name);
+                    "    void *f=NULL;\n"
+                    "    const char *tmp=onion_dict_get(context, \"__block_%s__\");\n"
+                    "    if (tmp && sscanf(tmp, \"%%p\", &f)==1 && f)\n"
+                    "      ((void (*)(onion_dict *, onion_response *))f)(context, res);\n"
+                    "  }\n", block_name);
 
   function_data *d =
       function_new(st, "%s__block_%s", onion_basename(st->infilename),
@@ -270,10 +271,17 @@ void tag_block(parser_status * st, list * l) {
       tag_error(st, "Repeated block", block_name);
     it = it->next;
   }
+  // The blocks are set at a copy, the context may be used for other templates.
+  if (onion_block_size(st->blocks_init->code) == 0)
+    function_add_code_f(st->blocks_init,
+                        "  char tmp[32];\n"
+                        "  *context=*context ? onion_dict_hard_dup(*context) : onion_dict_new();\n");
+  // As strings, so that they can be copied too.
   function_add_code_f(st->blocks_init,
-                      "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
-                      "    onion_dict_add(context, \"__block_%s__\", %s, 0);\n",
-                      block_name, block_name, d->id);
+                      "  if (!onion_dict_get(*context, \"__block_%s__\")){\n"
+                      "    snprintf(tmp, sizeof(tmp), \"%%p\", (void*)%s);\n"
+                      "    onion_dict_add(*context, \"__block_%s__\", tmp, OD_DUP_ALL);\n"
+                      "  }\n", block_name, d->id, block_name);
 }
 
 void tag_endblock(parser_status * st, list * l) {
-- 
2.43.0


From 61c19c3c9eaf139a3019e125cd840574f87031f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:44 +0000
Subject: [PATCH 131/153] fix: a log message that just did not fit was written
 with a NUL inside [C31]

---
 src/onion/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index d034652..a46f4ae 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -186,7 +186,7 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   {
     size_t maxsize = sizeof(strout) - strout_length - 6;
     size_t total_size = vsnprintf(strout + strout_length, maxsize, fmt, ap);
-    if (total_size > maxsize) { // Message too long, truncates it
+    if (total_size >= maxsize) {        // Message too long, truncates it
       strout_length += maxsize;
       strout[strout_length - 1] = '.';
       strout[strout_length - 2] = '.';
-- 
2.43.0


From b1cefe663ae0f13420e74db5a653614b3930a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:44 +0000
Subject: [PATCH 132/153] fix: a long file name overran the log line buffer
 [C31]

---
 src/onion/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index a46f4ae..fe2b5bb 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -176,7 +176,7 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   localtime_r(&t, &result);
   strftime(datetime, sizeof(datetime), "%Y-%m-%d %H:%M:%S", &result);
 
-  strout_length += sprintf(strout + strout_length, "[%s] [%s %s:%d] ", datetime, levelstr[level], filename, lineno);    // I dont know why basename is char *. Please somebody tell me.
+  strout_length += sprintf(strout + strout_length, "[%s] [%s %.80s:%d] ", datetime, levelstr[level], filename, lineno);    // I dont know why basename is char *. Please somebody tell me.
 
   va_list ap;
   va_start(ap, fmt);
-- 
2.43.0


From a7c8106e0efd7745e1c430da13da94213963e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:33 +0000
Subject: [PATCH 133/153] fix: memory of realpath was given to the
 application's own free function [C30]

---
 src/onion/handlers/exportlocal.c | 6 ++++--
 src/onion/handlers/webdav.c      | 8 +++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index b8c07d6..f745886 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -284,12 +284,14 @@ void onion_handler_export_local_set_footer(onion_handler * handler,
  * that localpath. Normal permissions apply.
  */
 onion_handler *onion_handler_export_local_new(const char *localpath) {
-  char *rp = realpath(localpath, NULL);
-  if (!rp) {
+  char *realp = realpath(localpath, NULL);
+  if (!realp) {
     ONION_ERROR("Cant calculate the realpath of the given directory (%s).",
                 localpath);
     return NULL;
   }
+  char *rp = onion_low_strdup(realp);   // realpath's memory is always libc's
+  free(realp);
   struct stat st;
   if (stat(rp, &st) != 0) {
     ONION_ERROR("Cant access to the exported directory/file (%s).", rp);
diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 5e3096c..e752ec2 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -738,7 +738,7 @@ int onion_webdav_default_check_permissions(const char *exported_path,
   struct stat st;
   if (!file && lstat(filename, &st) == 0) {     // It is there, but points to somewhere unknown
     ONION_ERROR("Could not resolve %s", filename);
-    onion_low_free(base);
+    free(base);                 // realpath's memory is always libc's
     return 1;
   }
   if (!file) {                  // Maybe it reffers to a non existent file, so we need the parent permissions
@@ -760,10 +760,8 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Base %s is not for file %s", base, file);
   }
 
-  if (base)
-    onion_low_free(base);
-  if (file)
-    onion_low_free(file);
+  free(base);
+  free(file);
   ONION_DEBUG0("Permission %s", ret == 0 ? "granted" : "denied");
   return ret;
 }
-- 
2.43.0


From 94add4af64e101c2d4f3016f8fbb6bcccba2280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:52 +0000
Subject: [PATCH 134/153] fix: the answers to PAM came from the application's
 own memory functions [C30]

---
 src/onion/handlers/auth_pam.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index bd95706..1bb934b 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -138,9 +138,9 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
   ONION_DEBUG0("Num messages %d", num_msg);
   struct pam_response *r;
 
+  // PAM frees it, with libc's free
   *resp = r =
-      (struct pam_response *)onion_low_calloc(num_msg,
-                                              sizeof(struct pam_response));
+      (struct pam_response *)calloc(num_msg, sizeof(struct pam_response));
   if (r == NULL)
     return PAM_BUF_ERR;
 
@@ -148,7 +148,7 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
 
   for (i = 0; i < num_msg; i++) {
     ONION_DEBUG0("Question %d: %s", i, (*msg)[i].msg);
-    r->resp = onion_low_strdup((const char *)appdata_ptr);
+    r->resp = strdup((const char *)appdata_ptr);
     r->resp_retcode = 0;
     r++;
   }
-- 
2.43.0


From ba65b0076d5c858d0d1c99bd688814868a3f193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:11 +0000
Subject: [PATCH 135/153] fix: webdav PROPFIND gave wrong lengths for files
 over 2GB [C10]

---
 src/onion/handlers/webdav.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index e752ec2..eab5591 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -449,7 +449,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
                               BAD_CAST time);
   }
   if (props & WD_CONTENT_LENGTH && !S_ISDIR(st.st_mode)) {
-    snprintf(tmp, sizeof(tmp), "%d", (int)st.st_size);
+    snprintf(tmp, sizeof(tmp), "%lld", (long long)st.st_size);
     xmlTextWriterWriteElement(writer, BAD_CAST "lp1:getcontentlength",
                               BAD_CAST tmp);
   }
-- 
2.43.0


From f6c7a65ec35ca8414cb08d90b07cf9c520a72777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:11 +0000
Subject: [PATCH 136/153] fix: webdav PROPFIND of a directory with final /
 doubled it at the references [C10]

---
 src/onion/handlers/webdav.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index eab5591..1d62965 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -405,7 +405,9 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
     if (urlpath[0] == 0)
       snprintf(tmp, sizeof(tmp), "%s/%s", basepath, filename);
     else
-      snprintf(tmp, sizeof(tmp), "%s/%s/%s", basepath, urlpath, filename);
+      snprintf(tmp, sizeof(tmp),
+               urlpath[strlen(urlpath) - 1] == '/' ? "%s/%s%s" : "%s/%s/%s",
+               basepath, urlpath, filename);
   } else {
     if (urlpath[0] == 0)
       snprintf(tmp, sizeof(tmp), "%s/", basepath);
@@ -413,7 +415,9 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
       snprintf(tmp, sizeof(tmp), "%s/%s", basepath, urlpath);
     }
   }
-  if (S_ISDIR(st.st_mode) && urlpath[0] != 0 && strlen(tmp) < sizeof(tmp) - 1)
+  size_t tmplen = strlen(tmp);
+  if (S_ISDIR(st.st_mode) && urlpath[0] != 0 && tmplen < sizeof(tmp) - 1
+      && tmp[tmplen - 1] != '/')
     strcat(tmp, "/");
   ONION_DEBUG0("Props for %s", tmp);
 
-- 
2.43.0


From e72d54164050abf1fd0a36e1990952786b8a08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:36 +0000
Subject: [PATCH 137/153] fix: webdav PROPFIND references were not url quoted,
 and lead to other resources [C10]

---
 src/onion/handlers/webdav.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 1d62965..f06d031 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -362,6 +362,22 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
   return props;
 }
 
+/// Writes the reference to a resource, which is an url: everything but the separators has to be quoted.
+static void onion_webdav_write_href(xmlTextWriterPtr writer, const char *path) {
+  char tmp[PATH_MAX * 3];
+  char *w = tmp;
+  for (; *path && w < tmp + sizeof(tmp) - 4; path++) {
+    if (strchr("/-._~", *path))
+      *w++ = *path;
+    else {
+      char c[2] = { *path, 0 };
+      w += onion_quote(c, w, 4);
+    }
+  }
+  *w = 0;
+  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", BAD_CAST tmp);
+}
+
 /**
  * @short Write the properties of a path.
  * 
@@ -427,7 +443,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
   xmlTextWriterWriteAttribute(writer, BAD_CAST "xmlns:a",
                               BAD_CAST "http://apache.org/dav/props/");
 
-  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", BAD_CAST tmp);
+  onion_webdav_write_href(writer, tmp);
 
   /// OK
   xmlTextWriterStartElement(writer, BAD_CAST "D:propstat");
-- 
2.43.0


From 2dcf65e83f377201f8cf022a57d9a874d8fc4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:11 +0000
Subject: [PATCH 138/153] fix: poller timeouts were counted in whole seconds,
 and could pass up to one second early [C18]

---
 src/onion/poller.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index b141d9e..0c01632 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -26,6 +26,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdint.h>
 #include <limits.h>
 #include <time.h>
 #include <unistd.h>
@@ -67,7 +68,7 @@ struct onion_poller_t {
   int fd;
   int eventfd;                  ///< fd to signal internal changes on poller.
   int timerfd;                  ///< fd to set up timeouts
-  time_t current_timeout_limit; ///< Currently set limit in seconds
+  int64_t current_timeout_limit;        ///< Currently set limit in milliseconds
 
   int n;
   char stop;
@@ -90,8 +91,8 @@ struct onion_poller_slot_t {
   void (*shutdown) (void *);
   void *shutdown_data;
 
-  time_t timeout;
-  time_t timeout_limit;         ///< Limit in seconds for use with time function.
+  int64_t timeout;
+  int64_t timeout_limit;        ///< Limit in milliseconds, as given by onion_time.
 
   onion_poller_slot *next;
 };
@@ -139,11 +140,11 @@ static void onion_poller_static_deinit() {
 }
 
 /// Wrapper around clock_gettime(CLOCK_MONOTONIC_RAW, &t)
-/// It returns an unspecefified monotonic time in seconds. used for intervals.
-static time_t onion_time() {
+/// It returns an unspecefified monotonic time in milliseconds. used for intervals.
+static int64_t onion_time() {
   struct timespec t;
   clock_gettime(CLOCK_MONOTONIC_RAW, &t);
-  return t.tv_sec;
+  return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
 }
 
 /**
@@ -170,7 +171,7 @@ onion_poller_slot *onion_poller_slot_new(int fd, int (*f) (void *), void *data)
   el->f = f;
   el->data = data;
   el->timeout = -1;
-  el->timeout_limit = INT_MAX;
+  el->timeout_limit = INT64_MAX;
   el->type = EPOLLIN | EPOLLHUP | EPOLLONESHOT | EPOLLHUP;
 
   return el;
@@ -207,8 +208,6 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
  * @short Sets the timeout for the slot
  * @ingroup poller
  *
- * The timeout is passed in ms, but due to current implementation it is rounded to seconds. The interface stays, and hopefully
- * in the future the behaviour will change.
  * @memberof onion_poller_slot_t
  *
  * @param el Slot to modify
@@ -217,12 +216,13 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
 void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout) {
   if (timeout < 0) {            // No timeout
     el->timeout = -1;
-    el->timeout_limit = INT_MAX;
+    el->timeout_limit = INT64_MAX;
     return;
   }
-  el->timeout = (timeout + 999LL) / 1000;       // I dont have that resolution.
+  el->timeout = timeout;
   el->timeout_limit = onion_time() + el->timeout;
-  ONION_DEBUG0("Set timeout to %d, %d s", el->timeout_limit, el->timeout);
+  ONION_DEBUG0("Set timeout to %ld, %ld ms", (long)el->timeout_limit,
+               (long)el->timeout);
 }
 
 /// Sets the type of the poller
@@ -246,7 +246,7 @@ static int onion_poller_stop_helper(void *p) {
 
 static int onion_poller_timer(void *p_);
 
-static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
+static void onion_poller_timer_check(onion_poller * p, int64_t timelimit) {
   // Must be woken up before what is currently set
   pthread_mutex_lock(&p->mutex);
   if (timelimit < p->current_timeout_limit)
@@ -263,8 +263,8 @@ static int onion_poller_timer(void *p_) {
   //if (read(p->timerfd, &count, sizeof(count))>0){ // Triggered.. not really interested
   //}
 
-  time_t ctime = onion_time();
-  time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
+  int64_t ctime = onion_time();
+  int64_t next_timeout = ctime + (24 * 60 * 60 * 1000); // At least once per day
 
   pthread_mutex_lock(&p->mutex);
   onion_poller_slot *next = p->head;
@@ -272,9 +272,9 @@ static int onion_poller_timer(void *p_) {
     onion_poller_slot *cur = next;
     next = next->next;
     if (cur->timeout_limit <= ctime) {
-      ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
-                  cur->timeout_limit, ctime);
-      cur->timeout_limit = INT_MAX;
+      ONION_DEBUG("Timeout on %d, was %ld (ctime %ld)", cur->fd,
+                  (long)cur->timeout_limit, (long)ctime);
+      cur->timeout_limit = INT64_MAX;
       shutdown(cur->fd, SHUT_RD);
     } else if (cur->timeout_limit < next_timeout) {
       next_timeout = cur->timeout_limit;
@@ -284,7 +284,9 @@ static int onion_poller_timer(void *p_) {
 
   //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
   // rearm
-  struct itimerspec next_time = { {0, 0}, {next_timeout - ctime, 0} };
+  int64_t wait = next_timeout - ctime;
+  struct itimerspec next_time =
+      { {0, 0}, {wait / 1000, (wait % 1000) * 1000000} };
   timerfd_settime(p->timerfd, 0, &next_time, NULL);
   pthread_mutex_unlock(&p->mutex);
 
@@ -537,7 +539,7 @@ void onion_poller_poll(onion_poller * p) {
         n = -1;
       } else {                  // I also take care of the timeout, no timeout when on the handler, it should handle it itself.
         pthread_mutex_lock(&p->mutex);
-        el->timeout_limit = INT_MAX;
+        el->timeout_limit = INT64_MAX;
         pthread_mutex_unlock(&p->mutex);
 
 #ifdef __DEBUG0__
-- 
2.43.0


From 33f5cf0c35a0f74a325351245e72eff14d6fe267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:16 +0000
Subject: [PATCH 139/153] fix: the Date header was in local time with the name
 of the zone, HTTP dates are always GMT [C05]

---
 src/onion/response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 77c3722..d866102 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -107,14 +107,14 @@ onion_response *onion_response_new(onion_request * req) {
       ONION_DEBUG("Recalculating date header");
       char current_datetime[200];
 
-      if (localtime_r(&t, &tmp) == NULL) {
-        perror("localtime");
+      if (gmtime_r(&t, &tmp) == NULL) {   // HTTP dates are always GMT
+        perror("gmtime");
         exit(EXIT_FAILURE);
       }
 
       if (strftime
           (current_datetime, sizeof(current_datetime),
-           "%a, %d %b %Y %H:%M:%S %Z", &tmp) == 0) {
+           "%a, %d %b %Y %H:%M:%S GMT", &tmp) == 0) {
         fprintf(stderr, "strftime returned 0");
         exit(EXIT_FAILURE);
       }
-- 
2.43.0


From faf3b67ace5d3d04b8fe600ec685dca8eae2327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:16 +0000
Subject: [PATCH 140/153] fix: webdav PROPFIND gave no property at all when
 explicitly asked for all of them [C10]

---
 src/onion/handlers/webdav.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index f06d031..25f6cda 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -321,7 +321,9 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
     if (strcmp((const char *)root->name, "propfind") == 0) {
       xmlNode *propfind = root->children;
       while (propfind) {
-        if (strcmp((const char *)propfind->name, "prop") == 0) {
+        if (strcmp((const char *)propfind->name, "allprop") == 0)
+          props = ~0;
+        else if (strcmp((const char *)propfind->name, "prop") == 0) {
           xmlNode *prop = propfind->children;
           while (prop) {
             if (strcmp((const char *)prop->name, "text") == 0)  // ignore
-- 
2.43.0


From 3a930cad831cd19c375daf1478600869b6b8d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 141/153] fix: poller used a slot after removing it, when its
 fd may already belong to another connection [C23]

---
 src/onion/poller.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 0c01632..3522607 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -435,9 +435,11 @@ int onion_poller_remove(onion_poller * poller, int fd) {
     ONION_DEBUG0("Removed from head %p", el);
 
     poller->head = el->next;
+    // Once out of the list the fd may be closed by others, and its slot reused.
+    onion_poller_slot removed = *el;
     pthread_mutex_unlock(&poller->mutex);
 
-    onion_poller_slot_free(el);
+    onion_poller_slot_free(&removed);
     return 0;
   }
   while (el->next) {
@@ -451,9 +453,10 @@ int onion_poller_remove(onion_poller * poller, int fd) {
         onion_poller_stop(poller);
       }
 
+      onion_poller_slot removed = *t;
       pthread_mutex_unlock(&poller->mutex);
 
-      onion_poller_slot_free(t);
+      onion_poller_slot_free(&removed);
       return 0;
     }
     el = el->next;
-- 
2.43.0


From 834719f6fdbc9a179aad26837aa7726525d43a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:00 +0000
Subject: [PATCH 142/153] fix: promoting a listen point to HTTPS freed the one
 that open connections use [C28]

---
 src/onion/onion.c          | 10 ++++++++--
 src/onion/types_internal.h |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 382648c..a826e9b 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -278,6 +278,8 @@ void onion_free(onion * onion) {
     }
     onion_low_free(onion->listen_points);
   }
+  if (onion->promoted)
+    onion_listen_point_free(onion->promoted);
   if (onion->root_handler)
     onion_handler_free(onion->root_handler);
   if (onion->internal_error_handler)
@@ -962,13 +964,17 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
           ? onion_low_strdup(first_listen_point->port) : NULL;
       char *hostname = first_listen_point->hostname
           ? onion_low_strdup(first_listen_point->hostname) : NULL;
-      onion_listen_point_free(first_listen_point);
       onion_listen_point *https = onion_https_new();
-      https->server = onion;
       if (NULL == https) {
         ONION_ERROR
             ("Could not promote from HTTP to HTTPS. Certificate not set.");
+        onion_low_free(port);
+        onion_low_free(hostname);
+        return -1;
       }
+      // Open connections, if it was listening before, still use it.
+      onion->promoted = first_listen_point;
+      https->server = onion;
       https->port = port;
       https->hostname = hostname;
       onion->listen_points[0] = https;
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 9d74f0d..456f1a8 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -66,6 +66,7 @@ extern "C" {
     onion_listen_point **listen_points; ///< List of listen_point. Everytime a new listen point adds, 
     ///< it reallocs the full list. Its NULL terminated. 
     ///< If NULL at listen, creates a http at 8080.
+    onion_listen_point *promoted;       ///< Former first listen point, when promoted to HTTPS. Connections may use it.
     onion_handler *root_handler;        /// Root processing handler for this server.
     onion_handler *internal_error_handler;      /// Root processing handler for this server.
     size_t max_post_size;       /// Maximum size of post data. This is the sum of posts, @see onion_request_write_post
-- 
2.43.0


From cd8b1008ce1f1df97707c938c62e5872ea1a1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:24 +0000
Subject: [PATCH 143/153] fix: a second SIGTERM aborted, although the first one
 stopped a detached server and it listened again [C28]

---
 src/onion/onion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index a826e9b..02d63e1 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -355,6 +355,7 @@ static void onion_listen_serve(onion * o);
 
 static void shutdown_server(int _) {
   if (shutdown_server_first_call) {
+    shutdown_server_first_call = false; // Before, as it is marked again when stopped
     if (last_onion) {
       onion_listen_stop(last_onion);
       ONION_INFO("Exiting onion listening (SIG%s)",
@@ -364,7 +365,6 @@ static void shutdown_server(int _) {
     ONION_ERROR("Aborting as onion does not stop listening.");
     abort();
   }
-  shutdown_server_first_call = false;
 }
 
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From 69623a7c578919ebc1c57e26de44dc1eb6f8b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:49 +0000
Subject: [PATCH 144/153] fix: adding an url with a malformed regexp leaked its
 handler, and its data was never freed [C07]

---
 src/onion/url.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index d5de808..78dd8c6 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -253,8 +253,7 @@ int onion_url_add_handler(onion_url * url, const char *regexp,
  * @returns 0 if everything ok. Else there is a regexp error.
  */
 int onion_url_add(onion_url * url, const char *regexp, void *handler) {
-  return onion_url_add_handler(url, regexp,
-                               onion_handler_new(handler, NULL, NULL));
+  return onion_url_add_with_data(url, regexp, handler, NULL, NULL);
 }
 
 /**
@@ -265,8 +264,11 @@ int onion_url_add(onion_url * url, const char *regexp, void *handler) {
  */
 int onion_url_add_with_data(onion_url * url, const char *regexp, void *handler,
                             void *data, void *f) {
-  return onion_url_add_handler(url, regexp,
-                               onion_handler_new(handler, data, f));
+  onion_handler *next = onion_handler_new(handler, data, f);
+  int err = onion_url_add_handler(url, regexp, next);
+  if (err)                      // Nobody else knows about it
+    onion_handler_free(next);
+  return err;
 }
 
 /**
-- 
2.43.0


From 6d164f9549132ac0025636f215a0db9b7a0e9025 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 145/153] fix: [C23] pollers created and freed by several
 threads at once used each other's table of slots before it was there or after
 it was gone

---
 src/onion/poller.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 3522607..e8e3978 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -108,11 +108,18 @@ static struct {
 } onion_poller_static = { {
 }, NULL, 0, 0};
 
+#ifdef HAVE_PTHREADS
+/// Pollers may be created and freed by several threads at once.
+static pthread_mutex_t onion_poller_static_mutex = PTHREAD_MUTEX_INITIALIZER;
+#endif
+
 /// Initializes static data. Init at onion_poller_new, deinit at _free.
 static void onion_poller_static_init() {
-  int16_t prevcount = __sync_fetch_and_add(&onion_poller_static.refcount, 1);
-  if (prevcount != 0)           // Only init first time
-    return;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&onion_poller_static_mutex);
+#endif
+  if (onion_poller_static.refcount++ != 0)      // Only init first time
+    goto done;
 
   memset(&onion_poller_static.empty_slot, 0,
          sizeof(onion_poller_static.empty_slot));
@@ -120,7 +127,7 @@ static void onion_poller_static_init() {
   struct rlimit rlim;
   if (getrlimit(RLIMIT_NOFILE, &rlim)) {
     ONION_ERROR("getrlimit: %s", strerror(errno));
-    return;
+    goto done;
   }
   onion_poller_static.max_slots = rlim.rlim_cur;
   if (onion_poller_static.max_slots > MAX_SLOTS)
@@ -128,15 +135,23 @@ static void onion_poller_static_init() {
   onion_poller_static.slots =
       (onion_poller_slot *) onion_low_calloc(onion_poller_static.max_slots,
                                              sizeof(onion_poller_slot));
+done:
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&onion_poller_static_mutex);
+#endif
+  return;
 }
 
 /// Deinits static data at onion_poller.
 static void onion_poller_static_deinit() {
-  int16_t nextcount = __sync_sub_and_fetch(&onion_poller_static.refcount, 1);
-  if (nextcount != 0)
-    return;
-
-  onion_low_free(onion_poller_static.slots);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&onion_poller_static_mutex);
+#endif
+  if (--onion_poller_static.refcount == 0)
+    onion_low_free(onion_poller_static.slots);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&onion_poller_static_mutex);
+#endif
 }
 
 /// Wrapper around clock_gettime(CLOCK_MONOTONIC_RAW, &t)
-- 
2.43.0


From 4375f1a55ffb8e58a1d09d2630e0fea12e79063c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:58:28 +0000
Subject: [PATCH 146/153] fix: [C23] servers created and freed by several
 threads at once raced for the record of the last one

---
 src/onion/onion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 02d63e1..eaa67e1 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -251,7 +251,7 @@ onion *onion_new(int flags) {
     signal(SIGINT, shutdown_server);
     signal(SIGTERM, shutdown_server);
   }
-  last_onion = o;
+  __sync_lock_test_and_set(&last_onion, o);     // Others may be creating theirs
   return o;
 }
 
@@ -310,7 +310,7 @@ void onion_free(onion * onion) {
     signal(SIGINT, SIG_DFL);
     signal(SIGTERM, SIG_DFL);
   }
-  last_onion = NULL;
+  __sync_bool_compare_and_swap(&last_onion, onion, NULL);
   onion_low_free(onion);
 }
 
-- 
2.43.0


From bbeafaf61f8b0101aa50e3063b01b6791ed93fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 147/153] fix: [C09] versions of a file whose sizes or dates
 differ in a multiple of 2^32 had the same entity tag, so one was answered
 with 304 for the other

---
 src/onion/shortcuts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 724adc5..2789002 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -395,9 +395,9 @@ void onion_shortcut_date_string_iso(time_t t, char *dest) {
  * Just now its a very simple one, based on the size and date.
  */
 void onion_shortcut_etag(struct stat *st, char etag[32]) {
-  size_t size = st->st_size;
-  unsigned int time = st->st_mtime;
-  snprintf(etag, 32, "%04X-%04X", (int32_t) size, (int32_t) time);
+  unsigned long long size = st->st_size;
+  unsigned long long time = st->st_mtime;
+  snprintf(etag, 32, "%04llX-%04llX", size, time);
   ONION_DEBUG0("Etag is %s", etag);
 }
 
-- 
2.43.0


From 0320fbf68d73f2abd21a014abebbe733d02a6114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:08 +0000
Subject: [PATCH 148/153] fix: [C15] removing a session from the redis store
 crashed, and never removed it

---
 src/onion/sessions_redis.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..58996e5 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -109,16 +109,17 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
 
 void onion_sessions_redis_save(onion_sessions * sessions,
                                const char *session_id, onion_dict * data) {
-  onion_block *bl = onion_dict_to_json(data);
+  onion_block *bl = data ? onion_dict_to_json(data) : NULL;
 
-  ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
+  ONION_DEBUG0("Save session %s: %s", session_id,
+               bl ? onion_block_data(bl) : "(remove)");
 
   onion_session_redis *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (!bl) {                    // No data, remove it
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-- 
2.43.0


From 80f8d36f5c2df0e1bb14321708f3015a501e6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:08 +0000
Subject: [PATCH 149/153] fix: [C15] the server crashed when the connection of
 the redis session store was lost, for example as redis closed it when idle

---
 src/onion/sessions_redis.c | 51 +++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 58996e5..a48bd82 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -21,6 +21,7 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
+#include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
 #include <hiredis/hiredis.h>
@@ -57,6 +58,21 @@ static void onion_sessions_redis_free(onion_sessions * sessions) {
   onion_low_free(sessions);
 }
 
+/// Performs the command; if the connection was lost, over a new one. May return NULL.
+static redisReply *onion_sessions_redis_command(onion_session_redis * p,
+                                                const char *format, ...) {
+  va_list ap;
+  va_start(ap, format);
+  redisReply *reply = redisvCommand(p->context, format, ap);
+  va_end(ap);
+  if (!reply && redisReconnect(p->context) == REDIS_OK) {
+    va_start(ap, format);
+    reply = redisvCommand(p->context, format, ap);
+    va_end(ap);
+  }
+  return reply;
+}
+
 static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
                                             const char *session_id) {
   onion_session_redis *p = sessions->data;
@@ -71,23 +87,25 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
   // so it will avoid any type of command injection. No need to worry about sending
   // the session_id directly to redis.
   redisReply *reply =
-      redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
-                   strlen(session_id));
+      onion_sessions_redis_command(p, "HEXISTS SESSIONS %b", session_id,
+                                   strlen(session_id));
 
-  if (reply->type != REDIS_REPLY_INTEGER) {
+  if (!reply || reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     goto exit;
   } else {
     if (reply->integer == 1) {
       freeReplyObject(reply);
       reply =
-          redisCommand(p->context, "HGET SESSIONS %b", session_id,
-                       strlen(session_id));
+          onion_sessions_redis_command(p, "HGET SESSIONS %b", session_id,
+                                       strlen(session_id));
 
-      if (reply->type != REDIS_REPLY_STRING) {
+      if (!reply || reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
-        freeReplyObject(reply);
+        if (reply)
+          freeReplyObject(reply);
         goto exit;
       } else {
         ret = onion_dict_from_json(reply->str);
@@ -120,23 +138,26 @@ void onion_sessions_redis_save(onion_sessions * sessions,
 #endif
 
   if (!bl) {                    // No data, remove it
-    redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
+    redisReply *reply =
+        onion_sessions_redis_command(p, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
   } else {
     const char *json = onion_block_data(bl);
     redisReply *reply =
-        redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
-                     strlen(session_id), json, strlen(json));
+        onion_sessions_redis_command(p, "HSET SESSIONS %b %b", session_id,
+                                     strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     onion_block_free(bl);
   }
 
-- 
2.43.0


From e8910fc3fed7d2bf57fd7ce751706d03d6e29508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 150/153] fix: [C15] a redis session store that could not
 connect leaked

---
 src/onion/sessions_redis.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index a48bd82..9ad4118 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -183,9 +183,14 @@ onion_sessions *onion_sessions_redis_new(const char *server_ip, int port) {
   onion_session_redis *p = ret->data;
   p->context = redisConnect(server_ip, port);
 
-  if (p->context != NULL && p->context->err) {
-    ONION_ERROR("Can't connect to redis. Error (%s)", p->context->errstr);
-    redisFree(p->context);
+  if (p->context == NULL || p->context->err) {
+    ONION_ERROR("Can't connect to redis. Error (%s)",
+                p->context ? p->context->errstr : "no memory");
+    if (p->context)
+      redisFree(p->context);
+    onion_low_free(ret->data);
+    onion_low_free(ret);
+    onion_random_free();
     return NULL;
   }
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From 9dfda977100341b8a6eda9b21ac0a3bea674162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:50 +0000
Subject: [PATCH 151/153] fix: [C15] a request that asked for a session while
 the session store did not work crashed the server

---
 src/onion/request.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request.c b/src/onion/request.c
index 8dde964..a3865ca 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -465,6 +465,10 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
       req->session =
           onion_sessions_get(req->connection.listen_point->server->sessions,
                              req->session_id);
+      if (!req->session) {      // The store does not work now, at least for this request.
+        ONION_ERROR("Could not get the new session from the session store");
+        req->session = onion_dict_new();
+      }
     }
   }
   return req->session;
-- 
2.43.0


From fceb7e2252ac6c11058043e18b6358e9dadd8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:36 +0000
Subject: [PATCH 152/153] fix: [C15] a session emptied by a request was removed
 from the store only after the client had the reply

---
 src/onion/handler.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index e717fb0..07fdb13 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -32,6 +32,8 @@
 #endif
 
 #include "handler.h"
+#include "dict.h"
+#include "request.h"
 #include "response.h"
 #include "sessions.h"
 #include "types_internal.h"
@@ -76,9 +78,19 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
         // The client may ask again, elsewhere, as soon as it gets the pending data.
         if (request->session
             && (!(response->flags & OR_HEADER_SENT) || response->buffer_pos > 0
-                || (response->flags & OR_CHUNKED)))
-          onion_sessions_save(request->connection.listen_point->server->
-                              sessions, request->session_id, request->session);
+                || (response->flags & OR_CHUNKED))) {
+          onion_sessions *sessions =
+              request->connection.listen_point->server->sessions;
+          const char *cookie = onion_request_get_header(request, "Cookie");
+          onion_dict_lock_read(request->session);
+          int count = onion_dict_count(request->session);
+          onion_dict_unlock(request->session);
+          if (count == 0 && cookie && strstr(cookie, request->session_id))      // The client knows it, and it is over
+            onion_sessions_remove(sessions, request->session_id);
+          else
+            onion_sessions_save(sessions, request->session_id,
+                                request->session);
+        }
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
             && response->buffer_pos < sizeof(response->buffer))
-- 
2.43.0


From 7a41c57ed56d4b7dc2a5ef745fff095661fa6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:53 +0000
Subject: [PATCH 153/153] fix: [C26] a handler that returns OCS_WEBSOCKET
 without a websocket was answered with 200 OK, and not with the internal error

---
 src/onion/handler.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 07fdb13..1eaccfb 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -75,6 +75,11 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
           return res;
         if (res == OCS_YIELD)   // Will be written somewhere else
           return res;
+        if (res == OCS_WEBSOCKET && !request->websocket) {
+          ONION_ERROR
+              ("Handler did set the OCS_WEBSOCKET, but did not initialize the websocket on this request.");
+          return OCS_INTERNAL_ERROR;
+        }
         // The client may ask again, elsewhere, as soon as it gets the pending data.
         if (request->session
             && (!(response->flags & OR_HEADER_SENT) || response->buffer_pos > 0
@@ -96,15 +101,8 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
             && response->buffer_pos < sizeof(response->buffer))
           onion_response_set_length(response, response->buffer_pos);
         onion_response_flush(response);
-        if (res == OCS_WEBSOCKET) {
-          if (request->websocket)
-            return onion_websocket_call(request->websocket);
-          else {
-            ONION_ERROR
-                ("Handler did set the OCS_WEBSOCKET, but did not initialize the websocket on this request.");
-            return OCS_INTERNAL_ERROR;
-          }
-        }
+        if (res == OCS_WEBSOCKET)
+          return onion_websocket_call(request->websocket);
         return res;
       }
     }
-- 
2.43.0

