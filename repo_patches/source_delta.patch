From f34f42bd4178c6914a3b234d4f3b1f37a7827a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:51 +0000
Subject: [PATCH 01/66] fix: node_any: accept a NULL attribute

The documentation of ec_node_any() says that the attribute is optional,
but ec_config_string(NULL) always failed with EINVAL.
---
 src/ecoli_node_any.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_any.c b/src/ecoli_node_any.c
index 06e92f4..c325cc7 100644
--- a/src/ecoli_node_any.c
+++ b/src/ecoli_node_any.c
@@ -111,9 +111,12 @@ ec_node_any(const char *id, const char *attr)
 	if (config == NULL)
 		goto fail;
 
-	ret = ec_config_dict_set(config, "attr", ec_config_string(attr));
-	if (ret < 0)
-		goto fail;
+	if (attr != NULL) {
+		ret = ec_config_dict_set(config, "attr",
+					ec_config_string(attr));
+		if (ret < 0)
+			goto fail;
+	}
 
 	ret = ec_node_set_config(node, config);
 	config = NULL;
-- 
2.43.0


From 82863622e7905d1fba35b399d4069c427a17fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:15 +0000
Subject: [PATCH 02/66] fix: complete: do not loop forever when iterating over
 groups

When the group following the current one contains no item of the
requested type, __ec_comp_iter_next() was testing this same group again
and again.
---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..5ba4fb0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -652,6 +652,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From 02e3ac9714b4815bb88b1e810dc6785082b20e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:26 +0000
Subject: [PATCH 03/66] fix: node_many: do not recurse forever in completion

When the child node matches an empty vector (ex: many(option(x))), the
completion recursed on the same string vector until the stack was
exhausted.
---
 src/ecoli_node_many.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..e318050 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,9 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest: an iteration that consumes nothing is not
+	 * tried, it would recurse forever on the same strvec */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From 0cf5374d3c5c860fd18d3a026c985e1cd5a4017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:53 +0000
Subject: [PATCH 04/66] fix: node_re_lex: text that cannot be tokenized is a
 no-match

When no pattern matches at some offset of the string, the parse callback
returned an error (with an unspecified errno), making the whole parsing
fail instead of just not matching, unlike what sh_lex does. And without
any pattern, the tokenizer looped forever.
---
 src/ecoli_node_re_lex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..15bed8d 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1;
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
@@ -99,8 +100,10 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) {
+			errno = EBADMSG;
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
@@ -136,6 +139,8 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		str = ec_strvec_val(strvec, 0);
 		new_vec = tokenize(priv->table, priv->len, str);
 	}
+	if (new_vec == NULL && errno == EBADMSG) /* cannot be tokenized */
+		return EC_PARSE_NOMATCH;
 	if (new_vec == NULL)
 		goto fail;
 
-- 
2.43.0


From 81b0bd264788c6586147e4125d467291ba26983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:53 +0000
Subject: [PATCH 05/66] fix: node_re_lex: do not leak attributes on allocation
 failure

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 15bed8d..7a81be4 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -113,6 +113,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 fail:
 	ec_free(dup);
+	ec_dict_free(attrs);
 	ec_strvec_free(strvec);
 	return NULL;
 }
-- 
2.43.0


From 9373ec18c80e42589dca7242bddf843a2cfa5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:53 +0000
Subject: [PATCH 06/66] fix: node_sh_lex, node_re_lex: do not consume a string
 that does not exist

When the string vector is empty and the child node matches an empty
vector, the lexers returned that they matched 1 string. It was turned
into a parsing error, as it is more than what the vector contains.
---
 src/ecoli_node_re_lex.c | 2 +-
 src/ecoli_node_sh_lex.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 7a81be4..547012a 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -150,7 +150,7 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..fcc0189 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,7 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From 1ab123eb5861261c053415a808fecd9f8dd856ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 07/66] fix: node_subset: keep only the children of the best
 result

When a candidate list of nodes is not the best one, only its last node
was removed from the parsing tree. And when it is the best one, only its
last node was saved. As a result, the parsing tree contained nodes that
are not part of the match, or children in a wrong order.
---
 src/ecoli_node_subset.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..4bb1e20 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -33,6 +33,20 @@ struct parse_result {
 	size_t len;                 /* consumed strings */
 };
 
+/* move the children of src that are located after the mark (all of them if
+ * the mark is NULL) at the end of dst, in reverse order. */
+static void
+move_children(struct ec_pnode *dst, struct ec_pnode *src,
+	const struct ec_pnode *mark)
+{
+	struct ec_pnode *child;
+
+	while ((child = ec_pnode_get_last_child(src)) != mark) {
+		ec_pnode_unlink_child(child);
+		ec_pnode_link_child(dst, child);
+	}
+}
+
 /* recursively find the longest list of nodes that matches: the state is
  * updated accordingly. */
 static int
@@ -45,17 +59,24 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
 	struct ec_pnode *best_parse = NULL;
+	const struct ec_pnode *mark;
 	int ret;
 
 	if (table_len == 0)
 		return 0;
 
 	memset(&best_result, 0, sizeof(best_result));
+	mark = ec_pnode_get_last_child(pstate);
 
 	child_table = ec_calloc(table_len - 1, sizeof(*child_table));
 	if (child_table == NULL)
 		goto fail;
 
+	/* container for the parse nodes of the best result */
+	best_parse = ec_pnode(NULL);
+	if (best_parse == NULL)
+		goto fail;
+
 	for (i = 0; i < table_len; i++) {
 		/* try to parse elt i */
 		ret = ec_parse_child(table[i], pstate, strvec);
@@ -91,14 +112,14 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
 			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
+			while (ec_pnode_get_last_child(pstate) != mark)
+				ec_pnode_del_last_child(pstate);
 			continue;
 		}
 
 		/* replace the previous best result */
-		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		ec_pnode_free_children(best_parse);
+		move_children(best_parse, pstate, mark);
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
@@ -108,8 +129,8 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 	*out = best_result;
 	ec_free(child_table);
-	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+	move_children(pstate, best_parse, NULL);
+	ec_pnode_free(best_parse);
 
 	return 0;
 
-- 
2.43.0


From b360b14c8dc7e0b2b7c2570e1641e4211cfa2ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 08/66] fix: node_subset: do not modify the node during
 completion

The table of the node was temporarily modified during a completion. When
the subset node is its own descendant (grammar with a loop), its parse
callback was called with NULL children.
---
 src/ecoli_node_subset.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 4bb1e20..f04b8f0 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -249,9 +249,22 @@ ec_node_subset_complete(const struct ec_node *node,
 			const struct ec_strvec *strvec)
 {
 	struct ec_node_subset *priv = ec_node_priv(node);
+	struct ec_node **table;
+	size_t i;
+	int ret;
+
+	/* work on a copy: the nodes are removed from the table once they are
+	 * matched, and this node can be its own descendant. */
+	table = ec_calloc(priv->len, sizeof(*table));
+	if (table == NULL)
+		return -1;
+	for (i = 0; i < priv->len; i++)
+		table[i] = priv->table[i];
 
-	return __ec_node_subset_complete(priv->table, priv->len, comp,
-					strvec);
+	ret = __ec_node_subset_complete(table, priv->len, comp, strvec);
+	ec_free(table);
+
+	return ret;
 }
 
 static void ec_node_subset_free_priv(struct ec_node *node)
-- 
2.43.0


From e680bb5bd2cc71904080390ee2ee1583ef4cc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:51 +0000
Subject: [PATCH 09/66] fix: strvec: do not drop a trailing empty quoted word

ec_strvec_sh_lex_str() returned an empty word for '"" a' but not for
'a ""'. In the IN_WORD state, a word is always started, whatever its
length.
---
 src/ecoli_strvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..ccf6797 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -460,7 +460,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 		}
 		state = IN_WORD;
 	}
-	if (state == IN_WORD && t > 0) {
+	if (state == IN_WORD) {
 		token[t] = '\0';
 		if (ec_strvec_add(strvec, token) < 0)
 			goto fail;
-- 
2.43.0


From b921ad2040f3ca29ae9e7168785db0c35b0faa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:51 +0000
Subject: [PATCH 10/66] fix: strvec: report the proper missing quote

The missing quote reported by ec_strvec_sh_lex_str() was the first quote
of the word if this word starts with a quote, else nothing. Report the
quote that is really left open (ex: 'a"b' or '"a"\'b').
---
 src/ecoli_strvec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ccf6797..b071239 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -382,7 +382,6 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SPACE:
 				/* end of token */
-				quote = '\0';
 				token[t] = '\0';
 				if (ec_strvec_add(strvec, token) < 0)
 					goto fail;
@@ -392,9 +391,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 				break;
 			case DOUBLE_QUOTE:
 				state = IN_DOUBLE_QUOTES;
+				quote = c;
 				break;
 			case SINGLE_QUOTE:
 				state = IN_SINGLE_QUOTES;
+				quote = c;
 				break;
 			case BACKSLASH:
 				state = ESCAPING;
@@ -416,6 +417,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case DOUBLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			case BACKSLASH:
 				state = ESCAPING_QUOTED;
@@ -429,6 +431,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SINGLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			default:
 				append(token, t, c);
-- 
2.43.0


From 40ad13e0939983649b48ae1a443f19799260e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:20 +0000
Subject: [PATCH 11/66] fix: string: an empty string is not an integer

strtoll() and strtoull() return 0 when there is no digit at all. The int
and uint nodes were matching an empty string, with the value 0.
---
 src/ecoli_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..7d6b717 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -146,7 +146,7 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 	if (*val > max)
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From dfc496929afb540eee062fd6a42efa5ecfdbdfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:20 +0000
Subject: [PATCH 12/66] fix: node_int, node_uint: check the minimum when there
 is no maximum

Without "max" in the configuration, it is check_max which has to be
reset: the configured minimum was ignored, and a maximum set by a
previous configuration was still checked.
---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From 735924115720545a0b0dc85bce94093e33a32fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:56 +0000
Subject: [PATCH 13/66] fix: node: do not turn back a non freeable node into a
 freeable one

In mark_freeable(), a node marked as not freeable because it is reachable
from a node that is still referenced could be marked again as freeable
when it was reached by another path. On some grammars with loops, it
resulted in an infinite recursion when releasing a reference.
---
 src/ecoli_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..6870078 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -184,7 +184,9 @@ static void mark_freeable(struct ec_node *node, enum ec_node_free_state mark)
 	size_t i, n;
 	int ret;
 
-	if (mark == node->free.state)
+	/* once a node is marked as not freeable, it remains so */
+	if (mark == node->free.state ||
+			node->free.state == EC_NODE_FREE_STATE_NOT_FREEABLE)
 		return;
 
 	if (node->refcnt > node->free.refcnt)
-- 
2.43.0


From f96368cfd6ce138b595cdac6b6fef608625cc31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:30 +0000
Subject: [PATCH 14/66] fix: murmurhash: do not do misaligned accesses

The key is documented as being unaligned, but it was read with 32-bit
loads, which is an undefined behavior.
---
 src/ecoli_murmurhash.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_murmurhash.c b/src/ecoli_murmurhash.c
index 2435619..b5e96f0 100644
--- a/src/ecoli_murmurhash.c
+++ b/src/ecoli_murmurhash.c
@@ -2,6 +2,8 @@
  * Copyright 2016, Olivier MATZ <zer0@droids-corp.org>
  */
 
+#include <string.h>
+
 #include <ecoli_murmurhash.h>
 
 uint32_t ec_murmurhash3(const void *key, int len, uint32_t seed)
@@ -11,11 +13,10 @@ uint32_t ec_murmurhash3(const void *key, int len, uint32_t seed)
 	const int nblocks = len / 4;
 	uint32_t h1 = seed;
 	uint32_t k1;
-	const uint32_t *blocks = (const uint32_t *)(data + nblocks * 4);
 	int i;
 
-	for (i = -nblocks; i; i++) {
-		k1 = blocks[i];
+	for (i = 0; i < nblocks; i++) {
+		memcpy(&k1, data + i * 4, sizeof(k1));
 
 		h1 = ec_murmurhash3_add32(h1, k1);
 		h1 = ec_murmurhash3_mix32(h1);
-- 
2.43.0


From 221e473db942f5ff6a5295b1b48f7d3922d41656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:30 +0000
Subject: [PATCH 15/66] fix: htable: do not dereference a NULL table on lookup

The table was dereferenced before being checked. ec_htable_get(),
ec_htable_has_key() and ec_htable_del() crashed instead of failing with
EINVAL.
---
 src/ecoli_htable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..c05bdd9 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
-- 
2.43.0


From 9c5833d461cd98046582e9e381f35230ecb847c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:30 +0000
Subject: [PATCH 16/66] fix: htable: free the value when the arguments are
 invalid

As documented, when ec_htable_set() or ec_dict_set() fails, the value is
freed. It was not the case if the key is NULL or empty.
---
 src/ecoli_htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index c05bdd9..5700f57 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -189,7 +189,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From b8ee3999a10ead3afe37f282ab2872ab3614a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:30 +0000
Subject: [PATCH 17/66] fix: vec, strvec: do not duplicate elements outside of
 the vector

The check in ec_vec_ndup() and ec_strvec_ndup() was defeated by an
overflow when adding the offset and the length. Also set errno in this
case, as documented.
---
 src/ecoli_strvec.c | 4 +++-
 src/ecoli_vec.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index b071239..8665abf 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From 24e573fa05712c3c11f5e1018754e09950cc256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:54 +0000
Subject: [PATCH 18/66] fix: config: dump signed and unsigned integers properly

The formats were swapped: a negative int64 was dumped as a large positive
value, and a large uint64 as a negative value.
---
 src/ecoli_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 57a7a61..ec67411 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -855,10 +855,10 @@ __ec_config_dump(FILE *out, const char *key, const struct ec_config *value,
 			ec_asprintf(&val_str, "false");
 		break;
 	case EC_CONFIG_TYPE_INT64:
-		ec_asprintf(&val_str, "%"PRIu64, value->u64);
+		ec_asprintf(&val_str, "%"PRIi64, value->i64);
 		break;
 	case EC_CONFIG_TYPE_UINT64:
-		ec_asprintf(&val_str, "%"PRIi64, value->i64);
+		ec_asprintf(&val_str, "%"PRIu64, value->u64);
 		break;
 	case EC_CONFIG_TYPE_STRING:
 		ec_asprintf(&val_str, "%s", value->string);
-- 
2.43.0


From 7ef7386f68cf107466eab5074f589ee04e011196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:54 +0000
Subject: [PATCH 19/66] fix: config: count the elements of a dictionary

ec_config_count() is documented to work on lists and dictionaries, but
it always failed on dictionaries.
---
 src/ecoli_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index ec67411..310f9df 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -372,7 +372,7 @@ ssize_t ec_config_count(const struct ec_config *config)
 			n++;
 		return n;
 	case EC_CONFIG_TYPE_DICT:
-		// XXX todo
+		return ec_dict_len(config->dict);
 	default:
 		errno = EINVAL;
 		return -1;
-- 
2.43.0


From 93cbfd08accdf7155dd20d17cd33923fa79c7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:25 +0000
Subject: [PATCH 20/66] fix: strvec: do not sort a vector without storage

qsort_r() must not be called with a NULL pointer, which is the case
when no string was added to the vector.
---
 src/ecoli_strvec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 8665abf..ae5cc6c 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -495,6 +495,8 @@ void ec_strvec_sort(struct ec_strvec *strvec,
 {
 	if (str_cmp == NULL)
 		str_cmp = strcmp;
+	if (ec_strvec_len(strvec) == 0)
+		return;
 	qsort_r(strvec->vec, ec_strvec_len(strvec),
 		sizeof(*strvec->vec), cmp_vec_elt, str_cmp);
 }
-- 
2.43.0


From 5da900d76efc4c137677afd0e21404e2b375f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 21/66] fix: node_or, node_seq: do not free the child twice on
 error

Once added in the configuration, the child is released with it when
ec_node_set_config() fails.
---
 src/ecoli_node_or.c  | 1 +
 src/ecoli_node_seq.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..77b9960 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -194,6 +194,7 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* now owned by config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..f570d5c 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -280,6 +280,7 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* now owned by config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From bdb6ec3f93a2fcd782e36eb990dd3d5c0b62f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 22/66] fix: node_helper: do not free a node twice on error

ec_config_node() and ec_config_list_add() release the node on error.
---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From 137b4b2c322ca0e459599f7e3cc397716c1c06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 23/66] fix: node_bypass, node_once, node_option: report child
 set failure

The constructors returned a node without child when the child cannot be
set. Parsing with this node crashes.
---
 src/ecoli_node_bypass.c | 6 +++++-
 src/ecoli_node_once.c   | 6 +++++-
 src/ecoli_node_option.c | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..cf93724 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -172,12 +172,16 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..9482343 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -214,12 +214,16 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..266b869 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -180,12 +180,16 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From 7994bd8fc44cffbcc32638b6b3579f36cf812066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 24/66] fix: node_subset: do not free the child twice on error

ec_node_subset_add() already releases the child on error.
---
 src/ecoli_node_subset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index f04b8f0..6a35661 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -360,10 +360,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed */
 		}
 	}
 
-- 
2.43.0


From bcade44c755f839bd0571b3c4eca908681d1e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:38 +0000
Subject: [PATCH 25/66] fix: node: support loops in ec_node_find()

Searching a node in a recursive grammar never ended.
---
 src/ecoli_node.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 6870078..12cb6e4 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -332,7 +332,7 @@ const struct ec_config *ec_node_get_config(struct ec_node *node)
 	return node->config;
 }
 
-struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+static struct ec_node *__ec_node_find(struct ec_node *node, const char *id)
 {
 	struct ec_node *child, *retnode;
 	const char *node_id = ec_node_id(node);
@@ -340,6 +340,11 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	size_t i, n;
 	int ret;
 
+	/* already visited, there can be loops in the grammar graph */
+	if (node->free.state == EC_NODE_FREE_STATE_TRAVERSED)
+		return NULL;
+	node->free.state = EC_NODE_FREE_STATE_TRAVERSED;
+
 	if (id != NULL && node_id != NULL && !strcmp(node_id, id))
 		return node;
 
@@ -347,7 +352,7 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		retnode = ec_node_find(child, id);
+		retnode = __ec_node_find(child, id);
 		if (retnode != NULL)
 			return retnode;
 	}
@@ -355,6 +360,16 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	return NULL;
 }
 
+struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+{
+	struct ec_node *retnode;
+
+	retnode = __ec_node_find(node, id);
+	reset_mark(node);
+
+	return retnode;
+}
+
 const struct ec_node_type *ec_node_type(const struct ec_node *node)
 {
 	return node->type;
-- 
2.43.0


From 61f7e944770758c8de3bc22617476f929e3721d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:10 +0000
Subject: [PATCH 26/66] fix: nodes: release old children after having replaced
 them

When reconfiguring a node which is part of a loop, the old children were
released while the node was still reporting them, so their references
were counted one time too many by ec_node_free(), leading to an
assertion failure.
---
 src/ecoli_node_bypass.c |  5 +++--
 src/ecoli_node_cmd.c    | 17 ++++++++++-------
 src/ecoli_node_cond.c   |  4 +++-
 src/ecoli_node_many.c   |  5 +++--
 src/ecoli_node_once.c   |  5 +++--
 src/ecoli_node_option.c |  5 +++--
 src/ecoli_node_or.c     | 12 +++++++-----
 src/ecoli_node_re_lex.c |  5 +++--
 src/ecoli_node_seq.c    | 12 +++++++-----
 9 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index cf93724..8cdad08 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -90,6 +90,7 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_bypass *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -100,9 +101,9 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..cea6fb9 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -456,10 +456,10 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 	const struct ec_config *expr = NULL;
-	struct ec_node *cmd = NULL;
-	struct ec_node **table = NULL;
+	struct ec_node *cmd = NULL, *old_cmd;
+	struct ec_node **table = NULL, **old_table;
 	char *cmd_str = NULL;
-	size_t len = 0, i;
+	size_t len = 0, old_len, i;
 
 	/* retrieve config locally */
 	expr = ec_config_dict_get(config, "expr");
@@ -483,15 +483,18 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 		goto fail;
 
 	/* ok, store the config */
-	ec_node_free(priv->cmd);
+	old_cmd = priv->cmd;
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->cmd = cmd;
 	ec_free(priv->cmd_str);
 	priv->cmd_str = cmd_str;
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
 	priv->table = table;
 	priv->len = len;
+	ec_node_free(old_cmd);
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 
diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..1011d5a 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -770,6 +770,7 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	const struct ec_config *cond = NULL;
 	struct ec_pnode *parsed_cond = NULL;
 	const struct ec_config *child;
+	struct ec_node *old_child;
 	char *cond_str = NULL;
 
 	cond = ec_config_dict_get(config, "expr");
@@ -796,8 +797,9 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	priv->parsed_cond = parsed_cond;
 	ec_free(priv->cond_str);
 	priv->cond_str = cond_str;
-	ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index e318050..4f3c4db 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -210,6 +210,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_many *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child, *min, *max;
 
 	child = ec_config_dict_get(config, "child");
@@ -232,9 +233,9 @@ static int ec_node_many_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 	if (min == NULL)
 		priv->min = 0;
 	else
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 9482343..26a902f 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -132,6 +132,7 @@ static int ec_node_once_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_once *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -142,9 +143,9 @@ static int ec_node_once_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index 266b869..670f455 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -98,6 +98,7 @@ static int ec_node_option_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_option *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -108,9 +109,9 @@ static int ec_node_option_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index 77b9960..2ffff3c 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -105,19 +105,21 @@ static int ec_node_or_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_or *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table;
+	size_t i, len = 0, old_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 547012a..f5188ad 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -261,6 +261,7 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_re_lex *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	struct regexp_pattern *table = NULL;
 	const struct ec_config *patterns, *child, *elt, *pattern, *keep, *attr;
 	char *pattern_str = NULL, *attr_name = NULL;
@@ -345,9 +346,9 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 		}
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 	for (i = 0; i < (ssize_t)priv->len; i++) {
 		ec_free(priv->table[i].pattern);
 		ec_free(priv->table[i].attr_name);
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index f570d5c..ac876cd 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -191,19 +191,21 @@ static int ec_node_seq_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_seq *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table;
+	size_t i, len = 0, old_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
-- 
2.43.0


From 4feb68837ef8e7801ff2008bae79b714ddeb5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:10 +0000
Subject: [PATCH 27/66] fix: node_cond, node_cmd, node_expr: report all held
 references

The loop detection of ec_node_free() relies on the references reported
by ec_node_get_child(). A grammar having a loop through one of these
nodes was never released because some references were not reported.
---
 src/ecoli_node_cmd.c  | 14 ++++++++----
 src/ecoli_node_cond.c |  3 ++-
 src/ecoli_node_expr.c | 53 ++++++++++++++++++++++++++++++++++++-------
 3 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index cea6fb9..919c348 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -516,7 +516,7 @@ ec_node_cmd_get_children_count(const struct ec_node *node)
 
 	if (priv->cmd == NULL)
 		return 0;
-	return 1;
+	return 1 + priv->len;
 }
 
 static int
@@ -525,11 +525,17 @@ ec_node_cmd_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 
-	if (i > 0)
+	if (priv->cmd == NULL || i > priv->len)
 		return -1;
 
-	*child = priv->cmd;
-	*refs = 1;
+	if (i == 0) {
+		*child = priv->cmd;
+		*refs = 1;
+	} else {
+		/* each node of the table is also referenced in the config */
+		*child = priv->table[i - 1];
+		*refs = 2;
+	}
 	return 0;
 }
 
diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 1011d5a..4dabb1f 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -829,7 +829,8 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	/* the child is referenced in the config and in priv */
+	*refs = 2;
 	return 0;
 }
 
diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..57dc4b3 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -227,10 +227,16 @@ static size_t
 ec_node_expr_get_children_count(const struct ec_node *node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	size_t n = 0;
 
-	if (priv->child)
-		return 1;
-	return 0;
+	if (priv->child != NULL)
+		n++;
+	if (priv->val_node != NULL)
+		n++;
+	n += priv->bin_ops_len + priv->pre_ops_len + priv->post_ops_len;
+	n += priv->paren_len * 2;
+
+	return n;
 }
 
 static int
@@ -239,12 +245,43 @@ ec_node_expr_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (i >= 1)
-		return -1;
-
-	*child = priv->child;
 	*refs = 1;
-	return 0;
+
+	/* the built node, then the nodes it is built from */
+	if (priv->child != NULL && i-- == 0) {
+		*child = priv->child;
+		return 0;
+	}
+	if (priv->val_node != NULL && i-- == 0) {
+		*child = priv->val_node;
+		return 0;
+	}
+	if (i < priv->bin_ops_len) {
+		*child = priv->bin_ops[i];
+		return 0;
+	}
+	i -= priv->bin_ops_len;
+	if (i < priv->pre_ops_len) {
+		*child = priv->pre_ops[i];
+		return 0;
+	}
+	i -= priv->pre_ops_len;
+	if (i < priv->post_ops_len) {
+		*child = priv->post_ops[i];
+		return 0;
+	}
+	i -= priv->post_ops_len;
+	if (i < priv->paren_len) {
+		*child = priv->open_ops[i];
+		return 0;
+	}
+	i -= priv->paren_len;
+	if (i < priv->paren_len) {
+		*child = priv->close_ops[i];
+		return 0;
+	}
+
+	return -1;
 }
 
 static struct ec_node_type ec_node_expr_type = {
-- 
2.43.0


From 8e6536441950a93354db29a92c648bec5c509dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:48 +0000
Subject: [PATCH 28/66] fix: node_expr: report the failure to build the
 expression

When the memory is exhausted, adding an operator or setting the value
node returned a success but the node was left without child. Report the
error, and keep the node as it was in this case.
---
 src/ecoli_node_expr.c | 51 ++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 57dc4b3..50953e6 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -94,6 +94,9 @@ static void ec_node_expr_free_priv(struct ec_node *node)
 	ec_free(priv->close_ops);
 }
 
+/* Build the child node. There is no child until the value node and at
+ * least one operator are known: this is not an error. The previous child
+ * is kept on error. */
 static int ec_node_expr_build(struct ec_node_expr *priv)
 {
 	struct ec_node *term = NULL, *expr = NULL, *next = NULL,
@@ -101,19 +104,12 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL;
 	unsigned int i;
 
-	ec_node_free(priv->child);
-	priv->child = NULL;
-
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
+	if (priv->val_node == NULL)
+		return 0;
 
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -208,7 +204,9 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	next = priv->child;
 	priv->child = expr;
+	ec_node_free(next);
 
 	return 0;
 
@@ -299,6 +297,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *old_val_node;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -308,9 +307,13 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	old_val_node = priv->val_node;
 	priv->val_node = val_node;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = old_val_node;
+		goto fail;
+	}
+	ec_node_free(old_val_node);
 
 	return 0;
 
@@ -341,7 +344,10 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -372,7 +378,10 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -403,7 +412,10 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -431,17 +443,20 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
 	return 0;
 
-- 
2.43.0


From e7878ea7d4ef6093855acb3eaa9dbc0d6d1d2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:26 +0000
Subject: [PATCH 29/66] fix: node_expr: evaluate operators from left to right

The operands following the first one were evaluated together before
being merged with it: "a - b - c" was evaluated as "a - (b - c)", and
several post-operators applied to the same operand were triggering an
assertion failure.

Merge them one by one in the current value.
---
 src/ecoli_node_expr.c | 51 +++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 50953e6..e655dfe 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -566,6 +566,33 @@ static int merge_results(void *userctx,
 	return -1;
 }
 
+static int eval_expression(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse);
+
+/* evaluate the parse tree and merge it in result */
+static int eval_and_merge(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+{
+	struct result child_result;
+
+	if (eval_expression(&child_result, userctx, ops, expr_node, parse) < 0)
+		return -1;
+
+	if (merge_results(userctx, ops, result, &child_result) < 0) {
+		if (child_result.has_val)
+			ops->eval_free(child_result.val, userctx);
+		return -1;
+	}
+
+	return 0;
+}
+
 static int eval_expression(struct result *result,
 	void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
@@ -574,12 +601,10 @@ static int eval_expression(struct result *result,
 
 {
 	struct ec_pnode *open = NULL, *close = NULL;
-	struct result child_result;
-	struct ec_pnode *child;
+	struct ec_pnode *child, *elt;
 	enum expr_node_type type;
 
 	memset(result, 0, sizeof(*result));
-	memset(&child_result, 0, sizeof(child_result));
 
 	type = get_node_type(expr_node, ec_pnode_get_node(parse));
 	if (type == VAL) {
@@ -602,14 +627,20 @@ static int eval_expression(struct result *result,
 			continue;
 		}
 
-		if (eval_expression(&child_result, userctx, ops,
-			expr_node, child) < 0)
-			goto fail;
+		/* this is a list of post-operators, or a list of binary
+		 * operators with their right operand: apply them from left
+		 * to right */
+		if (type == NONE && result->has_val && result->op == NULL) {
+			EC_PNODE_FOREACH_CHILD(elt, child) {
+				if (eval_and_merge(result, userctx, ops,
+						expr_node, elt) < 0)
+					goto fail;
+			}
+			continue;
+		}
 
-		if (merge_results(userctx, ops, result, &child_result) < 0)
+		if (eval_and_merge(result, userctx, ops, expr_node, child) < 0)
 			goto fail;
-
-		memset(&child_result, 0, sizeof(child_result));
 	}
 
 	if (open != NULL && close != NULL) {
@@ -623,8 +654,6 @@ static int eval_expression(struct result *result,
 fail:
 	if (result->has_val)
 		ops->eval_free(result->val, userctx);
-	if (child_result.has_val)
-		ops->eval_free(child_result.val, userctx);
 	memset(result, 0, sizeof(*result));
 
 	return -1;
-- 
2.43.0


From 709abc5fa2f173b712a370491298c3b0feb318f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:26 +0000
Subject: [PATCH 30/66] fix: node_expr: do not lose operands when a callback
 fails

When an evaluation callback fails, its result is undefined and the
operands are not freed. As the result was stored in place of the operand,
a wrong pointer could be released.
---
 src/ecoli_node_expr.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index e655dfe..64683f6 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -522,6 +522,8 @@ static int merge_results(void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	struct result *x, const struct result *y)
 {
+	void *val; /* undefined if a callback fails */
+
 	if (y->has_val == 0 && y->op == NULL)
 		return 0;
 	if (x->has_val == 0 && x->op == NULL) {
@@ -531,9 +533,10 @@ static int merge_results(void *userctx,
 
 	if (x->has_val && y->has_val && y->op != NULL) {
 		if (y->op_type == BIN_OP) {
-			if (ops->eval_bin_op(&x->val, userctx, x->val,
+			if (ops->eval_bin_op(&val, userctx, x->val,
 					y->op, y->val) < 0)
 				return -1;
+			x->val = val;
 
 			return 0;
 		}
@@ -541,9 +544,10 @@ static int merge_results(void *userctx,
 
 	if (x->has_val == 0 && x->op != NULL && y->has_val && y->op == NULL) {
 		if (x->op_type == PRE_OP) {
-			if (ops->eval_pre_op(&x->val, userctx, y->val,
+			if (ops->eval_pre_op(&val, userctx, y->val,
 						x->op) < 0)
 				return -1;
+			x->val = val;
 			x->has_val = true;
 			x->op_type = NONE;
 			x->op = NULL;
@@ -556,8 +560,9 @@ static int merge_results(void *userctx,
 	}
 
 	if (x->has_val && x->op == NULL && y->has_val == 0 && y->op != NULL) {
-		if (ops->eval_post_op(&x->val, userctx, x->val, y->op) < 0)
+		if (ops->eval_post_op(&val, userctx, x->val, y->op) < 0)
 			return -1;
+		x->val = val;
 
 		return 0;
 	}
@@ -603,13 +608,15 @@ static int eval_expression(struct result *result,
 	struct ec_pnode *open = NULL, *close = NULL;
 	struct ec_pnode *child, *elt;
 	enum expr_node_type type;
+	void *val; /* undefined if a callback fails */
 
 	memset(result, 0, sizeof(*result));
 
 	type = get_node_type(expr_node, ec_pnode_get_node(parse));
 	if (type == VAL) {
-		if (ops->eval_var(&result->val, userctx, parse) < 0)
+		if (ops->eval_var(&val, userctx, parse) < 0)
 			goto fail;
+		result->val = val;
 		result->has_val = 1;
 	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
 		result->op = parse;
@@ -644,9 +651,10 @@ static int eval_expression(struct result *result,
 	}
 
 	if (open != NULL && close != NULL) {
-		if (ops->eval_parenthesis(&result->val, userctx, open, close,
+		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
 			goto fail;
+		result->val = val;
 	}
 
 	return 0;
-- 
2.43.0


From 04cb0c5c96870118d65ccf879718c32857d7e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:55 +0000
Subject: [PATCH 31/66] fix: node_cmd: properly release nodes on error

The evaluated result is a node, it has to be released with
ec_node_free(). And check the return value when adding the parenthesis.
---
 src/ecoli_node_cmd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 919c348..ca014c8 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -260,7 +260,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
@@ -305,7 +305,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
-- 
2.43.0


From 9e5b626de14a11f7d8ade24764b271bcf2392dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:55 +0000
Subject: [PATCH 32/66] fix: node_cmd: support the documented '+' operator

It was part of the expression grammar, but refused by the lexer and not
evaluated.
---
 src/ecoli_node_cmd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index ca014c8..6a4b967 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -129,6 +129,13 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 			return -1;
 		ec_node_free(in);
 		*result = out;
+	} else if (!strcmp(ec_strvec_val(vec, 0), "+")) {
+		out = ec_node_many(EC_NO_ID,
+				ec_node_clone(in), 1, 0);
+		if (out == NULL)
+			return -1;
+		ec_node_free(in);
+		*result = out;
 	} else {
 		errno = EINVAL;
 		return -1;
@@ -331,7 +338,7 @@ ec_node_cmd_build_parser(struct ec_node *expr)
 	ret = ec_node_re_lex_add(lex, "[a-zA-Z0-9_-]+", 1, NULL);
 	if (ret < 0)
 		goto fail;
-	ret = ec_node_re_lex_add(lex, "[*|,()]", 1, NULL);
+	ret = ec_node_re_lex_add(lex, "[*+|,()]", 1, NULL);
 	if (ret < 0)
 		goto fail;
 	ret = ec_node_re_lex_add(lex, "\\[", 1, NULL);
-- 
2.43.0


From 5c9a6ad194657b1529da3802c71120f7e29f3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:55 +0000
Subject: [PATCH 33/66] fix: node_cmd: keep alternatives ordered and user nodes
 unmodified

"a|b|c" was giving b, c, a as alternatives. And if the id of a sequence,
alternative or subset node provided by the user was referenced as an
operand, the other operands were added to this node.
---
 src/ecoli_node_cmd.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 6a4b967..66e4893 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdarg.h>
+#include <stdbool.h>
 #include <errno.h>
 
 #include <ecoli_init.h>
@@ -144,6 +145,22 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 	return 0;
 }
 
+/* Check if the node is of this type, and was created during the evaluation:
+ * the nodes provided by the user cannot be modified. */
+static bool
+is_mergeable(const struct ec_node_cmd_ctx *ctx, const struct ec_node *node,
+	const char *type)
+{
+	unsigned int i;
+
+	for (i = 0; i < ctx->len; i++) {
+		if (ctx->table[i] == node)
+			return false;
+	}
+
+	return !strcmp(ec_node_get_type_name(node), type);
+}
+
 static int
 ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	const struct ec_pnode *operator, void *operand2)
@@ -153,8 +170,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	struct ec_node *out = NULL;
 	struct ec_node *in1 = operand1;
 	struct ec_node *in2 = operand2;
-
-	(void)userctx;
+	struct ec_node_cmd_ctx *ctx = userctx;
 
 	/* get parsed string vector, it should contain only one str */
 	vec = ec_pnode_get_strvec(operator);
@@ -164,7 +180,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	}
 
 	if (ec_strvec_len(vec) == 0) {
-		if (!strcmp(ec_node_get_type_name(in1), "seq")) {
+		if (is_mergeable(ctx, in1, "seq")) {
 			if (ec_node_seq_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -179,12 +195,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (!strcmp(ec_node_get_type_name(in2), "or")) {
-			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "or")) {
+		if (is_mergeable(ctx, in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -199,12 +210,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (!strcmp(ec_node_get_type_name(in2), "subset")) {
-			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "subset")) {
+		if (is_mergeable(ctx, in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From 86bc9323b1d2d7c0c337dcc1b3f35fbc7dbf567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 34/66] fix: string: release the buffer with the library
 allocator

ec_vasprintf() allocates the buffer with ec_malloc(): release it with
ec_free() on error.
---
 src/ecoli_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 7d6b717..5fd5bef 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -60,7 +60,7 @@ int ec_vasprintf(char **buf, const char *fmt, va_list ap)
 
 	ec_assert_print(ret < buflen, "invalid return value for vsnprintf");
 	if (ret < 0) {
-		free(*buf);
+		ec_free(*buf);
 		*buf = NULL;
 		return -1;
 	}
-- 
2.43.0


From ebf3f7bc733f3272d2aaad9840a6bfb24e1f07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:38 +0000
Subject: [PATCH 35/66] fix: node_cond: check the condition when, and only
 when, the child matches

When the child does not match, ec_parse_child() returns EC_PARSE_NOMATCH which
is a positive value: the condition was evaluated, and if it was false,
a pnode that does not exist (or that belongs to someone else) was freed.
Conversely, the condition was ignored if the child matched no string.
---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 4dabb1f..9476436 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -706,7 +706,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From 53d62b6769494fa4095b2f356d73eb106a126d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:38 +0000
Subject: [PATCH 36/66] fix: node_cond: fix the comparison of node sets

The values stored in a node set are NULL: two non-empty sets
were always different.
---
 src/ecoli_node_cond.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9476436..d0b8d78 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,10 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
-- 
2.43.0


From 992853c283e368bc40916814a6186c843457ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:38 +0000
Subject: [PATCH 37/66] fix: node_cond: check the result of ec_realloc()

---
 src/ecoli_node_cond.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index d0b8d78..ee03d45 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -616,7 +616,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **new_args;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -635,7 +635,10 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			new_args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			if (new_args == NULL)
+				goto fail;
+			args = new_args;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From c0f96a9651e79730f3ebf6a74ef13ae9ec130fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:41 +0000
Subject: [PATCH 38/66] fix: node_file: no completion if the directory cannot
 be read

Typing a path in a directory that does not exist made the whole completion
fail, including the items proposed by the other nodes of the grammar.
---
 src/ecoli_node_file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index f13aa8f..b76019a 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -148,14 +148,15 @@ ec_node_file_complete(const struct ec_node *node,
 	else
 		effective_dir = dname;
 
+	/* nothing to propose if the directory is missing or not readable */
 	if (priv->lstat(effective_dir, &st) < 0)
-		goto fail;
+		goto out;
 	if (!S_ISDIR(st.st_mode))
 		goto out;
 
 	dir = priv->opendir(effective_dir);
 	if (dir == NULL)
-		goto fail;
+		goto out;
 
 	bname_len = strlen(bname);
 	while (1) {
-- 
2.43.0


From 52b15c1a895fdc6362cd4f5f6f0ba06df8e6d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:41 +0000
Subject: [PATCH 39/66] fix: node_file: do not fail on dangling links when
 d_type is unknown

---
 src/ecoli_node_file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index b76019a..e970842 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -9,6 +9,7 @@
 #include <string.h>
 #include <errno.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <dirent.h>
 
 #include <ecoli_log.h>
@@ -186,8 +187,10 @@ ec_node_file_complete(const struct ec_node *node,
 
 			if (dir_fd < 0)
 				goto fail;
-			if (priv->fstatat(dir_fd, de->d_name, &st2, 0) < 0)
-				goto fail;
+			/* don't follow links, to be consistent with d_type */
+			if (priv->fstatat(dir_fd, de->d_name, &st2,
+					AT_SYMLINK_NOFOLLOW) < 0)
+				continue;
 			if (S_ISDIR(st2.st_mode))
 				is_dir = 1;
 			else
-- 
2.43.0


From 64ae4868a382fc32dd7533cdda614d986a92f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:41 +0000
Subject: [PATCH 40/66] fix: node_file: report the failure to add a completion
 item

---
 src/ecoli_node_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index e970842..e4a76b7 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -216,12 +216,12 @@ ec_node_file_complete(const struct ec_node *node,
 		}
 		item = ec_comp_add_item(comp, node, type, input, comp_str);
 		if (item == NULL)
-			goto out;
+			goto fail;
 
 		/* fix the display string: we don't want to display the full
 		 * path. */
 		if (ec_comp_item_set_display(item, disp_str) < 0)
-			goto out;
+			goto fail;
 
 		item = NULL;
 		ec_free(comp_str);
-- 
2.43.0


From 8ad103a135d8c1588f97a7a56c21d751c3799dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:41 +0000
Subject: [PATCH 41/66] fix: node_dynamic: keep the node as long as a
 completion refers to it

The reference was attached to the completion list: it was lost when this
list was merged into another one, or when the parse state of a group was
duplicated, while the items or the parse state still refer to the node.
---
 src/ecoli_node_dynamic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_dynamic.c b/src/ecoli_node_dynamic.c
index 2eb3495..35ad8e2 100644
--- a/src/ecoli_node_dynamic.c
+++ b/src/ecoli_node_dynamic.c
@@ -78,9 +78,10 @@ ec_node_dynamic_complete(const struct ec_node *node,
 		goto fail;
 
 	/* add the node pointer in the attributes, so it will be freed
-	 * when parse is freed */
+	 * when parse (or its copies attached to the completion groups) is
+	 * freed */
 	snprintf(key, sizeof(key), "_dyn_%p", child);
-	ret = ec_dict_set(ec_comp_get_attrs(comp), key, child,
+	ret = ec_dict_set(ec_pnode_get_attrs(parse), key, child,
 			(void *)node_free);
 	if (ret < 0) {
 		child = NULL; /* already freed */
-- 
2.43.0


From 5c7b7b17b60e286c56cc1d4dd5a4de644862091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:41 +0000
Subject: [PATCH 42/66] fix: complete: do not keep a reference to a freed list
 when merging

---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 5ba4fb0..11a4825 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -594,6 +594,7 @@ int ec_comp_merge(struct ec_comp *to,
 		grp = TAILQ_FIRST(&from->groups);
 		TAILQ_REMOVE(&from->groups, grp, next);
 		TAILQ_INSERT_TAIL(&to->groups, grp, next);
+		grp->comp = to;
 	}
 	to->count += from->count;
 	to->count_full += from->count_full;
-- 
2.43.0


From d23bc3548216831a3f3b931f78b6489a756e6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:19 +0000
Subject: [PATCH 43/66] fix: nodes: report an error instead of crashing if a
 node is not configured

A node created with ec_node() without any configuration crashed at
parsing, completion or description. Do like ec_node_str_parse().
---
 src/ecoli_complete.c     | 6 ++++++
 src/ecoli_node_dynamic.c | 8 ++++++++
 src/ecoli_node_re.c      | 5 +++++
 src/ecoli_node_str.c     | 5 +++++
 src/ecoli_parse.c        | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 11a4825..104accf 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -108,6 +108,12 @@ ec_complete_child(const struct ec_node *node,
 	ec_complete_t complete_cb;
 	int ret;
 
+	/* the parent node may not be configured */
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	/* get the complete method, falling back to ec_complete_unknown() */
 	complete_cb = ec_node_type(node)->complete;
 	if (complete_cb == NULL)
diff --git a/src/ecoli_node_dynamic.c b/src/ecoli_node_dynamic.c
index 35ad8e2..a53c6d5 100644
--- a/src/ecoli_node_dynamic.c
+++ b/src/ecoli_node_dynamic.c
@@ -39,6 +39,10 @@ ec_node_dynamic_parse(const struct ec_node *node,
 	char key[64];
 	int ret = -1;
 
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		goto fail;
+	}
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
 		goto fail;
@@ -73,6 +77,10 @@ ec_node_dynamic_complete(const struct ec_node *node,
 	int ret = -1;
 
 	parse = ec_comp_get_cur_pstate(comp);
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		goto fail;
+	}
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
 		goto fail;
diff --git a/src/ecoli_node_re.c b/src/ecoli_node_re.c
index 8633501..fcc2c0e 100644
--- a/src/ecoli_node_re.c
+++ b/src/ecoli_node_re.c
@@ -36,6 +36,11 @@ ec_node_re_parse(const struct ec_node *node,
 
 	(void)pstate;
 
+	if (priv->re_str == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_strvec_len(strvec) == 0)
 		return EC_PARSE_NOMATCH;
 
diff --git a/src/ecoli_node_str.c b/src/ecoli_node_str.c
index d568430..3bf336d 100644
--- a/src/ecoli_node_str.c
+++ b/src/ecoli_node_str.c
@@ -84,6 +84,11 @@ static char *ec_node_str_desc(const struct ec_node *node)
 {
 	struct ec_node_str *priv = ec_node_priv(node);
 
+	if (priv->string == NULL) {
+		errno = EINVAL;
+		return NULL;
+	}
+
 	return ec_strdup(priv->string);
 }
 
diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index e4153c0..a702f80 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -43,6 +43,12 @@ static int __ec_parse_child(const struct ec_node *node,
 
 	// XXX limit max number of recursions to avoid segfault
 
+	/* the parent node may not be configured */
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_node_type(node)->parse == NULL) {
 		errno = ENOTSUP;
 		return -1;
-- 
2.43.0


From 4d1f7081ad01b5f75376ca17ce0f434ef94b4941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:07 +0000
Subject: [PATCH 44/66] fix: yaml: do not delete a parser that is not
 initialized

---
 src/ecoli_yaml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 66f0d11..9e8b783 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -540,12 +540,12 @@ ec_yaml_import(const char *filename)
 	file = fopen(filename, "rb");
 	if (file == NULL) {
 		fprintf(stderr, "Failed to open file %s\n", filename);
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	if (yaml_parser_initialize(&parser) == 0) {
 		fprintf(stderr, "Failed to initialize yaml parser\n");
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	yaml_parser_set_input_file(&parser, file);
@@ -577,6 +577,7 @@ fail:
 	yaml_document_delete(&document);
 fail_no_doc:
 	yaml_parser_delete(&parser);
+fail_no_parser:
 	if (file != NULL)
 		fclose(file);
 	free_table(&table);
-- 
2.43.0


From 8af02a7b1a993d1e568a646a6e2c3497b278ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:07 +0000
Subject: [PATCH 45/66] fix: yaml: refuse a node without type

---
 src/ecoli_yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 9e8b783..38de8f8 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -443,6 +443,12 @@ parse_ec_node(struct enode_table *table,
 		}
 	}
 
+	if (type == NULL) {
+		fprintf(stderr, "Missing type\n");
+		errno = EINVAL;
+		goto fail;
+	}
+
 	/* create the ecoli node */
 	if (id == NULL)
 		id = EC_NO_ID;
-- 
2.43.0


From cfeff67d2d6f7accabd263743661df852e04464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:07 +0000
Subject: [PATCH 46/66] fix: yaml: do not use lists or mappings as strings

---
 src/ecoli_yaml.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 38de8f8..6bebc19 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -331,6 +331,10 @@ parse_ec_config_dict(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 
 		if (ec_config_key_is_reserved(key_str))
@@ -388,6 +392,10 @@ parse_ec_node(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 		value_str = (const char *)value->data.scalar.value;
 
@@ -497,6 +505,11 @@ parse_ec_node(struct enode_table *table,
 		     pair < attrs->data.mapping.pairs.top; pair++) {
 			key = document->nodes.start + pair->key - 1;
 			value = document->nodes.start + pair->value - 1;
+			if (key->type != YAML_SCALAR_NODE ||
+					value->type != YAML_SCALAR_NODE) {
+				fprintf(stderr, "Attrs must be scalars\n");
+				goto fail;
+			}
 			key_str = (const char *)key->data.scalar.value;
 			value_str = (const char *)value->data.scalar.value;
 			value_dup = ec_strdup(value_str);
-- 
2.43.0


From 57e69a7527965021bfbd5cbfbd0a8899bd2455be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:07 +0000
Subject: [PATCH 47/66] fix: yaml: an empty string is not an integer

---
 src/ecoli_yaml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 6bebc19..3de1b3b 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -60,7 +60,7 @@ parse_llint(const char *str, int64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -91,7 +91,7 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From c25b6914d7cb588ec0970cd7bf9f4266b6669615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:05 +0000
Subject: [PATCH 48/66] fix: editline: release ec_malloc()ed memory with
 ec_free()

---
 src/ecoli_editline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d944b12..3a77933 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -182,7 +182,7 @@ ec_editline_set_prompt_esc(struct ec_editline *editline, const char *prompt,
 	return 0;
 
 fail:
-	free(copy);
+	ec_free(copy);
 	return -1;
 }
 
@@ -558,7 +558,7 @@ ec_editline_curline(const struct ec_editline *editline, bool trim_after_cursor)
 	return line;
 
 fail:
-	free(line);
+	ec_free(line);
 	return NULL;
 }
 
@@ -725,7 +725,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
-	free(line);
+	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
 	return count;
-- 
2.43.0


From ab225567f2b050f3419526c78fdbe2c1b0109430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:14 +0000
Subject: [PATCH 49/66] fix: editline: do not give a NULL prompt to libedit

---
 src/ecoli_editline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 3a77933..4df9d40 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -158,6 +158,10 @@ prompt_cb(EditLine *el)
 	if (editline == NULL)
 		return "> ";
 
+	/* libedit does not support a NULL prompt */
+	if (editline->prompt == NULL)
+		return "";
+
 	return editline->prompt;
 }
 
-- 
2.43.0


From 0dd997256474edbff81b3c699322bbba4a5aed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 50/66] fix: editline: do not keep a reference to a released
 history

---
 src/ecoli_editline.c | 56 +++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 4df9d40..c7a6903 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -303,44 +303,42 @@ int ec_editline_set_history(struct ec_editline *editline,
 	size_t hist_size, const char *hist_file)
 {
 	EditLine *el = editline->el;
+	History *hist = NULL;
+	char *file = NULL;
 
-	if (editline->history != NULL)
-		history_end(editline->history);
-	if (editline->hist_file != NULL) {
-		ec_free(editline->hist_file);
-		editline->hist_file = NULL;
-	}
-
-	if (hist_size == 0)
-		return 0;
-
-	editline->history = history_init();
-	if (editline->history == NULL)
-		goto fail;
-	if (history(editline->history, &editline->histev, H_SETSIZE,
-			hist_size) < 0)
-		goto fail;
-	if (history(editline->history, &editline->histev, H_SETUNIQUE, 1))
-		goto fail;
-	if (hist_file != NULL) {
-		editline->hist_file = ec_strdup(hist_file);
-		if (editline->hist_file == NULL)
+	if (hist_size != 0) {
+		hist = history_init();
+		if (hist == NULL)
 			goto fail;
-		// ignore errors
-		history(editline->history, &editline->histev,
-					H_LOAD, editline->hist_file);
+		if (history(hist, &editline->histev, H_SETSIZE, hist_size) < 0)
+			goto fail;
+		if (history(hist, &editline->histev, H_SETUNIQUE, 1))
+			goto fail;
+		if (hist_file != NULL) {
+			file = ec_strdup(hist_file);
+			if (file == NULL)
+				goto fail;
+			// ignore errors
+			history(hist, &editline->histev, H_LOAD, file);
+		}
 	}
-	if (el_set(el, EL_HIST, history, editline->history))
+	if (el_set(el, EL_HIST, history, hist))
 		goto fail;
 
+	/* the previous history is not referenced by el anymore */
+	if (editline->history != NULL)
+		history_end(editline->history);
+	ec_free(editline->hist_file);
+	editline->history = hist;
+	editline->hist_file = file;
+
 	return 0;
 
 fail:
 	//XXX errno
-	if (editline->history != NULL) {
-		history_end(editline->history);
-		editline->history = NULL;
-	}
+	if (hist != NULL)
+		history_end(hist);
+	ec_free(file);
 	return -1;
 }
 
-- 
2.43.0


From d1d772fda3d65bc13b74fcd0896e741873cfc224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:51 +0000
Subject: [PATCH 51/66] fix: editline: keep the last character of an
 unterminated line

---
 src/ecoli_editline.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index c7a6903..4b3ed49 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -739,6 +739,7 @@ ec_editline_gets(struct ec_editline *editline)
 	EditLine *el = editline->el;
 	char *line_copy = NULL;
 	const char *line;
+	size_t len;
 	int count;
 
 	line = el_gets(el, &count);
@@ -749,7 +750,10 @@ ec_editline_gets(struct ec_editline *editline)
 	if (line_copy == NULL)
 		goto fail;
 
-	line_copy[strlen(line_copy) - 1] = '\0'; //XXX needed because of sh_lex bug?
+	/* strip the end of line, which is absent if the input ends without it */
+	len = strlen(line_copy);
+	if (len > 0 && (line_copy[len - 1] == '\n' || line_copy[len - 1] == '\r'))
+		line_copy[len - 1] = '\0';
 
 	if (editline->history != NULL && !ec_str_is_space(line_copy)) {
 		history(editline->history, &editline->histev,
-- 
2.43.0


From 09f4e35b074e85671dfbb62632eb99ce1efe4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:31 +0000
Subject: [PATCH 52/66] fix: editline: report the failures to get contextual
 helps

---
 src/ecoli_editline.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 4b3ed49..c365587 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -473,6 +473,8 @@ ec_editline_get_helps(const struct ec_editline *editline, const char *line,
 
 	/* check if the current line matches */
 	parse = ec_parse(editline->node, full_line);
+	if (parse == NULL)
+		goto fail;
 	if (ec_pnode_matches(parse))
 		count = 1;
 	ec_pnode_free(parse);
@@ -613,6 +615,10 @@ ec_editline_complete(EditLine *el, int c)
 
 		count = ec_editline_get_helps(editline, line, full_line,
 				&helps);
+		if (count < 0) {
+			fprintf(err, "completion failure: cannot get helps\n");
+			goto fail;
+		}
 
 		fprintf(out, "\n");
 		if (ec_editline_print_helps(editline, helps, count) < 0) {
@@ -695,8 +701,11 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	if ((line = ec_editline_curline(editline, false)) == NULL)
 		goto out;
 
-	if (full_line != NULL)
+	if (full_line != NULL) {
 		*full_line = ec_strdup(line);
+		if (*full_line == NULL)
+			goto out;
+	}
 
 	len = strlen(line);
 	for (i = 0; i <= len + 1; i++) {
-- 
2.43.0


From b4c1f10d0e3aa46fb142f4f0e52561f221363a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:51 +0000
Subject: [PATCH 53/66] fix: editline: do not take a completion failure for an
 ambiguity

---
 src/ecoli_editline.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index c365587..12b1e98 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -608,6 +608,11 @@ ec_editline_complete(EditLine *el, int c)
 		goto fail;
 
 	append = ec_editline_append_chars(cmpl);
+	if (append == NULL && ec_comp_count(cmpl, EC_COMP_FULL) +
+			ec_comp_count(cmpl, EC_COMP_PARTIAL) > 0) {
+		fprintf(err, "completion failure: %s\n", strerror(errno));
+		goto fail;
+	}
 
 	if (c == '?') {
 		struct ec_editline_help *helps = NULL;
-- 
2.43.0


From 73da0092d378f215dbde82d3d219ed6497514dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:31 +0000
Subject: [PATCH 54/66] fix: log: do not resize libc memory with the registered
 allocator

---
 src/ecoli_log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_log.c b/src/ecoli_log.c
index c01e65a..590ae02 100644
--- a/src/ecoli_log.c
+++ b/src/ecoli_log.c
@@ -93,14 +93,17 @@ ec_log_type_register(const char *name)
 	if (id >= 0)
 		return id;
 
+	/* Use the libc allocator: the first types are registered in
+	 * constructors, before the application can register its own
+	 * allocator, which must not be given this memory to resize. */
 	// XXX not that good to allocate in constructor
-	new_types = ec_realloc(log_types,
+	new_types = realloc(log_types,
 		sizeof(*new_types) * (log_types_len + 1));
 	if (new_types == NULL)
 		return -1; /* errno is set */
 	log_types = new_types;
 
-	copy = ec_strdup(name);
+	copy = strdup(name);
 	if (copy == NULL)
 		return -1; /* errno is set */
 
-- 
2.43.0


From e409825482389d806b815482742e0d7c4f3cc352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:17 +0000
Subject: [PATCH 55/66] fix: complete: do not count an item that could not be
 added

ec_comp_item_add() incremented the per-type counter before creating the
group. When that allocation fails, the item is refused but stays counted,
so ec_comp_count() disagrees with the items of the list.
---
 src/ecoli_complete.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 104accf..49a989e 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -384,17 +384,8 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		return -1;
 	}
 
-	switch (item->type) {
-	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
-		break;
-	case EC_COMP_FULL:
-		comp->count_full++;
-		break;
-	case EC_COMP_PARTIAL:
-		comp->count_partial++;
-		break;
-	default:
+	if (item->type != EC_COMP_UNKNOWN && item->type != EC_COMP_FULL &&
+			item->type != EC_COMP_PARTIAL) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -409,6 +400,18 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		comp->cur_group = grp;
 	}
 
+	switch (item->type) {
+	case EC_COMP_UNKNOWN:
+		comp->count_unknown++;
+		break;
+	case EC_COMP_FULL:
+		comp->count_full++;
+		break;
+	default:
+		comp->count_partial++;
+		break;
+	}
+
 	comp->count++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
-- 
2.43.0


From 872dead85636a5477626cd9207337b5838feff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:19 +0000
Subject: [PATCH 56/66] fix: libshell: keep blanks and special characters of
 the values

---
 libshell/libecoli.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libshell/libecoli.sh b/libshell/libecoli.sh
index 8e14a1e..7cc60f2 100644
--- a/libshell/libecoli.sh
+++ b/libshell/libecoli.sh
@@ -18,14 +18,14 @@ ec_debug()
 ec_pnode_get_first_child()
 {
 	local first_child=${1}_first_child
-	ec_echo $(eval 'ec_echo ${'$first_child'}')
+	eval 'ec_echo "${'$first_child'}"'
 }
 
 # $1: node sequence number (ex: ec_node4)
 ec_pnode_get_next()
 {
 	local next=${1}_next
-	ec_echo $(eval 'ec_echo ${'$next'}')
+	eval 'ec_echo "${'$next'}"'
 }
 
 # $1: node sequence number (ex: ec_node4)
@@ -43,14 +43,14 @@ ec_pnode_iter_next()
 ec_pnode_get_id()
 {
 	local id=${1}_id
-	ec_echo $(eval 'ec_echo ${'$id'}')
+	eval 'ec_echo "${'$id'}"'
 }
 
 # $1: node sequence number (ex: ec_node4)
 ec_pnode_get_strvec_len()
 {
 	local strvec_len=${1}_strvec_len
-	ec_echo $(eval 'ec_echo ${'$strvec_len'}')
+	eval 'ec_echo "${'$strvec_len'}"'
 }
 
 # $1: node sequence number (ex: ec_node4)
@@ -61,7 +61,7 @@ ec_pnode_get_str()
 		return
 	fi
 	local str=${1}_str${2}
-	ec_echo $(eval 'ec_echo ${'$str'}')
+	eval 'ec_echo "${'$str'}"'
 }
 
 # $1: node sequence number (ex: ec_node4)
-- 
2.43.0


From 4ad07550ae40508af02f39a886768ab9bcf49f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:19 +0000
Subject: [PATCH 57/66] fix: libshell: do not stop iterating at a node without
 identifier

---
 libshell/libecoli.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libshell/libecoli.sh b/libshell/libecoli.sh
index 7cc60f2..842a1eb 100644
--- a/libshell/libecoli.sh
+++ b/libshell/libecoli.sh
@@ -34,7 +34,8 @@ ec_pnode_iter_next()
 	local seq=${1#ec_node}
 	seq=$((seq+1))
 	local next=ec_node${seq}
-	if [ "$(ec_pnode_get_id $next)" != "" ]; then
+	# the identifier may be empty, the type never is
+	if [ "$(eval 'ec_echo "${'${next}_type'}"')" != "" ]; then
 		ec_echo $next
 	fi
 }
-- 
2.43.0


From 03f4b7f54a494499e9631b35726b066d1a871aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 58/66] fix: strvec: do not limit the length of a word of a
 command line

A line with a word of BUFSIZ bytes or more was refused with ENOBUFS: a
string that can be parsed by itself could not be parsed once quoted in a
shell line. Allocate the token buffer from the length of the string.
---
 src/ecoli_strvec.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ae5cc6c..f9325e6 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -323,17 +323,13 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 	/* Weird, but we need an empty string to report as having trailing
 	 * space when EC_STRVEC_SHLEX_KEEP_TRAILING_SPACE is set in flags. */
 	bool trailing_space = true;
-	char token[BUFSIZ];
+	char *token = NULL;
 	char c, quote;
 	size_t t, i;
 
 #define append(buffer, position, character) \
 	do { \
 		buffer[position++] = character; \
-		if (position >= sizeof(buffer)) { \
-			errno = ENOBUFS; \
-			goto fail; \
-		} \
 	} while (0)
 
 	if (str == NULL) {
@@ -345,6 +341,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 	if (strvec == NULL)
 		goto fail;
 
+	/* a token cannot be longer than the string */
+	token = ec_malloc(strlen(str) + 1);
+	if (token == NULL)
+		goto fail;
+
 	t = 0;
 	quote = '\0';
 
@@ -474,9 +475,12 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			goto fail;
 	}
 
+	ec_free(token);
+
 	return strvec;
 
 fail:
+	ec_free(token);
 	ec_strvec_free(strvec);
 	return NULL;
 }
-- 
2.43.0


From dfca7e0d07ff1aedc435a7b8f8ab11511bb9582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:43 +0000
Subject: [PATCH 59/66] fix: htable: reset errno when the element found is NULL

---
 src/ecoli_htable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 5700f57..b5afab3 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -98,6 +98,10 @@ void *ec_htable_get(const struct ec_htable *htable, const void *key,
 	if (ref == NULL)
 		return NULL;
 
+	/* an element which is NULL is not an error */
+	if (ref->elt->val == NULL)
+		errno = 0;
+
 	return ref->elt->val;
 }
 
-- 
2.43.0


From 661f0b62adde54809f5ef1e28f447241ff667454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:43 +0000
Subject: [PATCH 60/66] fix: string: set errno when an unsigned integer is
 refused

---
 src/ecoli_string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 5fd5bef..0d3b5d9 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -130,8 +130,10 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, base);
@@ -140,14 +142,20 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*val < min)
+	if (*val < min) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*val > max)
+	if (*val > max) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (endptr == str || *endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 919a5ec2112283855990d7dd429d618c4d3e2d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:43 +0000
Subject: [PATCH 61/66] fix: config: set errno when a string or a node is
 missing

---
 src/ecoli_config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 310f9df..0f1af43 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -274,8 +274,10 @@ ec_config_string(const char *string)
 	struct ec_config *value = NULL;
 	char *s = NULL;
 
-	if (string == NULL)
+	if (string == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	s = ec_strdup(string);
 	if (s == NULL)
@@ -302,8 +304,10 @@ ec_config_node(struct ec_node *node)
 {
 	struct ec_config *value = NULL;
 
-	if (node == NULL)
+	if (node == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	value = ec_calloc(1, sizeof(*value));
 	if (value == NULL)
-- 
2.43.0


From a6052117473be476442eaded95468680d3bdd665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:43 +0000
Subject: [PATCH 62/66] fix: yaml: set errno when a document is refused

---
 src/ecoli_yaml.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 3de1b3b..d0817a1 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -81,8 +81,10 @@ parse_ullint(const char *str, uint64_t *val)
 	}
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, 0);
@@ -91,8 +93,10 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (endptr == str || *endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
@@ -567,6 +571,9 @@ ec_yaml_import(const char *filename)
 		goto fail_no_parser;
 	}
 
+	/* default error, overridden if the cause is more precise */
+	errno = EINVAL;
+
 	yaml_parser_set_input_file(&parser, file);
 
 	if (yaml_parser_load(&parser, &document) == 0) {
-- 
2.43.0


From 35bf832ae77bc36a78450b633c67fc13ac28ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:34 +0000
Subject: [PATCH 63/66] fix: node helper: set errno when a node of a list is
 missing

---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 06e4241..f3d5652 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -77,8 +77,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		goto fail;
 
 	for (; node != EC_VA_END; node = va_arg(ap, struct ec_node *)) {
-		if (node == NULL)
+		if (node == NULL) {
+			errno = EINVAL;
 			goto fail;
+		}
 
 		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
 			node = NULL; /* freed */
-- 
2.43.0


From 2af40f6150f052dac7d2a0be1af0cd56fa3a552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:34 +0000
Subject: [PATCH 64/66] fix: parse: set errno when there is no tree to
 duplicate

---
 src/ecoli_parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index a702f80..64c0360 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -175,8 +175,10 @@ __ec_pnode_dup(const struct ec_pnode *root, const struct ec_pnode *ref,
 	struct ec_pnode *child, *dup_child;
 	struct ec_dict *attrs = NULL;
 
-	if (root == NULL)
+	if (root == NULL) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	dup = ec_pnode(root->node);
 	if (dup == NULL)
-- 
2.43.0


From 0f0ca6a2da36f0ebdae6db3acf9fd01a6ad12796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 65/66] fix: node_sh_lex: keep items that have no completion
 string as they are

An item whose text does not start with the incomplete token has no
completion string. When a quote was missing, it was formatted with %s and
became "(null)" followed by the quote.
---
 src/ecoli_node_sh_lex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index fcc0189..6a21cf8 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -127,6 +127,8 @@ ec_node_sh_lex_complete(const struct ec_node *node,
 			new_str = NULL;
 
 			str = ec_comp_item_get_completion(item);
+			if (str == NULL) /* not applicable */
+				continue;
 			if (ec_asprintf(&new_str, "%s%c", str,
 					missing_quote) < 0) {
 				new_str = NULL;
-- 
2.43.0


From 3a9902f7bedff611d63e34af219eb157ad8a9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 66/66] fix: editline: do not crash on items that have no
 completion string

The completion string of an item is NULL when its text does not start with
the incomplete token: ec_editline_append_chars() dereferenced it.
---
 src/ecoli_editline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 12b1e98..9419c29 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -393,6 +393,8 @@ ec_editline_append_chars(const struct ec_comp *cmpl)
 
 	EC_COMP_FOREACH(item, cmpl, EC_COMP_FULL | EC_COMP_PARTIAL) {
 		append = ec_comp_item_get_completion(item);
+		if (append == NULL) /* not applicable, nothing in common */
+			append = "";
 		if (ret == NULL) {
 			ret = ec_strdup(append);
 			if (ret == NULL)
-- 
2.43.0

