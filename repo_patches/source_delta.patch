From 8625edd042508c4f5e35a85b30e23c7d7b70303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 01/25] fix: advance through the input buffer when refilling
 the parser

When more input was requested than the first refill could hold, the start of
the buffer was returned again in place of the remaining input.
---
 lib/src/parser.c       | 1 +
 lib/src/quick_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..e6cb8b2 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -77,6 +77,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..a19077d 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -51,6 +51,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
-- 
2.43.0


From 72d1f056e958dea078b061180656c73eab5d0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 02/25] fix: check the result of growing a vector

The wrong pointer was tested, so a failed reallocation lost the existing elements
and wrote through a null pointer.
---
 lib/src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From 3c9d29617eec53d341f1d0d7c44799563bf46fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 03/25] fix: do not free the top-most block twice when a parse
 fails

---
 lib/src/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index e6cb8b2..f1aafcb 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -618,6 +618,8 @@ int parse_each(yyrule rule, source_cb_t source, void *sourcedata,
     {
         if (parse_one(&yy, rule))
         {
+            // all blocks have been released, including the top-most
+            top_block = NULL;
             goto cleanup;
         }
 
-- 
2.43.0


From bf591293b2f8da8cd38274f0ff6eded7d84b235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 04/25] fix: do not free children twice when merging a block
 fails

---
 lib/src/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index f1aafcb..2d24879 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -976,6 +976,11 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                // leave the children owned by the closed block only
+                while (i-- > 0)
+                {
+                    astnodes_pop(&(pblock->children));
+                }
                 abort_parse(yy);
             }
         }
-- 
2.43.0


From 82c8f59b53595880febdf20d94ef3cc1d4827dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 05/25] fix: do not free a node twice when adding it to a
 sequence fails

---
 lib/src/parser.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 2d24879..2f131ef 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1069,9 +1069,7 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
     assert(block != NULL);
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
+        // the node is still owned by the children of the block
         abort_parse(yy);
     }
 }
-- 
2.43.0


From 5f91ffdfb2409a5a0ed54f398e0e4a4a7cb5e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 06/25] fix: release the copied children array when building a
 node fails

Constructors that allocate after cypher_astnode_init leaked the array it copied.
---
 lib/src/ast_call.c       | 1 +
 lib/src/ast_comparison.c | 1 +
 lib/src/ast_query.c      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..92ad796 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -94,6 +94,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..3143105 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -83,6 +83,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
 cleanup:
     errsv = errno;
     free(node->ops);
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..fedaa79 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
-- 
2.43.0


From ce869a6c5daeaa217cfec946e0c0056456c3c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 07/25] fix: fail the parse on a stream read error

A read error was taken for the end of the input, so a partially read statement
was parsed and delivered and success was reported.
---
 lib/src/parser.c       | 17 +++++++++++++++--
 lib/src/quick_parser.c | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 2f131ef..3cc8630 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -111,7 +111,15 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        if (!ferror(stream))
+        {
+            return 0;
+        }
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        return -1;
     }
     *buf = c;
     return 1;
@@ -536,7 +544,12 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
         return;
     }
     assert(yy != NULL && yy->source != NULL);
-    *result = yy->source(yy->source_data, buf, max_size);
+    int n = yy->source(yy->source_data, buf, max_size);
+    if (n < 0)
+    {
+        abort_parse(yy);
+    }
+    *result = n;
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index a19077d..a863688 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,15 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        if (!ferror(stream))
+        {
+            return 0;
+        }
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        return -1;
     }
     *buf = c;
     return 1;
@@ -131,7 +139,12 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
         return;
     }
     assert(yy != NULL && yy->source != NULL);
-    *result = yy->source(yy->source_data, buf, max_size);
+    int n = yy->source(yy->source_data, buf, max_size);
+    if (n < 0)
+    {
+        abort_parse(yy);
+    }
+    *result = n;
 }
 
 
-- 
2.43.0


From 73bc4e02fb630b287e5939377669bd86df9c487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 08/25] fix: track line starts inside escaped symbolic names

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..6f047c6 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -857,7 +857,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From cc8ba4aead782047f1192908c17459bde5e2f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 09/25] fix: forget potential errors of one segment when
 parsing the next

---
 lib/src/errors.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/errors.h b/lib/src/errors.h
index a08b697..802507f 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -60,6 +60,8 @@ int cp_et_reify_potentials(cp_error_tracking_t *et);
 
 static inline void cp_et_clear_potentials(cp_error_tracking_t *et)
 {
+    et->last_position = cypher_input_position_zero;
+    et->last_char = '\0';
     et->nlabels = 0;
 }
 
-- 
2.43.0


From 71f499f12fd1322fe5098edf858fca2db4efe739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 10/25] fix: define cypher_parse_segment_get_root, as declared

---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From acb2d8b50be0e8ea913ce7d3c88b9e1a39056f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 11/25] fix: pass the node to the annotation release handler

---
 lib/src/annotation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..bcfad74 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
         context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+                astnode, annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From c2fa92ffe834493bd2bceb5435d69ff675b28cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 12/25] fix: advance when searching for the index of a child

---
 lib/src/astnode.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..6bcc683 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,9 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+    {
+        ++i;
+    }
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From a779f03c7bb3c6cda9b98308df097d75d5d994b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 13/25] fix: release the temporary children array after cloning
 a node

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..8f50a96 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -559,6 +559,7 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From 16e74f78daf918d43d92f07e967f8dea2c632431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 14/25] fix: clone optional children when they are present

---
 lib/src/ast_none.c                  | 2 +-
 lib/src/ast_pattern_comprehension.c | 2 +-
 lib/src/ast_return.c                | 4 ++--
 lib/src/ast_start.c                 | 2 +-
 lib/src/ast_with.c                  | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From 5dec69a48d902d5fbbbaf9a9005f2372a6eb1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 15/25] fix: clone relationship constraint drops as what they
 are

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From a3775e7ba143e0f0eed89f3fdd92aac5a48500b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 16/25] fix: clone all keys and values of a map

---
 lib/src/ast_map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..3000f53 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -121,13 +121,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     REQUIRE_TYPE(self, CYPHER_AST_MAP, NULL);
     struct map *node = container_of(self, struct map, _astnode);
 
-    cypher_astnode_t **pairs = calloc(node->nentries,
+    cypher_astnode_t **pairs = calloc(node->nentries * 2,
             sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < node->nentries * 2; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From d6857c754b39d4e272941004add8fb994bc3abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 17/25] fix: clone all alternatives of a case expression

---
 lib/src/ast_case.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..acf5785 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -96,13 +96,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
-    cypher_astnode_t **alternatives = calloc(node->nalternatives,
+    cypher_astnode_t **alternatives = calloc(node->nalternatives * 2,
             sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < node->nalternatives * 2; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
-- 
2.43.0


From af8574fa6daf6d704275ca3efd3eaadbbb0a51fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 18/25] fix: release the options when cloning a query fails

---
 lib/src/ast_query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index fedaa79..3d325b2 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -108,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0


From a75465d86eb6c9d18b6e6144aa2079b4b53a5205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 19/25] fix: release the arguments when cloning a call fails

---
 lib/src/ast_call.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 92ad796..8fdc330 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -129,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
-- 
2.43.0


From 614a333efb4b0a54a1fb2c0957d1a6288cb17120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 20/25] fix: do not capture the caller's index in
 REQUIRE_CONTAINS

cypher_ast_pattern_path requires each elements[i] to be among the children, but
the macro's own i shadowed the index, so it read beyond the elements.
---
 lib/src/astnode.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 6bcc683..5cc2994 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -80,10 +80,10 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS(collection, size, val, res) \
     do { \
         REQUIRE((size > 0) && (collection != NULL), res); \
-        unsigned int i = 0; \
-        while (i < size && collection[i] != val) \
-            i++; \
-        REQUIRE(i < size, res); \
+        unsigned int _i = 0; \
+        while (_i < size && collection[_i] != val) \
+            _i++; \
+        REQUIRE(_i < size, res); \
     } while(0)
 
 #define REQUIRE_CONTAINS_OPTIONAL(collection, size, val, res) \
-- 
2.43.0


From 0d08a30cdb2c718a750caa56a68dea722388a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 21/25] fix: grow the rendering buffer for the terminator as
 well

A detail of exactly the buffer's size lost its last character, and a NUL was
written in its place.
---
 lib/src/ast.c  | 2 +-
 lib/src/util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 8f50a96..48929ce 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -606,7 +606,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From de4f920f4958d4d758c7fee99b4320316f4eac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 22/25] fix: do not exit with success when the output could not
 be written

---
 linter/src/cypher-lint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/linter/src/cypher-lint.c b/linter/src/cypher-lint.c
index 4211f4e..e1e4ad2 100644
--- a/linter/src/cypher-lint.c
+++ b/linter/src/cypher-lint.c
@@ -261,6 +261,10 @@ int main(int argc, char *argv[])
     result = EXIT_SUCCESS;
 
 cleanup:
+    if (fflush(stdout) || ferror(stdout))
+    {
+        result = EXIT_FAILURE;
+    }
     return result;
 }
 
-- 
2.43.0


From cc02f31f1a5663cf8da0c3955430141f13aa6287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 23/25] fix: comments around the dots of a qualified function
 or procedure name failed an assertion

---
 lib/src/parser.leg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 6f047c6..f89dd41 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -679,11 +679,11 @@ prop-name = <                          { strbuf_reset(); }
     >                                  { $$ = strbuf_prop_name(); }
     -
 
-function-name = <                      { strbuf_reset(); }
+function-name = _block_start_          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -691,11 +691,11 @@ index-name = <                         { strbuf_reset(); }
     >                                  { $$ = strbuf_index_name(); }
     -
 
-proc-name = <                          { strbuf_reset(); }
+proc-name = _block_start_              { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From 32838606a098d4a283e26e0d6e0b1ce88c39769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 24/25] fix: the quick parser ended statements at terminators
 and quotes in backquoted names

---
 lib/src/quick_parser.leg | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index ab9570c..8ec6caf 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -33,6 +33,7 @@ statement = - < statement-body > - ( ';' | EOF )
 statement-body =
     ( comment
     | quoted
+    | backquoted
     | unclosed-block-comment
     | escaped-char
     | !(- ';') .
@@ -41,6 +42,7 @@ statement-body =
 quoted = single-quoted | double-quoted
 single-quoted = "'" (escaped-char | EOL | !"'" .)* ("'" | EOF)
 double-quoted = '"' (escaped-char | EOL | !'"' .)* ('"' | EOF)
+backquoted = '`' (EOL | !'`' .)* ('`' | EOF)
 
 escaped-char = '\\' [abfnrtv"'?\\]
 
-- 
2.43.0


From 63ce221a13f2ffe999ee396d6f0deeef21a4de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:05 +0000
Subject: [PATCH 25/25] fix: references to nodes with ordinals above INT_MAX
 were shown as negative

---
 lib/src/ast_create.c        | 2 +-
 lib/src/ast_match.c         | 2 +-
 lib/src/ast_merge.c         | 2 +-
 lib/src/ast_named_path.c    | 2 +-
 lib/src/ast_shortest_path.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ast_create.c b/lib/src/ast_create.c
index 391bdb7..d46bf26 100644
--- a/lib/src/ast_create.c
+++ b/lib/src/ast_create.c
@@ -102,6 +102,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
 {
     REQUIRE_TYPE(self, CYPHER_AST_CREATE, -1);
     struct create *node = container_of(self, struct create, _astnode);
-    return snprintf(str, size, "%spattern=@%d", node->unique? "UNIQUE, " : "",
+    return snprintf(str, size, "%spattern=@%u", node->unique? "UNIQUE, " : "",
             node->pattern->ordinal);
 }
diff --git a/lib/src/ast_match.c b/lib/src/ast_match.c
index 8d3f6e6..75d6d46 100644
--- a/lib/src/ast_match.c
+++ b/lib/src/ast_match.c
@@ -170,7 +170,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct match *node = container_of(self, struct match, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "%spattern=@%d",
+    ssize_t r = snprintf(str, size, "%spattern=@%u",
             node->optional? "OPTIONAL, " : "", node->pattern->ordinal);
     if (r < 0)
     {
diff --git a/lib/src/ast_merge.c b/lib/src/ast_merge.c
index 668be11..d003c80 100644
--- a/lib/src/ast_merge.c
+++ b/lib/src/ast_merge.c
@@ -143,7 +143,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct merge *node = container_of(self, struct merge, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "path=@%d", node->path->ordinal);
+    ssize_t r = snprintf(str, size, "path=@%u", node->path->ordinal);
     if (r < 0)
     {
         return -1;
diff --git a/lib/src/ast_named_path.c b/lib/src/ast_named_path.c
index b2b63ee..85ca8b2 100644
--- a/lib/src/ast_named_path.c
+++ b/lib/src/ast_named_path.c
@@ -141,6 +141,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct named_path *node =
             container_of(ppnode, struct named_path, _pattern_path_astnode);
-    return snprintf(str, size, "@%d = @%d", node->identifier->ordinal,
+    return snprintf(str, size, "@%u = @%u", node->identifier->ordinal,
             node->path->ordinal);
 }
diff --git a/lib/src/ast_shortest_path.c b/lib/src/ast_shortest_path.c
index 04c1d37..f64e0a0 100644
--- a/lib/src/ast_shortest_path.c
+++ b/lib/src/ast_shortest_path.c
@@ -138,7 +138,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct shortest_path *node =
             container_of(ppnode, struct shortest_path, _pattern_path_astnode);
-    return snprintf(str, size, "single=%s, path=@%d",
+    return snprintf(str, size, "single=%s, path=@%u",
             node->single? "true" : "false",
             node->path->ordinal);
 }
-- 
2.43.0

