From cecf6a6ad56046b872c1e8c966c2ea25594f913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 01/61] fix: list_swap leaves nodes pointing at the other list

---
 src/list/list_swap.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..396395f 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each node now belongs to the instance holding it. */
+    for (list_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (list_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
-- 
2.43.0


From 7a80948f9c95530b62cd8269ac2f07adba250c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 02/61] fix: slist_swap leaves nodes pointing at the other list

---
 src/slist/slist_swap.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..250cc6c 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each node now belongs to the instance holding it. */
+    for (slist_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (slist_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
-- 
2.43.0


From 28ae80469efb9f2e01913a5ca60481f5cfd8af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 03/61] fix: rbtree_delete_fixup never rebalances around a
 removed leaf

---
 src/rbtree/rbtree_delete_fixup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From 1949fda9a0a978d31645ea4726df89c2f1f5fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 04/61] fix: swapping lists exchanges the allocators the list
 structures are reclaimed with

---
 src/list/list_swap.c   | 7 +++++++
 src/slist/slist_swap.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 396395f..2df061f 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -14,6 +14,7 @@
 
 #include "list_internal.h"
 
+RCPR_IMPORT_allocator;
 RCPR_IMPORT_list;
 RCPR_IMPORT_list_internal;
 
@@ -39,6 +40,8 @@ RCPR_IMPORT_list_internal;
 void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
 {
     list tmp;
+    allocator* left_alloc = left->alloc;
+    allocator* right_alloc = right->alloc;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
@@ -48,6 +51,10 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance is still backed by its own allocator. */
+    left->alloc = left_alloc;
+    right->alloc = right_alloc;
+
     /* each node now belongs to the instance holding it. */
     for (list_node* n = left->head; NULL != n; n = n->next)
     {
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 250cc6c..99c8377 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -14,6 +14,7 @@
 
 #include "slist_internal.h"
 
+RCPR_IMPORT_allocator;
 RCPR_IMPORT_slist;
 RCPR_IMPORT_slist_internal;
 
@@ -39,6 +40,8 @@ RCPR_IMPORT_slist_internal;
 void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
 {
     slist tmp;
+    allocator* left_alloc = left->alloc;
+    allocator* right_alloc = right->alloc;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
@@ -48,6 +51,10 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance is still backed by its own allocator. */
+    left->alloc = left_alloc;
+    right->alloc = right_alloc;
+
     /* each node now belongs to the instance holding it. */
     for (slist_node* n = left->head; NULL != n; n = n->next)
     {
-- 
2.43.0


From 76b4c65decebc8848879865067c202fcfd689955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 05/61] fix: rbtree_swap leaves nodes referring to the other
 tree's nil node

---
 src/rbtree/rbtree_swap.c | 65 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..45e1e0a 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -12,9 +12,13 @@
 
 #include "rbtree_internal.h"
 
+RCPR_IMPORT_allocator;
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+/* forward decls. */
+static void adopt_nodes(rbtree* tree, rbtree_node* old_nil, rbtree_node* n);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -37,6 +41,8 @@ RCPR_IMPORT_rbtree_internal;
 void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
 {
     rbtree tmp;
+    allocator* left_alloc = left->alloc;
+    allocator* right_alloc = right->alloc;
 
     /* precondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
@@ -46,7 +52,66 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance is still backed by its own allocator. */
+    left->alloc = left_alloc;
+    right->alloc = right_alloc;
+
+    /* the nodes must refer to the nil node of the instance now owning them. */
+    rbtree_node* right_nil = left->nil;
+    rbtree_node* left_nil = right->nil;
+    left->nil = left_nil;
+    right->nil = right_nil;
+    adopt_nodes(left, right_nil, left->root);
+    adopt_nodes(right, left_nil, right->root);
+
+    /* an empty tree has nil as its root. */
+    if (right_nil == left->root)
+    {
+        left->root = left->nil;
+    }
+    if (left_nil == right->root)
+    {
+        right->root = right->nil;
+    }
+
+    /* make sure that each nil node is correct. */
+    left_nil->parent = left_nil->left = left_nil->right = left_nil;
+    right_nil->parent = right_nil->left = right_nil->right = right_nil;
+    left_nil->value = rbtree_node_resource_handle(left_nil);
+    right_nil->value = rbtree_node_resource_handle(right_nil);
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief Make the given subtree refer to the nil node of the given tree.
+ *
+ * \param tree          The tree now owning this subtree.
+ * \param old_nil       The nil node to which this subtree refers.
+ * \param n             The root of this subtree.
+ */
+static void adopt_nodes(rbtree* tree, rbtree_node* old_nil, rbtree_node* n)
+{
+    if (old_nil == n)
+    {
+        return;
+    }
+
+    adopt_nodes(tree, old_nil, n->left);
+    adopt_nodes(tree, old_nil, n->right);
+
+    if (old_nil == n->parent)
+    {
+        n->parent = tree->nil;
+    }
+    if (old_nil == n->left)
+    {
+        n->left = tree->nil;
+    }
+    if (old_nil == n->right)
+    {
+        n->right = tree->nil;
+    }
+}
-- 
2.43.0


From be197def89ab83a728cf1301068ddb92345bb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 06/61] fix: a child that fails to release leaks its list node
 and breaks the list

---
 src/list/list_clear.c          |  9 +++++++++
 src/list/list_node_release.c   | 18 ++++++++++++------
 src/slist/slist_clear.c        |  5 +++++
 src/slist/slist_node_release.c | 18 ++++++++++++------
 4 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..ae62dd5 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -42,6 +42,15 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         list_node* t = l->head;
         l->head = l->head->next;
         l->count -= 1U;
+        /* keep the list valid in case cleaning up this node fails. */
+        if (NULL != l->head)
+        {
+            l->head->prev = NULL;
+        }
+        else
+        {
+            l->tail = NULL;
+        }
 
         t->parent = NULL;
         t->next = NULL;
diff --git a/src/list/list_node_release.c b/src/list/list_node_release.c
index af16008..eb5728e 100644
--- a/src/list/list_node_release.c
+++ b/src/list/list_node_release.c
@@ -31,6 +31,7 @@ status
 RCPR_SYM(list_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status child_retval = STATUS_SUCCESS;
     list_node* n = (list_node*)r;
 
     RCPR_MODEL_ASSERT(prop_list_node_valid(n));
@@ -46,15 +47,20 @@ RCPR_SYM(list_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        child_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this list_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* the node is reclaimed, even if releasing the child failed. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* if any operation failed, return a failure code. */
+    if (STATUS_SUCCESS != child_retval)
+    {
+        return child_retval;
+    }
+
+    return reclaim_retval;
 }
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..2fc656f 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -41,6 +41,11 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         slist_node* t = l->head;
         l->head = l->head->next;
         l->count -= 1U;
+        /* keep the list valid in case cleaning up this node fails. */
+        if (NULL == l->head)
+        {
+            l->tail = NULL;
+        }
 
         t->parent = NULL;
         t->next = NULL;
diff --git a/src/slist/slist_node_release.c b/src/slist/slist_node_release.c
index 3fa70db..3a012f2 100644
--- a/src/slist/slist_node_release.c
+++ b/src/slist/slist_node_release.c
@@ -32,6 +32,7 @@ status
 RCPR_SYM(slist_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status child_retval = STATUS_SUCCESS;
     slist_node* n = (slist_node*)r;
 
     RCPR_MODEL_ASSERT(prop_slist_node_valid(n));
@@ -47,15 +48,20 @@ RCPR_SYM(slist_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        child_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this slist_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* the node is reclaimed, even if releasing the child failed. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* if any operation failed, return a failure code. */
+    if (STATUS_SUCCESS != child_retval)
+    {
+        return child_retval;
+    }
+
+    return reclaim_retval;
 }
-- 
2.43.0


From 51c156c88441a9c464c903a4b7be8a3e1f6042c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 07/61] fix: a child that fails to release leaks the list of a
 queue

---
 src/queue/queue_create.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 0968be9..7aeb9f3 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -123,25 +123,20 @@ RCPR_SYM(queue_create)(
  */
 static status queue_release(resource* r)
 {
-    status list_retval, retval;
+    status retval;
     queue* q = (queue*)r;
 
     /* cache the allocator. */
     allocator* a = q->list->alloc;
 
     /* release the list resource. */
-    list_retval = resource_release(slist_resource_handle(q->list));
-
-    /* reclaim this instance. */
-    retval = allocator_reclaim(a, q);
-
-    /* if we succeed, then return the status of releasing the list. */
-    if (STATUS_SUCCESS == retval)
-    {
-        return list_retval;
-    }
-    else
+    retval = resource_release(slist_resource_handle(q->list));
+    if (STATUS_SUCCESS != retval)
     {
+        /* the list still exists, so the queue does, too. */
         return retval;
     }
+
+    /* reclaim this instance. */
+    return allocator_reclaim(a, q);
 }
-- 
2.43.0


From b8cba3348a5f4ab760e5abfbdbabda71eb245726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 08/61] fix: a value that fails to release leaks its tree node

---
 src/rbtree/rbtree_node_create.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/rbtree/rbtree_node_create.c b/src/rbtree/rbtree_node_create.c
index 838b5bc..3302aa0 100644
--- a/src/rbtree/rbtree_node_create.c
+++ b/src/rbtree/rbtree_node_create.c
@@ -111,6 +111,7 @@ RCPR_SYM(rbtree_node_create)(
  */
 static status rbtree_node_release(resource* r)
 {
+    status value_retval = STATUS_SUCCESS;
     rbtree_node* n = (rbtree_node*)r;
 
     /* parameter sanity checks. */
@@ -126,15 +127,20 @@ static status rbtree_node_release(resource* r)
         RCPR_MODEL_ASSERT(prop_resource_valid(v));
 
         /* release the value. */
-        status retval = resource_release(v);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        value_retval = resource_release(v);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this rbtree_node succeeds, then so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* the node is reclaimed, even if releasing the value failed. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* if any operation failed, return a failure code. */
+    if (STATUS_SUCCESS != value_retval)
+    {
+        return value_retval;
+    }
+
+    return reclaim_retval;
 }
-- 
2.43.0


From dccfa308c817e5a6c198cfd4f203ca91085a763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 09/61] fix: rbtree_delete leaves the output untouched on
 failure

---
 src/rbtree/rbtree_delete.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rbtree/rbtree_delete.c b/src/rbtree/rbtree_delete.c
index bf9fd8e..4a593f1 100644
--- a/src/rbtree/rbtree_delete.c
+++ b/src/rbtree/rbtree_delete.c
@@ -62,6 +62,12 @@ RCPR_SYM(rbtree_delete)(
     retval = rbtree_find_node(tree, key, &node);
     if (STATUS_SUCCESS != retval)
     {
+        /* on failure, the resource pointer is set to NULL. */
+        if (NULL != r)
+        {
+            *r = NULL;
+        }
+
         return retval;
     }
 
-- 
2.43.0


From 84d6a3d3c341be3ebafbf6d63607cece80746400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 10/61] fix: a huge bump allocation wraps around and succeeds

The end offset could overflow, so a request larger than the address space
succeeded and moved the allocator backwards. Also set the pointer to NULL on
failure, as documented.
---
 src/allocator/bump_allocator_create.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..2ec03be 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -182,16 +182,16 @@ static status bump_allocator_allocate(
         mem_offset += 16 - (raw_mem_offset % 16);
     }
 
-    /* verify that this computed offset does not exceed the total size of this
-     * memory region. */
-    size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    /* verify that this computed offset and the requested size do not exceed the
+     * total size of this memory region. */
+    if (mem_offset >= bump->max_size || size >= bump->max_size - mem_offset)
     {
+        *ptr = NULL;
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
     /* bump the allocator. */
-    bump->offset = bump_offset;
+    bump->offset = mem_offset + size;
 
     /* success. */
     *ptr = (bump->region + mem_offset);
-- 
2.43.0


From 2aefe6d8f24aa5a9e331e4c09f506fdf755024e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 11/61] fix: parsing a bad UUID overwrites part of the caller's
 UUID

The documentation says the UUID is not changed on failure.
---
 src/uuid/rcpr_uuid_parse_raw_string.c | 34 ++++++++++++++-------------
 src/uuid/rcpr_uuid_parse_string.c     | 34 ++++++++++++++-------------
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/uuid/rcpr_uuid_parse_raw_string.c b/src/uuid/rcpr_uuid_parse_raw_string.c
index b4ef9e4..502ec77 100644
--- a/src/uuid/rcpr_uuid_parse_raw_string.c
+++ b/src/uuid/rcpr_uuid_parse_raw_string.c
@@ -53,6 +53,7 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str, size_t length)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -65,44 +66,45 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     if (36 != length) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
diff --git a/src/uuid/rcpr_uuid_parse_string.c b/src/uuid/rcpr_uuid_parse_string.c
index d18f04a..2f95db2 100644
--- a/src/uuid/rcpr_uuid_parse_string.c
+++ b/src/uuid/rcpr_uuid_parse_string.c
@@ -48,6 +48,7 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -57,47 +58,48 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     if (NULL == str) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* finally, if the string is not empty, this fails. */
     if (0 != *str) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
-- 
2.43.0


From f437fa2f09a4aaa10b0efd4629a0cb7014d75b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 12/61] fix: moving descriptors destroys ones already at or
 above the threshold

dup2 onto a fixed number closed whatever was open there, including other
descriptors of the same call, and a descriptor already at its target number was
closed outright.
---
 src/socket_utilities/vsocket_utility_move_descriptors.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..3812bba 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <fcntl.h>
 #include <rcpr/socket_utilities.h>
 #include <stddef.h>
 #include <unistd.h>
@@ -53,8 +54,9 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
-        /* Move the descriptor to the threshold or above */
-        new_fd = dup2(old_fd, threshold);
+        /* Move the descriptor to the lowest free offset that is at or above the
+         * threshold. */
+        new_fd = fcntl(old_fd, F_DUPFD, threshold);
         if (new_fd < 0)
         {
             retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
@@ -65,11 +67,10 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
         close(old_fd);
 
         /* Update the descriptor to point to the new location */
-        *curr = threshold;
+        *curr = new_fd;
 
         /* Advance to next descriptor */
         curr = va_arg(args, int*);
-        threshold++;
     }
 
     retval = STATUS_SUCCESS;
-- 
2.43.0


From 3ac050b0cdfd743f18c446101b958045826c7128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 13/61] fix: setting a descriptor to the offset it already has
 closes it

---
 src/socket_utilities/vsocket_utility_setfds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..5ef7e60 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -44,8 +44,11 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
             goto done;
         }
 
-        /* close the old fd. */
-        close(curr);
+        /* close the old fd, unless it already was in the right place. */
+        if (curr != mapped)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From a5040ab86ddaf4c2c204cd638588f24b75bce795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 14/61] fix: descriptors above FD_SETSIZE are not closed by
 close_other_fds

---
 .../socket_utility_close_other_fds.c           | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/socket_utilities/socket_utility_close_other_fds.c b/src/socket_utilities/socket_utility_close_other_fds.c
index 1fd3d29..6dfd6f0 100644
--- a/src/socket_utilities/socket_utility_close_other_fds.c
+++ b/src/socket_utilities/socket_utility_close_other_fds.c
@@ -9,6 +9,7 @@
 
 #include <rcpr/socket_utilities.h>
 #include <sys/select.h>
+#include <sys/syscall.h>
 #include <unistd.h>
 
 /**
@@ -24,7 +25,22 @@
 status FN_DECL_MUST_CHECK
 RCPR_SYM(socket_utility_close_other_fds)(int fd)
 {
-    for (int i = fd + 1; i < FD_SETSIZE; ++i)
+    /* a process can have more than FD_SETSIZE descriptors. */
+    long max = sysconf(_SC_OPEN_MAX);
+    if (max < FD_SETSIZE)
+    {
+        max = FD_SETSIZE;
+    }
+
+#ifdef SYS_close_range
+    /* let the kernel do this, if it can. */
+    if (0 == syscall(SYS_close_range, (unsigned int)(fd + 1), ~0U, 0U))
+    {
+        return STATUS_SUCCESS;
+    }
+#endif
+
+    for (long i = fd + 1; i < max; ++i)
     {
         close(i);
     }
-- 
2.43.0


From f220b5491c7da6896f509b03ff6c7951f38a3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 15/61] fix: a vtable just behind the vtable section is
 accepted

---
 include/rcpr/vtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcpr/vtable.h b/include/rcpr/vtable.h
index d5a5594..8eac2b0 100644
--- a/include/rcpr/vtable.h
+++ b/include/rcpr/vtable.h
@@ -65,7 +65,7 @@ extern const void* __stop_rcpr_vtable;
 #define RCPR_VTABLE_CHECK(ptr) \
     if ( \
         (ptrdiff_t)(ptr) >= (ptrdiff_t)(&__start_rcpr_vtable) \
-     && (ptrdiff_t)(ptr) <= (ptrdiff_t)(&__stop_rcpr_vtable)) \
+     && (ptrdiff_t)(ptr) < (ptrdiff_t)(&__stop_rcpr_vtable)) \
     { \
         return true; \
     } \
-- 
2.43.0


From 3899c532a34fad8c6fad9bd5246d9acccd1a4ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 16/61] fix: releasing a disciplined scheduler leaks its
 context

The release method of the context released everything the context refers to, but
never the context.
---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..d0be4b8 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -492,6 +492,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status context_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -550,6 +551,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context structure itself. */
+    context_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -579,7 +583,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     }
     else
     {
-        return STATUS_SUCCESS;
+        return context_retval;
     }
 }
 
-- 
2.43.0


From 1c0378f9c3853119a5ef28fb9fb6cac5a452c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 17/61] fix: a failed scheduler creation can report success

The cleanup path tested the wrong status, so a clean release replaced the error.
---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index d0be4b8..5669bb7 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -349,7 +349,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 70873a480fc6c85dd78c3d9ea95cd7cbd419085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 18/61] fix: a failed conditional creation can report success

The cleanup path tested the wrong status, so a clean release replaced the error.
---
 .../fiber/condition_discipline_create_callback_handler.c        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..27b04e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From c0632c112a6d39aa283e9f2784b24b7e80cc38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 19/61] fix: a failed mailbox creation can report success

The cleanup path tested the wrong status, so a clean release replaced the error.
---
 .../message_discipline_mailbox_create_callback_handler.c        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..122377b 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From c2c6b87fc13f0a8e88aa7c77975307ea55e674f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 20/61] fix: a failed buffered reader creation can report
 success

The cleanup path tested the wrong status, so a clean release replaced the error.
---
 src/psock/psock_br_create_from_psock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..852bcfc 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -129,7 +129,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From f33d16bfbc842880c95b180c1072d387dea97b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 21/61] fix: a scheduler that can't add its main fiber crashes
 while cleaning up

When the main event fails, the scheduler is released before ctx->sched is set.
---
 .../common/fiber_scheduler_create_with_disciplines.c   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 5669bb7..e0882b9 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -984,10 +984,12 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_param;
 
     /* insert the yielding fiber into the beginning of the run queue. */
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL);
+    /* we must do this by hand because ctx->sched may not be set yet. */
+    yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
+    yield_fib->restore_reason_code =
+        FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
+    yield_fib->restore_param = NULL;
+    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
 }
 
 /**
-- 
2.43.0


From ea6cce586069897ed6d81d19a7d3cae5a9cf46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 22/61] fix: a discipline that can't be added stays in the
 scheduler's tree

The caller still owns it on failure and releases it, and the scheduler released it
a second time. Grow the vectors first, and insert the discipline last.
---
 .../common/fiber_scheduler_discipline_add.c   | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..4f80afa 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -87,16 +87,6 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
     }
  
-    /* add this discipline to the discipline tree. */
-    retval =
-        rbtree_insert(
-            ctx->disciplines_by_uuid,
-            fiber_scheduler_discipline_resource_handle(disc));
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
-
     /* create or reallocate the callback vector to hold these callbacks. */
     size_t callback_offset = ctx->callback_vector_size;
     if (NULL == ctx->callback_vector)
@@ -144,6 +134,16 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return retval;
     }
 
+    /* add this discipline to the discipline tree. */
+    retval =
+        rbtree_insert(
+            ctx->disciplines_by_uuid,
+            fiber_scheduler_discipline_resource_handle(disc));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* update the callback vector size. */
     ctx->callback_vector_size += disc->callback_vector_size;
 
-- 
2.43.0


From 32e297f2759361cd4166609f6cc5617ebc60933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 23/61] fix: fragmented data breaks typed reads from a
 descriptor

The read method is told to block until all bytes are read, but a single short read
was returned, which made typed reads fail and lose the bytes. Signals failed reads.
---
 src/psock/psock_from_descriptor_read.c | 57 +++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/psock/psock_from_descriptor_read.c b/src/psock/psock_from_descriptor_read.c
index 5b39baf..e8b2f03 100644
--- a/src/psock/psock_from_descriptor_read.c
+++ b/src/psock/psock_from_descriptor_read.c
@@ -23,7 +23,9 @@ RCPR_IMPORT_psock_internal;
  * \param ctx           User context (ignored).
  * \param data          Pointer to the buffer into which data should be read.
  * \param size          Pointer to the size to read, updated with the size read.
- * \param block         Ignored for raw descriptor reads.
+ * \param block         If set, and the descriptor itself is blocking, then keep
+ *                      reading until the requested size or the end of the
+ *                      stream has been read.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
@@ -33,7 +35,6 @@ status RCPR_SYM(psock_from_descriptor_read)(
     RCPR_SYM(psock)* sock, void* ctx, void* data, size_t* size, bool block)
 {
     (void)ctx;
-    (void)block;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -44,22 +45,56 @@ status RCPR_SYM(psock_from_descriptor_read)(
     /* convert this to a psock_from_descriptor. */
     psock_from_descriptor* s = (psock_from_descriptor*)sock;
 
-    /* attempt to read from the descriptor. */
-    ssize_t retval = read(s->descriptor, data, *size);
-    if (retval < 0)
+    uint8_t* dptr = (uint8_t*)data;
+    size_t remaining = *size;
+    size_t total = 0;
+
+    /* datagrams must not be merged. */
+    if (PSOCK_SOCKET_TYPE_DATAGRAM == sock->socktype)
+    {
+        block = false;
+    }
+
+    do
     {
-        if (EAGAIN == errno || EWOULDBLOCK == errno)
+        /* attempt to read from the descriptor. */
+        ssize_t retval = read(s->descriptor, dptr, remaining);
+        if (retval < 0)
         {
-            return ERROR_PSOCK_READ_WOULD_BLOCK;
+            if (EINTR == errno)
+            {
+                continue;
+            }
+            else if (EAGAIN == errno || EWOULDBLOCK == errno)
+            {
+                /* let the caller have what we read so far. */
+                if (total > 0)
+                {
+                    break;
+                }
+
+                return ERROR_PSOCK_READ_WOULD_BLOCK;
+            }
+            else
+            {
+                return ERROR_PSOCK_READ_GENERAL;
+            }
         }
-        else
+
+        /* update counters. */
+        total += (size_t)retval;
+        dptr += retval;
+        remaining -= (size_t)retval;
+
+        /* stop at the end of the stream, or after one read if not blocking. */
+        if (0 == retval || !block)
         {
-            return ERROR_PSOCK_READ_GENERAL;
+            break;
         }
-    }
+    } while (remaining > 0);
 
     /* save the size read. */
-    *size = (size_t)retval;
+    *size = total;
 
     /* success, but the read might have been truncated; that's up to the
      * caller to sort out.
-- 
2.43.0


From 723b01444477ae47190cf8337489458d0845df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 24/61] fix: a partial or interrupted write to a descriptor
 breaks typed writes

A blocking write that is interrupted by a signal is short or fails; the typed writes
then gave up in the middle of a value.
---
 src/psock/psock_from_descriptor_write.c | 46 ++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/psock/psock_from_descriptor_write.c b/src/psock/psock_from_descriptor_write.c
index 884b3c6..d76e88a 100644
--- a/src/psock/psock_from_descriptor_write.c
+++ b/src/psock/psock_from_descriptor_write.c
@@ -43,22 +43,50 @@ status RCPR_SYM(psock_from_descriptor_write)(
     /* convert this to a psock_from_descriptor. */
     psock_from_descriptor* s = (psock_from_descriptor*)sock;
 
-    /* attempt to write to the descriptor. */
-    ssize_t retval = write(s->descriptor, data, *size);
-    if (retval < 0)
+    const uint8_t* dptr = (const uint8_t*)data;
+    size_t remaining = *size;
+    size_t total = 0;
+
+    do
     {
-        if (EAGAIN == errno || EWOULDBLOCK == errno)
+        /* attempt to write to the descriptor. */
+        ssize_t retval = write(s->descriptor, dptr, remaining);
+        if (retval < 0)
         {
-            return ERROR_PSOCK_WRITE_WOULD_BLOCK;
+            if (EINTR == errno)
+            {
+                continue;
+            }
+            else if (EAGAIN == errno || EWOULDBLOCK == errno)
+            {
+                /* let the caller know about what we wrote so far. */
+                if (total > 0)
+                {
+                    break;
+                }
+
+                return ERROR_PSOCK_WRITE_WOULD_BLOCK;
+            }
+            else
+            {
+                return ERROR_PSOCK_WRITE_GENERAL;
+            }
         }
-        else
+
+        /* update counters. */
+        total += (size_t)retval;
+        dptr += retval;
+        remaining -= (size_t)retval;
+
+        /* stop if nothing can be written. */
+        if (0 == retval)
         {
-            return ERROR_PSOCK_WRITE_GENERAL;
+            break;
         }
-    }
+    } while (remaining > 0);
 
     /* save the size written. */
-    *size = (size_t)retval;
+    *size = total;
 
     /* success, but the write might have been truncated; that's up to the
      * caller to sort out.
-- 
2.43.0


From f36358bf6d427c4632add7b579a209c58d38f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 25/61] fix: a buffered reader over an asynchronous psock never
 blocks

The fill is always non-blocking, so a line read reported a partial line as complete,
and blocking typed reads failed, whenever the data was not there yet.
---
 src/psock/psock_br_fill.c       | 16 +++++++++++++++-
 src/psock/psock_br_psock_read.c |  2 +-
 src/psock/psock_br_read_line.c  |  2 +-
 src/psock/psock_internal.h      |  8 +++++---
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 205e2d2..b29ac85 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -20,13 +20,15 @@ RCPR_IMPORT_resource;
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         Set to true to block until there is at least one byte if
+ *                      the backing \ref psock would block.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br)
+    RCPR_SYM(psock_br)* br, bool block)
 {
     status retval;
     const psock_vtable* wrapped_vtable;
@@ -64,6 +66,18 @@ status RCPR_SYM(psock_br_fill)(
         wrapped_vtable->read_fn(
             br->wrapped, br->wrapped->context, br->buffer + br->current_size,
             &read_bytes, false);
+
+    /* if this would block, and we should block, then wait for one byte. */
+    if (ERROR_PSOCK_READ_WOULD_BLOCK == retval && block)
+    {
+        read_bytes = 1;
+        retval =
+            wrapped_vtable->read_fn(
+                br->wrapped, br->wrapped->context,
+                br->buffer + br->current_size, &read_bytes, true);
+    }
+
+    /* did the read fail? */
     if (STATUS_SUCCESS != retval)
     {
         goto done;
diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..5f549fc 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -52,7 +52,7 @@ status RCPR_SYM(psock_br_psock_read)(
         /* attempt to fill the buffer if we don't have enough bytes. */
         if (available_bytes < requested_bytes)
         {
-            retval = psock_br_fill(br);
+            retval = psock_br_fill(br, block);
             if (STATUS_SUCCESS != retval)
             {
                 /* update size with the number of read bytes. */
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index c098a91..8440368 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -158,7 +158,7 @@ RCPR_SYM(psock_br_read_line)(
             /* attempt to fill the buffer, if the error flag is not set. */
             if (!br->error)
             {
-                retval = psock_br_fill(br);
+                retval = psock_br_fill(br, true);
                 if (STATUS_SUCCESS != retval)
                 {
                     /* if we encounter an error, set the error flag. */
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index bc03c6b..263cad0 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -567,13 +567,15 @@ status RCPR_SYM(psock_br_psock_recvmsg)(
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         Set to true to block until there is at least one byte if
+ *                      the backing \ref psock would block.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br);
+    RCPR_SYM(psock_br)* br, bool block);
 
 /**
  * \brief Release a psock_br resource.
@@ -698,8 +700,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(psock)* v, void* w, struct msghdr* x, size_t* y, int z) { \
             return RCPR_SYM(psock_br_psock_recvmsg)(v,w,x,y,z); } \
     static inline status psock_br_fill( \
-        RCPR_SYM(psock_br)* x) { \
-            return RCPR_SYM(psock_br_fill)(x); }\
+        RCPR_SYM(psock_br)* x, bool y) { \
+            return RCPR_SYM(psock_br_fill)(x,y); }\
     static inline status psock_br_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(psock_br_release)(x); } \
-- 
2.43.0


From 6de9aaf8d08b15a7f53de61bac8f16724865f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 26/61] fix: a buffered reader refuses to hand out bytes it has

A read of more bytes than were buffered filled the buffer first. At the end of the
stream this failed and the buffered bytes could not be read; with a full buffer it
asked for zero bytes and failed; and it could block with bytes at hand.
---
 src/psock/psock_br_psock_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index 5f549fc..cdfdee2 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -49,8 +49,8 @@ status RCPR_SYM(psock_br_psock_read)(
     uint8_t* bdata = (uint8_t*)data;
 
     do {
-        /* attempt to fill the buffer if we don't have enough bytes. */
-        if (available_bytes < requested_bytes)
+        /* attempt to fill the buffer if it is empty. */
+        if (0 == available_bytes && requested_bytes > 0)
         {
             retval = psock_br_fill(br, block);
             if (STATUS_SUCCESS != retval)
-- 
2.43.0


From f50bc1e4eff57ecb72d038c47282c53e289386d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 27/61] fix: an empty boxed string or data value at the end of
 a buffer can't be read

The read of its zero bytes reported the end of the stream.
---
 src/psock/psock_read_boxed_data.c   | 13 ++++++++-----
 src/psock/psock_read_boxed_string.c | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/psock/psock_read_boxed_data.c b/src/psock/psock_read_boxed_data.c
index b1e334e..423a2ae 100644
--- a/src/psock/psock_read_boxed_data.c
+++ b/src/psock/psock_read_boxed_data.c
@@ -114,13 +114,16 @@ RCPR_SYM(psock_read_boxed_data)(
         goto cleanup_buffer;
     }
 
-    /* read data to the buffer. */
+    /* read data to the buffer; there's nothing to read for an empty value. */
     size_t read_size = size;
-    retval =
-        sock_vtable->read_fn(sock, sock->context, buffer, &read_size, true);
-    if (STATUS_SUCCESS != retval)
+    if (read_size > 0)
     {
-        goto cleanup_buffer;
+        retval =
+            sock_vtable->read_fn(sock, sock->context, buffer, &read_size, true);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto cleanup_buffer;
+        }
     }
 
     /* verify read size. */
diff --git a/src/psock/psock_read_boxed_string.c b/src/psock/psock_read_boxed_string.c
index 25b3752..8ae7777 100644
--- a/src/psock/psock_read_boxed_string.c
+++ b/src/psock/psock_read_boxed_string.c
@@ -124,13 +124,16 @@ RCPR_SYM(psock_read_boxed_string)(
         goto cleanup_buffer;
     }
 
-    /* read data to the buffer. */
+    /* read data to the buffer; there's nothing to read for an empty value. */
     size_t read_size = size;
-    retval =
-        sock_vtable->read_fn(sock, sock->context, buffer, &read_size, true);
-    if (STATUS_SUCCESS != retval)
+    if (read_size > 0)
     {
-        goto cleanup_buffer;
+        retval =
+            sock_vtable->read_fn(sock, sock->context, buffer, &read_size, true);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto cleanup_buffer;
+        }
     }
 
     /* verify read size. */
-- 
2.43.0


From b2293e09c167c12ccf340ae0bf86335aadaee336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 28/61] fix: a boxed data value of 4 GiB or more is written
 with a truncated length

---
 src/psock/psock_write_boxed_data.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_write_boxed_data.c b/src/psock/psock_write_boxed_data.c
index 93b414f..6f8304d 100644
--- a/src/psock/psock_write_boxed_data.c
+++ b/src/psock/psock_write_boxed_data.c
@@ -55,6 +55,12 @@ RCPR_SYM(psock_write_boxed_data)(
     RCPR_MODEL_ASSERT(NULL != data);
     RCPR_MODEL_ASSERT(data_size <= UINT32_MAX);
 
+    /* the size must fit in the size field. */
+    if (data_size > UINT32_MAX)
+    {
+        return ERROR_PSOCK_WRITE_INVALID_SIZE;
+    }
+
     /* attempt to write the type to the socket. */
     retval = psock_write_raw_uint32(sock, PSOCK_BOXED_TYPE_DATA);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From c071e66991ffcfed0e19c3e0fb9dd09538b58265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 29/61] fix: an asynchronous raw read drops data read just
 before the end of the stream

---
 src/psock/psock_wrap_async_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psock/psock_wrap_async_read.c b/src/psock/psock_wrap_async_read.c
index 9f3c049..cfc81b1 100644
--- a/src/psock/psock_wrap_async_read.c
+++ b/src/psock/psock_wrap_async_read.c
@@ -95,6 +95,13 @@ status RCPR_SYM(psock_wrap_async_read)(
                 return retval;
             }
         }
+        /* if the stream ended, but we have data for a non-blocking read, then
+         * return this data. The next read will report the end. */
+        else if (
+            (STATUS_SUCCESS != retval || 0 == tmp_size) && !block && *size > 0)
+        {
+            return STATUS_SUCCESS;
+        }
         /* if a different error occurred in the read, return it.*/
         else if (STATUS_SUCCESS != retval)
         {
-- 
2.43.0


From ec6f4e006330ea7985fdaae6ae461025c49a1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 30/61] fix: running out of memory during a buffer psock write
 loses output

A failed write gave up the current buffer before it had a new one, which made the
psock unusable, and bytes it had taken weren't counted, which cut off later output.
---
 src/psock/psock_from_buffer_write.c | 41 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..546f9e3 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -53,6 +53,7 @@ status RCPR_SYM(psock_from_buffer_write)(
     size_t total_size = 0;
     psock_output_buffer_node* ob = NULL;
     void* large_buffer = NULL;
+    void* new_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -91,6 +92,14 @@ status RCPR_SYM(psock_from_buffer_write)(
      * the buffer. */
     if (pb->buffer_write_offset >= pb->output_buffer_size)
     {
+        /* allocate memory for the new buffer. */
+        retval =
+            allocator_allocate(sock->alloc, &new_buffer, PSOCK_BUFFER_SIZE);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto done;
+        }
+
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
@@ -98,7 +107,7 @@ status RCPR_SYM(psock_from_buffer_write)(
                 pb->output_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto cleanup_new_buffer;
         }
 
         /* append this to the tail of the queue. */
@@ -112,23 +121,13 @@ status RCPR_SYM(psock_from_buffer_write)(
             {
                 retval = release_retval;
             }
-            goto done;
+            goto cleanup_new_buffer;
         }
 
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
+        /* continue with the new buffer. */
+        pb->output_curr_buffer = (char*)new_buffer;
         pb->output_buffer_size = PSOCK_BUFFER_SIZE;
         pb->buffer_write_offset = 0;
-
-        /* allocate memory for the new buffer. */
-        retval =
-            allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
     }
 
     /* if the remaining size is greater than the current output buffer size,
@@ -181,11 +180,17 @@ status RCPR_SYM(psock_from_buffer_write)(
 
     /* success. */
     RCPR_MODEL_ASSERT(0 == *size);
-    *size = total_size;
-    pb->output_buffer_total_size += *size;
     retval = STATUS_SUCCESS;
     goto done;
 
+cleanup_new_buffer:
+    release_retval = allocator_reclaim(sock->alloc, new_buffer);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+    goto done;
+
 cleanup_ob:
     release_retval = resource_release(&ob->hdr);
     if (STATUS_SUCCESS != release_retval)
@@ -202,6 +207,10 @@ cleanup_large_buffer:
     goto done;
 
 done:
+    /* account for what was written, even if the write failed half way. */
+    *size = total_size;
+    pb->output_buffer_total_size += total_size;
+
     return retval;
 }
 
-- 
2.43.0


From 78e9e36c67f3db3d8068679bb71128c35f9ac781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 31/61] fix: a failed output buffer copy changes the caller's
 size

Both outputs are documented to be unchanged on failure.
---
 src/psock/psock_from_buffer_get_output_buffer.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/psock/psock_from_buffer_get_output_buffer.c b/src/psock/psock_from_buffer_get_output_buffer.c
index f290e0c..4cc6b26 100644
--- a/src/psock/psock_from_buffer_get_output_buffer.c
+++ b/src/psock/psock_from_buffer_get_output_buffer.c
@@ -89,29 +89,34 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* set the buffer size. */
-    *buffer_size = pb->output_buffer_total_size;
+    /* get the buffer size. */
+    size_t size = pb->output_buffer_total_size;
 
     /* allocate memory for the output buffer. */
-    retval = allocator_allocate(a, buffer, *buffer_size);
+    void* tmp = NULL;
+    retval = allocator_allocate(a, &tmp, size);
     if (STATUS_SUCCESS != retval)
     {
         goto done;
     }
 
     /* copy the output buffer data to this buffer. */
-    retval = copy_output_buffer(pb, (uint8_t*)*buffer, *buffer_size);
+    retval = copy_output_buffer(pb, (uint8_t*)tmp, size);
     if (STATUS_SUCCESS != retval)
     {
         goto reclaim_buffer;
     }
 
+    /* set the outputs. */
+    *buffer = tmp;
+    *buffer_size = size;
+
     /* success. */
     retval = STATUS_SUCCESS;
     goto done;
 
 reclaim_buffer:
-    release_retval = allocator_reclaim(a, *buffer);
+    release_retval = allocator_reclaim(a, tmp);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
-- 
2.43.0


From 0550d84eccd891dc7cfb9204084d91c55b889366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 32/61] fix: a user psock's setsockopt method is never called

---
 src/psock/psock_create_from_user_methods.c | 38 +++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 8fb38ca..e69dfdf 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -34,6 +34,9 @@ static status psock_from_user_methods_sendmsg(
     psock* sock, void* ctx, const struct msghdr* msg, int flags);
 static status psock_from_user_methods_recvmsg(
     psock* sock, void* ctx, struct msghdr* msg, size_t* len, int flags);
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len);
 
 /* the vtable entry for the psock from user methods instance. */
 RCPR_VTABLE
@@ -44,7 +47,7 @@ psock_vtable psock_from_user_methods_vtable = {
     .accept_fn = &psock_from_user_methods_accept,
     .sendmsg_fn = &psock_from_user_methods_sendmsg,
     .recvmsg_fn = &psock_from_user_methods_recvmsg,
-    .setsockopt_fn = NULL,
+    .setsockopt_fn = &psock_from_user_methods_setsockopt,
     .release_fn = NULL,
 };
 
@@ -320,3 +323,36 @@ static status psock_from_user_methods_recvmsg(
 
     return ps->user_vtable->recvmsg_fn(sock, ps->hdr.context, msg, len, flags);
 }
+
+/**
+ * \brief Set socket options in a user psock.
+ *
+ * \param sock          The socket instance for this operation.
+ * \param ctx           The user context for this instance.
+ * \param level         the protocol level at which the option resides.
+ * \param option_name   The option to set.
+ * \param option_value  The value to which this option is set.
+ * \param option_len    The length of this option in bytes.
+ *
+ * \returns a status code indicating success or failure.
+ *      - STATUS_SUCCESS on success.
+ *      - a non-zero error code on failure.
+ */
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len)
+{
+    (void)ctx;
+    psock_from_user_methods* ps = (psock_from_user_methods*)sock;
+
+    /* does this user method exist? */
+    if (NULL == ps->user_vtable->setsockopt_fn)
+    {
+        return ERROR_PSOCK_METHOD_UNDEFINED;
+    }
+
+    return
+        ps->user_vtable->setsockopt_fn(
+            sock, ps->hdr.context, level, option_name, option_value,
+            option_len);
+}
-- 
2.43.0


From bf271405f9aa3126fb2989cb245c67e856c387cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 33/61] fix: receiving a descriptor leaks further descriptors
 in the same message

---
 src/psock/psock_read_raw_descriptor.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_read_raw_descriptor.c b/src/psock/psock_read_raw_descriptor.c
index 1862224..0e3c61d 100644
--- a/src/psock/psock_read_raw_descriptor.c
+++ b/src/psock/psock_read_raw_descriptor.c
@@ -84,7 +84,8 @@ RCPR_SYM(psock_read_raw_descriptor)(
     memset(&m, 0, sizeof(m));
     m.msg_iov = &iov;
     m.msg_iovlen = 1;
-    m.msg_controllen = CMSG_SPACE(sizeof(int));
+    /* there is room for one descriptor only, or we would leak the others. */
+    m.msg_controllen = CMSG_LEN(sizeof(int));
     m.msg_control = buf;
 
     /* set sentry for the receive socket. */
-- 
2.43.0


From f9feebae86842d823eae2234149455a331abece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 34/61] fix: a discipline accepts a yield event one past its
 last

---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From a9363315d3529f01fae36b8d36ecaf377cca6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 35/61] fix: a fiber resumed otherwise is still treated as
 waiting for management events

---
 .../common/fiber_scheduler_create_with_disciplines.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index e0882b9..8b40d3c 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -697,6 +697,12 @@ static status fiber_scheduler_disciplined_callback(
         fiber* next_fiber = (fiber*)next_fiber_resource;
         RCPR_MODEL_ASSERT(prop_fiber_valid(next_fiber));
 
+        /* a fiber being resumed no longer waits for management events. */
+        if (next_fiber == ctx->management_fiber)
+        {
+            ctx->management_fiber = NULL;
+        }
+
         /* set that fiber as the resume fiber. */
         *resume_fib = next_fiber;
         *resume_id = next_fiber->restore_discipline_id;
@@ -718,6 +724,12 @@ static status fiber_scheduler_disciplined_callback(
     /* otherwise, the scheduler is exhausted... */
     else
     {
+        /* a fiber that can't be suspended doesn't wait either. */
+        if (yield_fib == ctx->management_fiber)
+        {
+            ctx->management_fiber = NULL;
+        }
+
         return ERROR_FIBER_SCHEDULER_EXHAUSTED;
     }
 }
-- 
2.43.0


From 0054878262ef1fbacc3fbd77b2a12cbe6d910fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 36/61] fix: a scheduler left with no fiber crashes instead of
 exiting with a failure status

---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..25a1961 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    movq $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0


From 63bc5f9304e5a76407ccbfacdb8e547bb1f5b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 37/61] fix: a fiber interrupted while receiving is still
 handed the next message

---
 src/message/message_receive.c | 53 +++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index efd7b83..ee23ba1 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -14,8 +14,16 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
+RCPR_IMPORT_message_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void message_receive_unblock(
+    RCPR_SYM(mailbox_address) recvaddr,
+    RCPR_SYM(fiber_scheduler_discipline)* msgdisc);
+
 /**
  * \brief Receive a \ref message from the mailbox.
  *
@@ -80,8 +88,53 @@ RCPR_SYM(message_receive)(
     }
     else
     {
+        /* we no longer wait for a message. */
+        message_receive_unblock(recvaddr, msgdisc);
+
         /* TODO - add support for out-of-band events. */
 
         return ERROR_MESSAGE_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief After an interrupted receive, make sure that the messaging discipline
+ * does not hand the next message to a fiber that is no longer waiting for it.
+ *
+ * \param recvaddr      The \ref mailbox_address of the interrupted receive.
+ * \param msgdisc       The messaging discipline.
+ */
+static void message_receive_unblock(
+    RCPR_SYM(mailbox_address) recvaddr,
+    RCPR_SYM(fiber_scheduler_discipline)* msgdisc)
+{
+    status retval;
+    mailbox* mbox;
+    fiber* current_fib;
+
+    /* get the message discipline context. */
+    message_discipline_context* ctx =
+        (message_discipline_context*)
+        fiber_scheduler_discipline_context_get(msgdisc);
+
+    /* get the current fiber. */
+    retval =
+        disciplined_fiber_scheduler_current_fiber_get(&current_fib, ctx->sched);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* look up the mailbox, which may have been closed. */
+    retval = rbtree_find((resource**)&mbox, ctx->mailboxes, &recvaddr);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* clear the blocked fiber if it is this fiber. */
+    if (current_fib == mbox->blocked_fiber)
+    {
+        mbox->blocked_fiber = NULL;
+    }
+}
-- 
2.43.0


From a0464d45bb5d8884b6bb86b3947abb03b532fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 38/61] fix: an event of another discipline is taken for a
 received message

---
 src/message/message_receive.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index ee23ba1..ef93746 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -69,16 +69,23 @@ RCPR_SYM(message_receive)(
         return retval;
     }
 
+    /* an event of another discipline is neither a message nor its error. */
+    bool our_event =
+        !memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(rcpr_uuid));
+
     /* if the resume event is MESSAGE_RECEIVE_FAILURE, return the error. */
     if (
-        FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE
+        our_event
+     && FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE
             == resume_event)
     {
         retval = (status)(ptrdiff_t)resume_param;
         return retval;
     }
     else if (
-        FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS
+        our_event
+     && FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS
             == resume_event)
     {
         /* on success, resume_param is our received message. */
-- 
2.43.0


From 677dcdde508a1b64433ed4d9637ccfe39b389093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 39/61] fix: a fiber interrupted while waiting on a condition
 is still notified

---
 src/condition/conditional_wait.c | 83 ++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index 5bbbff3..87090da 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -14,8 +14,17 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
+RCPR_IMPORT_condition_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void conditional_wait_unblock(
+    RCPR_SYM(conditional) handle,
+    RCPR_SYM(fiber_scheduler_discipline)* condisc);
+
 /**
  * \brief Wait on a \ref conditional.
  *
@@ -66,8 +75,82 @@ RCPR_SYM(conditional_wait)(
     }
     else
     {
+        /* we no longer wait for a notification. */
+        conditional_wait_unblock(handle, condisc);
+
         /* TODO - add support for out-of-band events. */
 
         return ERROR_CONDITION_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief After an interrupted wait, make sure that the condition discipline
+ * does not notify a fiber that is no longer waiting.
+ *
+ * \param handle        The \ref conditional handle of the interrupted wait.
+ * \param condisc       Pointer to the condition discipline.
+ */
+static void conditional_wait_unblock(
+    RCPR_SYM(conditional) handle,
+    RCPR_SYM(fiber_scheduler_discipline)* condisc)
+{
+    status retval;
+    condition_barrier* cond;
+    fiber* current_fib;
+    slist_node* prev = NULL;
+    slist_node* node = NULL;
+
+    /* get the condition discipline context. */
+    condition_discipline_context* ctx =
+        (condition_discipline_context*)
+        fiber_scheduler_discipline_context_get(condisc);
+
+    /* get the current fiber. */
+    retval =
+        disciplined_fiber_scheduler_current_fiber_get(&current_fib, ctx->sched);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* look up the condition barrier, which may have been closed. */
+    retval = rbtree_find((resource**)&cond, ctx->condition_barriers, &handle);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* find this fiber in the wait list. */
+    retval = slist_head(&node, cond->wait_list);
+    while (STATUS_SUCCESS == retval && NULL != node)
+    {
+        resource* child = NULL;
+        retval = slist_node_child(&child, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            return;
+        }
+
+        /* remove it.  We don't own this fiber, so don't release it. */
+        if (fiber_resource_handle(current_fib) == child)
+        {
+            child = NULL;
+            if (NULL == prev)
+            {
+                retval = slist_pop(cond->wait_list, &child);
+            }
+            else
+            {
+                retval = slist_node_next_pop(prev, &child);
+            }
+
+            return;
+        }
+
+        /* try the next node. */
+        prev = node;
+        node = NULL;
+        retval = slist_node_next(&node, prev);
+    }
+}
-- 
2.43.0


From 66d86fd046c911b79bb2f31ffd4ef0ea4bb7d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 40/61] fix: an event of another discipline is taken for a
 notification

---
 src/condition/conditional_wait.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index 87090da..95436ff 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -61,14 +61,23 @@ RCPR_SYM(conditional_wait)(
         return retval;
     }
 
+    /* an event of another discipline is neither a notification nor an error. */
+    bool our_event =
+        !memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            sizeof(rcpr_uuid));
+
     /* if the resume event is WAIT_FAILURE, return the error. */
-    if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE == resume_event)
+    if (
+        our_event
+     && FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE == resume_event)
     {
         retval = (status)(ptrdiff_t)resume_param;
         return retval;
     }
     else if (
-        FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS
+        our_event
+     && FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS
             == resume_event)
     {
         return STATUS_SUCCESS;
-- 
2.43.0


From 90985ad099e53055f97a5f3039bf05ef3a3d2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 41/61] fix: a fiber resumed on an async psock must not erase
 another fiber's wait

---
 src/psock/psock_read_block.c  | 7 +++++--
 src/psock/psock_write_block.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..7101377 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -102,8 +102,11 @@ RCPR_SYM(psock_read_block)(
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->read_block_fib = NULL;
+         * blocked. By now, a different fiber might be. */
+        if (current_fib == s->read_block_fib)
+        {
+            s->read_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..2e67904 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -99,8 +99,11 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->write_block_fib = NULL;
+         * blocked. By now, a different fiber might be. */
+        if (current_fib == s->write_block_fib)
+        {
+            s->write_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
-- 
2.43.0


From f5588ebc63385f345568499226b9b9651bdf1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 42/61] fix: resume fibers blocked on an async psock when epoll
 only reports an error or a hang-up

---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..4d9ad0f 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -70,6 +70,13 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             memset(&event, 0, sizeof(event));
             event.events = EPOLLONESHOT;
 
+            /* an error or a hang-up ends both kinds of waits; the read or write
+             * will report it. */
+            if (filter & (EPOLLERR | EPOLLHUP))
+            {
+                filter |= EPOLLIN | EPOLLOUT;
+            }
+
             /* check for a read resume event. */
             if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
             {
-- 
2.43.0


From 08cdf1e3dbad8c895d8d3483d680e4c7b00c22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 43/61] fix: the poll idle fiber must not end when a signal
 interrupts poll

---
 src/psock/platform/poll/psock_idle_fiber_entry.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 02bc94d..3d5fe1b 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <errno.h>
 #include <rcpr/fiber/disciplines/psock_io.h>
 #include <rcpr/model_assert.h>
 #include <string.h>
@@ -40,7 +41,12 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
     {
         /* wait on a poll event. */
         int nev = poll(ctx->poll_events, ctx->poll_curr, -1);
-        if (nev < 0)
+        if (nev < 0 && errno == EINTR)
+        {
+            /* if we are interrupted (e.g. from debugging) try again. */
+            continue;
+        }
+        else if (nev < 0)
         {
             retval = ERROR_PSOCK_POLL_FAILED;
             goto done;
-- 
2.43.0


From 79eb67e65ad1f9ebbb5e5566b95a59c6941ccab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 44/61] fix: resume fibers blocked on an async psock when poll
 only reports an error

---
 src/psock/platform/poll/psock_idle_fiber_entry.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 3d5fe1b..b5a17bf 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -73,8 +73,9 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                 resume_event =
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE;
             }
-            else if (revents & POLLHUP)
+            else if (revents & (POLLHUP | POLLERR | POLLNVAL))
             {
+                /* the read or write will report what happened. */
                 if (events & POLLIN)
                 {
                     resume_event =
-- 
2.43.0


From 949a0aa7ced1aef9b924242026faf21a10df333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 45/61] fix: with poll, a fiber that another event resumed can
 be resumed again by its abandoned wait

---
 .../platform/epoll/psock_idle_fiber_entry.c   | 19 ++++++++++
 .../platform/kqueue/psock_idle_fiber_entry.c  | 30 ++++++++++++++++
 .../platform/poll/psock_idle_fiber_entry.c    | 35 +++++++++++++++++++
 src/psock/psock_internal.h                    | 16 +++++++++
 src/psock/psock_read_block.c                  |  5 +++
 src/psock/psock_write_block.c                 |  5 +++
 6 files changed, 110 insertions(+)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 4d9ad0f..9018b36 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -203,3 +203,22 @@ done:
 
     return retval;
 }
+
+/**
+ * \brief Forget about a fiber that waits for I/O, because an event of a
+ * different discipline has resumed it.
+ *
+ * After this call, readiness of the descriptor this fiber waited on does not
+ * resume it, unless it waits again.
+ *
+ * \param context       The user context of the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib)
+{
+    /* the idle fiber only resumes the fibers that are still blocked according to
+     * the psock, so there is nothing to do. */
+    (void)context;
+    (void)fib;
+}
diff --git a/src/psock/platform/kqueue/psock_idle_fiber_entry.c b/src/psock/platform/kqueue/psock_idle_fiber_entry.c
index baeb7e9..dec2706 100644
--- a/src/psock/platform/kqueue/psock_idle_fiber_entry.c
+++ b/src/psock/platform/kqueue/psock_idle_fiber_entry.c
@@ -117,3 +117,33 @@ done:
 
     return retval;
 }
+
+/**
+ * \brief Forget about a fiber that waits for I/O, because an event of a
+ * different discipline has resumed it.
+ *
+ * \param context       The user context of the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib)
+{
+    psock_io_kqueue_context* ctx = (psock_io_kqueue_context*)context;
+    int new_inputs = 0;
+
+    /* parameter sanity checks. */
+    RCPR_MODEL_ASSERT(prop_kqueue_io_struct_valid(ctx));
+    RCPR_MODEL_ASSERT(prop_fiber_valid(fib));
+
+    /* keep the pending inputs of all other fibers. */
+    /* TODO - delete the filters that are already part of the kqueue. */
+    for (int i = 0; i < ctx->inputs; ++i)
+    {
+        if ((void*)ctx->kevent_inputs[i].udata != (void*)fib)
+        {
+            ctx->kevent_inputs[new_inputs++] = ctx->kevent_inputs[i];
+        }
+    }
+
+    ctx->inputs = new_inputs;
+}
diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index b5a17bf..7dd60f0 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -151,3 +151,38 @@ done:
 
     return retval;
 }
+
+/**
+ * \brief Forget about a fiber that waits for I/O, because an event of a
+ * different discipline has resumed it.
+ *
+ * After this call, readiness of the descriptor this fiber waited on does not
+ * resume it, unless it waits again.
+ *
+ * \param context       The user context of the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib)
+{
+    psock_io_poll_context* ctx = (psock_io_poll_context*)context;
+    size_t new_curr = 0;
+
+    /* parameter sanity checks. */
+    RCPR_MODEL_ASSERT(prop_poll_io_struct_valid(ctx));
+    RCPR_MODEL_ASSERT(prop_fiber_valid(fib));
+
+    /* keep the entries of all other fibers. */
+    for (size_t i = 0; i < ctx->poll_curr; ++i)
+    {
+        if (ctx->poll_fibers[i] != fib)
+        {
+            ctx->poll_fibers[new_curr] = ctx->poll_fibers[i];
+            ctx->poll_events[new_curr] = ctx->poll_events[i];
+            ++new_curr;
+        }
+    }
+
+    /* update the number of currently active events. */
+    ctx->poll_curr = new_curr;
+}
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index 263cad0..85e7a4a 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -388,6 +388,19 @@ status RCPR_SYM(psock_fiber_scheduler_disciplined_write_wait_callback_handler)(
  */
 status RCPR_SYM(psock_idle_fiber_entry)(void* context);
 
+/**
+ * \brief Forget about a fiber that waits for I/O, because an event of a
+ * different discipline has resumed it.
+ *
+ * After this call, readiness of the descriptor this fiber waited on does not
+ * resume it, unless it waits again.
+ *
+ * \param context       The user context of the psock I/O discipline.
+ * \param fib           The fiber that no longer waits.
+ */
+void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
+    void* context, RCPR_SYM(fiber)* fib);
+
 /**
  * \brief Create a platform-specific fiber scheduler discipline context for
  * psock I/O.
@@ -649,6 +662,9 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
     static inline status psock_idle_fiber_entry( \
         void* x) { \
             return RCPR_SYM(psock_idle_fiber_entry)(x); } \
+    static inline void psock_fiber_scheduler_discipline_wait_cancel( \
+        void* x, RCPR_SYM(fiber)* y) { \
+            RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(x,y); } \
     static inline status psock_fiber_scheduler_discipline_context_create( \
         RCPR_SYM(resource)** x, RCPR_SYM(fiber_scheduler)* y, \
         RCPR_SYM(allocator)* z) { \
diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 7101377..2977b52 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -121,6 +121,11 @@ RCPR_SYM(psock_read_block)(
                 resume_id, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                 sizeof(rcpr_uuid)))
         {
+            /* the readiness of this descriptor must not resume us later. */
+            psock_fiber_scheduler_discipline_wait_cancel(
+                fiber_scheduler_discipline_context_get(s->psock_discipline),
+                current_fib);
+
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 2e67904..6576622 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -118,6 +118,11 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 resume_id, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                 sizeof(rcpr_uuid)))
         {
+            /* the readiness of this descriptor must not resume us later. */
+            psock_fiber_scheduler_discipline_wait_cancel(
+                fiber_scheduler_discipline_context_get(s->psock_discipline),
+                current_fib);
+
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-- 
2.43.0


From dc718a1bab743766731b432d247fd022c0ef2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 46/61] fix: without memory for its idle fiber, the psock I/O
 discipline must not be registered

---
 src/psock/psock_create_wrap_async.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..424926b 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -295,22 +295,21 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. This has to happen before the scheduler knows the
+     * discipline, since it can't run without this idle fiber. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        goto cleanup_idle_fiber;
     }
 
     /* set the idle fiber. */
@@ -320,7 +319,13 @@ static status psock_create_wrap_async_add_psock_discipline(
         /* note: if we've added the fiber, we can no longer clean it up. But,
          * the add won't fail. */
         /* TODO - make set idle fiber return void. */
-        goto cleanup_idle_fiber;
+        /* the discipline is now owned by the scheduler. */
+        release_retval = resource_release(fiber_resource_handle(idle_fiber));
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+        goto done;
     }
 
     /* success. */
@@ -334,9 +339,6 @@ cleanup_idle_fiber:
         retval = release_retval;
     }
 
-    /* skip the discipline cleanup; it is now handled by the scheduler. */
-    goto done;
-
 cleanup_discipline:
     release_retval =
         resource_release(fiber_scheduler_discipline_resource_handle(*disc));
-- 
2.43.0


From 5a5c8ed589dd29b4944fa0da652dd2b4886e5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 47/61] fix: listen on the address family of the given address,
 not only IPv4

---
 src/psock/psock_create_from_listen_address.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_create_from_listen_address.c b/src/psock/psock_create_from_listen_address.c
index 7d7c4f8..63dbc40 100644
--- a/src/psock/psock_create_from_listen_address.c
+++ b/src/psock/psock_create_from_listen_address.c
@@ -74,7 +74,7 @@ RCPR_SYM(psock_create_from_listen_address)(
     RCPR_MODEL_ASSERT(prop_valid_range(name, namelen));
 
     /* Create a socket for this address. */
-    int desc = socket(AF_INET, SOCK_STREAM, 0);
+    int desc = socket(name->sa_family, SOCK_STREAM, 0);
     if (desc < 0)
     {
         retval = ERROR_PSOCK_CREATE_FROM_ADDRESS_SOCKET_CREATE;
-- 
2.43.0


From 3eb5a1d9370faa7fa4a13a45d90690cbd077b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 48/61] fix: do not connect to another port when the given port
 exceeds 16 bits

---
 src/psock/psock_create_from_hostname_and_port.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psock/psock_create_from_hostname_and_port.c b/src/psock/psock_create_from_hostname_and_port.c
index 37ad468..ddd212a 100644
--- a/src/psock/psock_create_from_hostname_and_port.c
+++ b/src/psock/psock_create_from_hostname_and_port.c
@@ -76,6 +76,13 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != hostname);
 
+    /* a port that does not fit in 16 bits can't be connected. */
+    if (port > 65535)
+    {
+        retval = ERROR_PSOCK_CONNECTION_REFUSED;
+        goto done;
+    }
+
     /* attempt to resolve this as an IPv4 address. */
     resolved = gethostbyname2(hostname, AF_INET);
     if (NULL != resolved)
-- 
2.43.0


From d5cae7f4c7e34e57cfe4175da686cf21d54f0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 49/61] fix: adding a fiber without memory must leave the
 caller its only owner

---
 .../fiber_scheduler_create_with_disciplines.c | 72 ++++++++++++-------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 8b40d3c..6feb3e7 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -834,7 +834,8 @@ static status fiber_scheduler_disciplined_main_callback_handler(
 static status fiber_scheduler_disciplined_add_fiber_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, release_retval;
+    resource* dummy = NULL;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* new_fib = (fiber*)yield_param;
@@ -856,25 +857,6 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
         return retval;
     }
 
-    /* append this fiber to the run queue. */
-    retval =
-        disciplined_fiber_scheduler_add_fiber_to_run_queue(
-            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
-    if (STATUS_SUCCESS != retval)
-    {
-        /* remove the fiber from the tree before returning an error status. */
-        resource* dummy = NULL;
-        status delete_retval = rbtree_delete(
-            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
-
-        /* return the last error code to occur. */
-        if (STATUS_SUCCESS != delete_retval)
-            return delete_retval;
-        else
-            return retval;
-    }
-
     /* insert the yielding fiber into the beginning of the run queue. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -882,9 +864,7 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
             FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
     if (STATUS_SUCCESS != retval)
     {
-        /* bubble up the error. */
-        /* TODO - deal with ownership issues for added fiber. */
-        return retval;
+        goto remove_fiber;
     }
 
     /* if the management fiber exists, */
@@ -899,15 +879,55 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
                 new_fib);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            goto dequeue_yield_fiber;
         }
+    }
 
-        /* clear the management fiber until it yields again. */
-        ctx->management_fiber = NULL;
+    /* append this fiber to the run queue. This has to be the last step, since
+     * only the start of the run queue can be restored on failure. */
+    retval =
+        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
+            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto dequeue_management_fiber;
     }
 
+    /* clear the management fiber until it yields again. */
+    ctx->management_fiber = NULL;
+
     /* success. */
     return STATUS_SUCCESS;
+
+dequeue_management_fiber:
+    if (NULL != ctx->management_fiber)
+    {
+        release_retval = queue_pop(ctx->run_queue, &dummy);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+    }
+
+dequeue_yield_fiber:
+    release_retval = queue_pop(ctx->run_queue, &dummy);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
+remove_fiber:
+    /* the caller still owns this fiber. */
+    release_retval =
+        rbtree_delete(
+            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
+    return retval;
 }
 
 /**
-- 
2.43.0


From 88b746b99167c8e70687ce589031ffce486dd148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 50/61] fix: stopping a fiber or releasing a scheduler must not
 depend on memory

---
 src/fiber/common/fiber_internal.h             |  1 +
 .../fiber_scheduler_create_with_disciplines.c | 45 ++++++++++++-------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/fiber/common/fiber_internal.h b/src/fiber/common/fiber_internal.h
index 472a304..dcf5b84 100644
--- a/src/fiber/common/fiber_internal.h
+++ b/src/fiber/common/fiber_internal.h
@@ -73,6 +73,7 @@ struct RCPR_SYM(fiber_scheduler_disciplined_context)
     RCPR_SYM(fiber)* main_fiber;
     RCPR_SYM(fiber)* idle_fiber;
     RCPR_SYM(fiber)* management_fiber;
+    RCPR_SYM(fiber)* next_fiber;
     RCPR_SYM(rbtree)* fibers_by_pointer;
     RCPR_SYM(rbtree)* disciplines_by_uuid;
     RCPR_SYM(queue)* run_queue;
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 6feb3e7..71fcfe7 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -682,8 +682,22 @@ static status fiber_scheduler_disciplined_callback(
         return retval;
     }
 
+    /* a fiber that must be resumed even without memory comes first. */
+    if (NULL != ctx->next_fiber)
+    {
+        fiber* next_fiber = ctx->next_fiber;
+        ctx->next_fiber = NULL;
+
+        /* set that fiber as the resume fiber. */
+        *resume_fib = next_fiber;
+        *resume_id = next_fiber->restore_discipline_id;
+        *resume_event = next_fiber->restore_reason_code;
+        *resume_param = next_fiber->restore_param;
+
+        return STATUS_SUCCESS;
+    }
     /* otherwise, try to get an event from the run queue. */
-    if (queue_count(ctx->run_queue) != 0)
+    else if (queue_count(ctx->run_queue) != 0)
     {
         /* get the next fiber from the run queue. */
         resource* next_fiber_resource = NULL;
@@ -947,7 +961,6 @@ remove_fiber:
 static status fiber_scheduler_disciplined_stop_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
 
@@ -963,16 +976,14 @@ static status fiber_scheduler_disciplined_stop_callback_handler(
     /* if the management fiber is set, let it deal with the stop event. */
     if (NULL != ctx->management_fiber)
     {
-        retval =
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, ctx->management_fiber,
-                &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE,
-                FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP,
-                yield_fib);
-        if (STATUS_SUCCESS != retval)
-        {
-            return retval;
-        }
+        /* a stopped fiber can't deal with an error, so this must not need any
+         * memory. */
+        ctx->next_fiber = ctx->management_fiber;
+        ctx->next_fiber->restore_discipline_id =
+            &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE;
+        ctx->next_fiber->restore_reason_code =
+            FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP;
+        ctx->next_fiber->restore_param = yield_fib;
 
         /* clear the management fiber until it yields again. */
         ctx->management_fiber = NULL;
@@ -1015,13 +1026,17 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_event;
     (void)yield_param;
 
-    /* insert the yielding fiber into the beginning of the run queue. */
-    /* we must do this by hand because ctx->sched may not be set yet. */
+    /* set the yielding fiber as the next fiber to run. */
+    /* we must do this by hand because ctx->sched may not be set yet, and because
+     * a release must not need any memory. */
     yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
     yield_fib->restore_reason_code =
         FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
     yield_fib->restore_param = NULL;
-    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
+    ctx->next_fiber = yield_fib;
+
+    /* success. */
+    return STATUS_SUCCESS;
 }
 
 /**
-- 
2.43.0


From a39bd825f9b4be1cbe55e1037d688d97d90840ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 51/61] fix: a close that fails for want of memory must not
 have closed anything

---
 ...dition_discipline_close_callback_handler.c | 35 +++++++++----------
 ...iscipline_mailbox_close_callback_handler.c | 33 ++++++++---------
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_close_callback_handler.c b/src/condition/fiber/condition_discipline_close_callback_handler.c
index 1c4fdd4..8eee847 100644
--- a/src/condition/fiber/condition_discipline_close_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_close_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../../fiber/common/fiber_internal.h"
 #include "../condition_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -34,8 +35,6 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     void* yield_param)
 {
     status retval;
-    int resume_event;
-    void* resume_param;
 
     /* ignore yield event. */
     (void)yield_event;
@@ -48,27 +47,27 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_condition_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(cond > 0);
 
+    /* schedule the yielding fiber first; if there is no memory for this, nothing
+     * has been closed. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS,
+            (void*)((ptrdiff_t)STATUS_SUCCESS));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* Attempt to delete the condition barrier. */
     retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
     if (STATUS_SUCCESS != retval)
     {
-        goto resume_fail;
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
-    /* set the resume parameters on success. */
-    resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS;
-    resume_param = (void*)((ptrdiff_t)STATUS_SUCCESS);
-
     /* success. */
-    goto done;
-
-resume_fail:
-    resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE;
-    resume_param = (void*)((ptrdiff_t)retval);
-
-done:
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
-            resume_event, resume_param);
+    return STATUS_SUCCESS;
 }
diff --git a/src/message/message_discipline_mailbox_close_callback_handler.c b/src/message/message_discipline_mailbox_close_callback_handler.c
index 06a93df..c835c6a 100644
--- a/src/message/message_discipline_mailbox_close_callback_handler.c
+++ b/src/message/message_discipline_mailbox_close_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -34,8 +35,6 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     void* yield_param)
 {
     status retval;
-    int resume_event;
-    void* resume_param;
 
     /* ignore yield event. */
     (void)yield_event;
@@ -48,27 +47,25 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_message_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(addr > 0);
 
+    /* schedule the yielding fiber first; if there is no memory for this, nothing
+     * has been closed. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE,
+            (void*)((ptrdiff_t)STATUS_SUCCESS));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* Attempt to delete the mailbox. */
     retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
     if (STATUS_SUCCESS != retval)
     {
-        goto resume_fail;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
-    /* set the resume parameters on success. */
-    resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE;
-    resume_param = (void*)((ptrdiff_t)STATUS_SUCCESS);
-
     /* success. */
-    goto done;
-
-resume_fail:
-    resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE;
-    resume_param = (void*)((ptrdiff_t)retval);
-
-done:
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-            resume_event, resume_param);
+    return STATUS_SUCCESS;
 }
-- 
2.43.0


From 58680feff061c15a92dc981077dad9b26b5a317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 52/61] fix: without memory, creating a mailbox or condition
 must not leave one behind

---
 ...ition_discipline_create_callback_handler.c | 23 +++++++++++++++++--
 ...scipline_mailbox_create_callback_handler.c | 23 +++++++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index 27b04e8..39903e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -74,8 +74,28 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
     resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_SUCCESS;
     resume_param = (void*)((ptrdiff_t)cond);
 
+    /* resume the yielding fiber. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            resume_event, resume_param);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto remove_condition_barrier;
+    }
+
     /* success. */
-    goto done;
+    return STATUS_SUCCESS;
+
+remove_condition_barrier:
+    /* the yielding fiber will never know about this one. */
+    release_retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
+    return retval;
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
@@ -88,7 +108,6 @@ resume_fail:
     resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 122377b..520f8e7 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -74,8 +74,28 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_SUCCESS;
     resume_param = (void*)((ptrdiff_t)addr);
 
+    /* resume the yielding fiber. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+            resume_event, resume_param);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto remove_mailbox;
+    }
+
     /* success. */
-    goto done;
+    return STATUS_SUCCESS;
+
+remove_mailbox:
+    /* the yielding fiber will never know about this one. */
+    release_retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
+    return retval;
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
@@ -88,7 +108,6 @@ resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From ef4a20969a69a52f1bff63f7470a04017121788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 53/61] fix: a receive that fails for want of memory must not
 lose the message

---
 ...cipline_message_receive_callback_handler.c | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/message/message_discipline_message_receive_callback_handler.c b/src/message/message_discipline_message_receive_callback_handler.c
index 8333644..a7c3fee 100644
--- a/src/message/message_discipline_message_receive_callback_handler.c
+++ b/src/message/message_discipline_message_receive_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -78,33 +79,41 @@ status RCPR_SYM(message_discipline_message_receive_callback_handler)(
     /* otherwise, give the next queue message to the fiber. */
     else
     {
+        /* schedule the fiber first; if there is no memory for this, the message
+         * stays on the queue. */
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                NULL);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
         /* pop the first message off of the queue. */
         resource* msgresource;
         retval = queue_pop(mbox->message_queue, &msgresource);
         if (STATUS_SUCCESS != retval)
         {
             /* couldn't pop a message off of the queue. */
-            resume_event =
+            yield_fib->restore_reason_code =
                 FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
         else
         {
             /* encode the popped message in the resume arguments. */
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            yield_fib->restore_param = msgresource;
         }
 
-        /* resume the thread. */
-        goto done;
+        return STATUS_SUCCESS;
     }
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From 1773df3350deebb7cac12dfabf63dac84e8faee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 54/61] fix: a send that fails for want of memory must leave
 the message with its sender only

---
 ...discipline_message_send_callback_handler.c | 59 ++++++++-----------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/src/message/message_discipline_message_send_callback_handler.c b/src/message/message_discipline_message_send_callback_handler.c
index 50680f4..f35efe9 100644
--- a/src/message/message_discipline_message_send_callback_handler.c
+++ b/src/message/message_discipline_message_send_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -68,14 +69,8 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     /* mailbox sanity check. */
     RCPR_MODEL_ASSERT(prop_mailbox_valid(mbox));
 
-    /* append the message to the end of the mail queue. */
-    retval = queue_append(mbox->message_queue, &msg->hdr);
-    if (STATUS_SUCCESS != retval)
-    {
-        goto resume_fail;
-    }
-
-    /* message sent, so tell the original fiber to restart. */
+    /* tell the original fiber to restart. This comes first, so that the message
+     * is not yet sent if there is no memory for this. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
@@ -86,41 +81,37 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
         return retval;
     }
 
-    /* if there is a blocked fiber on this mailbox, set it as the next fiber to
-     * run. */
+    /* if there is a blocked fiber on this mailbox, the message queue is empty:
+     * hand the message to this fiber and set it as the next fiber to run. */
     if (NULL != mbox->blocked_fiber)
     {
-        fiber* receive_fiber = mbox->blocked_fiber;
-        mbox->blocked_fiber = NULL;
-
-        /* pop the next message off of the queue. */
-        resource* msgresource;
-        retval = queue_pop(mbox->message_queue, &msgresource);
-        if (STATUS_SUCCESS != retval)
-        {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
-        }
-        else
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                &msg->hdr);
+        if (STATUS_SUCCESS == retval)
         {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            mbox->blocked_fiber = NULL;
         }
-
-        return
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, receive_fiber,
-                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, resume_event,
-                resume_param);
     }
-    /* otherwise, leave the message on the queue. */
+    /* otherwise, append the message to the end of the mail queue. */
     else
     {
-        return STATUS_SUCCESS;
+        retval = queue_append(mbox->message_queue, &msg->hdr);
+    }
+
+    /* if the message could not be sent, let the original fiber know. */
+    if (STATUS_SUCCESS != retval)
+    {
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
+    return STATUS_SUCCESS;
+
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-- 
2.43.0


From aecc454a6e993296ba7c8b47b0ac4e0b2aeaad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 55/61] fix: the psock idle fiber must survive running out of
 memory at a wake-up

---
 .../platform/epoll/psock_idle_fiber_entry.c   | 22 ++++++++++---------
 .../platform/poll/psock_idle_fiber_entry.c    | 15 +++++++------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 9018b36..adfbd9e 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -104,13 +104,14 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                         ctx->sched, ps->read_block_fib,
                         &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, resume_event,
                         (void*)resume_param);
-                if (STATUS_SUCCESS != retval)
+
+                /* remove this fiber from the list of blockers. If there was no
+                 * memory to resume it, it stays blocked and is re-armed below,
+                 * so this is tried again. */
+                if (STATUS_SUCCESS == retval)
                 {
-                    goto done;
+                    ps->read_block_fib = NULL;
                 }
-
-                /* remove this fiber from the list of blockers. */
-                ps->read_block_fib = NULL;
             }
 
             /* check for a write resume event. */
@@ -140,13 +141,14 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                         ctx->sched, ps->write_block_fib,
                         &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, resume_event,
                         (void*)resume_param);
-                if (STATUS_SUCCESS != retval)
+
+                /* remove this fiber from the list of blockers. If there was no
+                 * memory to resume it, it stays blocked and is re-armed below,
+                 * so this is tried again. */
+                if (STATUS_SUCCESS == retval)
                 {
-                    goto done;
+                    ps->write_block_fib = NULL;
                 }
-
-                /* remove this fiber from the list of blockers. */
-                ps->write_block_fib = NULL;
             }
 
             /* should we re-arm the epoll trigger? */
diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 7dd60f0..460bd0e 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -101,21 +101,22 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             }
 
             /* was an event recorded? */
+            bool resumed = false;
             if (-1 != resume_event)
             {
-                /* add the fiber back to the run queue. */
+                /* add the fiber back to the run queue. If there is no memory
+                 * for this, keep the event, so that this is tried again. */
                 retval =
                     disciplined_fiber_scheduler_add_fiber_to_run_queue(
                         ctx->sched, fib, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                         resume_event, (void*)resume_param);
-                if (STATUS_SUCCESS != retval)
-                {
-                    goto done;
-                }
+                resumed = (STATUS_SUCCESS == retval);
             }
-            else
+
+            /* if the fiber still waits... */
+            if (!resumed)
             {
-                /* otherwise, move this event to the next available slot. */
+                /* move this event to the next available slot. */
                 if (i != new_curr)
                 {
                     ctx->poll_fibers[new_curr] = ctx->poll_fibers[i];
-- 
2.43.0


From 152c5a84c1590074790fda94948bd65c56dab549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 56/61] fix: a request that fails for want of memory must not
 leave its sender in the run queue

---
 .../common/fiber_scheduler_create_with_disciplines.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 71fcfe7..b65e6a5 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -1138,7 +1138,11 @@ fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the calling fiber gets this error instead of a resume event. */
+            resource* dummy = NULL;
+            status pop_retval = queue_pop(ctx->run_queue, &dummy);
+
+            return (STATUS_SUCCESS != pop_retval) ? pop_retval : retval;
         }
     }
 
@@ -1209,7 +1213,11 @@ fiber_scheduler_disciplined_management_terminate_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the calling fiber gets this error instead of a resume event. */
+            resource* dummy = NULL;
+            status pop_retval = queue_pop(ctx->run_queue, &dummy);
+
+            return (STATUS_SUCCESS != pop_retval) ? pop_retval : retval;
         }
     }
 
-- 
2.43.0


From abc2eb429fda66d9abe52243d676bf781890d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 57/61] fix: a notification that fails for want of memory must
 not lose its waiter

---
 ...n_discipline_notify_all_callback_handler.c | 26 ++++++++++++++-----
 ...n_discipline_notify_one_callback_handler.c | 26 ++++++++++++++-----
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
index b442ae1..e08e1d7 100644
--- a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
@@ -63,13 +63,20 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
     /* for every waiting fiber... */
     while (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        slist_node* node;
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+
+        /* get the first waiting fiber. */
+        retval = slist_head(&node, cond->wait_list);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        retval = slist_node_child((resource**)&fib, node);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            goto resume_fail;
         }
 
         /* resume the waiting fiber. */
@@ -80,8 +87,15 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            /* this fiber still waits. */
+            goto resume_fail;
+        }
+
+        /* this fiber no longer waits. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
diff --git a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
index fcc16c2..4e428be 100644
--- a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
@@ -63,13 +63,20 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
     /* are there waiting fibers? */
     if (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        slist_node* node;
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+
+        /* get the first waiting fiber. */
+        retval = slist_head(&node, cond->wait_list);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        retval = slist_node_child((resource**)&fib, node);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            goto resume_fail;
         }
 
         /* resume the waiting fiber. */
@@ -80,8 +87,15 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            /* this fiber still waits. */
+            goto resume_fail;
+        }
+
+        /* this fiber no longer waits. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
-- 
2.43.0


From 0d2007ec592b3cf363cc8f0b5d2310178ed3e967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 58/61] fix: connecting by name from several threads must not
 share a lookup result

gethostbyname2 returns a pointer to storage shared by all threads, so a
thread connecting by name could connect to the address another thread had
looked up, or use freed memory. Use getaddrinfo, which is thread safe.
---
 .../psock_create_from_hostname_and_port.c     | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/psock/psock_create_from_hostname_and_port.c b/src/psock/psock_create_from_hostname_and_port.c
index ddd212a..2ea6a79 100644
--- a/src/psock/psock_create_from_hostname_and_port.c
+++ b/src/psock/psock_create_from_hostname_and_port.c
@@ -68,7 +68,8 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
     const char* hostname, unsigned int port)
 {
     status retval;
-    struct hostent* resolved;
+    struct addrinfo hints;
+    struct addrinfo* resolved;
     int desc;
 
     /* parameter sanity checks. */
@@ -83,17 +84,20 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
         goto done;
     }
 
+    /* this lookup must be safe to use from multiple threads. */
+    memset(&hints, 0, sizeof(hints));
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+
     /* attempt to resolve this as an IPv4 address. */
-    resolved = gethostbyname2(hostname, AF_INET);
-    if (NULL != resolved)
+    if (0 == getaddrinfo(hostname, NULL, &hints, &resolved))
     {
         struct sockaddr_in addr;
 
-        /* set the socket address family and port. */
-        memset(&addr, 0, sizeof(addr));
-        addr.sin_family = AF_INET;
+        /* set the socket address and port. */
+        memcpy(&addr, resolved->ai_addr, sizeof(addr));
         addr.sin_port = htons(port);
-        memcpy(&addr.sin_addr, resolved->h_addr_list[0], resolved->h_length);
+        freeaddrinfo(resolved);
 
         /* create a socket. */
         desc = socket(AF_INET, SOCK_STREAM, 0);
@@ -117,13 +121,18 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
         struct sockaddr_in6 addr;
 
         /* attempt to resolve this as an IPv6 address. */
-        resolved = gethostbyname2(hostname, AF_INET6);
-        if (NULL == resolved)
+        hints.ai_family = AF_INET6;
+        if (0 != getaddrinfo(hostname, NULL, &hints, &resolved))
         {
             retval = ERROR_PSOCK_HOSTNAME_LOOKUP_FAILURE;
             goto done;
         }
 
+        /* set the socket address and port. */
+        memcpy(&addr, resolved->ai_addr, sizeof(addr));
+        addr.sin6_port = htons(port);
+        freeaddrinfo(resolved);
+
         /* create a socket. */
         desc = socket(AF_INET6, SOCK_STREAM, 0);
         if (desc < 0)
@@ -132,12 +141,6 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
             goto done;
         }
 
-        /* set the socket address family and port. */
-        memset(&addr, 0, sizeof(addr));
-        addr.sin6_family = AF_INET6;
-        addr.sin6_port = htons(port);
-        memcpy(&addr.sin6_addr, resolved->h_addr_list[0], resolved->h_length);
-
         /* attempt to connect to the given address using this socket. */
         retval = connect(desc, (struct sockaddr*)&addr, sizeof(addr));
         if (retval < 0)
-- 
2.43.0


From 05b654ab6db15bedefd40d33c89bdb59e90a8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 59/61] fix: an interrupted wait on an async psock must not
 stay registered with epoll

---
 .../platform/epoll/psock_idle_fiber_entry.c   | 44 +++++++++++++++++--
 .../platform/kqueue/psock_idle_fiber_entry.c  |  6 ++-
 .../platform/poll/psock_idle_fiber_entry.c    |  6 ++-
 src/psock/psock_internal.h                    |  7 +--
 src/psock/psock_read_block.c                  |  2 +-
 src/psock/psock_write_block.c                 |  2 +-
 6 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index adfbd9e..9708c11 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -214,13 +214,49 @@ done:
  * resume it, unless it waits again.
  *
  * \param context       The user context of the psock I/O discipline.
+ * \param ps            The psock on which this fiber waited.
  * \param fib           The fiber that no longer waits.
  */
 void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib)
+    void* context, RCPR_SYM(psock_wrap_async)* ps, RCPR_SYM(fiber)* fib)
 {
-    /* the idle fiber only resumes the fibers that are still blocked according to
-     * the psock, so there is nothing to do. */
-    (void)context;
+    psock_io_epoll_context* ctx = (psock_io_epoll_context*)context;
+    psock_from_descriptor* desc = (psock_from_descriptor*)ps->wrapped;
+    struct epoll_event event;
+
+    /* unused parameters. */
     (void)fib;
+
+    /* parameter sanity checks. */
+    RCPR_MODEL_ASSERT(prop_epoll_io_struct_valid(ctx));
+    RCPR_MODEL_ASSERT(prop_fiber_valid(fib));
+
+    /* wait only for what the fibers still blocked on this psock wait for. */
+    memset(&event, 0, sizeof(event));
+    event.events = EPOLLONESHOT;
+    event.data.ptr = ps;
+
+    /* is a fiber still blocked for reading? */
+    if (NULL != ps->read_block_fib)
+    {
+        event.events |= EPOLLIN;
+    }
+
+    /* is a fiber still blocked for writing? */
+    if (NULL != ps->write_block_fib)
+    {
+        event.events |= EPOLLOUT;
+    }
+
+    if (event.events & (EPOLLIN | EPOLLOUT))
+    {
+        (void)epoll_ctl(ctx->ep, EPOLL_CTL_MOD, desc->descriptor, &event);
+    }
+    else
+    {
+        /* nobody is. Closing the descriptor does not end this registration when
+         * the socket is also open elsewhere, and the psock may be released by
+         * then. */
+        (void)epoll_ctl(ctx->ep, EPOLL_CTL_DEL, desc->descriptor, &event);
+    }
 }
diff --git a/src/psock/platform/kqueue/psock_idle_fiber_entry.c b/src/psock/platform/kqueue/psock_idle_fiber_entry.c
index dec2706..05c3052 100644
--- a/src/psock/platform/kqueue/psock_idle_fiber_entry.c
+++ b/src/psock/platform/kqueue/psock_idle_fiber_entry.c
@@ -123,14 +123,18 @@ done:
  * different discipline has resumed it.
  *
  * \param context       The user context of the psock I/O discipline.
+ * \param ps            The psock on which this fiber waited.
  * \param fib           The fiber that no longer waits.
  */
 void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib)
+    void* context, RCPR_SYM(psock_wrap_async)* ps, RCPR_SYM(fiber)* fib)
 {
     psock_io_kqueue_context* ctx = (psock_io_kqueue_context*)context;
     int new_inputs = 0;
 
+    /* unused parameters. */
+    (void)ps;
+
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_kqueue_io_struct_valid(ctx));
     RCPR_MODEL_ASSERT(prop_fiber_valid(fib));
diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 460bd0e..b329e1d 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -161,14 +161,18 @@ done:
  * resume it, unless it waits again.
  *
  * \param context       The user context of the psock I/O discipline.
+ * \param ps            The psock on which this fiber waited.
  * \param fib           The fiber that no longer waits.
  */
 void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib)
+    void* context, RCPR_SYM(psock_wrap_async)* ps, RCPR_SYM(fiber)* fib)
 {
     psock_io_poll_context* ctx = (psock_io_poll_context*)context;
     size_t new_curr = 0;
 
+    /* unused parameters. */
+    (void)ps;
+
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_poll_io_struct_valid(ctx));
     RCPR_MODEL_ASSERT(prop_fiber_valid(fib));
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index 85e7a4a..4af64a9 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -396,10 +396,11 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context);
  * resume it, unless it waits again.
  *
  * \param context       The user context of the psock I/O discipline.
+ * \param ps            The psock on which this fiber waited.
  * \param fib           The fiber that no longer waits.
  */
 void RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(
-    void* context, RCPR_SYM(fiber)* fib);
+    void* context, RCPR_SYM(psock_wrap_async)* ps, RCPR_SYM(fiber)* fib);
 
 /**
  * \brief Create a platform-specific fiber scheduler discipline context for
@@ -663,8 +664,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         void* x) { \
             return RCPR_SYM(psock_idle_fiber_entry)(x); } \
     static inline void psock_fiber_scheduler_discipline_wait_cancel( \
-        void* x, RCPR_SYM(fiber)* y) { \
-            RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(x,y); } \
+        void* x, RCPR_SYM(psock_wrap_async)* y, RCPR_SYM(fiber)* z) { \
+            RCPR_SYM(psock_fiber_scheduler_discipline_wait_cancel)(x,y,z); } \
     static inline status psock_fiber_scheduler_discipline_context_create( \
         RCPR_SYM(resource)** x, RCPR_SYM(fiber_scheduler)* y, \
         RCPR_SYM(allocator)* z) { \
diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 2977b52..06dd2e5 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -124,7 +124,7 @@ RCPR_SYM(psock_read_block)(
             /* the readiness of this descriptor must not resume us later. */
             psock_fiber_scheduler_discipline_wait_cancel(
                 fiber_scheduler_discipline_context_get(s->psock_discipline),
-                current_fib);
+                s, current_fib);
 
             /* try to call the unexpected event handler. */
             retval =
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 6576622..b6bda9c 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -121,7 +121,7 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
             /* the readiness of this descriptor must not resume us later. */
             psock_fiber_scheduler_discipline_wait_cancel(
                 fiber_scheduler_discipline_context_get(s->psock_discipline),
-                current_fib);
+                s, current_fib);
 
             /* try to call the unexpected event handler. */
             retval =
-- 
2.43.0


From 02d2748ca57c0b17f800bf2b2d2cf937b7a86521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 60/61] fix: a pop that fails to release its node must not
 report success

---
 src/list/list_pop.c             | 11 +++++++----
 src/slist/slist_node_next_pop.c | 11 +++++++----
 src/slist/slist_pop.c           | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..5db9e36 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -109,11 +109,14 @@ RCPR_SYM(list_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..f7f5d02 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -108,11 +108,14 @@ RCPR_SYM(slist_node_next_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..0e508e8 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -104,11 +104,14 @@ RCPR_SYM(slist_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
-- 
2.43.0


From 3e2703d42d71ab5610d4d523e0424fb33928d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 61/61] fix: a tree deletion that fails must not hand out the
 resource

---
 src/rbtree/rbtree_delete.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/rbtree/rbtree_delete.c b/src/rbtree/rbtree_delete.c
index 4a593f1..6cbfc11 100644
--- a/src/rbtree/rbtree_delete.c
+++ b/src/rbtree/rbtree_delete.c
@@ -81,7 +81,23 @@ RCPR_SYM(rbtree_delete)(
         node->value = NULL;
     }
 
-    /* clean up the node, returning the cleanup status to the caller. */
-    return
-        resource_release(rbtree_node_resource_handle(node));
+    /* clean up the node. */
+    retval = resource_release(rbtree_node_resource_handle(node));
+    if (STATUS_SUCCESS != retval && NULL != r)
+    {
+        /* on failure, the resource pointer is set to NULL. */
+        resource* cleanup_resource = *r;
+        *r = NULL;
+
+        /* clean up the resource, if possible. */
+        status release_retval = resource_release(cleanup_resource);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            /* bubble up the error for the resource release first. */
+            return release_retval;
+        }
+    }
+
+    /* return the cleanup status to the caller. */
+    return retval;
 }
-- 
2.43.0

