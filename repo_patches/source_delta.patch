From 65a2338c6434855e1dbfe4e6e47c3db4184d42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 01/22] fix: free partial results when callbacks of
 Vector/ImmutableSequence map() and filter() throw

---
 teds_immutablesequence.c | 12 +++++-------
 teds_vector.c            | 16 +++++++---------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 110210b..3786671 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -826,7 +826,7 @@ PHP_METHOD(Teds_ImmutableSequence, filter)
 cleanup:
 				if (entries) {
 					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+						zval_ptr_dtor(&entries[size - 1]);
 					}
 					efree(entries);
 				}
@@ -835,6 +835,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -949,12 +950,9 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		fci.retval = &entries[size];
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
-			if (entries) {
-				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
-				}
-				efree(entries);
-			}
+			/* entries[size] is either undefined or the return value of the callback (if the destructor of operand threw) */
+			teds_zval_dtor_range(entries, size + 1);
+			efree(entries);
 			return;
 		}
 		size++;
diff --git a/teds_vector.c b/teds_vector.c
index 8f9a36c..0dc8e57 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -546,7 +546,6 @@ PHP_METHOD(Teds_Vector, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (array->capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < array->capacity) {
 				teds_vector_shrink_capacity(array, size, capacity, old_entries);
@@ -915,7 +914,7 @@ PHP_METHOD(Teds_Vector, filter)
 cleanup:
 				if (entries) {
 					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+						zval_ptr_dtor(&entries[size - 1]);
 					}
 					efree(entries);
 				}
@@ -924,6 +923,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -936,7 +936,8 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					/* The callback may have removed elements from this vector */
+					capacity = size + (array->size > i ? array->size - i : 1);
 					if (UNEXPECTED(capacity >= TEDS_MAX_ZVAL_COLLECTION_SIZE)) {
 						teds_error_noreturn_max_vector_capacity();
 						ZEND_UNREACHABLE();
@@ -1039,12 +1040,9 @@ PHP_METHOD(Teds_Vector, map)
 		fci.retval = &entries[size];
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
-			if (entries) {
-				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
-				}
-				efree(entries);
-			}
+			/* entries[size] is either undefined or the return value of the callback (if the destructor of operand threw) */
+			teds_zval_dtor_range(entries, size + 1);
+			efree(entries);
 			return;
 		}
 		size++;
-- 
2.43.0


From 9157be7202a481f5d03d1094f9e770eb8d8c91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:04 +0000
Subject: [PATCH 02/22] fix: initialise
 ImmutableSequence/ImmutableIterable/MutableIterable built from empty or
 failing iterables (no re-construction, no leaks)

---
 teds_immutableiterable.c | 39 +++++++++++++++++++++++----------------
 teds_immutablesequence.c |  9 +++++----
 teds_mutableiterable.c   | 24 ++++++++++++++++--------
 3 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 54fb123..d6c1d02 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -131,8 +131,7 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
-	array->size = 0;
-	array->entries = NULL;
+	teds_immutableiterable_entries_set_empty_list(array);
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -200,8 +199,10 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 		entries = erealloc(entries, size * sizeof(zval_pair));
 	}
 
-	array->size = size;
-	array->entries = entries;
+	if (size > 0) {
+		array->size = size;
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -581,6 +582,10 @@ PHP_METHOD(Teds_ImmutableIterable, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (raw_size == 0) {
+		teds_immutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
@@ -632,8 +637,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->entries = NULL;
+		teds_immutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -649,7 +653,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval_pair *)empty_entry_list;
 	}
 
 	array->entries = entries;
@@ -661,8 +665,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
-	array->size = 0;
-	array->entries = NULL;
+	teds_immutableiterable_entries_set_empty_list(array);
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -677,7 +680,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
-			return;
+			goto cleanup_iter;
 		}
 	}
 	while (funcs->valid(iter) == SUCCESS) {
@@ -710,13 +713,17 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 			break;
 		}
 	}
-	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+	if (size > 0) {
+		if (capacity > size) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		}
+		array->size = size;
+		array->entries = entries;
+	} else if (entries) {
+		efree(entries);
 	}
-
-	array->size = size;
-	array->entries = entries;
+cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 3786671..01b9944 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -127,8 +127,7 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
-	array->size = 0;
-	array->entries = NULL;
+	teds_immutablesequence_entries_set_empty_list(array);
 	zval *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -180,8 +179,10 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 		entries = erealloc(entries, size * sizeof(zval));
 	}
 
-	array->size = size;
-	array->entries = entries;
+	if (size > 0) {
+		array->size = size;
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 2a890c1..e094e95 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -710,6 +710,10 @@ PHP_METHOD(Teds_MutableIterable, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (raw_size == 0) {
+		teds_mutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
@@ -811,7 +815,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
-			return;
+			goto cleanup_iter;
 		}
 	}
 	while (funcs->valid(iter) == SUCCESS) {
@@ -844,14 +848,18 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 			break;
 		}
 	}
-	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+	if (size > 0) {
+		if (capacity > size) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		}
+		array->size = size;
+		array->capacity = size;
+		array->entries = entries;
+	} else if (entries) {
+		efree(entries);
 	}
-
-	array->size = size;
-	array->capacity = size;
-	array->entries = entries;
+cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
-- 
2.43.0


From 829d7bc710435f3526d7965af79d919108e5e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:37 +0000
Subject: [PATCH 03/22] fix: Deque clone allocated too little, get_gc skipped
 wrapped entries, clear() dropped active iterators, containsKey() returned int

---
 teds_deque.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index 41edae1..995951d 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -245,7 +245,7 @@ static void teds_deque_entries_copy_ctor(teds_deque_entries *to, const teds_dequ
 	}
 
 	const uint32_t capacity = teds_deque_next_pow2_capacity(size);
-	to->circular_buffer = safe_emalloc(size, sizeof(zval), 0);
+	to->circular_buffer = safe_emalloc(capacity, sizeof(zval), 0);
 	to->size = size;
 	to->mask = capacity - 1;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(to, true);
@@ -325,7 +325,7 @@ static HashTable* teds_deque_get_gc(zend_object *obj, zval **table, int *n)
 	}
 
 	for (uint32_t i = 0, len = offset + size - capacity; i < len; i++) {
-		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[len]);
+		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[i]);
 	}
 
 	/* This replaces table and n. */
@@ -507,7 +507,11 @@ PHP_METHOD(Teds_Deque, clear)
 	}
 	/* Immediately make the original storage inaccessible and set count/capacity to 0 in case destructors modify the deque */
 	teds_deque_entries old_array = intern->array;
-	memset(&intern->array, 0, sizeof(intern->array));
+	intern->array.circular_buffer = (zval *)empty_entry_list;
+	intern->array.offset = 0;
+	intern->array.size = 0;
+	intern->array.mask = 0;
+	/* Keep the list of active iterators */
 	teds_deque_entries_dtor(&old_array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
@@ -840,7 +844,7 @@ PHP_METHOD(Teds_Deque, containsKey)
 	zend_long offset;
 	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
 
-	RETURN_LONG(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
+	RETURN_BOOL(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
 }
 
 static zval *teds_deque_read_dimension(zend_object *object, zval *offset_zv, int type, zval *rv)
-- 
2.43.0


From 615f3e2ade222554b331c895a6cc34cf924ce6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:37 +0000
Subject: [PATCH 04/22] fix: do not leak storage when unserializing an empty
 ImmutableSequence

---
 teds_immutablesequence.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 01b9944..4aa2673 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -564,6 +564,10 @@ PHP_METHOD(Teds_ImmutableSequence, __unserialize)
 	}
 
 	ZEND_ASSERT(intern->array.entries == NULL);
+	if (num_entries == 0) {
+		teds_immutablesequence_entries_set_empty_list(&intern->array);
+		return;
+	}
 
 	zval *const entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
-- 
2.43.0


From 990047077c902c491ba31fa879de650784382609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:23 +0000
Subject: [PATCH 05/22] fix: StrictHashMap/StrictHashSet iterators looped
 forever on repack, skipped entries after removal and yielded nothing after
 rewind past removed entries

---
 teds_stricthashmap.c | 64 +++++++++++++++++++++++---------------------
 teds_stricthashset.c | 63 ++++++++++++++++++++++---------------------
 2 files changed, 67 insertions(+), 60 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7570ebc..50237e5 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -380,34 +380,41 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
-		if (old_position >= nNumUsed) {
+		if (old_position == (uint32_t) -1) {
+			/* Still just before the start of the array */
+		} else if (old_position >= nNumUsed) {
 			it->current = array->nNumOfElements;
-			continue;
-		}
-		// old_position < nNumUsed
-		uint32_t new_current = (uint32_t) -1;
-		for (uint32_t i = 0; i <= old_position; i++) {
-			if (!Z_ISUNDEF(entries[i].key)) {
-				new_current++;
+		} else {
+			uint32_t new_current = (uint32_t) -1;
+			for (uint32_t i = 0; i <= old_position; i++) {
+				if (!Z_ISUNDEF(entries[i].key)) {
+					new_current++;
+				}
 			}
+			// fprintf(stderr, "new_current=%d\n", new_current);
+			it->current = new_current;
+			ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 		}
-		// fprintf(stderr, "new_current=%d\n", new_current);
-		it->current = new_current;
-		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
 }
 
-static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+/* Iterators where key() would be the removed key are shifted to the previous key, which may be before the start of the data (in which case calling next() would make it valid again).
+ * Iterators that already reached the end of the data remain at the (possibly new) end. */
+static void teds_stricthashmap_iterators_adjust_after_remove(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx, const uint32_t old_num_used)
 {
-	const uint32_t nNumUsed = array->nNumUsed;
-	ZEND_ASSERT(removed_idx >= nNumUsed);
+	const teds_stricthashmap_entry *const entries = array->arData;
+	uint32_t prev_idx = removed_idx;
+	do {
+		prev_idx--;
+	} while (prev_idx != (uint32_t) -1 && Z_ISUNDEF(entries[prev_idx].key));
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current == removed_idx) {
+			it->current = prev_idx;
+		} else if (it->current >= old_num_used && it->current != (uint32_t) -1) {
+			it->current = array->nNumUsed;
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -746,7 +753,7 @@ static void teds_stricthashmap_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashmap_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashmap_it*)iter)->current = 0;
+	((teds_stricthashmap_it*)iter)->current = Z_STRICTHASHMAP_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
@@ -757,7 +764,7 @@ static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
 	ZEND_ASSERT((array->nNumUsed > 0) == (array->nNumOfElements > 0));
 	ZEND_ASSERT(array->nFirstUsed <= array->nNumUsed);
 
-	return iterator->current < array->nNumUsed && iterator->current >= array->nFirstUsed ? SUCCESS : FAILURE;
+	return iterator->current < array->nNumUsed ? SUCCESS : FAILURE;
 }
 
 static teds_stricthashmap_entry *teds_stricthashmap_it_read_offset_helper(const teds_stricthashmap *intern, teds_stricthashmap_it *iterator)
@@ -806,19 +813,15 @@ static void teds_stricthashmap_it_move_forward(zend_object_iterator *iter)
 {
 	teds_stricthashmap_it *it = (teds_stricthashmap_it*) iter;
 	const teds_stricthashmap_entries *array   = Z_STRICTHASHMAP_ENTRIES_P(&iter->data);
-	if (it->current + 1 <= array->nFirstUsed) { /* Check for -1 (just before start of array) */
+	if (it->current == (uint32_t) -1) { /* Check for -1 (just before start of array) */
 		it->current = array->nFirstUsed;
 	} else if (it->current >= array->nNumUsed) {
-		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -851,6 +854,7 @@ zend_object_iterator *teds_stricthashmap_get_iterator(zend_class_entry *ce, zval
 	zend_object *obj = Z_OBJ_P(object);
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_stricthashmap_it_funcs;
+	iterator->current = 0;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricthashmap_entries_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -1159,14 +1163,14 @@ static bool teds_stricthashmap_entries_remove_key(teds_stricthashmap_entries *ar
 
 	array->nNumOfElements--;
 	TEDS_STRICTHASHMAP_SET_SHOULD_REBUILD_PROPERTIES(array, true);
+	const uint32_t old_num_used = array->nNumUsed;
 	if (array->nNumUsed - 1 == idx) {
 		do {
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
-
-		if (UNEXPECTED(array->active_iterators.first)) {
-			teds_stricthashmap_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
-		}
+	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashmap_iterators_adjust_after_remove(array, array->active_iterators.first, idx, old_num_used);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 4ff33ea..7be100a 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -346,34 +346,41 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
-		if (old_position >= nNumUsed) {
+		if (old_position == (uint32_t) -1) {
+			/* Still just before the start of the array */
+		} else if (old_position >= nNumUsed) {
 			it->current = array->nNumOfElements;
-			continue;
-		}
-		// old_position < nNumUsed
-		uint32_t new_current = (uint32_t) -1;
-		for (uint32_t i = 0; i <= old_position; i++) {
-			if (!Z_ISUNDEF(entries[i].key)) {
-				new_current++;
+		} else {
+			uint32_t new_current = (uint32_t) -1;
+			for (uint32_t i = 0; i <= old_position; i++) {
+				if (!Z_ISUNDEF(entries[i].key)) {
+					new_current++;
+				}
 			}
+			// fprintf(stderr, "new_current=%d\n", new_current);
+			it->current = new_current;
+			ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 		}
-		// fprintf(stderr, "new_current=%d\n", new_current);
-		it->current = new_current;
-		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
 }
 
-static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+/* Iterators where key() would be the removed key are shifted to the previous key, which may be before the start of the data (in which case calling next() would make it valid again).
+ * Iterators that already reached the end of the data remain at the (possibly new) end. */
+static void teds_stricthashset_iterators_adjust_after_remove(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx, const uint32_t old_num_used)
 {
-	const uint32_t nNumUsed = array->nNumUsed;
-	ZEND_ASSERT(removed_idx >= nNumUsed);
+	const teds_stricthashset_entry *const entries = array->arData;
+	uint32_t prev_idx = removed_idx;
+	do {
+		prev_idx--;
+	} while (prev_idx != (uint32_t) -1 && Z_ISUNDEF(entries[prev_idx].key));
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current == removed_idx) {
+			it->current = prev_idx;
+		} else if (it->current >= old_num_used && it->current != (uint32_t) -1) {
+			it->current = array->nNumUsed;
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -707,7 +714,7 @@ static void teds_stricthashset_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashset_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashset_it*)iter)->current = 0;
+	((teds_stricthashset_it*)iter)->current = Z_STRICTHASHSET_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashset_it_valid(zend_object_iterator *iter)
@@ -718,7 +725,7 @@ static int teds_stricthashset_it_valid(zend_object_iterator *iter)
 	ZEND_ASSERT((array->nNumUsed > 0) == (array->nNumOfElements > 0));
 	ZEND_ASSERT(array->nFirstUsed <= array->nNumUsed);
 
-	return iterator->current < array->nNumUsed && iterator->current >= array->nFirstUsed ? SUCCESS : FAILURE;
+	return iterator->current < array->nNumUsed ? SUCCESS : FAILURE;
 }
 
 static teds_stricthashset_entry *teds_stricthashset_it_read_offset_helper(teds_stricthashset *intern, teds_stricthashset_it *iterator)
@@ -767,19 +774,15 @@ static void teds_stricthashset_it_move_forward(zend_object_iterator *iter)
 {
 	teds_stricthashset_it *it = (teds_stricthashset_it*) iter;
 	const teds_stricthashset_entries *array   = Z_STRICTHASHSET_ENTRIES_P(&iter->data);
-	if (it->current + 1 <= array->nFirstUsed) { /* Check for -1 (just before start of array) */
+	if (it->current == (uint32_t) -1) { /* Check for -1 (just before start of array) */
 		it->current = array->nFirstUsed;
 	} else if (it->current >= array->nNumUsed) {
-		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -962,14 +965,14 @@ static bool teds_stricthashset_entries_remove_key(teds_stricthashset_entries *ar
 
 	array->nNumOfElements--;
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, true);
+	const uint32_t old_num_used = array->nNumUsed;
 	if (array->nNumUsed - 1 == idx) {
 		do {
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
-
-		if (UNEXPECTED(array->active_iterators.first)) {
-			teds_stricthashset_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
-		}
+	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashset_iterators_adjust_after_remove(array, array->active_iterators.first, idx, old_num_used);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
-- 
2.43.0


From 319a5d916beff2c640def3885d0d2643d9d6cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:33 +0000
Subject: [PATCH 06/22] fix: toArray() read freed storage when an error handler
 modified the collection during key conversion

---
 teds_mutableiterable.c       | 23 ++++-------------------
 teds_stricthashmap.c         | 23 +++++------------------
 teds_stricthashset.c         | 18 ++++--------------
 teds_strictsortedvectormap.c | 26 +++++---------------------
 teds_strictsortedvectorset.c | 20 ++++----------------
 teds_stricttreemap.c         | 23 +++++------------------
 teds_stricttreeset.c         | 18 ++++--------------
 teds_util.c                  | 28 ++++++++++++++++++++++++++++
 teds_util.h                  |  5 +++++
 9 files changed, 64 insertions(+), 120 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index e094e95..82db22e 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -991,25 +991,10 @@ PHP_METHOD(Teds_MutableIterable, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
-
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
-		zval_pair *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
-	}
-	RETURN_ARR(values);
+	/* Converting keys can emit notices and run user error handlers that modify this collection, so convert a copy of the entries. */
+	zend_array *copy = teds_zval_pairs_to_refcounted_pairs(array->entries, array->size);
+	teds_convert_pairs_to_array(return_value, copy);
+	zend_array_release(copy);
 }
 
 PHP_METHOD(Teds_MutableIterable, keyAt)
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 50237e5..53d5ae1 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -1354,24 +1354,11 @@ PHP_METHOD(Teds_StrictHashMap, toPairs)
 PHP_METHOD(Teds_StrictHashMap, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
-	teds_stricthashmap_entries *const array = Z_STRICTHASHMAP_ENTRIES_P(ZEND_THIS);
-	if (!array->nNumOfElements) {
-		RETURN_EMPTY_ARRAY();
-	}
-
-	zend_array *values = zend_new_array(array->nNumOfElements);
-	zval *key, *val;
-	/* TODO: Check for side effects of notices */
-	TEDS_STRICTHASHMAP_FOREACH_KEY_VAL(array, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
-	} TEDS_STRICTHASHMAP_FOREACH_END();
-	RETURN_ARR(values);
+	/* Converting keys can emit notices and run user error handlers that modify this collection, so convert a copy of the entries. */
+	zval pairs;
+	teds_stricthashmap_entries_return_pairs(Z_STRICTHASHMAP_ENTRIES_P(ZEND_THIS), &pairs);
+	teds_convert_pairs_to_array(return_value, Z_ARRVAL(pairs));
+	zval_ptr_dtor(&pairs);
 }
 
 static void teds_stricthashmap_clear(teds_stricthashmap *intern) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 7be100a..71ed17f 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -914,20 +914,10 @@ PHP_METHOD(Teds_StrictHashSet, toArray)
 	if (!array->nNumOfElements) {
 		RETURN_EMPTY_ARRAY();
 	}
-
-	zend_array *values = zend_new_array(array->nNumOfElements);
-	zval *val;
-	/* TODO: Check for side effects of notices */
-	TEDS_STRICTHASHSET_FOREACH_VAL(array, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
-	} TEDS_STRICTHASHSET_FOREACH_END();
-	RETURN_ARR(values);
+	/* Converting keys can emit notices and run user error handlers that modify this collection, so convert a copy of the entries. */
+	zend_array *copy = teds_stricthashset_entries_to_refcounted_array(array);
+	teds_convert_values_to_array(return_value, copy);
+	zend_array_release(copy);
 }
 
 /* XXX copy zend_hash_del */
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5b0a443..d74ce33 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -1031,27 +1031,11 @@ PHP_METHOD(Teds_StrictSortedVectorMap, toPairs)
 PHP_METHOD(Teds_StrictSortedVectorMap, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
-	teds_strictsortedvectormap_entries *const array = Z_STRICTSORTEDVECTORMAP_ENTRIES_P(ZEND_THIS);
-	if (!array->size) {
-		RETURN_EMPTY_ARRAY();
-	}
-
-	zend_array *values = zend_new_array(array->size);
-	for (uint32_t i = 0; i < array->size; i++) {
-		teds_strictsortedvectormap_entry *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
-	}
-	RETURN_ARR(values);
+	/* Converting keys can emit notices and run user error handlers that modify this collection, so convert a copy of the entries. */
+	zval pairs;
+	teds_strictsortedvectormap_return_pairs(&pairs, Z_STRICTSORTEDVECTORMAP_P(ZEND_THIS));
+	teds_convert_pairs_to_array(return_value, Z_ARRVAL(pairs));
+	zval_ptr_dtor(&pairs);
 }
 
 static void teds_strictsortedvectormap_clear(teds_strictsortedvectormap *intern) {
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 348a58f..4cb35b5 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -525,22 +525,10 @@ PHP_METHOD(Teds_StrictSortedVectorSet, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
-
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
-		zval *key = &array->entries[i];
-
-		Z_TRY_ADDREF_P(key);
-		array_set_zval_key(values, key, key);
-		zval_ptr_dtor_nogc(key);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
-	}
-	RETURN_ARR(values);
+	/* Converting keys can emit notices and run user error handlers that modify this collection, so convert a copy of the entries. */
+	zend_array *copy = teds_convert_zval_list_to_refcounted_array(array->entries, array->size);
+	teds_convert_values_to_array(return_value, copy);
+	zend_array_release(copy);
 }
 
 static teds_strictsortedvectorset_search_result teds_strictsortedvectorset_entries_sorted_search_for_key(const teds_strictsortedvectorset_entries *array, zval *key)
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89efe4f..bdba282 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1600,24 +1600,11 @@ PHP_METHOD(Teds_StrictTreeMap, toPairs)
 PHP_METHOD(Teds_StrictTreeMap, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
-	teds_stricttreemap_tree *const tree = &Z_STRICTTREEMAP_P(ZEND_THIS)->tree;
-	uint32_t len = tree->nNumOfElements;
-	if (!len) {
-		RETURN_EMPTY_ARRAY();
-	}
-	zend_array *values = zend_new_array(len);
-
-	zval *key, *val;
-	TEDS_STRICTTREEMAP_FOREACH_KEY_VAL(tree, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
-	} TEDS_STRICTTREEMAP_FOREACH_END();
-	RETURN_ARR(values);
+	/* Converting keys can emit notices and run user error handlers that modify this collection, so convert a copy of the entries. */
+	zval pairs;
+	teds_stricttreemap_tree_return_pairs(&Z_STRICTTREEMAP_P(ZEND_THIS)->tree, &pairs);
+	teds_convert_pairs_to_array(return_value, Z_ARRVAL(pairs));
+	zval_ptr_dtor(&pairs);
 }
 
 static ZEND_COLD void teds_stricttreemap_node_debug_representation(zval *return_value, teds_stricttreemap_node *node, zend_string *strings[5]) {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 748c478..314c194 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -948,20 +948,10 @@ PHP_METHOD(Teds_StrictTreeSet, toArray)
 	if (!tree->nNumOfElements) {
 		RETURN_EMPTY_ARRAY();
 	}
-
-	zend_array *values = zend_new_array(tree->nNumOfElements);
-	zval *val;
-	/* TODO: Check for side effects of notices */
-	TEDS_STRICTTREESET_FOREACH_KEY(tree, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
-	} TEDS_STRICTTREESET_FOREACH_END();
-	RETURN_ARR(values);
+	/* Converting keys can emit notices and run user error handlers that modify this collection, so convert a copy of the entries. */
+	zend_array *copy = teds_stricttreeset_tree_to_refcounted_array(tree);
+	teds_convert_values_to_array(return_value, copy);
+	zend_array_release(copy);
 }
 
 static void teds_stricttreeset_tree_replace_node_with_child(teds_stricttreeset_tree *tree, teds_stricttreeset_node *removed_node, teds_stricttreeset_node *child_node) {
diff --git a/teds_util.c b/teds_util.c
index c00aa9c..a4ef46d 100644
--- a/teds_util.c
+++ b/teds_util.c
@@ -23,4 +23,32 @@ HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table
 	return NULL;
 }
 
+void teds_convert_pairs_to_array(zval *return_value, zend_array *pairs)
+{
+	array_init_size(return_value, zend_hash_num_elements(pairs));
+	zval *pair;
+	ZEND_HASH_FOREACH_VAL(pairs, pair) {
+		array_set_zval_key(Z_ARRVAL_P(return_value), zend_hash_index_find(Z_ARRVAL_P(pair), 0), zend_hash_index_find(Z_ARRVAL_P(pair), 1));
+		if (UNEXPECTED(EG(exception))) {
+			zval_ptr_dtor(return_value);
+			ZVAL_NULL(return_value);
+			return;
+		}
+	} ZEND_HASH_FOREACH_END();
+}
+
+void teds_convert_values_to_array(zval *return_value, zend_array *values)
+{
+	array_init_size(return_value, zend_hash_num_elements(values));
+	zval *value;
+	ZEND_HASH_FOREACH_VAL(values, value) {
+		array_set_zval_key(Z_ARRVAL_P(return_value), value, value);
+		if (UNEXPECTED(EG(exception))) {
+			zval_ptr_dtor(return_value);
+			ZVAL_NULL(return_value);
+			return;
+		}
+	} ZEND_HASH_FOREACH_END();
+}
+
 const zval teds_empty_entry_list[1];
diff --git a/teds_util.h b/teds_util.h
index 25e36e1..36e2896 100644
--- a/teds_util.h
+++ b/teds_util.h
@@ -273,6 +273,11 @@ HashTable* teds_noop_get_gc(zend_object *obj, zval **table, int *n);
  */
 HashTable* teds_noop_empty_array_get_properties_for(zend_object *obj, zend_prop_purpose purpose);
 
+/** Sets return_value to an array with the key and value of each [key, value] pair in pairs. Throws if a key can't be used as an array key. */
+void teds_convert_pairs_to_array(zval *return_value, zend_array *pairs);
+/** Sets return_value to an array mapping each of the values to itself. Throws if a value can't be used as an array key. */
+void teds_convert_values_to_array(zval *return_value, zend_array *values);
+
 HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table, int *n);
 
 #endif
-- 
2.43.0


From a25d24a8d3e07ab936aa2fca89fd87ba4f7b1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:05 +0000
Subject: [PATCH 07/22] fix: release the iterator when rewind() throws in
 StrictHashMap/StrictTreeMap/StrictSortedVectorMap::fromPairs()

---
 teds_stricthashmap.c         | 1 +
 teds_strictsortedvectormap.c | 1 +
 teds_stricttreemap.c         | 1 +
 3 files changed, 3 insertions(+)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 53d5ae1..498641a 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -976,6 +976,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index d74ce33..eaae41d 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -552,6 +552,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index bdba282..c0868d7 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -969,6 +969,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
-- 
2.43.0


From 040aa51e66638fd06a41851682eb658dba9c269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:56 +0000
Subject: [PATCH 08/22] fix: StrictTreeMap/StrictTreeSet clone lost node
 colors, clear() left iterators pointing at freed nodes, empty unserialize
 read past its buffer

---
 teds_stricttreemap.c | 13 +++++++++++++
 teds_stricttreeset.c | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index c0868d7..717cd4f 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -458,6 +458,7 @@ cleanup_iter:
 static teds_stricttreemap_node *teds_stricttreemap_node_copy_ctor_recursive(const teds_stricttreemap_node *from, teds_stricttreemap_node *parent, teds_stricttreemap_node *left_parent_node, teds_stricttreemap_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreemap_node *copy = teds_stricttreemap_node_alloc(&from->key, &from->value, parent);
+	TEDS_STRICTTREEMAP_NODE_COLOR(copy) = TEDS_STRICTTREEMAP_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreemap_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
@@ -829,6 +830,7 @@ zend_object_iterator *teds_stricttreemap_get_iterator(zend_class_entry *ce, zval
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_stricttreemap_it_funcs;
 	iterator->node = teds_stricttreemap_tree_get_first(&Z_STRICTTREEMAP_P(object)->tree);
+	iterator->is_before_first = iterator->node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreemap_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -858,6 +860,9 @@ PHP_METHOD(Teds_StrictTreeMap, __unserialize)
 	}
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	if (raw_size == 0) {
+		return;
+	}
 
 	zend_string *str;
 	zval key;
@@ -1690,6 +1695,14 @@ static void teds_stricttreemap_tree_clear(teds_stricttreemap_tree *tree) {
 	}
 	teds_stricttreemap_tree array_copy = *tree;
 
+	/* All of the nodes are about to be freed */
+	for (teds_intrusive_dllist_node *it_node = tree->active_iterators.first; it_node != NULL; it_node = it_node->next) {
+		teds_stricttreemap_it *it = teds_stricttreemap_it_from_dllist_node(it_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 	teds_stricttreemap_tree_set_empty_tree(tree);
 
 	teds_stricttreemap_tree_dtor(&array_copy);
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 314c194..daa7c4d 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -426,6 +426,7 @@ cleanup_iter:
 static teds_stricttreeset_node *teds_stricttreeset_node_copy_ctor_recursive(const teds_stricttreeset_node *from, teds_stricttreeset_node *parent, teds_stricttreeset_node *left_parent_node, teds_stricttreeset_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreeset_node *copy = teds_stricttreeset_node_alloc(&from->key, parent);
+	TEDS_STRICTTREESET_NODE_COLOR(copy) = TEDS_STRICTTREESET_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreeset_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
@@ -793,6 +794,7 @@ zend_object_iterator *teds_stricttreeset_get_iterator(zend_class_entry *ce, zval
 	iterator->intern.funcs = &teds_stricttreeset_it_funcs;
 	teds_stricttreeset_node *node = teds_stricttreeset_tree_get_first(&Z_STRICTTREESET_P(object)->tree);
 	iterator->node = node;
+	iterator->is_before_first = node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreeset_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -842,6 +844,7 @@ PHP_METHOD(Teds_StrictTreeSet, __unserialize)
 			RETURN_THROWS();
 		}
 
+		ZVAL_DEREF(val);
 		if (nodes != NULL) {
 			if (EXPECTED(sorted_nodes_count == 0 || teds_stable_compare(val, &prev->key) > 0)) {
 				prev = teds_stricttreeset_node_alloc(val, NULL);
@@ -1361,6 +1364,14 @@ static void teds_stricttreeset_tree_clear(teds_stricttreeset_tree *tree) {
 	}
 	teds_stricttreeset_tree array_copy = *tree;
 
+	/* All of the nodes are about to be freed */
+	for (teds_intrusive_dllist_node *it_node = tree->active_iterators.first; it_node != NULL; it_node = it_node->next) {
+		teds_stricttreeset_it *it = teds_stricttreeset_it_from_dllist_node(it_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 	teds_stricttreeset_tree_set_empty_tree(tree);
 
 	teds_stricttreeset_tree_dtor(&array_copy);
-- 
2.43.0


From d08769048f0f8fc9d4b81b7e03db54a93917a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:50 +0000
Subject: [PATCH 09/22] fix: StrictMinHeap/StrictMaxHeap could extract elements
 out of order, StrictMaxHeap::__set_state() created a StrictMinHeap

---
 teds_strictheap.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 38456fa..655877c 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -450,9 +450,9 @@ PHP_METHOD(Teds_StrictMaxHeap, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_strictheap_new(teds_ce_StrictMinHeap);
+	zend_object *object = teds_strictheap_new(teds_ce_StrictMaxHeap);
 	teds_strictheap *intern = teds_strictheap_from_object(object);
-	teds_strictheap_entries_init_from_array(&intern->array, array_ht, true);
+	teds_strictheap_entries_init_from_array(&intern->array, array_ht, false);
 
 	RETURN_OBJ(object);
 }
@@ -467,16 +467,18 @@ static zend_always_inline void teds_strictheap_entries_remove_top(teds_stricthea
 	zval *replacement = &entries[len];
 	uint32_t offset = 0;
 
-	/*    0
-	 *  1   2
-	 * 3 4 5 6 */
+	/* The parent of offset is offset >> 1 (see teds_strictheap_entries_insert), and the top has a single child.
+	 *    0
+	 *    1
+	 *  2   3
+	 * 4 5 6 7 */
 	while (true) {
-		uint32_t new_offset = offset * 2 + 1;
+		uint32_t new_offset = offset == 0 ? 1 : offset * 2;
 		if (new_offset >= len) {
 			break;
 		}
 		zval *new_entry = &entries[new_offset];
-		if (new_offset + 1 < len) {
+		if (offset > 0 && new_offset + 1 < len) {
 			if (teds_strictheap_should_be_above(new_entry + 1, new_entry, is_min_heap)) {
 				new_offset++;
 				new_entry++;
-- 
2.43.0


From b6230de3cd309453a51671920e534fa22aef2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 10/22] fix: CachedIterable searches skipped lazily fetched
 entries, count()/toPairs() ignored unfetched entries, re-entry looped forever

---
 teds_cachediterable.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7a6aa51..f0fa6d1 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -139,12 +139,13 @@ static void teds_cachediterable_entries_free_inner_traversable(teds_cachediterab
 	zend_object_iterator *iter = array->iter;
 	array->iter = NULL;
 	ZEND_ASSERT(iter);
-	zend_iterator_dtor(iter);
 	if (array->capacity > array->size) {
 		array->capacity = array->size;
 		/* Shrink allocated value to actual required size */
 		array->entries = erealloc(array->entries, array->size * sizeof(zval_pair));
 	}
+	/* This can call userland code, such as destructors. */
+	zend_iterator_dtor(iter);
 }
 
 static void teds_cachediterable_entries_set_exception(teds_cachediterable_entries *array)
@@ -222,8 +223,8 @@ handle_exception:
 				array->capacity = capacity;
 			} else {
 				ZEND_ASSERT(array->entries == empty_entry_list || array->entries == NULL);
-				array->capacity = 4;
 				array->entries = emalloc(4 * sizeof(zval_pair));
+				array->capacity = 4;
 			}
 		}
 		zval_pair *entries = array->entries;
@@ -242,7 +243,10 @@ handle_exception:
 static zend_always_inline void teds_cachediterable_entries_fetch_all(teds_cachediterable_entries *array)
 {
 	while (array->iter) {
-		teds_cachediterable_entries_lazy_fetch_next(array);
+		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
+			/* Either this reached the end or threw (array->iter is still set if this was already fetching the next element) */
+			return;
+		}
 	}
 }
 
@@ -268,6 +272,7 @@ static zend_always_inline bool teds_cachediterable_entries_ensure_offset_exists(
 		} \
 	} else if (UNEXPECTED((array)->end_exception)) {  \
 		teds_cachediterable_entries_throw_end_exception((array)); \
+		RETURN_THROWS(); \
 	} \
 } while(0)
 
@@ -416,8 +421,17 @@ static zend_object *teds_cachediterable_new(zend_class_entry *class_type)
 
 TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_size_t_count_elements(zend_object *object, zend_long *count)
 {
-	const teds_cachediterable *intern = teds_cachediterable_from_object(object);
-	*count = intern->array.size;
+	teds_cachediterable_entries *const array = &teds_cachediterable_from_object(object)->array;
+	if (array->iter) {
+		teds_cachediterable_entries_fetch_all(array);
+		if (UNEXPECTED(EG(exception))) {
+			return FAILURE;
+		}
+	} else if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+		return FAILURE;
+	}
+	*count = array->size;
 	return SUCCESS;
 }
 
@@ -632,6 +646,10 @@ PHP_METHOD(Teds_CachedIterable, __unserialize)
 	}
 
 	ZEND_ASSERT(array->entries == NULL);
+	if (raw_size == 0) {
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
+	}
 
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -701,7 +719,8 @@ static void teds_cachediterable_entries_init_from_array_pairs(teds_cachediterabl
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
 	}
 
 	array->entries = entries;
@@ -876,6 +895,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -906,6 +926,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -936,6 +957,7 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
@@ -966,17 +988,19 @@ PHP_METHOD(Teds_CachedIterable, contains)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
 
 static void teds_cachediterable_entries_return_pairs(zval *return_value, teds_cachediterable_entries *array)
 {
+	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
+
 	const uint32_t len = array->size;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 
 	zval_pair *entries = array->entries;
 	RETURN_ARR(teds_zval_pairs_to_refcounted_pairs(entries, len));
-- 
2.43.0


From 7c75758e764be8573ea83b5da6e2634887ba2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:51 +0000
Subject: [PATCH 11/22] fix: cycles through foreach iterators of
 ImmutableSequence/ImmutableIterable/LowMemoryVector were never collected

---
 teds_immutableiterable.c | 2 +-
 teds_immutablesequence.c | 2 +-
 teds_lowmemoryvector.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index d6c1d02..1508e22 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -535,7 +535,7 @@ static const zend_object_iterator_funcs teds_immutableiterable_it_funcs = {
 	teds_immutableiterable_it_move_forward,
 	teds_immutableiterable_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc, /* get_gc */
 };
 
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 4aa2673..7cc5487 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -522,7 +522,7 @@ static const zend_object_iterator_funcs teds_immutablesequence_it_funcs = {
 	teds_immutablesequence_it_move_forward,
 	teds_immutablesequence_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc, /* get_gc */
 };
 
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f972d4e..7afce0f 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -609,7 +609,7 @@ static const zend_object_iterator_funcs teds_lowmemoryvector_it_funcs = {
 	teds_lowmemoryvector_it_move_forward,
 	teds_lowmemoryvector_it_rewind,
 	NULL,
-	NULL,
+	teds_internaliterator_get_gc,
 };
 
 static void teds_lowmemoryvector_adjust_iterators_before_remove(teds_lowmemoryvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
-- 
2.43.0


From 2fb1550077daead967dbd919ac55306d80782d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:30 +0000
Subject: [PATCH 12/22] fix: ImmutableSortedStringSet clone had no entries,
 traversable strings were used after free, iteration and bad unserialize data
 leaked

---
 teds_immutablesortedstringset.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1482d43..e439e3e 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -215,7 +215,8 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 				raw_zend_strings = emalloc(capacity * sizeof(zend_string *));
 			}
 		}
-		raw_zend_strings[size++] = value;
+		/* The iterator may be the only thing holding a reference to the string */
+		raw_zend_strings[size++] = zend_string_copy(value);
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -229,6 +230,9 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 
 cleanup:
 	if (raw_zend_strings) {
+		for (uint32_t i = 0; i < size; i++) {
+			zend_string_release(raw_zend_strings[i]);
+		}
 		efree(raw_zend_strings);
 	}
 	if (iter) {
@@ -244,7 +248,8 @@ static void teds_immutablesortedstringset_entries_copy_ctor(teds_immutablesorted
 		return;
 	}
 
-	/* FIXME copy the entry instead */
+	to->substring_infos = safe_emalloc(size, sizeof(teds_immutablesortedstringset_substring_info), 0);
+	memcpy(to->substring_infos, from->substring_infos, size * sizeof(teds_immutablesortedstringset_substring_info));
 	to->size = from->size;
 	to->raw_bytes = from->raw_bytes;
 	zend_string *str = teds_immutablesortedstringset_entries_get_backing_zend_string(from);
@@ -400,6 +405,7 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, getIterator)
 
 static void teds_immutablesortedstringset_it_dtor(zend_object_iterator *iter)
 {
+	zval_ptr_dtor(&((teds_immutablesortedstringset_it*)iter)->tmp);
 	zval_ptr_dtor(&iter->data);
 }
 
@@ -429,6 +435,7 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 		teds_throw_invalid_sequence_index_exception();
 		return &EG(uninitialized_zval);
 	}
+	zval_ptr_dtor(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
@@ -480,6 +487,7 @@ zend_object_iterator *teds_immutablesortedstringset_get_iterator(zend_class_entr
 
 	ZVAL_OBJ_COPY(&iterator->intern.data, Z_OBJ_P(object));
 	iterator->intern.funcs = &teds_immutablesortedstringset_it_funcs;
+	ZVAL_UNDEF(&iterator->tmp);
 
 	return &iterator->intern;
 }
@@ -521,6 +529,7 @@ not_enough_data:
 		/* it and num_strings are read and moved by reference */
 		if (!teds_serialize_read_variable_len_size(&it, end, &substr_len)) {
 			ZEND_ASSERT(EG(exception));
+			efree(substring_infos);
 			return;
 		}
 		// fprintf(stderr, "substr_len=%d end=%p it=%p end-it=%d\n", substr_len, end, it, (int)(end-it));
-- 
2.43.0


From 8586bb937c567cfe25bb6132d42e04132b1cea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 13/22] fix: LowMemoryVector freed its static empty storage on
 type promotion, leaked in offsetExists() and empty unserialize, clear() lost
 its storage

---
 teds_lowmemoryvector.c | 62 +++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 7afce0f..2d2cc10 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -85,20 +85,21 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 
 #define TEDS_LMV_PROMOTE_INT_TYPE_AND_RETURN(int_smaller, entries_smaller, int_larger, entries_larger, TEDS_LMV__TYPE_LARGER) do { \
 		ZEND_ASSERT(sizeof(int_smaller) < sizeof(int_larger)); \
-		array->type_tag = TEDS_LMV__TYPE_LARGER; \
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
+		const size_t old_capacity = array->capacity; \
 		const size_t capacity = size >= 2 ? size * 2 : 4; \
-		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
 		const int_larger *const end = entries_larger + size; \
 		int_larger *dst = entries_larger; \
+		array->type_tag = TEDS_LMV__TYPE_LARGER; \
+		array->capacity = capacity; \
 		array->entries_larger = entries_larger; \
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			efree(original_entries); \
 		} \
 		return; \
@@ -371,7 +372,6 @@ static void teds_lowmemoryvector_clear(teds_lowmemoryvector *intern)
 		ZEND_ASSERT(type_tag == LMV_TYPE_ZVAL);
 
 		zval *it = entries;
-		array->entries_zval = NULL;
 		for (zval *const end = it + size; it < end; it++) {
 			zval_ptr_dtor(it);
 		}
@@ -685,7 +685,11 @@ zend_object_iterator *teds_lowmemoryvector_get_iterator(zend_class_entry *ce, zv
 
 static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_lowmemoryvector_entries *array, HashTable *ht) {
 	const uint32_t num_entries = zend_hash_num_elements(ht);
-	zval *entries = emalloc(num_entries * sizeof(zval));
+	if (UNEXPECTED(num_entries == 0)) {
+		teds_lowmemoryvector_entries_set_empty_list(array);
+		return;
+	}
+	zval *entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
 	zval *val;
 	ZEND_HASH_FOREACH_VAL(ht, val) {
@@ -696,6 +700,7 @@ static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_
 	array->size = num_entries;
 	array->capacity = num_entries;
 	array->entries_zval = entries;
+	array->type_tag = LMV_TYPE_ZVAL;
 }
 
 static void teds_lowmemoryvector_entries_unserialize_from_bitset(teds_lowmemoryvector_entries *array, const uint8_t *bitset_val, const size_t bytes) {
@@ -823,7 +828,6 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 		zend_throw_exception(spl_ce_RuntimeException, "LowMemoryVector missing data to unserialize", 0);
 		RETURN_THROWS();
 	}
-	array->type_tag = type_tag;
 	if (type_tag == LMV_TYPE_ZVAL) {
 		if (UNEXPECTED(Z_TYPE_P(raw_zval) != IS_ARRAY)) {
 			zend_throw_exception(spl_ce_RuntimeException, "LowMemoryVector expected array of values for mixed type representation", 0);
@@ -865,7 +869,12 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "LowMemoryVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				RETURN_THROWS();
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_lowmemoryvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
@@ -1207,8 +1216,8 @@ PHP_METHOD(Teds_LowMemoryVector, offsetExists)
 	}
 	ZEND_ASSERT(offset >= 0);
 	zval tmp;
-	teds_lowmemoryvector_get_value_at_offset(&tmp, ZEND_THIS, offset);
-	RETURN_BOOL(Z_TYPE(tmp) != IS_NULL);
+	const zval *val = teds_lowmemoryvector_entries_read_offset(array, offset, &tmp);
+	RETURN_BOOL(Z_TYPE_P(val) != IS_NULL);
 }
 
 PHP_METHOD(Teds_LowMemoryVector, containsKey)
@@ -1436,14 +1445,13 @@ PHP_METHOD(Teds_LowMemoryVector, contains)
 }
 
 static void teds_lowmemoryvector_entries_set_value_at_offset(teds_lowmemoryvector_entries *array, zend_long offset, const zval *value, bool is_update) {
-	if (is_update) {
-		teds_lowmemoryvector_entries_update_type_tag(array, value);
-	}
-
 	if (UNEXPECTED(!teds_offset_within_size_t(offset, array->size))) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (is_update) {
+		teds_lowmemoryvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 		case LMV_TYPE_BOOL_OR_NULL: {
 			array->entries_uint8[offset] = teds_lowmemoryvector_entries_get_type(value);
@@ -1596,20 +1604,21 @@ static void teds_lowmemoryvector_entries_init_type_tag(teds_lowmemoryvector_entr
 }
 
 static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_to_zval(teds_lowmemoryvector_entries *array) {
-	array->type_tag = LMV_TYPE_ZVAL;
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
-	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
 	const zval *const end = entries_zval + size;
 	zval *dst = entries_zval;
+	array->type_tag = LMV_TYPE_ZVAL;
+	array->capacity = capacity;
 	array->entries_zval = entries_zval;
 	for (; dst < end; dst++, src++) {
 		teds_lowmemoryvector_entries_set_type(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_types);
 	}
 	return;
@@ -1617,20 +1626,21 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 
 static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zval(teds_lowmemoryvector_entries *array)
 {
-	array->type_tag = LMV_TYPE_ZVAL;
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
-	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
 	const zval *const end = entries_zval + size;
 	zval *dst = entries_zval;
+	array->type_tag = LMV_TYPE_ZVAL;
+	array->capacity = capacity;
 	array->entries_zval = entries_zval;
 	for (; dst < end; dst++, src++) {
 		ZVAL_DOUBLE(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_entries);
 	}
 }
@@ -1640,20 +1650,21 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	} while (0)
 
 #define TEDS_PROMOTE_INT_TO_ZVAL_AND_RETURN(intx_t, entries_intx) do {\
-	array->type_tag = LMV_TYPE_ZVAL; \
 	intx_t *const original_entries = array->entries_intx; \
 	const intx_t *src = original_entries; \
 	const uint32_t size = array->size; \
 	const uint32_t old_capacity = array->capacity; \
 	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
+	const zval *const end = entries_zval + size; \
+	zval *dst = entries_zval; \
+	array->type_tag = LMV_TYPE_ZVAL; \
+	array->capacity = capacity; \
+	array->entries_zval = entries_zval; \
+	for (; dst < end; dst++, src++) { \
+		ZVAL_LONG(dst, *src); \
+	} \
 	if (old_capacity > 0) { \
-		const zval *const end = entries_zval + size; \
-		zval *dst = entries_zval; \
-		array->entries_zval = entries_zval; \
-		for (; dst < end; dst++, src++) { \
-			ZVAL_LONG(dst, *src); \
-		} \
 		efree(original_entries); \
 	} \
 	return; \
@@ -2032,6 +2043,7 @@ static void teds_lowmemoryvector_write_dimension(zend_object *object, zval *offs
 {
 	teds_lowmemoryvector_entries *array = &teds_lowmemoryvector_from_object(object)->array;
 	if (!offset_zv) {
+		ZVAL_DEREF(value);
 		teds_lowmemoryvector_entries_push(array, value, true);
 		return;
 	}
-- 
2.43.0


From b44323f22fddc8b37de186da949bfad53729b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 14/22] fix: IntVector::popFront() corrupted wide ints,
 promotion freed static storage, bad type tags were undefined behaviour;
 SortedIntVectorSet iterators and __set_state(), ImmutableSortedIntSet clone

---
 teds_intvector.c | 63 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8430c46..6d5d121 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -518,6 +518,16 @@ static zend_object *teds_sortedintvectorset_clone(zend_object *old_object)
 	return new_object;
 }
 
+static zend_object *teds_immutablesortedintset_clone(zend_object *old_object)
+{
+	zend_object *new_object = teds_immutablesortedintset_new(old_object->ce);
+	teds_intvector_entries_copy_ctor(teds_intvector_entries_from_object(new_object), teds_intvector_entries_from_object(old_object));
+
+	teds_assert_object_has_empty_member_list(new_object);
+
+	return new_object;
+}
+
 static TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_intvector_count_elements(zend_object *object, zend_long *count)
 {
 	const teds_intvector *intern = teds_intvector_from_object(object);
@@ -917,8 +927,6 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 
 static void teds_intvector_entries_unserialize_from_string(teds_intvector_entries *array, const char *strval, const size_t str_byte_length, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -934,7 +942,12 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
@@ -976,14 +989,13 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 			break;
 		}
 		default:
-			ZEND_UNREACHABLE();
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector unserialize got unsupported type tag %d", (int)type_tag);
+			return;
 	}
 }
 
 static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intvector_entries *array, zend_string *src_str, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -1000,6 +1012,11 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
+			array->type_tag = type_tag;
 			array->size = num_elements;
 			array->capacity = num_elements;
 			/* FIXME assert result is sorted */
@@ -1058,7 +1075,8 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 			break;
 		}
 		default:
-			ZEND_UNREACHABLE();
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet unserialize got unsupported type tag %d", (int)type_tag);
+			return;
 	}
 }
 
@@ -1224,11 +1242,16 @@ PHP_METHOD(Teds_IntVector, unserialize)
 		teds_intvector_entries_set_empty_list(array);
 	} else {
 		if (len < 2) {
+			OBJ_RELEASE(new_object);
 			zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
 			RETURN_THROWS();
 		}
 		const uint8_t type_tag = ZSTR_VAL(zstr)[len - 1];
 		teds_intvector_entries_unserialize_from_string(array, ZSTR_VAL(zstr), len - 1, type_tag);
+		if (UNEXPECTED(EG(exception))) {
+			OBJ_RELEASE(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
@@ -1361,7 +1384,10 @@ PHP_METHOD(Teds_SortedIntVectorSet, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_sortedintvectorset_new(teds_ce_IntVector);
+	/* ImmutableSortedIntSet::__set_state() is an alias of this method */
+	zend_object *object = EX(func)->common.scope == teds_ce_ImmutableSortedIntSet
+		? teds_immutablesortedintset_new(teds_ce_ImmutableSortedIntSet)
+		: teds_sortedintvectorset_new(teds_ce_SortedIntVectorSet);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
 	teds_intvector_entries_init_from_array_values(array, array_ht);
 
@@ -1619,7 +1645,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, indexOf)
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: { \
 			const intx_t target = value; \
-			if (target != value) { RETURN_FALSE; } \
+			if (target != value) { RETURN_NULL(); } \
 			const intx_t *const entries = array->entries_intx; \
 			const intx_t *start = entries; \
 			const intx_t *end = start + len; \
@@ -1688,14 +1714,14 @@ TEDS_INTVECTOR__GENERATE_INT_CASES()
 }
 
 static zend_always_inline void teds_intvector_entries_set_value_at_offset(teds_intvector_entries *const array, const zend_long offset, const zend_long value, const bool check_type_tag) {
-	if (check_type_tag) {
-		teds_intvector_entries_update_type_tag(array, value);
-	}
 	const size_t len = array->size;
 	if (UNEXPECTED((zend_ulong) offset >= len)) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (check_type_tag) {
+		teds_intvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: \
@@ -1795,20 +1821,21 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 
 #define TEDS_INTVECTOR_PROMOTE_INT_TYPE_AND_RETURN(int_smaller, entries_smaller, int_larger, entries_larger, TEDS_INTVECTOR__TYPE_LARGER) do { \
 		ZEND_ASSERT(sizeof(int_smaller) < sizeof(int_larger)); \
-		array->type_tag = TEDS_INTVECTOR__TYPE_LARGER; \
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
-		const size_t capacity = array->capacity >= 2 ? array->capacity : 4; \
-		array->capacity = capacity; \
+		const size_t old_capacity = array->capacity; \
+		const size_t capacity = old_capacity >= 2 ? old_capacity : 4; \
 		int_larger *const entries_larger  = teds_intvector_emalloc_byte_array(capacity, sizeof(int_larger)); \
+		array->type_tag = TEDS_INTVECTOR__TYPE_LARGER; \
+		array->capacity = capacity; \
 		const int_larger *const end = entries_larger + size; \
 		int_larger *dst = entries_larger; \
 		array->entries_larger = entries_larger; \
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			teds_intvector_efree_byte_array(original_entries); \
 		} \
 		return; \
@@ -1949,6 +1976,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_add(teds_intvecto
 				else { return false; /* Already exists */ } \
 			} \
 			/* The value at *start is > target */ \
+			teds_intvector_maybe_adjust_iterators_before_insert(array, start - entries, 1); \
 			memmove(start + 1, start, (entries + old_size - start) * sizeof(intx_t)); \
 			*start = target; \
 			break; \
@@ -1980,6 +2008,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_remove(teds_intve
 				if (target < *mid) { end = mid; }  \
 				else if (target > *mid) { start = mid + 1; }  \
 				else { \
+					teds_intvector_maybe_adjust_iterators_before_remove(array, mid - entries); \
 					memmove(mid, mid + 1, (entries + old_size - (mid + 1)) * sizeof(intx_t)); \
 					goto after_remove; \
 				} \
@@ -2301,7 +2330,7 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
-	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element + (old_size - 1));
+	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
 		const size_t size = old_size - 1;
@@ -2464,7 +2493,7 @@ PHP_MINIT_FUNCTION(teds_intvector)
 	memcpy(&teds_handler_ImmutableSortedIntSet, &std_object_handlers, sizeof(zend_object_handlers));
 
 	teds_handler_ImmutableSortedIntSet.offset          = XtOffsetOf(teds_intvector, std);
-	// teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
+	teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
 	teds_handler_ImmutableSortedIntSet.count_elements  = teds_intvector_count_elements;
 	teds_handler_ImmutableSortedIntSet.get_properties_for = teds_intvector_get_properties_for;
 	teds_handler_ImmutableSortedIntSet.get_gc          = teds_intvector_get_gc;
-- 
2.43.0


From 3443f26d5c53f3564b07d986ddce6280a190283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:24 +0000
Subject: [PATCH 15/22] fix: BitVector clone allocated quadratic memory,
 unserialize accepted negative sizes and leaked, pushFront()/insert() type
 errors desynchronised iterators, indexOf()/contains() read past the end

---
 teds_bitvector.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 859518a..a2c3932 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -272,7 +272,7 @@ static void teds_bitvector_entries_copy_ctor(teds_bitvector_entries *to, const t
 	to->bit_size = 0; /* reset bit_size in case emalloc() fails */
 	to->bit_capacity = 0;
 	const size_t bytes_needed = BYTES_FOR_BIT_SIZE(bit_size);
-	to->entries_bits = safe_emalloc(bit_size, bytes_needed, 0);
+	to->entries_bits = emalloc(bytes_needed);
 	to->bit_size = bit_size;
 	to->bit_capacity = bytes_needed * 8;
 
@@ -667,7 +667,7 @@ PHP_METHOD(Teds_BitVector, __unserialize)
 	const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 	const size_t byte_count = ZSTR_LEN(zstr) - 1;
 	const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-	if (modulo_bit_len >= 8) {
+	if (modulo_bit_len >= 8 || UNEXPECTED(byte_count == 0 && modulo_bit_len > 0)) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 		RETURN_THROWS();
 	}
@@ -801,7 +801,8 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 		const size_t byte_count = ZSTR_LEN(zstr) - 1;
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-		if (modulo_bit_len >= 8) {
+		if (modulo_bit_len >= 8 || UNEXPECTED(byte_count == 0 && modulo_bit_len > 0)) {
+			OBJ_RELEASE(new_object);
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 			RETURN_THROWS();
 		}
@@ -993,6 +994,9 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		RETURN_NULL();
+	}
 	// TODO: builtin_clz?
 	uint8_t v = entries_bits[i >> 3] + value;
 	while (i < len) {
@@ -1035,6 +1039,9 @@ PHP_METHOD(Teds_BitVector, contains)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		RETURN_FALSE;
+	}
 	const uint8_t v = entries_bits[i >> 3] + value;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
@@ -1352,6 +1359,11 @@ PHP_METHOD(Teds_BitVector, pushFront)
 		ZEND_UNREACHABLE();
 	}
 
+	for (uint32_t i = 0; i < argc; i++) {
+		bool unused;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(unused, (&args[i]));
+		(void) unused;
+	}
 	/* TODO: Optimize this for large varargs case */
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, argc);
 	for (uint32_t i = 0; i < argc; i++) {
@@ -1389,6 +1401,11 @@ PHP_METHOD(Teds_BitVector, insert)
 		ZEND_UNREACHABLE();
 	}
 
+	for (uint32_t i = 0; i < argc; i++) {
+		bool unused;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(unused, (&args[i]));
+		(void) unused;
+	}
 	/* TODO: Optimize this for large varargs case */
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset, argc);
 	for (uint32_t i = 0; i < argc; i++) {
-- 
2.43.0


From 06149f310aecb5d16b06eda7428f90c0242e2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:26 +0000
Subject: [PATCH 16/22] fix: any()/all()/none()/find()/fold() released values
 through stale iterator pointers, released values they did not own, and leaked
 callback results

---
 teds.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/teds.c b/teds.c
index d5ae4ad..820121e 100644
--- a/teds.c
+++ b/teds.c
@@ -139,7 +139,8 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	ZVAL_COPY(&reduce_data->args[1], operand);
 	ZVAL_NULL(fci->retval);
 	int result = zend_call_function(&reduce_data->fci, &reduce_data->fcc);
-	zval_ptr_dtor(operand);
+	/* The callback may have freed or moved what operand points to, release the copy instead */
+	zval_ptr_dtor(&reduce_data->args[1]);
 	zval_ptr_dtor(&reduce_data->args[0]);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
@@ -232,15 +233,14 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
-		ZVAL_DEREF(operand);
+		zval arg;
+		ZVAL_COPY_DEREF(&arg, operand);
 		fci.retval = &retval;
 		fci.param_count = 1;
 		/* Use the operand like an array of size 1 */
-		fci.params = operand;
-		fci.retval = &retval;
-		Z_TRY_ADDREF_P(operand);
+		fci.params = &arg;
 		result = zend_call_function(&fci, &until_info->fcc);
-		zval_ptr_dtor(operand);
+		zval_ptr_dtor(&arg);
 		if (result == FAILURE) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
@@ -255,7 +255,6 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		}
 		ZVAL_DEREF(operand);
 		stop = zend_is_true(operand) == until_info->stop_value;
-		zval_ptr_dtor(operand);
 	}
 	if (stop) {
 		until_info->found = true;
@@ -772,8 +771,12 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 
 			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
 				bool found = zend_is_true(&retval);
+				zval_ptr_dtor(&retval);
 				if (found) {
 					ZVAL_COPY_VALUE(return_value, operand);
+					if (UNEXPECTED(Z_ISREF_P(return_value))) {
+						zend_unwrap_reference(return_value);
+					}
 					return;
 				} else {
 					zval_ptr_dtor(operand);
@@ -811,27 +814,28 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 	if (UNEXPECTED(!operand || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
-	ZVAL_DEREF(operand);
+	zval arg;
+	ZVAL_COPY_DEREF(&arg, operand);
     // Treat this as a 1-element array.
-	fci->params = operand;
+	fci->params = &arg;
 	fci->retval = &retval;
-	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
-	fci->retval = &retval;
 	bool found = zend_is_true(&retval);
 	zval_ptr_dtor(&retval);
 	if (UNEXPECTED(EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	if (found) {
-		ZVAL_COPY_VALUE(find_data->return_value, operand);
+		ZVAL_COPY_VALUE(find_data->return_value, &arg);
 		find_data->found = 1;
 		return ZEND_HASH_APPLY_STOP;
 	}
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&arg);
 	return ZEND_HASH_APPLY_KEEP;
 }
 
-- 
2.43.0


From 1382fa47ca20547ab02d49bc8a2f16233285713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:37 +0000
Subject: [PATCH 17/22] fix: removing a StrictTreeMap/StrictTreeSet entry whose
 successor had a right child corrupted the tree's balance and could crash

---
 teds_stricttreemap.c | 4 +++-
 teds_stricttreeset.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 717cd4f..bf2d474 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1196,7 +1196,9 @@ static zend_always_inline teds_stricttreemap_node *teds_stricttreemap_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREEMAP_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The removed node was black and its only child is red. Keep the number of black nodes on this path.
+			 * (node->right is left as is, the caller needs to know that there was a child) */
+			TEDS_STRICTTREEMAP_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index daa7c4d..643d7e6 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -991,7 +991,9 @@ static zend_always_inline teds_stricttreeset_node *teds_stricttreeset_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREESET_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The removed node was black and its only child is red. Keep the number of black nodes on this path.
+			 * (node->right is left as is, the caller needs to know that there was a child) */
+			TEDS_STRICTTREESET_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
-- 
2.43.0


From 8177dc8812760d96afff9a8ae322b1eb0f191d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:37 +0000
Subject: [PATCH 18/22] fix: EmptySequence/EmptySet contains() threw TypeError
 for values that are not offsets, EmptySequence offsetExists()/offsetGet()
 returned null without an exception for non-int offsets

---
 teds_emptycollection.c         | 8 ++++++--
 teds_emptycollection.stub.php  | 3 +--
 teds_emptycollection_arginfo.h | 6 +++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 29b0c57..9c734d1 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -232,7 +232,9 @@ PHP_METHOD(Teds_EmptySequence, offsetGet)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	teds_throw_invalid_sequence_index_exception();
 }
@@ -279,7 +281,9 @@ PHP_METHOD(Teds_EmptySequence, offsetExists)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	RETURN_FALSE;
 }
diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 240f340..7cb1919 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -115,7 +115,6 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function indexOf(mixed $value): ?int {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
      */
     public function contains(mixed $value): bool {}
 
@@ -304,7 +303,7 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
 
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function contains(mixed $value): bool {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 28f9770..4f25a9e 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 5f15d481b4e91cfc2590a84139279e5d4d4f0ecd */
+ * Stub hash: 219030b063e1694938823ccd038124c5e17fc5dc */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -393,7 +393,7 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, offsetSet, arginfo_class_Teds_EmptySequence_offsetSet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetUnset, arginfo_class_Teds_EmptySequence_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, indexOf, arginfo_class_Teds_EmptySequence_indexOf, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, contains, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, map, arginfo_class_Teds_EmptySequence_map, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
@@ -440,7 +440,7 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySet_clear, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, toArray, toArray, arginfo_class_Teds_EmptySet_toArray, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, values, toArray, arginfo_class_Teds_EmptySet_values, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, add, offsetUnset, arginfo_class_Teds_EmptySet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 198d721dcee15f4a1f80eac5fb0bb0653a5e9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:38 +0000
Subject: [PATCH 19/22] fix: CachedIterable treated an exception from the
 source's valid() as the end of the source

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index f0fa6d1..de95d7a 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -235,6 +235,10 @@ handle_exception:
 		array->is_calling_inner = false;
 		return true;
 	}
+	if (UNEXPECTED(EG(exception))) {
+		/* valid() threw. This is not the end of the traversable. */
+		goto handle_exception;
+	}
 	array->is_calling_inner = false;
 	teds_cachediterable_entries_free_inner_traversable(array);
 	return false;
-- 
2.43.0


From 4b61bf7126d666e69321d81a08e9643d08931c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:24 +0000
Subject: [PATCH 20/22] fix: inserting into a LowMemoryVector made iterators
 whose first element had been removed skip entries

---
 teds_lowmemoryvector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 2d2cc10..3d7da1f 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -640,10 +640,12 @@ static zend_always_inline void teds_lowmemoryvector_maybe_adjust_iterators_befor
 static void teds_lowmemoryvector_adjust_iterators_before_insert(teds_lowmemoryvector_entries *const array, teds_intrusive_dllist_node *node, const size_t inserted_offset, const uint32_t n)
 {
 	const zend_object *const obj = teds_lowmemoryvector_to_object(array);
+	const size_t old_size = array->size;
+	ZEND_ASSERT(inserted_offset <= old_size);
 	do {
 		teds_lowmemoryvector_it *it = teds_lowmemoryvector_it_from_node(node);
 		if (Z_OBJ(it->intern.data) == obj) {
-			if (it->current >= inserted_offset) {
+			if (it->current >= inserted_offset && it->current < old_size) {
 				it->current += n;
 			}
 		}
-- 
2.43.0


From 504894bf8e6ee30e2c7eb79996bc19c609059c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:28 +0000
Subject: [PATCH 21/22] fix: StrictTreeMap/StrictTreeSet could be constructed
 or unserialized again while holding elements, leaking them

---
 teds_stricttreemap.c | 4 ++--
 teds_stricttreeset.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index bf2d474..89a9de4 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -277,10 +277,10 @@ static zend_always_inline teds_stricttreemap_it *teds_stricttreemap_it_from_dlli
 
 static zend_always_inline bool teds_stricttreemap_tree_uninitialized(teds_stricttreemap_tree *tree)
 {
-	if (tree->initialized) {
+	/* An object that unserialize() created but did not initialise can already have been modified by user code. */
+	if (tree->initialized || tree->root != NULL) {
 		return false;
 	}
-	ZEND_ASSERT(tree->root == NULL);
 	ZEND_ASSERT(tree->nNumOfElements == 0);
 	return true;
 }
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 643d7e6..b71aadc 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -264,10 +264,10 @@ static zend_always_inline teds_stricttreeset_it *teds_stricttreeset_it_from_dlli
 
 static zend_always_inline bool teds_stricttreeset_tree_uninitialized(teds_stricttreeset_tree *tree)
 {
-	if (tree->initialized) {
+	/* An object that unserialize() created but did not initialise can already have been modified by user code. */
+	if (tree->initialized || tree->root != NULL) {
 		return false;
 	}
-	ZEND_ASSERT(tree->root == NULL);
 	ZEND_ASSERT(tree->nNumOfElements == 0);
 	return true;
 }
-- 
2.43.0


From 790ec935155d9824e86fa424edf16ad04c7f70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 22/22] fix: map constructors and fromPairs() went on reading
 their source after the destructor of a replaced value had thrown

---
 teds_stricthashmap.c         | 3 ++-
 teds_strictsortedvectormap.c | 6 +++++-
 teds_stricttreemap.c         | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 498641a..e7007a5 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -934,7 +934,8 @@ static bool teds_stricthashmap_entries_insert_from_pair(teds_stricthashmap_entri
 	ZVAL_DEREF(key);
 	ZVAL_DEREF(value);
 	teds_stricthashmap_entries_insert(array, key, value, false);
-	return true;
+	/* the destructor of a replaced value may have thrown */
+	return !EG(exception);
 }
 
 static void teds_stricthashmap_entries_init_from_array_pairs(teds_stricthashmap_entries *array, zend_array *raw_data)
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index eaae41d..5c4df52 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -209,6 +209,9 @@ static void teds_strictsortedvectormap_entries_init_from_traversable(teds_strict
 		teds_strictsortedvectormap_entries_insert(array, &key, value, false);
 		/* existing key was updated */
 		zval_ptr_dtor(&key);
+		if (UNEXPECTED(EG(exception))) {
+			break;
+		}
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -509,7 +512,8 @@ static bool teds_strictsortedvectormap_entries_insert_from_pair(teds_strictsorte
 	ZVAL_DEREF(key);
 	ZVAL_DEREF(value);
 	teds_strictsortedvectormap_entries_insert(array, key, value, false);
-	return true;
+	/* the destructor of a replaced value may have thrown */
+	return !EG(exception);
 }
 
 static void teds_strictsortedvectormap_entries_init_from_array_pairs(teds_strictsortedvectormap_entries *array, zend_array *raw_data)
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89a9de4..4fe8160 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -937,7 +937,8 @@ static bool teds_stricttreemap_tree_insert_from_pair(teds_stricttreemap_tree *tr
 	ZVAL_DEREF(key);
 	ZVAL_DEREF(value);
 	teds_stricttreemap_tree_insert(tree, key, value, false);
-	return true;
+	/* the destructor of a replaced value may have thrown */
+	return !EG(exception);
 }
 
 static void teds_stricttreemap_tree_init_from_array_pairs(teds_stricttreemap_tree *tree, zend_array *raw_data)
-- 
2.43.0

