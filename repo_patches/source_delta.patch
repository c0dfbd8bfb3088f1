From 194638c417b8dc84acc5f8a98a186464b274de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 01/68] fix: keep table counts, tombstones and undef-valued
 entries consistent

Removing an absent key decremented the count, tombstones were never counted
towards the load (so probing could run forever), table.clear left a
non-prime table size and entries bound to undef were treated as free slots
(so a global holding undef could be lost).
---
 data-structures/YASL_Table.c | 47 ++++++++++++++++++++++++++++--------
 data-structures/YASL_Table.h | 14 +++++++++--
 interpreter/table_methods.c  |  9 +------
 3 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..eeb2785 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -31,6 +31,7 @@ struct YASL_Table *table_new_sized(const size_t base_size) {
 	table->base_size = base_size;
 	table->size = next_prime(table->base_size);
 	table->count = 0;
+	table->tombstones = 0;
 	table->items = (struct YASL_Table_Item *)calloc((size_t) table->size, sizeof(struct YASL_Table_Item));
 	return table;
 }
@@ -71,11 +72,12 @@ void rcht_del_data(void *hashtable) {
 static void table_resize(struct YASL_Table *const table, const size_t base_size) {
 	if (base_size < TABLE_BASESIZE) return;
 	struct YASL_Table *new_table = table_new_sized(base_size);
-	FOR_TABLE(i, item, table) {
+	FOR_TABLE_ALL(i, item, table) {
 			YASL_Table_insert_fast(new_table, item->key, item->value);
 	}
 	table->base_size = new_table->base_size;
 	table->count = new_table->count;
+	table->tombstones = new_table->tombstones;
 
 	const size_t tmp_size = table->size;
 	table->size = new_table->size;
@@ -106,7 +108,7 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
+	while (!YASL_TABLE_ITEM_ISEMPTY(&curr_item)) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
@@ -121,12 +123,25 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) {
 	YASL_ASSERT(ishashable(&key), "`key` must be hashable");
 
-	const size_t load = table->count * 100 / table->size;
-	if (load > 70) table_resize_up(table);
+	if (obj_isundef(&key) && obj_isundef(&value)) {
+		// indistinguishable from an empty slot, and so from the key being absent.
+		YASL_Table_rm(table, key);
+		return;
+	}
+
+	// Tombstones take up slots too: without a free slot left, probing would never terminate.
+	const size_t load = (table->count + table->tombstones) * 100 / table->size;
+	if (load > 70) {
+		if (table->tombstones > table->count) {
+			table_resize(table, table->base_size);
+		} else {
+			table_resize_up(table);
+		}
+	}
 	struct YASL_Table_Item item = new_item(key, value);
 	const size_t index = YASL_Table_getindex(table, key);
 	struct YASL_Table_Item curr_item = table->items[index];
-	if (isequal_typed(&curr_item.key, &key)) {
+	if (!YASL_TABLE_ITEM_ISEMPTY(&curr_item)) {
 		del_item(&curr_item);
 	} else {
 		table->count++;
@@ -160,8 +175,8 @@ struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const
 	if (!ishashable(&key)) return YASL_END();
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item item = table->items[index];
-	int i = 1;
-	while (!obj_isundef(&item.key)) {
+	size_t i = 1;
+	while (!YASL_TABLE_ITEM_ISEMPTY(&item)) {
 		if ((isequal_typed(&item.key, &key))) {
 			return item.value;
 		}
@@ -188,15 +203,27 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item item = table->items[index];
 	size_t i = 1;
-	while (!obj_isundef(&item.key)) {
+	while (!YASL_TABLE_ITEM_ISEMPTY(&item)) {
 		if (item.key.type != Y_END) {
 			if ((isequal_typed(&item.key, &key))) {
-				del_item(&item);
 				table->items[index] = TOMBSTONE;
+				table->tombstones++;
+				table->count--;
+				del_item(&item);
+				return;
 			}
 		}
 		index = get_hash(key, table->size, i++);
 		item = table->items[index];
 	}
-	table->count--;
+}
+
+void YASL_Table_clear(struct YASL_Table *const table) {
+	struct YASL_Table old = *table;
+	table->base_size = TABLE_BASESIZE;
+	table->size = next_prime(table->base_size);
+	table->count = 0;
+	table->tombstones = 0;
+	table->items = (struct YASL_Table_Item *)calloc((size_t) table->size, sizeof(struct YASL_Table_Item));
+	DEL_TABLE(&old);
 }
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..cac7cfb 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -10,16 +10,23 @@
 #define FOR_TABLE(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
                                                   if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
 
+// A slot that has never been used. An `undef` value alone does not make a slot empty: its key is still live.
+#define YASL_TABLE_ITEM_ISEMPTY(item) (obj_isundef(&(item)->key) && obj_isundef(&(item)->value))
+
+// Like FOR_TABLE, but also visits keys bound to `undef`.
+#define FOR_TABLE_ALL(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !YASL_TABLE_ITEM_ISEMPTY(item))
 
 #define NEW_TABLE() ((struct YASL_Table){\
 	.size = next_prime(TABLE_BASESIZE),\
 	.base_size = TABLE_BASESIZE,\
 	.count = 0,\
+	.tombstones = 0,\
 	.items = (struct YASL_Table_Item *)calloc((size_t) next_prime(TABLE_BASESIZE), sizeof(struct YASL_Table_Item))\
 })
 
 #define DEL_TABLE(table) do {\
-        FOR_TABLE(i, item, table) {\
+        FOR_TABLE_ALL(i, item, table) {\
                 del_item(item);\
         }\
         free((table)->items);\
@@ -34,13 +41,15 @@ struct YASL_Table_Item {
 struct YASL_Table {
 	size_t size;
 	size_t base_size;
-	size_t count;
+	size_t count;       // number of live items
+	size_t tombstones;  // number of slots holding TOMBSTONE
 	struct YASL_Table_Item *items;
 };
 
 extern struct YASL_Table_Item TOMBSTONE;
 
 void del_item(struct YASL_Table_Item *const item);
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
 
 struct YASL_Table *YASL_Table_new(void);
 void YASL_Table_del(struct YASL_Table *const table);
@@ -55,6 +64,7 @@ struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const
 struct YASL_Object YASL_Table_search_string_int(const struct YASL_Table *const table, const char *const key,
 						const size_t key_len);
 void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key);
+void YASL_Table_clear(struct YASL_Table *const table);
 
 struct RC_UserData* rcht_new(void);
 struct RC_UserData* rcht_new_sized(const size_t base_size);
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..0abcf4c 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -246,14 +246,7 @@ int table_clear(struct YASL_State *S) {
 	}
 	struct YASL_Table *ht = YASL_GETTABLE(vm_peek((struct VM *) S));
 	inc_ref(&vm_peek((struct VM *) S));
-	FOR_TABLE(i, item, ht) {
-		del_item(item);
-	}
-
-	ht->count = 0;
-	ht->size = TABLE_BASESIZE;
-	free(ht->items);
-	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
+	YASL_Table_clear(ht);
 	dec_ref(&vm_peek((struct VM *) S));
 	vm_pop((struct VM *) S);
 
-- 
2.43.0


From c1b945c0636bd60e09b38a79b46a849785fc4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 02/68] fix: keep set counts and tombstones consistent

Removing an absent member decremented the count, tombstones were never
counted towards the load, clear resized the set it was iterating over and
looking up a mutable object or a number of another type relied on the
probe sequence.
---
 data-structures/YASL_Set.c | 37 ++++++++++++++++++++++++++++++-------
 data-structures/YASL_Set.h |  4 +++-
 std/yasl-std-collections.c |  4 +---
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..d7ef333 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -1,5 +1,6 @@
 #include "YASL_Set.h"
 
+#include "data-structures/YASL_Table.h"
 #include "util/hash_function.h"
 #include "util/prime.h"
 
@@ -10,6 +11,7 @@ static struct YASL_Set *set_new_sized(const size_t base_size) {
 	set->base_size = base_size;
 	set->size = next_prime(set->base_size);
 	set->count = 0;
+	set->tombstones = 0;
 	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
 	return set;
 }
@@ -36,6 +38,7 @@ static void set_resize(struct YASL_Set *const set, const size_t base_size) {
 	}
 	set->base_size = new_set->base_size;
 	set->count = new_set->count;
+	set->tombstones = new_set->tombstones;
 
 	const size_t tmp_size = set->size;
 	set->size = new_set->size;
@@ -63,15 +66,22 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 		return false;
 	}
 
-	const size_t load = set->count * 100 / set->size;
-	if (load > 70) set_resize_up(set);
+	// Tombstones take up slots too: without a free slot left, probing would never terminate.
+	const size_t load = (set->count + set->tombstones) * 100 / set->size;
+	if (load > 70) {
+		if (set->tombstones > set->count) {
+			set_resize(set, set->base_size);
+		} else {
+			set_resize_up(set);
+		}
+	}
 	size_t index = get_hash(value, set->size, 0);
 	inc_ref(&value);
 	struct YASL_Object curr_item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&curr_item)) {
 		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
+			if ((isequal_typed(&curr_item, &value))) {
 				dec_ref(&curr_item);
 				set->items[index] = value;
 				return true;
@@ -86,11 +96,14 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 }
 
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key) {
+	if (!ishashable(&key)) {
+		return false;
+	}
 	size_t index = get_hash(key, set->size, 0);
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
-		if ((isequal(&item, &key))) {
+		if ((isequal_typed(&item, &key))) {
 			return true;
 		}
 		index = get_hash(key, set->size, i++);
@@ -110,15 +123,25 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
-				dec_ref(&item);
+			if ((isequal_typed(&item, &key))) {
 				set->items[index] = YASL_END();
+				set->tombstones++;
+				set->count--;
+				dec_ref(&item);
+				return;
 			}
 		}
 		index = get_hash(key, set->size, i++);
 		item = set->items[index];
 	}
-	set->count--;
+}
+
+void YASL_Set_clear(struct YASL_Set *const set) {
+	struct YASL_Set *const empty = YASL_Set_new();
+	const struct YASL_Set tmp = *set;
+	*set = *empty;
+	*empty = tmp;
+	YASL_Set_del(empty);
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..3b38693 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -9,7 +9,8 @@
 struct YASL_Set {
 	size_t size;
 	size_t base_size;
-	size_t count;
+	size_t count;       // number of live items
+	size_t tombstones;  // number of slots holding a removed item
 	struct YASL_Object *items;
 };
 
@@ -18,6 +19,7 @@ void YASL_Set_del(void *s);
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) /* YASL_WARN_UNUSED */;
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key);
 void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key);
+void YASL_Set_clear(struct YASL_Set *const set);
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right);
 struct YASL_Set *YASL_Set_intersection(const struct YASL_Set *const left, const struct YASL_Set *const right);
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..045bfbf 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -295,9 +295,7 @@ static int YASL_collections_set_copy(struct YASL_State *S) {
 static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
-	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
-	}
+	YASL_Set_clear(set);
 	return 1;
 }
 
-- 
2.43.0


From 89c3c1b34461e0c97304771d3a8b6b74c0925649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 03/68] fix: keep captured variables alive and shared

Open upvalues were not kept in stack order, so some were never closed, were
freed while still listed as pending when their closure died before the
enclosing function returned, and took a reference from the stack slot they
borrowed.
---
 interpreter/VM.c      | 51 ++++++++++++++++++-------------------------
 interpreter/closure.c |  7 +-----
 interpreter/upvalue.c |  8 +++++++
 interpreter/upvalue.h |  1 +
 4 files changed, 31 insertions(+), 36 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..8340c03 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -73,11 +73,11 @@ void vm_init(struct VM *const vm,
 	vm->pending = NULL;
 }
 
-void vm_close_all(struct VM *const vm);
+static void vm_close_from(struct VM *const vm, struct YASL_Object *const end);
 
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
-	vm_close_all(vm);
+	vm_close_from(vm, vm->stack);
 
 	// Exit out of all loops (in case we're exiting with an error).
 	while (vm->loopframe_num >= 0) {
@@ -570,30 +570,20 @@ void vm_stringify_top(struct VM *const vm) {
 }
 
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	// `pending` is sorted by descending location, and owns a reference to each of its upvalues.
+	struct Upvalue **curr = &vm->pending;
+	while (*curr && (*curr)->location > location) {
+		curr = &(*curr)->next;
 	}
 
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*curr && (*curr)->location == location) {
+		return *curr;
 	}
-	return (prev->next = upval_new(location));
+
+	struct Upvalue *upval = upval_new(location);
+	upval->rc.refs++;
+	upval->next = *curr;
+	return (*curr = upval);
 }
 
 static void vm_CCONST(struct VM *const vm) {
@@ -1288,16 +1278,17 @@ static void vm_RET(struct VM *const vm) {
 	vm_exitframe_multi(vm, len);
 }
 
-static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
-	if (curr == NULL) return NULL;
-	if (curr->location < end) return curr;
-	inc_ref(curr->location);
-	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
+static void vm_close_from(struct VM *const vm, struct YASL_Object *const end) {
+	while (vm->pending && vm->pending->location >= end) {
+		struct Upvalue *const upval = vm->pending;
+		vm->pending = upval->next;
+		upval_close(upval);
+		upval_release(upval);
+	}
 }
 
 void vm_close_all(struct VM *const vm) {
-	vm->pending = vm_close_all_helper(vm->stack + vm->fp, vm->pending);
+	vm_close_from(vm, vm->stack + vm->fp);
 }
 
 static void vm_ECHO(struct VM *const vm) {
diff --git a/interpreter/closure.c b/interpreter/closure.c
index 39d7d5b..61d25ec 100644
--- a/interpreter/closure.c
+++ b/interpreter/closure.c
@@ -2,12 +2,7 @@
 
 void closure_del_data(struct Closure *closure) {
 	for (size_t i = 0; i < closure->num_upvalues; i++) {
-		struct Upvalue *upval = closure->upvalues[i];
-		upval->rc.refs--;
-		if (upval->rc.refs == 0) {
-			dec_ref(upval->location);
-			free(upval);
-		}
+		upval_release(closure->upvalues[i]);
 	}
 }
 
diff --git a/interpreter/upvalue.c b/interpreter/upvalue.c
index 828dc1c..ce5e171 100644
--- a/interpreter/upvalue.c
+++ b/interpreter/upvalue.c
@@ -19,6 +19,14 @@ void upval_set(struct Upvalue *const upval, const struct YASL_Object v) {
 
 void upval_close(struct Upvalue *const upval) {
 	upval->closed = upval_get(upval);
+	inc_ref(&upval->closed);
 	upval->location = &upval->closed;
 }
 
+void upval_release(struct Upvalue *const upval) {
+	if (--upval->rc.refs) return;
+	// Open upvalues only borrow the slot they point to; it is the stack that owns the value.
+	if (upval->location == &upval->closed) dec_ref(&upval->closed);
+	free(upval);
+}
+
diff --git a/interpreter/upvalue.h b/interpreter/upvalue.h
index c99d9b0..8e4f46b 100644
--- a/interpreter/upvalue.h
+++ b/interpreter/upvalue.h
@@ -15,5 +15,6 @@ struct Upvalue *upval_new(struct YASL_Object *const location);
 struct YASL_Object upval_get(const struct Upvalue *const upval);
 void upval_set(struct Upvalue *const upval, const struct YASL_Object v);
 void upval_close(struct Upvalue *const upval);
+void upval_release(struct Upvalue *const upval);
 
 #endif
-- 
2.43.0


From 6c71c8261331a3713d9ad53b105a1c54cbb7c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 04/68] fix: copy the name given to YASL_setglobal and
 YASL_registermt

The table kept a pointer to the caller's buffer.
---
 yasl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yasl.c b/yasl.c
index a7da9bb..f537bbd 100644
--- a/yasl.c
+++ b/yasl.c
@@ -183,7 +183,8 @@ int YASL_setglobal(struct YASL_State *S, const char *name) {
 	int64_t index = scope_get(S->compiler.globals, name);
 	if (is_const(index)) return YASL_ERROR;
 
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
+	// the caller keeps `name`, the table outlives the call
+	struct YASL_String *string = YASL_String_new_sized_heap(0, strlen(name), copy_char_buffer(strlen(name), name));
 	YASL_Table_insert_fast(S->vm.globals, YASL_STR(string), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
@@ -202,7 +203,8 @@ int YASL_loadglobal(struct YASL_State *S, const char *name) {
 }
 
 int YASL_registermt(struct YASL_State *S, const char *name) {
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
+	// the caller keeps `name`, the table outlives the call
+	struct YASL_String *string = YASL_String_new_sized_heap(0, strlen(name), copy_char_buffer(strlen(name), name));
 	YASL_Table_insert_fast(S->vm.metatables, YASL_STR(string), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
-- 
2.43.0


From dfb3ae0af171ef5e4fd81dfc1c004aac6bcb491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 05/68] fix: vm_push must not free the value it is pushing

A popped slot keeps its reference until it is overwritten, so pushing back
a value (set.remove) or an element of a temporary container freed it first.
---
 interpreter/VM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 8340c03..a0f4f47 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -193,9 +193,11 @@ void vm_push(struct VM *const vm, const struct YASL_Object val) {
 
 	vm->sp++;
 
-	dec_ref(vm->stack + vm->sp);
+	// The slot we overwrite may hold the only reference to `val`, or to the container it came from.
+	struct YASL_Object old = vm->stack[vm->sp];
 	vm->stack[vm->sp] = val;
 	inc_ref(vm->stack + vm->sp);
+	dec_ref(&old);
 }
 
 void vm_pushend(struct VM *const vm) {
-- 
2.43.0


From 9a3687a6ee66e0dd79174b8a9255cd00f4da2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 06/68] fix: give every type a slot in the table of builtin
 metatables

Looking up a method on a function read past the end of the table.
---
 interpreter/VM.c | 2 +-
 interpreter/VM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index a0f4f47..bd2ce0d 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -23,7 +23,7 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..0324149 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,7 +16,7 @@
 
 
 #define NUM_FRAMES 1000
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_TYPES (Y_USERDATA_W + 1)                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
-- 
2.43.0


From 9e021e52539a1834858c0db9edea08b57b9f75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 07/68] fix: list.pop drops the list's reference to the popped
 element

---
 interpreter/list_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..382caec 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -223,6 +223,7 @@ int list_pop(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 	vm_push((struct VM *) S, ls->items[--ls->count]);
+	dec_ref(ls->items + ls->count);
 	return 1;
 }
 
-- 
2.43.0


From 630399c36fa7eb0dd78cf2a0ac5b59594c0f5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 08/68] fix: a copied table keeps the table methods

---
 interpreter/table_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 0abcf4c..20e68fb 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -230,6 +230,7 @@ int table_remove(struct YASL_State *S) {
 int table_copy(struct YASL_State *S) {
 	struct YASL_Table *ht = YASLX_checkntable(S, "table.copy", 0);
 	struct RC_UserData *new_ht = rcht_new_sized(ht->base_size);
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 
 	FOR_TABLE(i, item, ht) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
-- 
2.43.0


From 646f6d687ea2c6117e46ed683245fa982038c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 09/68] fix: YASL_functioncall runs script functions and counts
 return values

---
 interpreter/VM.h |  1 +
 yasl.c           | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/interpreter/VM.h b/interpreter/VM.h
index 0324149..c56bd32 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -133,6 +133,7 @@ void vm_EQ(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
+void vm_CALL_now(struct VM *const vm);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/yasl.c b/yasl.c
index f537bbd..f664c25 100644
--- a/yasl.c
+++ b/yasl.c
@@ -440,12 +440,12 @@ int YASL_listpush(struct YASL_State *S) {
 
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
-	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
+	const int fn_pos = vm->sp - n;
+	vm_INIT_CALL_offset(vm, fn_pos, -1);
+	vm_CALL_now(vm);
 
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
-
-	return old_sp - vm->sp - 1;
+	// The return values replace the function and its parameters.
+	return vm->sp - fn_pos + 1;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
-- 
2.43.0


From 39288a1b67a02e0ab27e6f805f082f6502380157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 10/68] fix: break and continue drop the locals of the blocks
 they leave

The locals stayed on the stack, so every variable declared after the loop
was off by as many slots.
---
 compiler/compiler.c | 26 ++++++++++++++++++++++++++
 compiler/compiler.h |  2 ++
 2 files changed, 28 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..7e20dd9 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -53,6 +53,7 @@ void compiler_cleanup(struct Compiler *const compiler) {
 	parser_cleanup(&compiler->parser);
 	compiler_buffers_del(compiler);
 	free(compiler->checkpoints.items);
+	free(compiler->loop_locals.items);
 }
 
 static void handle_error(struct Compiler *const compiler) {
@@ -117,6 +118,24 @@ static void rm_checkpoint(struct Compiler *const compiler) {
 	sizebuffer_pop(&compiler->checkpoints);
 }
 
+static struct Scope *get_scope_in_use(const struct Compiler *const compiler);
+
+static void enter_loop(struct Compiler *const compiler) {
+	sizebuffer_push(&compiler->loop_locals, scope_len(get_scope_in_use(compiler)));
+}
+
+static void exit_loop(struct Compiler *const compiler) {
+	sizebuffer_pop(&compiler->loop_locals);
+}
+
+// Jumping out of the body of a loop skips the end of the blocks we're in, so we need to get rid of their locals first.
+static void pop_loop_locals(struct Compiler *const compiler) {
+	const size_t outside = compiler->loop_locals.items[compiler->loop_locals.count - 1];
+	for (size_t i = scope_len(get_scope_in_use(compiler)); i > outside; i--) {
+		compiler_add_byte(compiler, O_POP);
+	}
+}
+
 static void visit(struct Compiler *const compiler, const struct Node *const node);
 
 static void visit_Body(struct Compiler *const compiler, const struct Node *const node) {
@@ -602,6 +621,8 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	compiler_add_byte(compiler, O_END);
 	decl_var(compiler, name, iter->line);
 
+	enter_loop(compiler);
+
 	size_t index_start = compiler->buffer->count;
 	add_checkpoint(compiler, index_start);
 
@@ -625,6 +646,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	exit_loop(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -685,6 +707,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 	}
 
 	add_checkpoint(compiler, index_start);
+	enter_loop(compiler);
 
 	visit(compiler, cond);
 
@@ -701,6 +724,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	exit_loop(compiler);
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
@@ -709,6 +733,7 @@ static void visit_Break(struct Compiler *const compiler, const struct Node *cons
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
@@ -719,6 +744,7 @@ static void visit_Continue(struct Compiler *const compiler, const struct Node *c
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
diff --git a/compiler/compiler.h b/compiler/compiler.h
index d2dbd91..38fbf7b 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -31,6 +31,7 @@
 	.lines = YASL_ByteBuffer_new(16),\
 	.line = 0,\
 	.checkpoints = NEW_SIZEBUFFER(4),\
+	.loop_locals = NEW_SIZEBUFFER(4),\
 	.status = YASL_SUCCESS,\
 	.num = 0,\
 })
@@ -56,6 +57,7 @@ struct Compiler {
 	struct YASL_ByteBuffer *lines;     // keeps track of current line number
 	size_t line;
 	struct SizeBuffer checkpoints;
+	struct SizeBuffer loop_locals;    // number of locals on the stack when each enclosing loop was entered
 	int status;
 	int64_t num;
 };
-- 
2.43.0


From 0a6ed8c3857fcff861a45671b53a6b0da7509128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 11/68] fix: tostr and join clean up when an element cannot be
 turned into a string

The partial text leaked when stringifying an element raised an error, and a
table holding only undef values underflowed its buffer.
---
 interpreter/list_methods.c  | 177 ++++++++++++++++++------------------
 interpreter/list_methods.h  |  18 ++++
 interpreter/table_methods.c |  94 ++-----------------
 3 files changed, 112 insertions(+), 177 deletions(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 382caec..2b43729 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -60,62 +60,89 @@ int list___set(struct YASL_State *S) {
 	return 1;
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-bool buffer_contains(void **buffer, size_t buffer_count, void *val);
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t));
+static void tostr_buffer_del(void *p) {
+	struct TostrBuffer *buffer = (struct TostrBuffer *)p;
+	free(buffer->bb.bytes);
+	free(buffer->seen);
+	free(buffer);
+}
 
-#define FOUND_LIST "[...], "
-#define FOUND_TABLE "{...}, "
+struct TostrBuffer *tostr_buffer_push(struct YASL_State *S) {
+	struct TostrBuffer *buffer = (struct TostrBuffer *)malloc(sizeof(struct TostrBuffer));
+	buffer->bb = NEW_BB(8);
+	buffer->seen_count = 0;
+	buffer->seen_size = 8;
+	buffer->seen = (void **)malloc(buffer->seen_size * sizeof(void *));
+	YASL_pushuserdata(S, buffer, "tostr buffer", tostr_buffer_del);
+	return buffer;
+}
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
+void tostr_buffer_append_lit(struct TostrBuffer *buffer, const char *str) {
+	YASL_ByteBuffer_extend(&buffer->bb, (const unsigned char *)str, strlen(str));
+}
 
-	YASL_ByteBuffer_add_byte(&bb, '[');
-	struct YASL_List *list = vm_peeklist((struct VM *) S);
-	if (list->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, ']');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-		return YASL_SUCCESS;
+static bool tostr_buffer_contains(const struct TostrBuffer *buffer, const void *val) {
+	for (size_t i = 0; i < buffer->seen_count; i++) {
+		if (buffer->seen[i] == val) {
+			return true;
+		}
 	}
+	return false;
+}
 
+static void tostr_buffer_append_list(struct YASL_State *S, struct TostrBuffer *buffer, struct YASL_List *list) {
+	tostr_buffer_append_lit(buffer, "[");
 	FOR_LIST(i, obj, list) {
-		vm_push((struct VM *) S, obj);
-
-		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
-				vm_pop((struct VM *) S);
-				continue;
-			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
-			}
-		} else if (vm_istable((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
-				vm_pop((struct VM *) S);
-				continue;
-			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
-			}
-		} else {
-			vm_stringify_top((struct VM *) S);
-		}
+		if (i > 0) tostr_buffer_append_lit(buffer, ", ");
+		vm_push(&S->vm, obj);
+		tostr_buffer_append(S, buffer);
+	}
+	tostr_buffer_append_lit(buffer, "]");
+}
 
-		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+static void tostr_buffer_append_table(struct YASL_State *S, struct TostrBuffer *buffer, struct YASL_Table *table) {
+	bool first = true;
+	tostr_buffer_append_lit(buffer, "{");
+	FOR_TABLE(i, item, table) {
+		if (!first) tostr_buffer_append_lit(buffer, ", ");
+		first = false;
+		vm_push(&S->vm, item->value);
+		vm_push(&S->vm, item->key);
+		tostr_buffer_append(S, buffer);
+		tostr_buffer_append_lit(buffer, ": ");
+		tostr_buffer_append(S, buffer);
 	}
-	vm_pop((struct VM *) S);
+	tostr_buffer_append_lit(buffer, "}");
+}
 
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, ']');
+void tostr_buffer_append(struct YASL_State *S, struct TostrBuffer *buffer) {
+	const bool is_list = vm_islist(&S->vm);
+	if (!is_list && !vm_istable(&S->vm)) {
+		vm_stringify_top(&S->vm);
+		struct YASL_String *str = vm_popstr(&S->vm);
+		YASL_ByteBuffer_extend(&buffer->bb, (const unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		return;
+	}
 
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	void *const data = vm_peek(&S->vm).value.uval->data;
+	if (tostr_buffer_contains(buffer, data)) {
+		tostr_buffer_append_lit(buffer, is_list ? "[...]" : "{...}");
+		vm_pop(&S->vm);
+		return;
+	}
 
-	return YASL_SUCCESS;
+	if (buffer->seen_count == buffer->seen_size) {
+		buffer->seen_size *= 2;
+		buffer->seen = (void **)realloc(buffer->seen, buffer->seen_size * sizeof(void *));
+	}
+	buffer->seen[buffer->seen_count++] = data;
+	if (is_list) {
+		tostr_buffer_append_list(S, buffer, (struct YASL_List *)data);
+	} else {
+		tostr_buffer_append_table(S, buffer, (struct YASL_Table *)data);
+	}
+	buffer->seen_count--;
+	vm_pop(&S->vm);
 }
 
 int list_tostr(struct YASL_State *S) {
@@ -123,10 +150,11 @@ int list_tostr(struct YASL_State *S) {
 		YASLX_print_err_bad_arg_type(S, "list.tostr", 0, "list", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peeklist((struct VM *) S, S->vm.sp);
-	list_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	const int list = S->vm.sp;
+	struct TostrBuffer *buffer = tostr_buffer_push(S);
+	vm_push(&S->vm, vm_peek(&S->vm, list));
+	tostr_buffer_append(S, buffer);
+	YASL_pushlstr(S, (char *)buffer->bb.bytes, buffer->bb.count);
 	return 1;
 }
 
@@ -263,7 +291,6 @@ int list_join(struct YASL_State *S) {
 		YASLX_print_err_bad_arg_type(S, "list.join", 1, "str", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	struct YASL_String *string = vm_peekstr((struct VM *) S, S->vm.sp);
 	S->vm.sp--;
 	if (!YASL_islist(S)) {
 		YASLX_print_err_bad_arg_type(S, "list.join", 0, "list", YASL_peektypename(S));
@@ -277,47 +304,19 @@ int list_join(struct YASL_State *S) {
 		return 1;
 	}
 
-	size_t buffer_count = 0;
-	size_t buffer_size = 8;
-	char *buffer = (char *) malloc(buffer_size);
-
-	vm_push((struct VM *)S, list->items[0]);
-	vm_stringify_top((struct VM *)S);
-	struct YASL_String *str = vm_popstr((struct VM *) S);
-
-	while (buffer_count + YASL_String_len(str) >= buffer_size) {
-		buffer_size *= 2;
-		buffer = (char *) realloc(buffer, buffer_size);
-	}
-
-	memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-	buffer_count += YASL_String_len(str);
-
-
-	for (size_t i = 1; i < list->count; i++) {
-		while (buffer_count + YASL_String_len(string) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
-		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(string), YASL_String_len(string));
-		buffer_count += YASL_String_len(string);
-
-		vm_push((struct VM *) S, list->items[i]);
-		vm_stringify_top((struct VM *)S);
-		struct YASL_String *str = vm_popstr((struct VM *) S);
-
-		while (buffer_count + YASL_String_len(str) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
+	const int separator = S->vm.sp;
+	struct TostrBuffer *buffer = tostr_buffer_push(S);
+	FOR_LIST(i, obj, list) {
+		if (i > 0) {
+			vm_push(&S->vm, vm_peek(&S->vm, separator));
+			tostr_buffer_append(S, buffer);
 		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-		buffer_count += YASL_String_len(str);
+		vm_push(&S->vm, obj);
+		vm_stringify_top(&S->vm);
+		tostr_buffer_append(S, buffer);
 	}
-	vm_pop((struct VM *) S);
-	vm_pop((struct VM *) S);
-	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, buffer_count, buffer));
+
+	YASL_pushlstr(S, (char *)buffer->bb.bytes, buffer->bb.count);
 	return 1;
 }
 
diff --git a/interpreter/list_methods.h b/interpreter/list_methods.h
index cbcf80b..5d60bcd 100644
--- a/interpreter/list_methods.h
+++ b/interpreter/list_methods.h
@@ -1,8 +1,26 @@
 #ifndef YASL_LIST_METHODS_H_
 #define YASL_LIST_METHODS_H_
 
+#include "data-structures/YASL_ByteBuffer.h"
+
 struct YASL_State;
 
+// Text being built up by the various `tostr` and `join` methods. Stringifying an element can run arbitrary code, and
+// so raise an error: the buffer lives on the stack, as userdata, so that it gets cleaned up no matter what.
+struct TostrBuffer {
+	struct YASL_ByteBuffer bb;
+	void **seen;                 // the lists and tables we're in the middle of
+	size_t seen_count;
+	size_t seen_size;
+};
+
+struct TostrBuffer *tostr_buffer_push(struct YASL_State *S);
+
+// [-1, +0] Appends the value on top of the stack.
+void tostr_buffer_append(struct YASL_State *S, struct TostrBuffer *buffer);
+
+void tostr_buffer_append_lit(struct TostrBuffer *buffer, const char *str);
+
 int list___len(struct YASL_State *S);
 
 int list___get(struct YASL_State *S);
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 20e68fb..b307bc4 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -4,6 +4,7 @@
 #include "yasl_aux.h"
 #include "yasl_error.h"
 #include "yasl_state.h"
+#include "interpreter/list_methods.h"
 
 static struct YASL_Table *YASLX_checkntable(struct YASL_State *S, const char *name, unsigned pos) {
 	if (!YASL_isntable(S, pos)) {
@@ -95,100 +96,17 @@ int table___eq(struct YASL_State *S) {
 	return 1;
 }
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-
-#define FOUND_LIST "[...], "
-#define FOUND_TABLE "{...}, "
-
-bool buffer_contains(void **buffer, size_t buffer_count, void *val) {
-	for (size_t j = 0; j < buffer_count; j++) {
-		if (buffer[j] == val) {
-			return true;
-		}
-	}
-	return false;
-}
-
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t)) {
-	size_t tmp_buffer_size =
-		buffer_count == buffer_size ? buffer_size * 2 : buffer_size;
-	void **tmp_buffer = (void **) malloc(tmp_buffer_size * sizeof(void *));
-	memcpy(tmp_buffer, buffer, sizeof(void *) * buffer_count);
-	tmp_buffer[buffer_count] = vm_peeklist((struct VM *) S);
-	f(S, tmp_buffer, tmp_buffer_size, buffer_count + 1);
-	free(tmp_buffer);
-}
-
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '{');
-	struct YASL_Table *table = vm_peektable((struct VM *) S);
-	if (table->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, '}');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-		return YASL_SUCCESS;
-	}
-
-	FOR_TABLE(i, item, table) {
-		vm_push((struct VM *) S, item->key);
-
-		vm_stringify_top(&S->vm);
-
-		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)": ", strlen(": "));
-
-		vm_push((struct VM *) S, item->value);
-
-		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
-				vm_pop((struct VM *) S);
-				continue;
-			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
-			}
-		} else if (vm_istable((struct VM *) S, S->vm.sp)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
-				vm_pop((struct VM *) S);
-				continue;
-			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
-			}
-		} else {
-			vm_stringify_top((struct VM *) S);
-		}
-
-		str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
-	}
-
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, '}');
-
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-
-	return YASL_SUCCESS;
-}
-
 int table_tostr(struct YASL_State *S) {
 	if (!YASL_istable(S)) {
 		YASLX_print_err_bad_arg_type(S, "table.tostr", 0, "table", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peektable((struct VM *) S, S->vm.sp);
-	table_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	const int table = S->vm.sp;
+	struct TostrBuffer *buffer = tostr_buffer_push(S);
+	vm_push(&S->vm, vm_peek(&S->vm, table));
+	tostr_buffer_append(S, buffer);
+	YASL_pushlstr(S, (char *)buffer->bb.bytes, buffer->bb.count);
 	return 1;
 }
 
-- 
2.43.0


From 5a188ac4ab0ca23efba6f24a9b1c43f88ff1134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 12/68] fix: failing comparisons and concatenations drop their
 operands

---
 interpreter/VM.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index bd2ce0d..ee83baf 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -336,16 +336,6 @@ do {\
 	vm_CALL(vm);\
 } while (0)
 
-#define vm_call_method_now_2(vm, left, right, method_name, ...) do {\
-	inc_ref(&left);\
-	inc_ref(&right);\
-	vm_push(vm, left);\
-	vm_lookup_method_throwing(vm, method_name, __VA_ARGS__);\
-	vm_call_now_2(vm, left, right);\
-	dec_ref(&left);\
-	dec_ref(&right);\
-} while (0)
-
 #define INT_BINOP(name, op) yasl_int name(yasl_int left, yasl_int right) { return left op right; }
 
 INT_BINOP(bor, |)
@@ -508,38 +498,47 @@ void vm_EQ(struct VM *const vm) {
 }
 
 static void vm_CNCT(struct VM *const vm) {
+		// both operands stay on the stack, so that neither is lost if the other can't be stringified.
 		vm_stringify_top(vm);
-		struct YASL_Object top = vm_peek(vm);
-		inc_ref(&top);
-		struct YASL_String *b = vm_popstr(vm);
+		vm_swaptop(vm);
 		vm_stringify_top(vm);
-		struct YASL_String *a = vm_popstr(vm);
+		struct YASL_String *a = vm_peekstr(vm);
+		struct YASL_String *b = vm_peekstr(vm, vm->sp - 1);
 
 		size_t size = YASL_String_len(a) + YASL_String_len(b);
 		char *ptr = (char *)malloc(size);
 		memcpy(ptr, YASL_String_chars(a), YASL_String_len(a));
 		memcpy(ptr + YASL_String_len(a), YASL_String_chars(b), YASL_String_len(b));
+		vm_pop(vm);
+		vm_pop(vm);
 		vm_pushstr(vm, YASL_String_new_sized_heap(0, size, ptr));
-		dec_ref(&top);
 }
 
 #define DEFINE_COMP(name, opstr, overload_name) \
 static void vm_##name(struct VM *const vm) {\
-	struct YASL_Object right = vm_pop(vm);\
-	struct YASL_Object left = vm_pop(vm);\
+	struct YASL_Object right = vm_peek(vm);\
+	struct YASL_Object left = vm_peek(vm, vm->sp - 1);\
 	bool c;\
 	if (obj_isstr(&left) && obj_isstr(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		vm_pushbool(vm, name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0));\
 		return;\
 	}\
 	if (obj_isnum(&left) && obj_isnum(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		COMP(vm, left, right, name);\
 		return;\
 	}\
-	vm_call_method_now_2(vm, left, right, overload_name, "%s not supported for operands of types %s and %s.",\
+	vm_push(vm, left);\
+	vm_lookup_method_throwing(vm, overload_name, "%s not supported for operands of types %s and %s.",\
 		opstr,\
 		obj_typename(&left),\
 		obj_typename(&right));\
+	vm_shifttopdown(vm, 2);\
+	vm_INIT_CALL_offset(vm, vm->sp - 2, 1);\
+	vm_CALL(vm);\
 }
 
 DEFINE_COMP(GT, ">", "__gt")
-- 
2.43.0


From 3e712b5cc07107c3ac952a27e00516df85ee97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 13/68] fix: require frees module code, and everything of a
 module that fails

---
 std/yasl-std-require.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 37f004a..5166a42 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -47,6 +47,7 @@ int YASL_require(struct YASL_State *S) {
 
 	if (!Ss) {
 		YASL_print_err(S, "could not open package %s.", mode_str);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
@@ -68,6 +69,13 @@ int YASL_require(struct YASL_State *S) {
 
 	if (status != YASL_MODULE_SUCCESS) {
 		puts("Not a valid module");
+		// What belongs to S must survive the failed module.
+		Ss->vm.globals = NULL;
+		Ss->vm.metatables = NULL;
+		Ss->compiler.strings = NULL;
+		Ss->compiler.header = YASL_ByteBuffer_new(0);
+		YASL_delstate(Ss);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
@@ -83,6 +91,7 @@ int YASL_require(struct YASL_State *S) {
 		S->vm.headers[i] = Ss->vm.headers[i];
 		Ss->vm.headers[i] = NULL;
 	}
+	S->vm.headers_size = new_headers_size;
 
 	Ss->vm.globals = NULL;
 	Ss->vm.metatables = NULL;
-- 
2.43.0


From 0a6949fe6fcf708a42c7c61347b6075458677f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 14/68] fix: file.write writes the whole string, not just up to
 a NUL

---
 std/yasl-std-io.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index db37066..480b9e7 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -177,15 +177,12 @@ static int YASL_io_write(struct YASL_State *S) {
 		vm_print_err_bad_arg_type_name((struct VM *)S, FILE_PRE ".write", 1, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	char *str = YASL_peekcstr(S);
-	YASL_pop(S);
-
-	size_t len = strlen(str);
+	struct YASL_String *str = vm_peekstr((struct VM *)S);
 
-	size_t write_len = fwrite(str, 1, len, f);
+	size_t write_len = fwrite(YASL_String_chars(str), 1, YASL_String_len(str), f);
 
+	YASL_pop(S);
 	YASL_pushint(S, write_len);
-	free(str);
 	return 1;
 }
 
-- 
2.43.0


From d4c8051a4e4902dd211b823f160d97bdd828db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 15/68] fix: operations on a closed file fail instead of using
 the stream again

---
 std/yasl-std-io.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 480b9e7..0219cbd 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -13,12 +13,19 @@
 
 static const char *const FILE_NAME = "io.file";
 
+static void throw_closed(struct YASL_State *S, const char *name) {
+	vm_print_err_value((struct VM *)S, "%s expected an open file, got a closed file.", name);
+	YASL_throw_err(S, YASL_VALUE_ERROR);
+}
+
 static FILE *YASLX_checkfile(struct YASL_State *S, const char *name, int pos) {
 	if (!YASL_isuserdata(S, FILE_NAME)) {
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_popuserdata(S);
+	FILE *f = (FILE *)YASL_popuserdata(S);
+	if (!f) throw_closed(S, name);
+	return f;
 }
 
 static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned pos) {
@@ -26,11 +33,13 @@ static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned p
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_peeknuserdata(S, pos);
+	FILE *f = (FILE *)YASL_peeknuserdata(S, pos);
+	if (!f) throw_closed(S, name);
+	return f;
 }
 
 static void close_file(void *ptr) {
-	fclose((FILE *)ptr);
+	if (ptr) fclose((FILE *)ptr);
 }
 
 static int YASL_io_open(struct YASL_State *S) {
@@ -235,7 +244,11 @@ static int YASL_io_seek(struct YASL_State *S) {
 }
 
 static int YASL_io_close(struct YASL_State *S) {
-	FILE *f = YASLX_checkfile(S, FILE_PRE ".close", 0);
+	FILE *f = YASLX_checknfile(S, FILE_PRE ".close", 0);
+
+	// The handle stays around, but must not be used (or closed) again.
+	YASL_GETUSERDATA(vm_peek((struct VM *)S))->data = NULL;
+	YASL_pop(S);
 
 	int success = fclose(f);
 	YASL_pushbool(S, success == 0);
-- 
2.43.0


From 55ffd01ed9e1ea098762012599910b86c593807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 16/68] fix: file.read('a') reads streams of unknown size, and
 no read hides a device error

---
 std/yasl-std-io.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 0219cbd..081840e 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -120,6 +120,16 @@ static int YASL_io_open(struct YASL_State *S) {
 	return 1;
 }
 
+// What was read before the device failed is not a line, nor the whole file: the result is undef then.
+static void YASL_io_pushread(struct YASL_State *S, FILE *f, const char *string, size_t len) {
+	if (ferror(f)) {
+		clearerr(f);
+		YASL_pushundef(S);
+	} else {
+		YASL_pushlstr(S, string, len);
+	}
+}
+
 static int YASL_io_read(struct YASL_State *S) {
 	char mode_str[2] = { '\0', '\0' };
 
@@ -144,15 +154,22 @@ static int YASL_io_read(struct YASL_State *S) {
 
 	switch (mode_str[0]) {
 	case 'a': {
-		fseek(f, 0, SEEK_END);
-		size_t fsize = ftell(f);
-		fseek(f, 0, SEEK_SET);
-
-		char *string = (char *) malloc(fsize);
-		int result = fread(string, fsize, 1, f);
-		(void) result;
-		// TODO clean this up.
-		YASL_pushlstr(S, string, fsize);
+		// The size is only known once everything is read: what is not seekable is read from where it is.
+		(void) fseek(f, 0, SEEK_SET);
+
+		size_t size = 64;
+		char *string = (char *) malloc(size);
+		size_t len = 0;
+		size_t got;
+
+		while ((got = fread(string + len, 1, size - len, f)) > 0) {
+			len += got;
+			if (len == size) {
+				size *= 2;
+				string = (char *) realloc(string, size);
+			}
+		}
+		YASL_io_pushread(S, f, string, len);
 		free(string);
 		return 1;
 	}
@@ -169,7 +186,7 @@ static int YASL_io_read(struct YASL_State *S) {
 			}
 			string[i++] = (char) c;
 		}
-		YASL_pushlstr(S, string, i);
+		YASL_io_pushread(S, f, string, i);
 		free(string);
 		return 1;
 	}
-- 
2.43.0


From 73c1c87280a9e8e71bcd25bb440b27dfe56dcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 17/68] fix: file.read('a') does not go on after a failed seek

---
 std/yasl-std-io.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 081840e..c908807 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -1,5 +1,6 @@
 #include "yasl-std-io.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -155,7 +156,10 @@ static int YASL_io_read(struct YASL_State *S) {
 	switch (mode_str[0]) {
 	case 'a': {
 		// The size is only known once everything is read: what is not seekable is read from where it is.
-		(void) fseek(f, 0, SEEK_SET);
+		if (fseek(f, 0, SEEK_SET) != 0 && errno != ESPIPE) {
+			YASL_pushundef(S);
+			return 1;
+		}
 
 		size_t size = 64;
 		char *string = (char *) malloc(size);
-- 
2.43.0


From b11264a4109efb08e202af768af46782b6646632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 18/68] fix: collections.table and YASL_tableset do not store
 undef values

---
 std/yasl-std-collections.c | 6 +++++-
 yasl.c                     | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 045bfbf..ba0bbd2 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -82,12 +82,16 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 	while (i > 0) {
 		struct YASL_Object value = vm_pop((struct VM *)S);
 		struct YASL_Object key = vm_pop((struct VM *)S);
-		if (!YASL_Table_insert((struct YASL_Table *) table->data, key, value)) {
+		if (!ishashable(&key)) {
 			rcht_del(table);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
 					  obj_typename(&key));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
+		// As in a table literal, a key without a value is not there.
+		if (!obj_isundef(&value)) {
+			YASL_Table_insert_fast((struct YASL_Table *) table->data, key, value);
+		}
 		i -= 2;
 	}
 	ud_setmt(table, S->vm.builtins_htable[Y_TABLE]);
diff --git a/yasl.c b/yasl.c
index f664c25..25c3f28 100644
--- a/yasl.c
+++ b/yasl.c
@@ -400,9 +400,15 @@ int YASL_tableset(struct YASL_State *S) {
 
 	if (!obj_istable(&table))
 		return YASL_TYPE_ERROR;
-	if (!YASL_Table_insert(YASL_GETTABLE(table), key, value)) {
+	if (!ishashable(&key)) {
 		return YASL_TYPE_ERROR;
 	}
+	if (obj_isundef(&value)) {
+		// Setting a key to undef removes it, as it does in YASL code.
+		YASL_Table_rm(YASL_GETTABLE(table), key);
+	} else {
+		YASL_Table_insert_fast(YASL_GETTABLE(table), key, value);
+	}
 	return YASL_SUCCESS;
 }
 
-- 
2.43.0


From 43bc6bfea5efd28fb9ddb5b92d26e7e004aaf77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 19/68] fix: 0.0 and -0.0 are the same key

---
 util/hash_function.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/hash_function.c b/util/hash_function.c
index 57e5e41..97ac45a 100644
--- a/util/hash_function.c
+++ b/util/hash_function.c
@@ -13,6 +13,9 @@ size_t hash_function(const struct YASL_Object s, const size_t a, const size_t m)
 			hash %= m;
 		}
 		return (size_t) hash;
+	} else if (obj_isfloat(&s) && obj_getfloat(&s) == 0.0) {
+		// 0.0 and -0.0 are equal, and so must hash the same.
+		return 0;
 	} else {
 		int64_t ll = s.value.ival & 0xFFFF;
 		int64_t lu = (s.value.ival & 0xFFFF0000) >> 16;
-- 
2.43.0


From 3646fddd8acb7c2c274fa1140ebc38929876503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 20/68] fix: undef cannot be put into a set, where it was
 counted but never found

---
 data-structures/YASL_Set.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index d7ef333..000a481 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -62,7 +62,8 @@ static void set_resize_down(struct YASL_Set *set) {
 }
 
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
-	if (!ishashable(&value)) {
+	// undef marks an empty slot, so a set could not find it again.
+	if (!ishashable(&value) || obj_isundef(&value)) {
 		return false;
 	}
 
-- 
2.43.0


From 083a12f27bdee9835426478aceacf245f7a1e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 21/68] fix: a loop over a table visits the key undef

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index ee83baf..7806e15 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -879,7 +879,7 @@ static void vm_ITER_1(struct VM *const vm) {
 	case Y_TABLE: {
 		struct YASL_Table *table = YASL_GETTABLE(frame->iterable);
 		while (table->size > (size_t) frame->iter &&
-		       (table->items[frame->iter].key.type == Y_END || table->items[frame->iter].key.type == Y_UNDEF)) {
+		       (table->items[frame->iter].key.type == Y_END || YASL_TABLE_ITEM_ISEMPTY(&table->items[frame->iter]))) {
 			frame->iter++;
 		}
 		if (table->size <= (size_t) frame->iter) {
-- 
2.43.0


From 8ad3def6798d2393c2f887fd9d28d1e873aaedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 22/68] fix: YASL_compile does not leak the bytecode it made

---
 yasl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index 25c3f28..3851f20 100644
--- a/yasl.c
+++ b/yasl.c
@@ -146,7 +146,8 @@ int YASL_execute_REPL(struct YASL_State *S) {
 }
 
 int YASL_compile(struct YASL_State *S) {
-	compile(&S->compiler);
+	unsigned char *bc = compile(&S->compiler);
+	free(bc);
 	return S->compiler.status;
 }
 
-- 
2.43.0


From 99df1c0bbe7adabbc27cc93199815876bb4687e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 23/68] fix: source that is rejected does not leak the names
 and literals read so far

---
 compiler/ast.c    | 34 +++++-----------------------
 compiler/parser.c | 56 +++++++++++++++++++++++++++++------------------
 compiler/parser.h |  6 +++++
 yasl.c            |  2 ++
 4 files changed, 48 insertions(+), 50 deletions(-)

diff --git a/compiler/ast.c b/compiler/ast.c
index eeb25bd..9142756 100644
--- a/compiler/ast.c
+++ b/compiler/ast.c
@@ -269,36 +269,12 @@ struct Node *new_VariadicContext(struct Parser *parser, const struct Node *const
 }
 
 void node_del(struct Node *node) {
-	if (!node) return;
-	node_del(node->next);
-	switch (node->nodetype) {
-	case N_PATALT:
-	case N_BINOP:
-	case N_UNOP:
-	case N_VARCONT:
-	case N_TRIOP:
-	case N_BOOL:
-	case N_INT:
-	case N_FLOAT:
-	case N_PATBOOL:
-	case N_PATINT:
-	case N_PATFL:
-		break;
-	case N_VAR:
-	case N_LET:
-	case N_STR:
-	case N_CONST:
-	case N_LETITER:
-	case N_FNDECL:
-	case N_PATCONST:
-	case N_PATLET:
-	case N_PATSTR:
-		free(node->value.sval.str);
-	default:
-		//free(node->value.sval.str);
-		break;
+	// names and literals belong to the parser
+	while (node) {
+		struct Node *next = node->next;
+		free(node);
+		node = next;
 	}
-	free(node);
 }
 
 struct Node *Block_get_block(const struct Node *const node) {
diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..9736ee8 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -122,9 +122,37 @@ static inline enum Token curtok(const struct Parser *const parser) {
 
 void parser_cleanup(struct Parser *const parser) {
 	node_del(parser->head);
+	for (size_t i = 0; i < parser->strings_count; i++) {
+		free(parser->strings[i]);
+	}
+	free(parser->strings);
+	free(parser->lex.value);
 	lex_cleanup(&parser->lex);
 }
 
+/*
+ * Takes ownership of the current token's value. It lives as long as the parser does, so an error
+ * can be reported at any point after this.
+ */
+static char *take_value(struct Parser *const parser) {
+	if (parser->strings_count == parser->strings_size) {
+		parser->strings_size = parser->strings_size ? 2 * parser->strings_size : 16;
+		parser->strings = (char **)realloc(parser->strings, parser->strings_size * sizeof(char *));
+	}
+	char *value = parser->lex.value;
+	parser->lex.value = NULL;
+	parser->strings[parser->strings_count++] = value;
+	return value;
+}
+
+/*
+ * Moves on to the next token. The current token's value goes with it, unless it has been taken.
+ */
+static void next_token(struct Parser *const parser) {
+	free(parser->lex.value);
+	gettok(&parser->lex);
+}
+
 static YASL_NORETURN void handle_error(struct Parser *const parser) {
 	parser->status = YASL_SYNTAX_ERROR;
 	free(parser->lex.value);
@@ -147,18 +175,17 @@ enum Token eattok(struct Parser *const parser, const enum Token token) {
 			parser->status = YASL_SYNTAX_ERROR;
 		}
 		while (!TOKEN_MATCHES(parser, T_SEMI, T_EOF)) {
-			free(parser->lex.value);
-			gettok(&parser->lex);
+			next_token(parser);
 		}
 		return T_UNKNOWN;
 	} else {
-		gettok(&parser->lex);
+		next_token(parser);
 	}
 	return token;
 }
 
 static char *eatname(struct Parser *const parser) {
-	char *tmp = parser->lex.value;
+	char *tmp = take_value(parser);
 	eattok(parser, T_ID);
 	if (parser->status)
 		handle_error(parser);
@@ -209,8 +236,6 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 static bool isfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
 	eattok(parser, T_FN);
-	free(parser->lex.value);
-	parser->lex.value = NULL;
 	bool result = TOKEN_MATCHES(parser, T_ID);
 	lxseek(parser->lex.file, curr, SEEK_SET);
 	parser->lex.type = T_FN;
@@ -223,7 +248,6 @@ static bool isfndecl(struct Parser *const parser) {
 static bool isconstfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
 	eattok(parser, T_CONST);
-	free(parser->lex.value);
 	bool result = TOKEN_MATCHES(parser, T_FN);
 	lxseek(parser->lex.file, curr, SEEK_SET);
 	parser->lex.type = T_CONST;
@@ -379,10 +403,7 @@ static struct Node *parse_fn(struct Parser *const parser) {
 
 	struct Node *body = parse_body(parser);
 
-	char *name2 = (char *)malloc(name_len + 1);
-	strcpy(name2, name);
-	return new_Let(parser, new_FnDecl(parser, block, body, name2, strlen(name2), line), name, line);
-	// TODO Fix this ^
+	return new_Let(parser, new_FnDecl(parser, block, body, name, name_len, line), name, line);
 }
 
 static struct Node *parse_const_fn(struct Parser *const parser) {
@@ -398,10 +419,7 @@ static struct Node *parse_const_fn(struct Parser *const parser) {
 
 	struct Node *body = parse_body(parser);
 
-	// TODO: clean this up
-	char *name2 = (char *)malloc(name_len + 1);
-	strcpy(name2, name);
-	return new_Const(parser, new_FnDecl(parser, block, body, name2, strlen(name2), line), name, line);
+	return new_Const(parser, new_FnDecl(parser, block, body, name, name_len, line), name, line);
 }
 
 static struct Node *parse_let_const_or_var(struct Parser *const parser) {
@@ -603,7 +621,6 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			parser_print_err_syntax(parser, "Invalid pattern: %s (line %" PRI_SIZET ").\n", name, line);
 			handle_error(parser);
 		}
-		free(name);
 		return n;
 	}
 	default:
@@ -1064,7 +1081,6 @@ static yasl_float get_float(char *buffer) {
 static struct Node *parse_float(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("%s\n", "Parsing float");
 	struct Node *cur_node = new_Float(parser, get_float(parser->lex.value), parserline(parser));
-	free(parser->lex.value);
 	eattok(parser, T_FLOAT);
 	return cur_node;
 }
@@ -1083,7 +1099,6 @@ static yasl_int get_int(char *buffer) {
 static struct Node *parse_integer(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("%s\n", "Parsing int");
 	struct Node *cur_node = new_Integer(parser, get_int(parser->lex.value), parserline(parser));
-	free(parser->lex.value);
 	eattok(parser, T_INT);
 	return cur_node;
 }
@@ -1091,14 +1106,13 @@ static struct Node *parse_integer(struct Parser *const parser) {
 static struct Node *parse_boolean(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("%s\n", "Parsing bool");
 	struct Node *cur_node = new_Boolean(parser, !strcmp(parser->lex.value, "true"), parserline(parser));
-	free(parser->lex.value);
 	eattok(parser, T_BOOL);
 	return cur_node;
 }
 
 static struct Node *parse_string(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("%s\n", "Parsing str");
-	struct Node *cur_node = new_String(parser, parser->lex.value, parser->lex.val_len, parserline(parser));
+	struct Node *cur_node = new_String(parser, take_value(parser), parser->lex.val_len, parserline(parser));
 
 	// interpolated strings
 	while (parser->lex.mode == L_INTERP) {
@@ -1118,7 +1132,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 		if (parser->lex.status) {
 			handle_error(parser);
 		};
-		struct Node *str = new_String(parser, parser->lex.value, parser->lex.val_len, parserline(parser));
+		struct Node *str = new_String(parser, take_value(parser), parser->lex.val_len, parserline(parser));
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, str, parserline(parser));
 	}
 
diff --git a/compiler/parser.h b/compiler/parser.h
index fe8de9c..a45f296 100644
--- a/compiler/parser.h
+++ b/compiler/parser.h
@@ -19,6 +19,9 @@
 	.status = YASL_SUCCESS,\
 	.head = NULL,\
 	.tail = NULL,\
+	.strings = NULL,\
+	.strings_count = 0,\
+	.strings_size = 0,\
 })
 
 struct Parser {
@@ -26,6 +29,9 @@ struct Parser {
 	int status;
 	struct Node *head;
 	struct Node *tail;
+	char **strings;       // OWN, names and literals taken from tokens. Nodes only point at these.
+	size_t strings_count;
+	size_t strings_size;
 	jmp_buf env;
 };
 
diff --git a/yasl.c b/yasl.c
index 3851f20..10e9802 100644
--- a/yasl.c
+++ b/yasl.c
@@ -86,6 +86,7 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 
 	S->compiler.status = YASL_SUCCESS;
 	S->compiler.parser.status = YASL_SUCCESS;
+	free(S->compiler.parser.lex.value);
 	lex_cleanup(&S->compiler.parser.lex);
 
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
@@ -111,6 +112,7 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
 	S->compiler.status = YASL_SUCCESS;
 	S->compiler.parser.status = YASL_SUCCESS;
+	free(S->compiler.parser.lex.value);
 	lex_cleanup(&S->compiler.parser.lex);
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
 	S->compiler.code->count = 0;
-- 
2.43.0


From 70cb6b01dc887e8f403385f1c5f92baee3462d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 24/68] fix: an interpolated pattern cut off by the end of the
 source is rejected, where the parser looped for ever

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 9736ee8..84b5f31 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -587,7 +587,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		}
 	case T_STR:
 		if (parser->lex.mode == L_INTERP) {
-			while (parser->lex.c != '"') {
+			while (parser->lex.c != '"' && !lxeof(parser->lex.file)) {
 				lex_getchar(&parser->lex);
 			}
 			eattok(parser, T_STR);
-- 
2.43.0


From 0a822af1ee5339abd5ab76c6ca97dc933a3fb5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 25/68] fix: a closure keeps the block or loop local it
 captured after that block ends

---
 interpreter/VM.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 7806e15..8d3bb51 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1521,6 +1521,7 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	case O_ENDCOMP:
 		a = vm_pop(vm);
+		vm_close_from(vm, &vm_peek(vm));
 		vm_pop(vm);
 		vm_push(vm, a);
 		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
@@ -1600,10 +1601,9 @@ void vm_executenext(struct VM *const vm) {
 		vm_CALL(vm);
 		break;
 	case O_CRET:
-		vm_close_all(vm);
-		vm_RET(vm);
-		break;
 	case O_RET:
+		// a return may come before the closures it has to close over, if it's in a loop
+		vm_close_all(vm);
 		vm_RET(vm);
 		break;
 	case O_GET:
@@ -1616,6 +1616,8 @@ void vm_executenext(struct VM *const vm) {
 		vm_SET(vm);
 		break;
 	case O_POP:
+		// this may be the end of the scope of a captured local
+		vm_close_from(vm, &vm_peek(vm));
 		vm_pop(vm);
 		break;
 	case O_DEL_FP:
-- 
2.43.0


From c00bc14053738614abb79a5784b18055f0b3a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 26/68] fix: captured locals are closed over before an error
 unwinds their frames

---
 interpreter/VM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 8d3bb51..44b319e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -133,6 +133,7 @@ YASL_FORMAT_CHECK static void vm_print_err_wrapper(struct VM *vm, const char *co
 }
 
 static void vm_exitframe(struct VM *const vm);
+void vm_close_all(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
 static size_t vm_getcurrline(struct VM *vm) {
@@ -1166,6 +1167,7 @@ static void vm_exitframe_multi(struct VM *const vm, int len) {
 }
 
 static void vm_exitframe(struct VM *const vm) {
+	vm_close_all(vm);
 	vm_rm_range(vm, vm->fp, vm->sp);
 
 	struct CallFrame frame = vm->frames[vm->frame_num];
-- 
2.43.0


From d128f4c38a852172b22a7fea58019670a8049773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 27/68] fix: locals past the 127th, and closures over them, use
 their own slot

---
 compiler/compiler.c | 30 ++++++++++++++++++++++--------
 interpreter/VM.c    | 13 ++++++++++---
 opcode.h            |  4 ++++
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 7e20dd9..47114f0 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -396,6 +396,18 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 	}
 }
 
+static void compiler_add_upval(struct Compiler *const compiler, const int64_t value) {
+	const bool is_local = value >= 0;
+	const int64_t index = is_local ? value : ~value;
+	if (index < UPVAL_WIDE) {
+		compiler_add_byte(compiler, (unsigned char) value);
+	} else {
+		compiler_add_byte(compiler, UPVAL_WIDE);
+		compiler_add_byte(compiler, is_local);
+		compiler_add_byte(compiler, (unsigned char) index);
+	}
+}
+
 static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
 	compiler->params = env_new(compiler->params);
 
@@ -430,17 +442,19 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	if (compiler->params->isclosure) {
 		compiler->buffer->bytes[old_size - sizeof(yasl_int) - 1] = O_CCONST;
 		const size_t count = compiler->params->upval_indices.count;
-		compiler_add_byte(compiler, (unsigned char) count);
-		const size_t start = compiler->buffer->count;
-		// TODO what's below is wrong. We need to get the right value for the upvals.
-		for (size_t i = 0; i < count; i++) {
-			compiler_add_byte(compiler, 0);
+		if (count > 255) {
+			compiler_print_err_syntax(compiler, "Too many variables captured by function (line %" PRI_SIZET ").\n", node->line);
+			handle_error(compiler);
 		}
+		compiler_add_byte(compiler, (unsigned char) count);
+		int64_t *values = (int64_t *)malloc(count * sizeof(int64_t));
 		FOR_TABLE(i, item, &compiler->params->upval_indices) {
-			int64_t index = item->value.value.ival;
-			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
-			compiler->buffer->bytes[start + index] = value;
+			values[item->value.value.ival] = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
+		}
+		for (size_t i = 0; i < count; i++) {
+			compiler_add_upval(compiler, values[i]);
 		}
+		free(values);
 	}
 
 	struct Env *tmp = compiler->params->parent;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 44b319e..fdf5bcf 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -601,10 +601,17 @@ static void vm_CCONST(struct VM *const vm) {
 
 	for (size_t i = 0; i < num_upvalues; i++) {
 		unsigned char u = NCODE(vm);
-		if ((signed char)u >= 0) {
+		bool is_local = u < UPVAL_WIDE;
+		if (u == UPVAL_WIDE) {
+			is_local = NCODE(vm);
+			u = NCODE(vm);
+		} else if (!is_local) {
+			u = ~u;
+		}
+		if (is_local) {
 			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
 		} else {
-			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~(signed char)u];
+			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[u];
 		}
 		closure->upvalues[i]->rc.refs++;
 	}
@@ -1357,7 +1364,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
diff --git a/opcode.h b/opcode.h
index 5666cbd..2629fd2 100644
--- a/opcode.h
+++ b/opcode.h
@@ -88,6 +88,10 @@ enum Opcode {
 	O_ECHO = 0xFF  // print
 };
 
+// Where a closure finds an upvalue: a local (below this), or an upvalue of the enclosing function (complement, above
+// this). If the index is too large for that, this is followed by a byte saying if it's a local, and the index.
+#define UPVAL_WIDE 0x7F
+
 enum SpecialStrings {
 #define X(E, S, ...) E,
 #include "specialstrings.x"
-- 
2.43.0


From ffc64233e7369fc1c55bca844e98e14b89bd840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 28/68] fix: an overloaded == or len has returned before the C
 code that used it goes on

---
 interpreter/VM.c            | 23 ++++++++++++++++++++---
 interpreter/VM.h            |  2 ++
 interpreter/list_methods.c  |  7 ++++++-
 interpreter/table_methods.c |  2 +-
 yasl.c                      |  2 +-
 5 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index fdf5bcf..886c94f 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1275,14 +1275,31 @@ void vm_CALL(struct VM *const vm) {
 	}
 }
 
-void vm_CALL_now(struct VM *const vm) {
-	int fp = vm->fp;
-	vm_CALL(vm);
+static void vm_run_until(struct VM *const vm, const int fp) {
 	while (fp < vm->fp) {
 		vm_executenext(vm);
 	}
 }
 
+void vm_CALL_now(struct VM *const vm) {
+	int fp = vm->fp;
+	vm_CALL(vm);
+	vm_run_until(vm, fp);
+}
+
+// For use in C functions: an overloaded operator has returned before these do.
+void vm_EQ_now(struct VM *const vm) {
+	const int fp = vm->fp;
+	vm_EQ(vm);
+	vm_run_until(vm, fp);
+}
+
+void vm_len_unop_now(struct VM *const vm) {
+	const int fp = vm->fp;
+	vm_len_unop(vm);
+	vm_run_until(vm, fp);
+}
+
 static void vm_RET(struct VM *const vm) {
 	unsigned char len = NCODE(vm);
 	vm_exitframe_multi(vm, len);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index c56bd32..ee992bf 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -130,6 +130,8 @@ YASL_NORETURN void vm_throw_err(struct VM *const vm, int error);
 void vm_get_metatable(struct VM *const vm);
 void vm_stringify_top(struct VM *const vm);
 void vm_EQ(struct VM *const vm);
+void vm_EQ_now(struct VM *const vm);
+void vm_len_unop_now(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 2b43729..a5b8546 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -231,9 +231,14 @@ int list___eq(struct YASL_State *S) {
 	}
 
 	for (size_t i = 0; i < left->count; i++) {
+		if (i >= right->count) {
+			// the elements' own __eq may change the lists
+			YASL_pushbool(S, false);
+			return 1;
+		}
 		vm_push((struct VM *)S, left->items[i]);
 		vm_push((struct VM *)S, right->items[i]);
-		vm_EQ((struct VM *)S);
+		vm_EQ_now((struct VM *)S);
 		if (!YASL_popbool(S)) {
 			YASL_pushbool(S, false);
 			return 1;
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index b307bc4..88e935f 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -85,7 +85,7 @@ int table___eq(struct YASL_State *S) {
 		}
 		vm_push((struct VM *) S, item->value);
 		vm_push((struct VM *) S, search);
-		vm_EQ((struct VM *) S);
+		vm_EQ_now((struct VM *) S);
 		if (!YASL_popbool(S)) {
 			YASL_pushbool(S, false);
 			return 1;
diff --git a/yasl.c b/yasl.c
index 10e9802..4e8b6f6 100644
--- a/yasl.c
+++ b/yasl.c
@@ -420,7 +420,7 @@ void list___get_helper(struct YASL_State *S, struct YASL_List *ls, yasl_int inde
 void vm_len_unop(struct VM *const vm);
 
 void YASL_len(struct YASL_State *S) {
-	vm_len_unop(&S->vm);
+	vm_len_unop_now(&S->vm);
 }
 
 int YASL_listget(struct YASL_State *S, yasl_int n) {
-- 
2.43.0


From 2c5242c7b91c078fe49f75f0c9265ba612e292b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 29/68] fix: more than 16 live loops must not write past the
 loop frames

---
 interpreter/VM.c | 4 ++++
 interpreter/VM.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 886c94f..cde63d9 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1536,6 +1536,10 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	}
 	case O_INITFOR:
+		if (vm->loopframe_num + 1 >= NUM_LOOPFRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		inc_ref(&vm_peek(vm));
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index ee992bf..c5c7819 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,6 +16,7 @@
 
 
 #define NUM_FRAMES 1000
+#define NUM_LOOPFRAMES 1000
 #define NUM_TYPES (Y_USERDATA_W + 1)                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
@@ -99,7 +100,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_LOOPFRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
-- 
2.43.0


From 484ba0f256db930b11db5de463449d3f692bd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 30/68] fix: reserving slots for match bindings checks for
 stack overflow

---
 interpreter/VM.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index cde63d9..d417403 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1658,7 +1658,12 @@ void vm_executenext(struct VM *const vm) {
 		vm->sp -= NCODE(vm);
 		break;
 	case O_INCSP:
-		vm->sp += NCODE(vm);
+		c = NCODE(vm);
+		if (vm->sp + c >= STACK_SIZE) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
+		vm->sp += c;
 		break;
 	case O_ECHO:
 		vm_ECHO(vm);
-- 
2.43.0


From 35d956cc4883e5ada2f01c972a6105933b667fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 31/68] fix: a value that does not fit on the stack is not
 leaked

---
 interpreter/VM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index d417403..0de538f 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -188,6 +188,10 @@ void vm_throw_err(struct VM *const vm, int error) {
 
 void vm_push(struct VM *const vm, const struct YASL_Object val) {
 	if (vm->sp + 1 >= STACK_SIZE) {
+		// nothing else may own `val`, so let go of it before we leave.
+		struct YASL_Object tmp = val;
+		inc_ref(&tmp);
+		dec_ref(&tmp);
 		vm_print_err(vm, "StackOverflow.");
 		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
-- 
2.43.0


From faeb071d3d3495611e86fcf5f16ccbe0f94f9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 32/68] fix: an error leaves no call, loop or stack slot behind
 for the host to trip over

---
 interpreter/VM.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 0de538f..e57407e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1687,8 +1687,24 @@ void vm_executenext(struct VM *const vm) {
 	}
 }
 
+// Leaves every call and loop that an error cut short, and drops what they had on the stack.
+static void vm_unwind(struct VM *const vm, const int sp) {
+	vm_close_from(vm, vm->stack + sp + 1);
+	while (vm->loopframe_num >= 0) {
+		dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+	}
+	vm->frame_num = -1;
+	vm->fp = -1;
+	vm->next_fp = -1;
+	vm->sp = sp;
+}
+
 int vm_run(struct VM *const vm) {
+	const int sp = vm->sp;
 	if (setjmp(vm->buf)) {
+		if (vm->status != YASL_SUCCESS && vm->status != YASL_MODULE_SUCCESS) {
+			vm_unwind(vm, sp);
+		}
 		return vm->status;
 	}
 
-- 
2.43.0


From f95414612d355d1f7c4d6694dda19fd71cef6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 33/68] fix: tostr of a number does not leak its text when the
 stack is full

---
 interpreter/float_methods.c | 4 ++--
 interpreter/int_methods.c   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interpreter/float_methods.c b/interpreter/float_methods.c
index 873c2fe..aa4a0f5 100644
--- a/interpreter/float_methods.c
+++ b/interpreter/float_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_float.h"
+#include "VM.h"
 
 int float_toint(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.toint", 0);
@@ -28,7 +29,6 @@ int float_tofloat(struct YASL_State *S) {
 int float_tostr(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.tostr", 0);
 	const char *ptr = float64_to_str(val);
-	YASL_pushzstr(S, ptr);
-	free((void *)ptr);
+	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, strlen(ptr), ptr));
 	return 1;
 }
diff --git a/interpreter/int_methods.c b/interpreter/int_methods.c
index 559bd17..bab88c4 100644
--- a/interpreter/int_methods.c
+++ b/interpreter/int_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_include.h"
+#include "VM.h"
 
 int int_toint(struct YASL_State *S) {
 	yasl_int n = YASLX_checknint(S, "int.toint", 0);
@@ -29,7 +30,6 @@ int int_tostr(struct YASL_State *S) {
 	int len = snprintf(NULL, 0, "%" PRId64 "", n);
 	char *ptr = (char *)malloc(len + 1);
 	sprintf(ptr, "%" PRId64 "", n);
-	YASL_pushlstr(S, ptr, len);
-	free(ptr);
+	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, len, ptr));
 	return 1;
 }
-- 
2.43.0


From 81b74f372ec8701c3470b05658c58f1fc17c7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 34/68] fix: making a set from a list does not trust an
 overloaded len, nor leak when the stack is full

---
 std/yasl-std-collections.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index ba0bbd2..61556a2 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -14,21 +14,16 @@ static struct YASL_Set *YASLX_checknset(struct YASL_State *S, const char *name,
 }
 
 static int YASL_collections_set_fromlist(struct YASL_State *S) {
+	struct YASL_List *list = vm_peeklist((struct VM *) S);
 	struct YASL_Set *set = YASL_Set_new();
 
-	YASL_duptop(S);
-	YASL_len(S);
-	yasl_int len = YASL_popint(S);
-
-	for (yasl_int i = 0; i < len; i++) {
-		YASL_listget(S, i);
-		if (!YASL_Set_insert(set, vm_peek((struct VM *) S))) {
+	FOR_LIST(i, item, list) {
+		if (!YASL_Set_insert(set, item)) {
 			YASL_Set_del(set);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
-					  YASL_peektypename(S));
+					  obj_typename(&item));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
-		YASL_pop(S);
 	}
 
 	YASL_pushuserdata(S, set, SET_NAME, YASL_Set_del);
-- 
2.43.0


From 167a68c293af77df715e569a3f0384d54efb7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 35/68] fix: set tostr does not leak its text when the stack is
 full

---
 std/yasl-std-collections.c | 41 +++++++++-----------------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 61556a2..45616d4 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -1,6 +1,7 @@
 #include "yasl-std-collections.h"
 
 #include "data-structures/YASL_Set.h"
+#include "interpreter/list_methods.h"
 #include "yasl_state.h"
 #include "yasl_aux.h"
 
@@ -97,41 +98,17 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 static int YASL_collections_set_tostr(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".tostr", 0);
 
-	size_t string_count = 0;
-	size_t string_size = 8;
-	char *string = (char *)malloc(string_size);
-	string_count += strlen("set(");
-	memcpy(string, "set(", strlen("set("));
-	if (YASL_Set_length(set) == 0) {
-		string[string_count++] = ')';
-		YASL_pushlstr(S, string, string_count);
-		free(string);
-		return 1;
-	}
+	struct TostrBuffer *buffer = tostr_buffer_push(S);
+	bool first = true;
+	tostr_buffer_append_lit(buffer, "set(");
 	FOR_SET(i, item, set) {
+		if (!first) tostr_buffer_append_lit(buffer, ", ");
+		first = false;
 		vm_push((struct VM *)S, *item);
-		vm_stringify_top((struct VM *) S);
-		struct YASL_String *str = vm_popstr((struct VM *) S);
-		while (string_count + YASL_String_len(str) >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		memcpy(string + string_count, str->str + str->start, YASL_String_len(str));
-		string_count += YASL_String_len(str);
-
-		if (string_count + 2 >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		string[string_count++] = ',';
-		string[string_count++] = ' ';
+		tostr_buffer_append(S, buffer);
 	}
-
-	string_count -= 2;
-	string[string_count++] = ')';
-	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, string_count, string));
+	tostr_buffer_append_lit(buffer, ")");
+	YASL_pushlstr(S, (char *)buffer->bb.bytes, buffer->bb.count);
 	return 1;
 }
 
-- 
2.43.0


From 86161bd9217c7a1bb247c649f5dd2d0e57cb1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 36/68] fix: a vararg host function called with too few
 arguments gets undef for the missing ones

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index e57407e..6f90240 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1256,6 +1256,9 @@ static void vm_CALL_cfn(struct VM *const vm) {
 	vm->frames[vm->frame_num].pc = vm->pc;
 	struct CFunction *f = vm_peekcfn(vm, vm->fp);
 	if (f->num_args < 0) {
+		while (vm->sp - vm->fp < ~f->num_args) {
+			vm_pushundef(vm);
+		}
 		yasl_int diff = vm->sp - vm->fp - ~f->num_args;
 		YASL_VM_DEBUG_LOG("diff: %d\n", (int)diff);
 		vm_insert(vm, vm->fp + 1 + ~f->num_args, YASL_INT(diff));
-- 
2.43.0


From a022bccb35dff1e3ba3794f0c5bf52bbe0d5d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 37/68] fix: YASL_setmt with undef pops it and clears the
 metatable of the value below

---
 yasl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index 4e8b6f6..c41b5f9 100644
--- a/yasl.c
+++ b/yasl.c
@@ -230,7 +230,8 @@ int YASL_setmt(struct YASL_State *S) {
 		return YASL_TYPE_ERROR;
 	}
 
-	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_pop(&S->vm)) : NULL;
+	struct YASL_Object top = vm_pop(&S->vm);
+	struct RC_UserData *mt = obj_istable(&top) ? YASL_GETUSERDATA(top) : NULL;
 
 	if (!vm_isuserdata(&S->vm) && !vm_istable(&S->vm) && !vm_islist(&S->vm)) {
 		return YASL_TYPE_ERROR;
-- 
2.43.0


From 1fc26758ffcfda9be5fe8634ace76ceab2a64f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 38/68] fix: YASL_peeknuserdata and YASL_popuserdata of a value
 that is not userdata give NULL

---
 yasl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yasl.c b/yasl.c
index c41b5f9..534468d 100644
--- a/yasl.c
+++ b/yasl.c
@@ -607,12 +607,18 @@ char *YASL_popcstr(struct YASL_State *S) {
 	return tmp;
 }
 
+// lists and tables are represented as userdata as well
+static void *userdata_or_null(const struct YASL_Object *const v) {
+	return obj_isuserdata(v) || obj_islist(v) || obj_istable(v) ? YASL_GETUSERDATA(*v)->data : NULL;
+}
+
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
-	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
+	return userdata_or_null(vm_peek_p(&S->vm, S->vm.fp + 1 + n));
 }
 
 void *YASL_popuserdata(struct YASL_State *S) {
-	return YASL_GETUSERDATA(vm_pop(&S->vm))->data;
+	struct YASL_Object v = vm_pop(&S->vm);
+	return userdata_or_null(&v);
 }
 
 void *YASL_popuserptr(struct YASL_State *S) {
-- 
2.43.0


From b692d1e196c77fd3b51eaafc920121a5af3fd5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 39/68] fix: YASL_popbool, YASL_popint and YASL_popfloat pop
 whatever is on the top

---
 yasl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yasl.c b/yasl.c
index 534468d..1ac0365 100644
--- a/yasl.c
+++ b/yasl.c
@@ -542,6 +542,7 @@ bool YASL_popbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_popbool(&S->vm);
 	}
+	YASL_pop(S);
 	return false;
 }
 
@@ -564,6 +565,7 @@ yasl_float YASL_popfloat(struct YASL_State *S) {
 	if (YASL_isfloat(S)) {
 		return vm_popfloat(&S->vm);
 	}
+	YASL_pop(S);
 	return 0.0;
 }
 
@@ -586,6 +588,7 @@ yasl_int YASL_popint(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		return vm_popint(&S->vm);
 	}
+	YASL_pop(S);
 	return 0;
 }
 
-- 
2.43.0


From fbef9fd2bede98a455be5929558e09cffa608186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 40/68] fix: slicing and walking a string that does not start
 at the beginning of its buffer

---
 interpreter/VM.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 6f90240..c259698 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -709,7 +709,10 @@ static void vm_SLICE_str(struct VM *const vm){
 
 	struct YASL_String *str = vm_popstr(vm);
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	if (start > len) start = len;
+	if (end < start) end = start;
+
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
@@ -907,7 +910,7 @@ static void vm_ITER_1(struct VM *const vm) {
 		if (YASL_String_len(str) <= (size_t) frame->iter) {
 			vm_pushbool(vm, false);
 		} else {
-			size_t i = (size_t) frame->iter;
+			size_t i = str->start + (size_t) frame->iter;
 			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
-- 
2.43.0


From 9080d8b89edc5a9124ab1a7c7ed80ef202b5689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 41/68] fix: line numbers of errors in code of another module
 or of an earlier execution

---
 interpreter/VM.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index c259698..0b3e610 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -136,12 +136,23 @@ static void vm_exitframe(struct VM *const vm);
 void vm_close_all(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
+// The code being executed isn't always `vm->code`, functions from modules keep running in the code of their module.
+static unsigned char *vm_getcurrcode(struct VM *vm) {
+	for (size_t i = 0; i < vm->headers_size; i++) {
+		unsigned char *code = vm->headers[i];
+		if (code && code <= vm->pc && vm->pc <= code + ((int64_t *)code)[1]) return code;
+	}
+	return NULL;
+}
+
 static size_t vm_getcurrline(struct VM *vm) {
-	size_t start = ((int64_t *)vm->code)[0];
-	size_t line_start = ((int64_t *)vm->code)[1];
-	const unsigned char *tmp = vm->code + line_start;
+	unsigned char *code = vm_getcurrcode(vm);
+	if (!code) return 0;
+	size_t start = ((int64_t *)code)[0];
+	size_t line_start = ((int64_t *)code)[1];
+	const unsigned char *tmp = code + line_start;
 	long unsigned i = 0;
-	while (vint_decode(tmp) < vm->pc - vm->code - start) {
+	while (vint_decode(tmp) < vm->pc - code - start) {
 		tmp = vint_next(tmp);
 		i++;
 	}
-- 
2.43.0


From af6af4eade390a56aad38012b84cc0375eabaf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 42/68] fix: a global that is declared but not yet set is undef

---
 interpreter/VM.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 0b3e610..f8c0311 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1143,9 +1143,10 @@ static void vm_GSTORE_8(struct VM *const vm) {
 static void vm_GLOAD_8(struct VM *const vm) {
 	yasl_int addr = vm_read_int(vm);
 
-	vm_push(vm, YASL_Table_search(vm->globals, vm->constants[addr]));
-
-	YASL_ASSERT(vm_peek(vm).type != Y_END, "global not found");
+	struct YASL_Object value = YASL_Table_search(vm->globals, vm->constants[addr]);
+	// declared, but nothing has been stored in it yet.
+	if (value.type == Y_END) value = YASL_UNDEF();
+	vm_push(vm, value);
 }
 
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
-- 
2.43.0


From 32d5150af555f644bce02a50c551e00069faeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 43/68] fix: executing again leaks the constants of the
 previous execution

---
 interpreter/VM.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index f8c0311..11b8bbd 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -75,6 +75,13 @@ void vm_init(struct VM *const vm,
 
 static void vm_close_from(struct VM *const vm, struct YASL_Object *const end);
 
+static void vm_delconstants(struct VM *const vm) {
+	for (int64_t i = 0; i < vm->num_constants; i++) {
+		dec_ref(vm->constants + i);
+	}
+	free(vm->constants);
+}
+
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
 	vm_close_from(vm, vm->stack);
@@ -90,10 +97,7 @@ void vm_cleanup(struct VM *const vm) {
 	}
 	free(vm->stack);
 
-	for (int64_t i = 0; i < vm->num_constants; i++) {
-		dec_ref(vm->constants + i);
-	}
-	free(vm->constants);
+	vm_delconstants(vm);
 
 	for (size_t i = 0; i < vm->headers_size; i++) {
 		free(vm->headers[i]);
@@ -1363,6 +1367,7 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	vm_delconstants(vm);
 	vm->num_constants = ((int64_t *)vm->code)[2];
 	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
-- 
2.43.0


From 32a2113f605d96c99ae846715b73587998c23195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 44/68] fix: scope_del frees the parent twice

---
 compiler/env.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/compiler/env.c b/compiler/env.c
index b648ba0..cacc094 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -50,7 +50,6 @@ struct Scope *scope_new(struct Scope *const parent) {
 void scope_del(struct Scope *const scope) {
 	if (scope == NULL) return;
 	scope_del(scope->parent);
-	free(scope->parent);
 	scope_del_current_only(scope);
 }
 
-- 
2.43.0


From c658b5f751c72a2640837b743a6a1f6005b8a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:10 +0000
Subject: [PATCH 45/68] fix: YASL_resetstate leaves rejected source behind, and
 code still in use is freed or leaked

---
 compiler/compiler.c | 29 +++++++++++++++++++++++++++++
 compiler/compiler.h |  1 +
 yasl.c              | 44 +++++++++++++++++++++-----------------------
 3 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 47114f0..b626080 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -56,6 +56,35 @@ void compiler_cleanup(struct Compiler *const compiler) {
 	free(compiler->loop_locals.items);
 }
 
+void compiler_reset(struct Compiler *const compiler, struct LEXINPUT *const lp) {
+	struct IO err = compiler->parser.lex.err;
+	free(compiler->parser.lex.value);
+	lex_cleanup(&compiler->parser.lex);
+	compiler->parser.lex = NEW_LEXER(lp);
+	// Keep reporting errors to wherever they were reported so far.
+	compiler->parser.lex.err.print = err.print;
+	compiler->parser.lex.err.file = err.file;
+	compiler->parser.status = YASL_SUCCESS;
+	compiler->status = YASL_SUCCESS;
+
+	// Rejected source leaves us in the middle of whatever we were compiling.
+	scope_del(compiler->stack);
+	compiler->stack = NULL;
+	env_del(compiler->params);
+	compiler->params = NULL;
+	compiler->expected_returns = 1;
+	compiler->leftmost_pattern = true;
+	DEL_TABLE(&compiler->seen_bindings);
+	compiler->seen_bindings = NEW_TABLE();
+	compiler->checkpoints.count = 0;
+	compiler->loop_locals.count = 0;
+
+	compiler->buffer->count = 0;
+	compiler->code->count = 0;
+	compiler->lines->count = 0;
+	compiler->line = 0;
+}
+
 static void handle_error(struct Compiler *const compiler) {
 	compiler->status = YASL_SYNTAX_ERROR;
 }
diff --git a/compiler/compiler.h b/compiler/compiler.h
index 38fbf7b..ac59f7a 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -66,6 +66,7 @@ struct Compiler *compiler_new(FILE *const fp);
 struct Compiler *compiler_new_bb(const char *const buf, const size_t len);
 yasl_int compiler_intern_string(struct Compiler *const compiler, const char *const str, const size_t len);
 void compiler_cleanup(struct Compiler *const compiler);
+void compiler_reset(struct Compiler *const compiler, struct LEXINPUT *const lp /* OWN */);
 unsigned char *compile(struct Compiler *const compiler);
 unsigned char *compile_REPL(struct Compiler *const compiler);
 
diff --git a/yasl.c b/yasl.c
index 1ac0365..11999ea 100644
--- a/yasl.c
+++ b/yasl.c
@@ -84,14 +84,7 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 
 	fseek(fp, 0, SEEK_SET);
 
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
-	free(S->compiler.parser.lex.value);
-	lex_cleanup(&S->compiler.parser.lex);
-
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
+	compiler_reset(&S->compiler, lexinput_new_file(fp));
 
 	return YASL_SUCCESS;
 }
@@ -106,19 +99,16 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 	S->compiler.num = 0;
 
 	vm_init((struct VM *) S, NULL, -1, 1);
+
+	YASL_declglobal(S, "__VERSION__");
+	YASL_pushlit(S, YASL_VERSION);
+	YASL_setglobal(S, "__VERSION__");
+
 	return S;
 }
 
 int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
-	free(S->compiler.parser.lex.value);
-	lex_cleanup(&S->compiler.parser.lex);
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
-	S->vm.code = NULL;
+	compiler_reset(&S->compiler, lexinput_new_bb(buf, len));
 
 	return YASL_SUCCESS;
 }
@@ -132,6 +122,18 @@ int YASL_delstate(struct YASL_State *S) {
 	return YASL_SUCCESS;
 }
 
+// Functions from code that has been executed before may still be around, so we keep that code until the state is deleted.
+static void install_bytecode(struct YASL_State *S, unsigned char *bc, int64_t entry_point) {
+	struct VM *vm = &S->vm;
+	if (vm->headers[S->compiler.num]) {
+		vm->headers = (unsigned char **) realloc(vm->headers, (vm->headers_size + 1) * sizeof(unsigned char *));
+		vm->headers[vm->headers_size++] = vm->headers[S->compiler.num];
+	}
+	vm->pc = bc + entry_point;
+	vm->code = bc;
+	vm->headers[S->compiler.num] = bc;
+}
+
 int YASL_execute_REPL(struct YASL_State *S) {
 	unsigned char *bc = compile_REPL(&S->compiler);
 	if (!bc) return S->compiler.status;
@@ -140,9 +142,7 @@ int YASL_execute_REPL(struct YASL_State *S) {
 	// TODO: use this in VM.
 	// int64_t num_globals = *((int64_t*)bc+1);
 
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	install_bytecode(S, bc, entry_point);
 
 	return vm_run((struct VM *)S);  // TODO: error handling for runtime errors.
 }
@@ -161,9 +161,7 @@ int YASL_execute(struct YASL_State *S) {
 	// TODO: use this in VM.
 	// int64_t num_globals = *((int64_t*)bc+1);
 
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	install_bytecode(S, bc, entry_point);
 
 	return vm_run((struct VM *) S);  // TODO: error handling for runtime errors.
 }
-- 
2.43.0


From f3294c1810ebaad6c21135362d5f65a4efe74a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:10 +0000
Subject: [PATCH 46/68] fix: a rejected REPL entry leaves its declarations
 behind

fix: a rejected REPL entry leaves its declarations behind
---
 compiler/compiler.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index b626080..99d1a3c 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -285,13 +285,13 @@ static int contains_var_in_current_scope(const struct Compiler *const compiler,
 	       scope_contains_cur_only(compiler->params->scope, name) :
 	       compiler->stack ?
 	       scope_contains_cur_only(compiler->stack, name) :
-	       scope_contains_cur_only(compiler->globals, name);
+	       scope_contains(compiler->globals, name);
 }
 
 static int contains_var(const struct Compiler *const compiler, const char *const name) {
 	if (scope_contains(compiler->stack, name)) return true;
 	if (env_contains(compiler->params, name)) return true;
-	return scope_contains_cur_only(compiler->globals, name);
+	return scope_contains(compiler->globals, name);
 }
 
 static void decl_var(struct Compiler *const compiler, const char *const name, const size_t line) {
@@ -382,24 +382,44 @@ unsigned char *compile(struct Compiler *const compiler) {
 	return return_bytes(compiler);
 }
 
+// What rejected source declares must not stay declared.
+static void globals_commit(struct Compiler *const compiler, const bool keep) {
+	struct Scope *added = compiler->globals;
+	compiler->globals = added->parent;
+	if (!keep) {
+		scope_del_current_only(added);
+		return;
+	}
+	FOR_TABLE(i, item, &added->vars) {
+		// the name moves, so we don't delete it here.
+		YASL_Table_insert_fast(&compiler->globals->vars, item->key, item->value);
+	}
+	free(added->vars.items);
+	free(added);
+}
+
 unsigned char *compile_REPL(struct Compiler *const compiler) {
 	struct Node *node;
+	compiler->globals = scope_new(compiler->globals);
 	gettok(&compiler->parser.lex);
 	while (!peof(&compiler->parser)) {
 		if (peof(&compiler->parser)) break;
 		node = parse(&compiler->parser);
-		eattok(&compiler->parser, T_SEMI);
-		compiler->status |= compiler->parser.status;
 		if (!compiler->parser.status) {
-			if (peof(&compiler->parser) && node->nodetype == N_EXPRSTMT) {
-				node->nodetype = N_ECHO;
-			}
-			visit(compiler, node);
-			YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
-			compiler->buffer->count = 0;
+			eattok(&compiler->parser, T_SEMI);
+		}
+		compiler->status |= compiler->parser.status;
+		if (compiler->parser.status) break;
+		if (peof(&compiler->parser) && node->nodetype == N_EXPRSTMT) {
+			node->nodetype = N_ECHO;
 		}
+		visit(compiler, node);
+		YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
+		compiler->buffer->count = 0;
 	}
 
+	globals_commit(compiler, !compiler->status);
+
 	return return_bytes(compiler);
 }
 
-- 
2.43.0


From 77a0c1bbf178af2f642674624853ab55e676815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 47/68] fix: source that could not be read to its end is run as
 if it were complete

---
 compiler/compiler.c | 10 ++++++++++
 compiler/lexinput.c | 24 ++++++++++++++++++++++--
 compiler/lexinput.h |  1 +
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 99d1a3c..8bca3e3 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -357,6 +357,14 @@ static unsigned char *return_bytes(const struct Compiler *const compiler) {
 	return bytecode;
 }
 
+// What we've seen of source that couldn't be read to its end must not be mistaken for the whole of it.
+static void check_source_read(struct Compiler *const compiler) {
+	if (lxerror(compiler->parser.lex.file)) {
+		compiler_print_err(compiler, "Error: could not read source (line %" PRI_SIZET ").\n", compiler->parser.lex.line);
+		compiler->status = YASL_ERROR;
+	}
+}
+
 unsigned char *compile(struct Compiler *const compiler) {
 	struct Node *node;
 	gettok(&compiler->parser.lex);
@@ -378,6 +386,7 @@ unsigned char *compile(struct Compiler *const compiler) {
 		compiler->buffer->count = 0;
 	}
 	exit_scope(compiler);
+	check_source_read(compiler);
 
 	return return_bytes(compiler);
 }
@@ -418,6 +427,7 @@ unsigned char *compile_REPL(struct Compiler *const compiler) {
 		compiler->buffer->count = 0;
 	}
 
+	check_source_read(compiler);
 	globals_commit(compiler, !compiler->status);
 
 	return return_bytes(compiler);
diff --git a/compiler/lexinput.c b/compiler/lexinput.c
index 89eea11..058eaab 100644
--- a/compiler/lexinput.c
+++ b/compiler/lexinput.c
@@ -9,11 +9,13 @@ struct LEXINPUT {
   struct YASL_ByteBuffer *bb;
   int pos;
   int iseof;
+  int iserr;
   int (*getc)(struct LEXINPUT *const lp);
   int (*tell)(struct LEXINPUT *const lp);
   int (*seek)(struct LEXINPUT *const lp, int w, int cmd);
   int (*close)(struct LEXINPUT *const lp);
   int (*eof)(struct LEXINPUT *const lp);
+  int (*error)(struct LEXINPUT *const lp);
 };
 
 
@@ -40,6 +42,10 @@ int lxeof(struct LEXINPUT *const lp) {
 	return lp->eof(lp);
 }
 
+int lxerror(struct LEXINPUT *const lp) {
+	return lp->error(lp);
+}
+
 static  int lexinput_file_getc(struct LEXINPUT *const lp) {
 	return fgetc(lp->fp);
 }
@@ -49,11 +55,17 @@ static  int lexinput_file_tell(struct LEXINPUT *const lp) {
 }
 
 static  int lexinput_file_seek(struct LEXINPUT *const lp, int w, int cmd) {
-	return fseek(lp->fp, w, cmd);
+	int r = fseek(lp->fp, w, cmd);
+	if (r) lp->iserr = 1;
+	return r;
 }
 
 static  int lexinput_file_eof(struct LEXINPUT *const lp) {
-	return feof(lp->fp);
+	return feof(lp->fp) || lp->error(lp);
+}
+
+static  int lexinput_file_error(struct LEXINPUT *const lp) {
+	return ferror(lp->fp) || lp->iserr;
 }
 
 static  int lexinput_file_close(struct LEXINPUT *const lp) {
@@ -71,6 +83,8 @@ struct LEXINPUT *lexinput_new_file(FILE *const fp) {
 	lp->seek = lexinput_file_seek;
 	lp->close = lexinput_file_close;
 	lp->eof = lexinput_file_eof;
+	lp->error = lexinput_file_error;
+	lp->iserr = 0;
 	return lp;
 }
 
@@ -108,6 +122,11 @@ static  int lexinput_bb_eof(struct LEXINPUT *const lp) {
 	return 0;
 }
 
+static  int lexinput_bb_error(struct LEXINPUT *const lp) {
+	(void) lp;
+	return 0;
+}
+
 static  int lexinput_bb_close(struct LEXINPUT *const lp) {
 	YASL_ByteBuffer_del(lp->bb);
 	lp->bb = 0;
@@ -124,6 +143,7 @@ struct LEXINPUT *lexinput_new_bb(const char *const buf, const size_t len) {
 	lp->seek = lexinput_bb_seek;
 	lp->close = lexinput_bb_close;
 	lp->eof = lexinput_bb_eof;
+	lp->error = lexinput_bb_error;
 	lp->iseof = 0;
 	lp->pos = 0;
 	return lp;
diff --git a/compiler/lexinput.h b/compiler/lexinput.h
index 4e1e0af..3061c53 100644
--- a/compiler/lexinput.h
+++ b/compiler/lexinput.h
@@ -11,5 +11,6 @@ int lxtell(struct LEXINPUT *const lp);
 int lxseek(struct LEXINPUT *const lp, const int w, const int cmd);
 int lxclose(struct LEXINPUT *const lp);
 int lxeof(struct LEXINPUT *const lp);
+int lxerror(struct LEXINPUT *const lp);
 
 #endif
-- 
2.43.0


From 7eb51dd29b3decc687bc7fb346830e3c8132cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 48/68] fix: an execution leaves its top-level variables on the
 stack of the next one

---
 interpreter/VM.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 11b8bbd..b2d7410 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1725,7 +1725,8 @@ static void vm_unwind(struct VM *const vm, const int sp) {
 int vm_run(struct VM *const vm) {
 	const int sp = vm->sp;
 	if (setjmp(vm->buf)) {
-		if (vm->status != YASL_SUCCESS && vm->status != YASL_MODULE_SUCCESS) {
+		// a module leaves what it exports on top of the stack, anything else leaves nothing behind.
+		if (vm->status != YASL_MODULE_SUCCESS) {
 			vm_unwind(vm, sp);
 		}
 		return vm->status;
-- 
2.43.0


From d60e9d31f0c9037337c18697bac5e1291801e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 49/68] fix: the REPL never ends when its input does

---
 main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 0d900ca..118445e 100644
--- a/main.c
+++ b/main.c
@@ -132,7 +132,7 @@ static int main_command(int argc, char **argv) {
 static int main_REPL(int argc, char **argv) {
 	(void) argc;
 	(void) argv;
-	int next;
+	int next = 0;
 	struct YASL_ByteBuffer *buffer = YASL_ByteBuffer_new(8);
 	struct YASL_State *S = YASL_newstate_bb((const char *)buffer->bytes, 0);
 	YASLX_decllibs(S);
@@ -141,9 +141,9 @@ static int main_REPL(int argc, char **argv) {
 	YASL_setglobal(S, "quit");
 	puts(YASL_LOGO);
 	puts(VERSION_PRINTOUT);
-	while (true) {
+	while (next != EOF) {
 		printf("yasl> ");
-		while ((next = getchar()) != '\n') {
+		while ((next = getchar()) != '\n' && next != EOF) {
 			YASL_ByteBuffer_add_byte(buffer, next);
 		}
 		YASL_ByteBuffer_add_byte(buffer, '\n');
-- 
2.43.0


From 37fc177ed928001bda9f2232c03263069e43a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 50/68] fix: modules miss __VERSION__, replace the importer's
 tables, and print past its output

---
 std/yasl-std-require.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 5166a42..3750f68 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -34,6 +34,15 @@ static struct YASL_State *open_on_path(const char *path, const char *name, const
 	return YASL_newstate_num(name, num);
 }
 
+// Adds what's only in `src`. Whatever is in `dest` already belongs to the importer, and isn't ours to replace.
+static void add_missing(struct YASL_Table *const dest, const struct YASL_Table *const src) {
+	FOR_TABLE(i, item, src) {
+		if (YASL_Table_search(dest, item->key).type == Y_END) {
+			YASL_Table_insert_fast(dest, item->key, item->value);
+		}
+	}
+}
+
 int YASL_require(struct YASL_State *S) {
 	if (!YASL_isstr(S)) {
 		// TODO error message
@@ -55,26 +64,41 @@ int YASL_require(struct YASL_State *S) {
 	Ss->compiler.strings = S->compiler.strings;
 	YASL_ByteBuffer_del(Ss->compiler.header);
 	Ss->compiler.header = S->compiler.header;
-	YASL_Table_del(Ss->vm.globals);
-	Ss->vm.globals = S->vm.globals;
 	// Ss->vm.constants = S->vm.constants;
 
 	// Load Standard Libraries
 	YASLX_decllibs(Ss);
+	YASL_pushlit(Ss, YASL_VERSION);
+	YASLX_initglobal(Ss, "__VERSION__");
 
+	add_missing(S->vm.globals, Ss->vm.globals);
+	YASL_Table_del(Ss->vm.globals);
+	Ss->vm.globals = S->vm.globals;
+	add_missing(S->vm.metatables, Ss->vm.metatables);
 	YASL_Table_del(Ss->vm.metatables);
 	Ss->vm.metatables = S->vm.metatables;
 
+	// What the module prints goes wherever the importer's output goes.
+	Ss->vm.out = S->vm.out;
+	Ss->vm.err = S->vm.err;
+	Ss->compiler.parser.lex.err = S->vm.err;
+
 	int status = YASL_execute(Ss);
 
+	S->vm.out = Ss->vm.out;
+	S->vm.err = Ss->compiler.status ? Ss->compiler.parser.lex.err : Ss->vm.err;
+	Ss->vm.out.string = NULL;
+	Ss->vm.err.string = NULL;
+	Ss->compiler.parser.lex.err.string = NULL;
+
 	if (status != YASL_MODULE_SUCCESS) {
-		puts("Not a valid module");
 		// What belongs to S must survive the failed module.
 		Ss->vm.globals = NULL;
 		Ss->vm.metatables = NULL;
 		Ss->compiler.strings = NULL;
 		Ss->compiler.header = YASL_ByteBuffer_new(0);
 		YASL_delstate(Ss);
+		YASL_print_err(S, "%s is not a valid module.", mode_str);
 		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
-- 
2.43.0


From 69af8d14af6402735caccb730e590da2fc2af956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 51/68] fix: a match in which nothing matches leaves its value
 on the stack

---
 compiler/compiler.c | 25 +++++++++++++++++++------
 compiler/compiler.h |  2 ++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 8bca3e3..2510627 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -74,6 +74,7 @@ void compiler_reset(struct Compiler *const compiler, struct LEXINPUT *const lp)
 	compiler->params = NULL;
 	compiler->expected_returns = 1;
 	compiler->leftmost_pattern = true;
+	compiler->at_end = false;
 	DEL_TABLE(&compiler->seen_bindings);
 	compiler->seen_bindings = NEW_TABLE();
 	compiler->checkpoints.count = 0;
@@ -381,6 +382,7 @@ unsigned char *compile(struct Compiler *const compiler) {
 			compiler->status |= compiler->parser.status;
 			return NULL;
 		}
+		compiler->at_end = peof(&compiler->parser) && node->nodetype == N_MATCH;
 		visit(compiler, node);
 		YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
 		compiler->buffer->count = 0;
@@ -1048,7 +1050,7 @@ static void visit_TableTypePattern(struct Compiler *const compiler, const struct
 	compiler_add_byte(compiler, P_TYPE_TABLE);
 }
 
-static void visit_Match_helper(struct Compiler *const compiler, const struct Node *const patterns, const struct Node *const guards, const struct Node *const bodies, size_t curr) {
+static void visit_Match_helper(struct Compiler *const compiler, const struct Node *const patterns, const struct Node *const guards, const struct Node *const bodies, size_t curr, const bool at_end) {
 	compiler_add_byte(compiler, O_MATCH);
 	size_t start = compiler->buffer->count;
 	compiler_add_int(compiler, 0);
@@ -1091,22 +1093,31 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	exit_scope(compiler);
 
 	curr++;
+	// When nothing matches, the value we're matching on is still on the stack, unless that's the end of the program
+	// anyway, we have to get rid of it.
+	const bool last = patterns->children_len <= curr;
+	const bool needs_jump = !last || !at_end;
 	size_t body_end = 0;
-	if (patterns->children_len > curr) {
+	if (needs_jump) {
 		enter_jump(compiler, &body_end);
 	}
 
 	if (guard) {
 		YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start_guard, compiler->buffer->count - start_guard - 8);
-		if (bindings) {
+		if (bindings && needs_jump) {
 			for (unsigned char i = bindings; i > 0; i--)
 			compiler_add_byte(compiler, O_POP);
 		}
 	}
 	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start, compiler->buffer->count - start - 8);
 
-	if (patterns->children_len > curr) {
-		visit_Match_helper(compiler, patterns, guards, bodies, curr);
+	if (!last) {
+		visit_Match_helper(compiler, patterns, guards, bodies, curr, at_end);
+	} else if (needs_jump) {
+		compiler_add_byte(compiler, O_POP);
+	}
+
+	if (needs_jump) {
 		exit_jump(compiler, &body_end);
 	}
 }
@@ -1116,13 +1127,15 @@ static void visit_Match(struct Compiler *const compiler, const struct Node *cons
 	struct Node *patterns = Match_get_patterns(node);
 	struct Node *guards = Match_get_guards(node);
 	struct Node *bodies = Match_get_bodies(node);
+	const bool at_end = compiler->at_end;
+	compiler->at_end = false;
 	visit(compiler, expr);
 	if (patterns->children_len == 0) {
 		compiler_add_byte(compiler, O_POP);
 		return;
 	}
 
-	visit_Match_helper(compiler, patterns, guards, bodies, 0);
+	visit_Match_helper(compiler, patterns, guards, bodies, 0, at_end);
 }
 
 static void visit_If_true(struct Compiler *const compiler, const struct Node *const then_br, const struct Node *const else_br) {
diff --git a/compiler/compiler.h b/compiler/compiler.h
index ac59f7a..7cfd27d 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -23,6 +23,7 @@
 	.params = NULL,\
 	.expected_returns = 1,\
 	.leftmost_pattern = true,\
+	.at_end = false,\
 	.seen_bindings = NEW_TABLE(),\
 	.strings = YASL_Table_new(),\
 	.buffer = YASL_ByteBuffer_new(16),\
@@ -49,6 +50,7 @@ struct Compiler {
 	struct Env *params;
 	int expected_returns;
 	bool leftmost_pattern;
+	bool at_end;                      // visiting the last statement of a program
 	struct YASL_Table seen_bindings;
 	struct YASL_Table *strings;
 	struct YASL_ByteBuffer *buffer;    // temporary buffer during code-gen
-- 
2.43.0


From 57f8418456e7b052aeaa3f0e46d48ba8cdae2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 52/68] fix: an expression as the last clause of a for loop
 pops the stack twice

---
 compiler/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 84b5f31..52efe8d 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -532,10 +532,11 @@ static struct Node *parse_for(struct Parser *const parser) {
 		struct Node *cond = parse_expr(parser);
 		eattok(parser, T_SEMI);
 		struct Node *post = parse_assign_or_exprstmt(parser);
+		if (post->nodetype != N_EXPRSTMT) post = new_ExprStmt(parser, post, line);
 		struct Node *body = parse_body(parser);
 		struct Node *outer_body = new_Body(parser, line);
 		body_append(parser, &outer_body, iter);
-		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), new_ExprStmt(parser, post, line), line));
+		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), post, line));
 		struct Node *block = new_Block(parser, outer_body, line);
 		return block;
 	}
-- 
2.43.0


From 4b2eae957ef483e7f5addffd659bbcca0915db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 53/68] fix: an invalid token in a pattern reads outside of the
 token names

---
 compiler/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/parser.c b/compiler/parser.c
index 52efe8d..f9045f0 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -439,6 +439,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
+			if (curtok(parser) == T_UNKNOWN) handle_error(parser);
 			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", YASL_TOKEN_NAMES[curtok(parser)]);
 			handle_error(parser);
 		}
@@ -583,6 +584,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->value.dval *= -1;
 			return n;
 		} else {
+			if (curtok(parser) == T_UNKNOWN) handle_error(parser);
 			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
@@ -624,6 +626,8 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		}
 		return n;
 	}
+	case T_UNKNOWN:
+		handle_error(parser);
 	default:
 		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 		handle_error(parser);
@@ -780,6 +784,7 @@ static struct Node *parse_if(struct Parser *const parser) {
 		struct Node *else_block = parse_body(parser);
 		return new_If(parser, cond, new_Block(parser, then_block, line), new_Block(parser, else_block, else_line), line);
 	}
+	if (curtok(parser) == T_UNKNOWN) handle_error(parser);
 	parser_print_err_syntax(parser, "Expected newline, got `%s`.\n", YASL_TOKEN_NAMES[curtok(parser)]);
 	handle_error(parser);
 }
-- 
2.43.0


From 8467cb17658eb22f88f190a11f5c13b5f330699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 54/68] fix: a source that fails after a newline is never
 rejected

---
 compiler/lexer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..4b0d8d8 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -483,6 +483,7 @@ void gettok(struct Lexer *const lex) {
 
 	// EOF
 	if (lxeof(lex->file)) {
+		lex->c = EOF;  // might have failed in the middle of the source.
 		lex->type = T_EOF;
 		lex->value = NULL;
 		return;
-- 
2.43.0


From abd8c10f356557b7f298a7dff5c7e5a0a28ba53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 55/68] fix: modules that require each other in a circle
 overflow the C stack

---
 std/yasl-std-require.c | 11 +++++++++++
 yasl.c                 |  3 +++
 yasl_state.h           |  1 +
 3 files changed, 15 insertions(+)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 3750f68..6dc1bae 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -7,6 +7,9 @@
 
 #define LOAD_LIB_FUN_NAME "YASL_load_dyn_lib"
 
+// Each module that's being loaded takes up some of the C stack.
+#define MAX_MODULE_DEPTH 200
+
 struct YASL_State *YASL_newstate_num(const char *filename, size_t num);
 
 // TODO: rewrite this whole fucking mess. I'm not even sure if it works properly honestly.
@@ -52,6 +55,12 @@ int YASL_require(struct YASL_State *S) {
 	char *mode_str = YASL_peekcstr(S);
 	YASL_pop(S);
 
+	if (S->module_depth >= MAX_MODULE_DEPTH) {
+		YASL_print_err(S, "could not load package %s: too many nested modules.", mode_str);
+		free(mode_str);
+		YASL_throw_err(S, YASL_ERROR);
+	}
+
 	struct YASL_State *Ss = open_on_path(YASL_DEFAULT_PATH, mode_str, YASL_PATH_MARK, YASL_PATH_SEP, S->vm.headers_size);
 
 	if (!Ss) {
@@ -60,6 +69,8 @@ int YASL_require(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
+	Ss->module_depth = S->module_depth + 1;
+
 	YASL_Table_del(Ss->compiler.strings);
 	Ss->compiler.strings = S->compiler.strings;
 	YASL_ByteBuffer_del(Ss->compiler.header);
diff --git a/yasl.c b/yasl.c
index 11999ea..fd62a17 100644
--- a/yasl.c
+++ b/yasl.c
@@ -25,6 +25,7 @@ struct YASL_State *YASL_newstate_num(const char *filename, size_t num) {
 	S->compiler = tcomp;
 	S->compiler.num = num;
 	S->compiler.header->count = 24;
+	S->module_depth = 0;
 
 	vm_init((struct VM *)S, NULL, -1, num + 1);
 	return S;
@@ -44,6 +45,7 @@ struct YASL_State *YASL_newstate(const char *filename) {
 	struct Compiler tcomp = NEW_COMPILER(lp);
 	S->compiler = tcomp;
 	S->compiler.header->count = 24;
+	S->module_depth = 0;
 	S->compiler.num = 0;
 
 	vm_init((struct VM *) S, NULL, -1, 1);
@@ -96,6 +98,7 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 	struct Compiler tcomp = NEW_COMPILER(lp);
 	S->compiler = tcomp;
 	S->compiler.header->count = 24;
+	S->module_depth = 0;
 	S->compiler.num = 0;
 
 	vm_init((struct VM *) S, NULL, -1, 1);
diff --git a/yasl_state.h b/yasl_state.h
index b741acb..9b1bba0 100644
--- a/yasl_state.h
+++ b/yasl_state.h
@@ -8,6 +8,7 @@
 struct YASL_State {
     struct VM vm;
     struct Compiler compiler;
+    size_t module_depth;  // how many modules are waiting for this one to be loaded
 };
 
 #endif
-- 
2.43.0


From 0d3bd0f29e8ba63e73c8b320097350af8a4f0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 56/68] fix: __require_c__ leaks the name of the library

---
 std/yasl-std-require.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 6dc1bae..71e2802 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -204,8 +204,10 @@ int YASL_require_c(struct YASL_State *S) {
 	void *lib = search_on_path(YASL_DEFAULT_CPATH, path, YASL_PATH_MARK, YASL_PATH_SEP);
 	if (!lib) {
 	    vm_print_err_value((struct VM *)S, "couldn't open shared library: %s.\n", path);
+	    free(path);
 	    YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
+	free(path);
 	YASL_cfn fun = (YASL_cfn)GetProcAddress(lib, LOAD_LIB_FUN_NAME);
 	if (!fun) {
 	    vm_print_err_value((struct VM *)S, "couldn't load function: %s.\n", LOAD_LIB_FUN_NAME);
@@ -217,6 +219,7 @@ int YASL_require_c(struct YASL_State *S) {
 	fun(S);
 #elif defined(YASL_USE_UNIX) || defined(YASL_USE_APPLE)
 	void *lib = search_on_path(YASL_DEFAULT_CPATH, path, YASL_PATH_MARK, YASL_PATH_SEP);
+	free(path);
 	if (!lib) {
 		vm_print_err_value((struct VM *) S, "%s\n", dlerror());
 		YASL_throw_err(S, YASL_VALUE_ERROR);
@@ -228,7 +231,7 @@ int YASL_require_c(struct YASL_State *S) {
 	}
 	fun(S);
 #else
-	(void) path;
+	free(path);
 	YASL_throw_err(S, YASL_PLATFORM_NOT_SUPP);
 #endif
 	return 1;
-- 
2.43.0


From 29b6f2930004847bd91b6aece6aea771a95b8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 57/68] fix: sorting a list with many equal elements takes
 quadratic time and deep recursion

---
 interpreter/list_methods.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index a5b8546..66bc9f7 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -383,6 +383,20 @@ void sort(struct YASL_Object *list, const size_t len) {
 	}
 	if (seenDifferent == 0) return;
 
+	// Nothing goes to the left of mid: split off everything that's equal to it instead, so that what's left to sort
+	// always gets shorter.
+	if (ltCount == 0) {
+		size_t eqCount = 0;
+		for (size_t i = 0; i < len; i++) {
+			if (yasl_object_cmp(list[i], mid) != 0) continue;
+			tmpObj = list[i];
+			list[i] = list[eqCount];
+			list[eqCount++] = tmpObj;
+		}
+		sort(&list[eqCount], len - eqCount);
+		return;
+	}
+
 	// Ensure all items are on the correct side of mid
 	while (left < right) {
 		while (yasl_object_cmp(list[left], mid) < 0) left++;
-- 
2.43.0


From 9da950982a10655946b7d7081ae532497b1b0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 58/68] fix: sort compares large ints as floats

---
 interpreter/YASL_Object.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..1b53559 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -54,22 +54,29 @@ struct YASL_Object *YASL_Table(void) {
 	return table;
 }
 
+// Converting the int to a float would lose its low bits.
+static int cmp_int_float(yasl_int a, yasl_float b) {
+	if (b != b) return 0;
+	if (b >= 9223372036854775808.0) return -1;
+	if (b < -9223372036854775808.0) return 1;
+	const yasl_int whole = (yasl_int)b;
+	if (a != whole) return a < whole ? -1 : 1;
+	const yasl_float rest = b - (yasl_float)whole;
+	return (rest < 0) - (rest > 0);
+}
+
 int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	YASL_ASSERT(obj_isstr(&a) && obj_isstr(&b) || obj_isnum(&a) && obj_isnum(&b), "Both must be either numeric or strings");
 	if (obj_isstr(&a) && obj_isstr(&b)) {
 		return YASL_String_cmp(obj_getstr(&a), obj_getstr(&b));
 	} else if (obj_isnum(&a) && obj_isnum(&b)) {
-		yasl_float aVal, bVal;
-		if(obj_isint(&a)) {
-			aVal = (yasl_float)obj_getint(&a);
-		} else {
-			aVal = obj_getfloat(&a);
-		}
-		if(obj_isint(&b)) {
-			bVal = (yasl_float)obj_getint(&b);
-		} else {
-			bVal = obj_getfloat(&b);
+		if (obj_isint(&a) && obj_isint(&b)) {
+			return (obj_getint(&a) > obj_getint(&b)) - (obj_getint(&a) < obj_getint(&b));
 		}
+		if (obj_isint(&a)) return cmp_int_float(obj_getint(&a), obj_getfloat(&b));
+		if (obj_isint(&b)) return -cmp_int_float(obj_getint(&b), obj_getfloat(&a));
+		const yasl_float aVal = obj_getfloat(&a);
+		const yasl_float bVal = obj_getfloat(&b);
 
 		if (aVal < bVal) return -1;
 		if (aVal > bVal) return 1;
-- 
2.43.0


From 9b2c7edb4b0ca827b5a945e299ac4069a4fce3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 59/68] fix: what is expected of a call is also expected of the
 expressions in it

---
 compiler/compiler.c | 20 +++++++++++++++-----
 compiler/parser.c   | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 2510627..b477e0d 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -524,34 +524,44 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	compiler->params = tmp;
 }
 
+static int expect_returns(struct Compiler *const compiler, const int expected) {
+	const int old_returns = compiler->expected_returns;
+	compiler->expected_returns = expected;
+	return old_returns;
+}
+
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
-	int old_returns = compiler->expected_returns;
-	compiler->expected_returns = node->value.ival;
+	const int old_returns = expect_returns(compiler, node->value.ival);
 	visit(compiler, node->children[0]);
-	compiler->expected_returns = old_returns;
+	expect_returns(compiler, old_returns);
 }
 
+// What's called and its arguments are expressions of their own: they don't return what's expected of the call.
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	const int expected = expect_returns(compiler, 1);
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	expect_returns(compiler, expected);
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
+	const int expected = expect_returns(compiler, 1);
 	visit(compiler, MethodCall_get_object(node));
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	expect_returns(compiler, expected);
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
diff --git a/compiler/parser.c b/compiler/parser.c
index f9045f0..3086353 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -17,6 +17,18 @@ static struct Node *parse_const_fn(struct Parser *const parser);
 static struct Node *parse_let(struct Parser *const parser);
 static struct Node *parse_decl(struct Parser *const parser);
 static struct Node *parse_fn(struct Parser *const parser);
+// Returns everything that a call in tail position returns.
+static struct Node *return_all(struct Parser *const parser, struct Node *const expr, const size_t line) {
+	if (will_var_expand(expr)) {
+		return new_VariadicContext(parser, expr, -1, line);
+	}
+	if (expr->nodetype == N_TRIOP) {
+		expr->children[1] = return_all(parser, expr->children[1], line);
+		expr->children[2] = return_all(parser, expr->children[2], line);
+	}
+	return expr;
+}
+
 static struct Node *parse_return(struct Parser *const parser);
 static struct Node *parse_for(struct Parser *const parser);
 static struct Node *parse_while(struct Parser *const parser);
@@ -372,7 +384,7 @@ static struct Node *parse_return(struct Parser *const parser) {
 		}
 		return new_MultiReturn(parser, block, line);
 	}
-	return new_Return(parser, new_VariadicContext(parser, expr, -1, line), line);
+	return new_Return(parser, return_all(parser, expr, line), line);
 }
 
 static struct Node *parse_fn(struct Parser *const parser) {
-- 
2.43.0


From 90fff305552a1e026b32c4b45fe6de6a65ebb70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 60/68] fix: ''->tofloat() reads outside the string

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..13eb89d 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,7 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
+	if (length == 0 || !isdigit((int)chars[0])) {
 		free(buffer);
 		return NAN;
 	}
-- 
2.43.0


From aba480146955def8b91f0d9ead4825512c4ac623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 61/68] fix: str.replace counts characters against the limit
 instead of replacements

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 13eb89d..9fea00b 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -387,10 +387,10 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
+			max--;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
-- 
2.43.0


From 0659397704199453edcabc1852fdb6f11eb38e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 62/68] fix: count, trim, ltrim and rtrim of a str never end
 for an empty argument

---
 interpreter/str_methods.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..5f10f88 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
@@ -226,6 +232,11 @@ int str_ltrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.ltrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.ltrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.ltrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S,
 		YASL_STR(YASL_String_ltrim(haystack, needle)));
 	return 1;
@@ -246,6 +257,11 @@ int str_rtrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.rtrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.rtrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.rtrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_rtrim(haystack, needle)));
 	return 1;
 }
@@ -264,6 +280,11 @@ int str_trim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.trim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.trim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.trim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_trim(haystack, needle)));
 	return 1;
 }
-- 
2.43.0


From 94d931e2155209b342257d6e78fa345f75ee4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 63/68] fix: trimming a whole str makes a str of negative size

---
 data-structures/YASL_String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 9fea00b..c6e2e64 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -514,7 +514,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end > start && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -533,7 +533,7 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (end - start >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
-- 
2.43.0


From 5b68f799ab365e51e2e2c2d8bb416bd4692f40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 64/68] fix: str.split by a longer separator cuts off the end
 of the last piece

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index c6e2e64..de9b44a 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -449,7 +449,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 		}
 	}
 	struct YASL_Object to = YASL_STR(
-		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
+		YASL_String_new_substring(start + haystack->start, haystack->end, haystack));
 	YASL_List_append(data, to);
 }
 
-- 
2.43.0


From 911ee4567eed225bb50c5b651b7fbcff9b311443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:13 +0000
Subject: [PATCH 65/68] fix: a table pattern whose key is missing ran into the
 bytecode of its value's pattern, so alternatives after it matched anything

---
 interpreter/VM.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index b2d7410..9f68019 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -999,7 +999,12 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 		default:
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		if (val.type == Y_END) {
+			// there is nothing to match the value's pattern against: skip it, too.
+			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)) + 1);
+			return false;
+		}
+		if (!vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From a88a112f67054c5dfd3585403e784ea9a896db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:13 +0000
Subject: [PATCH 66/68] fix: the name of a type as a key in a table pattern was
 accepted, and compared an uninitialised value

---
 compiler/parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 3086353..9a891ad 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -646,6 +646,15 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 	}
 }
 
+static struct Node *parse_keypattern(struct Parser *const parser) {
+	// Keys are looked up, not matched, so the name of a type can't be one.
+	if (curtok(parser) == T_ID) {
+		parser_print_err_syntax(parser, "Invalid key in table pattern: %s (line %" PRI_SIZET ").\n", parser->lex.value, parserline(parser));
+		handle_error(parser);
+	}
+	return parse_primitivepattern(parser);
+}
+
 static struct Node *parse_patternsingle(struct Parser *const parser) {
 	size_t line = parserline(parser);
 	struct Node *n;
@@ -682,7 +691,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 		if (matcheattok(parser, T_TDOT)) {
 			n->nodetype = N_PATVTABLE;
 		} else if (curtok(parser) != T_RBRC) {
-			body_append(parser, &n, parse_primitivepattern(parser));
+			body_append(parser, &n, parse_keypattern(parser));
 			eattok(parser, T_COLON);
 			body_append(parser, &n, parse_pattern(parser));
 			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
@@ -692,7 +701,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 					n->nodetype = N_PATVTABLE;
 					break;
 				}
-				body_append(parser, &n, parse_primitivepattern(parser));
+				body_append(parser, &n, parse_keypattern(parser));
 				eattok(parser, T_COLON);
 				body_append(parser, &n, parse_pattern(parser));
 			}
-- 
2.43.0


From efb10c487843481342f3718a8658ea2c35b73684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:00 +0000
Subject: [PATCH 67/68] fix: dividing the smallest int by -1 crashed the
 process

---
 compiler/middleend.c |  6 ++++--
 interpreter/VM.c     | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..e9b953f 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -154,12 +154,14 @@ static void fold_BinOp(struct Node *const node) {
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
-			if (right->value.ival != 0) {
+			// dividing the smallest int by -1 may trap, so leave -1 for the VM.
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, /, int);
 			}
 			break;
 		case T_MOD:
-			if (right->value.ival != 0) {
+			// dividing the smallest int by -1 may trap, so leave -1 for the VM.
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, %, int);
 			}
 			break;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 9f68019..4488f28 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -364,8 +364,15 @@ INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
 INT_BINOP(shift_left, <<)
 INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
+
+// The smallest int has no negation to divide to, which some machines trap on.
+static yasl_int modulo(yasl_int left, yasl_int right) {
+	return right == -1 ? 0 : left % right;
+}
+
+static yasl_int idiv(yasl_int left, yasl_int right) {
+	return right == -1 ? (yasl_int)-(uint64_t)left : left / right;
+}
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
-- 
2.43.0


From b078574a7d75e8800cc49b1da3587b8d9739b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:49 +0000
Subject: [PATCH 68/68] fix: an error in a function called by the host, outside
 of any execution, jumped into a dead frame

---
 interpreter/VM.c | 38 +++++++++++++++++++++++++++++++++++++-
 interpreter/VM.h |  1 +
 yasl.c           |  4 ++--
 yasl.h           |  4 +++-
 4 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 4488f28..991805f 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -144,7 +144,7 @@ void vm_executenext(struct VM *const vm);
 static unsigned char *vm_getcurrcode(struct VM *vm) {
 	for (size_t i = 0; i < vm->headers_size; i++) {
 		unsigned char *code = vm->headers[i];
-		if (code && code <= vm->pc && vm->pc <= code + ((int64_t *)code)[1]) return code;
+		if (code && code <= vm->pc && vm->pc < code + ((int64_t *)code)[1]) return code;
 	}
 	return NULL;
 }
@@ -1734,6 +1734,42 @@ static void vm_unwind(struct VM *const vm, const int sp) {
 	vm->sp = sp;
 }
 
+// A call which isn't made from within another one has nothing else to report its errors to.
+int vm_callhost(struct VM *const vm, const int fn_pos) {
+	if (vm->fp >= 0) {
+		vm_INIT_CALL_offset(vm, fn_pos, -1);
+		vm_CALL_now(vm);
+		return YASL_SUCCESS;
+	}
+
+	unsigned char *const pc = vm->pc;
+	const int frame_num = vm->frame_num;
+	const int next_fp = vm->next_fp;
+	const int loopframe_num = vm->loopframe_num;
+	jmp_buf buf;
+	memcpy(&buf, &vm->buf, sizeof(jmp_buf));
+
+	int status = YASL_SUCCESS;
+	if (setjmp(vm->buf)) {
+		status = vm->status;
+		vm_close_from(vm, vm->stack + fn_pos);
+		while (vm->loopframe_num > loopframe_num) {
+			dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+		}
+		vm->pc = pc;
+		vm->frame_num = frame_num;
+		vm->fp = -1;
+		vm->next_fp = next_fp;
+		vm->sp = fn_pos - 1;
+	} else {
+		vm_INIT_CALL_offset(vm, fn_pos, -1);
+		vm_CALL_now(vm);
+	}
+
+	memcpy(&vm->buf, &buf, sizeof(jmp_buf));
+	return status;
+}
+
 int vm_run(struct VM *const vm) {
 	const int sp = vm->sp;
 	if (setjmp(vm->buf)) {
diff --git a/interpreter/VM.h b/interpreter/VM.h
index c5c7819..5f3fed2 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -137,6 +137,7 @@ void vm_len_unop_now(struct VM *const vm);
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
 void vm_CALL_now(struct VM *const vm);
+int vm_callhost(struct VM *const vm, const int fn_pos);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/yasl.c b/yasl.c
index fd62a17..516c653 100644
--- a/yasl.c
+++ b/yasl.c
@@ -452,8 +452,8 @@ int YASL_listpush(struct YASL_State *S) {
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
 	const int fn_pos = vm->sp - n;
-	vm_INIT_CALL_offset(vm, fn_pos, -1);
-	vm_CALL_now(vm);
+	const int status = vm_callhost(vm, fn_pos);
+	if (status != YASL_SUCCESS) return -status;
 
 	// The return values replace the function and its parameters.
 	return vm->sp - fn_pos + 1;
diff --git a/yasl.h b/yasl.h
index 39739ca..2d8d281 100644
--- a/yasl.h
+++ b/yasl.h
@@ -85,7 +85,9 @@ int YASL_execute_REPL(struct YASL_State *S);
  * the function, the right-most paramter at the top of the stack.
  * @param S the YASL_State
  * @param n
- * @return r, the number of return values of the called functions
+ * @return r, the number of return values of the called functions. If the call fails, and it wasn't made (indirectly) by
+ * YASL code to which the error can be reported, the function and its parameters are popped, and the negated error code
+ * is returned.
  */
 int YASL_functioncall(struct YASL_State *S, int n);
 
-- 
2.43.0

