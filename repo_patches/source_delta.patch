From cbd24782253961842f94f7dadc64167654353d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 01/50] fix: release the creator state and output buffer of a
 failed or finished export

---
 python/pointless_create.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..ab5746f 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -509,7 +509,7 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 	PyObject* retval = 0;
 	PyObject* normalize_bitvector = Py_True;
 	PyObject* unwiden_strings = Py_False;
-	int create_end = 0;
+	int create_end = 1;
 
 	const char* error = 0;
 
@@ -571,7 +571,7 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	PyObject* retval = 0;
 	PyObject* normalize_bitvector = Py_True;
 	PyObject* unwiden_strings = Py_False;
-	int create_end = 0;
+	int create_end = 1;
 
 	void* buf = 0;
 	size_t buflen = 0;
@@ -612,6 +612,10 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	else
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
 
+	// a primitive vector takes ownership of the buffer, a bytearray copies it
+	if (buffer_type != 0 || retval == 0)
+		pointless_free(buf);
+
 cleanup:
 
 	if (create_end)
-- 
2.43.0


From 7ef8634add0d4a57c87eead8e7686ce944a81c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 02/50] fix: a failed export removes its temporary file (its
 name was freed before the unlink)

---
 src/pointless_create.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..5300f32 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1247,7 +1247,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 	fd = mkstemp(temp_fname);
 
 	if (fd == -1) {
-		fprintf(stderr, "temp_fname: %s\n", temp_fname);
 		*error = "error creating temporary file";
 		goto cleanup;
 	}
@@ -1321,9 +1320,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From f7324f420b5e8714abb45988e9b4c2a047db0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 03/50] fix: a failed Judy insertion is reported as out of
 memory (it returns PJERR, not 0)

---
 python/pointless_create.c | 6 +++---
 src/pointless_create.c    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index ab5746f..f382b3a 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -18,10 +18,10 @@ static uint32_t pointless_export_get_seen(pointless_export_state_t* state, PyObj
 
 static int pointless_export_set_seen(pointless_export_state_t* state, PyObject* py_object, uint32_t handle)
 {
-	PWord_t value = 0;
-	JLI(value, state->objects_used, (Word_t)py_object);
+	// the JLI() macro terminates the process on failure
+	PWord_t value = (PWord_t)JudyLIns(&state->objects_used, (Word_t)py_object, PJE0);
 
-	if (value == 0)
+	if (value == 0 || value == (PWord_t)PJERR)
 		return 0;
 
 	*value = (Word_t)handle;
diff --git a/src/pointless_create.c b/src/pointless_create.c
index 5300f32..d0aad6d 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1581,7 +1581,7 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 	// add to mapping
 	PValue = (Pvoid_t)JudyHSIns(&c->string_unicode_map_judy, unicode_buffer, buffer_len, 0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1661,7 +1661,7 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 	// add to mapping
 	PValue = JudyHSIns(&c->string_unicode_map_judy, string_buffer, buffer_len, PJE0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1938,7 +1938,7 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	if (normalize) {
 		Pvoid_t PValue = (Pvoid_t)JudyHSIns(&c->bitvector_map_judy, buffer, buffer_len, 0);
 
-		if (PValue == 0)
+		if (PValue == 0 || PValue == PJERR)
 			goto cleanup;
 
 		*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
-- 
2.43.0


From 07d09b54d25163e26e571c23076780b3267cd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 04/50] fix: strings with characters outside the BMP are
 exported as unicode, not truncated to 8 bits

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index f382b3a..a354073 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From 60b4fb534ab481a7b20d36d8f6bca13b0c8e9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 05/50] fix: exporting a set releases its items and iterator

---
 python/pointless_create.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index a354073..9b73bb6 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -344,13 +344,17 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		while (PyDict_Next(py_object, &pos, &key, &value)) {
 			uint32_t key_handle = pointless_export_py_rec(state, key, depth + 1);
+
+			if (key_handle == POINTLESS_CREATE_VALUE_FAIL)
+				break;
+
 			uint32_t value_handle = pointless_export_py_rec(state, value, depth + 1);
 
-			if (key_handle == POINTLESS_CREATE_VALUE_FAIL || value_handle == POINTLESS_CREATE_VALUE_FAIL)
+			if (value_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
 			if (pointless_create_map_add(&state->c, handle, key_handle, value_handle) == POINTLESS_CREATE_VALUE_FAIL) {
-				PyErr_SetString(PyExc_ValueError, "error adding key/value pair to map");
+				PyErr_NoMemory();
 				state->error_line = __LINE__;
 				state->is_error = 1;
 				break;
@@ -363,7 +367,8 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 	// set object
 	} else if (PySet_Check(py_object) || PyFrozenSet_Check(py_object)) {
-		PyObject* iterator = PyObject_GetIter(py_object);
+		// iterate over the items actually stored (as is done for lists and dicts), the set keeps them alive
+		PyObject* iterator = PySet_Type.tp_iter(py_object);
 		PyObject* item = 0;
 
 		if (iterator == 0) {
@@ -374,22 +379,28 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		// get a handle
 		handle = pointless_create_set(&state->c);
-		RETURN_OOM_IF_FAIL(handle, state);
+
+		if (handle == POINTLESS_CREATE_VALUE_FAIL) {
+			Py_DECREF(iterator);
+			RETURN_OOM(state);
+		}
 
 		// cache object
 		if (!pointless_export_set_seen(state, py_object, handle)) {
+			Py_DECREF(iterator);
 			RETURN_OOM(state);
 		}
 
 		// iterate over it
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
+			Py_DECREF(item);
 
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
 			if (pointless_create_set_add(&state->c, handle, item_handle) == POINTLESS_CREATE_VALUE_FAIL) {
-				PyErr_SetString(PyExc_ValueError, "error adding item to set");
+				PyErr_NoMemory();
 				state->is_error = 1;
 				state->error_line = __LINE__;
 				break;
-- 
2.43.0


From 5e5aed14cb2ee32f460ad9140d5ea16dd40b9d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 06/50] fix: a failed Judy insertion in the cycle marker is
 reported as out of memory

---
 src/pointless_cycle_marker.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..c6b2723 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -109,7 +109,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 			//print_depth(depth); printf("root[v] = min(%u, %u)\n", *(unsigned int*)root_v, *(unsigned int*)root_w);
 			PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
@@ -159,7 +159,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// root[v] = count
 	Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -170,7 +170,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// visited[v] = count
 	PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->visited_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -233,7 +233,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		// component[v] = root[v]
 		Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)v_id, 0);
 
-		if (PValue == 0) {
+		if (PValue == 0 || PValue == (Word_t*)PJERR) {
 			state->error = "out of memory";
 			return;
 		}
@@ -262,7 +262,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
-- 
2.43.0


From 3763b69b28fbb0371a1fd89982b7a51137d18e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 07/50] fix: exporting a slice of a value vector exports the
 slice, not the whole vector

---
 include/pointless/pointless_recreate.h |  3 ++
 python/pointless_create.c              |  5 +++-
 src/pointless_recreate.c               | 41 ++++++++++++++++++++++++--
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/pointless/pointless_recreate.h b/include/pointless/pointless_recreate.h
index 53a3c59..7648627 100644
--- a/include/pointless/pointless_recreate.h
+++ b/include/pointless/pointless_recreate.h
@@ -8,6 +8,9 @@
 
 uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error);
 
+// re-create items [slice_i, slice_i + slice_n) of a value vector, as a value vector
+uint32_t pointless_recreate_vector_value_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error);
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error);
 
 #endif
diff --git a/python/pointless_create.c b/python/pointless_create.c
index 9b73bb6..54a7033 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -147,7 +147,10 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		switch(v->v.type) {
 			case POINTLESS_VECTOR_VALUE:
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
-				handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				if (v->slice_i == 0 && v->slice_n == pointless_reader_vector_n_items(&v->pp->p, &v->v))
+					handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				else
+					handle = pointless_recreate_vector_value_slice(&v->pp->p, &v->v, v->slice_i, v->slice_n, &state->c, &error);
 
 				if (handle == POINTLESS_CREATE_VALUE_FAIL) {
 					state->is_error = 1;
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 977d0b9..c02a663 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -289,7 +289,31 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	return POINTLESS_CREATE_VALUE_FAIL;
 }
 
-uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+static uint32_t pointless_recreate_convert_slice(pointless_recreate_state_t* state, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n)
+{
+	uint32_t i, child_handle, handle = pointless_create_vector_value(state->c);
+
+	if (handle == POINTLESS_CREATE_VALUE_FAIL) {
+		*state->error = "pointless_create_vector_value() failure";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
+	for (i = 0; i < slice_n; i++) {
+		child_handle = pointless_recreate_convert_rec(state, pointless_reader_vector_value(state->p, v) + slice_i + i, 1);
+
+		if (child_handle == POINTLESS_CREATE_VALUE_FAIL)
+			return POINTLESS_CREATE_VALUE_FAIL;
+
+		if (pointless_create_vector_value_append(state->c, handle, child_handle) == POINTLESS_CREATE_VALUE_FAIL) {
+			*state->error = "pointless_create_vector_value_append() failure";
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+	}
+
+	return handle;
+}
+
+static uint32_t pointless_recreate_value_priv(pointless_t* p_in, pointless_value_t* v_in, int is_slice, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
 {
 	pointless_recreate_state_t state;
 	uint32_t handle = POINTLESS_CREATE_VALUE_FAIL;
@@ -316,7 +340,10 @@ uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, po
 		goto error;
 	}
 
-	handle = pointless_recreate_convert_rec(&state, v_in, 0);
+	if (is_slice)
+		handle = pointless_recreate_convert_slice(&state, v_in, slice_i, slice_n);
+	else
+		handle = pointless_recreate_convert_rec(&state, v_in, 0);
 
 error:
 
@@ -329,6 +356,16 @@ error:
 	return handle;
 }
 
+uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_priv(p_in, v_in, 0, 0, 0, c_out, error);
+}
+
+uint32_t pointless_recreate_vector_value_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_priv(p_in, v_in, 1, slice_i, slice_n, c_out, error);
+}
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error)
 {
 	// open source
-- 
2.43.0


From 5f4cf0cee76f0a47a976d4bd642d675d470f0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 08/50] fix: running out of memory while re-numbering vectors
 no longer frees the wrong vectors

---
 src/pointless_create.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index d0aad6d..5c95537 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -720,6 +720,18 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		goto error_cleanup;
 	}
 
+	// allocate room for all the vectors up front: the values are re-numbered one by one below, so running
+	// out of memory half way through would leave them referring to the wrong vectors
+	for (i = 0; i < pointless_dynarray_n_items(&c->priv_vector_values); i++) {
+		if (!pointless_dynarray_push(&new_priv_vector_values, pointless_dynarray_item_at(&c->priv_vector_values, i))) {
+			*error = "out of memory I";
+			goto error_cleanup;
+		}
+	}
+
+	while (pointless_dynarray_n_items(&new_priv_vector_values) > 0)
+		pointless_dynarray_pop(&new_priv_vector_values);
+
 	// NOTE: value vector will grow, but the first 'n_values' items are the ones we want to serialize
 	n_values = pointless_dynarray_n_items(&c->values);
 
-- 
2.43.0


From 1e21cdc9ec14190199a65a34b62dc42b43753e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 09/50] fix: a key which contains something unhashable is
 refused instead of dereferencing a null hash function

---
 src/pointless_create.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 5c95537..15a18a7 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -35,6 +35,25 @@ static pointless_value_t pointless_create_to_read_value(pointless_create_t* c, u
 	return r;
 }
 
+// a vector is only hashable if all of its items are
+static int pointless_create_is_hashable(pointless_create_t* c, uint32_t v)
+{
+	if (!pointless_is_hashable(cv_value_type(v)))
+		return 0;
+
+	if (cv_value_type(v) != POINTLESS_VECTOR_VALUE_HASHABLE)
+		return 1;
+
+	size_t i, n_items = pointless_dynarray_n_items(&cv_priv_vector_at(v)->vector);
+
+	for (i = 0; i < n_items; i++) {
+		if (!pointless_create_is_hashable(c, pointless_dynarray_ITEM_AT(uint32_t, &cv_priv_vector_at(v)->vector, i)))
+			return 0;
+	}
+
+	return 1;
+}
+
 static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_table, const char** error)
 {
 	// return value
@@ -114,7 +133,7 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 
 	// compute all the key hashes
 	for (i = 0; i < n_keys; i++) {
-		if (!pointless_is_hashable(cv_value_type(keys_vector_ptr[i]))) {
+		if (!pointless_create_is_hashable(c, keys_vector_ptr[i])) {
 			*error = "pointless_hash_table_create(): internal error: key not hashable";
 			goto cleanup;
 		}
-- 
2.43.0


From c798946a7e526f502496c25603dc524f21c777e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 10/50] fix: vector min(), max() and range() return the
 smallest and largest element, not the first

---
 python/pointless_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..cd5badd 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -573,6 +573,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 1e764511cfb8551e29c5ff85ef66e3875a1fe0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 11/50] fix: an exhausted iterator forgets its container before
 releasing it (the release can switch threads)

---
 python/pointless_bitvector.c   | 3 +--
 python/pointless_map.c         | 9 +++------
 python/pointless_prim_vector.c | 6 ++----
 python/pointless_set.c         | 3 +--
 python/pointless_vector.c      | 6 ++----
 5 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..6c7ad68 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -885,8 +885,7 @@ static PyObject* PyPointlessBitvectorIter_iternext(PyPointlessBitvectorIter* ite
 	}
 
 	// we reached end
-	Py_DECREF(iter->bitvector);
-	iter->bitvector = 0;
+	Py_CLEAR(iter->bitvector);
 	return 0;
 }
 
diff --git a/python/pointless_map.c b/python/pointless_map.c
index 88b6e85..3beffcc 100644
--- a/python/pointless_map.c
+++ b/python/pointless_map.c
@@ -145,8 +145,7 @@ static PyObject* PyPointlessMapKeyIter_iternext(PyPointlessMapKeyIter* iter)
 	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter->iter_state))
 		return pypointless_value(iter->map->pp, k);
 
-	Py_DECREF(iter->map);
-	iter->map = 0;
+	Py_CLEAR(iter->map);
 	return 0;
 }
 
@@ -162,8 +161,7 @@ static PyObject* PyPointlessMapValueIter_iternext(PyPointlessMapValueIter* iter)
 	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter->iter_state))
 		return pypointless_value(iter->map->pp, v);
 
-	Py_DECREF(iter->map);
-	iter->map = 0;
+	Py_CLEAR(iter->map);
 	return 0;
 }
 
@@ -189,8 +187,7 @@ static PyObject* PyPointlessMapItemIter_iternext(PyPointlessMapItemIter* iter)
 		return Py_BuildValue("(NN)", kk, vv);
 	}
 
-	Py_DECREF(iter->map);
-	iter->map = 0;
+	Py_CLEAR(iter->map);
 	return 0;
 }
 
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..cdac409 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -680,8 +680,7 @@ static PyObject* PyPointlessPrimVectorIter_iternext(PyPointlessPrimVectorIter* i
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
@@ -704,8 +703,7 @@ static PyObject* PyPointlessPrimVectorRevIter_iternext(PyPointlessPrimVectorRevI
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
diff --git a/python/pointless_set.c b/python/pointless_set.c
index ed590db..febea75 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -80,8 +80,7 @@ static PyObject* PyPointlessSetIter_iternext(PyPointlessSetIter* iter)
 	if (pointless_reader_set_iter(&iter->set->pp->p, &iter->set->v, &v, &iter->iter_state))
 		return pypointless_value(iter->set->pp, v);
 
-	Py_DECREF(iter->set);
-	iter->set = 0;
+	Py_CLEAR(iter->set);
 	return 0;
 }
 
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index cd5badd..adc310b 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -269,8 +269,7 @@ static PyObject* PyPointlessVectorIter_iternext(PyPointlessVectorIter* iter)
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
@@ -294,8 +293,7 @@ static PyObject* PyPointlessVectorRevIter_iternext(PyPointlessVectorIter* iter)
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
-- 
2.43.0


From 6e0c9cc1d95c60486497d717ec84084d27d86037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 12/50] fix: map and set iterators do not skip an item whose
 delivery failed

---
 python/pointless_map.c | 40 +++++++++++++++++++++++++++++++++-------
 python/pointless_set.c | 12 ++++++++++--
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/python/pointless_map.c b/python/pointless_map.c
index 3beffcc..13fd1e7 100644
--- a/python/pointless_map.c
+++ b/python/pointless_map.c
@@ -142,8 +142,17 @@ static PyObject* PyPointlessMapKeyIter_iternext(PyPointlessMapKeyIter* iter)
 	pointless_value_t* k = 0;
 	pointless_value_t* v = 0;
 
-	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter->iter_state))
-		return pypointless_value(iter->map->pp, k);
+	uint32_t iter_state = iter->iter_state;
+
+	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter_state)) {
+		PyObject* item = pypointless_value(iter->map->pp, k);
+
+		// only move on once we have an item to deliver
+		if (item)
+			iter->iter_state = iter_state;
+
+		return item;
+	}
 
 	Py_CLEAR(iter->map);
 	return 0;
@@ -158,8 +167,17 @@ static PyObject* PyPointlessMapValueIter_iternext(PyPointlessMapValueIter* iter)
 	pointless_value_t* k = 0;
 	pointless_value_t* v = 0;
 
-	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter->iter_state))
-		return pypointless_value(iter->map->pp, v);
+	uint32_t iter_state = iter->iter_state;
+
+	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter_state)) {
+		PyObject* item = pypointless_value(iter->map->pp, v);
+
+		// only move on once we have an item to deliver
+		if (item)
+			iter->iter_state = iter_state;
+
+		return item;
+	}
 
 	Py_CLEAR(iter->map);
 	return 0;
@@ -174,9 +192,11 @@ static PyObject* PyPointlessMapItemIter_iternext(PyPointlessMapItemIter* iter)
 	pointless_value_t* k = 0;
 	pointless_value_t* v = 0;
 
-	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter->iter_state)) {
+	uint32_t iter_state = iter->iter_state;
+
+	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter_state)) {
 		PyObject* kk = pypointless_value(iter->map->pp, k);
-		PyObject* vv = pypointless_value(iter->map->pp, v);
+		PyObject* vv = kk ? pypointless_value(iter->map->pp, v) : 0;
 
 		if (kk == 0 || vv == 0) {
 			Py_XDECREF(kk);
@@ -184,7 +204,13 @@ static PyObject* PyPointlessMapItemIter_iternext(PyPointlessMapItemIter* iter)
 			return 0;
 		}
 
-		return Py_BuildValue("(NN)", kk, vv);
+		PyObject* item = Py_BuildValue("(NN)", kk, vv);
+
+		// only move on once we have an item to deliver
+		if (item)
+			iter->iter_state = iter_state;
+
+		return item;
 	}
 
 	Py_CLEAR(iter->map);
diff --git a/python/pointless_set.c b/python/pointless_set.c
index febea75..e5a4955 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -76,9 +76,17 @@ static PyObject* PyPointlessSetIter_iternext(PyPointlessSetIter* iter)
 		return 0;
 
 	pointless_value_t* v = 0;
+	uint32_t iter_state = iter->iter_state;
 
-	if (pointless_reader_set_iter(&iter->set->pp->p, &iter->set->v, &v, &iter->iter_state))
-		return pypointless_value(iter->set->pp, v);
+	if (pointless_reader_set_iter(&iter->set->pp->p, &iter->set->v, &v, &iter_state)) {
+		PyObject* item = pypointless_value(iter->set->pp, v);
+
+		// only move on once we have an item to deliver
+		if (item)
+			iter->iter_state = iter_state;
+
+		return item;
+	}
 
 	Py_CLEAR(iter->set);
 	return 0;
-- 
2.43.0


From 27f233170a347d09080e7b810d3645d350c64dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 13/50] fix: methods of a handle that is not open raise instead
 of following null pointers

---
 python/pointless_object.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 3e64719..372b976 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -51,13 +51,28 @@ static PyObject* PyPointless_new(PyTypeObject* type, PyObject* args, PyObject* k
 	return (PyObject*)self;
 }
 
+static int PyPointless_check_open(PyPointless* self)
+{
+	if (self->is_open)
+		return 1;
+
+	PyErr_SetString(PyExc_ValueError, "pointless object is not open");
+	return 0;
+}
+
 static PyObject* PyPointless_GetRoot(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	return pypointless_value(self, &self->p.header->root);
 }
 
 static PyObject* PyPointless_GetINode(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -79,6 +94,9 @@ static PyObject* PyPointless_GetINode(PyPointless* self)
 
 static PyObject* PyPointless_GetFileNo(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -107,6 +125,9 @@ static PyObject* PyPointless_GetRefs(PyPointless* self)
 
 static PyObject* PyPointless_sizeof(PyPointless* self)
 {
+	if (!self->is_open)
+		return PyLong_FromUnsignedLongLong(sizeof(PyPointless));
+
 	if (self->p.fd == 0)
 		return PyLong_FromUnsignedLongLong(sizeof(PyPointless) + self->p.buflen);
 	else
-- 
2.43.0


From 935699c2836df471a097dbd4777a33303319e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 14/50] fix: re-opening a handle works on private state and is
 refused while its values are in use

---
 python/pointless_object.c | 89 +++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 372b976..588b922 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -143,6 +143,17 @@ static PyMethodDef PyPointless_methods[] = {
 	{NULL}
 };
 
+static int PyPointless_has_refs(PyPointless* self)
+{
+	return (
+		self->n_root_refs != 0 ||
+		self->n_vector_refs != 0 ||
+		self->n_bitvector_refs != 0 ||
+		self->n_map_refs != 0 ||
+		self->n_set_refs != 0
+	);
+}
+
 static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 {
 	PyObject* fname_or_buffer = 0;
@@ -153,33 +164,7 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	const char* fname_ = 0;
 	const char* error = 0;
 	int i = 0;
-
-	if (self->is_open) {
-		Py_BEGIN_ALLOW_THREADS
-		pointless_close(&self->p);
-		Py_END_ALLOW_THREADS
-		self->is_open = 0;
-	}
-
-	self->allow_print = 1;
-
-	if (self->n_root_refs != 0 ||
-		self->n_vector_refs != 0 ||
-		self->n_bitvector_refs != 0 ||
-		self->n_map_refs != 0 ||
-		self->n_set_refs != 0) {
-		printf("_WTF A: %zu\n", self->n_root_refs);
-		printf("_WTF B: %zu\n", self->n_vector_refs);
-		printf("_WTF C: %zu\n", self->n_bitvector_refs);
-		printf("_WTF D: %zu\n", self->n_map_refs);
-		printf("_WTF E: %zu\n", self->n_set_refs);
-	}
-
-	self->n_root_refs = 0;
-	self->n_vector_refs = 0;
-	self->n_bitvector_refs = 0;
-	self->n_map_refs = 0;
-	self->n_set_refs = 0;
+	pointless_t p, p_close;
 
 	PyObject* allow_print = Py_True;
 	PyObject* validate = Py_True;
@@ -188,9 +173,6 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O!O!", kwargs, &fname_or_buffer, &PyBool_Type, &allow_print, &PyBool_Type, &validate))
 		return -1;
 
-	if (allow_print == Py_False)
-		self->allow_print = 0;
-
 	int do_validate = (validate == Py_True);
 
 	if (PyUnicode_Check(fname_or_buffer)) {
@@ -219,22 +201,24 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 		return -1;
 	}
 
-	Py_BEGIN_ALLOW_THREADS
+	// other threads may be using this object while we open the file, so work on private state. Buffers are only
+	// stable for as long as we hold the GIL
+	if (fname_) {
+		Py_BEGIN_ALLOW_THREADS
 
-	if (do_validate) {
-		if (fname_)
-			i = pointless_open_f(&self->p, fname_, &error);
+		if (do_validate)
+			i = pointless_open_f(&p, fname_, &error);
 		else
-			i = pointless_open_b(&self->p, buf, buflen, &error);
+			i = pointless_open_f_skip_validate(&p, fname_, &error);
+
+		Py_END_ALLOW_THREADS
 	} else {
-		if (fname_)
-			i = pointless_open_f_skip_validate(&self->p, fname_, &error);
+		if (do_validate)
+			i = pointless_open_b(&p, buf, buflen, &error);
 		else
-			i = pointless_open_b_skip_validate(&self->p, buf, buflen, &error);
+			i = pointless_open_b_skip_validate(&p, buf, buflen, &error);
 	}
 
-	Py_END_ALLOW_THREADS
-
 	if (!i) {
 		if (fname_)
 			PyErr_Format(PyExc_IOError, "error opening [%s]: %s", fname_, error);
@@ -248,7 +232,30 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	Py_XDECREF(string_of_unicode);
 
-	self->is_open = 1;
+	// an object which is already open is only re-opened if nothing refers to the old contents
+	int is_in_use = self->is_open && PyPointless_has_refs(self);
+	int is_close = self->is_open;
+
+	if (is_in_use) {
+		p_close = p;
+	} else {
+		p_close = self->p;
+		self->p = p;
+		self->is_open = 1;
+		self->allow_print = (allow_print == Py_True);
+	}
+
+	if (is_close) {
+		Py_BEGIN_ALLOW_THREADS
+		pointless_close(&p_close);
+		Py_END_ALLOW_THREADS
+	}
+
+	if (is_in_use) {
+		PyErr_SetString(PyExc_ValueError, "pointless object can not be re-opened while its values are in use");
+		return -1;
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From 266c7c3c0b175b10a52ea37d23da59caab3c5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 15/50] fix: keys of different types with equal hashes (None
 and 0, say) are not duplicates

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..8284c32 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -523,7 +523,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From 3088b8fb9c74f89db0a0a2316bc163d16afd3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 16/50] fix: looking for a value of another type in a vector,
 set or map finds nothing instead of raising

---
 python/pointless_pyobject_cmp.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..c524e86 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -21,6 +21,7 @@ typedef struct {
 	pointless_t* pointless;
 	const char* error;
 	uint32_t depth;
+	uint32_t eq_only; // only equality matters, so values of different types are just not equal
 } pypointless_cmp_state_t;
 
 // number values
@@ -126,6 +127,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
@@ -482,7 +485,7 @@ static int32_t pypointless_cmp_vector(pypointless_cmp_value_t* a, pypointless_cm
 		v_b = pypointless_cmp_vector_item_at(b, i);
 		c = pypointless_cmp_rec(&v_a, &v_b, state);
 
-		if (c != 0)
+		if (c != 0 || state->error)
 			return c;
 	}
 
@@ -558,6 +561,12 @@ static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_v
 	pypointless_cmp_cb cmp_b = pypointless_cmp_func(b, &t_b, state);
 	int32_t c;
 
+	if (state->error)
+		return 0;
+
+	if (state->eq_only && cmp_a != cmp_b)
+		return 1;
+
 	// we're going one deep
 	state->depth += 1;
 
@@ -587,6 +596,7 @@ uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObj
 
 	state.error = 0;
 	state.depth = 0;
+	state.eq_only = 1;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -623,6 +633,7 @@ PyObject* pointless_cmp(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.eq_only = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -659,6 +670,7 @@ PyObject* pointless_is_eq(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.eq_only = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
-- 
2.43.0


From a1b71deb69044439de678b98074fba8e00cbc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 17/50] fix: comparing bitvectors of different encodings
 decodes each with its own

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index ad263cb..607ce02 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -163,7 +163,7 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 
 	for (i = 0; i < n_bits; i++) {
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
-		bb = pointless_bitvector_is_set(t_a, v_b, buffer_b, i);
+		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
 		if (ba != bb)
 			return SIMPLE_CMP(ba, bb);
-- 
2.43.0


From 06810f90617f1c39772c04794dfbc7d3a1e1b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 18/50] fix: an empty vector is hashed and compared as empty,
 not as the first vector of the file

---
 src/pointless_cmp.c  | 17 +++++++++++++++--
 src/pointless_hash.c |  5 ++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8284c32..06ab032 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -344,6 +344,19 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 	return vi;
 }
 
+static uint32_t pointless_cmp_vector_n_items_create(pointless_create_t* c, pointless_complete_create_value_t* v)
+{
+	pointless_create_value_t _v = pointless_create_value_from_complete(v);
+
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY)
+		return 0;
+
+	if (v->header.is_outside_vector)
+		return cv_get_outside_vector(&_v)->n_items;
+
+	return (uint32_t)pointless_dynarray_n_items(&cv_get_priv_vector(&_v)->vector);
+}
+
 static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
 {
 	pointless_value_t _a = pointless_value_from_complete(a);
@@ -373,8 +386,8 @@ static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_comp
 	pointless_create_value_t _a = pointless_create_value_from_complete(a);
 	pointless_create_value_t _b = pointless_create_value_from_complete(b);
 
-	uint32_t n_items_a = a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
-	uint32_t n_items_b = b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
+	uint32_t n_items_a = pointless_cmp_vector_n_items_create(c, a);
+	uint32_t n_items_b = pointless_cmp_vector_n_items_create(c, b);
 	uint32_t i, n_items = (n_items_a < n_items_b ? n_items_a : n_items_b);
 	int32_t cc;
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..58fa2b8 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -282,7 +282,10 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	void* items;
 	pointless_create_value_t* vv;
 
-	if (v->header.is_outside_vector) {
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY) {
+		items = 0;
+		n_items = 0;
+	} else if (v->header.is_outside_vector) {
 		items = cv_get_outside_vector(v)->items;
 		n_items = cv_get_outside_vector(v)->n_items;
 	} else {
-- 
2.43.0


From ee711aea03f8217a6a9026fada7d7a88a7ab67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 19/50] fix: vectors mixing negative and large unsigned
 integers stay hashable; an unsigned integer is greater than a negative one

---
 src/pointless_cmp.c    | 2 +-
 src/pointless_create.c | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 06ab032..2a687ab 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -201,7 +201,7 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 			int64_t _b = pointless_int_value_signed(t_b, v_b);
 
 			if (_b < 0)
-				return -1;
+				return +1;
 
 			return SIMPLE_CMP(_a, (uint64_t)_b);
 		}
diff --git a/src/pointless_create.c b/src/pointless_create.c
index 15a18a7..853c5ba 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -695,9 +695,8 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	else if (INT32_MIN <= min_int && max_int <= INT32_MAX)
 		return POINTLESS_VECTOR_I32;
 
-	// we must have hit something here already
-	assert(0);
-	return 0;
+	// negative items together with ones which only fit in 32 bits unsigned
+	return compression;
 }
 
 static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
-- 
2.43.0


From bfd7d2a6d4863c214991c3a25c79f491e38084ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 20/50] fix: a buffer which could not be wrapped in a primitive
 vector is released only once

---
 python/pointless_create.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 54a7033..92faae0 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -627,7 +627,8 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
 
 	// a primitive vector takes ownership of the buffer, a bytearray copies it
-	if (buffer_type != 0 || retval == 0)
+	// (and releases it itself if it can not be created)
+	if (buffer_type != 0)
 		pointless_free(buf);
 
 cleanup:
-- 
2.43.0


From f09c437c4595b8179fd9e0607fc04cd77ba8fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 21/50] fix: hashing a stored vector which contains something
 unhashable is refused instead of calling a null function

---
 include/pointless/pointless_defs.h  |  2 ++
 python/pointless_pyobject_hash.c    |  2 +-
 src/pointless_hash.c                | 43 +++++++++++++++++++++++++++++
 src/pointless_reader.c              |  4 +--
 src/pointless_validate_hash_table.c |  2 +-
 5 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/include/pointless/pointless_defs.h b/include/pointless/pointless_defs.h
index 8168f68..89d5fa5 100644
--- a/include/pointless/pointless_defs.h
+++ b/include/pointless/pointless_defs.h
@@ -379,6 +379,8 @@ void pointless_vector_hash_next_32(pointless_vector_hash_state_32_t* state, uint
 uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state);
 
 uint32_t pointless_is_hashable(uint32_t type);
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v);
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n);
 
 uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s);
 uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s);
diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index e5083d4..4fc95be 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -198,7 +198,7 @@ static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t*
 		p = &((PyPointlessVector*)py_object)->pp->p;
 		v = ((PyPointlessVector*)py_object)->v;
 
-		if (!pointless_is_hashable(v.type)) {
+		if (!pointless_is_hashable_reader_vector(p, &v, ((PyPointlessVector*)py_object)->slice_i, ((PyPointlessVector*)py_object)->slice_n)) {
 			*state->error = "pointless type is not hashable";
 			return 0;
 		}
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 58fa2b8..0351add 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -472,6 +472,49 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
+// a vector is only hashable if all of its items are
+static uint32_t pointless_is_hashable_reader_vector_priv(pointless_t* p, pointless_value_t* v, uint32_t offset, uint32_t n_items, uint32_t depth);
+
+static uint32_t pointless_is_hashable_reader_priv(pointless_t* p, pointless_value_t* v, uint32_t depth)
+{
+	if (depth >= POINTLESS_MAX_DEPTH || !pointless_is_hashable(v->type))
+		return 0;
+
+	if (v->type != POINTLESS_VECTOR_VALUE_HASHABLE)
+		return 1;
+
+	return pointless_is_hashable_reader_vector_priv(p, v, 0, pointless_reader_vector_n_items(p, v), depth + 1);
+}
+
+static uint32_t pointless_is_hashable_reader_vector_priv(pointless_t* p, pointless_value_t* v, uint32_t offset, uint32_t n_items, uint32_t depth)
+{
+	uint32_t i;
+	pointless_value_t* items = pointless_reader_vector_value(p, v);
+
+	for (i = offset; i < n_items + offset; i++) {
+		if (!pointless_is_hashable_reader_priv(p, items + i, depth))
+			return 0;
+	}
+
+	return 1;
+}
+
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
+{
+	return pointless_is_hashable_reader_priv(p, v, 0);
+}
+
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
+{
+	if (!pointless_is_hashable(v->type))
+		return 0;
+
+	if (v->type != POINTLESS_VECTOR_VALUE_HASHABLE)
+		return 1;
+
+	return pointless_is_hashable_reader_vector_priv(p, v, i, n, 0);
+}
+
 uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..3960fe0 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -419,7 +419,7 @@ uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointle
 void pointless_reader_set_lookup(pointless_t* p, pointless_value_t* s, pointless_value_t* k, pointless_value_t** kk, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
@@ -607,7 +607,7 @@ uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* s, ui
 void pointless_reader_map_lookup(pointless_t* p, pointless_value_t* m, pointless_value_t* k, pointless_value_t** kk, pointless_value_t** vv, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index 9b3c5b6..286ff81 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -36,7 +36,7 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	// make sure hashes match the given object
 	for (i = 0; i < n_buckets; i++) {
 		// make sure it is hashable
-		if (!pointless_is_hashable(key_vector[i].type)) {
+		if (!pointless_is_hashable_reader(p, &key_vector[i])) {
 			*error = "key in set/map is not hashable";
 			return 0;
 		}
-- 
2.43.0


From 7832fa2c7e9b1c8b1954f7e09c6ad6074df6338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 22/50] fix: comparing acyclic vectors does not follow the null
 error pointer

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 2a687ab..da6bab0 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -374,7 +374,7 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 
 		cc = pointless_cmp_reader_rec(p_a, &c_a, p_b, &c_b, depth + 1, error);
 
-		if (cc != 0 || *error != 0)
+		if (cc != 0 || (error != 0 && *error != 0))
 			return cc;
 	}
 
-- 
2.43.0


From 90e55b3f7ba1cbde3940bc85b14efb1e882ba3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 23/50] fix: a set or map with a huge item count in its header
 is rejected instead of looping forever

---
 src/pointless_create.c     | 5 +++++
 src/pointless_hash_table.c | 9 +++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 853c5ba..4babd1e 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -94,6 +94,11 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 	// number of buckets
 	n_buckets = pointless_hash_compute_n_buckets(n_keys);
 
+	if (n_buckets == 0) {
+		*error = "too many keys in set/map";
+		goto cleanup;
+	}
+
 	// allocate output vectors
 	hash_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
 	keys_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..4baddb3 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -1,13 +1,14 @@
 #include <pointless/pointless_hash_table.h>
 
-static uint32_t next_power_of_2(uint32_t n)
+// returns 0 if the result does not fit
+static uint32_t next_power_of_2(uint64_t n)
 {
-	uint32_t p = 1;
+	uint64_t p = 1;
 
 	while (p < n)
 		p <<= 1;
 
-	return p;
+	return (p <= UINT32_MAX) ? (uint32_t)p : 0;
 }
 
 uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
@@ -17,7 +18,7 @@ uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
 	if (n_items == 1)
 		return 2;
 
-	return next_power_of_2(n_items + n_items / 2);
+	return next_power_of_2((uint64_t)n_items + n_items / 2);
 }
 
 static uint32_t pointless_hash_table_probe_priv(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_eq_cb cb, void* user, const char** error)
-- 
2.43.0


From b7c409907c66efb26ca0d6926c4633383a6e3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 24/50] fix: primitive vector item assignment with a negative
 index, and item deletion, read memory that is not theirs

---
 python/pointless_prim_vector.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index cdac409..9f43d35 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -606,6 +606,11 @@ static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_
 
 static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyObject* item, PyObject* value)
 {
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "primitive vector items can not be deleted");
+		return -1;
+	}
+
 	if (PyIndex_Check(item)) {
 		Py_ssize_t i = PyNumber_AsSsize_t(item, PyExc_IndexError);
 
@@ -613,7 +618,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From afb6886dec01328e55a42cd1cc9fa321b1a99c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 25/50] fix: append_bulk of a primitive vector to itself never
 ends, and its roll-back removes items it did not add

---
 python/pointless_prim_vector.c | 38 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9f43d35..9293653 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -747,14 +747,19 @@ static PyObject* PyPointlessPrimVector_append(PyPointlessPrimVector* self, PyObj
 	return PyPointlessPrimVector_append_item(self, obj);
 }
 
+// drop items appended by an operation which failed, unless the vector has been locked or shrunk in the meantime
+static void PyPointlessPrimVector_truncate(PyPointlessPrimVector* self, size_t n)
+{
+	while (self->ob_exports == 0 && pointless_dynarray_n_items(&self->array) > n)
+		pointless_dynarray_pop(&self->array);
+}
+
 static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self, PyObject* args)
 {
 	PyObject* obj = 0;
 	PyObject* iterator = 0;
 	PyObject* item = 0;
-	size_t n_append = 0;
 	size_t i = 0;
-	size_t j = 0;
 
 	if (!PyArg_ParseTuple(args, "O", &obj))
 		return 0;
@@ -762,21 +767,25 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	if (!PyPointlessPrimVector_can_resize(self))
 		return 0;
 
+	// on failure, the vector goes back to this length
+	size_t n_before = pointless_dynarray_n_items(&self->array);
+
 	// fast version 1
 	if (PyPointlessPrimVector_Check(obj)) {
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
-					for (j = 0; j < n_append; j++)
-						pointless_dynarray_pop(&self->array);
-
+			// the source may be ourselves: only its current items are copied, and not from memory a push may move
+			size_t n_obj = pointless_dynarray_n_items(&p_obj->array);
+
+			for (i = 0; i < n_obj; i++) {
+				pypointless_number_t number;
+				memcpy(&number, pointless_dynarray_item_at(&p_obj->array, i), p_obj->array.item_size);
+				if (!pointless_dynarray_push(&self->array, &number)) {
+					PyPointlessPrimVector_truncate(self, n_before);
 					PyErr_NoMemory();
 					return 0;
 				}
-				n_append += 1;
 			}
 
 			Py_INCREF(Py_None);
@@ -845,13 +854,10 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 				void* v = (char*)base + (i + p_obj->slice_i) * s;
 
 				if (!pointless_dynarray_push(&self->array, v)) {
-					for (j = 0; j < n_append; j++)
-						pointless_dynarray_pop(&self->array);
-
+					PyPointlessPrimVector_truncate(self, n_before);
 					PyErr_NoMemory();
 					return 0;
 				}
-				n_append += 1;
 			}
 
 			Py_INCREF(Py_None);
@@ -868,18 +874,16 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		if (!PyPointlessPrimVector_append_item(self, item))
 			break;
 
-		n_append += 1;
 		Py_DECREF(item);
 		item = 0;
 	}
 
+	Py_XDECREF(item);
 	Py_DECREF(iterator);
 	iterator = 0;
 
 	if (PyErr_Occurred()) {
-		for (i = 0; i < n_append; i++)
-			pointless_dynarray_pop(&self->array);
-
+		PyPointlessPrimVector_truncate(self, n_before);
 		return 0;
 	}
 
-- 
2.43.0


From f40f9f82e8266040a3229ea6722a5e5a88c49e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 26/50] fix: pop_bulk of a primitive vector shrinks it although
 a memory view of it is live

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9293653..9c92814 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -924,6 +924,9 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 		return 0;
 	}
 
+	if (n > 0 && !PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	for (i = 0; i < n; i++)
 		pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From f5e2cee4833ba74a5a95e4ff6fde7de55c6e2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 27/50] fix: a failed primitive vector construction leaves
 element type and element size at odds, or frees memory a view shows

---
 python/pointless_prim_vector.c | 48 ++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9c92814..ed85fa9 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -308,20 +308,21 @@ static int PyPointlessPrimVector_can_resize(PyPointlessPrimVector* self)
 	return 1;
 }
 
-static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* args, PyObject* kwds)
+static PyObject* PyPointlessPrimVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
-	// if we have a buffer attached, we shouldn't be here
-	if (!PyPointlessPrimVector_can_resize(self))
-		return -1;
+	PyPointlessPrimVector* self = (PyPointlessPrimVector*)PyType_GenericNew(type, args, kwds);
 
-	// printing enabled by default
-	self->allow_print = 1;
-	self->ob_exports = 0;
+	// an empty vector of the first type, until initialized
+	if (self) {
+		pointless_dynarray_init(&self->array, sizeof(int8_t));
+		self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
+	}
 
-	// clear previous contents
-	pointless_dynarray_clear(&self->array);
-	self->type = 0;
+	return (PyObject*)self;
+}
 
+static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* args, PyObject* kwds)
+{
 	// parse input
 	const char* type = 0;
 	Py_buffer buffer;
@@ -339,6 +340,18 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "|ss*OO!", kwargs, &type, &buffer, &sequence_obj, &PyBool_Type, &allow_print))
 		return -1;
 
+	// if we have a buffer attached, we shouldn't be here
+	if (!PyPointlessPrimVector_can_resize(self))
+		goto cleanup;
+
+	// printing enabled by default
+	self->allow_print = 1;
+
+	// clear previous contents, leaving an empty vector of the first type
+	pointless_dynarray_clear(&self->array);
+	pointless_dynarray_init(&self->array, sizeof(int8_t));
+	self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
+
 	if ((type != 0) == (buffer.obj != 0)) {
 		PyErr_SetString(PyExc_TypeError, "exactly one of type/buffer must be specified");
 		goto cleanup;
@@ -384,13 +397,12 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 				item = 0;
 			}
 
+			Py_XDECREF(item);
 			Py_DECREF(iterator);
 			iterator = 0;
 
-			if (PyErr_Occurred()) {
-				pointless_dynarray_destroy(&self->array);
+			if (PyErr_Occurred())
 				goto cleanup;
-			}
 		}
 
 		retval = 0;
@@ -402,12 +414,13 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			goto cleanup;
 		}
 
-		self->type = ((uint32_t*)buffer.buf)[0];
+		uint32_t buffer_type = ((uint32_t*)buffer.buf)[0];
 		uint32_t buffer_n_items = ((uint32_t*)buffer.buf)[1];
 		uint64_t expected_buffer_size = 0;
 
 		for (i = 0; i < POINTLESS_PRIM_VECTOR_N_TYPES; i++) {
-			if (pointless_prim_vector_type_map[i].type == self->type) {
+			if (pointless_prim_vector_type_map[i].type == buffer_type) {
+				self->type = buffer_type;
 				expected_buffer_size += (uint64_t)pointless_prim_vector_type_map[i].typesize * (uint64_t)buffer_n_items;
 				pointless_dynarray_init(&self->array, pointless_prim_vector_type_map[i].typesize);
 				break;
@@ -474,7 +487,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 
 cleanup:
 
-	if (retval == -1)
+	// a view of the contents may be live, taken by the iterator we were given
+	if (retval == -1 && self->ob_exports == 0)
 		pointless_dynarray_clear(&self->array);
 
 	if (buffer.obj)
@@ -2092,7 +2106,7 @@ PyTypeObject PyPointlessPrimVectorType = {
 	0,                                              /*tp_dictoffset */
 	(initproc)PyPointlessPrimVector_init,           /*tp_init */
 	PyType_GenericAlloc,                            /*tp_alloc */
-	PyType_GenericNew,                              /*tp_new */
+	PyPointlessPrimVector_new,                      /*tp_new */
 	PyObject_Del,                                   /* tp_free */
 };
 
-- 
2.43.0


From 168840e2955b158c102b3e1d214de14750e6f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 28/50] fix: slices and remaps of primitive vectors take
 whether they may be printed from uninitialised memory

---
 python/pointless_prim_vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index ed85fa9..402b57c 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -2034,6 +2034,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 		return 0;
 
 	pv->ob_exports = 0;
+	pv->allow_print = self->allow_print;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
 
@@ -2210,6 +2211,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 	}
 
 	pv->ob_exports = 0;
+	pv->allow_print = 1;
 	pv->type = t;
 	pv->array = *v;
 
-- 
2.43.0


From 2ec24711d970d98896851a77871aa57d8e693d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 29/50] fix: FromRemap leaks the items collected so far when an
 index is refused

---
 python/pointless_prim_vector.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 402b57c..eb8eafb 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1853,18 +1853,18 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 
 		if (PyPointlessPrimVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_prim((PyPointlessPrimVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
-			return 0;
+			goto error;
 		}
 
 		if (PyPointlessVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_pointless((PyPointlessVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
-			return 0;
+			goto error;
 		}
 
 		// check for bounds
 		if (index >= n_source) {
 			PyErr_SetString(PyExc_ValueError, "index vector out of bounds");
-			return 0;
+			goto error;
 		}
 
 		// TBD: support more vector types
@@ -1873,12 +1873,17 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 		void* source = pointless_dynarray_item_at(&r_->array, index);
 
 		if (!pointless_dynarray_push(&a_, source)) {
-			pointless_dynarray_destroy(&a_);
-			return PyErr_NoMemory();
+			PyErr_NoMemory();
+			goto error;
 		}
 	}
 
 	return (PyObject*)PyPointlessPrimVector_from_T_vector(&a_, r_->type);
+
+error:
+
+	pointless_dynarray_destroy(&a_);
+	return 0;
 }
 
 #define POINTLESS_PRIMVECTOR_MIN_MAX_LOOP(T, v, n) \
-- 
2.43.0


From 2969d21c110cb4adc943cfa8a32790d61dafec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 30/50] fix: sort_proj does not check the upper bound of a
 projection with signed items

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index eb8eafb..5e6f6d2 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1611,6 +1611,9 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 				case POINTLESS_PRIM_VECTOR_TYPE_U64: v_b = ((uint64_t*)state.p_b)[i]; break;
 			}
 
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
-- 
2.43.0


From ff0f158cc7b51e1692a215669b440ca5c2dbda10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 31/50] fix: min, max and range of a primitive vector always
 return its first item

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 5e6f6d2..19f3763 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1947,6 +1947,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 01c25f686277fdcbbfab86cabf86dd432b1b524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 32/50] fix: constructing a bit vector leaks the sequence's
 iterator and items, swallows its errors and trusts a length it can change

---
 python/pointless_bitvector.c | 68 +++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 6c7ad68..359530a 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -124,19 +124,16 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		n_items = 0;
 	}
 
-	self->primitive_n_bits = (uint32_t)n_items;
-	self->primitive_bits = 0;
-	self->primitive_n_bytes_alloc = (uint32_t)ICEIL(n_items, 8);
-
 	if (n_items > 0) {
-		self->primitive_bits = pointless_calloc(self->primitive_n_bytes_alloc, 1);
+		self->primitive_bits = pointless_calloc((uint32_t)ICEIL(n_items, 8), 1);
 
 		if (self->primitive_bits == 0) {
-			self->primitive_n_bytes_alloc = 0;
-			Py_XDECREF(sequence_iterator);
 			PyErr_NoMemory();
 			return -1;
 		}
+
+		self->primitive_n_bits = (uint32_t)n_items;
+		self->primitive_n_bytes_alloc = (uint32_t)ICEIL(n_items, 8);
 	}
 
 	// if we have a sequence
@@ -145,50 +142,51 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 	if (sequence_iterator != 0) {
 		// for each object
 		PyObject* obj = 0;
-		size_t i = 0;
 
-		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
-			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
-				is_error = 1;
-			// 0) PyIter_Next() failure
-			} else if (obj == 0) {
-				is_error = 1;
+		while (!is_error && (obj = PyIter_Next(sequence_iterator)) != 0) {
+			int is_true = 0;
+
 			// 1) boolean
-			} else if (PyBool_Check(obj)) {
-				if (obj == Py_True) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
-				}
-			// 3) long (must be 0 or 1)
+			if (PyBool_Check(obj)) {
+				is_true = (obj == Py_True);
+			// 2) long (must be 0 or 1)
 			} else if (PyLong_Check(obj) || PyLong_CheckExact(obj)) {
 				PY_LONG_LONG v = PyLong_AsLongLong(obj);
 
 				if (PyErr_Occurred() || (v != 0 && v != 1)) {
 					PyErr_Clear();
 					is_error = 1;
-				} else if (v == 1) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
 				}
-			// 4) nothong else allowed
+
+				is_true = (v == 1);
+			// 3) nothing else allowed
 			} else {
 				is_error = 1;
 			}
 
-			if (is_error) {
-				pointless_free(self->primitive_bits);
-				self->primitive_n_bits = 0;
-				self->primitive_bits = 0;
-				self->primitive_n_bytes_alloc = 0;
-				self->primitive_n_one = 0;
+			if (!is_error && !PyPointlessBitvector_extend_by(self, 1, is_true))
+				is_error = 1;
+
+			Py_DECREF(obj);
+		}
 
-				if (!PyErr_Occurred())
-					PyErr_SetString(PyExc_ValueError, "sequence must only contain True, False, 0 or 1");
+		Py_DECREF(sequence_iterator);
 
-				return -1;
-			}
+		// PyIter_Next() failure
+		if (PyErr_Occurred())
+			is_error = 1;
+
+		if (is_error) {
+			pointless_free(self->primitive_bits);
+			self->primitive_n_bits = 0;
+			self->primitive_bits = 0;
+			self->primitive_n_bytes_alloc = 0;
+			self->primitive_n_one = 0;
 
-			i += 1;
+			if (!PyErr_Occurred())
+				PyErr_SetString(PyExc_ValueError, "sequence must only contain True, False, 0 or 1");
+
+			return -1;
 		}
 	}
 
-- 
2.43.0


From c5216d097214ba000cd1b83f8a2ae2e3ce34ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 33/50] fix: deleting an item of a bit vector dereferences a
 null pointer

---
 python/pointless_bitvector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 359530a..b11fd4c 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -256,6 +256,11 @@ static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObje
 		return -1;
 	}
 
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "bit vector items can not be deleted");
+		return -1;
+	}
+
 	// get the index
 	Py_ssize_t i;
 
-- 
2.43.0


From 8426e4090efcc4ccca09d3285a86b807476f6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 34/50] fix: pop of a bit vector leaves the bit in its hash,
 its exported bytes and its count of set bits

---
 python/pointless_bitvector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index b11fd4c..ce2ff1f 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -697,6 +697,12 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 
 	self->primitive_n_bits -= 1;
 
+	// unused bits are always zero
+	bm_reset_(self->primitive_bits, self->primitive_n_bits);
+
+	if (is_set)
+		self->primitive_n_one -= 1;
+
 	if (is_set) {
 		Py_RETURN_TRUE;
 	} else {
-- 
2.43.0


From e981054dd524f271a08446e7a9e5687c8edfa78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 35/50] fix: append_bulk of a bit vector writes past its end
 when given itself, and does not count the bits it sets

---
 python/pointless_bitvector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index ce2ff1f..9be9018 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -648,12 +648,17 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 
 	size_t n_before = self->primitive_n_bits;
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	// the other one may be ourselves
+	size_t n_other = (size_t)PyPointlessBitvector_length(other);
+
+	if (!PyPointlessBitvector_extend_by(self, (uint32_t)n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+	for (size_t i = 0; i < n_other; i++) {
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
-- 
2.43.0


From 3589470a8924906949d04c697e9933019cea6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 36/50] fix: a copied bit vector takes whether it may be
 printed from uninitialised memory

---
 python/pointless_bitvector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 9be9018..5962394 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -757,6 +757,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 
 	pv->is_pointless = 0;
 	pv->pp = 0;
+	pv->allow_print = self->is_pointless ? self->pp->allow_print : self->allow_print;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
 	pv->primitive_bits = bits;
@@ -959,8 +960,11 @@ PyPointlessBitvector* PyPointlessBitvector_New(PyPointless* pp, pointless_value_
 	pv->is_pointless = 1;
 	pv->pp = pp;
 	pv->v = *v;
+	pv->allow_print = 1;
 	pv->primitive_n_bits = 0;
 	pv->primitive_bits = 0;
+	pv->primitive_n_bytes_alloc = 0;
+	pv->primitive_n_one = 0;
 
 	return pv;
 }
-- 
2.43.0


From 911bd04f3f796c89f2883189a54501d7b9cc54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 37/50] fix: re-initialising a stored bit vector from two
 threads releases its handle twice

---
 python/pointless_bitvector.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 5962394..7263e31 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -65,11 +65,9 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 
 	if (self->pp) {
 		self->pp->n_bitvector_refs -= 1;
-		Py_DECREF(self->pp);
+		Py_CLEAR(self->pp);
 	}
 
-	self->pp = 0;
-
 	pointless_free(self->primitive_bits);
 	self->primitive_n_bits = 0;
 	self->primitive_bits = 0;
-- 
2.43.0


From 9b6d0b915e8e9fa6875c0424466664ef2972c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 38/50] fix: memory view of a vector of values is an error, not
 an empty (NULL) view

---
 python/pointless_vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index adc310b..10bc1c1 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -496,6 +496,12 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 	if (view == 0)
 		return 0;
 
+	if (!pointless_is_prim_vector(&self->v)) {
+		PyErr_SetString(PyExc_BufferError, "only primitive vectors support the buffer protocol");
+		view->obj = 0;
+		return -1;
+	}
+
 	void* ptr = pointless_prim_vector_base_ptr(self);
 	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
 }
-- 
2.43.0


From c29dd42e036b5d45622ea77069ce28acb259d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 39/50] fix: vectors, sets and maps cannot be created without a
 handle, which crashed when used

---
 python/pointless_map.c    | 14 +-------------
 python/pointless_set.c    | 14 +-------------
 python/pointless_vector.c | 17 +----------------
 3 files changed, 3 insertions(+), 42 deletions(-)

diff --git a/python/pointless_map.c b/python/pointless_map.c
index 13fd1e7..784c5b9 100644
--- a/python/pointless_map.c
+++ b/python/pointless_map.c
@@ -36,18 +36,6 @@ static void PyPointlessMapItemIter_dealloc(PyPointlessMapItemIter* self)
 	Py_TYPE(self)->tp_free(self);
 }
 
-PyObject* PyPointlessMap_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
-{
-	PyPointlessMap* self = (PyPointlessMap*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
-}
-
 PyObject* PyPointlessMapKeyIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
 	PyPointlessMapKeyIter* self = (PyPointlessMapKeyIter*)type->tp_alloc(type, 0);
@@ -430,7 +418,7 @@ PyTypeObject PyPointlessMapType = {
 	0,                                   /*tp_dictoffset */
 	(initproc)PyPointlessMap_init,       /*tp_init */
 	0,                                   /*tp_alloc */
-	PyPointlessMap_new,                  /*tp_new */
+	0,                                   /*tp_new: these only come from a handle */
 };
 
 PyTypeObject PyPointlessMapKeyIterType = {
diff --git a/python/pointless_set.c b/python/pointless_set.c
index e5a4955..7abda2e 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -20,18 +20,6 @@ static void PyPointlessSetIter_dealloc(PyPointlessSetIter* self)
 	Py_TYPE(self)->tp_free(self);
 }
 
-PyObject* PyPointlessSet_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
-{
-	PyPointlessSet* self = (PyPointlessSet*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
-}
-
 PyObject* PyPointlessSetIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
 	PyPointlessSetIter* self = (PyPointlessSetIter*)type->tp_alloc(type, 0);
@@ -178,7 +166,7 @@ PyTypeObject PyPointlessSetType = {
 	0,                                   /*tp_dictoffset */
 	0,       /*tp_init */
 	0,                                   /*tp_alloc */
-	PyPointlessSet_new,                  /*tp_new */
+	0,                                   /*tp_new: these only come from a handle */
 };
 
 PyTypeObject PyPointlessSetIterType = {
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index 10bc1c1..3260ee8 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -24,21 +24,6 @@ static void PyPointlessVectorRevIter_dealloc(PyPointlessVectorRevIter* self)
     Py_TYPE(self)->tp_free((PyObject*) self);
 }
 
-static PyObject* PyPointlessVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
-{
-	PyPointlessVector* self = (PyPointlessVector*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-		self->is_hashable = 0;
-		self->slice_i = 0;
-		self->slice_n = 0;
-	}
-
-	return (PyObject*)self;
-}
-
 
 static PyObject* PyPointlessVectorIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
@@ -791,7 +776,7 @@ PyTypeObject PyPointlessVectorType = {
 	.tp_iter = PyPointlessVector_iter,
 	.tp_methods = PyPointlessVector_methods,
 	.tp_alloc = PyType_GenericAlloc,
-	.tp_new = PyPointlessVector_new,
+	.tp_new = 0, // these only come from a handle
 	.tp_free = PyObject_Del,
 
 	.tp_dealloc = (destructor)PyPointlessVector_dealloc,
-- 
2.43.0


From 484f68c29c2d08f734a26a8cb82788555c88d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 40/50] fix: running out of memory while a full JudyL root leaf
 is split leaks the leaf and the root

---
 judy-1.0.5/src/JudyCommon/JudyCascade.c | 2 +-
 judy-1.0.5/src/JudyCommon/JudyIns.c     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyCascade.c b/judy-1.0.5/src/JudyCommon/JudyCascade.c
index 6b52ddf..d751d03 100644
--- a/judy-1.0.5/src/JudyCommon/JudyCascade.c
+++ b/judy-1.0.5/src/JudyCommon/JudyCascade.c
@@ -1793,7 +1793,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 #endif  // 32BIT
 //		Create a 1 element Linear branch
 		if (j__udyCreateBranchL(Pjp, StageJP, StageExp, 1, Pjpm) == -1)
-		    return(-1);
+		    FREEALLEXIT(1, StageJP, Pjpm);
 
 //		Change the type of callers JP
 		Pjp->jp_Type = cJU_JPBRANCH_L;
diff --git a/judy-1.0.5/src/JudyCommon/JudyIns.c b/judy-1.0.5/src/JudyCommon/JudyIns.c
index f96df41..4bc4401 100644
--- a/judy-1.0.5/src/JudyCommon/JudyIns.c
+++ b/judy-1.0.5/src/JudyCommon/JudyIns.c
@@ -1825,6 +1825,7 @@ FUNCTION PPvoid_t JudyLIns
             if (j__udyCascadeL(&(Pjpm->jpm_JP), Pjpm) == -1)
             {
                 JU_COPY_ERRNO(PJError, Pjpm);
+                j__udyFreeJPM(Pjpm, NULL);
                 JUDY1CODE(return(JERRI );)
                 JUDYLCODE(return(PPJERR);)
             }
-- 
2.43.0


From 967aec59b6c7ec577ef0c4836cafee7e3ce10efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 41/50] fix: files of the 32-bit offset version are refused,
 not read as if they had 64-bit offsets

---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 3960fe0..0f2c21d 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From 229eb21735b62d91492d28349b086c92ac3208e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 42/50] fix: a mapping which failed is not unmapped

---
 src/pointless_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 0f2c21d..56b7c68 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -115,6 +115,7 @@ static int _pointless_open_f(pointless_t* p, const char* fname, int do_validate,
 
 	if (p->fd_ptr == MAP_FAILED) {
 		*error = "mmap error";
+		p->fd_ptr = 0;
 		pointless_close(p);
 		return 0;
 	}
-- 
2.43.0


From 374c58ed6d3023df511bc7ff21ee38df37c1888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 43/50] fix: an export refused for its version releases the
 creator state

---
 src/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4babd1e..1ee1488 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -713,11 +713,13 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		case POINTLESS_FF_VERSION_OFFSET_32_OLDHASH:
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 	}
 
-- 
2.43.0


From af28901f73e6803651c7c70500d8d4db5860410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 44/50] fix: look up UCS-4 keys by the hash of all their
 characters

pointless_get_mapping_unicode_to_value/_to_u32 hashed the key as if it were
a byte string, which stops at the first zero byte, so keys of more than one
character were never found.
---
 src/pointless_reader_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index f70553b..38651a4 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -290,13 +290,13 @@ int pointless_get_mapping_string_n_to_value(pointless_t* p, pointless_value_t* m
 
 int pointless_get_mapping_unicode_to_value(pointless_t* p, pointless_value_t* map, uint32_t* key, pointless_value_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, get_value, 0, (void*)value);
 }
 
 int pointless_get_mapping_unicode_to_u32(pointless_t* p, pointless_value_t* map, uint32_t* key, uint32_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, check_and_get_u32, 0, (void*)value);
 }
 
-- 
2.43.0


From 685f046b7fb0fd1e71933e8b44ca75f75afc1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 45/50] fix: hash 64-bit integers like the 32-bit integers they
 equal

Files store the hash of an integer, and of the items of an i64 or u64
vector, modulo 2^32. Reducing by UINT32_MAX made the C lookups miss the
keys -1 and 4294967295, and gave primitive vectors another hash than the
same vector read from a file.
---
 src/pointless_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 0351add..284d791 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -84,12 +84,12 @@ uint32_t pointless_hash_i64_32(int64_t v)
 	} h;
 
 	h.i = v;
-	return (uint32_t)(h.u % UINT32_MAX);
+	return (uint32_t)h.u;
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
-	return (uint32_t)(v % UINT32_MAX);
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_bool_true_32()
-- 
2.43.0


From 2ec8c69c1e4d5821e6eec364dd49e56081a22823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 46/50] fix: the hash of an empty counted string does not read
 what follows it

---
 src/pointless_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 284d791..b0b2b6d 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -6,7 +6,7 @@
 #include <pointless/pointless_bitvector.h>
 
 #define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) ? (uint32_t)(*p) << 7 : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
-- 
2.43.0


From ce9a729c56eb103a77a93989a159f520a7254232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 47/50] fix: accept a sign before an integer in a path
 expression

The number after '+' or '-' was never parsed, so such an expression was
always rejected.
---
 src/pointless_eval.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index d3406a5..c45a614 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -61,13 +61,12 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		// integer
 		case '-':
-			is_neg = 1;
-			break;
 		case '+':
+			is_neg = (*e == '-');
 			e += 1;
 			if (!('0' <= *e && *e  <= '9'))
 				return 0;
-			break;
+			// fall through
 		case '0':
 		case '1':
 		case '2':
-- 
2.43.0


From 275ca25bc25b45ed095da89db6d3e5b4b9c1dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 48/50] fix: a path expression does not hand out truncated
 64-bit items

A value has no room for an item of an i64 or u64 vector. Items that fit are
now delivered as 32-bit integers, others are reported as not found, where
they were cut off (or stopped by an assertion).
---
 src/pointless_eval.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index c45a614..13ebb6f 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -162,6 +162,15 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		if (pointless_is_vector_type(root->type)) {
 			pointless_complete_value_t v = pointless_reader_vector_value_case(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i);
+
+			// normal value has no space for 64-bit integers
+			if (v.type == POINTLESS_I64 && INT32_MIN <= v.complete_data.data_i64 && v.complete_data.data_i64 < 0)
+				v = pointless_complete_value_create_as_read_i32((int32_t)v.complete_data.data_i64);
+			else if ((v.type == POINTLESS_I64 || v.type == POINTLESS_U64) && v.complete_data.data_u64 <= UINT32_MAX)
+				v = pointless_complete_value_create_as_read_u32((uint32_t)v.complete_data.data_u64);
+			else if (v.type == POINTLESS_I64 || v.type == POINTLESS_U64)
+				return 0;
+
 			*root = pointless_value_from_complete(&v);
 		} else {
 			if (pointless_reader_bitvector_is_set(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i))
-- 
2.43.0


From 23d25cba847e3e6d04f3ac76b6754e3450ddfed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 49/50] fix: compare 64-bit items when filling a hash table

---
 src/pointless_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index da6bab0..33dd5aa 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -469,6 +469,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 			return pointless_cmp_create_string_unicode;
 		case POINTLESS_I32:
 		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
 		case POINTLESS_BOOLEAN:
 		case POINTLESS_FLOAT:
 			return pointless_cmp_create_int_float;
-- 
2.43.0


From efc502f0e726bd5f2ea190db8920d0d0ad317e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 50/50] fix: compare the items of typed vectors which the
 library holds

---
 src/pointless_cmp.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 33dd5aa..dcaedee 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -293,8 +293,13 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 	pointless_complete_create_value_t vi;
 	pointless_create_value_t _v = pointless_create_value_from_complete(v);
 
-	// outside vectors are the hardest
-	if (v->header.is_outside_vector) {
+	// value based vectors, compressed or not, hold handles, others hold the items themselves
+	int holds_handles = (v->header.type_29 == POINTLESS_VECTOR_VALUE || v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE || v->header.is_compressed_vector);
+
+	// typed vectors are the hardest
+	if (!holds_handles) {
+		void* items = v->header.is_outside_vector ? cv_get_outside_vector(&_v)->items : (void*)cv_get_priv_vector(&_v)->vector._data;
+
 		// reset the value
 		vi.header.type_29 = POINTLESS_NULL;
 		vi.header.is_outside_vector = v->header.is_outside_vector;
@@ -305,31 +310,31 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 
 		switch (v->header.type_29) {
 			case POINTLESS_VECTOR_I8:
-				vi = pointless_complete_value_create_i32(((int8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U8:
-				vi = pointless_complete_value_create_u32(((uint8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I16:
-				vi = pointless_complete_value_create_i32(((int16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U16:
-				vi = pointless_complete_value_create_u32(((uint16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I32:
-				vi = pointless_complete_value_create_i32(((int32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U32:
-				vi = pointless_complete_value_create_u32(((uint32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I64:
-				vi = pointless_complete_value_create_i64(((int64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i64(((int64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U64:
-				vi = pointless_complete_value_create_u64(((uint64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u64(((uint64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_FLOAT:
-				vi = pointless_complete_value_create_float(((float*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_float(((float*)items)[i]);
 				break;
 			default:
 				assert(0);
-- 
2.43.0

