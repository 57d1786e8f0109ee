/* simx: the simulator's allocator seam.
 *
 * PHP already has a seam for its allocator (zend_mm_set_custom_handlers); this extension owns it.
 * Every emalloc/efree/erealloc of the process goes through here, so the simulator can
 *  - count live blocks and bytes (leak oracle), and
 *  - fail the k-th allocation after arming, exactly like PHP's own "Allowed memory size exhausted"
 *    fatal error does (fault injection).
 * Nothing here reads a clock or a random source. */
#include "php.h"
#include "zend_alloc.h"
#include "zend_exceptions.h"
#include <unistd.h>
#include <malloc.h>

static void *(*prev_malloc)(size_t);
static void (*prev_free)(void *);
static void *(*prev_realloc)(void *, size_t);
static zend_long live_blocks, total_allocs, fail_at, fired, big_denied;
static zend_long count_since_arm;
static zend_long live_bytes, total_bytes, peak_bytes;
static bool armed, installed, paused;
/* Single requests above this are refused like PHP's memory_limit would. */
#define SIMX_MAX ((size_t)256 << 20)

static ZEND_COLD void simx_oom(size_t size, bool big)
{
	armed = false;
	if (big) { big_denied++; }
	fired++;
	zend_error_noreturn(E_ERROR, "Allowed memory size of 134217728 bytes exhausted (tried to allocate %zu bytes) [simx%s]", size, big ? " big" : "");
}

static void simx_tick(size_t size)
{
	total_allocs++;
	if (UNEXPECTED(size > SIMX_MAX)) {
		simx_oom(size, true);
	}
	if (armed && !paused) {
		count_since_arm++;
		if (fail_at > 0 && count_since_arm == fail_at) {
			simx_oom(size, false);
		}
	}
}
/* the engine's own pages (compiler arena, VM stack) come and go at moments of their own: not counted */
static zend_long simx_size(size_t size) { return size == 65536 || size == 262144 ? 0 : (size ? (zend_long) size : 1); }
static void simx_grow(zend_long by, zend_long size)
{
	live_bytes += by;
	total_bytes += size;
	if (live_bytes > peak_bytes) { peak_bytes = live_bytes; }
}
static void *simx_malloc(size_t size) { simx_tick(size); live_blocks++; simx_grow(simx_size(size), simx_size(size)); return prev_malloc(size); }
/* (under AddressSanitizer malloc_usable_size() is exactly the size asked for) */
static void simx_free(void *p) { if (p) { live_blocks--; live_bytes -= simx_size(malloc_usable_size(p)); prev_free(p); } }
static void *simx_realloc(void *p, size_t size)
{
	simx_tick(size);
	if (!p) { live_blocks++; }
	simx_grow(simx_size(size) - (p ? simx_size(malloc_usable_size(p)) : 0), simx_size(size));
	return prev_realloc(p, size);
}

/* simx_install(): bool */
PHP_FUNCTION(simx_install)
{
	ZEND_PARSE_PARAMETERS_NONE();
	if (installed) { RETURN_TRUE; }
	zend_mm_heap *heap = zend_mm_get_heap();
	if (!zend_mm_is_custom_heap(heap)) { RETURN_FALSE; }
	zend_mm_get_custom_handlers(heap, &prev_malloc, &prev_free, &prev_realloc);
	if (!prev_malloc) { RETURN_FALSE; }
	zend_mm_set_custom_handlers(heap, simx_malloc, simx_free, simx_realloc);
	installed = true;
	RETURN_TRUE;
}
/* simx_arm(int k): fail the k-th allocation from now on (0: only count) */
PHP_FUNCTION(simx_arm)
{
	zend_long k;
	ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_LONG(k) ZEND_PARSE_PARAMETERS_END();
	fail_at = k; count_since_arm = 0; armed = true;
}
PHP_FUNCTION(simx_disarm)
{
	ZEND_PARSE_PARAMETERS_NONE();
	armed = false;
	RETURN_LONG(count_since_arm);
}
/* simx_pause(bool): while true the simulator's own bookkeeping runs and its allocations neither count nor fail; returns the previous state */
PHP_FUNCTION(simx_pause)
{
	bool p;
	ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_BOOL(p) ZEND_PARSE_PARAMETERS_END();
	RETVAL_BOOL(paused);
	paused = p;
}
/* simx_stat(0)=live blocks, 1=total allocations, 2=faults fired, 3=refused huge requests, 4=live bytes, 5=bytes ever requested, 6=most live bytes since the last simx_stat(6) */
PHP_FUNCTION(simx_stat)
{
	zend_long which;
	ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_LONG(which) ZEND_PARSE_PARAMETERS_END();
	switch (which) {
		case 0: RETURN_LONG(live_blocks);
		case 1: RETURN_LONG(total_allocs);
		case 2: RETURN_LONG(fired);
		case 4: RETURN_LONG(live_bytes);
		case 5: RETURN_LONG(total_bytes);
		case 6: { zend_long p = peak_bytes; peak_bytes = live_bytes; RETURN_LONG(p); }
		default: RETURN_LONG(big_denied);
	}
}
/* simx_exit(int code): leave at once, without PHP's request shutdown */
PHP_FUNCTION(simx_exit)
{
	zend_long code;
	ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_LONG(code) ZEND_PARSE_PARAMETERS_END();
	_exit((int)code);
}
/* simx_raw(string class): an object as unserialize() creates it before it calls __unserialize() */
PHP_FUNCTION(simx_raw)
{
	zend_class_entry *ce = NULL;
	ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_CLASS(ce) ZEND_PARSE_PARAMETERS_END();
	object_init_ex(return_value, ce);
}
static void simx_unguard_zval(zval *v, int depth)
{
	ZVAL_DEREF(v);
	if (depth > 12) { return; }
	if (Z_TYPE_P(v) == IS_ARRAY && !(GC_FLAGS(Z_ARR_P(v)) & GC_IMMUTABLE)) {
		GC_TRY_UNPROTECT_RECURSION(Z_ARR_P(v));
		zval *e;
		ZEND_HASH_FOREACH_VAL(Z_ARR_P(v), e) { simx_unguard_zval(e, depth + 1); } ZEND_HASH_FOREACH_END();
	} else if (Z_TYPE_P(v) == IS_OBJECT) {
		zend_object *o = Z_OBJ_P(v);
		if (GC_IS_RECURSIVE(o)) { GC_UNPROTECT_RECURSION(o); }
		for (int i = 0; i < o->ce->default_properties_count; i++) { if (Z_TYPE(o->properties_table[i]) != IS_UNDEF) { simx_unguard_zval(&o->properties_table[i], depth + 1); } }
	}
}
/* simx_unguard(mixed): clear the recursion marks a fatal error inside var_dump() and the like leaves on arrays and objects */
PHP_FUNCTION(simx_unguard)
{
	zval *v;
	ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_ZVAL(v) ZEND_PARSE_PARAMETERS_END();
	simx_unguard_zval(v, 0);
}
ZEND_BEGIN_ARG_INFO_EX(ai_none, 0, 0, 0) ZEND_END_ARG_INFO()
ZEND_BEGIN_ARG_INFO_EX(ai_one, 0, 0, 1) ZEND_ARG_INFO(0, n) ZEND_END_ARG_INFO()
static const zend_function_entry simx_functions[] = {
	PHP_FE(simx_install, ai_none)
	PHP_FE(simx_unguard, ai_one)
	PHP_FE(simx_arm, ai_one)
	PHP_FE(simx_disarm, ai_none)
	PHP_FE(simx_pause, ai_one)
	PHP_FE(simx_stat, ai_one)
	PHP_FE(simx_exit, ai_one)
	PHP_FE(simx_raw, ai_one)
	PHP_FE_END
};
zend_module_entry simx_module_entry = {
	STANDARD_MODULE_HEADER, "simx", simx_functions, NULL, NULL, NULL, NULL, NULL, "1", STANDARD_MODULE_PROPERTIES
};
ZEND_GET_MODULE(simx)
