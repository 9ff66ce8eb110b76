/*@vc
prop C24
src raii.c
func type_of is_type is_instance_of is_value is_instance is_valid is_guard is_empty is_zero is_true is_false
cases K 0 14
unwind 2
replay
doc type queries on every kind of object the library defines (one case each), any content, any tag: they read exactly the tag in the common prefix; value and instance kinds by the order of the type list, named kinds on their side of it; guard/null/zero/truth tests
@*/
#include "vc.h"
#include "raii.h"
#include "src_raii.c"
#ifndef VC_NATIVE
#include "vc_loops.h"
#endif
#define KINDS(X) X(0, var_t) X(1, object_t) X(2, raii_array_t) X(3, defer_t) X(4, defer_func_t) X(5, struct args_s) X(6, promise) X(7, thrd_values_t) \
    X(8, future_arg) X(9, struct result_data) X(10, struct future_pool) X(11, struct _future) X(12, ex_ptr_t) X(13, ex_context_t) X(14, struct arena_s)
#define X(i, T) typedef T kind_##i;
KINDS(X)
#undef X
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
typedef CAT(kind_, K) kind;
static kind obj, other_kind; static var_t other;
static int named(unsigned t)    /* 1: a value kind, 2: an instance kind, 0: neither, by the meaning of the names */
{
    switch (t) {
    case RAII_INT: case RAII_ENUM: case RAII_INTEGER: case RAII_UINT: case RAII_SLONG: case RAII_ULONG: case RAII_LLONG: case RAII_MAXSIZE: case RAII_FLOAT:
    case RAII_DOUBLE: case RAII_BOOL: case RAII_SHORT: case RAII_USHORT: case RAII_CHAR: case RAII_UCHAR: case RAII_UCHAR_P: case RAII_CHAR_P: case RAII_CONST_CHAR:
    case RAII_STRING: case RAII_ARRAY: case RAII_HASH: case RAII_OBJ: case RAII_PTR: case RAII_FUNC: return 1;
    case RAII_DEF_ARR: case RAII_DEF_FUNC: case RAII_ROUTINE: case RAII_OA_HASH: case RAII_REFLECT_TYPE: case RAII_REFLECT_INFO: case RAII_REFLECT_VALUE:
    case RAII_MAP_VALUE: case RAII_MAP_STRUCT: case RAII_MAP_ITER: case RAII_MAP_ARR: case RAII_ERR_PTR: case RAII_ERR_CONTEXT: case RAII_PROMISE: case RAII_FUTURE:
    case RAII_FUTURE_ARG: case RAII_EVENT_ARG: case RAII_ARGS: case RAII_PROCESS: case RAII_SCHED: case RAII_CHANNEL: case RAII_STRUCT: case RAII_UNION: case RAII_VALUE: return 2;
    }
    return 0;
}
void harness(void)
{
    size_t j; uint32_t t = nd_u32();
#ifdef VC_NATIVE
    for (j = 0; j < sizeof obj; j++) ((char *)&obj)[j] = (char)0x5a;
#endif
    obj.type = t; other.type = nd_u32();
    CHECK((uint32_t)type_of(&obj) == t, "type_of reads the tag of the object");
    uint32_t c = nd_u32();
    CHECK(is_type(&obj, c) == (t == c), "is_type is equality with the tag");
    CHECK(is_instance_of(&obj, &other) == (t == (uint32_t)other.type), "is_instance_of compares the tags");
    CHECK(is_value(&obj) == (named(t) == 1), "is_value exactly for the value kinds");
    CHECK(is_instance(&obj) == (named(t) == 2), "is_instance exactly for the instance kinds");
    CHECK(is_valid(&obj) == (named(t) != 0), "is_valid exactly for value and instance kinds");
    CHECK((uint32_t)obj.type == t, "queries do not change the object");
    unique_t g; int st = nd_i32(); g.status = st;
    CHECK(is_guard(&g) == (st == RAII_GUARDED_STATUS), "is_guard exactly for a scope with guard status");
    CHECK(!is_guard(NULL), "null is no guard");
    CHECK(is_empty(NULL) && !is_empty(&obj), "is_empty exactly for null");
    size_t z = nd_size(); CHECK(is_zero(z) == (z == 0), "is_zero exactly for zero");
    bool b = nd_bool(); CHECK(is_true(b) == b && is_false(b) == !b, "truth tests");
    CHECK(RAII_NULL != RAII_NAN && named(RAII_NULL) == 0 && named(RAII_NAN) == 0 && named(RAII_NO_INSTANCE) == 0 && named(RAII_ARENA) == 0 && named(RAII_POOL) == 0
        && named(RAII_SPAWN) == 0 && named(RAII_SYNC) == 0 && named(RAII_GUARDED_STATUS) == 0 && named(RAII_THREAD) == 0 && named(RAII_QUEUE) == 0, "markers and non-instance tags are neither");
    REACH("types");
}
