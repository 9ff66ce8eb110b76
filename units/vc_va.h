/* Variadic arguments as a contract: the arguments are a sequence; va_arg yields the current one as the requested type
 * and moves on, va_copy duplicates the position, va_start begins at the first, va_end ends the use.
 * Include before raii.h; the unit defines vc_arg(ap): the address of the current argument. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include <wchar.h>
#include <execinfo.h>
struct vc_va { size_t pos; bool live; };
static void *vc_arg(struct vc_va *ap);
/* how the current argument is taken: size and whether as a floating point number */
static size_t vc_arg_size; static int vc_arg_fp;
#undef va_list
#undef va_start
#undef va_arg
#undef va_copy
#undef va_end
#define va_list struct vc_va
#define va_start(ap, last) ((ap).pos = 0, (ap).live = true)
#define va_copy(d, s) ((d) = (s))
#define va_end(ap) ((ap).live = false)
#define va_arg(ap, T) (*(vc_arg_size = sizeof(T), vc_arg_fp = _Generic(*(T *)0, double: 1, default: 0), (T *)vc_arg(&(ap))))
