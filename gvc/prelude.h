/* Included before every extracted source file (-include). Turns GLib's inlined
 * convenience macros back into plain calls and makes variable-argument access explicit,
 * so that the IR shows calls the contracts are stated on. No library source is touched. */
#include <stdarg.h>
#include <string.h>
#include <glib.h>
#include <glib-object.h>
#undef g_strdup
#undef g_string_append_c
#undef g_string_append_len
#undef g_string_append
#undef g_string_truncate
#undef g_utf8_next_char
#undef va_start
#undef va_end
#undef va_arg
#undef va_copy
void gvc_va_start(void* va);
void gvc_va_end(void* va);
void gvc_va_copy(void* d, void* s);
void* gvc_va_arg_ptr(void* va);
#define va_start(v,l) gvc_va_start((void*)(v))
#define va_end(v) gvc_va_end((void*)(v))
#define va_copy(d,s) gvc_va_copy((void*)(d),(void*)(s))
#define va_arg(v,t) ((t)gvc_va_arg_ptr((void*)(v)))
