/* Instances of the macros of gutil_version.h, which have no code of their own; the constants are those of gutil_version.c */
#include "gutil_version.c"

guint w_pack(guint a, guint b, guint c) { return GUTIL_VERSION_(a, b, c); }
int w_packi(int a, int b, int c) { return GUTIL_VERSION_(a, b, c); }
guint w_pack_choice(gboolean p, guint a, guint b, guint c, guint x, guint y, guint z) { return GUTIL_VERSION_(p ? a : x, p ? b : y, p ? c : z); }
guint w_pack_less(guint a, guint b, guint c) { return GUTIL_VERSION_(a, b, c) - GUTIL_VERSION_(a, b, c) / 2; }
gboolean w_order(guint a, guint b, guint c, guint x, guint y, guint z) { return GUTIL_VERSION_(a, b, c) < GUTIL_VERSION_(x, y, z); }
guint w_major(guint v) { return GUTIL_VERSION_MAJOR_(v); }
guint w_minor(guint v) { return GUTIL_VERSION_MINOR_(v); }
guint w_micro(guint v) { return GUTIL_VERSION_MICRO_(v); }
guint w_major_choice(gboolean p, guint v, guint w) { return 3 * GUTIL_VERSION_MAJOR_(p ? v : w); }
guint w_minor_choice(gboolean p, guint v, guint w) { return 3 * GUTIL_VERSION_MINOR_(p ? v : w); }
guint w_micro_choice(gboolean p, guint v, guint w) { return 3 * GUTIL_VERSION_MICRO_(p ? v : w); }
guint w_current(void) { return GUTIL_VERSION; }
guint w_runtime(void) { return gutil_version(); }
guint w_number(int i) { return i == 0 ? gutil_version_major : i == 1 ? gutil_version_minor : gutil_version_micro; }
guint w_defined(int i) { return i == 0 ? GUTIL_VERSION_MAJOR : i == 1 ? GUTIL_VERSION_MINOR : GUTIL_VERSION_MICRO; }
guint w_runtime_less(guint x) { return gutil_version() - x; }
#define NAMED(n) guint w_named_##n(void) { return GUTIL_VERSION_1_0_##n; }
NAMED(69) NAMED(70) NAMED(71) NAMED(72) NAMED(73) NAMED(74) NAMED(75) NAMED(76) NAMED(77) NAMED(78) NAMED(79)
