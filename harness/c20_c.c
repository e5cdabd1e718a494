// what the C macros make of plain C structs
#include <dnmx/mixin_info_util.h>
typedef struct c_plain { char a; int b; } c_plain;
typedef struct c_big { double d[7]; char c; } c_big;
void c20_c_plain(dnmx_mixin_info* i) { DNMX_COMMON_INIT_MI(*i, c_plain); }
void c20_c_big(dnmx_mixin_info* i) { DNMX_COMMON_INIT_MI(*i, c_big); }
void c20_c_empty(dnmx_mixin_info* i) { DNMX_COMMON_INIT_EMPTY_MI(*i, "c_empty"); }
unsigned c20_c_size(int w) { return w == 0 ? sizeof(c_plain) : w == 1 ? sizeof(c_big) : 0; }
unsigned c20_c_align(int w) { return w == 0 ? _Alignof(c_plain) : w == 1 ? _Alignof(c_big) : 0; }
