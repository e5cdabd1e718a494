// the C side of string views
#include <dnmx/bits/sv.h>
int c22_cmp(dnmx_sv a, dnmx_sv b) { return dnmx_sv_cmp(a, b); }
bool c22_eq(dnmx_sv a, dnmx_sv b) { return dnmx_sv_eq(a, b); }
bool c22_is_null(dnmx_sv a) { return dnmx_sv_is_null(a); }
bool c22_is_empty(dnmx_sv a) { return dnmx_sv_is_empty(a); }
size_t c22_len(dnmx_sv a) { return dnmx_sv_len(a); }
bool c22_starts_with(dnmx_sv a, const char* p) { return dnmx_sv_starts_with(a, p); }
const char* c22_find_first(dnmx_sv a, char c) { return dnmx_sv_find_first(a, c); }
const char* c22_find_last(dnmx_sv a, char c) { return dnmx_sv_find_last(a, c); }
dnmx_sv c22_str(const char* s) { return dnmx_make_sv_str(s); }
dnmx_sv c22_len_(const char* s, size_t n) { return dnmx_make_sv_len(s, n); }
dnmx_sv c22_be(const char* b, const char* e) { return dnmx_make_sv_be(b, e); }
dnmx_sv c22_lit(int i) { switch (i) { case 0: return dnmx_make_sv_lit(""); case 1: return dnmx_make_sv_lit("a"); case 2: return dnmx_make_sv_lit("ab\0c"); default: return dnmx_make_sv_lit("\0"); } }
