#pragma once
/* SPLAT_ITERATE_WITH(m, a, b, c) -> m(a, 0), m(b, 1), m(c, 2)  (empty list -> nothing) */
#define VSH_CAT(a, b) VSH_CAT_I(a, b)
#define VSH_CAT_I(a, b) a ## b
#define VSH_NARG(...) VSH_NARG_I(0, ##__VA_ARGS__, 16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0)
#define VSH_NARG_I(z, a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16, n, ...) n
#define VSH_IT_0(m)
#define VSH_IT_1(m,a) m(a,0)
#define VSH_IT_2(m,a,b) m(a,0), m(b,1)
#define VSH_IT_3(m,a,b,c) m(a,0), m(b,1), m(c,2)
#define VSH_IT_4(m,a,b,c,d) m(a,0), m(b,1), m(c,2), m(d,3)
#define VSH_IT_5(m,a,b,c,d,e) m(a,0), m(b,1), m(c,2), m(d,3), m(e,4)
#define VSH_IT_6(m,a,b,c,d,e,f) m(a,0), m(b,1), m(c,2), m(d,3), m(e,4), m(f,5)
#define VSH_IT_7(m,a,b,c,d,e,f,g) m(a,0), m(b,1), m(c,2), m(d,3), m(e,4), m(f,5), m(g,6)
#define VSH_IT_8(m,a,b,c,d,e,f,g,h) m(a,0), m(b,1), m(c,2), m(d,3), m(e,4), m(f,5), m(g,6), m(h,7)
#define SPLAT_ITERATE_WITH(m, ...) VSH_CAT(VSH_IT_, VSH_NARG(__VA_ARGS__))(m, ##__VA_ARGS__)
