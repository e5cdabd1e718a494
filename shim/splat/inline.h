#pragma once
#define FORCE_INLINE inline
#define NO_INLINE __attribute__((noinline))
#if !defined(__cplusplus)
#undef FORCE_INLINE
#define FORCE_INLINE inline __attribute__((always_inline))
#endif
