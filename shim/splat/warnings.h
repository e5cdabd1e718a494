#pragma once
#define PRAGMA_WARNING_PUSH
#define PRAGMA_WARNING_POP
#define DISABLE_ALL_WARNINGS
#define DISABLE_GCC_WARNING(w)
#define DISABLE_CLANG_WARNING(w)
#define DISABLE_GCC_AND_CLANG_WARNING(w)
#define DISABLE_MSVC_WARNING(w)
