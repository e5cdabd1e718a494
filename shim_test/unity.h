#pragma once
// minimal stand-in, used only to run upstream's unit tests over /verif/shim
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int vsh_fail;
void setUp(void); void tearDown(void);
#define VSH_T(c, ...) do { if (!(c)) { printf("%s:%d FAIL %s\n", __FILE__, __LINE__, #c); vsh_fail = 1; } } while (0)
#define TEST_ASSERT(x) VSH_T(x)
#define TEST_ASSERT_TRUE(x) VSH_T(x)
#define TEST_ASSERT_FALSE(x) VSH_T(!(x))
#define TEST_ASSERT_NULL(x) VSH_T((x) == 0)
#define TEST_ASSERT_NOT_NULL(x) VSH_T((x) != 0)
#define TEST_ASSERT_EQUAL(a, b) VSH_T((a) == (b))
#define TEST_ASSERT_NOT_EQUAL(a, b) VSH_T((a) != (b))
#define TEST_ASSERT_EQUAL_PTR(a, b) VSH_T((const void*)(a) == (const void*)(b))
#define TEST_ASSERT_GREATER_THAN(a, b) VSH_T((b) > (a))
#define UNITY_BEGIN() 0
#define RUN_TEST(f) do { setUp(); f(); tearDown(); } while (0)
#define UNITY_END() vsh_fail
