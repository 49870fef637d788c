#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
_Noreturn void __assert_fail(const char*, const char*, unsigned, const char*);
#define assert(x) ((x) ? (void)0 : __assert_fail(#x, __FILE__, __LINE__, __func__))
#endif
#undef static_assert
#define static_assert _Static_assert
