// Tells whether an expression is refused, by an exception or by a failed assertion.
#ifndef REFUSAL_HPP
#define REFUSAL_HPP
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
namespace refusal { inline std::jmp_buf where; inline bool armed = false; }
extern "C" void __assert_fail(const char *e, const char *f, unsigned int l, const char *n) noexcept { if(refusal::armed) { refusal::armed = false; std::longjmp(refusal::where, 1); } std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, n, e); std::abort(); }
namespace refusal {
    template<class F> bool refused(F &&f) { if(setjmp(where)) return true; armed = true; try { f(); armed = false; return false; } catch(...) { armed = false; return true; } }
}
#endif
