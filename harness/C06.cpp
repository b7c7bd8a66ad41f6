// Intervals and time windows.
// SOURCES: esl/exception.cpp
#include <pbt.hpp>
#include <esl/simulation/time.hpp>
#include <esl/mathematics/interval.hpp>
using esl::mathematics::interval;

// number of members, saturated at 2
template<class T, bool L, bool R> static int members(T lo, T hi)
{
    if constexpr(std::is_floating_point<T>::value) return lo > hi ? 0 : lo == hi ? (L && R ? 1 : 0) : 2;
    else {
        __int128 first = (__int128)lo + (L ? 0 : 1), last = (__int128)hi - (R ? 0 : 1);
        return first > last ? 0 : first == last ? 1 : 2;
    }
}
template<class T, bool L, bool R> static void one(pbt::Ctx &c, T lo, T hi, T v)
{
    interval<T, L, R> i(lo, hi);
    NOTE((L ? "[" : "(") << lo << "," << hi << (R ? "]" : ")") << " probe " << v);
    c.eq(i.lower, lo, "lower"); c.eq(i.upper, hi, "upper"); c.eq(i.left_closed(), L, "left_closed"); c.eq(i.right_closed(), R, "right_closed");
    bool in = (L ? lo <= v : lo < v) && (R ? v <= hi : v < hi);
    c.eq(i.contains(v), in, "contains");
    int n = members<T, L, R>(lo, hi);
    c.label(std::string(L == R ? (L ? "closed" : "open") : "half-open") + (n == 0 ? " empty" : n == 1 ? " singleton" : " larger"));
    c.check(!(in && i.empty()) || L == R, "a member of an empty interval");
    bool e = i.empty(), s = i.singleton();
    if(e != (n == 0) || s != (n == 1)) {
        std::string m = PBT_STR((L ? "[" : "(") << lo << "," << hi << (R ? "]" : ")") << " has " << (n == 2 ? "several" : std::to_string(n)) << " members, but empty()=" << e << " singleton()=" << s);
        // recorded deviation: for two closed (open) bounds the classification is that of the open (closed) interval
        int d = members<T, !L, !R>(lo, hi);
        if(L == R && e == (d == 0) && s == (d == 1)) c.known("closed-open-swapped", m);
        else c.fail(m);
    }
    c.eq(i.degenerate(), e || s, "degenerate");
    std::ostringstream w; w << (L ? '[' : '(') << lo << ',' << hi << (R ? ']' : ')'); c.eq(i.representation(), w.str(), "representation");
    interval<T, L, R> k(i); c.check(k.lower == lo && k.upper == hi, "copy"); c.check(interval<T, L, R>().lower == T() && interval<T, L, R>().upper == T(), "default");
}
template<class T> static void all(pbt::Ctx &c, T lo, T hi, T v)
{
    switch(c.below(4)) { case 0: one<T, true, false>(c, lo, hi, v); break; case 1: one<T, false, true>(c, lo, hi, v); break; case 2: one<T, true, true>(c, lo, hi, v); break; default: one<T, false, false>(c, lo, hi, v); }
}
PBT(integers, 600000, 15000000, "bounds at most two apart, or the probe at most one from a bound")
{
    int64_t lo = c.flip() ? c.range(-6, 6) : c.sbig(1ll << 61), hi = c.below(3) ? lo + c.range(-2, 4) : c.sbig(1ll << 61), v = c.flip() ? (c.flip() ? lo : hi) + c.range(-1, 1) : c.sbig();
    c.nontrivial(std::llabs(hi - lo) <= 2 || std::llabs(v - lo) <= 1 || std::llabs(v - hi) <= 1);
    switch(c.below(4)) {
    case 0: all<int64_t>(c, lo, hi, v); break;
    case 1: all<int>(c, (int)(lo % 1000000000), (int)(lo % 1000000000 + (hi - lo) % 1000), (int)(lo % 1000000000 + (v - lo) % 1000)); break;
    case 2: all<uint64_t>(c, (uint64_t)lo, (uint64_t)hi, (uint64_t)v); break;
    default: all<unsigned>(c, (unsigned)lo, (unsigned)hi, (unsigned)v); break;
    }
}
PBT(reals, 300000, 8000000, "equal bounds, or the probe equals a bound")
{
    double lo = c.real(1e6), hi = c.below(3) ? (c.flip() ? lo : lo + c.real(3)) : c.real(1e6), v = c.flip() ? (c.flip() ? lo : hi) : (lo + hi) / 2 + c.real(2);
    c.nontrivial(lo == hi || v == lo || v == hi);
    if(c.flip()) all<double>(c, lo, hi, v); else all<float>(c, (float)lo, (float)hi, (float)v);
}
PBT(time_windows, 300000, 8000000, "the probe is at most one tick from a bound")
{
    uint64_t lo = c.big(UINT64_MAX - 8), hi = c.flip() ? lo + c.below(5) : c.big(), v = c.flip() ? (c.flip() ? lo : hi) - 1 + c.below(3) : c.big();
    esl::simulation::time_interval i{lo, hi};
    NOTE("window " << lo << " to " << hi << " probe " << v);
    c.nontrivial(v - lo + 1 <= 2 || v - hi + 1 <= 2);
    c.eq(i.contains(v), lo <= v && v < hi, "contains"); c.eq(i.empty(), lo >= hi, "empty"); c.eq(i.singleton(), lo < hi && hi - lo == 1, "singleton");
    c.eq(i.degenerate(), lo >= hi || hi - lo == 1, "degenerate"); c.eq(i.contains(lo), lo < hi, "contains its start"); c.eq(i.contains(hi), false, "contains its end");
    c.eq(i.representation(), "[" + std::to_string(lo) + "," + std::to_string(hi) + ")", "representation");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
