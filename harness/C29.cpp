// Numeric and array helper algorithms.
// SOURCES: 
// FLAGS: -fsanitize=address,undefined
#include <functional>
#include <iomanip>
#include <list>
#include <random>
#include <set>
#include <map>
#include <deque>
#include <pbt.hpp>
#include <esl/algorithms.hpp>
#include <esl/mathematics/zero_truncated_poisson_distribution.hpp>
typedef uint64_t u64; typedef int64_t i64; typedef __int128 i128;
static std::string text(const std::vector<double> &v) { std::ostringstream o; for(double x : v) o << x << " "; return o.str(); }
template<class T> static void power(pbt::Ctx &c, i128 limit)
{
    bool neg = std::is_signed<T>::value && c.flip(); T x = (T)(c.flip() ? c.below(20) : c.below(c.flip() ? (u64)1 << (sizeof(T) * 4) : (u64)std::min(limit, (i128)UINT64_MAX))); if(neg) x = (T)(0 - x); u64 room = 69; { long double ax = std::abs((long double)x); if(ax > 1) { room = (u64)(std::log((long double)limit) / std::log(ax)); } } T p = (T)(c.below(8) ? c.below(std::min<u64>(69, room) + 1) : c.below(70)); NOTE((i64)x << " to the power " << (u64)p); i128 w = 1; bool fits = true; for(T i = 0; i < p && fits; ++i) { i128 ax = x < 0 ? -(i128)x : (i128)x, aw = w < 0 ? -w : w; if(ax && aw > limit / ax) { fits = false; break; } w *= x; if(w == 0 || w == 1) { break; } if(w == -1 && i + 1 < p) { w = (p % 2) ? -1 : 1; break; } }
    if(x == 0 && p > 0) w = 0; c.require(fits); c.eq((i128)esl::nonnegative_integer_power<T>(x, p) == w, true, "power"); c.nontrivial(p >= 3 && (x > 1 || x + 1 < 0));
}
PBT(integer_power, 200000, 4000000, "an exponent of at least three of a number other than zero and one")
{
    switch(c.below(6)) { case 0: power<unsigned>(c, UINT32_MAX); break; case 1: power<u64>(c, (i128)UINT64_MAX); break; case 2: power<i64>(c, (i128)INT64_MAX); break; case 3: power<int>(c, INT32_MAX); break; case 4: power<u64>(c, (i128)UINT64_MAX); break; default: { unsigned x = (unsigned)c.below(10), p = (unsigned)c.below(9); u64 w = 1; for(unsigned i = 0; i < p; ++i) w *= x; c.eq((u64)esl::nonnegative_integer_power(x, p), w, "power"); c.nontrivial(x > 1 && p >= 3); } }
}
static_assert(esl::nonnegative_integer_power(3u, 4u) == 81 && esl::nonnegative_integer_power<u64>(10, 19) == 10000000000000000000ull, "constant powers");
template<size_t B, size_t E, class C> static void slice_of(pbt::Ctx &c, const C &v) { std::vector<i64> w(std::next(v.begin(), B), std::next(v.begin(), E)); auto a = esl::to_array<B, E, i64>(v); c.check(std::vector<i64>(a.begin(), a.end()) == w, PBT_STR("elements " << B << " to " << E << " of a collection")); }
template<class C> static void slices(pbt::Ctx &c, const C &v)
{
    size_t n = v.size(); C copy = v; slice_of<0, 0>(c, v); if(n >= 1) slice_of<0, 1>(c, v); if(n >= 2) slice_of<1, 2>(c, v); if(n >= 3) { slice_of<0, 3>(c, v); slice_of<3, 3>(c, v); } if(n >= 5) { slice_of<1, 5>(c, v); slice_of<2, 4>(c, v); slice_of<0, 5>(c, v); } if(n >= 9) { slice_of<4, 9>(c, v); slice_of<0, 9>(c, v); slice_of<8, 9>(c, v); } if(n >= 16) { slice_of<3, 16>(c, v); slice_of<0, 16>(c, v); } c.check(copy == v, "the collection changed"); c.nontrivial(n >= 5);
}
template<size_t A, size_t B> static void join(pbt::Ctx &c, const std::vector<i64> &v)
{
    std::array<i64, A> a{}; std::array<i64, B> b{}; for(size_t i = 0; i < A; ++i) a[i] = v[i]; for(size_t i = 0; i < B; ++i) b[i] = v[A + i]; auto r = esl::array_concatenate(a, b); static_assert(std::tuple_size<decltype(r)>::value == A + B, "size of a concatenation"); for(size_t i = 0; i < A + B; ++i) c.eq(r[i], v[i], PBT_STR("element " << i << " of " << A << " and " << B << " elements")); for(size_t i = 0; i < A; ++i) c.eq(a[i], v[i], "the first array after concatenation");
    c.check(esl::array_slice<0, A>(r) == a, "the first part of a concatenation"); c.check((esl::array_slice<A, A + B>(r) == b), "the second part of a concatenation");
    if constexpr(A >= 2 && B >= 2) { auto m = esl::array_slice<A - 2, A + 2>(r); for(size_t i = 0; i < 4; ++i) c.eq(m[i], v[A - 2 + i], "an element of a slice"); }
}
PBT(arrays, 60000, 1000000, "at least five elements")
{
    std::vector<i64> v; while(c.more(7, v.size(), 20)) v.push_back(c.flip() ? (i64)c.below(10) : c.sbig((u64)INT64_MAX)); NOTE(v.size() << " elements"); switch(c.below(4)) { case 0: slices(c, v); break; case 1: slices(c, std::list<i64>(v.begin(), v.end())); break; case 2: slices(c, std::set<i64>(v.begin(), v.end())); break; default: slices(c, std::deque<i64>(v.begin(), v.end())); }
    std::vector<i64> x = v; x.resize(20); join<0, 0>(c, x); join<0, 3>(c, x); join<3, 0>(c, x); join<1, 1>(c, x); join<2, 5>(c, x); join<5, 2>(c, x); join<9, 11>(c, x); join<4, 4>(c, x);
    std::array<std::string, 2> s = {"ab", std::to_string(x[0])}, t = {"", "z"}; auto st = esl::array_concatenate(s, t); c.check(st[0] == "ab" && st[1] == std::to_string(x[0]) && st[2].empty() && st[3] == "z", "a concatenation of text");
}
PBT(enumeration, 60000, 1000000, "at least three elements")
{
    std::vector<i64> v; while(c.more(6, v.size(), 40)) v.push_back(c.sbig((u64)1 << 40)); NOTE(v.size() << " elements"); size_t k = 0; std::vector<i64> w = v;
    for(auto [i, x] : esl::enumerate(v)) { c.eq(i, k, "position"); c.check(&x == &v[k], "an enumerated element is not the original"); x += 3; ++k; } c.eq(k, v.size(), "elements enumerated"); for(size_t i = 0; i < v.size(); ++i) c.eq(v[i], w[i] + 3, "element changed through an enumeration");
    const std::list<i64> l(w.begin(), w.end()); k = 0; auto it = l.begin(); for(auto [i, x] : esl::enumerate(l)) { c.eq(i, k, "position in a constant list"); c.eq(x, *it, "element of a constant list"); ++k; ++it; } c.eq(k, l.size(), "elements enumerated of a constant list");
    k = 0; for(auto [i, x] : esl::enumerate(std::vector<i64>(w))) { c.eq(i, k, "position in a temporary"); c.eq(x, w[k], "element of a temporary"); ++k; } c.eq(k, w.size(), "elements enumerated of a temporary");
    std::map<i64, int> m; for(i64 x : w) ++m[x]; k = 0; auto mi = m.begin(); for(auto [i, x] : esl::enumerate(m)) { c.eq(i, k, "position in a map"); c.check(x == *mi, "element of a map"); ++k; ++mi; } c.eq(k, m.size(), "elements enumerated of a map"); c.nontrivial(v.size() >= 3);
}
PBT(rounding, 200000, 4000000, "not an integer")
{
    i64 whole = c.sbig((u64)1 << 51); u64 part = c.flip() ? 0 : c.below(4); double f = part == 0 ? 0 : part == 1 ? 0.5 : part == 2 ? c.unit() : std::ldexp(1., -(int)c.below(60)); double x = (double)whole + (whole < 0 ? -f : f); if(whole == 0 && c.flip()) x = -x; NOTE(std::setprecision(20) << x); i64 z = (i64)x; c.eq(esl::rounding::integer_towards_zero(x), z, "towards zero"); i64 away = (double)z == x ? z : x < 0 ? z - 1 : z + 1; c.eq(esl::rounding::integer_away_from_zero(x), away, "away from zero"); if(x >= 0) c.eq((i64)esl::rounding::integer_towards_zero<double, u64>(x), z, "towards zero, unsigned"); float y = (float)x; if(std::abs(y) < 1e15f) { c.eq(esl::rounding::integer_towards_zero(y), (i64)y, "towards zero, float"); c.eq(esl::rounding::integer_away_from_zero(y), (float)(i64)y == y ? (i64)y : y < 0 ? (i64)y - 1 : (i64)y + 1, "away from zero, float"); } c.nontrivial(x != (double)z);
}
PBT(means, 60000, 1000000, "at least three different values")
{
    const double scale = c.below(3) ? 20 : c.flip() ? 100 : 600; std::vector<double> v; do v.push_back(c.flip() && scale < 500 ? (double)(1 + c.below(16)) : std::exp((c.unit() - .5) * scale)); while(c.more(5, v.size(), 40)); NOTE(text(v)); auto near = [&](double a, long double b, const char *what) { c.check(std::abs(a - (double)b) <= 1e-9 * (1 + std::abs((double)b)), PBT_STR(what << ": got " << a << ", expected " << (double)b)); };
    long double s = 0; for(double x : v) s += std::log((long double)x); s /= v.size(); { double m = esl::geometric_mean(v.begin(), v.end()); long double w = std::exp(s); c.check(m > 0 && std::abs(m / w - 1) <= 1e-9L, PBT_STR("geometric mean: got " << m << ", expected " << (double)w)); } near(esl::geometric_mean(v), std::exp(s), "geometric mean of a container"); near(esl::geometric_mean(std::list<double>(v.begin(), v.end())), std::exp(s), "geometric mean of a list");
    long double g = v.size() > 1 ? std::exp((std::log((long double)v.back()) - std::log((long double)v.front())) / (v.size() - 1)) - 1 : 0; near(esl::growth_rate(v.begin(), v.end()), g, "growth rate"); c.nontrivial(std::set<double>(v.begin(), v.end()).size() >= 3);
}
PBT(allocation, 120000, 2000000, "the shares rounded one by one do not add up to the rounded total")
{
    std::vector<double> f; i64 exact = 0; u64 unit = 1 << c.below(7); u64 top = c.flip() ? 3 * unit : 1000 * unit; i64 naive = 0; do { u64 k = c.below(top); f.push_back((double)k / unit); exact += k; naive += std::lround(f.back()); } while(c.more(6, f.size(), 60)); NOTE(text(f)); i64 total = (2 * exact + (i64)unit) / (2 * (i64)unit); auto before = f; auto r = esl::allocate_fractions(f, (int)total); c.check(before == f, "the shares changed"); c.eq(r.size(), f.size(), "parts"); i64 s = 0; for(size_t i = 0; i < r.size(); ++i) { s += r[i]; c.check(std::abs(r[i] - f[i]) < 1, PBT_STR("part " << i << " is " << r[i] << " of an exact share of " << f[i])); c.check(r[i] >= 0, "a part is negative"); } c.eq(s, total, "total of the parts"); c.nontrivial(naive != total); if(naive > total) c.label("too many at first");
}
PBT(barycentric, 6000, 60000, "at least three dimensions and three divisions")
{
    size_t d = 1 + c.below(5), n = 1 + c.below(d > 3 ? 7 : 14); bool exact = !(n & (n - 1)); NOTE(d << " dimensions, " << n << " divisions"); c.nontrivial(d >= 3 && n >= 3); auto r = esl::sample_barycentric<double>(d, n); std::set<std::vector<i64>> seen; for(auto &p : r) { c.eq(p.size(), d, "coordinates"); double s = 0; std::vector<i64> k; for(double x : p) { c.check(x >= -1e-12 && x <= 1 + 1e-12, "a coordinate lies outside the simplex"); s += x; k.push_back(std::llround(x * n)); c.check(std::abs(x * n - (double)k.back()) < 1e-9, "a coordinate is not on the grid"); } c.check(std::abs(s - 1) < 1e-9, "coordinates do not sum to one"); c.check(seen.insert(k).second, "a point is listed twice"); }
    // every point of the grid none of whose later coordinates is one
    std::function<u64(size_t, i64)> count = [&](size_t dim, i64 left) -> u64 { if(dim == 1) return 1; u64 t = 0; for(i64 k = 0; k < (i64)n && k <= left; ++k) t += count(dim - 1, left - k); return t; }; u64 w = count(d, (i64)n); if(exact) c.eq((u64)r.size(), w, "points of the grid"); else c.check(r.size() <= w, "too many points");
}
PBT(barycentric_part, 20000, 200000, "at least two dimensions")
{
    size_t d = 1 + c.below(4), n = 1 << c.below(4); double rest = (double)c.below(17) / 16 * (1 + c.below(2)); NOTE(d << " dimensions, " << n << " divisions of " << rest); auto r = esl::sample_barycentric<double>(d, n, rest); c.check(!r.empty(), "no points"); for(auto &p : r) { c.eq(p.size(), d, "coordinates"); double s = 0; for(double x : p) { s += x; c.check(x >= 0 && x <= rest, "a coordinate lies outside the simplex"); } c.check(std::abs(s - rest) < 1e-9, "coordinates do not sum to the whole"); } c.nontrivial(d >= 2);
}
struct fixed_generator { typedef u64 result_type; u64 v; static constexpr u64 min() { return 0; } static constexpr u64 max() { return ~(u64)0; } u64 operator()() { return v; } };
PBT(truncated_poisson, 60000, 1000000, "a value of at least two")
{
    double lambda = c.flip() ? (double)(1 + c.below(20)) : std::exp(c.unit() * 7 - 4); u64 raw = c.draw(1 << 20) << 44 | c.draw(1 << 20) << 24; if(c.flip()) raw |= c.draw(1 << 20); double u = std::ldexp((double)(raw >> 11), -53); NOTE("mean " << lambda << ", u " << u); fixed_generator g{raw}; auto k = [&] { if(c.flip()) { zero_truncated_poisson_distribution<int> z(lambda); return (i64)z(g); } zero_truncated_poisson_distribution<u64> z(lambda); return (i64)z(g); }(); c.check(k >= 1, "zero was drawn"); long double t = lambda / std::expm1((long double)lambda), s = t, prev = 0; i64 i = 1; while(i < k) { prev = s; ++i; t *= lambda / (long double)i; s += t; if(i > 100000) break; } c.check(s >= u - 1e-9L, PBT_STR("the value drawn is too small: " << k)); c.check(prev <= u + 1e-9L, PBT_STR("the value drawn is too large: " << k)); c.nontrivial(k >= 2);
}
PBT(truncated_poisson_frequencies, 60, 600, "every case")
{
    double lambda = .2 + c.unit() * 6; std::mt19937_64 g(c.draw(1u << 31)); zero_truncated_poisson_distribution<int> z(lambda); std::vector<int> n(40); const int N = 20000; for(int i = 0; i < N; ++i) { int k = z(g); c.check(k >= 1, "zero was drawn"); if(k < 40) ++n[k]; } NOTE("mean " << lambda); double t = lambda / std::expm1(lambda); for(int k = 1; k < 30; ++k) { double sd = std::sqrt(N * t * (1 - t)); c.check(std::abs(n[k] - N * t) <= 7 * sd + 12, PBT_STR("frequency of " << k << ": " << n[k] << ", expected " << N * t)); t *= lambda / (k + 1); } c.nontrivial(true);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
