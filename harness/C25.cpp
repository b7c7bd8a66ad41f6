// Designs of parameter samples and typed parameters.
// SOURCES: esl/data/channel.cpp
#include <algorithm>
#include <cassert>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <iomanip>
#include <set>
#include <string>
#include <tuple>
#include <variant>
#include <unordered_map>
#include <pbt.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
#include <esl/simulation/parameter/sampler.hpp>
using namespace esl; using namespace esl::simulation; namespace par = esl::simulation::parameter; namespace sam = esl::simulation::parameter::sampler;
typedef uint64_t u64; typedef std::shared_ptr<par::interval<double>> axis; typedef std::map<axis, double> point;
static axis gen(pbt::Ctx &c, bool wide = true) { double a = c.flip() ? (double)c.range(-20, 20) : c.real(1e12), w = c.below(6) == 0 && wide ? 0. : c.flip() ? (double)(1 + c.below(20)) : std::abs(c.real(1e9)); if(w == 0 && !wide) w = 1; auto p = std::make_shared<par::interval<double>>(a, a + w); NOTE("axis [" << std::setprecision(17) << p->lower << ", " << p->upper << "]"); return p; }
static double level(const axis &p, u64 i, u64 d) { return d == 1 ? p->lower : p->lower + (p->upper - p->lower) * ((double)i / (double)(d - 1)); }
static double slack(const axis &p) { return 1e-12 * (std::abs(p->lower) + std::abs(p->upper) + 1e-300); }
static bool inside(const axis &p, double v) { return v >= p->lower - slack(p) && v <= p->upper + slack(p); }
PBT(grids, 40000, 1000000, "at least two axes of different density, one of two or more levels")
{
    std::map<axis, unsigned> d; std::vector<axis> order; u64 total = 1; size_t n = c.few(5); for(size_t i = 0; i < n; ++i) { auto p = gen(c); unsigned k = c.below(12) == 0 ? 0 : 1 + (unsigned)(total > 3000 ? 0 : total > 300 ? c.below(2) : c.few(6)); d.emplace(p, k); order.push_back(p); total *= k; NOTE("with " << k << " levels"); }
    auto r = sam::grid<double>(d); c.eq(r.size(), (size_t)total, "points of the grid"); std::map<std::vector<u64>, int> seen; bool differ = false, two = false; for(auto &p : order) { differ |= d[p] != d[order[0]]; two |= d[p] >= 2; } c.nontrivial(n >= 2 && differ && two && total > 0);
    for(auto &x : r) { c.eq(x.size(), d.size(), "coordinates of a point"); std::vector<u64> key; for(auto &p : order) { auto i = x.find(p); if(i == x.end()) c.fail("a point misses a coordinate"); c.check(inside(p, i->second), PBT_STR("coordinate " << i->second << " is outside its bounds")); u64 k = 0; double w = d[p] > 1 ? (p->upper - p->lower) / (d[p] - 1) : 0; if(w > 4 * slack(p)) k = (u64)std::llround((i->second - p->lower) / w); c.check(w <= 4 * slack(p) || std::abs(level(p, k, d[p]) - i->second) <= 2 * slack(p), PBT_STR("coordinate " << i->second << " is not a level")); key.push_back(w > 4 * slack(p) ? k : 0); } ++seen[key]; }
    u64 distinct = 1, times = 1; for(auto &p : order) { double w = d[p] > 1 ? (p->upper - p->lower) / (d[p] - 1) : 0; if(w > 4 * slack(p)) distinct *= d[p]; else times *= d[p]; } if(total) { c.eq(seen.size(), (size_t)distinct, "distinct points of the grid"); for(auto &[k, m] : seen) c.eq(m, (int)times, "occurrences of a point"); }
}
PBT(latin_hypercubes, 40000, 1000000, "at least two axes and five points")
{
    std::vector<axis> a; size_t n = c.few(5); for(size_t i = 0; i < n; ++i) a.push_back(gen(c)); unsigned d = c.below(20) == 0 ? 0 : 1 + (unsigned)c.few(30), s = (unsigned)c.below(1000); NOTE(d << " points, seed " << s); c.nontrivial(n >= 2 && d >= 5); auto r = sam::latin_hypercube<double>(a, d, {s, 1u}), q = sam::latin_hypercube<double>(a, d, {s, 1u}); c.eq(r.size(), (size_t)d, "points of the design"); c.check(r == q, "the same seed gave another design");
    for(auto &x : r) c.eq(x.size(), a.size(), "coordinates of a point"); for(auto &p : a) { std::vector<double> v; for(auto &x : r) { auto i = x.find(p); if(i == x.end()) c.fail("a point misses a coordinate"); c.check(inside(p, i->second), "a coordinate is outside its bounds"); v.push_back(i->second); } std::sort(v.begin(), v.end()); for(size_t i = 0; i < v.size(); ++i) c.check(std::abs(v[i] - level(p, i, d)) <= 2 * slack(p), PBT_STR("level " << i << " of an axis is " << v[i] << ", expected " << level(p, i, d))); }
}
PBT(latin_hypercubes_vary, 3000, 60000, "always")
{
    std::vector<axis> a{std::make_shared<par::interval<double>>(0, 1), std::make_shared<par::interval<double>>(0, 1)}; unsigned d = 12 + (unsigned)c.below(10), s = (unsigned)c.below(1u << 30); auto r = sam::latin_hypercube<double>(a, d, {s}), q = sam::latin_hypercube<double>(a, d, {s + 1}); bool diagonal = true; for(auto &x : r) diagonal &= x[a[0]] == x[a[1]]; c.check(!diagonal, "the coordinates of all points are equal"); c.check(r != q, "different seeds gave the same design"); c.nontrivial();
}
PBT(uniform, 30000, 700000, "at least two axes and five points")
{
    std::vector<axis> a; size_t n = c.few(5); for(size_t i = 0; i < n; ++i) a.push_back(gen(c)); unsigned d = (unsigned)c.few(30), s = (unsigned)c.below(1000); NOTE(d << " points, seed " << s); c.nontrivial(n >= 2 && d >= 5); auto r = sam::uniform_random<double>(a, d, {s, 1u}), q = sam::uniform_random<double>(a, d, {s, 1u}); c.eq(r.size(), (size_t)d, "points of the sample"); c.check(r == q, "the same seed gave another sample");
    for(auto &x : r) { c.eq(x.size(), a.size(), "coordinates of a point"); for(auto &p : a) { auto i = x.find(p); c.check(i != x.end() && i->second >= p->lower && i->second <= p->upper, "a coordinate is missing or outside its bounds"); } } for(auto &p : a) { std::set<double> v; for(auto &x : r) v.insert(x[p]); c.check(d < 2 || p->upper - p->lower < 1e6 * slack(p) || v.size() > 1, "all points have the same coordinate"); }
}
PBT(uniform_is_uniform, 400, 8000, "always")
{
    axis p = gen(c, false), q = gen(c, false); unsigned s = (unsigned)c.below(1u << 30), n = 4000; if(p->upper - p->lower < 1e3 * slack(p) || q->upper - q->lower < 1e3 * slack(q)) c.discard(); auto r = sam::uniform_random<double>({p, q}, n, {s}); int b[4] = {}, both = 0; for(auto &x : r) { double u = (x[p] - p->lower) / (p->upper - p->lower), v = (x[q] - q->lower) / (q->upper - q->lower); ++b[std::min(3, (int)(u * 4))]; both += (u < .5) == (v < .5); } for(int i = 0; i < 4; ++i) c.check(std::abs(b[i] - 1000) < 275, PBT_STR("quarter " << i << " of an axis holds " << b[i] << " of 4000 points")); c.check(std::abs(both - 2000) < 320, PBT_STR("coordinates of different axes depend on each other: " << both << " of 4000")); c.nontrivial();
}
PBT(improved_hypercubes, 10000, 250000, "at least two dimensions and four samples")
{
    unsigned n = 1 + (unsigned)c.below(4), d = 1 + (unsigned)c.below(c.below(4) ? 12 : 40), dup = 1 + (unsigned)c.below(6), s = (unsigned)c.below(100000); NOTE(n << " dimensions, " << d << " samples, duplication " << dup << ", seed " << s); c.nontrivial(n >= 2 && d >= 4); std::seed_seq q{s}, t{s}; auto r = sam::improved_hypercube_sampling(n, d, q, dup), r2 = sam::improved_hypercube_sampling(n, d, t, dup); c.check(r == r2, "the same seed gave another design"); c.eq(r.size(), (size_t)n, "dimensions");
    for(auto &row : r) { auto v = row; std::sort(v.begin(), v.end()); c.eq(v.size(), (size_t)d, "samples"); for(unsigned i = 0; i < d; ++i) c.check(v[i] == i + 1, "a stratum is used twice or not at all: " + [&] { std::string o; for(auto x : row) o += " " + std::to_string(x); return o; }()); }
}
PBT(improved_hypercubes_vary, 1000, 20000, "always") { unsigned s = (unsigned)c.below(1u << 30), d = 10 + (unsigned)c.below(10); std::seed_seq a{s}, b{s + 1}; auto r = sam::improved_hypercube_sampling(3, d, a), q = sam::improved_hypercube_sampling(3, d, b); c.check(r != q, "different seeds gave the same design"); c.check(r[0] != r[1] || r[1] != r[2], "all coordinates of every point are equal"); c.nontrivial(); }
// parameters by name
template<class T> static bool refuses(const par::parametrization &p, const std::string &n) { return pbt::throws_a<std::out_of_range>([&] { (void)p.get<T>(n); }); }
PBT(parameters, 100000, 2500000, "three kinds stored, a missing name and a wrong type asked for")
{
    typedef std::variant<u64, double, std::string, int, bool> value; u64 s = c.big(~0ull), b = c.big(~0ull), e = c.big(~0ull), v = c.big(~0ull); unsigned t = (unsigned)c.big(~0u); par::parametrization p(s, b, e, v, t); std::map<std::string, value> w{{"sample", s}, {"start", b}, {"end", e}, {"verbosity", v}, {"threads", (u64)t}}; std::set<size_t> kinds; bool missing = false, wrong = false; NOTE("sample " << s << " start " << b << " end " << e << " verbosity " << v << " threads " << t); std::map<std::string, int> odd;
    while(c.more(4, 0, 12)) { std::string n = c.below(4) ? std::string(1, (char)('a' + c.below(5))) : c.pick(std::vector<std::string>{"sample", "start", "end", "verbosity", "threads", "", "Sample", "sample "}); odd.erase(n); w.erase(n); switch(c.below(7)) { case 0: { u64 x = c.big(~0ull); w[n] = x; p.values[n] = std::make_shared<par::constant<u64>>(x); break; } case 1: { double x = c.real(1e9); w[n] = x; p.values[n] = std::make_shared<par::constant<double>>(x); break; } case 2: { auto x = c.str("abc", 5); w[n] = x; p.values[n] = std::make_shared<par::constant<std::string>>(x); break; } case 3: { int x = (int)c.range(-5, 5); w[n] = x; p.values[n] = std::make_shared<par::constant<int>>(x); break; } case 4: { bool x = c.flip(); w[n] = x; p.values[n] = std::make_shared<par::constant<bool>>(x); break; } case 5: p.values[n] = std::make_shared<par::interval<double>>(0, 1); odd[n] = 0; break; default: p.values[n] = std::make_shared<par::categorical<u64>>(std::vector<u64>{1, 2}); odd[n] = 1; } NOTE("stores '" << n << "'"); }
    auto copy = p; std::set<std::string> names{"a", "b", "c", "d", "e", "sample", "start", "end", "verbosity", "threads", "Sample", "sample ", "", "none"}; for(auto &n : names) { auto i = w.find(n); missing |= i == w.end(); if(i != w.end()) kinds.insert(i->second.index());
        auto one = [&](auto tag) { typedef decltype(tag) T; bool has = i != w.end() && std::holds_alternative<T>(i->second); wrong |= i != w.end() && !has; if(!has) { c.check(refuses<T>(p, n), "a parameter that is missing or of another type was read: '" + n + "'"); return; } c.check(p.get<T>(n) == std::get<T>(i->second) && copy.get<T>(n) == std::get<T>(i->second), "another value is read for '" + n + "'"); }; one(u64()); one(double()); one(std::string()); one(int()); one(bool()); c.check(refuses<float>(p, n), "a parameter is read as a type nobody stored"); }
    c.eq(p.values.size(), w.size() + odd.size(), "number of parameters after reading"); c.nontrivial(kinds.size() >= 3 && missing && wrong);
}
PBT(choices, 50000, 1000000, "at least two categories")
{
    std::vector<u64> v; while(c.more(3, v.size(), 10)) v.push_back(c.big(~0ull)); par::categorical<u64> k(v); for(size_t i = 0; i < v.size(); ++i) c.eq(k[i], v[i], "category"); c.nontrivial(v.size() >= 2); u64 x = c.big(~0ull); par::constant<u64> q(x); c.eq((u64)q, x, "constant"); double lo = c.real(1e6), up = lo + std::abs(c.real(1e6)); par::interval<double> i(lo, up); c.check(i.lower == lo && i.upper == up, "bounds of an interval parameter");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
