// Rates: exact fractions; conversion of prices.
// SOURCES: esl/exception.cpp
#include <pbt.hpp>
#include <codes.inc>
#include <boost/serialization/split_free.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/interest_rate.hpp>
using namespace esl::economics;
typedef int64_t i64; typedef uint64_t u64; typedef __int128 i128; typedef unsigned __int128 u128;
template<class I> static I gcd_(I a, I b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { I t = a % b; a = b; b = t; } return a; }

PBT(fractions, 500000, 15000000, "both fractions have a denominator above one, or a common factor was cancelled")
{
    bool cancelled = false;
    auto frac = [&](i64 &n, i64 &d) {
        d = static_cast<i64>(1 + c.big(999999)); n = c.sbig(999999);
        if(c.flip()) { i64 f = static_cast<i64>(1 + c.below(1000)); n *= f; d *= f; cancelled = cancelled || f > 1; } };
    i64 n, d, m, e; frac(n, d);
    if(c.flip()) frac(m, e); else { i64 f = static_cast<i64>(1 + c.below(9)); m = n * f + (c.flip() ? 0 : static_cast<i64>(c.below(3)) - 1); e = d * f; }
    NOTE(n << "/" << d << " and " << m << "/" << e);
    c.nontrivial(cancelled || (d > 1 && e > 1));
    rate<> a(n, d), b(m, e);
    i128 l = (i128)n * e, r = (i128)m * d;
    c.label(l == r ? "equal" : l < r ? "less" : "greater");
    c.eq(a == b, l == r, "=="); c.eq(a != b, l != r, "!="); c.eq(a < b, l < r, "<"); c.eq(a > b, l > r, ">");
    auto is = [&](const boost::rational<i64> &x, i128 p, i128 q, const char *what) {   // x == p/q
        c.check(x.denominator() > 0, std::string(what) + ": denominator not positive");
        c.check((i128)x.numerator() * q == p * (i128)x.denominator(), PBT_STR(what << ": got " << x.numerator() << "/" << x.denominator())); };
    is(a, n, d, "constructed"); is(rate<>(a), n, d, "copied");
    boost::rational<i64> ra(a), rb(b);
    is(rate<>(ra), n, d, "from a rational");
    is(rate<>(ra + rb), l + r, (i128)d * e, "a+b"); is(rate<>(ra - rb), l - r, (i128)d * e, "a-b"); is(rate<>(ra * rb), (i128)n * m, (i128)d * e, "a*b");
    if(m) is(rate<>(ra / rb), m < 0 ? -l : l, m < 0 ? -r : r, "a/b");
    c.eq(static_cast<double>(a), static_cast<double>(n / gcd_(n, d)) / static_cast<double>(d / gcd_(n, d)), "real conversion");
    interest_rate i(a, esl::simulation::time_duration(c.below(1000)));
    is(i, n, d, "interest rate");
    exchange_rate x(static_cast<u64>(n < 0 ? -n : n) + 1, static_cast<u64>(d));
    c.check((u128)x.numerator() * (u128)d == (u128)x.denominator() * ((n < 0 ? -n : n) + 1), "exchange rate keeps its fraction");
    exchange_rate y(x); c.check(y == x && y.numerator() == x.numerator(), "copied exchange rate");
}

PBT(from_real, 400000, 10000000, "the real is not a multiple of the precision step")
{
    u64 prec = c.pick(std::vector<u64>{1, 2, 7, 10, 100, 1000, 10000, 1000000});
    double x = c.real(1e6);
    if(c.below(4) == 0) x = static_cast<double>(c.sbig(1000000000)) / static_cast<double>(prec);
    NOTE("real " << x << " precision " << prec);
    double y = x * static_cast<double>(prec);
    c.nontrivial(y != std::trunc(y));
    rate<> a(x, prec); i64 t = static_cast<i64>(std::trunc(y));
    c.check((i128)a.numerator() * (i128)prec == (i128)t * a.denominator(), PBT_STR("rate from real: got " << a.numerator() << "/" << a.denominator() << ", expected " << t << "/" << prec));
    if(prec == 10000) { rate<> b(x); c.check(b == a, "default precision is 1/10000"); }
    if(y >= 1) {
        u64 g = 1 + c.below(3); exchange_rate similar(prec + g, prec);
        u64 sd = prec / gcd_<u64>(prec + g, prec); u64 tt = static_cast<u64>(x * static_cast<double>(sd));
        if(tt) { exchange_rate z(x, similar); c.check((u128)z.numerator() * sd == (u128)tt * z.denominator(), PBT_STR("exchange rate from real: got " << z.numerator() << "/" << z.denominator() << ", expected " << tt << "/" << sd)); }
    }
}

PBT(conversion, 800000, 20000000, "the product is not integral, or the price is negative")
{
    u64 n = 1 + c.big(c.flip() ? 1000000 : 1000000000000ull), d = 1 + c.big(c.flip() ? 1000000 : 1000000000000ull);
    u64 g = gcd_(n, d); u64 rn = n / g, rd = d / g;
    i64 a = c.sbig();
    if(!((i128)a * rn <= INT64_MAX && (i128)a * rn >= -(i128)INT64_MAX)) a %= static_cast<i64>(static_cast<u64>(INT64_MAX) / rn);
    c.require((i128)a * rn <= INT64_MAX && (i128)a * rn >= -(i128)INT64_MAX);
#define X(k) currencies::k,
    static std::vector<iso_4217> cur{ALL_CURRENCIES(X)};
    iso_4217 k = c.pick(cur);
    exchange_rate r(n, d); price p(a, k);
    NOTE("rate " << n << "/" << d << " price " << a << " " << std::string(k));
    i128 prod = (i128)a * rn; i64 want = static_cast<i64>(prod / (i128)rd);
    c.nontrivial(a < 0 || prod % (i128)rd != 0);
    c.label(a < 0 ? "negative price" : a == 0 ? "zero" : "positive price"); c.label(prod % (i128)rd ? "truncated" : "exact");
    price q = r * p;
    c.eq(q.value, want, "converted price"); c.check(q.valuation == k, "currency of the converted price");
    i64 b = a + static_cast<i64>(c.below(5));
    if((i128)b * rn <= INT64_MAX && b >= a) c.check((r * price(b, k)) >= q, "conversion is not monotone");
}

PBT(inflation, 300000, 8000000, "prices differ")
{
    i64 a = 1 + static_cast<i64>(c.big(1000000000000ull)), b = c.flip() ? static_cast<i64>(c.big(1000000000000ull)) : a + c.range(-5, 5);
    u64 dur = c.below(100000);
    NOTE("from " << a << " to " << b << " over " << dur);
    c.nontrivial(a != b); c.label(b < a ? "deflation" : "inflation");
    auto r = inflation_rate::from_consumer_prices(price(a, currencies::EUR), price(b, currencies::EUR), dur);
    c.check((i128)r.numerator() * a == (i128)(b - a) * r.denominator(), PBT_STR("got " << r.numerator() << "/" << r.denominator()));
    c.eq((u64)r.duration, dur, "duration of the rate");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
