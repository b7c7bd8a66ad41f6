// Prices: exact signed sub-unit arithmetic, ordering, currency safety, approximation, rendering.
// SOURCES: esl/exception.cpp
#include <pbt.hpp>
#include <codes.inc>
#include <esl/economics/currencies.hpp>
#include <esl/economics/price.hpp>
using namespace esl::economics;
typedef int64_t i64; typedef uint64_t u64; typedef __int128 i128;

static const std::vector<iso_4217> &all()
{
#define X(n) currencies::n,
    static std::vector<iso_4217> v{ALL_CURRENCIES(X)};
#undef X
    return v;
}
static iso_4217 currency(pbt::Ctx &c)
{
    switch(c.below(6)) {
    case 0: return currencies::USD; case 1: return currencies::JPY; case 2: return currencies::BHD;
    case 3: { u64 d = 1; for(u64 k = c.below(8); k; --k) d *= 10; std::string s = c.fixed("ABCXYZ", 3); return iso_4217({s[0], s[1], s[2]}, d); }
    default: return all()[c.below(all().size())];
    }
}
static bool fits(i128 x) { return x <= INT64_MAX && x >= INT64_MIN; }
static std::string sh(const price &p) { return PBT_STR(std::string(p.valuation) << '/' << p.valuation.denominator << ':' << p.value); }

PBT(arithmetic, 600000, 20000000, "both values non-zero and different, at least one beyond one million or negative")
{ c.eq(price().value, (int64_t)0, "value of the default price");
    iso_4217 k = currency(c);
    i64 a = c.sbig(), b = c.flip() ? c.sbig() : (c.flip() ? a : static_cast<i64>(static_cast<u64>(a) + c.below(5) - 2));
    price p(a, k), q(b, k);
    NOTE(sh(p) << " and " << sh(q));
    c.nontrivial(a && b && a != b && (a < 0 || b < 0 || a > 1000000 || b > 1000000));
    c.eq(p.value, a, "constructed value"); c.check(p.valuation == k, "constructed currency");
    auto is = [&](const price &r, i128 want, const char *what) {
        c.eq(r.value, static_cast<i64>(want), what);
        c.check(r.valuation == k, std::string(what) + ": currency changed");
    };
    if(fits((i128)a + b)) { is(p + q, (i128)a + b, "a+b"); is(q + p, (i128)a + b, "b+a"); price r(p); r += q; is(r, (i128)a + b, "a+=b"); is(r - q, a, "(a+b)-b"); }
    if(fits((i128)a - b)) { is(p - q, (i128)a - b, "a-b"); price r(p); r -= q; is(r, (i128)a - b, "a-=b"); }
    if(a != INT64_MIN) { is(-p, -(i128)a, "-a"); is(-(-p), a, "-(-a)"); }
    // scaling by integers of several types and signs
    i64 s = c.flip() ? c.sbig(1000) : c.sbig();
    if(fits((i128)a * s)) {
        is(p * s, (i128)a * s, "a*int64");
        if(s >= INT32_MIN && s <= INT32_MAX) is(p * static_cast<int>(s), (i128)a * s, "a*int");
        if(s >= INT16_MIN && s <= INT16_MAX) is(p * static_cast<short>(s), (i128)a * s, "a*short");
        if(s >= 0) { is(p * static_cast<u64>(s), (i128)a * s, "a*uint64"); is(static_cast<u64>(s) * p, (i128)a * s, "uint64*a");
            if(s <= UINT32_MAX) is(p * static_cast<unsigned>(s), (i128)a * s, "a*unsigned"); }
        if(s && (a || s)) { }
    }
    // price with price: sub-unit product and truncated quotient
    if(fits((i128)a * b)) { is(p * q, (i128)a * b, "a*b"); price r(p); r *= q; is(r, (i128)a * b, "a*=b"); }
    if(b && !(a == INT64_MIN && b == -1)) { is(p / q, a / b, "a/b"); price r(p); r /= q; is(r, a / b, "a/=b"); }
    c.eq(p.value, a, "left operand afterwards"); c.eq(q.value, b, "right operand afterwards");
    price m(p); price n(std::move(m)); is(n, a, "copy and move"); n = q; is(n, b, "assignment");
    if(std::abs((double)a) < 9e15) c.eq(static_cast<double>(p), static_cast<double>(a) / static_cast<double>(k.denominator), "real conversion");
}

PBT(ordering, 600000, 20000000, "values differ by at most two, or signs differ")
{
    iso_4217 k = currency(c);
    i64 a = c.sbig(), b = c.flip() ? c.sbig() : static_cast<i64>(static_cast<u64>(a) + c.below(5) - 2), d = c.flip() ? c.sbig() : static_cast<i64>(static_cast<u64>(b) + c.below(3) - 1);
    price p(a, k), q(b, k), r(d, k);
    NOTE(sh(p) << " " << sh(q) << " " << sh(r));
    c.nontrivial((a < 0) != (b < 0) || (a > b ? (u64)a - (u64)b : (u64)b - (u64)a) <= 2);
    c.label(a == b ? "equal" : a < b ? "less" : "greater");
    c.eq(p == q, a == b, "=="); c.eq(p != q, a != b, "!="); c.eq(p < q, a < b, "<"); c.eq(p > q, a > b, ">"); c.eq(p <= q, a <= b, "<="); c.eq(p >= q, a >= b, ">=");
    c.eq((p < q) + (q < p) + (p == q), 1, "trichotomy");
    if(p < q && q < r) c.check(p < r, "transitivity of <");
    std::vector<price> v{p, q, r}; std::sort(v.begin(), v.end());
    std::vector<i64> w{a, b, d}; std::sort(w.begin(), w.end());
    for(int i = 0; i < 3; ++i) c.eq(v[i].value, w[i], "sorted");
}

PBT(currency_safety, 200000, 5000000, "the currencies differ in one letter or only in the denominator")
{
    iso_4217 k = currency(c), l = k; int kind = (int)c.below(4);
    if(kind == 0) { l = currency(c); }
    else if(kind <= 2) { std::array<char, 3> x = k.code; x[c.below(3)] = static_cast<char>('A' + c.below(26)); l = iso_4217(x, k.denominator); }
    else l = iso_4217(k.code, c.flip() ? k.denominator * 10 : (k.denominator == 1 ? 100 : 1));
    bool same = k.code == l.code && k.denominator == l.denominator;
    i64 a = c.sbig(), b = c.flip() ? a : c.sbig();
    price p(a, k), q(b, l);
    NOTE(sh(p) << " and " << sh(q));
    c.nontrivial(!same && kind);
    c.label(same ? "same currency" : k.code == l.code ? "denominator differs" : "code differs");
    c.eq(p == q, same && a == b, "=="); c.eq(p != q, !(same && a == b), "!=");
    if(!same) {
        c.check(pbt::throws([&] { volatile bool x = p < q; (void)x; }), "< of different currencies was answered");
        c.check(pbt::throws([&] { volatile bool x = p > q; (void)x; }), "> of different currencies was answered");
        c.check(pbt::throws([&] { volatile bool x = p <= q; (void)x; }), "<= of different currencies was answered");
        c.check(pbt::throws([&] { volatile bool x = p >= q; (void)x; }), ">= of different currencies was answered");
        price r(p); r = q; c.check(r == q && r.value == b && r.valuation == l, "assignment keeps the currency of the source");
    } else { c.eq(p < q, a < b, "<"); c.eq(p >= q, a >= b, ">="); }
}

PBT(approximation, 400000, 10000000, "the amount times the denominator is not integral, or negative")
{
    iso_4217 k = currency(c);
    double x = c.real(9e8);
    if(c.below(4) == 0) x = static_cast<double>(c.sbig(900000000000ll)) / static_cast<double>(k.denominator);
    double y = x * static_cast<double>(k.denominator);
    c.require(std::fabs(y) < 9e15);
    NOTE(std::string(k) << '/' << k.denominator << " real " << x);
    c.nontrivial(y != std::trunc(y) || y < 0);
    price p = price::approximate(x, k);
    c.eq(p.value, static_cast<i64>(std::trunc(y)), "approximate"); c.check(p.valuation == k, "currency of approximate");
    price s(x, price(c.sbig(), k));
    c.eq(s.value, static_cast<i64>(std::trunc(y)), "price from real and similar"); c.check(s.valuation == k, "currency of price like another");
    c.check(std::fabs(static_cast<double>(p.value)) <= std::fabs(y), "approximation larger in magnitude than the amount");
    c.check(std::fabs(y - static_cast<double>(p.value)) < 1.0 || std::fabs(y) > 4e15, "approximation further than one sub-unit away");
}

PBT(rendering, 200000, 4000000, "negative, below one unit, or at least 1000 units")
{
    iso_4217 k = currency(c);
    i64 a = c.sbig(999999999999999ll); price p(a, k);
    int dec = 0; for(u64 d = k.denominator; d > 1; d = (d + 9) / 10) ++dec;
    NOTE(sh(p));
    u64 m = static_cast<u64>(a < 0 ? -a : a);
    c.nontrivial(a < 0 || m < k.denominator || m >= 1000 * k.denominator);
    std::string num = std::to_string(m / k.denominator);
    if(dec) { std::string f = std::to_string(m % k.denominator); num += "." + std::string(static_cast<size_t>(dec) - f.size(), '0') + f; }
    std::string want = std::string(k.code.data(), 3) + "(" + (a < 0 ? "-" : "") + num + ")";
    c.eq(p.representation(), want, "representation");
    std::ostringstream o; o << std::setprecision(3) << std::scientific << p; c.eq(o.str(), want, "stream output with other stream settings");
    o.str(""); o << 12345.5; c.check(o.str().find('e') != std::string::npos, "output of a price changes the stream's float format");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
