// Market quotes.
// SOURCES: esl/exception.cpp
#include <pbt.hpp>
#include <boost/serialization/split_member.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/quote.hpp>
using namespace esl::economics; using esl::economics::markets::quote;
typedef int64_t i64; typedef uint64_t u64; typedef __int128 i128;
static const price &pr(const quote &q) { return std::get<price>(q.type); }
static std::string sh(const quote &q) { return PBT_STR(q.lot << "@" << pr(q).value << std::string(pr(q).valuation)); }
static uint32_t lot(pbt::Ctx &c) { switch(c.below(4)) { case 0: return 1; case 1: return 1 + (uint32_t)c.below(10); case 2: return c.pick(std::vector<uint32_t>{100, 1000, 10000, 1000000}); default: return 1 + (uint32_t)c.below(4294967295ull); } }
static iso_4217 cur(pbt::Ctx &c) { return c.pick(std::vector<iso_4217>{currencies::USD, currencies::JPY, currencies::BHD, currencies::EUR}); }

PBT(comparison, 500000, 15000000, "lot above one, and prices differ by at most two or in sign")
{
    uint32_t l = lot(c); iso_4217 k = cur(c); i64 lim = INT64_MAX / (i64)l / 2 - 4;
    i64 a = c.sbig(lim), b = c.flip() ? c.sbig(lim) : a + c.range(-2, 2), d = b + c.range(-2, 2);
    quote p(price(a, k), l), q(price(b, k), l), r(price(d, k), l);
    NOTE(sh(p) << " " << sh(q)); c.nontrivial(l > 1 && ((a < 0) != (b < 0) || std::abs(a - b) <= 2)); c.label(a == b ? "equal" : a < b ? "less" : "greater");
    c.eq(p == q, a == b, "=="); c.eq(p != q, a != b, "!="); c.eq(p < q, a < b, "<"); c.eq(p > q, a > b, ">"); c.eq(p <= q, a <= b, "<="); c.eq(p >= q, a >= b, ">=");
    if(p < q && q < r) c.check(p < r, "transitivity of <");
    if(std::abs((double)a) < 9e15) c.eq(double(p), (double)a / (double)k.denominator / l, "numeric value");
}
PBT(refusals, 300000, 8000000, "lots differ, or currencies differ, or the lot is zero")
{
    uint32_t l = lot(c), m = c.below(4) ? (c.flip() ? lot(c) : l + 1 + (l == UINT32_MAX)) : l; if(!m) m = 2; iso_4217 k = cur(c), n = c.below(3) ? k : cur(c);
    i64 a = c.sbig(1000000000), b = c.flip() ? a : c.sbig(1000000000);
    if(c.below(8) == 0) { i64 g = a; c.nontrivial(); c.label("zero lot"); c.check(pbt::throws([&] { quote z(price(g, k), 0); (void)z; }), "a quote with lot zero was accepted"); }
    quote p(price(a, k), l), q(price(b, n), m);
    NOTE(sh(p) << " " << sh(q)); c.nontrivial(l != m || k != n);
    auto refused = [&](const char *what, auto f) { c.check(pbt::throws([&] { f(); }), std::string(what) + " of quotes with " + (l != m ? "different lots" : "different currencies") + " was answered"); };
    if(l != m || k != n) {
        c.label(l != m ? "lots differ" : "currencies differ");
        if(l != m) { refused("==", [&] { volatile bool x = p == q; (void)x; }); refused("!=", [&] { volatile bool x = p != q; (void)x; }); }
        else { c.eq(p == q, false, "== across currencies"); c.eq(p != q, true, "!= across currencies"); }
        refused("<", [&] { volatile bool x = p < q; (void)x; }); refused(">", [&] { volatile bool x = p > q; (void)x; });
        refused("<=", [&] { volatile bool x = p <= q; (void)x; }); refused(">=", [&] { volatile bool x = p >= q; (void)x; });
        if(l != m) { refused("+", [&] { auto x = p + q; (void)x; }); refused("-", [&] { auto x = p - q; (void)x; }); refused("*", [&] { auto x = p * q; (void)x; });
            if(b) refused("/", [&] { auto x = p / q; (void)x; }); }
    }
    quote s(p); s = q; c.check(s.lot == m && pr(s).value == b && pr(s).valuation == n, "assigned quote"); c.check(p.lot == l && pr(p).value == a, "source unchanged");
    quote t(s); c.check(t.lot == m && pr(t).value == b && pr(t).valuation == n, "copied quote");
    c.eq(t.lot > 0, true, "positive lot");
}
PBT(arithmetic, 400000, 10000000, "both prices non-zero and lot above one")
{
    uint32_t l = lot(c); iso_4217 k = cur(c); i64 a = c.sbig(1000000000), b = c.sbig(1000000000); double x = c.real(1000.0);
    quote p(price(a, k), l), q(price(b, k), l); NOTE(sh(p) << " " << sh(q) << " real " << x); c.nontrivial(a && b && l > 1);
    auto is = [&](const quote &r, i64 want, const char *what) { c.eq(pr(r).value, want, what); c.eq(r.lot, l, std::string("lot of ") + what); c.check(pr(r).valuation == k, std::string("currency of ") + what); };
    is(p + q, a + b, "p+q"); is(p - q, a - b, "p-q"); is(p * q, a * b, "p*q"); if(b) is(p / q, a / b, "p/q");
    is(p + x, (i64)((double)a + x), "p+real"); is(p - x, (i64)((double)a - x), "p-real"); is(p * x, (i64)((double)a * x), "p*real"); if(std::fabs(x) > 1e-3) is(p / x, (i64)((double)a / x), "p/real");
    is(quote(x, p), (i64)(x * (double)k.denominator), "quote from real like another"); is(p, a, "left operand afterwards"); is(q, b, "right operand afterwards");
    std::ostringstream o, w; o << p; w << l << '@' << price(a, k); c.eq(o.str(), w.str(), "rendering"); c.eq(p.representation(), w.str(), "representation");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
