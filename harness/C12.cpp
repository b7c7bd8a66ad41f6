// Avellaneda-Stoikov quotes.
#include <pbt.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/avellaneda_stoikov.hpp>
using namespace esl::economics;
typedef int64_t i64; typedef uint64_t u64;
struct in { price mid; u64 l, s; double theta, sigma, gamma, k; };
static std::pair<price, price> ask(const in &i) { return esl::economics::markets::order_book::avellaneda_stoikov(i.mid, i.l, i.s, i.theta, i.sigma, i.gamma, i.k); }
static std::string sh(const in &i) { return PBT_STR(std::setprecision(17) << std::string(i.mid.valuation) << " " << i.mid.value << " long " << i.l << " short " << i.s << " theta " << i.theta << " sigma " << i.sigma << " gamma " << i.gamma << " k " << i.k); }
static double loguniform(pbt::Ctx &c, double lo, double hi) { return lo * std::pow(hi / lo, c.unit()); }
// reservation price and half spread in sub-units
static std::pair<long double, long double> exact(const in &i)
{
    long double m = (long double)i.mid.value / i.mid.valuation.denominator, n = (long double)i.l - (long double)i.s, g = i.gamma, s = i.sigma, t = i.theta, d = i.mid.valuation.denominator;
    return {(m - n * g * s * s * (1 - t)) * d, (g * s * s * (1 - t) + 2 / g * std::log1p(g / i.k)) / 2 * d};
}
static in gen(pbt::Ctx &c)
{
    in i{price(1, c.pick(std::vector<iso_4217>{currencies::USD, currencies::JPY, currencies::BHD, currencies::EUR})), 0, 0, 0, 1, 1, 1};
    i.mid.value = 1 + (i64)(c.below(3) ? c.below(100000) : c.big(1000000000000ull));
    switch(c.below(4)) { case 0: break; case 1: i.l = c.below(100); i.s = c.below(100); break; case 2: i.l = c.big(1000000); break; default: i.s = c.big(1000000); }
    i.theta = c.below(4) == 0 ? 1.0 : c.below(4) == 0 ? 0.0 : c.unit();
    i.sigma = c.below(4) ? loguniform(c, 1e-3, 10.) : loguniform(c, 1e-6, 1e3); i.gamma = loguniform(c, 1e-3, 10.); i.k = c.below(4) ? loguniform(c, 1e-2, 1e2) : loguniform(c, 1e-3, 1e9);
    return i;
}
static void bounded(pbt::Ctx &c, const in &i) { auto e = exact(i); c.require(std::abs(e.first) + e.second < 4e15L); }
PBT(quotes, 600000, 15000000, "the inventory is not zero and the horizon is not reached")
{
    in i = gen(c); bounded(c, i); NOTE(sh(i)); c.nontrivial(i.l != i.s && i.theta < 1); c.label(i.l == i.s ? "flat" : i.l > i.s ? "long" : "short"); if(i.theta == 1) c.label("end of session");
    auto [b, a] = ask(i); auto e = exact(i); auto note = PBT_STR(b.value << "/" << a.value);
    c.check(b.value < a.value, "bid is not below ask: " + note); c.check(b.valuation == i.mid.valuation && a.valuation == i.mid.valuation, "currency of the quotes"); c.check(b < a, "bid < ask as prices");
    long double tol = 1e-6L + 1e-12L * (std::abs(e.first) + e.second + (long double)i.mid.value), lo = e.first - e.second, hi = e.first + e.second;
    // rounded outward to the sub-unit; widened by one sub-unit each when they would coincide
    c.check(b.value <= lo + tol && a.value >= hi - tol, "quotes are inside the reservation price minus/plus half the spread: " + note);
    long double slack = std::floor(lo + tol) >= std::ceil(hi - tol) ? 2 : 1; c.check(b.value > lo - slack - tol && a.value < hi + slack + tol, "quotes are more than rounding away from the reservation price minus/plus half the spread: " + note);
    if(i.l == i.s) c.check(b.value <= i.mid.value && i.mid.value <= a.value, "quotes of a flat inventory do not bracket the mid price: " + note);
}
// a vanishing spread around a whole number of sub-units: the quotes would coincide and are moved apart, one sub-unit each
PBT(coinciding, 200000, 4000000, "the inventory is not zero")
{
    in i = gen(c); i64 d = (i64)i.mid.valuation.denominator; i.mid.value = d * (1 + (i64)c.big(1000000000)); i.theta = 1; i.gamma = i.k * loguniform(c, 1e-25, 1e-17); NOTE(sh(i)); c.nontrivial(i.l != i.s); auto [b, a] = ask(i);
    c.check(b.value == i.mid.value - 1 && a.value == i.mid.value + 1, PBT_STR("quotes that would coincide are not one sub-unit below and above: " << b.value << "/" << a.value)); c.check(b.valuation == i.mid.valuation && a.valuation == i.mid.valuation, "currency of the quotes");
}
PBT(inventory, 400000, 10000000, "the two inventories differ and the horizon is not reached")
{
    in i = gen(c); bounded(c, i); in j = i; u64 more = 1 + c.big(1000); if(c.flip()) j.l += more; else if(j.s >= more) j.s -= more; else j.l += more; bounded(c, j); NOTE(sh(i) << " more " << more); c.nontrivial(i.theta < 1);
    auto p = ask(i), q = ask(j); c.check(q.first.value <= p.first.value && q.second.value <= p.second.value, PBT_STR("a larger inventory raises a quote: " << p.first.value << "/" << p.second.value << " -> " << q.first.value << "/" << q.second.value));
    in k = i; u64 both = c.below(1000); k.l += both; k.s += both; auto r = ask(k); c.check(r.first.value == p.first.value && r.second.value == p.second.value, "quotes depend on more than the net inventory");
}
PBT(spread, 400000, 10000000, "the quotes differ")
{
    in i = gen(c); if(c.flip()) i.s = i.l; bounded(c, i); in j = i; auto what = c.below(3); i64 tolerance = 0; double f = 1 + c.unit();
    if(what == 0) { j.sigma *= f; j.s = j.l; i.s = i.l; } else if(what == 1) { j.theta *= c.unit(); j.s = j.l; i.s = i.l; } else j.k /= f;      // wider
    bounded(c, j); NOTE(sh(i) << " against " << sh(j)); auto p = ask(i), q = ask(j); c.nontrivial(q.second.value - q.first.value > p.second.value - p.first.value); (void)tolerance;
    i64 coincide = (p.second.value - p.first.value == 2) ? 1 : 0;      // quotes that would coincide are moved apart
    c.check(q.first.value <= p.first.value + coincide && q.second.value >= p.second.value - coincide, PBT_STR((what == 0 ? "higher volatility" : what == 1 ? "an earlier time" : "a smaller order arrival sensitivity") << " narrows the quotes: " << p.first.value << "/" << p.second.value << " -> " << q.first.value << "/" << q.second.value));
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
