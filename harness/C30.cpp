// Walrasian price setter: compiled against lib/adept, a stand-in for the automatic differentiation library it needs.
// SOURCES: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/economics/markets/differentiable_demand_supply_function.cpp esl/economics/markets/walras/differentiable_order_message.cpp esl/economics/markets/walras/price_setter.cpp esl/economics/markets/walras/tatonnement.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp esl/economics/finance/securities_lending_contract.cpp
// FLAGS: -fsanitize=address -include functional -I$ROOT/lib/adept -Wl,--wrap=gsl_vector_alloc
#include <pbt.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/securities_lending_contract.hpp>
#include <esl/economics/markets/walras/price_setter.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/invalid_parameters.hpp>
#include <esl/simulation/model.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
#include <gsl/gsl_errno.h>
using namespace esl; using namespace esl::economics; using namespace esl::economics::markets; using namespace esl::simulation; namespace wal = esl::economics::markets::walras; using esl::economics::finance::securities_lending_contract;
// memory that the library does not initialise holds whatever the case chooses
static double garbage = 0; extern "C" { gsl_vector *__real_gsl_vector_alloc(size_t); gsl_vector *__wrap_gsl_vector_alloc(size_t n) { auto v = __real_gsl_vector_alloc(n); if(v) gsl_vector_set_all(v, garbage); return v; } }
typedef uint64_t u64; typedef int64_t i64; typedef std::shared_ptr<law::property> prop_t; typedef identity<law::property> pid; typedef tatonnement::excess_demand_model edm;
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
// What one participant wants of one property: excess demand in money at x times the quote is a - b x + d / x + e exp(-x)
struct term { double a = 0, b = 0, d = 0, e = 0; template<class T> T at(const T &x) const { using std::exp; T r = a - b * x; if(d != 0) r = r + d / x; if(e != 0) r = r + e * exp(-1. * x); return r; } };
struct order : wal::differentiable_order_message {
    std::map<pid, term> terms;
    order(identity<agent> from = {}, identity<agent> to = {}, time_point sent = 0, time_point received = 0) : wal::differentiable_order_message(from, to, sent, received) {}
    using wal::differentiable_order_message::excess_demand;
    std::map<pid, variable> excess_demand(const std::map<pid, std::tuple<quote, variable>> &q) const override { std::map<pid, variable> r; for(auto &[k, t] : terms) { const variable &x = std::get<1>(q.find(k)->second); r.emplace(k, t.at(x)); } return r; }
};
struct holding { i64 net = 0; bool interested = false; term t; };
struct market_case { std::vector<prop_t> p; law::property_map<quote> q; std::vector<i64> value; std::vector<u64> lot; std::vector<iso_4217> cur; std::vector<std::map<size_t, holding>> who; bool linear = true, smooth = false; bool wanted(size_t i) const { for(auto &h : who) if(h.count(i)) return true; return false; } double unit(size_t i) const { return (double)value[i] / (double)cur[i].denominator / (double)lot[i]; } };
static identity<agent> aid(u64 k) { return identity<agent>(std::vector<u64>{100 + k}); }
static const std::vector<iso_4217> &some() { static std::vector<iso_4217> v{currencies::USD, currencies::EUR, currencies::JPY, currencies::BHD}; return v; }
static market_case gen_market(pbt::Ctx &c)
{
    market_case m; size_t n = 1 + c.below(4); bool mixed = c.below(4) == 0; for(size_t i = 0; i < n; ++i) { m.p.push_back(std::make_shared<law::property>(pid(std::vector<u64>{7, i}))); m.value.push_back((i64)(1 + c.below(c.flip() ? 300 : c.below(6) ? 100000 : 10000000000ull))); m.lot.push_back(c.below(3) ? 1 : 1 + c.below(20)); m.cur.push_back(mixed ? c.pick(some()) : currencies::USD); m.q.insert({m.p[i], quote(price(m.value[i], m.cur[i]), (uint32_t)m.lot[i])}); NOTE("property " << i << ": " << m.value[i] << "/" << m.lot[i] << " " << m.cur[i].denominator); } return m;
}
// orders that put the market-clearing multiplier of every property at a chosen place, if one exists
static void gen_orders(pbt::Ctx &c, market_case &m)
{
    size_t n = 1 + c.below(6); m.who.resize(n); m.linear = c.below(4) != 0; m.smooth = !m.linear && c.flip(); bool unwanted = c.below(6) == 0;
    for(size_t i = 0; i < m.p.size(); ++i) {
        u64 cap = c.flip() ? 20 : c.flip() ? 2000 : 1000000; double wealth = 0; i64 net = 0; int any = 0;
        for(size_t k = 0; k < n; ++k) if(c.below(5)) { auto &h = m.who[k][i]; h.interested = true; ++any; u64 s = c.below(4) ? c.below(cap + 1) : 0; h.net = c.below(5) == 0 ? -(i64)(s / 4) : (i64)s; h.t.a = c.below(6) ? c.unit() : 0; if(c.below(12) == 0) h.t.a = -h.t.a / 4; net += h.net; wealth += h.t.a; }
        if(unwanted && c.below(2)) { for(auto &w : m.who) w.erase(i); NOTE("nobody asks for " << i); continue; }
        if(!any) { auto &h = m.who[c.below(n)][i]; h.interested = true; h.net = (i64)c.below(cap + 1); h.t.a = 1; net += h.net; wealth += 1; }
        double x = c.below(5) ? std::exp((c.unit() * 2 - 1) * 1.6) : std::exp((c.unit() * 2 - 1) * 6), u = m.unit(i), scale = net > 0 && wealth > .05 ? x * u * (double)net / wealth : u * (double)(1 + c.below(cap)); scale = std::min(scale, 1e13); int still = (int)c.below(12);
        for(size_t k = 0; k < n; ++k) { auto it = m.who[k].find(i); if(it == m.who[k].end()) continue; auto &h = it->second; h.t.a *= scale; h.t.b = u * (double)h.net; if(still == 0 && c.flip()) h.t.a = h.t.b = 0; if(!m.linear && c.flip()) { (m.smooth ? h.t.e : h.t.d) = h.t.a / 2; h.t.a /= 2; } NOTE("participant " << k << " has " << h.net << " of " << i << " and wants " << h.t.a << " - " << h.t.b << " x" << (h.t.d != 0 ? PBT_STR(" + " << h.t.d << " / x") : std::string()) << (h.t.e != 0 ? PBT_STR(" + " << h.t.e << " exp(-x)") : std::string())); }
    }
}
typedef std::unordered_map<identity<agent>, std::shared_ptr<wal::differentiable_order_message>> book;
static book make_book(pbt::Ctx &c, const market_case &m, time_point t)
{
    book b; for(size_t k = 0; k < m.who.size(); ++k) { auto o = std::make_shared<order>(aid(k), identity<agent>(std::vector<u64>{1}), t, t); for(auto &[i, h] : m.who[k]) { o->terms[m.p[i]->identifier] = h.t; if(h.net || c.flip()) o->supply.insert({m.p[i]->identifier, std::make_tuple(quantity(h.net > 0 ? (u64)h.net : 0), quantity(h.net < 0 ? (u64)-h.net : 0))}); } b.emplace(o->sender, o); } return b;
}
struct flow { i64 asset = 0, contract = 0; };
struct flows { std::map<size_t, std::map<size_t, flow>> f; std::map<u64, std::map<size_t, i64>> cash; };   // per participant, per property; cash per currency and participant
template<class O> static flows read(pbt::Ctx &c, const market_case &m, const O &out, u64 self)
{
    flows r; identity<law::owner<law::property>> me(std::vector<u64>{self});
    for(auto &x : out) { auto t = std::dynamic_pointer_cast<interaction::transfer>(x); if(!t) continue; c.check(t->transferor != t->transferee, "a transfer to the sender itself"); bool to = t->transferor == me; c.check(to || t->transferee == me, "a transfer that does not involve the market"); auto other = to ? t->transferee : t->transferor; c.check(t->recipient.digits == other.digits, "a transfer is not sent to the participant it concerns"); size_t k = (size_t)(other.digits.at(0) - 100); c.check(k < m.who.size(), "a transfer with someone who gave no order");
        for(auto &[p, q] : t->transferred.items) { i64 v = (i64)q.amount * (to ? 1 : -1); c.check(q.amount < (u64)1 << 60, "an absurd quantity is transferred"); bool found = false; if(auto s = std::dynamic_pointer_cast<cash>(p)) { for(size_t j = 0; j < some().size(); ++j) if(s->denomination == some()[j]) { r.cash[j][k] += v; found = true; } } else if(auto l = std::dynamic_pointer_cast<securities_lending_contract>(p)) { for(size_t i = 0; i < m.p.size(); ++i) if(l->security == m.p[i]->identifier) { r.f[k][i].contract += v * (i64)l->size.amount; found = true; } } else for(size_t i = 0; i < m.p.size(); ++i) if(p->identifier == m.p[i]->identifier) { r.f[k][i].asset += v; found = true; } c.check(found, "something that is not traded is transferred"); } }
    return r;
}
static size_t currency(const iso_4217 &x) { for(size_t j = 0; j < some().size(); ++j) if(some()[j] == x) return j; return 99; }
static void conserved(pbt::Ctx &c, const market_case &m, const std::map<pid, double> &x, const std::vector<i64> &now, const flows &r)
{
    std::map<u64, std::map<size_t, long double>> due; std::map<u64, long double> slack; std::map<u64, std::map<size_t, int>> legs; bool rationed = false, traded = false;
    for(size_t i = 0; i < m.p.size(); ++i) {
        i64 sum = 0, buys = 0, sells = 0; double want_b = 0, want_s = 0; double s = x.at(m.p[i]->identifier);
        for(size_t k = 0; k < m.who.size(); ++k) {
            flow f; auto it = r.f.find(k); if(it != r.f.end() && it->second.count(i)) f = it->second.at(i); i64 v = f.asset - f.contract; sum += v; (v > 0 ? buys : sells) += v; traded |= v != 0; auto w = m.who[k].find(i); double units = w == m.who[k].end() ? 0 : w->second.t.at(s) / (m.unit(i) * s); i64 net = w == m.who[k].end() ? 0 : w->second.net; (units > 0 ? want_b : want_s) += units; double tol = 1e-6 * (1 + std::abs(units));
            if(v > 0) c.check(units > 0 && (double)v <= units + tol, PBT_STR("participant " << k << " is made to buy " << v << " of property " << i << " but wants " << units)); if(v < 0) c.check(units < 0 && (double)v >= units - tol, PBT_STR("participant " << k << " is made to sell " << -v << " of property " << i << " but wants " << units));
            i64 holds = std::max<i64>(net, 0), owes = std::max<i64>(-net, 0); c.check(f.asset + holds >= 0, PBT_STR("participant " << k << " delivers " << -f.asset << " of property " << i << " but supplied " << holds)); c.check(f.contract + owes >= 0, PBT_STR("participant " << k << " returns more contracts than it has")); c.check(holds + f.asset == 0 || owes + f.contract == 0, PBT_STR("participant " << k << " is left both long and short in property " << i));
            if(v) { long double amount = (long double)v * (long double)now[i] / (long double)m.lot[i]; size_t j = currency(m.cur[i]); due[j][k] -= amount; legs[j][k] += 1 + (holds + f.asset > 0 && owes) + (holds && owes + f.contract > 0); }
        }
        c.eq(sum, (i64)0, PBT_STR("bought minus sold of property " << i)); i64 possible = (i64)std::min(want_b, -want_s); if(buys < possible) rationed = true; double missing = std::min(want_b, -want_s) - (double)buys; c.check(missing <= (double)m.who.size() + 1e-6 * (1 + want_b - want_s), PBT_STR("property " << i << ": " << buys << " traded, although " << want_b << " are wanted and " << -want_s << " are offered"));
    }
    (void)rationed;
    std::set<u64> all; for(auto &[j, d] : due) all.insert(j); for(auto &[j, d] : r.cash) all.insert(j);
    for(u64 j : all) for(size_t k = 0; k < m.who.size(); ++k) { long double w = due.count(j) && due[j].count(k) ? due[j][k] : 0; i64 got = 0; if(r.cash.count(j) && r.cash.at(j).count(k)) got = r.cash.at(j).at(k); int l = legs[j][k]; c.check(std::abs((long double)got - w) <= (long double)l * 1.0001L + 1e-9L * std::abs(w), PBT_STR("participant " << k << " gets " << got << " sub-units of currency " << j << " for its trades, which are worth " << (double)w)); }
    if(traded) c.label("traded");
}
static void priced(pbt::Ctx &c, const market_case &m, const std::map<pid, double> &x, const law::property_map<quote> &after, std::vector<i64> &now, bool solved)
{
    c.eq(x.size(), m.p.size(), "prices set"); c.eq(after.size(), m.p.size(), "properties traded"); now.resize(m.p.size());
    for(size_t i = 0; i < m.p.size(); ++i) { auto it = after.find(m.p[i]); c.check(it != after.end(), "a property is no longer traded"); auto pr = std::get<price>(it->second.type); now[i] = pr.value; c.check(pr.valuation == m.cur[i], "currency of a price"); c.eq((u64)it->second.lot, m.lot[i], "lot of a price"); c.check(pr.value >= 1, PBT_STR("price " << pr.value << " of property " << i)); auto s = x.find(m.p[i]->identifier); c.check(s != x.end(), "a property has no price"); c.check(s->second >= 1 / 11. - 1e-12 && s->second <= 11 + 1e-12, PBT_STR("price of property " << i << " moves by a factor " << s->second)); long double w = (long double)m.value[i] * s->second; c.check(std::abs((long double)pr.value - w) < 1.0001L || (pr.value == 1 && w < 1), PBT_STR("price of property " << i << ": " << pr.value << ", expected " << (double)w));
        if(!m.wanted(i)) { c.eq(pr.value, m.value[i], PBT_STR("price of property " << i << ", which nobody asks for")); c.eq(s->second, 1., PBT_STR("multiplier of property " << i << ", which nobody asks for")); c.label("unwanted"); continue; }
        if(solved) { double a = 0, b = 0; for(auto &h : m.who) { auto t = h.find(i); if(t != h.end()) a += t->second.t.a, b += t->second.t.b; } double root = a / b, want = std::min(11., std::max(1 / 11., root)), slack = 4e-4 / b + 1e-6 * want; c.check(std::abs(s->second - want) <= slack, PBT_STR("price of property " << i << " is multiplied by " << s->second << ", but supply meets demand at " << want)); } }
}
// every property has a single price at which linear demand meets supply
static bool solvable(const market_case &m) { if(!m.linear) return false; for(size_t i = 0; i < m.p.size(); ++i) if(m.wanted(i)) { double a = 0, b = 0; for(auto &h : m.who) { auto t = h.find(i); if(t != h.end()) a += t->second.t.a, b += t->second.t.b; } if(!(b > 1e-6 && a > 1e-6 && a + b < 1e8)) return false; } return true; }
// the units asked for and offered of each property, in the order of the properties
template<class O> static void recorded(pbt::Ctx &c, const market_case &m, const std::map<pid, double> &x, const law::property_map<quote> &traded, const O &out, time_point t)
{
    c.eq(out.values.size(), (size_t)1, "volumes recorded"); auto &[when, list] = out.values.back(); c.eq(when, t, "time of the volumes"); c.eq(list.size(), m.p.size(), "properties with a volume"); size_t n = 0;
    for(auto &[p, q] : traded) { (void)q; double want = 0; size_t i = (size_t)p->identifier.digits.at(1); double s = x.at(p->identifier); for(auto &h : m.who) { auto w = h.find(i); if(w != h.end()) want += std::abs(w->second.t.at(s) / (m.unit(i) * s)); } if(want < 1e15) c.check(std::abs((double)list[n] - want) <= 1.01 + 1e-6 * want, PBT_STR("volume of property " << i << ": " << list[n] << ", although " << want << " units are asked for and offered")); ++n; }
}
PBT(clearing, 60000, 1000000, "two properties, three participants, a short position and a trade")
{
    silence sl; auto m = gen_market(c); gen_orders(c, m); wal::price_setter s(identity<wal::price_setter>(std::vector<u64>{1}), m.q); auto b = make_book(c, m, 3); auto x = s.clear_market(b, {3, 10}); std::vector<i64> now; priced(c, m, x, s.traded_properties, now, solvable(m)); auto f = read(c, m, s.outbox, 1); conserved(c, m, x, now, f); recorded(c, m, x, s.traded_properties, *s.output_volumes_, 3); bool sh = false; for(auto &h : m.who) for(auto &[i, z] : h) sh |= z.net < 0; c.nontrivial(m.p.size() > 1 && m.who.size() > 2 && sh && !f.f.empty());
}
PBT(transfers, 150000, 3000000, "three participants on one side of a market, and an imbalance")
{
    silence sl; auto m = gen_market(c); wal::price_setter s(identity<wal::price_setter>(std::vector<u64>{1}), m.q); std::map<pid, double> vol; std::map<pid, std::map<identity<agent>, std::tuple<double, quantity, quantity>>> o; size_t n = 1 + c.below(c.below(10) ? 6 : 60); bool many = false; double cap = c.flip() ? 5 : c.flip() ? 1000 : 1e12;
    for(size_t i = 0; i < m.p.size(); ++i) if(c.below(6)) { double v = 0; int b = 0, z = 0; for(size_t k = 0; k < n; ++k) if(c.below(4)) { double u = c.below(6) ? (c.unit() * 2 - 1) * cap : c.flip() ? 0. : (double)c.range(-3, 3); if(c.below(3) == 0) u = std::trunc(u); o[m.p[i]->identifier].emplace(aid(k), std::make_tuple(u, quantity(0), quantity(0))); v += std::abs(u); b += u >= 1; z += u <= -1; NOTE("participant " << k << " wants " << u << " of " << i); } if(o.count(m.p[i]->identifier)) vol[m.p[i]->identifier] = v; many |= (b >= 3 && z) || (z >= 3 && b); }
    auto r = s.compute_transfers(m.q, vol, o); c.nontrivial(many); for(auto &[p, t] : r) c.check(o.count(p) > 0, "transfers of property nobody asked for");
    for(auto &[p, w] : o) { auto it = r.find(p); c.check(it != r.end(), "a property with orders has no transfers"); i64 sum = 0; double buys = 0, wb = 0, ws = 0; for(auto &[a, v] : it->second) { c.check(w.count(a) > 0, "a transfer with someone without orders"); sum += v; if(v > 0) buys += (double)v; } c.eq(sum, (i64)0, "bought minus sold"); for(auto &[a, x] : w) { double u = std::get<0>(x); (u > 0 ? wb : ws) += std::trunc(u); auto t = it->second.find(a); i64 v = t == it->second.end() ? 0 : t->second; c.check(v == 0 || ((v > 0) == (u > 0) && std::abs((double)v) <= std::abs(u)), PBT_STR("participant " << a << " wants " << u << ", but gets " << v)); } c.check(std::min(wb, -ws) - buys <= (double)w.size() + 1e-9 * wb, PBT_STR(buys << " traded, although " << wb << " are wanted and " << -ws << " are offered")); }
}
PBT(solver, 60000, 1000000, "several properties and several methods")
{
    silence sl; auto m = gen_market(c); gen_orders(c, m); edm e(m.q); auto b = make_book(c, m, 0); for(auto &[k, o] : b) e.excess_demand_functions_.push_back(o); bool own = c.below(3) == 0; std::vector<edm::solver> all{edm::root, edm::minimization, edm::derivative_free_root, edm::derivative_free_minimization}; if(c.below(3)) { e.methods.clear(); size_t n = c.below(5); while(e.methods.size() < n) e.methods.push_back(c.pick(all)); } if(own) e.circuit_breaker = {.05 + c.unit() * .9, 1 + c.unit() * 20}; size_t it = c.below(4) ? 16 : 1 + c.below(100); std::string names; for(auto x : e.methods) names += " " + std::to_string((int)x); NOTE("methods" << names << ", " << it << " iterations, bounds " << e.circuit_breaker.first << " " << e.circuit_breaker.second);
    if(e.methods.empty()) { c.check(pbt::throws_a<esl::invalid_parameters>([&] { e.compute_clearing_quotes(it); }), "no method, but no refusal"); return; }
    bool quiet = e.methods[0] == edm::root; if(!quiet || !solvable(m)) gsl_set_error_handler_off(); garbage = c.pick(std::vector<double>{0, 1e300, -1, NAN}); auto r = e.compute_clearing_quotes(it); garbage = c.pick(std::vector<double>{0, 1e300, -1, NAN}); auto r2 = e.compute_clearing_quotes(it); c.nontrivial(m.p.size() > 1 && e.methods.size() > 1); c.check(r.has_value() == r2.has_value(), "solved once, but not again"); if(!r) { bool must = false; for(auto x : e.methods) must |= x == edm::derivative_free_root || (x == edm::root && solvable(m) && it >= 4); c.check(!must, "no solution"); return; } c.check(*r == *r2, "solving again gives another solution"); c.eq(r->size(), m.p.size(), "prices");
    for(size_t i = 0; i < m.p.size(); ++i) { auto s = r->find(m.p[i]->identifier); c.check(s != r->end(), "a property has no price"); c.check(s->second >= e.circuit_breaker.first - 1e-12 && s->second <= e.circuit_breaker.second + 1e-12, PBT_STR("price of property " << i << " moves by a factor " << s->second)); if(!m.wanted(i)) { double want = std::min(e.circuit_breaker.second, std::max(e.circuit_breaker.first, 1.)); if(solvable(m) && quiet && it >= 4) c.check(std::abs(s->second - want) <= 1e-3, PBT_STR("price of property " << i << ", which nobody asks for, is multiplied by " << s->second)); continue; } if(solvable(m) && quiet && it >= 4) { double a = 0, bb = 0; for(auto &h : m.who) { auto t = h.find(i); if(t != h.end()) a += t->second.t.a, bb += t->second.t.b; } double want = std::min(e.circuit_breaker.second, std::max(e.circuit_breaker.first, a / bb)); c.check(std::abs(s->second - want) <= 4e-4 / bb + 1e-6 * want, PBT_STR("price of property " << i << " is multiplied by " << s->second << ", but supply meets demand at " << want)); } }
    // demand that falls with the price of the property, so that there is one price at which supply meets demand
    bool firm = quiet && it >= 16, exact = m.p.size() == 1; if(!exact) for(auto x : e.methods) firm &= x == edm::root || x == edm::minimization; if(firm && (exact || m.smooth)) for(size_t i = 0; i < m.p.size(); ++i) {
        if(!m.wanted(i)) continue; term t; bool falls = true; for(auto &h : m.who) { auto z = h.find(i); if(z != h.end()) t.a += z->second.t.a, t.b += z->second.t.b, t.d += z->second.t.d, t.e += z->second.t.e; } falls = t.b > (exact ? 1e-3 : 1) && (t.a >= 0 || t.d == 0) && t.d >= 0 && t.e >= 0 && t.b + t.d + t.e + std::abs(t.a) < 1e8; if(!falls || t.at(1e-9) <= 0) continue; double lo = 1e-9, hi = 1e12; for(int k = 0; k < 300; ++k) { double x = std::sqrt(lo * hi); (t.at(x) > 0 ? lo : hi) = x; } double s = (*r)[m.p[i]->identifier], want = std::min(e.circuit_breaker.second, std::max(e.circuit_breaker.first, lo)), tol = exact ? 1e-4 / t.b + 1e-5 * want : 2e-2 / t.b + 1e-4 * want; c.label("falling demand"); c.check(std::abs(s - want) <= tol, PBT_STR("the price of property " << i << " is multiplied by " << s << ", but supply meets demand at " << want)); }
}
// the minimizers alone, given enough iterations, on demand of moderate size
PBT(minimizers, 15000, 200000, "two properties")
{
    silence sl; auto m = gen_market(c); if(m.p.size() > 2) { m.p.resize(2); law::property_map<quote> q; for(auto &p : m.p) q.insert({p, m.q[p]}); m.q = q; } m.who.resize(1 + c.below(4)); std::vector<double> root;
    for(size_t i = 0; i < m.p.size(); ++i) { double x = std::exp((c.unit() * 2 - 1) * 2), b = 1 + c.unit() * 20; root.push_back(x); for(auto &w : m.who) { w[i].t.a = b * x; w[i].t.b = b; w[i].interested = true; } NOTE("property " << i << ": " << m.who.size() << " participants want " << b << " * (" << x << " - x)"); }
    edm e(m.q); auto b = make_book(c, m, 0); for(auto &[k, o] : b) e.excess_demand_functions_.push_back(o); bool simplex = c.flip(); e.methods = {simplex ? edm::derivative_free_minimization : edm::minimization}; garbage = c.pick(std::vector<double>{0, 1e300, -1, NAN}); NOTE((simplex ? "simplex" : "gradient") << ", memory holds " << garbage); gsl_set_error_handler_off(); auto r = e.compute_clearing_quotes(2000); c.nontrivial(m.p.size() > 1); if(!r) c.fail("no solution in 2000 iterations"); double n = (double)m.who.size();
    for(size_t i = 0; i < m.p.size(); ++i) { double s = (*r)[m.p[i]->identifier], bb = m.who[0][i].t.b * n; c.check(std::abs(s - root[i]) <= .011 / bb + 1e-9, PBT_STR("price of property " << i << " is multiplied by " << s << ", but supply meets demand at " << root[i])); }
}
// whole simulations: traders answer quotes with orders made from what they hold, and book the transfers they are told of
struct run; struct trader : agent { run *r; size_t k; trader(const identity<trader> &i, run *r, size_t k); time_point act(time_interval s, std::seed_seq &) override { return s.upper; } };
struct position { i64 asset = 0, contract = 0; };
struct run { market_case m; std::vector<std::map<size_t, position>> pos; std::vector<std::map<size_t, i64>> money; std::vector<std::vector<std::pair<u64, std::map<size_t, i64>>>> told; std::map<std::pair<size_t, size_t>, std::vector<double>> mood; std::set<std::pair<size_t, size_t>> skips; std::vector<std::vector<identity<agent>>> ids; std::string wrong; int orders = 0, transfers = 0; identity<agent> market; };
trader::trader(const identity<trader> &i, run *r, size_t k) : agent(i), r(r), k(k)
{
    register_callback<wal::quote_message>([this](auto q, time_interval s, std::seed_seq &) { auto &m = this->r->m; std::map<size_t, i64> t; for(size_t j = 0; j < m.p.size(); ++j) { auto f = q->proposed.find(m.p[j]); if(f == q->proposed.end()) { this->r->wrong = "a property is not quoted"; return s.upper; } t[j] = std::get<price>(f->second.type).value; } if(q->proposed.size() != m.p.size()) this->r->wrong = "number of quotes"; size_t turn = this->r->told[this->k].size(); this->r->told[this->k].push_back({s.lower, t});
        auto o = this->template create_message<order>(q->sender, s.lower, identity<agent>(this->identifier), q->sender, s.lower, s.lower); o->sent = s.lower; ++this->r->orders; for(size_t j = 0; j < m.p.size(); ++j) { if(this->r->skips.count({this->k, j})) continue; auto &mood = this->r->mood[{this->k, j}]; double w = mood[turn % mood.size()]; auto &p = this->r->pos[this->k][j]; double unit = (double)t[j] / (double)m.cur[j].denominator / (double)m.lot[j]; o->terms[m.p[j]->identifier] = {w, unit * (double)(p.asset - p.contract), 0}; o->supply.insert({m.p[j]->identifier, std::make_tuple(quantity((u64)p.asset), quantity((u64)p.contract))}); } return s.upper; });
    register_callback<interaction::transfer>([this](auto t, time_interval s, std::seed_seq &) { identity<law::owner<law::property>> me(this->identifier.digits); bool gets = t->transferee == me; if(gets == (t->transferor == me)) { this->r->wrong = "a transfer that does not concern its recipient"; return s.upper; } ++this->r->transfers; auto &m = this->r->m; for(auto &[p, q] : t->transferred.items) { i64 v = gets ? (i64)q.amount : -(i64)q.amount; if(auto x = std::dynamic_pointer_cast<cash>(p)) this->r->money[this->k][currency(x->denomination)] += v; else if(auto x = std::dynamic_pointer_cast<securities_lending_contract>(p)) { for(size_t j = 0; j < m.p.size(); ++j) if(m.p[j]->identifier == x->security) this->r->pos[this->k][j].contract += v; } else for(size_t j = 0; j < m.p.size(); ++j) if(m.p[j]->identifier == p->identifier) this->r->pos[this->k][j].asset += v; } return s.upper; });
}
PBT(rounds, 6000, 100000, "two traders, two periods and a transfer")
{
    silence sl; run r; r.m = gen_market(c); for(auto &v : r.m.value) v = 50 + v % 5000; r.m.q.clear(); for(size_t i = 0; i < r.m.p.size(); ++i) r.m.q.insert({r.m.p[i], quote(price(r.m.value[i], r.m.cur[i]), (uint32_t)r.m.lot[i])}); size_t n = 1 + c.below(5), periods = 1 + c.below(6); r.pos.resize(n); r.money.resize(n); r.told.resize(n);
    computation::environment env; time_point start = c.below(3); model mod(env, parameter::parametrization(0, start, start + periods, 0, 1)); identity<wal::price_setter> mid; auto market = mod.create<wal::price_setter>(); market->traded_properties = r.m.q; r.market = market->identifier; std::vector<std::shared_ptr<trader>> tr; std::map<size_t, i64> total; u64 cap = c.flip() ? 10 : 1000; bool sparse = c.below(4) == 0;
    for(size_t k = 0; k < n; ++k) { tr.push_back(mod.create<trader>(&r, k)); market->participants.insert(identity<law::owner<law::property>>(tr.back()->identifier.digits)); for(size_t i = 0; i < r.m.p.size(); ++i) { auto &p = r.pos[k][i]; if(c.below(5) == 0) p.contract = (i64)c.below(cap / 4 + 1); else p.asset = (i64)c.below(cap + 1); total[i] += p.asset - p.contract; NOTE("trader " << k << " holds " << p.asset << "-" << p.contract << " of " << i); auto &mood = r.mood[{k, i}]; if(sparse && c.below(2)) { r.skips.insert({k, i}); NOTE("and never asks for it"); } size_t d = 1 + c.below(periods); for(size_t j = 0; j < d; ++j) mood.push_back(c.below(8) ? c.unit() * (double)cap * r.m.unit(i) * 2 : 0); } }
    std::map<size_t, std::map<u64, i64>> seen; time_point t = start; int steps = 0; while(t < start + (time_point)periods && steps < 40) {
        auto before = r.pos; auto cash0 = r.money; std::map<size_t, i64> was; for(size_t i = 0; i < r.m.p.size(); ++i) was[i] = std::get<price>(market->traded_properties.at(r.m.p[i]).type).value; int told0 = (int)r.told[0].size(); t = mod.step({t, start + periods}); ++steps; if(!r.wrong.empty()) c.fail(r.wrong);
        std::map<size_t, i64> now; for(size_t i = 0; i < r.m.p.size(); ++i) { now[i] = std::get<price>(market->traded_properties.at(r.m.p[i]).type).value; c.check(now[i] >= 1 && now[i] <= 11 * was[i] + 1 && 11 * (now[i] + 1) >= was[i], PBT_STR("price of property " << i << " goes from " << was[i] << " to " << now[i])); bool asked = false; for(size_t k = 0; k < n; ++k) asked |= !r.skips.count({k, i}); if(!asked) c.eq(now[i], was[i], PBT_STR("price of property " << i << ", which nobody asks for")); }
        for(size_t k = 0; k < n; ++k) { c.eq((int)r.told[k].size() - told0, 1, PBT_STR("quotes for trader " << k << " in a period")); c.check(r.told[k].back() == r.told[0].back(), "traders are told different quotes"); for(size_t i = 0; i < r.m.p.size(); ++i) c.eq(r.told[k].back().second.at(i), was[i], PBT_STR("price of property " << i << " told in a period")); }
        std::map<size_t, i64> sum; std::map<size_t, i64> gone; for(size_t k = 0; k < n; ++k) { std::map<size_t, long double> due; std::map<size_t, int> legs; for(size_t i = 0; i < r.m.p.size(); ++i) { auto &p = r.pos[k][i]; auto &b = before[k][i]; sum[i] += p.asset - p.contract; c.check(p.asset >= 0 && p.contract >= 0, PBT_STR("trader " << k << " is left with " << p.asset << " and " << p.contract << " contracts of property " << i)); c.check(p.asset == 0 || p.contract == 0, PBT_STR("trader " << k << " is left long and short")); i64 v = p.asset - p.contract - b.asset + b.contract; due[currency(r.m.cur[i])] -= (long double)v * now[i] / (long double)r.m.lot[i]; legs[currency(r.m.cur[i])] += 2 * (v != 0); } for(size_t j = 0; j < some().size(); ++j) { i64 got = r.money[k][j] - cash0[k][j]; c.check(std::abs((long double)got - due[j]) <= legs[j] * 1.0001L + 1e-9L * std::abs(due[j]), PBT_STR("trader " << k << " gets " << got << " for trades worth " << (double)due[j])); } } for(auto &[i, v] : sum) c.eq(v, total[i], PBT_STR("property " << i << " held by all traders together"));
        c.eq(market->output_clearing_prices_->values.size(), (size_t)steps, "prices recorded"); auto &[when, list] = market->output_clearing_prices_->values.back(); std::multiset<i64> a, z; for(auto &p : list) a.insert(p.value); for(auto &[i, v] : now) z.insert(v); c.check(a == z, "the prices recorded are not those set");
    }
    c.eq(steps, (int)periods, "periods"); c.nontrivial(n > 1 && steps > 1 && r.transfers > 0);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
