// Price impact market and latency models.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/markets/impact_function/market.cpp esl/interaction/communicator.cpp esl/law/property.cpp
// FLAGS: -fsanitize=address
#include <random>
#include <pbt.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/impact_function/market.hpp>
#include <esl/economics/markets/impact_function/quote.hpp>
#include <esl/interaction/communication.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::markets; using namespace esl::simulation; namespace imp = esl::economics::markets::impact_function;
typedef uint64_t u64; typedef int64_t i64; typedef std::shared_ptr<law::property> prop_t; typedef imp::order_message om;
static const std::vector<iso_4217> &some() { static std::vector<iso_4217> v{currencies::USD, currencies::EUR, currencies::JPY, currencies::BHD}; return v; }
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
struct impact_fn { int kind; double k; double operator()(double v) const { switch(kind) { case 0: return k * v; case 1: return v < 0 ? -k * std::sqrt(-v) : k * std::sqrt(v); case 2: return k * v * v * (v < 0 ? -1 : 1) / 1000; case 3: return v > 100 ? k : v < -100 ? -k : 0; default: return k * v * v / 500; } } };
static impact_fn gen_fn(pbt::Ctx &c) { return {(int)c.below(5), (double)(1 + c.below(200)) / 1000}; }
struct setup { std::vector<prop_t> p; law::property_map<quote> q; std::vector<i64> value; std::vector<u64> lot; std::vector<iso_4217> cur; };
static setup gen(pbt::Ctx &c, bool one_lot = false)
{
    setup s; size_t n = 1 + c.few(4); for(size_t i = 0; i < n; ++i) { s.p.push_back(std::make_shared<law::property>(identity<law::property>(std::vector<u64>{7, i}))); s.value.push_back((i64)(100 + c.below(c.flip() ? 5000 : 5000000))); s.lot.push_back(one_lot || c.flip() ? 1 : 1 + c.below(100)); s.cur.push_back(c.pick(some())); s.q.insert({s.p[i], quote(price(s.value[i], s.cur[i]), s.lot[i])}); NOTE("property " << i << ": " << s.value[i] << "/" << s.lot[i] << " " << s.cur[i].denominator); } return s;
}
typedef std::map<size_t, i64> flow;
static std::shared_ptr<om> order(const setup &s, u64 who, const flow &f, time_point t, pbt::Ctx &c) { auto m = std::make_shared<om>(identity<agent>(std::vector<u64>{100 + who}), identity<agent>(std::vector<u64>{1}), t, t); for(auto &[i, v] : f) { auto p = c.flip() ? s.p[i] : std::make_shared<law::property>(s.p[i]->identifier); m->volumes.insert({p, {(u64)(v < 0 ? -v : v), v < 0 ? om::sell : om::buy}}); } return m; }
static flow gen_flow(pbt::Ctx &c, size_t n, const impact_fn &g) { flow f; bool large = g.kind % 2 == 1 && c.below(5) == 0; for(size_t i = 0; i < n; ++i) if(c.below(3)) { f[i] = (i64)(large ? c.below((u64)1 << 45) : c.below(c.flip() ? 50 : 5000)) * (c.flip() ? 1 : -1); } return f; }
static std::string sh(const flow &f) { std::ostringstream o; for(auto &[i, v] : f) o << " " << i << ":" << v; return o.str(); }
typedef std::unordered_map<identity<agent>, std::shared_ptr<om>> book;
PBT(impact, 150000, 1000000, "two properties and two orders of opposite sides of one property")
{
    silence sl; auto s = gen(c); imp::market m(identity<imp::market>(std::vector<u64>{1}), s.q); auto f = gen_fn(c); int calls = 0; std::vector<double> asked; m.impact_function = [&](double v) { ++calls; asked.push_back(v); return f(v); };
    std::vector<flow> fl; size_t n = c.few(6); for(size_t k = 0; k < n; ++k) { fl.push_back(gen_flow(c, s.p.size(), f)); NOTE("order" << sh(fl.back())); } bool alien = c.below(6) == 0; book b; for(size_t k = 0; k < n; ++k) { auto o = order(s, k, fl[k], 5, c); if(alien && k == 0) { o->volumes.insert({std::make_shared<law::property>(identity<law::property>(std::vector<u64>{9})), {7, om::buy}}); NOTE("and of a property that is not traded"); } b.emplace(o->sender, o); }
    std::map<size_t, i64> net; bool both = false; for(auto &x : fl) for(auto &[i, v] : x) { both |= net.count(i) && net[i] * v < 0; net[i] += v; } auto r = m.clear_market(b, {5, 10}); c.nontrivial(both && s.p.size() > 1);
    for(size_t i = 0; i < s.p.size(); ++i) { auto it = r.find(s.p[i]->identifier); double old = (double)s.value[i] / (double)s.cur[i].denominator / (double)s.lot[i], w = net.count(i) ? (old + f((double)net[i])) / old : 1; if(!net.count(i)) c.check(it == r.end() || it->second == 1, PBT_STR("property " << i << " has no orders, but is affected")); else { c.check(it != r.end(), PBT_STR("property " << i << " has orders, but is not affected")); c.check(std::abs(it->second - w) <= 1e-9 * (1 + std::abs(w)), PBT_STR("effect on property " << i << ": " << it->second << ", expected " << w)); } }
    for(auto &[k, v] : r) { bool known = false; for(auto &p : s.p) known |= p->identifier == k; c.check(known, "a property that is not traded is affected"); } c.eq(m.traded_properties.size(), s.p.size(), "properties traded"); c.check(calls <= (int)s.p.size(), "the impact function is applied more than once per property"); for(auto &[i, v] : net) c.check(std::find(asked.begin(), asked.end(), (double)v) != asked.end(), PBT_STR("the impact function is not applied to the net volume " << v << " of property " << i));
    // the same net flow, split and ordered differently
    std::vector<flow> g; for(auto &[i, v] : net) { i64 left = v; size_t parts = 1 + c.below(4); for(size_t k = 0; k < parts; ++k) { i64 x = k + 1 == parts ? left : c.sbig(5000); while(g.size() <= k + 1) g.push_back({}); size_t at = c.below(g.size()); while(g[at].count(i)) { at = (at + 1) % (g.size() + 1); if(at == g.size()) g.push_back({}); } g[at][i] = x; left -= x; } } book b2; for(size_t k = 0; k < g.size(); ++k) { size_t who = c.flip() ? k : 50 - k; NOTE("split" << sh(g[k])); auto o = order(s, who, g[k], 5, c); while(!b2.emplace(o->sender, o).second) o = order(s, ++who + 20, g[k], 5, c); }
    auto r2 = m.clear_market(b2, {5, 10}); for(auto &[i, v] : net) { double a = r[s.p[i]->identifier], z = r2[s.p[i]->identifier]; c.check(std::abs(a - z) <= 1e-12 * (1 + std::abs(a)), PBT_STR("splitting the orders of property " << i << " changed its price: " << a << " and " << z)); }
}
PBT(periods, 60000, 500000, "two periods with orders of which one moves a price")
{
    silence sl; auto s = gen(c); imp::market m(identity<imp::market>(std::vector<u64>{1}), s.q); auto f = gen_fn(c); m.impact_function = f; std::set<u64> part; size_t np = c.few(5); for(size_t k = 0; k < np; ++k) part.insert(100 + c.few(8)); for(u64 k : part) m.participants.insert(identity<law::owner<law::property>>(std::vector<u64>{k})); time_point t = c.moment(4); unsigned n = 0; int cleared = 0; bool moved = false, first = true;
    auto turn = [&](std::vector<flow> fl) { std::map<size_t, i64> net; for(auto &x : fl) for(auto &[i, v] : x) net[i] += v; for(size_t k = 0; k < fl.size(); ++k) { NOTE("at " << t << " order" << sh(fl[k])); auto o = order(s, k, fl[k], t, c); m.inbox.insert({t, o}); } std::seed_seq seed{1u, ++n}; time_interval step{t, t + 1 + c.below(5)}; m.outbox.clear(); auto e1 = m.process_messages(step, seed); auto e2 = m.act(step, seed); m.inbox.clear(); auto e = std::min(e1, e2); c.check(t <= e && e <= step.upper, "next event outside the step");
        if(!fl.empty() && !first) { ++cleared; c.check(e2 == step.upper, "the market asks to act again although it cleared"); }
        for(size_t i = 0; i < s.p.size(); ++i) { auto it = m.traded_properties.find(s.p[i]); c.check(it != m.traded_properties.end(), "a property is no longer traded"); auto pr = std::get<price>(it->second.type); c.check(pr.valuation == s.cur[i], "currency of a quote"); c.eq((u64)it->second.lot, s.lot[i], "lot of a quote"); i64 old = s.value[i]; if(first || !net.count(i)) c.eq((i64)pr.value, old, PBT_STR("price of property " << i << " without orders")); else { double unit = (double)old / (double)s.cur[i].denominator / (double)s.lot[i]; long double w = (long double)old * ((unit + f((double)net[i])) / unit); c.check(pr.value == 1 ? w < 2.001L : std::abs((long double)pr.value - w) <= 1.001L, PBT_STR("price of property " << i << " after net volume " << net[i] << " from " << old << ": " << pr.value << ", expected " << (double)w)); moved |= pr.value != old; } s.value[i] = pr.value; }
        c.eq(m.traded_properties.size(), s.p.size(), "properties traded"); std::set<u64> told; for(auto &x : m.outbox) { auto q = std::dynamic_pointer_cast<imp::quote_message>(x); c.check(bool(q), "another message is sent"); c.check(told.insert(q->recipient.digits.at(0)).second, "a participant is told twice"); c.eq((u64)q->received, (u64)t + 1, "time at which quotes arrive"); c.eq(q->proposed.size(), s.p.size(), "quotes"); for(size_t i = 0; i < s.p.size(); ++i) { auto it = q->proposed.find(s.p[i]); c.check(it != q->proposed.end(), "a property is not quoted"); c.eq((i64)std::get<price>(it->second.type).value, s.value[i], PBT_STR("price quoted for property " << i)); c.eq((u64)it->second.lot, s.lot[i], "lot quoted"); } } c.check(told == part, "the participants told are not those registered"); };
    turn({}); first = false; while(c.more(5, (size_t)n, 30)) { t += c.below(4); std::vector<flow> fl; size_t k = c.few(5); for(size_t j = 0; j < k; ++j) fl.push_back(gen_flow(c, s.p.size(), f)); turn(fl); bool huge = false; for(i64 v : s.value) huge |= v > ((i64)1 << 40); if(huge) break; } c.nontrivial(cleared >= 2 && moved);
}
PBT(latency, 100000, 2500000, "a positive random part")
{
    double shape = std::exp(c.unit() * 8 - 4), rate = std::exp(c.unit() * 12 - 8), shift = c.flip() ? (double)c.below(1000) : c.unit() * 1000; unsigned a = (unsigned)c.draw(1u << 31), b = (unsigned)c.below(5); interaction::communication::shifted_gamma_latency g(shape, rate, shift); interaction::communication::instant in; interaction::communication::latency_model &m = g, &z = in; NOTE("shape " << shape << ", rate " << rate << ", shift " << shift); identity<agent> x(std::vector<u64>{1}), y(std::vector<u64>{2}); std::seed_seq s{a, b}; time_duration d = m.sample(x, y, s); c.check(d >= (time_duration)shift, PBT_STR("latency " << d << " is less than the shift")); c.check((double)d <= shift + (shape + 60 * std::sqrt(shape) + 400) / rate, PBT_STR("latency " << d << " is out of proportion")); c.eq((u64)m.sample(x, y, s), (u64)d, "latency sampled with the same seed"); std::seed_seq s2{a, b}; interaction::communication::shifted_gamma_latency h(shape, rate, shift); h.sample(x, y, s2); c.eq((u64)h.sample(x, y, s2), (u64)d, "latency sampled by an equal model with the same seed"); c.eq((u64)z.sample(x, y, s), (u64)0, "latency of instant communication"); c.nontrivial(d > (time_duration)shift);
}
PBT(latency_mean, 300, 4000, "every case")
{
    double shape = .5 + c.unit() * 10, rate = .0005 + c.unit() * .02, shift = c.unit() * 100; interaction::communication::shifted_gamma_latency g(shape, rate, shift); identity<agent> x(std::vector<u64>{1}), y(std::vector<u64>{2}); unsigned a = (unsigned)c.draw(1u << 31); const int N = 1500; double s = 0; for(int i = 0; i < N; ++i) { std::seed_seq q{a, (unsigned)i}; s += (double)g.sample(x, y, q) + .5; } double w = shift + shape / rate, sd = std::sqrt(shape) / rate / std::sqrt((double)N); NOTE("shape " << shape << ", rate " << rate << ", shift " << shift << ": mean " << s / N << ", expected " << w); c.check(std::abs(s / N - w) <= 7 * sd + .5, PBT_STR("mean latency " << s / N << ", expected " << w)); c.nontrivial(true);
}
// the expected value of the delay rounded down, estimated from the distribution the parameters state
PBT(latency_rounding, 300, 4000, "a fixed part that is not whole")
{
    double shape = c.flip() ? 50 + c.unit() * 2000 : .5 + c.unit() * 5, mean = c.unit() * 3, shift = (double)c.below(3) + (c.below(4) ? c.unit() : 0); interaction::communication::shifted_gamma_latency g(shape, shape / mean, shift); NOTE("shape " << shape << ", mean " << mean << ", shift " << shift); c.require(mean > 1e-6); identity<agent> x(std::vector<u64>{1}), y(std::vector<u64>{2}); unsigned a = (unsigned)c.draw(1u << 31); const int N = 600, M = 6000; double s = 0, ss = 0, w = 0; for(int i = 0; i < N; ++i) { std::seed_seq q{a, (unsigned)i}; double d = (double)g.sample(x, y, q); s += d; ss += d * d; }
    std::mt19937_64 r(a ^ 0x5DEECE66Dull); std::gamma_distribution<double> ref(shape, mean / shape); for(int i = 0; i < M; ++i) w += std::floor(shift + ref(r)); s /= N; w /= M; double sd = std::sqrt(std::max(0., ss / N - s * s) + .02); c.check(std::abs(s - w) <= 6 * sd * std::sqrt(1. / N + 1. / M) + .02, PBT_STR("mean latency " << s << ", expected " << w)); c.nontrivial(shift != std::floor(shift));
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
