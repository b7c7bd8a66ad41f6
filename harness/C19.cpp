// Transfers of property between owners.
// SOURCES: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/owner.hpp>
#include <esl/simulation/model.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::accounting; using namespace esl::simulation;
typedef uint64_t u64; typedef std::vector<u64> digits;
struct goods : law::property, fungible { using law::property::property; std::string name() const override { return "goods"; } };
struct tools : law::property, fungible { using law::property::property; std::string name() const override { return "tools"; } };
struct art : law::property, infungible { using law::property::property; std::string name() const override { return "art"; } };
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
struct plain : law::owner<law::property>, identifiable_as<plain> { explicit plain(const identity<plain> &i) : agent(identity<agent>(i.digits)), law::owner<law::property>(identity<law::owner<law::property>>(i.digits)) { schedule = in_order; } };
struct sorted : virtual law::owner<goods>, virtual law::owner<tools>, virtual law::owner<art>, identifiable_as<sorted> {
    explicit sorted(const identity<sorted> &i) : agent(identity<agent>(i.digits)), law::owner<law::property>(identity<law::owner<law::property>>(i.digits)), law::owner<goods>(identity<law::owner<law::property>>(i.digits)), law::owner<tools>(identity<law::owner<law::property>>(i.digits)), law::owner<art>(identity<law::owner<law::property>>(i.digits)) { schedule = in_order; } };
typedef law::owner<law::property> party;
typedef std::map<int, u64> holding;         // property number -> amount
enum { G0, G1, T0, T1, A0, A1, A2, P0, N };
struct catalogue { std::vector<std::shared_ptr<law::property>> all; catalogue() { auto id = [](u64 k) { return identity<law::property>(digits{7, k}); }; all = {std::make_shared<goods>(id(0)), std::make_shared<goods>(id(1)), std::make_shared<tools>(id(2)), std::make_shared<tools>(id(3)), std::make_shared<art>(id(4)), std::make_shared<art>(id(5)), std::make_shared<art>(id(6)), std::make_shared<law::property>(id(7))}; }
    int find(const law::property &p) const { for(size_t i = 0; i < all.size(); ++i) if(all[i]->identifier == p.identifier) return (int)i; return -1; } };
static bool unique(int k) { return k >= A0 && k <= A2; }
static std::string sh(const holding &h) { static const char *n[] = {"goods0", "goods1", "tools0", "tools1", "art0", "art1", "art2", "property0"}; std::string r = "{"; for(auto &[k, v] : h) r += std::string(r.size() > 1 ? " " : "") + n[k] + "=" + std::to_string(v); return r + "}"; }
static holding normal(holding h) { for(auto i = h.begin(); i != h.end();) if(!i->second) i = h.erase(i); else ++i; return h; }
template<class M> static holding read(const catalogue &k, const M &m) { holding h; for(auto &[p, q] : m) if(q.amount) h[k.find(*p)] += q.amount; return h; }
static void give(const catalogue &k, party &p, const holding &h) { for(auto &[i, q] : h) p.inventory[k.all[i]] = quantity(q); if(auto s = dynamic_cast<sorted *>(&p)) for(auto &[i, q] : h) { if(i <= G1) s->law::owner<goods>::properties.insert(std::dynamic_pointer_cast<goods>(k.all[i]), quantity(q)); else if(i <= T1) s->law::owner<tools>::properties.insert(std::dynamic_pointer_cast<tools>(k.all[i]), quantity(q)); else if(i <= A2) s->law::owner<art>::properties.insert(std::dynamic_pointer_cast<art>(k.all[i])); } }
static void verify(pbt::Ctx &c, const catalogue &k, const party &p, const holding &w, const std::string &who)
{
    auto g = read(k, p.inventory); c.check(g == normal(w), who + " holds " + sh(g) + ", expected " + sh(normal(w)));
    if(auto s = dynamic_cast<const sorted *>(&p)) {
        holding f = read(k, s->law::owner<goods>::properties.items); for(auto &[i, q] : read(k, s->law::owner<tools>::properties.items)) f[i] += q; for(auto &a : s->law::owner<art>::properties.items) f[k.find(*a)] += 1; holding v = normal(w); v.erase(P0); c.check(f == v, who + " holds by type " + sh(f) + ", expected " + sh(v));
    }
}
static std::shared_ptr<interaction::transfer> message(const catalogue &k, const identity<agent> &from, const identity<agent> &to, const identity<agent> &recipient, const holding &h)
{
    inventory_filter<law::property> f; for(auto &[i, q] : h) f.insert(k.all[i], quantity(q)); return std::make_shared<interaction::transfer>(from, recipient, identity<party>(from.digits), identity<party>(to.digits), f);
}
static holding gen_basket(pbt::Ctx &c, const holding &held, size_t most, bool within)
{
    holding b; while(b.empty() || c.more(1, b.size(), most)) { int i = (int)c.below(N); auto f = held.find(i); u64 q = f == held.end() ? 0 : f->second; if(unique(i)) { if(!within || q) b[i] = 1; } else { u64 a = c.below(4) == 0 ? q : c.below(4) == 0 && !within ? q + 1 + c.below(3) : q ? 1 + c.below(c.chance(1, 3) ? q : std::min<u64>(q, 50)) : c.below(3); if(!within || a <= q) b[i] = a; } if(b.size() >= most || c.below(8) == 0) break; } return b;
}
// one owner and the transfer messages it receives
template<class owner_t> static void single(pbt::Ctx &c, bool mixed)
{
    silence s; catalogue k; identity<owner_t> me(digits{3}); owner_t o(me); identity<agent> self(digits{3}), other(digits{4}), third(digits{5}); holding h; size_t in = 0, out = 0, refused = 0, own = 0;
    for(int i = 0; i < N; ++i) if(c.flip()) h[i] = unique(i) ? 1 : 1 + (c.chance(1, 5) ? c.big(u64(1) << 52) : c.below(100)); give(k, o, h); NOTE("starts with " << sh(h)); verify(c, k, o, h, "the owner");
    u64 t = c.moment(1); while(c.more(8, 0, 30)) {
        holding b; int kind = (int)c.below(5); bool can = true; std::shared_ptr<interaction::transfer> m; std::seed_seq seed{1};
        if(kind <= 1) { b = gen_basket(c, h, mixed ? 5 : 1, false); for(auto &[i, q] : b) can &= q <= h[i]; m = message(k, self, other, self, b); NOTE("sends " << sh(b)); }
        else if(kind == 2) { b = gen_basket(c, h, 5, false); for(auto i = b.begin(); i != b.end();) if(unique(i->first) && h[i->first]) i = b.erase(i); else ++i; m = message(k, other, self, self, b); NOTE("receives " << sh(b)); }
        else if(kind == 3) { b = gen_basket(c, h, 5, false); m = message(k, self, self, self, b); NOTE("sends to itself " << sh(b)); ++own; }
        else { b = gen_basket(c, h, 5, false); m = message(k, other, third, self, b); NOTE("is told of a transfer of others " << sh(b)); }
        bool threw = false; try { o.inbox.clear(); o.inbox.insert({t, m}); u64 up = t + 1 + c.below(5), next = o.process_messages({t, up}, seed); c.eq(next, up, "next event after a transfer"); } catch(const insufficent_inventory &) { threw = true; }
        if(kind <= 1) { c.check(threw != can, can ? "a transfer of property that is held was refused" : "a transfer of property that is not held was not refused"); if(can) { for(auto &[i, q] : b) h[i] -= q; ++out; } else ++refused; }
        else c.check(!threw, "a transfer in was refused"); if(kind == 2) { for(auto &[i, q] : b) h[i] += q; ++in; }
        verify(c, k, o, h, "the owner"); c.check(o.outbox.empty(), "a transfer caused messages"); t += c.below(3);
    }
    c.nontrivial(in && out && refused); if(own) c.label("transfer to itself");
}
PBT(any_property, 25000, 700000, "a transfer in, a transfer out and a refused transfer") { single<plain>(c, true); }
// an owner that keeps its holdings by type processes a refused transfer of several types in part before it is refused, so baskets out hold one property
PBT(by_type, 20000, 600000, "a transfer in, a transfer out and a refused transfer") { single<sorted>(c, false); }
// transfers between owners through the messages of a model
PBT(exchange, 12000, 350000, "at least four transfers between two owners, one of property received before")
{
    silence s; catalogue k; computation::environment e; model m(e, parameter::parametrization(0, 0, 1000, 0, c.below(4) ? 1 : 3)); size_t n = 2 + c.below(4); std::vector<std::shared_ptr<party>> o; std::vector<holding> h(n); holding total;
    for(size_t i = 0; i < n; ++i) { if(c.flip()) o.push_back(m.create<sorted>()); else o.push_back(m.create<plain>()); for(int j = 0; j < N; ++j) if(unique(j) ? !total[j] && c.flip() : c.below(3) == 0) { h[i][j] = unique(j) ? 1 : c.chance(1, 5) ? c.big(u64(1) << 52) : c.below(1000); total[j] += h[i][j]; } give(k, *o[i], h[i]); NOTE("owner " << i << " starts with " << sh(h[i])); }
    u64 t = 0; size_t done = 0; bool passed_on = false; std::set<std::pair<int, int>> received;
    while(c.more(8, 0, 25) && t < 900) {
        // several transfers in one step; each is covered by what its transferor holds, allowing for the others of the step
        std::vector<holding> left = h; size_t batch = 1 + c.below(3);
        for(size_t q = 0; q < batch; ++q) { size_t a = c.below(n), b = c.below(n); holding x = gen_basket(c, left[a], 4, true); x = normal(x); if(x.empty()) continue; NOTE("at " << t << " owner " << a << " transfers " << sh(x) << " to " << b);
            for(auto &[i, v] : x) { passed_on |= a != b && received.count({(int)a, i}); left[a][i] -= v; if(a != b) { h[a][i] -= v; h[b][i] += v; received.insert({(int)b, i}); } else left[a][i] += v; } done += a != b;
            for(size_t to : {a, b}) { auto w = message(k, o[a]->agent::identifier, o[b]->agent::identifier, o[to]->agent::identifier, x); w->received = t; o[a]->outbox.push_back(w); if(a == b && c.flip()) break; } }
        m.step({t, t + 1 + c.below(3)}); for(size_t i = 0; i < n; ++i) m.wake_up_times[o[i]->agent::identifier] = t + 1; ++t;
        m.step({t, t + 1}); for(size_t i = 0; i < n; ++i) m.wake_up_times[o[i]->agent::identifier] = t + 1; ++t;
        holding sum; for(size_t i = 0; i < n; ++i) { verify(c, k, *o[i], h[i], PBT_STR("owner " << i)); for(auto &[j, v] : read(k, o[i]->inventory)) sum[j] += v; } c.check(sum == normal(total), "in total there is " + sh(sum) + ", at the start " + sh(normal(total)));
    }
    c.nontrivial(done >= 4 && passed_on);
}
PBT(taking, 20000, 500000, "a property is taken more than once")
{
    silence s; catalogue k; struct one : virtual law::owner<goods>, identifiable_as<one> { explicit one(const identity<one> &i) : agent(identity<agent>(i.digits)), law::owner<law::property>(identity<party>(i.digits)), law::owner<goods>(identity<party>(i.digits)) {} } o(identity<one>(digits{1})); holding h; bool again = false;
    while(c.more(5, 0, 20)) { int i = (int)c.below(2); u64 q = c.chance(1, 5) ? c.big(u64(1) << 52) : c.below(100); again |= h.count(i); NOTE("takes " << sh({{i, q}})); o.take(std::dynamic_pointer_cast<goods>(k.all[i]), quantity(q)); h[i] += q; auto a = read(k, o.inventory), b = read(k, o.law::owner<goods>::properties.items); c.check(a == normal(h), "the inventory is " + sh(a) + ", expected " + sh(normal(h))); c.check(b == normal(h), "by type the owner holds " + sh(b) + ", expected " + sh(normal(h))); } c.nontrivial(again);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
