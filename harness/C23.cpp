// Books kept by holders of securities.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/economics/company.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/dividend.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/stock.cpp esl/interaction/communicator.cpp esl/law/property.cpp
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/geography/countries.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::finance; using namespace esl::simulation;
typedef uint64_t u64; typedef int64_t i64; typedef std::vector<u64> digits;
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
static const std::vector<iso_4217> &some() { static std::vector<iso_4217> v{currencies::USD, currencies::EUR, currencies::JPY, currencies::BHD}; return v; }
template<class T> static identity<T> id(u64 k) { return identity<T>(digits{k}); }
typedef law::owner<law::property> base;
struct investor : shareholder { explicit investor(u64 k) : agent(id<agent>(k)), base(id<base>(k)), law::owner<cash>(id<base>(k)), law::owner<stock>(id<base>(k)), shareholder(id<shareholder>(k)) { schedule = in_order; } };
struct lender : bondholder { explicit lender(u64 k) : agent(id<agent>(k)), base(id<base>(k)), law::owner<cash>(id<base>(k)), law::owner<bond>(id<base>(k)), bondholder(id<bondholder>(k)) { schedule = in_order; } };
struct firm : company { explicit firm(u64 k) : agent(id<agent>(k)), base(id<base>(k)), law::owner<cash>(id<base>(k)), law::owner<stock>(id<base>(k)), law::owner<bond>(id<base>(k)), company(id<company>(k), law::jurisdiction(geography::countries::NL, currencies::EUR)) { schedule = in_order; } };
static share_class cls(u64 k) { return k < 3 ? share_class((uint8_t)k) : share_class(0, 1, 0, k == 3, true); }
static identity<law::property> pid(u64 k) { return identity<law::property>(k & 1 ? digits{900, k} : digits{k, 900}); }
static std::shared_ptr<law::property> prop(u64 k) { return k % 3 ? std::make_shared<law::property>(pid(k)) : std::make_shared<stock>(pid(k), id<company>(1), share_class()); }
typedef std::map<u64, std::pair<i64, std::string>> book;
static std::string sh(const book &b) { std::string r; for(auto &[k, v] : b) r += PBT_STR(" " << k << "=" << v.second << " " << v.first); return r; }
static void compare(pbt::Ctx &c, const law::property_map<price> &m, const book &w, const char *what) { book g; for(auto &[p, v] : m) { u64 k = ~0ull; for(u64 i = 0; i < 12; ++i) if(p->identifier == pid(i)) k = i; g[k] = {v.value, std::string(v.valuation)}; } c.check(g == w && m.size() == w.size(), std::string(what) + ":" + sh(g) + ", expected:" + sh(w)); }
struct held { std::map<u64, std::map<u64, u64>> of; };
static void quotes(pbt::Ctx &c, agent &a, u64 now, book &w, bool &changed)
{
    law::property_map<markets::quote> m; size_t n = c.below(4); std::map<u64, std::pair<i64, std::string>> fresh;
    for(size_t i = 0; i < n; ++i) { u64 k = c.below(c.flip() ? 4 : 12); i64 v = c.sbig(i64(1) << 50); auto cur = c.pick(some()); u64 lot = 1 + c.below(100); if(!m.emplace(prop(k), markets::quote(price(v, cur), lot)).second) continue; changed |= w.count(k) && w[k] != std::make_pair(v, std::string(cur)); fresh[k] = {v, std::string(cur)}; NOTE("price of " << k << ": " << std::string(cur) << " " << v); }
    for(auto &[k, v] : fresh) w[k] = v; auto q = std::make_shared<markets::walras::quote_message>(id<agent>(500 + c.below(3)), a.identifier, m); q->received = now; a.inbox.insert({now, q});
}
PBT(prices_of_shares, 60000, 1500000, "several quotes of one instrument, two instruments")
{
    silence s; investor a(3); book w; bool changed = false; u64 now = c.moment(100); size_t steps = 1 + c.few(8);
    for(size_t i = 0; i < steps; ++i) { a.inbox.clear(); while(c.more(2, a.inbox.size(), 6)) quotes(c, a, now, w, changed); std::seed_seq seed{1}; u64 up = now + 1 + c.below(9); c.eq(a.process_messages({now, up}, seed), up, "next time the shareholder acts"); compare(c, a.prices, w, "book of prices"); now += c.below(5); }
    c.nontrivial(changed && w.size() >= 2); c.check(a.outbox.empty() && a.shares.empty() && a.stocks.empty(), "prices changed something else");
}
PBT(prices_of_bonds, 60000, 1500000, "several quotes of one instrument, two instruments")
{
    silence s; lender a(3); book w; bool changed = false; u64 now = c.moment(100); size_t steps = 1 + c.few(8);
    for(size_t i = 0; i < steps; ++i) { a.inbox.clear(); while(c.more(2, a.inbox.size(), 6)) quotes(c, a, now, w, changed); std::seed_seq seed{1}; u64 up = now + 1 + c.below(9); c.eq(a.process_messages({now, up}, seed), up, "next time the bondholder acts"); compare(c, a.bond_prices, w, "book of bond prices"); now += c.below(5); }
    c.nontrivial(changed && w.size() >= 2); c.check(a.outbox.empty(), "prices caused messages");
}
PBT(prices_at_companies, 40000, 900000, "several quotes of one instrument, two instruments")
{
    silence s; firm a(3); book w; bool changed = false; u64 now = c.moment(100); size_t steps = 1 + c.few(8);
    for(size_t i = 0; i < steps; ++i) { a.inbox.clear(); while(c.more(2, a.inbox.size(), 6)) quotes(c, a, now, w, changed); std::seed_seq seed{1}; u64 up = now + 1 + c.below(9); c.eq(a.process_messages({now, up}, seed), up, "next time the company acts"); compare(c, a.prices, w, "book of share prices"); compare(c, a.bond_prices, w, "book of bond prices"); now += c.below(5); }
    c.nontrivial(changed && w.size() >= 2);
}
PBT(holdings, 100000, 2500000, "two classes of one company, two companies, one stock registered for two classes")
{
    silence s; investor a(3); std::map<u64, u64> w; std::map<u64, std::set<u64>> by; bool shared = false, missing = false; size_t classes = 0, companies = 0;
    for(u64 f = 0; f < 4; ++f) { size_t here = 0; for(u64 k = 0; k < 5; ++k) { if(c.below(3)) continue; u64 n = c.below(4) ? c.below(100) : c.big(u64(1) << 60), p = c.flip() ? f * 5 + k : c.below(4); a.shares[id<company>(f)][cls(k)] = n; ++here; if(c.below(60) == 0) { missing = true; NOTE("company " << f << " class " << k << ": " << n << ", stock not registered"); continue; } a.stocks[{id<company>(f), cls(k)}] = pid(p); shared |= w.count(p); w[p] += n; NOTE("company " << f << " class " << k << ": " << n << " of stock " << p); } classes = std::max(classes, here); companies += here > 0; if(!here && c.below(4) == 0) a.stocks[{id<company>(f), cls(0)}] = pid(40 + f); }
    auto before = a.shares; if(missing) { c.check(pbt::throws([&] { (void)a.stock_holdings(); }), "holdings of shares whose stock is not known were answered"); return; } auto g = a.stock_holdings(); c.check(a.shares == before, "asking for the holdings changed them"); c.nontrivial(classes >= 2 && companies >= 2 && shared);
    c.eq(g.size(), w.size(), "number of stocks held"); for(auto &[p, n] : w) { auto i = g.find(pid(p)); c.check(i != g.end() && i->second.amount == n, PBT_STR("holding of stock " << p << ": got " << (i == g.end() ? 0 : i->second.amount) << ", expected " << n)); }
}
PBT(dividend_records, 60000, 1500000, "a company told of shares, one not held, one date outside the step, and two announcements")
{
    silence s; bool is_firm = c.below(4) == 0; std::unique_ptr<shareholder> a; if(is_firm) a = std::make_unique<firm>(3); else a = std::make_unique<investor>(3);
    std::map<u64, std::map<u64, u64>> held; std::set<std::pair<u64, u64>> dates; u64 now = c.below(3) ? c.below(10) : c.big(u64(1) << 50); bool told = false, strange = false, outside = false, both = false;
    auto trade = [&] { u64 f = 50 + c.below(4), k = c.below(5); u64 n = c.big(1000); held[f][k] = n; a->shares[id<company>(f)][cls(k)] = n; NOTE("holds " << n << " of company " << f << " class " << k); }; while(c.more(3, 0, 8)) trade();
    for(int n = 1 + (int)c.below(8); n--;) {
        if(c.below(3) == 0) trade(); if(c.below(6) == 0 && !held.empty()) { u64 f = held.begin()->first; held.erase(f); a->shares.erase(id<company>(f)); NOTE("sells company " << f); }
        u64 up = now + 1 + c.below(10); NOTE("step " << now << " to " << up); a->inbox.clear(); std::vector<std::pair<u64, std::map<u64, u64>>> want; size_t k = c.below(4);
        for(size_t i = 0; i < k; ++i) { u64 f = 50 + c.below(5), ex = c.below(4) == 0 ? now : c.below(4) == 0 ? up : c.below(5) == 0 ? now - std::min<u64>(now, 1 + c.below(4)) : now + c.below(16); std::map<share_class, std::tuple<u64, price>> per; per[share_class()] = {5, price(5, currencies::USD)}; dividend_policy p(now - std::min<u64>(now, c.below(3)), ex, {now, up}, ex + c.below(9), currencies::USD, per); auto m = std::make_shared<dividend_announcement_message>(id<agent>(f), a->identifier, p); m->received = now; a->inbox.insert({now, m}); dates.insert({ex, f}); NOTE("company " << f << " announces ex-dividend date " << ex);
            for(auto &[d, o] : dates) { if(d < now || d > up) { outside = true; continue; } auto h = held.find(o); if(h == held.end()) { strange = true; continue; } told = true; want.push_back({o, h->second}); } } both |= k >= 2;
        if(c.flip()) { auto q = std::make_shared<markets::walras::quote_message>(id<agent>(500), a->identifier, law::property_map<markets::quote>{{prop(1), markets::quote(price(5, currencies::USD))}}); q->received = now; a->inbox.insert({now, q}); }
        std::seed_seq seed{1}; c.eq(a->process_messages({now, up}, seed), up, "next time the shareholder acts"); std::vector<std::pair<u64, std::map<u64, u64>>> got;
        for(auto &m : a->outbox) { auto r = std::dynamic_pointer_cast<dividend_record>(m); if(!r) c.fail("the shareholder sent something else than its record"); c.check(r->sender == a->identifier && r->recipient.digits.size() == 1 && r->received <= now, "wrong sender, recipient or time of a record"); std::map<u64, u64> x; for(auto &[q, v] : r->shares_on_record) for(u64 j = 0; j < 5; ++j) if(cls(j) == q) x[j] = v; c.eq(x.size(), r->shares_on_record.size(), "classes in a record"); got.push_back({r->recipient.digits[0], x}); }
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); auto show = [](auto &v) { std::string r; for(auto &[f, x] : v) { r += " to " + std::to_string(f) + ":"; for(auto &[q, n] : x) r += " " + std::to_string(n) + "*" + std::to_string(q); } return r; }; c.check(got == want, "records sent" + show(got) + ", expected" + show(want)); a->outbox.clear(); now += c.flip() ? c.below(4) : up - now;
    }
    c.nontrivial(told && strange && outside && both);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
