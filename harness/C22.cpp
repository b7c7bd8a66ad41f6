// Dividends of companies.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/economics/company.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/dividend.cpp esl/economics/finance/shareholder.cpp esl/interaction/communicator.cpp esl/law/property.cpp
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <unordered_set>
#include <esl/economics/company.hpp>
#include <esl/geography/countries.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::finance; using namespace esl::simulation;
typedef uint64_t u64; typedef int64_t i64; typedef __int128 i128; typedef std::tuple<int, int, int, bool, bool, bool> key;
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
static key gen(pbt::Ctx &c) { return {(int)c.below(3), (int)c.below(3), (int)c.below(3), c.below(3) != 0, c.below(4) == 0, c.below(4) == 0}; }
static share_class make(const key &k) { auto &[r, v, p, d, cu, re] = k; return share_class((uint8_t)r, (uint8_t)v, (float)p / 4, d, cu, re); }
static key of(const share_class &s) { return {s.rank, s.votes, (int)(s.preference * 4), s.dividend, s.cumulative, s.redeemable}; }
static std::string sh(const key &k) { auto &[r, v, p, d, cu, re] = k; return PBT_STR("(rank " << r << " votes " << v << " preference " << p << "/4" << (d ? " dividend" : "") << (cu ? " cumulative" : "") << (re ? " redeemable" : "") << ")"); }
static const std::vector<iso_4217> &some() { static std::vector<iso_4217> v{currencies::USD, currencies::EUR, currencies::JPY, currencies::BHD}; return v; }
struct firm : company {
    std::optional<dividend_policy> next; time_interval asked{0, 0}; int times = 0;
    firm(u64 id, const iso_4217 &t) : agent(identity<agent>(std::vector<u64>{id})), law::owner<law::property>(identity<law::owner<law::property>>(std::vector<u64>{id})), law::owner<cash>(identity<law::owner<law::property>>(std::vector<u64>{id})), law::owner<stock>(identity<law::owner<law::property>>(std::vector<u64>{id})), law::owner<bond>(identity<law::owner<law::property>>(std::vector<u64>{id})), company(identity<company>(std::vector<u64>{id}), law::jurisdiction(geography::countries::NL, t)) {}
    std::optional<dividend_policy> upcoming_dividend(time_interval i, std::seed_seq &) override { asked = i; ++times; return next; }
};
PBT(share_classes, 400000, 9000000, "the classes have equal rank but differ in other rights")
{
    key a = gen(c), b = c.below(3) ? a : gen(c); if(a == b && c.flip()) switch(c.below(6)) { case 0: std::get<0>(b) = (int)c.below(4); break; case 1: std::get<1>(b) = (int)c.below(4); break; case 2: std::get<2>(b) = (int)c.below(4); break; case 3: std::get<3>(b) = c.flip(); break; case 4: std::get<4>(b) = c.flip(); break; default: std::get<5>(b) = c.flip(); }
    key d = gen(c); auto x = make(a), y = make(b), z = make(d); NOTE(sh(a) << " and " << sh(b) << " and " << sh(d)); c.nontrivial(a != b && std::get<0>(a) == std::get<0>(b)); c.check((x == y) == (a == b), "classes are equal exactly if their rights are: violated"); c.check((x < y) + (y < x) == (a != b), "exactly one of a<b, a=b, b<a: violated"); c.check(!(x < y && y < z) || x < z, "a<b and b<c but not a<c"); if(a == b) c.eq(std::hash<share_class>()(x), std::hash<share_class>()(y), "hash of equal classes");
    auto w = x; c.check(of(w) == a && w == x, "a copy of a share class differs"); w = y; c.check(of(w) == b && w == y, "an assigned share class differs");
}
PBT(register_of_shares, 100000, 2500000, "three classes of which two differ only in rights, and two shareholders")
{
    silence s; firm f(1, c.pick(some())); std::map<key, u64> w; std::map<u64, std::map<key, u64>> holders; u64 total = 0; bool twins = false;
    while(c.more(3, 0, 8)) { key k = gen(c); u64 n = c.big(u64(1) << 40); for(auto &[o, q] : w) twins |= o != k && std::get<0>(o) == std::get<0>(k); w[k] += n; f.shares_outstanding[make(k)] += n; NOTE("issue " << n << " of " << sh(k)); if(c.flip()) { u64 h = 10 + c.below(5); holders[h][k] += n; f.shareholders[identity<shareholder>(std::vector<u64>{h})][make(k)] += n; NOTE("to " << h); } }
    c.eq(f.shares_outstanding.size(), w.size(), "number of share classes"); for(auto &[k, n] : w) { total += n; auto i = f.shares_outstanding.find(make(k)); c.check(i != f.shares_outstanding.end() && i->second == n, "shares of a class are mixed up with another: " + sh(k)); } c.eq(f.total_shares(), total, "shares outstanding"); for(auto &[h, m] : holders) { auto i = f.shareholders.find(identity<shareholder>(std::vector<u64>{h})); if(i == f.shareholders.end()) c.fail("registered shareholder not found"); c.eq(i->second.size(), m.size(), "classes held"); for(auto &[k, n] : m) c.eq(i->second[make(k)], n, "shares held"); }
    auto u = f.unique_shareholders(); c.eq(u.size(), holders.size(), "number of shareholders"); for(auto &[h, m] : holders) c.check(u.count(identity<shareholder>(std::vector<u64>{h})) == 1, "a shareholder is missing"); c.nontrivial(w.size() >= 3 && twins && holders.size() >= 2);
}
PBT(dividend_per_share, 150000, 4000000, "several classes, of which one has no right to dividend, and a positive profit that does not divide")
{
    silence s; auto cur = c.pick(some()); firm f(1, cur); std::map<key, u64> w; u64 total = 0; bool none = false;
    while(c.more(2, 0, 6)) { key k = gen(c); u64 n = c.flip() ? c.below(20) : c.big(u64(1) << 30); w[k] += n; none |= !std::get<3>(k); total += n; f.shares_outstanding[make(k)] += n; NOTE("issue " << n << " of " << sh(k)); }
    i64 p = c.below(5) == 0 ? -(i64)c.big(u64(1) << 40) : (i64)c.big(u64(1) << 48); NOTE("profit " << std::string(cur) << " " << p); auto before = f.shares_outstanding; auto r = f.compute_dividend_per_share(price(p, cur)); c.check(f.shares_outstanding == before, "computing the dividend changed the register");
    if(p <= 0 || !total) { i64 paid = 0; for(auto &[k, t] : r) paid |= std::get<1>(t).value * (i64)(std::get<0>(t) != 0); c.check(!paid, "a dividend is paid without profit or shares"); return; }
    i64 exact = p / (i64)total; bool divides = p % (i64)total == 0; c.nontrivial(w.size() >= 2 && none && !divides); double near = (double)(p % (i64)total) / (double)total; i128 committed = 0;
    for(auto &[k, n] : w) { auto i = r.find(make(k)); if(!std::get<3>(k)) { c.check(i == r.end() || std::get<1>(i->second).value == 0, "a class without right to dividend receives one"); continue; } if(i == r.end()) c.fail("a class with right to dividend receives none: " + sh(k)); auto &[q, d] = i->second; c.eq(q, n, "shares of the class in the dividend"); c.check(d.valuation == cur, "the dividend is in another currency"); double e = 1e-14 * (double)exact + 1e-9; c.check(d.value == exact || (near < e && d.value == exact - 1) || (1 - near < e && d.value == exact + 1), PBT_STR("dividend per share is " << d.value << ", expected " << exact)); committed += (i128)d.value * q; }
    c.eq(r.size() <= w.size(), true, "number of classes in the dividend"); if(committed < (i128(1) << 62)) { dividend_policy y(0, 0, {0, 0}, 0, cur, r); auto t = y.total_dividends(); c.check(t.value == (i64)committed && t.valuation == cur, "the total dividend is not shares times dividend"); }
}
PBT(total_dividends, 150000, 4000000, "at least two classes with shares and a dividend")
{
    auto cur = c.pick(some()); std::map<share_class, std::tuple<u64, price>> m; std::map<key, std::pair<u64, i64>> w; i128 t = 0; size_t many = 0;
    while(c.more(3, 0, 8)) { key k = gen(c); u64 n = c.big(1 << 28); i64 d = (i64)c.big(1 << 28); w[k] = {n, d}; m[make(k)] = {n, price(d, cur)}; NOTE(n << " of " << sh(k) << " at " << d); } for(auto &[k, v] : w) { t += (i128)v.first * v.second; many += v.first && v.second; } c.nontrivial(many >= 2);
    u64 a = c.below(50), e = c.below(50), lo = c.below(50), up = c.below(50), pay = c.below(50); dividend_policy p(a, e, {lo, up}, pay, cur, m); c.check(p.announcement_date == a && p.ex_dividend_date == e && p.payable_date == pay && p.dividend_period.lower == lo && p.dividend_period.upper == up && p.dividend_currency == cur && p.dividend_per_share == m, "a policy does not keep what it is made of"); auto g = p.total_dividends(); c.check(g.value == (i64)t && g.valuation == cur, PBT_STR("total dividends " << g.value << ", expected " << (i64)t));
}
PBT(announcements, 60000, 1500000, "a policy announced to two shareholders, one asked again after that, and one announced later")
{
    silence s; auto cur = c.pick(some()); firm f(7, cur); std::set<u64> holders; auto enter = [&](u64 h) { key k = gen(c); holders.insert(h); f.shareholders[identity<shareholder>(std::vector<u64>{h})][make(k)] += c.chance(1, 8) ? c.big(u64(1) << 40) : c.below(5); NOTE("shareholder " << h); }; while(c.more(2, 0, 5)) enter(20 + c.few(6));
    u64 now = c.below(4) ? c.below(5) : c.big(u64(1) << 50); std::optional<u64> announced; u64 date = now, pay = 0; std::optional<dividend_policy> policy; bool two = false, again = false, later = false; int i = 0;
    for(int n = 1 + (int)c.below(14); n--; ++i) {
        if(!policy || c.below(3) == 0) { if(c.below(6) == 0) { policy = {}; NOTE("no dividend"); } else { date = c.below(3) ? date + c.below(6) : std::max(date, now + c.below(6)); pay = c.below(5) ? date + c.below(8) : date - std::min<u64>(date, c.below(4)); std::map<share_class, std::tuple<u64, price>> m; m[make(gen(c))] = {c.below(9), price((i64)c.below(9), cur)}; policy = dividend_policy(date, date + c.below(5), {now, now + 1}, pay, cur, m); NOTE("policy announced at " << date << " payable at " << pay); } }
        if(c.below(6) == 0) enter(20 + c.few(6)); u64 up = now + 1 + c.below(10); f.next = policy; std::seed_seq seed{1}; f.times = 0; auto got = f.act({now, up}, seed); NOTE("acts in " << now << " to " << up << " wants " << got);
        c.check(f.times >= 1 && f.asked.lower == now && f.asked.upper == up, "the company did not ask for its dividend policy"); u64 want = up; if(policy && now < date) want = std::min(want, date); if(policy && now < pay) want = std::min(want, pay); c.eq(got, want, "next time the company acts");
        bool tell = policy && now >= date && (!announced || *announced < date); bool zero = tell && date == 0; if(tell) announced = date; std::map<u64, int> seen; if(zero && f.outbox.empty() && !holders.empty() && c.is_known("announcement-at-zero")) { c.known("announcement-at-zero", "a dividend announced at time 0 is never announced"); continue; }
        for(auto &m : f.outbox) { auto a = std::dynamic_pointer_cast<dividend_announcement_message>(m); if(!a) c.fail("the company sent something else than an announcement"); c.check(a->sender == f.identifier && a->recipient.digits.size() == 1 && a->received == now, "wrong sender, recipient or time of an announcement"); auto &p = a->policy; c.check(policy && p.announcement_date == policy->announcement_date && p.ex_dividend_date == policy->ex_dividend_date && p.payable_date == policy->payable_date && p.dividend_per_share == policy->dividend_per_share && p.dividend_currency == policy->dividend_currency, "another policy is announced"); ++seen[a->recipient.digits[0]]; }
        if(!tell) c.check(seen.empty(), announced ? "the policy is announced again or too early" : "a policy is announced too early"); else { for(auto h : holders) c.eq(seen[h], 1, "announcements to shareholder " + std::to_string(h)); c.eq(seen.size(), holders.size(), "shareholders told"); } two |= tell && holders.size() >= 2; again |= !tell && policy && announced && *announced == date && now >= date; later |= policy && now < date; f.outbox.clear(); now = c.flip() ? got : now + 1 + c.below(4);
    }
    c.nontrivial(two && again && later);
}
PBT(no_dividend_by_default, 20000, 400000, "the company has shareholders")
{
    silence s; identity<company> id(std::vector<u64>{3}); company f(id, law::jurisdiction(geography::countries::NL, currencies::EUR)); size_t n = c.few(4); for(size_t i = 0; i < n; ++i) f.shareholders[identity<shareholder>(std::vector<u64>{9 + i})][share_class()] = 1; u64 t = c.big(u64(1) << 60), up = t + 1 + c.below(10); std::seed_seq seed{1}; c.eq(f.act({t, up}, seed), up, "next time the company acts"); c.check(f.outbox.empty(), "a company without dividend policy announces one"); c.nontrivial(n > 0);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
