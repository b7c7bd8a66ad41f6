// Values saved to an archive load back equal.
// SOURCES: esl/economics/finance/dividend.cpp esl/law/property.cpp
// FLAGS: -fsanitize=address
// LIBS: -lboost_serialization
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/binary_object.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <pbt.hpp>
#include <esl/computation/timing.hpp>
#include <esl/data/serialization.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/markets/logout_message.hpp>
#include <esl/economics/markets/order_status_request_message.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/price.hpp>
#include <esl/geography/countries.hpp>
#include <esl/interaction/header.hpp>
#include <esl/law/government.hpp>
#include <esl/law/jurisdictions.hpp>
#include <esl/law/legal_entity.hpp>
#include <esl/law/natural_person.hpp>
#include <esl/law/property.hpp>
#include <esl/mathematics/interval.hpp>
#include <esl/mathematics/rational.hpp>
#include <esl/quantity.hpp>
#include <esl/simulation/identity.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
#include <esl/simulation/time.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::finance; using namespace esl::economics::markets; using namespace esl::law; using namespace esl::simulation; using namespace esl::geography;
typedef uint64_t u64; typedef int64_t i64; namespace ar = boost::archive;
// what a value consists of, as text
template<class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> std::string show(T v) { std::ostringstream o; o.precision(40); o << +v; return o.str(); }
static std::string show(const std::string &s) { return PBT_STR(s.size() << ":" << s); }
static std::string show(const quantity &q) { return show(q.amount); }
static std::string show(const iso_4217 &k) { return std::string(k.code.begin(), k.code.end()) + "/" + show(k.denominator); }
static std::string show(const price &p) { return show(p.value) + " " + show(p.valuation); }
static std::string show(const iso_3166_1_alpha_2 &k) { return std::string(k.code.begin(), k.code.end()); }
static std::string show(const jurisdiction &j) { return show(j.sovereign) + show(j.tender); }
static std::string show(const quote &q) { return show((u64)q.lot) + "@" + show(std::get<price>(q.type)); }
template<class T> std::string show(const identity<T> &i) { std::string s = "("; for(u64 d : i.digits) s += show(d) + "-"; return s + ")"; }
template<class T> std::string show(const boost::rational<T> &r) { return show(r.numerator()) + ":" + show(r.denominator()); }
static std::string show(const interest_rate &r) { return show(static_cast<const boost::rational<std::decay_t<decltype(r.numerator())>> &>(r)) + " per " + show((u64)r.duration); }
template<class T, bool A, bool B> std::string show(const mathematics::interval<T, A, B> &i) { return show(i.lower) + ".." + show(i.upper); }
static std::string show(const share_class &s) { return PBT_STR(int(s.rank) << "," << int(s.votes) << "," << s.preference << "," << s.dividend << s.cumulative << s.redeemable); }
template<class... A> std::string show(const std::tuple<A...> &t) { return std::apply([](const auto &...x) { return (std::string("<") + ... + (show(x) + ",")); }, t); }
template<class A, class B> std::string show(const std::map<A, B> &m) { std::string s = "{"; for(auto &[k, v] : m) s += show(k) + "=" + show(v) + ";"; return s + "}"; }
template<class T> std::string show(const std::vector<T> &m) { std::string s = "["; for(auto v : m) s += show(v) + ";"; return s + "]"; }
static std::string show(const dividend_policy &p) { return PBT_STR(p.announcement_date << "," << p.ex_dividend_date << "," << show(p.dividend_period) << "," << p.payable_date << "," << show(p.dividend_currency) << show(p.dividend_per_share)); }
static std::string head(const interaction::header &h) { return PBT_STR(h.type << " " << show(h.sender) << "->" << show(h.recipient) << " " << h.sent << "," << h.received); }
static std::string show(const interaction::header &h) { return head(h); }
static std::string show(const dividend_announcement_message &m) { return head(m) + show(m.policy); }
static std::string show(const dividend_record &m) { return head(m) + show(m.shares_on_record); }
static std::string show(const logout_message &m) { return head(m); }
static std::string show(const order_status_request_message &m) { return head(m); }
static std::string show(const computation::agent_timing &t) { return PBT_STR(t.messaging.count() << "," << t.acting.count()); }
static std::string show(const iso_17442 &l) { return std::string(l.local.begin(), l.local.end()) + std::string(l.code.begin(), l.code.end()); }
static std::string show(const natural_person &p) { return show(p.nationality); }
static std::string show(const government &g) { return show(g.title); }
static std::string show(const property &p) { return show(p.identifier); }
template<class T> std::string show(const parameter::constant<T> &k) { return show(k.choice); }
template<class T> std::string show(const parameter::categorical<T> &k) { return show(k.categories); }
struct item {
    virtual ~item() = default; virtual void save(ar::text_oarchive &) = 0; virtual void save(ar::binary_oarchive &) = 0; virtual void save(ar::xml_oarchive &) = 0; virtual void load(ar::text_iarchive &) = 0; virtual void load(ar::binary_iarchive &) = 0; virtual void load(ar::xml_iarchive &) = 0; virtual std::string saved() = 0; virtual std::string loaded() = 0; const char *name; bool xml; bool same = false; std::string before;
};
template<class T, bool X> struct kept : item {
    T v, w; kept(const char *n, const T &v, const T &w) : v(v), w(w) { name = n; xml = X; before = show(this->v); same = before == show(this->w); }
    template<class A> void put(A &a) { const T &r = v; a << boost::serialization::make_nvp("value", r); } template<class A> void get(A &a) { a >> boost::serialization::make_nvp("value", w); }
    void save(ar::text_oarchive &a) override { put(a); } void save(ar::binary_oarchive &a) override { put(a); } void save(ar::xml_oarchive &a) override { if constexpr(X) put(a); } void load(ar::text_iarchive &a) override { get(a); } void load(ar::binary_iarchive &a) override { get(a); } void load(ar::xml_iarchive &a) override { if constexpr(X) get(a); }
    std::string saved() override { return show(v); } std::string loaded() override { return show(w); }
};
typedef std::unique_ptr<item> one;
template<bool X, class F> one keep(const char *n, F f) { auto v = f(); auto w = f(); return std::make_unique<kept<decltype(v), X>>(n, v, w); }
static const char *alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; static const std::vector<iso_4217> &cur() { static std::vector<iso_4217> v{currencies::USD, currencies::EUR, currencies::JPY, currencies::BHD, iso_4217({'X', 'Y', 'Z'}, 1)}; return v; }
static double num(pbt::Ctx &c) { switch(c.below(4)) { case 0: return (double)c.sbig(1000); case 1: return c.unit(); case 2: return (c.unit() - .5) * std::ldexp(1., (int)c.below(600)); default: return (double)c.sbig(1000) / 7; } }
static price pr(pbt::Ctx &c) { return price(c.sbig((u64)INT64_MAX), c.pick(cur())); }
static iso_3166_1_alpha_2 land(pbt::Ctx &c) { return iso_3166_1_alpha_2(c.fixed(alpha, 2)); }
template<class T> identity<T> id(pbt::Ctx &c) { std::vector<u64> d; while(c.more(3, d.size(), 12)) d.push_back(c.big()); return identity<T>(d); }
static share_class sc(pbt::Ctx &c) { return share_class((uint8_t)c.below(256), (uint8_t)c.below(256), c.flip() ? (float)c.unit() : (float)c.sbig(1000) / 7, c.flip(), c.flip(), c.flip()); }
static time_interval ti(pbt::Ctx &c) { u64 a = c.big(), b = c.big(); return {a, b}; }
static dividend_policy dp(pbt::Ctx &c) { std::map<share_class, std::tuple<u64, price>> m; while(c.more(2, m.size(), 5)) { auto s = share_class((uint8_t)c.below(9), (uint8_t)c.below(9), (float)c.below(9) / 4, c.flip(), c.flip(), c.flip()); u64 n = c.big(); m.emplace(s, std::make_tuple(n, pr(c))); } u64 a = c.big(), e = c.big(); auto p = ti(c); u64 y = c.big(); return dividend_policy(a, e, p, y, c.pick(cur()), m); }
template<class M> M msg(pbt::Ctx &c, M m) { m.sender = id<agent>(c); m.recipient = id<agent>(c); m.sent = c.big(); m.received = c.big(); return m; }
static i64 den(pbt::Ctx &c) { return (i64)(1 + c.big((u64)INT64_MAX - 1)); }
static one gen(pbt::Ctx &c)
{
    switch(c.below(34)) {
    case 0: return keep<true>("quantity", [&] { return quantity(c.big()); });
    case 1: case 2: return keep<true>("price", [&] { return pr(c); });
    case 3: return keep<false>("signed fraction", [&] { i64 n = c.sbig((u64)INT64_MAX); return boost::rational<i64>(n, den(c)); });
    case 4: return keep<false>("unsigned fraction", [&] { u64 n = c.big(); return boost::rational<u64>(n, (u64)den(c)); });
    case 5: return keep<false>("rate", [&] { i64 n = c.sbig((u64)INT64_MAX); return rate<i64>(n, den(c)); });
    case 6: return keep<false>("exchange rate", [&] { u64 n = 1 + c.big(UINT64_MAX - 1); return exchange_rate(n, (u64)den(c)); });
    case 7: return keep<false>("nominal interest rate", [&] { i64 n = (i64)c.big((u64)INT64_MAX); i64 d = den(c); typedef std::decay_t<decltype(interest_rate().numerator())> t; return nominal_interest_rate(rate<>((t)n, (t)d), c.big()); });
    case 8: return keep<false>("inflation rate", [&] { i64 n = (i64)c.big((u64)INT64_MAX); i64 d = den(c); typedef std::decay_t<decltype(interest_rate().numerator())> t; return inflation_rate(rate<>((t)n, (t)d), c.big()); });
    case 9: return keep<true>("currency code", [&] { auto s = c.fixed(alpha, 3); return iso_4217({s[0], s[1], s[2]}, 1 + c.big((u64)1 << 40)); });
    case 10: return keep<true>("country code", [&] { return land(c); });
    case 11: return keep<true>("jurisdiction", [&] { auto l = land(c); return jurisdiction(l, c.pick(cur())); });
    case 12: case 13: return keep<true>("quote", [&] { auto p = pr(c); return quote(p, (uint32_t)(1 + c.big(UINT32_MAX - 1))); });
    case 14: return keep<true>("identity", [&] { return id<agent>(c); });
    case 15: return keep<true>("interval", [&] { double a = num(c), b = num(c); return mathematics::interval<double, true, false>(a, b); });
    case 16: return keep<true>("integer interval", [&] { i64 a = c.sbig((u64)INT64_MAX), b = c.sbig((u64)INT64_MAX); return mathematics::interval<i64, false, true>(a, b); });
    case 17: return keep<true>("time window", [&] { return ti(c); });
    case 18: return keep<true>("share class", [&] { return sc(c); });
    case 19: case 20: return keep<true>("dividend policy", [&] { return dp(c); });
    case 21: return keep<false>("dividend announcement", [&] { return msg(c, dividend_announcement_message(identity<agent>(), identity<agent>(), dp(c))); });
    case 22: return keep<false>("dividend record", [&] { std::map<share_class, u64> m; while(c.more(2, m.size(), 5)) { auto s = share_class((uint8_t)c.below(9), 1, .5f, c.flip(), false, c.flip()); m[s] = c.big(); } return msg(c, dividend_record(identity<agent>(), identity<agent>(), m)); });
    case 23: return keep<true>("header", [&] { auto h = msg(c, interaction::header()); h.type = c.big(); return h; });
    case 24: return keep<false>("log-out message", [&] { return msg(c, logout_message()); });
    case 25: return keep<false>("order status request", [&] { return msg(c, order_status_request_message()); });
    case 26: return keep<true>("timing", [&] { computation::agent_timing t; t.messaging = std::chrono::milliseconds(c.sbig((u64)1 << 60)); t.acting = std::chrono::milliseconds(c.sbig((u64)1 << 60)); return t; });
    case 27: return keep<true>("legal entity identifier", [&] { auto a = c.fixed("0123456789", 4), b = c.fixed("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", 12); std::array<char, 4> x; std::array<char, 12> y; std::copy(a.begin(), a.end(), x.begin()); std::copy(b.begin(), b.end(), y.begin()); return iso_17442(x, y); });
    case 28: return keep<true>("natural person", [&] { return natural_person(land(c)); });
    case 29: return keep<true>("government", [&] { return government(c.str("abc <>&'\"xyz 09;-", 20)); });
    case 30: return keep<false>("property", [&] { return property(id<property>(c)); });
    case 31: if(c.flip()) return keep<true>("constant parameter", [&] { return parameter::constant<double>(num(c)); }); return keep<true>("constant time parameter", [&] { return parameter::constant<time_point>(c.big()); });
    case 32: if(c.flip()) return keep<true>("categories", [&] { std::vector<i64> v; while(c.more(3, v.size(), 9)) v.push_back(c.sbig((u64)INT64_MAX)); return parameter::categorical<i64>(v); }); return keep<true>("text categories", [&] { std::vector<std::string> v; while(c.more(3, v.size(), 9)) v.push_back(c.str("ab <&\"\n1", 12)); return parameter::categorical<std::string>(v); });
    default: if(c.flip()) return keep<true>("tuple", [&] { auto s = c.str("ab <&1", 12); auto p = pr(c); double d = num(c); return std::make_tuple(s, p, d, c.big()); }); return keep<true>("prices", [&] { std::vector<price> v; while(c.more(3, v.size(), 9)) v.push_back(pr(c)); return v; });
    }
}
template<class O, class I> static void pass(pbt::Ctx &c, std::vector<one> &v, const char *kind)
{
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); bool x = std::is_same<O, ar::xml_oarchive>::value; { O o(s); for(auto &i : v) if(!x || i->xml) i->save(o); } for(auto &i : v) c.eq(i->saved(), i->before, PBT_STR("a " << i->name << " after it was saved")); { I in(s); for(auto &i : v) if(!x || i->xml) { i->load(in); c.eq(i->loaded(), i->before, PBT_STR(i->name << " loaded from a " << kind << " archive")); } } for(auto &i : v) c.eq(i->saved(), i->before, PBT_STR("a saved " << i->name << " after loading another"));
}
PBT(archives, 300000, 6000000, "at least two values, each loaded over a different one")
{
    std::vector<one> v; bool all = true; do { v.push_back(gen(c)); all &= !v.back()->same; NOTE(v.back()->name << " " << v.back()->before); } while(c.more(3, v.size(), 12)); switch(c.below(3)) { case 0: pass<ar::text_oarchive, ar::text_iarchive>(c, v, "text"); break; case 1: pass<ar::binary_oarchive, ar::binary_iarchive>(c, v, "binary"); break; default: pass<ar::xml_oarchive, ar::xml_iarchive>(c, v, "XML"); } c.nontrivial(v.size() >= 2 && all);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
