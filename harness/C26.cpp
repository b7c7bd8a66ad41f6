// Rendering of containers and delimiter separated values.
// SOURCES: esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/law/property.cpp
#include <iomanip>
#include <pbt.hpp>
#include <esl/data/format/delimiter_separated_values.hpp>
#include <esl/data/representation.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/cash.hpp>
#include <esl/law/property_collection.hpp>
#include <esl/quantity.hpp>
using namespace esl; namespace dsv = esl::data::format::delimiter_separated_values;
typedef int64_t i64; typedef uint64_t u64;
// independent rendering: a tree of text
static std::string join(const std::vector<std::string> &v, const char *open, const char *between, const char *close) { std::string r = open; for(size_t i = 0; i < v.size(); ++i) r += (i ? between : "") + v[i]; return r + close; }
static size_t many(pbt::Ctx &c, size_t usual) { return c.below(40) ? c.below(usual) : c.below(40); }
struct G {
static std::string show(i64 v) { return std::to_string(v); }
static std::string show(const std::string &v) { return v; }
template<class T> static std::string show(const std::vector<T> &v) { std::vector<std::string> r; for(auto &x : v) r.push_back(show(x)); return join(r, "[", ", ", "]"); }
template<class T> static std::string show(const std::set<T> &v) { std::vector<std::string> r; for(auto &x : v) r.push_back(show(x)); return join(r, "{", ", ", "}"); }
template<class T> static std::string show(const std::list<T> &v) { std::vector<std::string> r; for(auto &x : v) r.push_back(show(x)); return join(r, "[", " <-> ", "]"); }
template<class T> static std::string show(const std::forward_list<T> &v) { std::vector<std::string> r; for(auto &x : v) r.push_back(show(x)); return join(r, "[", " -> ", "]"); }
template<class T> static std::string show(std::queue<T> q) { std::vector<std::string> r; while(!q.empty()) { r.push_back(show(q.front())); q.pop(); } return join(r, "[", ", ", "]"); }
template<class T, size_t n> static std::string show(const std::array<T, n> &v) { std::vector<std::string> r; for(auto &x : v) r.push_back(show(x)); return join(r, "[", ", ", "]"); }
template<class... T> static std::string show(const std::tuple<T...> &t) { std::vector<std::string> r; std::apply([&](auto &... x) { (r.push_back(show(x)), ...); }, t); return join(r, "(", ", ", ")"); }
template<class K, class V> static std::string show(const std::map<K, V> &m) { std::vector<std::string> r; for(auto &[k, v] : m) r.push_back(show(k) + ": " + show(v)); return join(r, "{", ", ", "}"); }
template<class K, class V> static std::string show(const boost::container::flat_map<K, V> &m) { std::vector<std::string> r; for(auto &[k, v] : m) r.push_back(show(k) + ": " + show(v)); return join(r, "{", ", ", "}"); }
template<class K, class V> static std::string show(const std::unordered_map<K, V> &m) { std::vector<std::string> r; for(auto &[k, v] : m) r.push_back(show(k) + ": " + show(v)); return join(r, "{", ", ", "}"); }
template<class T> static std::string show(const std::unordered_set<T> &v) { std::vector<std::string> r; for(auto &x : v) r.push_back(show(x)); return join(r, "{", ", ", "}"); }
static void make(pbt::Ctx &c, i64 &v) { v = c.sbig(INT64_MAX); }
static void make(pbt::Ctx &c, std::string &v) { v = c.str("ab,{}[] x", 5); }
template<class T> static void make(pbt::Ctx &c, std::set<T> &v) { for(size_t n = many(c, 6); n--;) { T x{}; make(c, x); v.insert(x); } }
template<class T> static void make(pbt::Ctx &c, std::unordered_set<T> &v) { for(size_t n = many(c, 6); n--;) { T x{}; make(c, x); v.insert(x); } }
template<class T> static void make(pbt::Ctx &c, std::list<T> &v) { for(size_t n = many(c, 6); n--;) { T x{}; make(c, x); v.push_back(x); } }
template<class T> static void make(pbt::Ctx &c, std::forward_list<T> &v) { for(size_t n = many(c, 6); n--;) { T x{}; make(c, x); v.push_front(x); } }
template<class T> static void make(pbt::Ctx &c, std::queue<T> &v) { for(size_t n = many(c, 8); n--;) { T x{}; make(c, x); v.push(x); } }
template<class T, size_t n> static void make(pbt::Ctx &c, std::array<T, n> &v) { for(auto &x : v) make(c, x); }
template<class K, class V> static void make(pbt::Ctx &c, std::map<K, V> &m) { for(size_t n = many(c, 6); n--;) { K k{}; make(c, k); V v{}; make(c, v); m[k] = v; } }
template<class K, class V> static void make(pbt::Ctx &c, std::unordered_map<K, V> &m) { for(size_t n = many(c, 6); n--;) { K k{}; make(c, k); V v{}; make(c, v); m[k] = v; } }
template<class K, class V> static void make(pbt::Ctx &c, boost::container::flat_map<K, V> &m) { for(size_t n = many(c, 6); n--;) { K k{}; make(c, k); V v{}; make(c, v); m[k] = v; } }
template<class T> static void make(pbt::Ctx &c, std::vector<T> &v) { for(size_t n = many(c, 6); n--;) { T x{}; make(c, x); v.push_back(x); } }
template<class... T> static void make(pbt::Ctx &c, std::tuple<T...> &t) { std::apply([&](auto &... x) { (make(c, x), ...); }, t); }
};
namespace std { template<class T> static string rendered(const T &t) { ostringstream o; o << t; return o.str(); } }
template<class T> static size_t extent(const T &t) { return t.size(); }
template<class T> static size_t extent(const std::forward_list<T> &t) { return (size_t)std::distance(t.begin(), t.end()); }
template<class... T> static size_t extent(const std::tuple<T...> &) { return sizeof...(T); }
template<class T> static void one(pbt::Ctx &c, const char *what) { T t{}; G::make(c, t); NOTE(what << " " << G::show(t)); T copy = t; c.eq(std::rendered(t), G::show(t), std::string("rendering of ") + what); c.check(copy == t, "rendering changed the container"); c.nontrivial(extent(t) >= 3); }
PBT(containers, 1500000, 30000000, "at least three elements")
{
    typedef std::string s; switch(c.below(20)) {
        case 0: one<std::vector<i64>>(c, "vector"); break; case 1: one<std::vector<s>>(c, "vector of text"); break; case 2: one<std::set<i64>>(c, "set"); break; case 3: one<std::unordered_set<i64>>(c, "unordered set"); break; case 4: one<std::list<i64>>(c, "list"); break; case 5: one<std::forward_list<s>>(c, "forward list"); break; case 6: one<std::queue<i64>>(c, "queue"); break; case 7: one<std::array<i64, 5>>(c, "array"); break; case 8: one<std::array<s, 1>>(c, "array of one"); break; case 9: one<std::map<i64, s>>(c, "map"); break; case 10: one<std::unordered_map<i64, i64>>(c, "unordered map"); break; case 11: one<boost::container::flat_map<i64, s>>(c, "flat map"); break; case 12: one<std::tuple<i64, s, i64, i64>>(c, "tuple"); break; case 13: one<std::tuple<s>>(c, "tuple of one"); break;
        case 14: one<std::vector<std::vector<i64>>>(c, "vector of vectors"); break; case 15: one<std::map<s, std::vector<std::tuple<i64, s>>>>(c, "map of vectors of tuples"); break; case 16: one<std::tuple<std::vector<i64>, std::map<i64, i64>, s>>(c, "tuple of containers"); break; case 17: one<std::list<std::set<i64>>>(c, "list of sets"); break; case 18: one<std::queue<std::tuple<i64, i64>>>(c, "queue of tuples"); break; default: one<std::array<std::unordered_map<i64, std::list<i64>>, 3>>(c, "array of maps"); }
}
struct thing : law::property { std::string called; thing(u64 k, const std::string &n) : law::property(identity<law::property>(std::vector<u64>{8, k})), called(n) {} std::string name() const override { return called; } };
PBT(collections_of_property, 100000, 2500000, "at least three entries, money among them")
{
    law::property_map<quantity> m; std::vector<std::string> w; size_t n = many(c, 7); bool money = false; for(size_t i = 0; i < n; ++i) { std::shared_ptr<law::property> p; if(c.below(3) == 0) { p = std::make_shared<economics::cash>(c.pick(std::vector<economics::iso_4217>{economics::currencies::USD, economics::currencies::EUR, economics::currencies::JPY})); money = true; } else p = std::make_shared<thing>(i, "thing" + std::to_string(i)); u64 q = c.below(1000); if(!m.emplace(p, quantity(q)).second) continue; NOTE(q << " of " << p->name()); } for(auto &[p, q] : m) w.push_back(p->name() + ": " + std::to_string(q.amount)); std::ostringstream o; esl::law::operator<<(o, m); c.eq(o.str(), join(w, "{", ", ", "}"), "rendering of a collection of property"); c.nontrivial(m.size() >= 3 && money);
}
// reads delimiter separated values: the escape makes the next symbol literal, quotes protect delimiters and line breaks
static std::vector<std::vector<std::string>> parse(const std::string &t, char d, char q, char e) { std::vector<std::vector<std::string>> r(1, std::vector<std::string>(1)); bool in = false; for(size_t i = 0; i < t.size(); ++i) { char x = t[i]; if(x == e && i + 1 < t.size()) { r.back().back() += t[++i]; } else if(x == q) in = !in; else if(!in && x == d) r.back().push_back(""); else if(!in && x == '\n') r.push_back({""}); else r.back().back() += x; } return r; }
static std::string visible(const std::string &s) { std::string r = "'"; for(char x : s) if(x == '\n') r += "\\n"; else if(x == '\r') r += "\\r"; else r += x; return r + "'"; }
static const char marks[] = ",\"\\;|'\t^~:/";
PBT(fields, 3000000, 60000000, "the text contains at least two of delimiter, quote, escape and line break")
{
    char d = ',', q = '"', e = '\\'; if(c.flip()) { do { d = marks[c.below(11)]; q = marks[c.below(11)]; e = marks[c.below(11)]; if(d != q && q != e && d != e) break; d = ','; q = '"'; e = '\\'; } while(false); } std::string alphabet = std::string(1, d) + q + e + "\n\rab ,\"\\;", t = c.str(alphabet, c.below(20) ? 10 : 80); NOTE("delimiter " << d << " quote " << q << " escape " << e << " text " << visible(t)); std::string r = d == ',' && q == '"' && e == '\\' && c.flip() ? dsv::render(t) : dsv::render(t, d, q, e); NOTE("rendered " << visible(r)); auto p = parse(r, d, q, e); c.check(p.size() == 1 && p[0].size() == 1, "the rendered text parses as several fields: " + visible(r)); c.eq(visible(p[0][0]), visible(t), "text read back"); int k = 0; for(char x : {d, q, e, '\n'}) k += t.find(x) != std::string::npos; c.nontrivial(k >= 2); if(!k && t.find('\r') == std::string::npos) c.eq(r, t, "plain text");
    std::string plain = c.str("abc", 2) + std::string(1, d); auto list = plain + r + d + "z"; (void)list; p = parse(dsv::render("x", d, q, e) + d + r + d + dsv::render("y", d, q, e) + "\n" + r, d, q, e); c.check(p.size() == 2 && p[0].size() == 3 && p[0][0] == "x" && p[0][1] == t && p[0][2] == "y" && p[1].size() == 1 && p[1][0] == t, "the field changes the row it stands in");
}
template<class... T> static void rows(pbt::Ctx &c) { std::vector<std::tuple<T...>> v(many(c, 4)); std::string alphabet = ",\"\\\n\rab 1"; std::vector<std::vector<std::string>> w; bool odd = false; for(auto &t : v) { w.emplace_back(); std::apply([&](auto &... x) { auto f = [&](auto &y) { if constexpr(std::is_same<std::decay_t<decltype(y)>, std::string>::value) { y = c.str(alphabet, 6); odd |= y.find_first_of(",\"\\\n") != std::string::npos; w.back().push_back(y); } else { y = (std::decay_t<decltype(y)>)c.sbig(1000000); w.back().push_back(std::to_string(y)); } }; (f(x), ...); }, t); std::string line; for(auto &f : w.back()) line += visible(f) + " "; NOTE("row " << line); } auto copy = v; std::ostringstream o; dsv::render_records(o, v); auto p = parse(o.str(), ',', '"', '\\'); c.check(copy == v, "rendering changed the records"); c.check(!p.empty() && p.back() == std::vector<std::string>{""}, "the last row is not ended"); p.pop_back(); c.check(p == w, "rows read back differ: " + visible(o.str())); c.nontrivial(v.size() >= 2 && odd); if(v.size()) { std::ostringstream q; dsv::render_row(q, v[0]); auto r = parse(q.str(), ',', '"', '\\'); c.check(r.size() == 2 && r[0] == w[0], "row read back differs: " + visible(q.str())); } }
PBT(records, 1000000, 20000000, "two rows, with text that needs escaping")
{
    typedef std::string s; switch(c.below(7)) { case 0: rows<s>(c); break; case 1: rows<s, s>(c); break; case 2: rows<i64, s, int>(c); break; case 3: rows<s, i64>(c); break; case 4: rows<i64, i64, s>(c); break; case 5: rows<s, s, s, s>(c); break; default: rows<int, i64>(c); }
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
