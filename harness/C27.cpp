// Outputs, their streams and producers.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/file.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <esl/agent.hpp>
#include <esl/data/file.hpp>
#include <esl/data/output.hpp>
#include <esl/data/producer.hpp>
#include <esl/data/terminal.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/price.hpp>
#include <unistd.h>
using namespace esl; using namespace esl::data; using esl::economics::price;
typedef uint64_t u64; typedef int64_t i64; typedef std::vector<i64> list;
struct memory : stream { std::ostringstream text; memory() : stream(text) {} };
struct capture { std::ostringstream o; std::ostream &s; std::streambuf *b; explicit capture(std::ostream &s) : s(s), b(s.rdbuf(o.rdbuf())) {} ~capture() { s.rdbuf(b); } };
static std::string show(i64 v) { return std::to_string(v); } static std::string show(const std::string &s) { return s; } static std::string show(const list &l) { std::string r = "["; for(size_t i = 0; i < l.size(); ++i) r += (i ? ", " : "") + std::to_string(l[i]); return r + "]"; } static std::string show(const price &p) { return PBT_STR(p); }
static void make(pbt::Ctx &c, i64 &v) { v = c.sbig(INT64_MAX); } static void make(pbt::Ctx &c, std::string &v) { v = c.str("ab, (", c.chance(1, 12) ? 300 : 5); } static void make(pbt::Ctx &c, list &v) { v.resize(c.few(4)); for(auto &x : v) x = c.range(-9, 99); } static void make(pbt::Ctx &c, price &p) { p = price(c.sbig(1000000), c.flip() ? economics::currencies::USD : economics::currencies::JPY); }
static price blank() { return price(0, economics::currencies::USD); }
template<class T> static T zero() { if constexpr(std::is_same<T, price>::value) return blank(); else return T(); }
// one output with everything ever put to it, and what its streams must have received
struct attached { std::shared_ptr<memory> s; std::string want; size_t since; };
template<class... T> struct bench {
    std::shared_ptr<output<T...>> out; std::vector<std::tuple<simulation::time_point, T...>> want; std::vector<attached> streams; size_t puts = 0;
    void attach(const std::shared_ptr<memory> &s) { streams.push_back({s, "", puts}); }
    void put(pbt::Ctx &c, const char *who) { u64 t = c.below(3) ? c.below(20) : c.big(~0ull); std::tuple<T...> v(zero<T>()...); std::apply([&](auto &... x) { (make(c, x), ...); }, v); std::apply([&](auto &... x) { NOTE(who << " at " << t << [&] { std::string r; ((r += " " + show(x)), ...); return r; }()); out->put(t, x...); want.emplace_back(t, x...); ++puts; if(!out->buffered) for(auto &a : streams) ((a.want += "(" + std::to_string(t) + ", " + show(x) + ")\n"), ...); }, v); }
    void verify(pbt::Ctx &c, const char *who) const { c.check(out->values == want, std::string("the observations kept by ") + who + " are not those put to it"); for(size_t i = 0; i < streams.size(); ++i) { std::string all; std::vector<const attached *> same; for(auto &o : streams) if(o.s == streams[i].s) same.push_back(&o); if(same.size() == 1) c.eq(streams[i].s->text.str(), streams[i].want, PBT_STR("text in stream " << i << " of " << who)); } }
};
template<class... T> static void history(pbt::Ctx &c) { bool buffered = c.below(3) == 0; bench<T...> b; b.out = std::make_shared<output<T...>>("o", buffered); NOTE((buffered ? "buffered" : "unbuffered")); c.check(b.out->name == "o" && b.out->buffered == buffered && b.out->values.empty() && b.out->streams.empty(), "a new output is not empty"); bool late = false; while(c.more(6, 0, 25)) { if(c.below(3) == 0 && b.streams.size() < 4) { auto s = std::make_shared<memory>(); b.out->streams.push_back(s); b.attach(s); late |= b.puts > 0; NOTE("attaches a stream"); } else b.put(c, "puts"); b.verify(c, "the output"); } bool some = false; for(auto &a : b.streams) some |= b.puts > a.since; c.nontrivial(b.puts >= 3 && some && (late || b.streams.size() >= 2)); c.label(buffered ? "buffered" : "unbuffered"); }
PBT(observations, 60000, 1500000, "at least three observations, with a stream attached later or two streams")
{
    switch(c.below(6)) { case 0: history<i64>(c); break; case 1: history<std::string>(c); break; case 2: history<list>(c); break; case 3: history<i64, i64>(c); break; case 4: history<std::string, i64, list>(c); break; default: history<price>(c); }
}
PBT(producers, 50000, 1200000, "three outputs, a stream refused and observations on two outputs")
{
    std::unique_ptr<producer> owned; if(c.flip()) owned = std::make_unique<producer>(); else owned = std::make_unique<esl::agent>(identity<agent>(std::vector<u64>{1})); producer &p = *owned; std::map<std::string, std::variant<bench<i64>, bench<std::string>, bench<i64, list>>> w; const std::vector<std::string> names{"a", "b", "prices", "volumes", "", "a "}; bool refused = false; std::set<std::string> used; size_t initial = p.outputs.size();
    while(c.more(10, 0, 30)) { auto n = c.pick(names); auto i = w.find(n); switch(c.below(4)) {
        case 0: if(i != w.end()) break; { NOTE("creates '" << n << "'"); auto make = [&](auto tag) { typedef decltype(tag) B; B b; if constexpr(std::is_same<B, bench<i64>>::value) b.out = p.create_output<i64>(n); else if constexpr(std::is_same<B, bench<std::string>>::value) b.out = p.create_output<std::string>(n); else b.out = p.create_output<i64, list>(n); c.check(b.out->name == n && b.out->values.empty() && b.out->streams.empty() && !b.out->buffered, "a created output is not new"); w.emplace(n, b); }; switch(c.below(3)) { case 0: make(bench<i64>()); break; case 1: make(bench<std::string>()); break; default: make(bench<i64, list>()); } } break;
        case 1: { auto s = std::make_shared<memory>(); NOTE("attaches a stream to '" << n << "'"); bool threw = pbt::throws_a<std::invalid_argument>([&] { p.add_output_stream(n, s); }); c.check(threw == (i == w.end()), threw ? "a stream was refused" : "a stream was attached to an output that does not exist"); if(i != w.end()) std::visit([&](auto &b) { b.attach(s); }, i->second); else refused = true; break; }
        default: if(i != w.end()) { used.insert(n); std::visit([&](auto &b) { b.put(c, n.c_str()); }, i->second); } }
        c.eq(p.outputs.size(), w.size() + initial, "number of outputs"); for(auto &[n, v] : w) { auto j = p.outputs.find(n); if(j == p.outputs.end()) c.fail("an output is not found by its name: " + n); std::visit([&, &n = n](auto &b) { c.check(j->second == b.out, "another output is found by the name " + n); b.verify(c, n.c_str()); }, v); } }
    c.nontrivial(w.size() >= 3 && refused && used.size() >= 2);
}
PBT(shared_streams, 50000, 1000000, "two outputs share a stream and both are written alternately")
{
    auto s = std::make_shared<memory>(); output<i64> a("a"), b("b", c.below(3) == 0); std::vector<std::shared_ptr<output_base>> none; a.streams.push_back(s); b.streams.push_back(s); if(c.below(4) == 0) a.streams.push_back(s); std::string want; int turns = 0, last = -1; while(c.more(5, 0, 20)) { int k = (int)c.below(2); i64 v = c.range(-99, 99); u64 t = c.below(9); NOTE((k ? "b" : "a") << " " << v); (k ? b : a).put(t, v); if(!k || !b.buffered) for(size_t i = 0; i < (k ? b : a).streams.size(); ++i) want += "(" + std::to_string(t) + ", " + std::to_string(v) + ")\n"; turns += last >= 0 && k != last; last = k; c.eq(s->text.str(), want, "text in the shared stream"); } c.nontrivial(turns >= 2 && !b.buffered);
}
PBT(construction, 20000, 400000, "an output made with streams")
{
    auto n = c.str("abc ", 6); auto s = std::make_shared<memory>(), t = std::make_shared<memory>(); output_base a(n, std::shared_ptr<stream>(s)), d(n, c.flip()); decltype(a.streams) v; size_t k = c.below(4); for(size_t i = 0; i < k; ++i) v.push_back(i ? t : s); void *junk = ::operator new(sizeof(output_base)); memset(junk, 0x5a, sizeof(output_base)); auto e = new(junk) output_base(n, v); c.check(a.name == n && a.streams.size() == 1 && a.streams[0] == s && d.name == n && d.streams.empty() && e->name == n && e->streams == v, "an output does not keep what it is made of"); unsigned char flag; memcpy(&flag, &e->buffered, 1); c.check(flag <= 1, "whether the output is buffered is undetermined"); i64 x = c.range(-9, 9); a.write(std::make_tuple(x)); e->write(std::make_tuple(x)); std::string line = "(" + std::to_string(x) + ")\n", ws = line + (k ? line : ""), wt; for(size_t i = 1; i < k; ++i) wt += line; c.eq(s->text.str(), ws, "text written"); c.eq(t->text.str(), wt, "text written"); e->~output_base(); ::operator delete(junk); c.nontrivial(k > 0);
}
struct scratch { std::string path; scratch() { char t[] = "/tmp/pbtC27XXXXXX"; if(!mkdtemp(t)) throw std::runtime_error("no scratch directory"); path = t; } ~scratch() { if(path.rfind("/tmp/pbtC27", 0) == 0) std::filesystem::remove_all(path); } };
static std::string slurp(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
PBT(media, 2500, 50000, "at least two observations, the file in a new directory")
{
    capture err(std::clog); scratch d; bool nested = c.flip(), separate = nested || c.flip(); std::string dir = nested ? d.path + "/x/y" : d.path, name = "out.txt", want; std::string wo, we; auto mem = std::make_shared<memory>(); size_t n = c.few(5);
    { capture so(std::cout), se(std::cerr); { auto f = separate ? std::make_shared<file>(name, dir) : std::make_shared<file>(dir + "/" + name); output<i64, std::string> o("o"); o.streams.push_back(f); o.streams.push_back(mem); o.streams.push_back(std::make_shared<terminal>(terminal::type::out)); o.streams.push_back(std::make_shared<terminal>(terminal::type::error)); for(size_t i = 0; i < n; ++i) { i64 v = c.range(-9, 99); std::string s = c.str("ab ", 4); u64 t = c.below(9); o.put(t, v, s); want += "(" + std::to_string(t) + ", " + std::to_string(v) + ")\n(" + std::to_string(t) + ", " + s + ")\n"; NOTE(v << " " << s << " at " << t); } } wo = so.o.str(); we = se.o.str(); }
    c.eq(mem->text.str(), want, "text in memory"); c.eq(slurp(dir + "/" + name), want, "text in the file"); c.eq(wo, want, "text on the terminal"); c.eq(we, want, "text on the error terminal"); c.nontrivial(n >= 2 && nested);
    if(c.flip()) { std::ofstream(d.path + "/plain") << "x"; capture so(std::cout); c.check(pbt::throws([&] { file g("z", d.path + "/plain"); }), "a file in a directory that is a file was accepted"); c.eq(slurp(d.path + "/plain"), std::string("x"), "other file"); }
    if(c.flip()) { std::filesystem::create_directory(d.path + "/taken"); capture so(std::cout); c.check(pbt::throws([&] { file g("taken", d.path); }), "a file that can not be created was accepted"); }
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
