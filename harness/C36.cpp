// Recorded order books (NYSE OpenBook Ultra) read from files.
// SOURCES:
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <esl/data/format/openbook.hpp>
using namespace esl; using namespace esl::data; using esl::economics::markets::order_book::limit_order; using esl::economics::price;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16;
struct capture { std::ostringstream o; std::ostream &s; std::streambuf *b; explicit capture(std::ostream &s) : s(s), b(s.rdbuf(o.rdbuf())) {} ~capture() { s.rdbuf(b); } };
struct scratch { std::string path; scratch() { char t[] = "/tmp/pbtC36XXXXXX"; if(!mkdtemp(t)) throw std::runtime_error("no scratch directory"); path = t; } ~scratch() { if(path.rfind("/tmp/pbtC36", 0) == 0) std::filesystem::remove_all(path); } };
// one message as a user knows it, and its 71 bytes
struct message { u16 type; std::string symbol; u32 ms; u16 us; char status; unsigned digits; u32 numerator, quantity; char side, reason; bool update() const { return type == 230 || type == 231; } };
template<class T> static void put(std::string &s, size_t at, T v) { for(size_t i = 0; i < sizeof(T); ++i) s[at + i] = (char)(unsigned char)(v >> (8 * (sizeof(T) - 1 - i))); }
static std::string bytes(pbt::Ctx &c, const message &m)
{
    std::string s(71, 0); unsigned char fill = (unsigned char)c.below(256), step = (unsigned char)c.below(256); for(auto &b : s) { b = (char)fill; fill = (unsigned char)(fill + step); }
    put(s, 4, m.type); std::string y = m.symbol; y.resize(11, ' '); s.replace(10, 11, y); put(s, 27, m.ms); put(s, 31, m.us); s[34] = m.status; s[40] = (char)m.digits; put(s, 41, m.numerator); put(s, 49, m.quantity); s[55] = m.side; s[57] = m.reason; return s;
}
static u32 word(pbt::Ctx &c) { return c.flip() ? (u32)c.below(100000) : (u32)c.big(0xffffffffu); }
static message any(pbt::Ctx &c, const std::vector<std::string> &symbols)
{
    static const std::vector<u16> others{1, 2, 5, 10, 19, 20, 22, 24, 27, 34, 35, 0, 229, 232, 0xe600, 0xe700, 486, 65535};
    message m; m.type = c.below(6) ? (u16)c.range(230, 231) : c.pick(others); m.symbol = c.pick(symbols); m.ms = c.below(3) ? (u32)c.below(86400000) : word(c); m.us = (u16)(c.below(4) ? c.below(1000) : c.below(65536)); m.status = c.pick(std::vector<char>{'O', 'O', 'O', 'P', 'E', 'B', 'L', 'X', 'C', 'H'}); m.digits = c.below(3) ? (unsigned)c.range(2, 4) : (unsigned)c.below(12);
    m.numerator = word(c); m.quantity = word(c); m.side = c.pick(std::vector<char>{'B', 'S'}); m.reason = c.pick(std::vector<char>{'O', 'C', 'O', 'C', 'E', 'X', ' '}); return m;
}
static u64 power(unsigned n) { u64 r = 1; while(n--) r *= 10; return r; }
static std::string show(const message &m) { return PBT_STR("type " << m.type << " '" << m.symbol << "' at " << m.ms << " ms " << m.us << " us, status " << m.status << ", " << m.numerator << " with " << m.digits << " decimals, quantity " << m.quantity << ", side " << m.side << ", reason " << m.reason); }
// what a reader must say about a message; prices as a fraction of a dollar: value / (100 * lot)
static std::string telling(const std::string &symbol, char status, char reason, u64 time, __int128 value, u64 lot, u64 quantity, bool buy, const std::string &currency) { __int128 n = value * 1000000000, d = lot; return PBT_STR("'" << symbol << "' " << status << reason << " at " << time << ": " << quantity << (buy ? " bid" : " offered") << " at " << (i64)(n / d) << " (rest " << (i64)(n % d) << ") * 1e-11 " << currency); }
static std::string wanted(const message &m) { return telling(m.symbol, m.status, m.reason, u64(m.ms) * 1000 + m.us, __int128(m.numerator) * 100, power(m.digits), m.quantity, m.side == 'B', "USD"); }
static std::string got(pbt::Ctx &c, const std::string &symbol, char status, char reason, u64 t, const economics::markets::quote &q, u32 quantity, limit_order::side_t side)
{
    auto &p = std::get<price>(q.type); c.check(q.lot > 0, "a quote for no items"); return telling(symbol, status, reason, t, p.value, q.lot, quantity, side == limit_order::buy, std::string(p.valuation.code.begin(), p.valuation.code.end()));
}
struct recording { std::vector<message> all; std::string content; };
static recording record(pbt::Ctx &c, int average, int most)
{
    recording r; std::vector<std::string> symbols{"A", "IBM", "BRK A", "ABCDEFGHIJK", "A B", "IBMX"}; if(c.flip()) symbols.push_back(c.str("ABC. ", 11)); for(auto &s : symbols) while(!s.empty() && s.back() == ' ') s.pop_back();
    if(c.flip()) symbols.resize(2); while(c.more(average, (int)r.all.size(), most)) { auto m = any(c, symbols); NOTE(show(m)); r.all.push_back(m); r.content += bytes(c, m); } return r;
}
static std::string saved(pbt::Ctx &c, const scratch &d, const recording &r, size_t rest) { auto p = d.path + "/book"; std::ofstream f(p, std::ios::binary); f << r.content; for(size_t i = 0; i < rest; ++i) f << (char)c.below(256); return p; }
static std::vector<std::string> read(pbt::Ctx &c, const std::string &path) { std::vector<std::string> seen; read_openbook(path, [&](const std::string &y, char s, char r, simulation::time_point t, const economics::markets::quote &q, const u32 &n, limit_order::side_t side) { seen.push_back(got(c, y, s, r, t, q, n, side)); }); return seen; }
static void same(pbt::Ctx &c, const std::vector<std::string> &got, const std::vector<std::string> &want, const char *what) { for(size_t i = 0; i < got.size() && i < want.size(); ++i) c.eq(got[i], want[i], PBT_STR(what << " " << i)); c.eq(got.size(), want.size(), PBT_STR("number of " << what << "s")); }
static void everything(pbt::Ctx &c, int average, int most)
{
    scratch d; auto r = record(c, average, most); size_t rest = c.below(3) ? 0 : (size_t)c.range(1, 70); auto path = saved(c, d, r, rest); if(rest) NOTE("and " << rest << " bytes of another message"); std::vector<std::string> want; std::set<std::string> symbols; std::set<unsigned> digits; for(auto &m : r.all) if(m.update()) { want.push_back(wanted(m)); symbols.insert(m.symbol); digits.insert(m.digits); }
    capture err(std::cerr); same(c, read(c, path), want, "message"); c.check(err.o.str().empty() == (rest == 0), rest ? "a partial file was read without a warning" : "a complete file was read with a warning: " + err.o.str()); c.nontrivial(want.size() >= 3 && want.size() < r.all.size() && symbols.size() >= 2 && digits.size() >= 2);
}
PBT(messages, 60000, 1200000, "at least three updates of two instruments with different numbers of decimals, among other messages") { everything(c, 8, 40); }
PBT(long_files, 1500, 30000, "at least three updates of two instruments with different numbers of decimals, among other messages") { everything(c, (int)c.range(50, 900), 3000); }
PBT(sessions, 60000, 1200000, "the instrument has orders in the main session, and something of it or of another was left out")
{
    scratch d; auto r = record(c, c.chance(1, 100) ? 1200 : 12, c.chance(1, 100) ? 4000 : 60); auto path = saved(c, d, r, c.below(4) ? 0 : (size_t)c.range(1, 70)); std::string y = !r.all.empty() && c.below(6) ? c.pick(r.all).symbol : c.pick(std::vector<std::string>{"", "IBM", "I", "IBMXY", "A ", "B"}); NOTE("reads the main session of '" << y << "'");
    std::vector<std::string> want, seen; size_t updates = 0; for(auto &m : r.all) if(m.update()) { ++updates; if(m.status == 'O' && (m.reason == 'O' || m.reason == 'C') && m.symbol == y) want.push_back(wanted(m)); }
    capture err(std::cerr); for(auto &[symbol, s, why, t, q, n, side] : parse_main_session(path, y)) seen.push_back(got(c, symbol, s, why, t, q, n, side)); same(c, seen, want, "order"); c.nontrivial(!want.empty() && updates > want.size());
}
PBT(busy_sessions, 800, 16000, "more than a thousand orders of the instrument in the main session")
{
    scratch d; recording r; size_t n = (size_t)c.range(500, 9000), other = 2 + c.below(9); NOTE(n << " messages, every " << other << "th of them another instrument's"); std::vector<std::string> want, seen; message m = any(c, {"IBM"}); m.type = 230; m.status = 'O'; m.reason = c.flip() ? 'O' : 'C'; u64 step = c.below(1000003), x = c.below(1000);
    for(size_t i = 0; i < n; ++i) { m.symbol = i % other ? "IBM" : "IBMX"; m.ms = (u32)i; x = x * 31 + step; m.quantity = (u32)x; m.side = x >> 33 & 1 ? 'B' : 'S'; m.type = 230 + (x >> 34 & 1); std::string b = i ? r.content.substr(0, 71) : bytes(c, m); put(b, 4, m.type); b.replace(10, 11, m.symbol + std::string(11 - m.symbol.size(), ' ')); put(b, 27, m.ms); put(b, 49, m.quantity); b[55] = m.side; r.content += b; if(i % other) want.push_back(wanted(m)); }
    auto path = saved(c, d, r, 0); for(auto &[symbol, s, why, t, q, k, side] : parse_main_session(path, "IBM")) seen.push_back(got(c, symbol, s, why, t, q, k, side)); same(c, seen, want, "order"); c.nontrivial(want.size() > 1000);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
