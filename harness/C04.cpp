// Currency, country and market codes: validation, equality, order, hash, rendering, predefined constants.
// SOURCES: esl/exception.cpp
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <unordered_set>
#include <codes.inc>
#include <esl/economics/currencies.hpp>
#include <esl/geography/countries.hpp>
#include <esl/economics/markets/iso_10383.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::geography; using esl::economics::markets::iso_10383;

static const std::string UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", AN = UP + "0123456789";
static bool in(char ch, const std::string &s) { return s.find(ch) != std::string::npos; }
static bool good(const std::string &s, size_t n, const std::string &alphabet)
{
    if(s.size() != n) return false;
    for(char ch : s) if(!in(ch, alphabet)) return false;
    return true;
}
// text that is valid, valid with one corrupted symbol, of a wrong length, or arbitrary
static std::string text(pbt::Ctx &c, size_t n, const std::string &alphabet)
{
    std::string s = c.fixed(alphabet, n);
    switch(c.below(6)) {
    case 0: case 1: break;
    case 2: { static const std::string edge("@[`az{/:09 \0\x7f\x80\xff\xc1", 16); s[c.below(n)] = c.pick(std::vector<char>(edge.begin(), edge.end())); break; }
    case 3: s[c.below(n)] = static_cast<char>(c.below(256)); break;
    case 4: { size_t k = c.below(9); while(s.size() < k) s += alphabet[c.below(alphabet.size())]; s.resize(k); break; }
    default: { size_t k = c.below(9); s.clear(); while(s.size() < k) s += static_cast<char>(c.below(256)); }
    }
    return s;
}
static std::string hex(const std::string &s) { std::string r; char b[8]; for(unsigned char ch : s) { if(ch > 32 && ch < 127) r += (char)ch; else { snprintf(b, 8, "\\x%02x", ch); r += b; } } return "\"" + r + "\""; }

PBT(market_codes, 300000, 8000000, "malformed text")
{
    std::string s = text(c, 4, AN); bool ok = good(s, 4, AN);
    NOTE(hex(s)); c.nontrivial(!ok); c.label(ok ? "valid" : s.size() == 4 ? "invalid symbol" : "invalid length");
    std::vector<char> exact(s.begin(), s.end()); std::string tight(exact.data(), exact.size()); tight.shrink_to_fit();
    bool refused = pbt::throws([&] { iso_10383 m(tight); (void)m; });
    c.eq(refused, !ok, "refusal of market code " + hex(s));
    if(s.size() == 4) c.eq(pbt::throws([&] { iso_10383 m(std::array<char, 4>{s[0], s[1], s[2], s[3]}); (void)m; }), !ok, "refusal of market code array " + hex(s));
    if(ok) {
        iso_10383 m(s); c.eq(m.representation(), s, "representation"); std::ostringstream o; using markets::operator<<; o << m; c.eq(o.str(), s, "stream output");
        std::string t = s; if(c.below(3)) t[c.below(4)] = AN[c.below(36)]; iso_10383 n(t);
        c.eq(m == n, s == t, "=="); c.eq(m != n, s != t, "!="); c.eq(m < n, s < t, "<"); c.eq(m > n, s > t, ">"); c.eq(m <= n, s <= t, "<="); c.eq(m >= n, s >= t, ">=");
        if(s == t) c.eq(std::hash<iso_10383>()(m), std::hash<iso_10383>()(n), "hash of equal codes");
    }
}
PBT(country_codes, 300000, 8000000, "malformed text")
{
    std::string s = text(c, 2, UP); bool ok = good(s, 2, UP);
    NOTE(hex(s)); c.nontrivial(!ok); c.label(ok ? "valid" : s.size() == 2 ? "invalid symbol" : "invalid length");
    c.eq(pbt::throws([&] { iso_3166_1_alpha_2 m(s); (void)m; }), !ok, "refusal of country code " + hex(s));
    if(s.size() == 2) c.eq(pbt::throws([&] { iso_3166_1_alpha_2 m(std::array<char, 2>{s[0], s[1]}); (void)m; }), !ok, "refusal of country code array " + hex(s));
    if(ok) {
        iso_3166_1_alpha_2 m(s); c.eq(m.representation(), s, "representation"); std::ostringstream o; o << m; c.eq(o.str(), s, "stream output");
        std::string t = s; if(c.below(3)) t[c.below(2)] = UP[c.below(26)]; iso_3166_1_alpha_2 n(std::array<char, 2>{t[0], t[1]});
        c.eq(m.code == n.code, s == t, "equality of the symbols");
        size_t h = std::hash<iso_3166_1_alpha_2>()(m), g = std::hash<iso_3166_1_alpha_2>()(n);
        if(s == t) c.eq(h, g, "hash of equal codes");
    }
}
PBT(currency_codes, 300000, 8000000, "malformed text or zero denominator")
{
    std::string s = c.below(4) ? text(c, 3, UP) : c.fixed(UP, 3); s.resize(3, 'A');
    uint64_t d = c.below(4) ? c.pick(std::vector<uint64_t>{1, 10, 100, 1000}) : c.big();
    bool ok = good(s, 3, UP) && d > 0;
    NOTE(hex(s) << " denominator " << d); c.nontrivial(!ok); c.label(ok ? "valid" : "invalid");
    std::array<char, 3> a{s[0], s[1], s[2]};
    c.eq(pbt::throws([&] { iso_4217 m(a, d); (void)m; }), !ok, "refusal of currency " + hex(s) + " with denominator " + std::to_string(d));
    if(ok) {
        iso_4217 m(a, d); std::ostringstream o; o << m; c.eq(o.str(), s, "stream output"); c.eq(std::string(m), s, "text conversion");
        uint64_t q = c.big(); c.eq(m.format(q), s + " " + std::to_string(q) + "/" + std::to_string(d), "format");
        std::string t = s, u; uint64_t e = d; if(c.below(3)) t[c.below(3)] = UP[c.below(26)]; if(c.below(3) == 0) e = d % 1000 + 1;
        u = t; if(c.below(2)) u[c.below(3)] = UP[c.below(26)];
        iso_4217 n({t[0], t[1], t[2]}, e), w({u[0], u[1], u[2]}, d);
        c.eq(m == n, s == t && d == e, "=="); c.eq(m != n, !(s == t && d == e), "!="); c.eq(m < n, std::tie(s, d) < std::tie(t, e), "<"); c.eq(n < m, std::tie(t, e) < std::tie(s, d), "< reversed");
        if(m < n && n < w) c.check(m < w, "transitivity of <");
        if(m == n) c.eq(std::hash<iso_4217>()(m), std::hash<iso_4217>()(n), "hash of equal codes");
        iso_4217 k(n); c.check(k == n, "copy"); k = m; c.check(k == m, "assignment"); c.eq(std::string(k), s, "assigned code");
    }
}
PBT(constants, 30000, 300000, "two different constants")
{
    struct cur { const char *name; iso_4217 v; };
    struct geo { const char *name; iso_3166_1_alpha_2 v; };
#define X(n) cur{#n, currencies::n},
    static const std::vector<cur> cs{ALL_CURRENCIES(X)};
#undef X
#define X(n) geo{#n, countries::n},
    static const std::vector<geo> gs{ALL_COUNTRIES(X)};
#undef X
    auto &a = cs[c.below(cs.size())], &b = cs[c.below(cs.size())];
    NOTE(a.name << " " << b.name); c.nontrivial(&a != &b);
    c.eq(std::string(a.v), std::string(a.name), "code of the currency constant");
    uint64_t d = a.v.denominator; while(d % 10 == 0 && d) d /= 10; c.check(d == 1 || d == 5, std::string(a.name) + ": denominator " + std::to_string(a.v.denominator));
    if(&a != &b) { c.check(a.v != b.v && !(a.v == b.v), "distinct currency constants are equal"); c.check((a.v < b.v) != (b.v < a.v), "distinct currencies are not ordered"); }
    auto &g = gs[c.below(gs.size())], &h = gs[c.below(gs.size())];
    c.eq(g.v.representation(), std::string(g.name), "code of the country constant");
    if(&g != &h) c.check(g.v.code != h.v.code, "distinct country constants are equal");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
