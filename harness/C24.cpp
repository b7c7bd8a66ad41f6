// Identifiers of securities and legal entities.
// SOURCES:
#include <pbt.hpp>
#include <refusal.hpp>
#include <esl/economics/finance/cusip.hpp>
#include <esl/economics/finance/isin.hpp>
#include <esl/economics/finance/sedol.hpp>
#include <esl/law/legal_entity.hpp>
using namespace esl; using namespace esl::economics::finance; using esl::law::iso_17442; using esl::geography::iso_3166_1_alpha_2; using refusal::refused;
typedef uint64_t u64;
static const std::string digits = "0123456789", upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", lower = "abcdefghijklmnopqrstuvwxyz";
static int value(char c) { for(size_t i = 0; i < 10; ++i) if(digits[i] == c) return (int)i; for(size_t i = 0; i < 26; ++i) if(upper[i] == c || lower[i] == c) return 10 + (int)i; return c == '*' ? 36 : c == '@' ? 37 : c == '#' ? 38 : 0; }
template<size_t n> static std::array<char, n> arr(const std::string &s) { std::array<char, n> a{}; for(size_t i = 0; i < n; ++i) a[i] = s.at(i); return a; }
template<class T> static std::string str(const T &t) { std::ostringstream o; o << t; return o.str(); }
// independent check digits
static char isin_digit(const std::string &s) { std::string d; for(char c : s) { int v = value(c); if(v > 9) d += char('0' + v / 10); d += char('0' + v % 10); } int t = 0; bool twice = true; for(size_t i = d.size(); i--; twice = !twice) { int v = d[i] - '0'; if(twice) { v *= 2; if(v > 9) v -= 9; } t += v; } return char('0' + (10 - t % 10) % 10); }
static char cusip_digit(const std::string &s) { int t = 0; for(size_t i = 0; i < 8; ++i) { int v = value(s[i]); if(i % 2 == 1) v += v; t += v / 10 + v % 10; } return char('0' + (10 - t % 10) % 10); }
static char sedol_digit(const std::string &s) { static const int w[] = {1, 3, 1, 7, 3, 9}; int t = 0; for(int i = 0; i < 6; ++i) t += w[i] * value(s[i]); return char('0' + (10 - t % 10) % 10); }
static std::string lei_digits(const std::string &s) { int m = 0; for(char c : s + "00") { int v = value(c); m = (v > 9 ? m * 100 + v : m * 10 + v) % 97; } int k = 98 - m; return {char('0' + k / 10), char('0' + k % 10)}; }
static std::string text(pbt::Ctx &c, size_t n, const std::string &alphabet) { return c.below(4) ? c.fixed(alphabet, n) : c.below(2) ? c.fixed(digits, n) : c.fixed(alphabet.substr(alphabet.size() - 3), n); }
static bool letters(const std::string &s) { for(char c : s) if(value(c) > 9) return true; return false; }
PBT(isin_codes, 300000, 7000000, "the national part has a letter")
{
    std::string cc = c.fixed(upper, 2), n = text(c, 9, digits + upper + (c.below(4) ? "" : lower)); NOTE(cc << n); c.nontrivial(letters(n)); char w = isin_digit(cc + n); std::string all = cc + n + w; isin a(iso_3166_1_alpha_2(cc), arr<9>(n)); c.eq(a.checksum(), (signed char)w, "check digit"); c.eq(str(a), all, "representation"); c.eq(a.representation(), all, "representation");
    for(auto &b : {isin(arr<11>(cc + n)), isin(iso_3166_1_alpha_2(cc), n), isin(iso_3166_1_alpha_2(cc), n + w), isin(cc, n), isin(cc, n + w), isin(cc + n), isin(all), isin(a.representation())}) { c.eq(str(b), all, "representation when built in another way"); c.check(b.code == a.code && b.issuer.code == a.issuer.code, "parts differ when built in another way"); }
    size_t i = c.below(9); if(value(n[i]) < 10) { std::string m = n; m[i] = digits[(value(n[i]) + 1 + c.below(9)) % 10]; NOTE("replaced by " << m); c.check(isin(cc + m).checksum() != a.checksum(), "a wrong digit is not detected"); }
}
PBT(isin_of_cusip, 100000, 2000000, "the code has a letter")
{
    std::string cc = c.flip() ? "US" : c.fixed(upper, 2), n = text(c, 8, digits + upper); NOTE(cc << " " << n); c.nontrivial(letters(n)); std::string w = cc + n + cusip_digit(n); c.eq(str(isin(iso_3166_1_alpha_2(cc), cusip(n))), w + isin_digit(w), "ISIN of a CUSIP");
}
PBT(isin_refusals, 100000, 2000000, "the text has another length")
{
    std::string cc = c.fixed(upper, 2), n = text(c, c.below(4) ? 8 + c.below(4) : c.below(16), digits + upper); NOTE(cc << n); bool ok = n.size() == 9 || n.size() == 10; c.nontrivial(!ok); c.eq(refused([&] { (void)isin(cc + n); }), !ok, "refused as one text"); c.eq(refused([&] { (void)isin(iso_3166_1_alpha_2(cc), n); }), !ok, "refused as country and text"); c.eq(refused([&] { (void)isin(cc, n); }), !ok, "refused as two texts");
    std::string bad = c.below(3) ? cc : c.str(upper + lower + digits, 4); bool country = bad.size() == 2 && upper.find(bad[0]) != std::string::npos && upper.find(bad[1]) != std::string::npos; std::string nn = c.fixed(digits, 9); c.eq(refused([&] { (void)isin(bad, nn); }), !country, "refused for the country");
}
PBT(cusip_codes, 300000, 7000000, "the code has a letter or one of *@#")
{
    std::string n = text(c, 8, digits + upper + "*@#" + (c.below(4) ? "" : lower)); NOTE(n); c.nontrivial(letters(n)); char w = cusip_digit(n); std::string all = n + w; cusip a(arr<6>(n), arr<2>(n.substr(6))); c.eq(a.checksum(), (signed char)w, "check digit"); c.eq(str(a), all, "representation"); c.eq(a.representation(), all, "representation");
    for(auto &b : {cusip(arr<8>(n)), cusip(arr<9>(all)), cusip(n), cusip(all), cusip(a.representation())}) c.check(str(b) == all && b.code == a.code && b.issuer == a.issuer, "differs when built in another way"); c.eq(str(cusip(arr<6>(n))).substr(0, 8), n.substr(0, 6) + "10", "first issue");
    for(char d : digits) c.eq(refused([&] { (void)cusip(arr<9>(n + d)); }), d != w, PBT_STR("refused with check digit " << d)); size_t i = c.below(8); if(value(n[i]) < 10) { std::string m = n; m[i] = digits[(value(n[i]) + 1 + c.below(9)) % 10]; NOTE("replaced by " << m); c.check(cusip(m).checksum() != a.checksum(), "a wrong digit is not detected"); }
    std::string s = n.substr(0, c.below(8)); c.check(refused([&] { (void)cusip(s); }), "too short text is accepted: " + s);
}
PBT(sedol_codes, 300000, 7000000, "the code has a letter")
{
    std::string n = text(c, 6, digits + upper + (c.below(4) ? "" : lower)); NOTE(n); c.nontrivial(letters(n)); char w = sedol_digit(n); std::string all = n + w; sedol a(arr<6>(n)); c.eq(a.checksum(), w, "check digit"); c.eq(str(a), all, "representation"); c.eq(a.representation(), all, "representation"); for(auto &b : {sedol(n), sedol(all), sedol(a.representation())}) c.check(str(b) == all && b.code == a.code, "differs when built in another way");
    size_t i = c.below(6); if(value(n[i]) < 10) { std::string m = n; m[i] = digits[(value(n[i]) + 1 + c.below(9)) % 10]; NOTE("replaced by " << m); c.check(sedol(m).checksum() != a.checksum(), "a wrong digit is not detected"); }
    std::string r = c.flip() ? text(c, c.below(11), digits + upper) : n; if(r.size() && c.flip()) r[c.below(std::min<size_t>(r.size(), 6))] = " -*@[`{/:~"[c.below(10)]; bool ok = r.size() == 6 || (r.size() == 7 && digits.find(r[6]) != std::string::npos); for(size_t j = 0; j < r.size() && j < 6; ++j) ok &= (digits + upper + lower).find(r[j]) != std::string::npos; NOTE("text '" << r << "'"); c.eq(refused([&] { (void)sedol(r); }), !ok, "refused"); if(r.size() == 6) c.eq(refused([&] { (void)sedol(arr<6>(r)); }), !ok, "refused as symbols");
}
PBT(legal_entities, 200000, 5000000, "the code has letters and digits")
{
    std::string l = text(c, 4, digits), n = text(c, 12, digits + upper); NOTE(l << "00" << n); bool d = false; for(char x : n) d |= value(x) < 10; c.nontrivial(letters(n) && d); std::string w = lei_digits(l + "00" + n), all = l + "00" + n + w; iso_17442 a(arr<4>(l), arr<12>(n)); auto k = a.checksum(); c.eq(std::string{std::get<0>(k), std::get<1>(k)}, w, "check digits"); c.eq(str(a), all, "representation");
    for(auto &b : {iso_17442(all), iso_17442(l + "00" + n), iso_17442(str(a))}) c.check(b.local == a.local && b.code == a.code, "differs when built from text"); std::string m = all; size_t i = c.below(20); auto &same = value(m[i]) < 10 ? digits : upper; if(i < 4 || i > 5) { char o = m[i]; m[i] = same[(same.find(o) + 1 + c.below(same.size() - 1)) % same.size()]; NOTE("replaced by " << m); c.check(refused([&] { (void)iso_17442(m); }), "a wrong symbol is not detected: " + m); }
    std::string r = c.flip() ? all : l + "00" + n; switch(c.below(4)) { case 0: r.resize(r.size() - std::min<size_t>(r.size(), 1 + c.below(3))); break; case 1: r += c.fixed(digits, 1 + c.below(3)); break; case 2: r[c.below(18)] = " -*@[`{/:~abz"[c.below(13)]; break; default: r[4 + c.below(2)] = (digits + upper)[1 + c.below(35)]; } bool ok = r.size() == 18 || (r.size() == 20 && r.substr(18) == lei_digits(r.substr(0, 18))); for(size_t j = 0; j < r.size() && j < 18; ++j) ok &= (j < 4 ? digits : j < 6 ? std::string("0") : digits + upper).find(r[j]) != std::string::npos; NOTE("text '" << r << "'"); c.eq(refused([&] { (void)iso_17442(r); }), !ok, "refused");
    u64 h = c.big(~0ull); auto e = iso_17442::create(h, arr<4>(l)); auto f = iso_17442::create(h, arr<4>(l)); c.check(e.code == f.code && e.local == arr<4>(l), "a generated identifier is not determined by its source"); c.check(!refused([&] { (void)iso_17442(str(e)); }) && iso_17442(str(e)).code == e.code, "a generated identifier is not valid: " + str(e)); u64 g = c.big(~0ull); if(std::hash<u64>()(g) != std::hash<u64>()(h)) { auto q = iso_17442::create(g, arr<4>(l)); if(h < 4738381338321616896ull && g < 4738381338321616896ull) c.check(q.code != e.code, "different sources are given one identifier"); }
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
