// Identities: uniqueness in the creation tree, order, hash, conversions, rendering.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/economics/company.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/dividend.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/stock.cpp esl/exception.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/world.cpp
#include <pbt.hpp>
#include <memory>
#include <unordered_set>
#include <unordered_map>
#include <esl/simulation/entity.hpp>
#include <esl/simulation/world.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/stock.hpp>
#include <esl/geography/countries.hpp>
using esl::identity; using esl::entity;
typedef std::vector<uint64_t> digits;

struct base : entity<base> { explicit base(identity<base> i = identity<base>()) : entity<base>(i) {} };
struct derived : base, esl::identifiable_as<derived> { explicit derived(identity<derived> i) : base(i) {} using base::identifier; };
struct returned : entity<returned> { explicit returned(identity<returned> i) : entity<returned>(i) {} returned(const returned &r) : entity<returned>(r) {} };
struct other : entity<other> { explicit other(identity<other> i) : entity<other>(i) {} };

static std::string sh(const digits &d) { std::string s = "{"; for(auto x : d) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "}"; }
static digits gen(pbt::Ctx &c) { digits d; while(c.more(3, d.size(), 8)) d.push_back(c.below(3) ? c.below(4) : c.big()); return d; }
static digits near(pbt::Ctx &c, const digits &a)
{
    digits b = a;
    switch(c.below(6)) {
    case 0: return gen(c);
    case 1: return b;
    case 2: b.push_back(c.below(3)); return b;
    case 3: if(!b.empty()) b.pop_back(); return b;
    case 4: if(!b.empty()) b[c.below(b.size())] += c.below(3) - 1; return b;
    default: if(b.size() > 1) std::swap(b[c.below(b.size())], b[c.below(b.size())]); return b;
    }
}
PBT(order_and_hash, 400000, 10000000, "digit sequences that share a prefix and differ, or are equal and not empty")
{
    digits a = gen(c), b = near(c, a), e = near(c, b);
    NOTE(sh(a) << " " << sh(b) << " " << sh(e));
    c.nontrivial((a == b && !a.empty()) || (!a.empty() && !b.empty() && a[0] == b[0] && a != b)); c.label(a == b ? "equal" : a < b ? "less" : "greater");
    identity<base> i(a), j(b), k(e); identity<derived> di(a), dj(b);
    c.eq(i == j, a == b, "=="); c.eq(i != j, a != b, "!="); c.eq(i < j, a < b, "<"); c.eq(i > j, a > b, ">"); c.eq(i <= j, a <= b, "<="); c.eq(i >= j, a >= b, ">=");
    c.eq(i == dj, a == b, "== across types"); c.eq(i != dj, a != b, "!= across types"); c.eq(di < j, a < b, "< across types"); c.eq(di > j, a > b, "> across types"); c.eq(di <= j, a <= b, "<= across types"); c.eq(i >= dj, a >= b, ">= across types");
    if(i < j && j < k) c.check(i < k, "transitivity of <");
    std::hash<identity<base>> h; std::hash<identity<derived>> hd;
    if(a == b) { c.eq(h(i), h(j), "hash of equal identities"); }
    c.eq(h(i), hd(di), "hash across types");
    identity<base> up = di; c.check(up.digits == a, "conversion to the base type"); 
    identity<derived> down = esl::dynamic_identity_cast<derived>(i); c.check(down.digits == a, "conversion to the derived type");
    identity<other> re = esl::reinterpret_identity_cast<other>(i); c.check(re.digits == a, "reinterpreted identity");
    identity<base> cp(i); c.check(cp.digits == a, "copy"); cp = j; c.check(cp.digits == b, "assignment"); cp = identity<base>(e); c.check(cp.digits == e, "move assignment");
    for(size_t n = 0; n < a.size(); ++n) c.eq(i[n], a[n], "digit");
    std::unordered_map<identity<base>, int> m; std::map<identity<base>, int> t; m[i] = 1; m[j] = 2; t[i] = 1; t[j] = 2;
    c.eq(m.size(), size_t(a == b ? 1 : 2), "size of an unordered map of identities"); c.eq(t.size(), m.size(), "size of an ordered map of identities"); c.eq(m[i], a == b ? 2 : 1, "entry of the identity");
}
PBT(rendering, 300000, 8000000, "more than one digit")
{
    digits a = gen(c), b = near(c, a); int w = (int)c.below(21); identity<base> i(a), j(b);
    NOTE(sh(a) << " width " << w); c.nontrivial(a.size() > 1);
    std::string want; if(!a.empty()) { want = "\""; for(size_t n = 0; n < a.size(); ++n) { std::string x = std::to_string(a[n]); if(x.size() < (size_t)w) x = std::string((size_t)w - x.size(), '0') + x; want += (n ? "-" : "") + x; } want += "\""; }
    c.eq(i.representation(w), want, "representation");
    std::ostringstream o; o << i; c.eq(o.str(), i.representation(0), "stream output");
    c.eq(i.representation(w) == j.representation(w), a == b, "different identities render to the same text, or equal ones differently: " + sh(a) + " " + sh(b));
    base e(i); c.eq(e.representation(), i.representation(), "representation of the entity");
}
PBT(creation_tree, 60000, 1500000, "at least three parents created children and creations were interleaved")
{
    std::vector<std::unique_ptr<base>> es; std::vector<uint64_t> kids; std::set<digits> all; int switches = 0; size_t last = 0; std::set<size_t> parents;
    digits root = c.below(3) ? digits{} : gen(c); es.push_back(std::make_unique<base>(identity<base>(root))); kids.push_back(0); all.insert(root);
    NOTE("root " << sh(root));
    while(c.more(20, es.size(), 120)) {
        size_t p = c.below(es.size()); parents.insert(p); switches += p != last; last = p;
        digits want = es[p]->identifier.digits, got; 
        switch(c.below(3)) {
        case 0: { auto n = es[p]->create<base>(); got = n.digits; es.push_back(std::make_unique<base>(n)); break; }
        case 1: { auto n = es[p]->create<derived>(); got = n.digits; es.push_back(std::make_unique<derived>(n)); auto *d = static_cast<derived *>(es.back().get());
                  identity<derived> self = static_cast<const esl::identifiable_as<derived> &>(*d); c.check(self.digits == got, "identity of the derived entity"); break; }
        default: { auto n = es[p]->create<other>(); got = n.digits; es.push_back(std::make_unique<base>(esl::reinterpret_identity_cast<base>(n))); break; }
        }
        NOTE(sh(want) << " creates " << sh(got));
        ++kids[p]; kids.push_back(0);
        c.check(got.size() == want.size() + 1 && std::equal(want.begin(), want.end(), got.begin()), "child identity " + sh(got) + " does not extend the parent's " + sh(want));
        c.check(all.insert(got).second, "identity " + sh(got) + " was given twice");
        c.check(es.back()->identifier.digits == got, "entity has a different identity than it was created with");
        c.check(identity<base>(want) < es.back()->identifier, "a child precedes its parent");
    }
    for(size_t i = 0; i < es.size(); ++i) for(size_t k = 0; k < 3; ++k) { size_t j = c.below(es.size());
        c.eq(*es[i] == *es[j], i == j, "equality of entities"); c.eq(*es[i] != *es[j], i != j, "inequality of entities");
        if(i == j) c.eq(std::hash<entity<base>>()(*es[i]), std::hash<entity<base>>()(*es[j]), "hash"); }
    c.nontrivial(parents.size() >= 3 && switches >= 3);
}
// an entity that takes the place of another it was copied from goes on where that one stopped
PBT(copies, 60000, 1500000, "children before and after copying")
{
    digits root = gen(c); std::set<digits> all; auto e = std::make_unique<returned>(identity<returned>(root)); size_t n = 0, copied = 0; NOTE("root " << sh(root));
    while(c.more(8, n, 40)) { if(c.below(3) == 0) { auto f = std::make_unique<returned>(*e); c.check(*f == *e && f->identifier.digits == root, "a copy has another identity"); e = std::move(f); NOTE("copied after " << n); copied = copied ? copied : n; continue; } auto d = e->create<base>().digits; ++n; c.check(d.size() == root.size() + 1 && std::equal(root.begin(), root.end(), d.begin()), "child identity " + sh(d) + " does not extend the parent's"); c.check(all.insert(d).second, "identity " + sh(d) + " was given twice"); }
    c.nontrivial(copied > 0 && n > copied);
}
PBT(worlds, 30000, 600000, "at least two children")
{
    esl::simulation::world w; std::set<digits> all; int n = 0;
    while(c.more(8, n, 40)) { ++n; digits d = c.flip() ? w.create<base>().digits : w.create<other>().digits; c.check(d.size() == w.identifier.digits.size() + 1, "identity of a child of the world"); c.check(all.insert(d).second, "identity given twice by the world"); }
    NOTE(n << " children"); c.nontrivial(n >= 2);
}
// stocks are children of the companies that issue them
namespace issue {
using namespace esl; using namespace esl::economics; using namespace esl::economics::finance; typedef law::owner<law::property> holder;
struct firm : company { explicit firm(const digits &d) : agent(identity<agent>(d)), law::owner<law::property>(identity<holder>(d)), law::owner<cash>(identity<holder>(d)), law::owner<stock>(identity<holder>(d)), law::owner<bond>(identity<holder>(d)), company(identity<company>(d), law::jurisdiction(geography::countries::NL, currencies::EUR)) {} };
}
PBT(issued_stocks, 30000, 600000, "at least two companies issue at least three stocks, interleaved")
{
    using namespace issue; std::vector<std::unique_ptr<firm>> f; std::vector<uint64_t> kids; std::vector<digits> own; std::set<digits> all; std::set<size_t> issuers; size_t n = 1 + c.below(4), made = 0, used = 0, switches = 0, last = 0;
    for(size_t i = 0; i < n; ++i) { digits d = gen(c); d.push_back(i); while(!all.insert(d).second) d.push_back(i); NOTE("company " << sh(d)); own.push_back(d); }
    // no company is a child of another
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(i != j) c.require(!(own[i].size() <= own[j].size() && std::equal(own[i].begin(), own[i].end(), own[j].begin())));
    for(auto &d : own) f.push_back(std::make_unique<firm>(d));
    std::vector<std::pair<std::unique_ptr<stock>, std::tuple<size_t, share_class, digits>>> s;
    while(c.more(12, used, 60)) { ++used; size_t p = c.below(n); digits got; if(c.below(4)) { share_class k((uint8_t)c.below(4), (uint8_t)c.below(4), (float)c.below(3) / 4, c.flip(), c.flip(), c.flip()); auto x = std::make_unique<stock>(*f[p], k); got = x->identifier.digits; NOTE("company " << p << " issues " << sh(got)); s.emplace_back(std::move(x), std::make_tuple(p, k, got)); issuers.insert(p); ++made; switches += p != last; last = p; } else { got = f[p]->create<law::property>().digits; NOTE("company " << p << " creates " << sh(got)); }
        c.check(got.size() == own[p].size() + 1 && std::equal(own[p].begin(), own[p].end(), got.begin()), "identity " + sh(got) + " does not extend that of the issuer " + sh(own[p])); c.check(all.insert(got).second, "identity " + sh(got) + " is given twice"); }
    for(auto &[x, w] : s) { auto &[p, k, d] = w; c.check(x->identifier.digits == d, "the identity of a stock changed"); c.check(x->company_identifier.digits == own[p], "company of a stock"); c.check(x->details == k, "share class of a stock"); c.eq(x->name(), "stock " + identity<law::property>(d).representation(0), "name of a stock");
        stock again(identity<law::property>{d}, identity<company>{own[p]}, k); c.check(again.identifier == x->identifier && again.company_identifier == x->company_identifier && again.details == k, "a stock made from its identity, company and class"); }
    for(size_t i = 0; i < n; ++i) c.check(f[i]->identifier.digits == own[i], "the identity of a company changed");
    c.nontrivial(issuers.size() > 1 && made >= 3 && switches > 1);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
