// Inventories.
// SOURCES: esl/data/channel.cpp esl/data/output_base.cpp esl/law/property.cpp
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <esl/economics/accounting/inventory.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::accounting;
typedef uint64_t u64;
struct goods : law::property, fungible { using law::property::property; std::string name() const override { return "goods"; } };
struct art : law::property, infungible { using law::property::property; std::string name() const override { return "art"; } };
typedef std::vector<u64> id_t_; typedef std::map<id_t_, u64> holding;
static std::string sh(const holding &h) { std::string r = "{"; for(auto &[k, v] : h) { for(auto d : k) r += std::to_string(d) + "."; r += "=" + std::to_string(v) + " "; } return r + "}"; }
template<class M> static holding read(const M &m) { holding h; for(auto &[k, v] : m) if(v.amount) h[id_t_(k->identifier.digits.begin(), k->identifier.digits.end())] += v.amount; return h; }
template<class M> static bool has_zero(const M &m) { for(auto &[k, v] : m) if(!v.amount) return true; return false; }
static id_t_ gen_id(pbt::Ctx &c) { id_t_ d{c.below(3)}; while(c.below(4) == 0 && d.size() < 3) d.push_back(c.below(3)); return d; }
static u64 gen_amount(pbt::Ctx &c, u64 held) { switch(c.below(6)) { case 0: return 0; case 1: return held; case 2: return held + 1 + c.below(3); case 3: return c.big(u64(1) << 40); case 4: return held ? 1 + c.below(std::min<u64>(held, 1000)) : 1; default: return c.below(10); } }
// the same property may be held through different objects with the same identity
template<class T> static std::shared_ptr<T> make(const id_t_ &d) { return std::make_shared<T>(identity<law::property>(d)); }
static u64 total(const holding &h) { u64 t = 0; for(auto &[k, v] : h) t = std::max(t, v); return t; }

template<class T> static void fungible_history(pbt::Ctx &c)
{
    typedef inventory_filter<T> inv; inv a; law::property_map<quantity> m; holding ha, hm; size_t refused = 0, ok = 0; bool exact = false;
    auto basket = [&](const holding &around) { std::pair<inv, holding> r; while(c.more(2, r.second.size(), 5)) { auto d = gen_id(c); if(r.second.count(d)) continue; auto f = around.find(d); u64 q = gen_amount(c, f == around.end() ? 0 : f->second); r.first.items.insert({make<T>(d), quantity(q)}); r.second[d] = q; } return r; };
    auto covered = [](const holding &h, const holding &by) { for(auto &[k, v] : by) { auto f = h.find(k); if(v > (f == h.end() ? 0 : f->second)) return false; } return true; };
    auto normal = [](holding h) { for(auto i = h.begin(); i != h.end();) if(!i->second) i = h.erase(i); else ++i; return h; };
    while(c.more(18, 0, 60)) {
        c.require(total(ha) < (u64(1) << 55) && total(hm) < (u64(1) << 55));
        switch(c.below(7)) {
        case 0: case 1: { auto d = gen_id(c); u64 q = gen_amount(c, ha[d]); NOTE("insert " << sh({{d, q}})); a.insert(make<T>(d), quantity(q)); ha[d] += q; ++ok; break; }
        case 2: { auto d = gen_id(c); u64 q = gen_amount(c, ha[d]); NOTE("erase " << sh({{d, q}})); bool can = ha[d] >= q; bool threw = false;
            try { a.erase(make<T>(d), quantity(q)); } catch(const insufficent_inventory &e) { threw = true; c.eq(e.before.amount, ha[d], "amount held according to the error"); c.eq(e.withdrawal.amount, q, "amount wanted according to the error"); c.check(id_t_(e.identifier.digits.begin(), e.identifier.digits.end()) == d, "the error names another property"); c.check(std::string(e.what()).find(std::to_string(q)) != std::string::npos, "the error text does not mention the amount"); }
            c.check(threw != can, can ? "a possible removal was refused" : "a removal of more than is held was not refused"); if(can) { exact |= q && q == ha[d]; ha[d] -= q; ++ok; } else ++refused; break; }
        case 3: { auto [b, h] = basket(ha); NOTE("insert all " << sh(h)); a.insert(b); for(auto &[k, v] : h) ha[k] += v; c.check(read(b.items) == normal(h), "merging an inventory changed the one merged"); ++ok; break; }
        case 4: { auto [b, h] = basket(ha); bool can = covered(ha, h); NOTE("erase all " << sh(h)); bool threw = pbt::throws_a<insufficent_inventory>([&] { a.erase(b); }); c.check(threw != can, can ? "a possible removal of several was refused" : "a removal of more than is held was not refused"); if(can) { for(auto &[k, v] : h) ha[k] -= v; ++ok; } else ++refused; c.check(read(b.items) == normal(h), "removing an inventory changed the one removed"); break; }
        case 5: { auto [b, h] = basket(hm); NOTE("insert into the collection " << sh(h)); b.insert_into(m); for(auto &[k, v] : h) hm[k] += v; ++ok; break; }
        default: { auto [b, h] = basket(hm); bool can = covered(hm, h); NOTE("erase from the collection " << sh(h)); bool threw = pbt::throws_a<insufficent_inventory>([&] { b.erase_from(m); }); c.check(threw != can, can ? "a possible removal from a collection was refused" : "a removal of more than a collection holds was not refused");
            if(can) { for(auto &[k, v] : h) if(v) { hm[k] -= v; if(!hm[k]) for(auto &[p, q] : m) c.check(id_t_(p->identifier.digits.begin(), p->identifier.digits.end()) != k, "a property that was removed entirely is still listed"); } ++ok; } else ++refused; break; }
        }
        c.check(read(a.items) == normal(ha), "inventory is " + sh(read(a.items)) + ", expected " + sh(normal(ha))); c.check(read(m) == normal(hm), "collection is " + sh(read(m)) + ", expected " + sh(normal(hm)));
    }
    c.nontrivial(ok >= 4 && refused >= 1); if(exact) c.label("removed everything of a property");
}
PBT(fungible, 40000, 1200000, "at least four changes and one refused removal") { fungible_history<goods>(c); }
PBT(any_property, 40000, 1200000, "at least four changes and one refused removal") { fungible_history<law::property>(c); }
PBT(infungible, 60000, 1800000, "at least four changes and one refused duplicate")
{
    typedef inventory_filter<art> inv; inv a; law::property_map<quantity> m; std::set<id_t_> ha; holding hm; size_t refused = 0, ok = 0;
    while(c.more(15, 0, 50)) {
        switch(c.below(4)) {
        case 0: { auto d = gen_id(c); NOTE("insert " << sh({{d, 1}})); a.insert(make<art>(d)); ha.insert(d); ++ok; break; }
        case 1: { auto d = gen_id(c); NOTE("erase " << sh({{d, 1}})); a.erase(make<art>(d)); ok += ha.erase(d); break; }
        case 2: { inv b; holding h; while(c.more(2, h.size(), 4)) { auto d = gen_id(c); b.insert(make<art>(d)); h[d] = 1; } bool can = true; for(auto &[k, v] : h) can &= !hm.count(k); NOTE("insert into the collection " << sh(h)); bool threw = pbt::throws_a<duplicate_infungible>([&] { b.insert_into(m); }); c.check(threw != can, can ? "unique property was refused" : "a second copy of a unique property was accepted"); if(can) { for(auto &[k, v] : h) hm[k] = 1; ++ok; } else ++refused; break; }
        default: { if(hm.empty()) break; auto i = hm.begin(); std::advance(i, c.below(hm.size())); inventory_filter<law::property> b; b.insert(make<art>(i->first), quantity(1)); NOTE("erase from the collection " << sh({{i->first, 1}})); b.erase_from(m); hm.erase(i); ++ok; }
        }
        std::set<id_t_> got; for(auto &p : a.items) c.check(got.insert(id_t_(p->identifier.digits.begin(), p->identifier.digits.end())).second, "a unique property is held twice"); c.check(got == ha, "the unique properties held are not those put in and not taken out"); c.check(read(m) == hm, "collection is " + sh(read(m)) + ", expected " + sh(hm));
    }
    c.nontrivial(ok >= 4 && refused >= 1);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
