// Valuation under an accounting standard.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/accounting/standard.cpp esl/economics/asset.cpp esl/economics/company.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/stock.cpp esl/interaction/communicator.cpp esl/law/property.cpp
#include <pbt.hpp>
#include <esl/economics/accounting/inventory.hpp>
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/loan.hpp>
#include <esl/economics/finance/stock.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::accounting; using namespace esl::economics::finance;
typedef uint64_t u64; typedef int64_t i64; typedef __int128 i128;
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
static const std::vector<iso_4217> &some() { static std::vector<iso_4217> v{currencies::USD, currencies::EUR, currencies::JPY, currencies::BHD, currencies::GBP, iso_4217({'U', 'S', 'D'}, 1000)}; return v; }
static std::string sh(const price &p) { return PBT_STR(std::string(p.valuation) << " " << p.value); }
static void same(pbt::Ctx &c, const price &got, i128 value, const iso_4217 &currency, const std::string &what) { c.check((i128)got.value == value && got.valuation == currency, what + ": got " + sh(got) + ", expected " + std::string(currency) + " " + std::to_string((i64)value)); }
static identity<law::property> pid(u64 k) { return identity<law::property>(std::vector<u64>{9, k}); }
static stock share(u64 k) { return stock(pid(k), identity<company>(std::vector<u64>{1}), share_class()); }
PBT(money_values, 200000, 5000000, "the money is foreign and the rate is not one")
{
    silence s; auto cur = c.pick(some()), mine = c.pick(some()); accounting::standard a(mine); bool fine = c.chance(1, 4); u64 n = 1 + (fine ? c.big(u64(1) << 31) : c.below(1000)), d = 1 + (fine ? c.big(u64(1) << 31) : c.below(1000)), q = c.big(fine ? u64(1) << 31 : u64(1) << 50); bool known = c.below(4) != 0; NOTE("report in " << std::string(mine) << ", " << q << " of " << std::string(cur) << ", rate " << n << "/" << d << (known ? "" : " not recorded"));
    if(known && !(cur == mine)) a.foreign_currencies.emplace(cur, exchange_rate(n, d)); for(auto &o : some()) if(!(o == cur) && !(o == mine) && c.flip()) a.foreign_currencies.emplace(o, exchange_rate(1 + c.below(50), 1 + c.below(50)));
    money m(cur); cash k(cur); bool home = cur == mine; c.nontrivial(!home && known && n != d);
    if(!home && !known) { c.check(pbt::throws_a<std::domain_error>([&] { (void)a.value(m, quantity(q)); }) && pbt::throws_a<std::domain_error>([&] { (void)a.value(k, quantity(q)); }), "money without an exchange rate was given a value"); return; }
    i128 w = home ? (i128)q : (i128)q * n / d; auto v = a.value(m, quantity(q)); if(home) same(c, v, w, mine, "value of money"); else c.eq((i64)v.value, (i64)w, "value of foreign money"); auto v2 = a.value(k, quantity(q)); c.check(v2.value == v.value && v2.valuation == v.valuation, "cash and money of one currency have different values");
}
PBT(stock_values, 200000, 5000000, "the lot is not one and the stock has other quotes around it")
{
    silence s; accounting::standard a(c.pick(some())); auto cur = c.pick(some()); i64 p = c.sbig(i64(1) << 30); u64 q = c.big(u64(1) << 30), lot = c.flip() ? 1 + c.below(200) : 1 + c.big(u64(1) << 31); bool known = c.below(4) != 0; size_t others = c.below(3); NOTE("price " << p << " lot " << lot << " quantity " << q << (known ? "" : " not quoted"));
    if(known) a.mark_to_market.emplace(pid(5), markets::quote(price(p, cur), lot)); for(size_t i = 0; i < others; ++i) a.mark_to_market.emplace(pid(c.below(2) ? 6 + i : i), markets::quote(price(c.sbig(1000000), cur), 1 + c.below(9)));
    auto st = share(5); c.nontrivial(lot != 1 && others && known); if(!known) { c.check(pbt::throws_a<std::logic_error>([&] { (void)a.value(st, quantity(q)); }), "a stock without a market price was given a value"); return; }
    same(c, a.value(st, quantity(q)), (i128)p * (i128)q / (i128)lot, cur, "value of stock");
}
PBT(liabilities, 200000, 5000000, "the lot is not one")
{
    silence s; auto mine = c.pick(some()); accounting::standard a(mine); i64 p = c.sbig(1 << 20); u64 q = c.big(1 << 20), size = c.big(1 << 20), lot = 1 + c.below(200); identity<agent> l(std::vector<u64>{1}), b(std::vector<u64>{2}); NOTE("price " << p << " lot " << lot << " contracts " << q << " of " << size); c.nontrivial(lot != 1);
    loan x(l, b); c.check(x.lender().digits == l.digits && x.borrower().digits == b.digits, "the parties of a loan are mixed up"); same(c, a.value(x, quantity(q)), -(i128)q * mine.denominator, mine, "value of a loan");
    securities_lending_contract k(l, b, pid(5), quantity(size)); c.check(pbt::throws_a<std::logic_error>([&] { (void)a.value(k, quantity(q)); }), "a short position without a market price was given a value"); a.mark_to_market.emplace(pid(5), markets::quote(price(p, mine), lot)); a.mark_to_market.emplace(pid(4), markets::quote(price(p + 1, mine), lot));
    same(c, a.value(k, quantity(q)), -((i128)p * size * q / (i128)lot), mine, "value of a short position");
}
PBT(inventories, 60000, 1500000, "at least three holdings of two kinds")
{
    silence s; auto mine = c.pick(some()); accounting::standard a(mine); inventory_filter<cash> m; inventory_filter<stock> st; i128 wm = 0, ws = 0; size_t n = 0, k = 0;
    for(auto &cur : some()) { if(!(cur == mine)) a.foreign_currencies.emplace(cur, exchange_rate(1, 1)); }
    { u64 q = c.big(u64(1) << 40); m.insert(std::make_shared<cash>(mine), quantity(q)); wm += q; ++n; }
    while(c.more(3, k, 8)) { u64 q = c.big(1 << 28), lot = 1 + c.below(100); i64 p = c.sbig(1 << 28); a.mark_to_market.emplace(pid(k), markets::quote(price(p, mine), lot)); st.insert(std::make_shared<stock>(share(k)), quantity(q)); ws += (i128)p * (i128)q / (i128)lot; ++k; NOTE("stock " << k << ": " << q << " at " << p << "/" << lot); }
    same(c, m.value(a), wm, mine, "value of the cash"); same(c, st.value(a), ws, mine, "value of the stocks"); c.nontrivial(k >= 2); if(k) { st.insert(std::make_shared<stock>(share(9999)), quantity(1)); c.check(pbt::throws_a<std::logic_error>([&] { (void)st.value(a); }), "an inventory with a stock without market price was given a value"); }
}
PBT(amounts_of_money, 200000, 4000000, "the amount has a fractional sub-unit")
{
    auto cur = c.pick(some()), other = c.pick(some()); cash k(cur), l(other); c.check((k == l) == (cur == other), "money is equal exactly if its currencies are: violated"); if(cur == other) c.eq(std::hash<cash>()(k), std::hash<cash>()(l), "hash of equal money"); double r = c.flip() ? (double)c.below(100000) / (1 + c.below(1000)) : std::abs(c.real(1e9)); NOTE(std::setprecision(17) << std::string(cur) << " " << r); double x = r * cur.denominator; c.nontrivial(x != std::floor(x)); c.eq(k.amount(r).amount, (u64)x, "amount of money"); same(c, k.price(r), (i128)(i64)x, cur, "price of an amount"); same(c, k.price(-r), -(i128)(i64)x, cur, "price of a negative amount");
    u64 q = c.big(u64(1) << 62); same(c, k.price(quantity(q)), q, cur, "price of a quantity"); same(c, k.price(quantity(k.amount(r))), (i128)(i64)x, cur, "price of an amount held");
    auto up = k.amount(r, [](double v) { return (u64)std::ceil(v); }); c.eq(up.amount, (u64)std::ceil(x), "amount rounded up"); auto up2 = k.price(r, [](double v) { return (i64)std::ceil(v); }); same(c, up2, (i128)(i64)std::ceil(x), cur, "price rounded up"); auto o = c.pick(some()); c.check((cash(o) == k) == (o == cur) && (money(o) == (money &)k) == (o == cur) && (money(o) != (money &)k) == !(o == cur), "money of two currencies compares wrongly"); if(o == cur || o.code != cur.code) c.check((cash(o).identifier == k.identifier) == (o == cur), "cash of two currencies has one identity or cash of one currency has two");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
