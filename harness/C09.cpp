// The tick-indexed order book against price-time priority matching.
// SOURCES: esl/data/channel.cpp esl/data/output_base.cpp
// FLAGS: -fsanitize=address
#include <book_model.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
using namespace bm;

// grids on which every price is a tick
static grid make(pbt::Ctx &c)
{
    iso_4217 k = currency(c); u64 d = k.denominator; grid g{k, 1, 1, 1, 2};
    if(c.below(4) || d == 1) g.lot = (uint32_t)(d * c.pick(std::vector<u64>{1, 2, 5, 10, 100}));
    else { g.lot = (uint32_t)(c.flip() ? 1 : d / 10); g.step = (i64)(d / g.lot); }
    g.count = 2 + (i64)c.below(c.below(3) ? 8 : 60); if(c.below(12) == 0) g.count = 400 + (i64)c.below(600);
    g.lowest = g.step * (c.below(3) ? 1 + (i64)c.below(1000) : 1 + (i64)c.below(1000000)); if(c.below(10) == 0) g.lowest = 1 + (i64)c.below(5000);
    return g;
}
static void display(runner &r, static_order_book &b)
{
    pbt::Ctx &c = r.c; u64 depth = 1 + c.below(6); std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); auto fmt = std::cout.flags(); auto pr = std::cout.precision(); auto fi = std::cout.fill();
    try { b.display(depth); } catch(...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); std::cout.flags(fmt); std::cout.precision(pr); std::cout.fill(fi);
    std::vector<std::pair<i64, u64>> bids, asks; std::istringstream in(o.str()); std::string line; std::getline(in, line);
    while(std::getline(in, line)) {
        std::vector<std::string> f; std::istringstream l(line); std::string x; while(std::getline(l, x, '|')) f.push_back(x); if(f.size() < 2) continue;
        auto blank = [](const std::string &s) { return s.find_first_not_of(' ') == std::string::npos; };
        i64 p = (i64)std::llround(std::stod(f[1]) * (double)r.g.currency.denominator);
        if(blank(f[0])) asks.emplace_back(p, std::stoull(f.at(2))); else bids.emplace_back(p, std::stoull(f[0]));
    }
    std::reverse(asks.begin(), asks.end());
    auto wb = model::levels(r.m.bids), wa = model::levels(r.m.asks); if(wb.size() > depth) wb.resize(depth); if(wa.size() > depth) wa.resize(depth);
    auto sh = [](const std::vector<std::pair<i64, u64>> &v) { std::string s; for(auto &x : v) s += std::to_string(x.second) + "@" + std::to_string(x.first) + " "; return s; };
    bool printable = (u64)r.g.lot >= r.g.currency.denominator;      // prices are displayed with log10(lot) decimals
    if(printable) { c.eq(sh(bids), sh(wb), "displayed bid levels"); c.eq(sh(asks), sh(wa), "displayed ask levels"); c.label("displayed"); }
    else { c.eq(bids.size(), wb.size(), "number of displayed bid levels"); c.eq(asks.size(), wa.size(), "number of displayed ask levels"); }
}
PBT(histories, 60000, 1500000, "at least three executions, one of them partial, one order meeting several resting orders, and one cancellation of an open order")
{
    grid g = make(c); i64 top = g.tick((u64)g.count - 1);
    NOTE("grid " << std::string(g.currency) << " lot " << g.lot << " from " << g.lowest << " step " << g.step << " levels " << g.count);
    static_order_book book(g.at(g.lowest), g.at(top), 512);
    runner r(c, book, g, true); r.symbol = ticker({1, 1}, {2}); r.state("at the start");
    int len = c.below(8) ? 40 : 250, profile = (int)c.below(3); u64 used = 0;
    while(used < 450 && c.more(len, used, 450)) {
        ++used; auto op = c.below(16); 
        if(op < 11) {
            int s = (int)c.below(2); u64 k, n = (u64)g.count;
            switch(profile) {
            case 0: k = c.below(n); break;                                                       // anywhere
            case 1: k = s == limit_order::buy ? c.below(n / 2 + 1) : n / 2 - (n > 3) + c.below(n - (n / 2 - (n > 3))); break;   // little overlap: deep book
            default: k = c.below(3) ? n / 2 + c.below(std::min<u64>(3, n - n / 2)) : c.pick(std::vector<u64>{0, n - 1, n / 2}); break;      // few levels, edges
            }
            r.insert(s, g.tick(k), amount(c), (int)c.below(3), life(c));
        } else if(op < 13) { if(r.m.ids().empty()) continue; r.cancel(r.any_id()); }
        else if(op < 14) r.cancel(r.some_dead_id());
        else if(op < 15) {
            auto s = (limit_order::side_t)c.below(2); auto l = life(c); quote q = g.at(g.tick(c.below((u64)g.count)));
            switch(c.below(4)) {
            case 0: r.invalid(limit_order(r.symbol, who(0), s, q, 0, l), "order without quantity"); break;
            case 1: r.invalid(limit_order(r.symbol, who(1), s, g.at(g.lowest - 1 - (i64)c.below(50)), amount(c), l), "order below the lowest price"); break;
            case 2: r.invalid(limit_order(r.symbol, who(2), s, g.at(top + 1 + (i64)c.below(50)), amount(c), l), "order above the highest price"); break;
            default: { uint32_t other = c.flip() ? g.lot + 1 : g.lot == 1 ? 2 : 1; r.invalid(limit_order(r.symbol, who(0), s, quote(std::get<price>(q.type), other), amount(c), l), "order with another lot size"); }
            }
        } else display(r, book);
    }
    c.nontrivial(r.n.trades >= 3 && r.n.partial && r.n.multi && r.n.cancels); c.label(r.n.killed ? "killed remainders" : "no killed remainders"); if(r.n.invalid) c.label("invalid orders"); if(r.n.dead_cancels) c.label("cancels of closed orders");
}
PBT(levels, 100000, 2000000, "the price is neither the lowest nor the highest")
{
    grid g = make(c); g.count = 2 + (i64)c.below(3000); if(g.count * (i64)g.lot / (i64)g.currency.denominator > 20000) g.count = 20;
    static_order_book book(g.at(g.lowest), g.at(g.tick((u64)g.count - 1)), 8); NOTE("grid " << std::string(g.currency) << " lot " << g.lot << " from " << g.lowest << " step " << g.step << " levels " << g.count);
    for(int i = 0; i < 6; ++i) {
        u64 k = c.below(4) ? c.below((u64)g.count) : c.flip() ? 0 : (u64)g.count - 1; i64 p = g.tick(k); NOTE("price " << p); if(k && k + 1 < (u64)g.count) c.nontrivial();
        auto s = (limit_order::side_t)c.below(2);
        book.reports.clear(); book.insert(limit_order(ticker(), who(1), s, g.at(p), 5)); c.eq(book.reports.size(), (size_t)1, "reports"); c.check(book.reports[0].state == execution_report::placement, "an order alone in the book is not placed");
        auto best = s == limit_order::buy ? book.bid() : book.ask(); c.check(best.has_value(), "no best price"); c.eq(cents(*best), p, "best price"); c.check(!(s == limit_order::buy ? book.ask() : book.bid()), "an order appears on the wrong side");
        if(k + 1 < (u64)g.count) { i64 next = g.tick(k + 1), prev = p; (void)prev;      // an order one tick worse does not trade
            book.reports.clear(); book.insert(limit_order(ticker(), who(2), s == limit_order::buy ? limit_order::sell : limit_order::buy, g.at(s == limit_order::buy ? next : g.tick(k ? k - 1 : 0)), 5, limit_order::lifetime_t::immediate_or_cancel));
            if(s == limit_order::buy || k) { c.eq(book.reports.size(), (size_t)1, "reports of an order one tick away"); c.check(book.reports[0].state == execution_report::cancel, "an order traded at a price worse than its limit"); } 
            else { book.reports.clear(); continue; } }
        book.reports.clear(); book.insert(limit_order(ticker(), who(2), s == limit_order::buy ? limit_order::sell : limit_order::buy, g.at(p), 5)); c.eq(book.reports.size(), (size_t)2, "reports of a matching order");
        c.eq(cents(book.reports[0].limit), p, "execution price"); c.eq(cents(book.reports[1].limit), p, "execution price"); c.check(!book.bid() && !book.ask(), "book not empty after a complete match");
    }
}
PBT(between_ticks, 20000, 200000, "the price lies between two ticks")
{
    // a lot smaller than the currency's denominator gives a grid coarser than the currency
    iso_4217 k = c.flip() ? currencies::USD : currencies::BHD; u64 d = k.denominator; uint32_t lot = (uint32_t)(c.flip() ? 1 : d / 10); i64 step = (i64)(d / lot), low = step * (1 + (i64)c.below(20)), n = 2 + (i64)c.below(30);
    grid g{k, lot, low, step, n}; static_order_book book(g.at(low), g.at(g.tick((u64)n - 1)), 8);
    i64 p = low + (i64)c.below((u64)(step * (n - 1))); c.nontrivial((p - low) % step != 0); NOTE("grid " << std::string(k) << " lot " << lot << " from " << low << " step " << step << ", order @" << p);
    auto s = (limit_order::side_t)c.below(2); book.insert(limit_order(ticker(), who(1), s, g.at(p), 5)); auto best = s == limit_order::buy ? book.bid() : book.ask();
    c.eq(book.reports.size(), (size_t)1, "reports");
    if((p - low) % step == 0) { c.check(best && cents(*best) == p, "price on a tick"); return; }
    if(book.reports[0].state == execution_report::invalid) { c.check(!best, "an invalid order rests"); return; }
    c.check(best.has_value(), "order neither placed nor refused"); i64 b = cents(*best); c.check(std::abs(b - p) <= step, "order rests more than a tick from its limit");
    if(s == limit_order::buy ? b > p : b < p) c.known("off-tick", "order rests at a price worse than its limit");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
