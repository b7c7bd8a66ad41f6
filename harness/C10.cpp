// The tree order book against price-time priority matching.
// SOURCES: esl/data/channel.cpp esl/data/output_base.cpp
// FLAGS: -fsanitize=address
#include <book_model.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
using namespace bm;

// the public containers must hold exactly the resting orders, in priority order
static void containers(runner &r, binary_tree_order_book &b)
{
    auto same = [&](auto &m, const std::vector<resting> &want, const char *what) {
        r.c.eq(m.size(), want.size(), std::string("number of resting orders, ") + what); size_t k = 0;
        for(auto &[q, p] : m) { auto &w = want[k++]; auto &o = p.second;
            r.c.check(p.first == w.id && cents(q) == w.price && o.quantity == w.qty && o.side == w.side && o.owner == who(w.owner) && cents(o.limit) == w.price, std::string("resting order ") + std::to_string(k) + " of the " + what + " is not the expected one (id " + std::to_string(p.first) + " " + std::to_string(o.quantity) + "@" + std::to_string(cents(q)) + ")"); } };
    same(b.orders_bid, r.m.bids, "bids"); same(b.orders_ask, r.m.asks, "asks");
}
static void history(pbt::Ctx &c, i64 lowest, u64 n, int average)
{
    grid g{currency(c), (uint32_t)(c.below(3) ? 1 : 1 + c.below(10000)), lowest, 1, (i64)n}; NOTE("currency " << std::string(g.currency) << " lot " << g.lot << " prices from " << lowest << " count " << n);
    binary_tree_order_book book; runner r(c, book, g, false); r.symbol = ticker({1, 1}, {2}); r.state("at the start");
    u64 used = 0; bool deep = c.flip();
    while(c.more(average, used, 450)) {
        ++used; auto op = c.below(16);
        if(op < 12) {
            int s = (int)c.below(2); u64 k = c.below(n);
            if(deep && n > 3 && c.below(4)) k = s == limit_order::buy ? c.below(n / 2 + 1) : n / 2 - 1 + c.below(n - n / 2 + 1);
            auto l = life(c); auto a = amount(c); r.insert(s, g.tick(k), a, (int)c.below(3), l);
        } else if(op < 14) { if(r.m.ids().empty()) continue; r.cancel(r.any_id()); }
        else if(op < 15) r.cancel(r.some_dead_id());
        else r.invalid(limit_order(r.symbol, who(0), (limit_order::side_t)c.below(2), g.at(g.tick(c.below(n))), 0, life(c)), "order without quantity");
        containers(r, book);
    }
    c.nontrivial(r.n.trades >= 3 && r.n.partial && r.n.multi && r.n.cancels); c.label(r.n.killed ? "killed remainders" : "no killed remainders"); if(r.n.dead_cancels) c.label("cancels of closed orders");
}
#define RULE "at least three executions, one of them partial, one order meeting several resting orders, and one cancellation of an open order"
PBT(few_prices, 36000, 2000000, RULE) { c.max_scale = 8; u64 n = 2 + c.below(9); history(c, c.below(4) ? 1 + (i64)c.below(1000) : -(i64)c.below(20), n, c.below(8) ? 40 : 250); }
PBT(any_prices, 12000, 800000, RULE) { c.max_scale = 8; history(c, c.flip() ? (i64)c.below(1000000000) : -(i64)c.below(1000000000), 1 + c.below(100000), 60); }
int main(int argc, char **argv) { return pbt::main(argc, argv); }
