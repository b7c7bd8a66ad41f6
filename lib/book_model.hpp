// Reference model of price-time priority matching, and a driver that runs a history on a book and on the model.
#ifndef VERIF_BOOK_MODEL_HPP
#define VERIF_BOOK_MODEL_HPP
#include <pbt.hpp>
#include <deque>
#include <optional>
#include <iomanip>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/order.hpp>
#include <esl/economics/markets/order_book/basic_book.hpp>

namespace bm {
using namespace esl; using namespace esl::economics; using namespace esl::economics::markets; using namespace esl::economics::markets::order_book;
typedef int64_t i64; typedef uint64_t u64;

struct resting { u64 id; int side; i64 price; u64 qty; int owner; };
struct execution { u64 qty; i64 price; int taker_side, taker, maker; u64 maker_id; };
struct outcome { std::vector<execution> executions; u64 rests = 0, cancelled = 0; };

struct model {
    std::vector<resting> bids, asks;      // best first, oldest first within a price
    static bool crosses(int side, i64 limit, i64 price) { return side == limit_order::buy ? price <= limit : price >= limit; }
    std::vector<resting> &own(int side) { return side == limit_order::buy ? bids : asks; }
    std::vector<resting> &opposite(int side) { return side == limit_order::buy ? asks : bids; }
    outcome insert(int side, i64 price, u64 qty, int owner, limit_order::lifetime_t life)
    {
        outcome o; auto &opp = opposite(side); u64 available = 0;
        for(auto &r : opp) if(crosses(side, price, r.price)) available += r.qty;
        if(life == limit_order::lifetime_t::fill_or_kill && available < qty) { o.cancelled = qty; return o; }
        while(qty && !opp.empty() && crosses(side, price, opp.front().price)) {
            auto &r = opp.front(); u64 x = std::min(qty, r.qty);
            o.executions.push_back({x, r.price, side, owner, r.owner, r.id}); qty -= x; r.qty -= x;
            if(!r.qty) opp.erase(opp.begin());
        }
        if(qty) { if(life == limit_order::lifetime_t::good_until_cancelled) o.rests = qty; else o.cancelled = qty; }
        return o;
    }
    void place(u64 id, int side, i64 price, u64 qty, int owner)
    {
        auto &v = own(side); auto i = v.begin();
        while(i != v.end() && (side == limit_order::buy ? i->price >= price : i->price <= price)) ++i;
        v.insert(i, {id, side, price, qty, owner});
    }
    std::optional<resting> cancel(u64 id)
    {
        for(auto *v : {&bids, &asks}) for(auto i = v->begin(); i != v->end(); ++i) if(i->id == id) { auto r = *i; v->erase(i); return r; }
        return {};
    }
    std::set<u64> ids() const { std::set<u64> r; for(auto *v : {&bids, &asks}) for(auto &x : *v) r.insert(x.id); return r; }
    static std::vector<std::pair<i64, u64>> levels(const std::vector<resting> &v)
    { std::vector<std::pair<i64, u64>> r; for(auto &x : v) { if(r.empty() || r.back().first != x.price) r.emplace_back(x.price, 0); r.back().second += x.qty; } return r; }
};

struct grid { iso_4217 currency; uint32_t lot; i64 lowest, step; i64 count;     // prices lowest + k * step, 0 <= k < count
    quote at(i64 p) const { return quote(price(p, currency), lot); }
    i64 tick(u64 k) const { return lowest + (i64)k * step; } };
inline i64 cents(const quote &q) { return std::get<price>(q.type).value; }
inline identity<agent> who(int n) { return identity<agent>({1, (u64)n}); }
inline std::string side(int s) { return s == limit_order::buy ? "buy" : "sell"; }
inline std::string sh(const execution_report &r)
{ static const char *st[] = {"invalid", "cancel", "match", "placement"}; std::ostringstream o; o << st[r.state & 3] << " " << side(r.side) << " " << r.quantity << " id " << (r.identifier == basic_book::direct_order ? std::string("direct") : std::to_string(r.identifier)) << " @" << cents(r.limit) << " owner " << r.owner.representation(0); return o.str(); }

struct counters { int trades = 0, partial = 0, multi = 0, cancels = 0, dead_cancels = 0, invalid = 0, killed = 0; };

// Runs one order on the book and checks every report against the model.
struct runner {
    pbt::Ctx &c; basic_book &book; grid g; model m; counters n; std::vector<u64> dead; ticker symbol; bool has_invalid;
    std::map<u64, u64> seen;         // id -> 1, never handed out twice
    u64 submitted = 0, executed = 0, cancelled = 0;
    runner(pbt::Ctx &c, basic_book &b, const grid &g, bool has_invalid) : c(c), book(b), g(g), has_invalid(has_invalid) {}

    void state(const std::string &when)
    {
        auto bid = book.bid(), ask = book.ask();
        c.eq(bid.has_value(), !m.bids.empty(), "whether there is a best bid " + when); c.eq(ask.has_value(), !m.asks.empty(), "whether there is a best ask " + when);
        if(bid) { c.eq(cents(*bid), m.bids.front().price, "best bid " + when); c.check(bid->lot == g.lot && std::get<price>(bid->type).valuation == g.currency, "lot and currency of the best bid " + when); }
        if(ask) { c.eq(cents(*ask), m.asks.front().price, "best ask " + when); c.check(ask->lot == g.lot && std::get<price>(ask->type).valuation == g.currency, "lot and currency of the best ask " + when); }
        if(bid && ask) c.check(*bid < *ask, "the book is crossed " + when);
        auto v = book.orders(); auto want = m.ids();
        c.eq(v.size(), want.size(), "number of open orders " + when);
        c.check(std::set<u64>(v.begin(), v.end()) == want, "the open orders are not the resting ones " + when);
        u64 rest = 0; for(auto *x : {&m.bids, &m.asks}) for(auto &r : *x) rest += r.qty;
        c.eq(executed + rest + cancelled, submitted - executed, "quantity submitted = executed on both sides + resting + cancelled " + when);
    }
    // returns the reports of the operation
    std::vector<execution_report> take() { auto r = book.reports; book.reports.clear(); return r; }

    void insert(int s, i64 p, uint32_t q, int owner, limit_order::lifetime_t life)
    {
        NOTE("insert " << side(s) << " " << q << " @" << p << " owner " << owner << (life == limit_order::lifetime_t::good_until_cancelled ? "" : life == limit_order::lifetime_t::fill_or_kill ? " FOK" : " IOC"));
        book.insert(limit_order(symbol, who(owner), (limit_order::side_t)s, g.at(p), q, life));
        check_insert(s, p, q, owner, life, take());
    }
    void check_insert(int s, i64 p, uint32_t q, int owner, limit_order::lifetime_t life, const std::vector<execution_report> &got)
    {
        if(c.noting) for(auto &r : got) NOTE("   report " << sh(r));
        auto o = m.insert(s, p, q, owner, life); submitted += q; cancelled += o.cancelled;
        size_t k = 0; u64 matched = 0; std::string what = side(s) + " " + std::to_string(q) + " @" + std::to_string(p);
        for(auto &e : o.executions) {
            c.check(k + 1 < got.size() && got[k].state == execution_report::match && got[k + 1].state == execution_report::match, what + ": an execution of " + std::to_string(e.qty) + " @" + std::to_string(e.price) + " is not reported to both sides");
            bool first = got[k].identifier == basic_book::direct_order; const auto &t = first ? got[k] : got[k + 1], &r = first ? got[k + 1] : got[k];
            c.eq(t.identifier, basic_book::direct_order, what + ": identifier of the incoming order"); c.eq(r.identifier, e.maker_id, what + ": resting order executed");
            c.eq((u64)t.quantity, e.qty, what + ": quantity executed (incoming)"); c.eq((u64)r.quantity, e.qty, what + ": quantity executed (resting)");
            c.eq(cents(t.limit), e.price, what + ": price of the execution (incoming)"); c.eq(cents(r.limit), e.price, what + ": price of the execution (resting)");
            c.check(t.limit.lot == g.lot && std::get<price>(t.limit.type).valuation == g.currency, what + ": lot and currency of the execution");
            c.eq((int)t.side, s, what + ": side of the incoming report"); c.eq((int)r.side, 1 - s, what + ": side of the resting report");
            c.check(t.owner == who(e.taker), what + ": owner of the incoming report"); c.check(r.owner == who(e.maker), what + ": owner of the resting report");
            c.check(s == limit_order::buy ? cents(t.limit) <= p : cents(t.limit) >= p, what + ": executed at a price worse than its limit");
            k += 2; matched += e.qty; if(!m.ids().count(e.maker_id)) dead.push_back(e.maker_id); else ++n.partial;
        }
        executed += matched; n.trades += (int)o.executions.size(); n.multi += o.executions.size() > 1;
        if(o.rests) {
            c.check(k < got.size() && got[k].state == execution_report::placement, what + ": the remainder is not placed"); const auto &r = got[k]; ++k;
            c.eq((u64)r.quantity, o.rests, what + ": quantity placed"); c.eq(cents(r.limit), p, what + ": limit placed"); c.eq((int)r.side, s, what + ": side placed"); c.check(r.owner == who(owner), what + ": owner placed");
            c.check(r.identifier != basic_book::direct_order, what + ": a resting order has no identifier"); c.check(seen.emplace(r.identifier, 1).second, what + ": identifier " + std::to_string(r.identifier) + " was given before");
            m.place(r.identifier, s, p, o.rests, owner);
        } else if(o.cancelled) {
            ++n.killed;
            c.check(k < got.size() && got[k].state == execution_report::cancel, what + ": the remainder of an order that must not rest is not reported cancelled"); const auto &r = got[k]; ++k;
            c.eq((u64)r.quantity, o.cancelled, what + ": quantity cancelled"); c.eq(r.identifier, basic_book::direct_order, what + ": identifier of the cancelled remainder"); c.eq((int)r.side, s, what + ": side cancelled"); c.check(r.owner == who(owner), what + ": owner cancelled"); c.eq(cents(r.limit), p, what + ": limit cancelled");
        }
        c.eq(got.size(), k, what + ": number of reports"); c.eq(matched + o.rests + o.cancelled, (u64)q, what + ": conservation");
        state("after " + what);
    }
    void cancel(u64 id)
    {
        NOTE("cancel " << id); book.cancel(id); check_cancel(id, take());
    }
    void check_cancel(u64 id, const std::vector<execution_report> &got)
    {
        if(c.noting) for(auto &r : got) NOTE("   report " << sh(r));
        auto x = m.cancel(id); std::string what = "cancel " + std::to_string(id);
        if(x) {
            ++n.cancels; cancelled += x->qty; dead.push_back(id);
            c.eq(got.size(), (size_t)1, what + ": number of reports"); auto &r = got[0];
            c.check(r.state == execution_report::cancel, what + ": not reported as cancelled"); c.eq(r.identifier, id, what + ": identifier"); c.eq((u64)r.quantity, x->qty, what + ": quantity cancelled"); c.eq((int)r.side, x->side, what + ": side"); c.eq(cents(r.limit), x->price, what + ": limit"); c.check(r.owner == who(x->owner), what + ": owner");
        } else { ++n.dead_cancels; c.eq(got.size(), (size_t)0, what + " of an order that is not open: number of reports"); }
        state("after " + what);
    }
    void invalid(const limit_order &o, const std::string &what)
    {
        ++n.invalid; NOTE("insert invalid: " << what); book.insert(o); auto got = take();
        if(has_invalid) {
            c.eq(got.size(), (size_t)1, what + ": number of reports"); c.check(got[0].state == execution_report::invalid, what + " is not reported invalid: " + sh(got[0]));
            c.check(got[0].owner == o.owner && got[0].quantity == o.quantity && got[0].side == o.side && got[0].identifier == basic_book::direct_order, what + ": content of the report");
        } else for(auto &r : got) c.check(r.state == execution_report::invalid, what + ": " + sh(r));
        state("after " + what);
    }
    u64 any_id() { std::vector<u64> v; for(auto *x : {&m.bids, &m.asks}) for(auto &r : *x) v.push_back(r.id); std::sort(v.begin(), v.end()); return v.empty() ? 0 : v[c.below(v.size())]; }
    u64 some_dead_id()
    {
        if(!dead.empty() && c.below(4)) return c.flip() ? dead.back() : dead[c.below(dead.size())];
        u64 id = c.below(3) ? c.below(300) : basic_book::direct_order - c.below(3); return id;      // may be open: the model knows
    }
};
inline limit_order::lifetime_t life(pbt::Ctx &c) { auto k = c.below(6); return k < 4 ? limit_order::lifetime_t::good_until_cancelled : k == 4 ? limit_order::lifetime_t::immediate_or_cancel : limit_order::lifetime_t::fill_or_kill; }
inline uint32_t amount(pbt::Ctx &c) { auto k = c.below(12); return k < 8 ? 1 + (uint32_t)c.below(10) : k < 11 ? 1 + (uint32_t)c.below(1000) : 1 + (uint32_t)c.big(4294967294ull); }
inline iso_4217 currency(pbt::Ctx &c) { return c.pick(std::vector<iso_4217>{currencies::USD, currencies::JPY, currencies::BHD, currencies::EUR}); }
}
#endif
