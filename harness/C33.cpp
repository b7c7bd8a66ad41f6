// Positions of participants and market data subscriptions at an exchange.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp
// FLAGS: -fsanitize=address
#include <array>
#include <book_model.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/centralized_exchange.hpp>
using namespace bm;
typedef esl::simulation::time_point tp;
struct delay : esl::interaction::communication::latency_model { esl::simulation::time_duration d; explicit delay(esl::simulation::time_duration d) : d(d) {} esl::simulation::time_duration sample(const identity<agent> &, const identity<agent> &, std::seed_seq &) override { return d; } };
static std::vector<ticker> tickers(pbt::Ctx &c)
{
    std::vector<ticker> t; size_t n = 1 + c.few(4); std::set<std::pair<u64, u64>> seen;
    while(t.size() < n) { u64 x = c.below(3), y = c.below(3); if(!seen.emplace(x, y).second) { x = 10 + t.size(); y = 3; seen.emplace(x, y); } t.emplace_back(identity<law::property>({7, x}), identity<law::property>({7, y})); }
    return t;
}
struct bench {
    pbt::Ctx &c; std::vector<ticker> t; identity<centralized_exchange> self{{3, 4}}; centralized_exchange x; tp now, next; unsigned n = 0;
    bench(pbt::Ctx &c) : c(c), t((c.max_scale = 8, tickers(c))), x(self, t), now(c.moment(20)), next(now + 1) {}
    template<typename M> void deliver(std::shared_ptr<M> m) { next = now + 1 + c.below(5); std::seed_seq seed{1u, ++n}; m->recipient = esl::reinterpret_identity_cast<agent>(self); m->sent = m->received = now; x.inbox.insert({now, m}); x.outbox.clear(); auto e = x.process_messages({now, next}, seed); x.inbox.clear(); c.check(now <= e && e <= next, "next event outside the step"); }
};
PBT(positions, 40000, 1000000, "at least two participants are logged on at once and one logs out or logs on again")
{
    bench b(c); std::map<int, std::map<size_t, u64>> on; int again = 0; bool two = false; size_t used = 0; auto &x = b.x;
    ticker other(identity<law::property>({7, 77}), identity<law::property>({7, 78}));
    while(c.more(15, used, 100)) { ++used; int p = (int)c.few(4);
        if(c.below(3)) {
            auto m = std::make_shared<logon_message>(); m->sender = who(p); std::map<size_t, u64> want; std::ostringstream s;
            for(size_t i = 0; i < b.t.size(); ++i) { u64 q = c.flip() ? c.big() : 0; if(q || c.flip()) { m->supply[b.t[i]] = q; s << " " << i << ":" << q; } want[i] = q; }
            if(c.below(4) == 0) m->supply[other] = 5;
            NOTE("participant " << p << " logs on with" << s.str()); b.deliver(m); again += on.count(p); on[p] = want;
        } else { auto m = std::make_shared<logout_message>(); m->sender = who(p); NOTE("participant " << p << " logs out"); again += on.erase(p); b.deliver(m); }
        two |= on.size() > 1; c.eq(x.outbox.size(), (size_t)0, "messages sent");
        std::map<std::pair<size_t, int>, u64> want; for(auto &[q, v] : on) for(auto &[i, s] : v) want[{i, q}] = s; size_t count = 0;
        for(auto &[k, v] : x.positions) { auto i = std::find(b.t.begin(), b.t.end(), k); c.check(i != b.t.end(), "positions for an instrument that is not traded");
            for(auto &[a, r] : v) { ++count; c.check(a.digits.size() == 2, "owner"); auto w = want.find({(size_t)(i - b.t.begin()), (int)a.digits[1]}); c.check(w != want.end(), "position of participant " + a.representation(0) + " who is not logged on"); c.eq((u64)r.supply, w->second, "supply of participant " + a.representation(0)); c.eq((u64)r.bought, (u64)0, "bought"); c.eq((u64)r.sold, (u64)0, "sold"); } }
        c.eq(count, want.size(), "number of positions");
    }
    c.nontrivial(two && again);
}
PBT(report_arithmetic, 200000, 4000000, "bought and sold differ and are not zero")
{
    u64 s = c.big(), b = c.big(), d = c.below(4) ? c.big() : b; centralized_exchange::position_report r(s, b, d); NOTE(s << " " << b << " " << d); c.nontrivial(b != d && b && d);
    c.eq((u64)r.liquidity_provided(), std::min(b, d), "liquidity provided"); c.eq((u64)r.liquidity_taken(), b > d ? b - d : d - b, "liquidity taken"); c.check(r.supply == s && r.bought == b && r.sold == d, "fields");
}
PBT(market_data, 12000, 300000, "data was sent to at least two subscribers, some for a trade, and a subscription was cancelled")
{
    bench b(c); auto &x = b.x; grid g{currencies::USD, 100, 100, 1, 2 + (i64)c.below(6)}; esl::simulation::time_duration latency = 0;
    if(c.flip()) { latency = c.moment(100); x.communication_model = std::make_shared<delay>(latency); }
    std::vector<std::unique_ptr<runner>> run;
    for(auto &k : b.t) { std::shared_ptr<basic_book> q; if(c.flip()) q = std::make_shared<static_order_book>(g.at(g.lowest), g.at(g.tick((u64)g.count - 1)), 256); else q = std::make_shared<binary_tree_order_book>(); x.books.emplace(k, q); run.push_back(std::make_unique<runner>(c, *q, g, true)); run.back()->symbol = k; }
    std::vector<std::set<int>> subs(b.t.size()); int cancelled = 0, trades = 0; std::set<int> informed; size_t used = 0; NOTE(b.t.size() << " instruments, latency " << latency);
    while(c.more(40, used, 160)) {
        ++used; size_t k = c.below(b.t.size()); auto &r = *run[k];
        if(c.below(4) == 0) {
            auto m = std::make_shared<market_data_request_message>(); int p = 10 + (int)c.few(4); m->sender = who(p); m->type = c.below(3) ? market_data_request_message::stream : market_data_request_message::cancel; m->depth = (uint8_t)c.below(4);
            std::set<size_t> which; for(size_t i = 0; i < b.t.size(); ++i) if(c.flip()) { which.insert(i); m->instruments.push_back(b.t[i]); }
            NOTE("at " << b.now << " participant " << p << (m->type == market_data_request_message::stream ? " subscribes to" : " cancels") << PBT_STR(which.size()) << " instruments"); b.deliver(m); c.eq(x.outbox.size(), (size_t)0, "messages sent on a request");
            for(auto i : which) if(m->type == market_data_request_message::stream) subs[i].insert(p); else cancelled += (int)subs[i].erase(p);
        } else {
            int s = (int)c.below(2), owner = (int)c.below(3); i64 p = g.tick(c.below((u64)g.count)); uint32_t q = 1 + (uint32_t)c.below(9); auto l = life(c); auto m = std::make_shared<new_order_single_message>(); m->sender = who(owner); m->order_details = limit_order(b.t[k], who(owner), (limit_order::side_t)s, g.at(p), q, l);
            NOTE("at " << b.now << " instrument " << k << " insert " << side(s) << " " << q << " @" << p << " owner " << owner << " life " << (int)l);
            auto best = [&] { return std::make_tuple(r.m.bids.empty(), r.m.bids.empty() ? 0 : r.m.bids.front().price, r.m.asks.empty(), r.m.asks.empty() ? 0 : r.m.asks.front().price); }; auto before = best();
            b.deliver(m); std::vector<execution_report> v; std::map<int, std::vector<std::shared_ptr<market_data_message>>> data;
            for(auto &h : x.outbox) if(auto e = std::dynamic_pointer_cast<execution_report_message>(h)) v.push_back(e->report); else { auto d = std::dynamic_pointer_cast<market_data_message>(h); c.check(!!d, "an unexpected message was sent"); data[(int)d->recipient.digits.at(1)].push_back(d); }
            r.check_insert(s, p, q, owner, l, v); auto after = best(); bool traded = false; for(auto &e : v) traded |= e.state == execution_report::match; trades += traded && !subs[k].empty();
            std::multiset<std::pair<i64, u64>> executions; for(auto &e : v) if(e.state == execution_report::match) executions.emplace(cents(e.limit), e.quantity);
            if(traded || before != after) for(int w : subs[k]) c.check(data.count(w), "subscriber " + std::to_string(w) + " was not informed of " + (traded ? "a trade" : "a change of the best prices"));
            for(auto &[w, ms] : data) {
                c.check(subs[k].count(w), "participant " + std::to_string(w) + " was sent data on an instrument without a subscription"); informed.insert(w); std::multiset<std::pair<i64, u64>> told; std::set<std::pair<i64, u64>> kinds;
                for(auto &d : ms) { c.check(d->symbol == b.t[k], "instrument of the data"); c.check(d->sender.digits == b.self.digits, "sender of the data"); c.eq(d->sent, b.now, "time the data was sent"); c.eq(d->received, b.now + latency, "delivery time of the data");
                    c.eq(d->bid.size(), (size_t)!r.m.bids.empty(), "bids in the data"); c.eq(d->ask.size(), (size_t)!r.m.asks.empty(), "asks in the data"); if(!d->bid.empty()) c.eq(cents(d->bid[0].first), r.m.bids.front().price, "best bid in the data"); if(!d->ask.empty()) c.eq(cents(d->ask[0].first), r.m.asks.front().price, "best ask in the data");
                    for(auto &e : d->trades) { told.emplace(cents(e.first), e.second); kinds.emplace(cents(e.first), e.second); } }
                for(auto &e : told) c.check(executions.count(e) && told.count(e) <= executions.count(e), "data reports a trade that did not happen");
                for(auto &e : executions) c.check(kinds.count(e), "data omits a trade");
            }
        }
        b.now = b.next;
    }
    c.nontrivial(informed.size() >= 2 && trades && cancelled);
}
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
PBT(sessions, 12000, 300000, "logged-on participants buy and sell, a participant that is logged off trades too, and one logs off after trading")
{
    silence quiet; bench b(c); auto &x = b.x; grid g{currencies::USD, 100, 100, 1, 2 + (i64)c.below(6)}; bool log = c.flip();
    typedef decltype(x.output_orders)::element_type out_t; if(log) x.output_orders = std::make_unique<out_t>("orders", true);
    std::vector<std::unique_ptr<runner>> run;
    for(auto &k : b.t) { std::shared_ptr<basic_book> q; if(c.flip()) q = std::make_shared<static_order_book>(g.at(g.lowest), g.at(g.tick((u64)g.count - 1)), 256); else q = std::make_shared<binary_tree_order_book>(); x.books.emplace(k, q); run.push_back(std::make_unique<runner>(c, *q, g, true)); run.back()->symbol = k; }
    std::map<int, std::map<size_t, std::array<u64, 3>>> on; bool bought = false, sold = false, outside = false, left = false; size_t used = 0;
    typedef std::tuple<tp, size_t, i64, int, int, u64, int> line; std::vector<line> lines;
    while(c.more(40, used, 160)) {
        ++used; size_t k = c.below(b.t.size()); auto &r = *run[k]; int p = (int)c.below(4);
        switch(c.below(8)) {
        case 0: { auto m = std::make_shared<logon_message>(); m->sender = who(p); auto &v = on[p]; v.clear(); for(size_t i = 0; i < b.t.size(); ++i) { u64 q = c.below(20); if(q) m->supply[b.t[i]] = q; v[i] = {q, 0, 0}; } NOTE("participant " << p << " logs on"); b.deliver(m); break; }
        case 1: { auto m = std::make_shared<logout_message>(); m->sender = who(p); if(on.count(p)) for(auto &[i, v] : on[p]) left |= v[1] + v[2] > 0; on.erase(p); NOTE("participant " << p << " logs out"); b.deliver(m); break; }
        case 2: { u64 id = r.m.ids().empty() ? c.below(4) : r.any_id(); auto m = std::make_shared<cancel_order_message>(); m->sender = who(p); m->symbol = b.t[k]; m->order = id; NOTE("instrument " << k << " cancel " << id); b.deliver(m); std::vector<execution_report> v; for(auto &h : x.outbox) if(auto e = std::dynamic_pointer_cast<execution_report_message>(h)) v.push_back(e->report); r.check_cancel(id, v); break; }
        default: {
            int s = (int)c.below(2); i64 at = g.tick(c.below((u64)g.count)); uint32_t q = c.below(8) ? 1 + (uint32_t)c.below(9) : amount(c); auto l = life(c); auto m = std::make_shared<new_order_single_message>(); m->sender = who(p); m->order_details = limit_order(b.t[k], who(p), (limit_order::side_t)s, g.at(at), q, l);
            NOTE("at " << b.now << " instrument " << k << " insert " << side(s) << " " << q << " @" << at << " owner " << p << " life " << (int)l); b.deliver(m);
            std::vector<execution_report> v; for(auto &h : x.outbox) if(auto e = std::dynamic_pointer_cast<execution_report_message>(h)) v.push_back(e->report);
            r.check_insert(s, at, q, p, l, v);
            for(auto &e : v) {     // each side of an execution, the rest placed, the rest cancelled: as the reference model has confirmed
                int owner = (int)e.owner.digits.at(1);
                if(e.state == execution_report::match) { auto o = on.find(owner); if(o == on.end()) outside = true; else { o->second[k][e.side == limit_order::buy ? 1 : 2] += e.quantity; (e.side == limit_order::buy ? bought : sold) = true; } }
                if(owner == p) lines.emplace_back(b.now, k, cents(e.limit), owner, (int)e.side, e.quantity, (int)e.state);
            } }
        }
        size_t count = 0, want = 0; for(auto &[q, v] : on) want += v.size();
        for(auto &[t, v] : x.positions) { auto i = std::find(b.t.begin(), b.t.end(), t); c.check(i != b.t.end(), "positions for an instrument that is not traded"); size_t n = (size_t)(i - b.t.begin());
            for(auto &[a, e] : v) { ++count; int q = (int)a.digits.at(1); auto o = on.find(q); c.check(o != on.end(), "position of participant " + std::to_string(q) + " who is not logged on"); auto &w = o->second.at(n); std::string what = " participant " + std::to_string(q) + " of instrument " + std::to_string(n); c.eq((u64)e.supply, w[0], "supplied by" + what); c.eq((u64)e.bought, w[1], "bought by" + what); c.eq((u64)e.sold, w[2], "sold by" + what); } }
        c.eq(count, want, "number of positions");
        if(log) { auto &o = x.output_orders->values; c.eq(o.size(), lines.size(), "lines in the log of orders"); 
            for(size_t i = 0; i < o.size(); ++i) { auto &[when, y] = o[i]; auto t = std::find(b.t.begin(), b.t.end(), std::get<0>(y)); c.check(line((tp)when, (size_t)(t - b.t.begin()), cents(std::get<1>(y)), (int)std::get<2>(y).digits.at(1), (int)std::get<3>(y), std::get<4>(y), (int)std::get<5>(y)) == lines[i], "line " + std::to_string(i) + " of the log of orders"); } }
        b.now = b.next;
    }
    c.nontrivial(bought && sold && outside && left); c.label(log ? "orders logged" : "no log");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
