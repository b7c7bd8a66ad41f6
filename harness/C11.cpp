// Both order books agree; instruments do not interact; the exchange routes reports to the owners of the orders.
// SOURCES: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp
// FLAGS: -fsanitize=address
#include <book_model.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/matching_engine.hpp>
#include <esl/economics/markets/centralized_exchange.hpp>
using namespace bm;
typedef esl::simulation::time_point tp;

// ------------------------------------------------------------------ the two books
static std::string text(const execution_report &r, const std::map<u64, u64> &ids)
{
    static const char *st[] = {"invalid", "cancel", "match", "placement"}; std::ostringstream o; o << st[r.state & 3] << " " << side(r.side) << " " << r.quantity << " " << r.limit << " owner " << r.owner.representation(0) << " id ";
    if(r.identifier == basic_book::direct_order) o << "direct"; else { auto i = ids.find(r.identifier); o << (i == ids.end() ? "?" : std::to_string(i->second)); } return o.str();
}
PBT(books_agree, 16000, 400000, "at least three executions, one order meeting several resting orders, and a cancellation")
{
    c.max_scale = 8;     // the books hold a limited number of orders
    grid g{currency(c), 1, 1 + (i64)c.below(5000), 1, 2 + (i64)c.below(12)}; g.lot = g.currency.denominator * (uint32_t)c.pick(std::vector<u64>{1, 2, 10, 100});
    static_order_book a(g.at(g.lowest), g.at(g.tick((u64)g.count - 1)), 512); binary_tree_order_book b; std::map<u64, u64> ia, ib; std::vector<u64> ra, rb; int trades = 0, multi = 0, cancels = 0; size_t used = 0;
    NOTE("currency " << std::string(g.currency) << " lot " << g.lot << " prices from " << g.lowest << " count " << g.count);
    auto compare = [&](const char *what) {
        for(auto &r : a.reports) if(r.state == execution_report::placement) { ia[r.identifier] = ra.size(); ra.push_back(r.identifier); }
        for(auto &r : b.reports) if(r.state == execution_report::placement) { ib[r.identifier] = rb.size(); rb.push_back(r.identifier); }
        std::string x, y; int k = 0; for(auto &r : a.reports) { x += text(r, ia) + "; "; k += r.state == execution_report::match; } for(auto &r : b.reports) y += text(r, ib) + "; ";
        c.eq(x, y, std::string("reports of the tick-indexed book against those of the tree book after ") + what); trades += k / 2; multi += k > 2; a.reports.clear(); b.reports.clear();
        auto same = [&](auto p, auto q, const char *s) { c.check(p.has_value() == q.has_value() && (!p || *p == *q), std::string("best ") + s + " differs after " + what); };
        same(a.bid(), b.bid(), "bid"); same(a.ask(), b.ask(), "ask");
        std::multiset<u64> oa, ob; for(auto i : a.orders()) oa.insert(ia.at(i)); for(auto i : b.orders()) ob.insert(ib.at(i)); c.check(oa == ob, std::string("open orders differ after ") + what);
    };
    while(c.more(50, used, 400)) { ++used;
        if(c.below(6)) { auto s = (limit_order::side_t)c.below(2); limit_order o(ticker(), who((int)c.below(3)), s, g.at(g.tick(c.below((u64)g.count))), amount(c), life(c));
            NOTE("insert " << side(s) << " " << o.quantity << " @" << cents(o.limit) << " life " << (int)o.lifetime); a.insert(o); b.insert(o); compare("insert"); }
        else if(!ra.empty()) { u64 k = c.below(ra.size()); NOTE("cancel order " << k); ++cancels; a.cancel(ra[k]); b.cancel(rb[k]); compare("cancel"); }
    }
    // what rests is the same, order by order: sweep both books
    for(int s = 0; s < 2; ++s) { limit_order o(ticker(), who(9), (limit_order::side_t)s, g.at(s == limit_order::buy ? g.tick((u64)g.count - 1) : g.lowest), 4294967295u, limit_order::lifetime_t::immediate_or_cancel); a.insert(o); b.insert(o); compare("sweep"); }
    c.nontrivial(trades >= 3 && multi && cancels);
}
// ------------------------------------------------------------------ several instruments
static std::vector<ticker> tickers(pbt::Ctx &c)
{
    std::vector<ticker> t; size_t n = 2 + c.below(4); std::set<std::pair<u64, u64>> seen;
    while(t.size() < n) { u64 x = c.below(3), y = c.below(3); if(!seen.emplace(x, y).second) { x = 10 + t.size(); y = 3; seen.emplace(x, y); } t.emplace_back(identity<law::property>({7, x}), identity<law::property>({7, y})); }
    return t;
}
PBT(instruments, 16000, 400000, "orders of at least two instruments are executed")
{
    c.max_scale = 8;     // the books hold a limited number of orders
    auto t = tickers(c); bool fixed = c.flip(); grid g{currencies::USD, 100, 100, 1, 2 + (i64)c.below(6)};
    auto make = [&]() -> std::shared_ptr<basic_book> { if(fixed) return std::make_shared<static_order_book>(g.at(g.lowest), g.at(g.tick((u64)g.count - 1)), 256); return std::make_shared<binary_tree_order_book>(); };
    matching_engine e(make); std::vector<std::shared_ptr<basic_book>> alone; std::vector<std::vector<u64>> ids(t.size()); for(size_t i = 0; i < t.size(); ++i) alone.push_back(make());
    std::set<size_t> traded, used_books; size_t used = 0; NOTE((fixed ? "tick-indexed" : "tree") << " books, " << t.size() << " instruments");
    while(c.more(60, used, 220)) { ++used; size_t k = c.below(t.size());
        if(c.below(6)) { auto s = (limit_order::side_t)c.below(2); limit_order o(t[k], who((int)c.below(3)), s, g.at(g.tick(c.below((u64)g.count))), 1 + (uint32_t)c.below(9), life(c)); NOTE("instrument " << k << " insert " << side(s) << " " << o.quantity << " @" << cents(o.limit)); e.insert(o); used_books.insert(k); alone[k]->insert(o); for(auto &r : alone[k]->reports) if(r.state == execution_report::placement) ids[k].push_back(r.identifier); else if(r.state == execution_report::match) traded.insert(k); }
        else { u64 id = ids[k].empty() ? c.below(4) : ids[k][c.below(ids[k].size())]; NOTE("instrument " << k << " cancel " << id); e.cancel(t[k], id); alone[k]->cancel(id); }
        c.eq(e.books.size(), used_books.size(), "number of books");
        for(size_t i = 0; i < t.size(); ++i) {
            auto b = e.books.find(t[i]); c.eq(b != e.books.end(), (bool)used_books.count(i), "whether the instrument has a book"); if(b == e.books.end()) continue;
            c.check(b->second->reports == alone[i]->reports, "reports of instrument " + std::to_string(i) + " differ from those of its orders processed alone");
            c.check(b->second->orders() == alone[i]->orders() && b->second->bid() == alone[i]->bid() && b->second->ask() == alone[i]->ask(), "state of instrument " + std::to_string(i) + " differs from that of its orders processed alone");
            b->second->reports.clear(); alone[i]->reports.clear();
        }
    }
    c.nontrivial(traded.size() >= 2);
}
// ------------------------------------------------------------------ the exchange
struct delay : esl::interaction::communication::latency_model { esl::simulation::time_duration d; explicit delay(esl::simulation::time_duration d) : d(d) {} esl::simulation::time_duration sample(const identity<agent> &, const identity<agent> &, std::seed_seq &) override { return d; } };
PBT(exchange, 8000, 200000, "orders of at least two instruments are executed, between different owners")
{
    c.max_scale = 8;     // the books hold a limited number of orders
    auto t = tickers(c); bool fixed = c.flip(); grid g{currencies::USD, 100, 100, 1, 2 + (i64)c.below(6)}; identity<centralized_exchange> self({3, 4});
    centralized_exchange x(self, t); c.check(x.traded_properties == t, "traded instruments"); esl::simulation::time_duration latency = 0;
    if(c.flip()) { latency = c.below(4) ? c.below(100) : c.below(1000000); x.communication_model = std::make_shared<delay>(latency); }
    std::vector<std::unique_ptr<runner>> run; NOTE((fixed ? "tick-indexed" : "tree") << " books, " << t.size() << " instruments, latency " << latency);
    for(auto &k : t) { std::shared_ptr<basic_book> b; if(fixed) b = std::make_shared<static_order_book>(g.at(g.lowest), g.at(g.tick((u64)g.count - 1)), 256); else b = std::make_shared<binary_tree_order_book>(); x.books.emplace(k, b); run.push_back(std::make_unique<runner>(c, *b, g, true)); run.back()->symbol = k; }
    tp now = c.below(10); size_t used = 0; bool between = false; std::set<size_t> traded;
    while(c.more(40, used, 200)) {
        ++used; size_t k = c.below(t.size()); tp next = now + 1 + c.below(5); esl::simulation::time_interval step{now, next}; std::seed_seq seed{1, 2, (int)used}; auto &r = *run[k];
        auto deliver = [&](auto m) { m->recipient = esl::reinterpret_identity_cast<agent>(self); m->sent = now; m->received = now; x.inbox.insert({now, m}); x.outbox.clear(); auto e = x.process_messages(step, seed); x.inbox.clear(); c.check(now <= e && e <= next, "next event outside the step"); };
        auto reports = [&](const limit_order *o) {
            std::vector<execution_report> v; 
            for(auto &h : x.outbox) { auto m = std::dynamic_pointer_cast<execution_report_message>(h); c.check(!!m, "an unexpected message was sent"); v.push_back(m->report);
                c.check(m->recipient == m->report.owner, "report for " + m->report.owner.representation(0) + " was sent to " + m->recipient.representation(0)); c.check(m->sender.digits == self.digits, "sender of the report");
                c.eq(m->sent, now, "time the report was sent"); c.eq(m->received, now + latency, "delivery time of the report"); c.check(m->order.symbol == t[k], "instrument of the report"); if(o) c.check(m->order == *o, "order in the report"); }
            c.eq(r.book.reports.size(), (size_t)0, "reports left in the book after sending them"); return v; };
        switch(c.below(8)) {
        default: {
            int s = (int)c.below(2), owner = (int)c.below(3); i64 p = g.tick(c.below((u64)g.count)); uint32_t q = 1 + (uint32_t)c.below(9); auto l = life(c); auto m = std::make_shared<new_order_single_message>(); m->sender = who(owner); m->order_details = limit_order(t[k], who(owner), (limit_order::side_t)s, g.at(p), q, l);
            NOTE("at " << now << " instrument " << k << " insert " << side(s) << " " << q << " @" << p << " owner " << owner << " life " << (int)l); auto o = m->order_details; deliver(m); auto v = reports(&o);
            for(size_t i = 0; i + 1 < v.size(); ++i) if(v[i].state == execution_report::match) { traded.insert(k); between |= !(v[i].owner == who(owner)); }
            r.check_insert(s, p, q, owner, l, v); break; }
        case 5: { u64 id = r.m.ids().empty() ? c.below(4) : r.any_id(); auto m = std::make_shared<cancel_order_message>(); m->sender = who(0); m->symbol = t[k]; m->order = id; NOTE("at " << now << " instrument " << k << " cancel " << id); deliver(m); r.check_cancel(id, reports(nullptr)); break; }
        case 6: {    // an instrument that is not listed
            ticker other = t[k]; do { u64 a = c.below(6), b = c.below(6); other = ticker(identity<law::property>({a < 5 ? 7 : c.below(9), a < 3 ? a : 77}), c.flip() ? t[k].quote : identity<law::property>({7, b})); if(c.flip()) break; } while(std::find(t.begin(), t.end(), other) != t.end()); if(std::find(t.begin(), t.end(), other) != t.end()) other = ticker(identity<law::property>({6, 1}), t[k].quote); limit_order o(other, who(1), (limit_order::side_t)c.below(2), g.at(g.lowest), 5); NOTE("order for an instrument that is not listed"); x.outbox.clear();
            if(c.flip()) c.check(pbt::throws([&] { x.insert(o); }), "an order for an instrument that is not listed was accepted");
            else { auto m = std::make_shared<new_order_single_message>(); m->sender = who(1); m->order_details = o; c.check(pbt::throws([&] { x.insert_order(m, step, seed); }), "an order for an instrument that is not listed was accepted"); }
            c.eq(x.outbox.size(), (size_t)0, "messages for an order that is refused"); c.eq(x.books.size(), t.size(), "number of books"); auto m = std::make_shared<cancel_order_message>(); m->sender = who(1); m->symbol = other; m->order = r.m.ids().empty() || c.flip() ? c.below(4) : r.any_id(); deliver(m); c.eq(x.outbox.size(), (size_t)0, "messages for a cancellation on an instrument that is not listed"); break; }
        case 7: if(fixed) { auto m = std::make_shared<new_order_single_message>(); m->sender = who(1); m->order_details = limit_order(t[k], who(1), limit_order::buy, g.at(g.tick((u64)g.count - 1) + 1 + (i64)c.below(9)), 3); NOTE("order out of range"); auto o = m->order_details; deliver(m); auto v = reports(&o); c.eq(v.size(), (size_t)1, "reports of an order out of range"); c.check(v[0].state == execution_report::invalid, "order out of range is not reported invalid"); } break;
        }
        for(auto &q : run) q->state("(all instruments)");
        now = next;
    }
    c.nontrivial(traded.size() >= 2 && between); c.label(latency ? "with latency" : "no latency");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
