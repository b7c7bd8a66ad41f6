// Dispatch of messages to handlers.
// SOURCES: esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp
#include <pbt.hpp>
#include <esl/interaction/communicator.hpp>
#include <esl/interaction/message.hpp>
#include <esl/agent.hpp>
using namespace esl; using namespace esl::interaction; using namespace esl::simulation;
typedef uint64_t u64;
template<unsigned n> struct msg : message<msg<n>, (u64(1) << 62) | n> { u64 tag = 0; msg() = default; explicit msg(u64 t) : tag(t) {} using message<msg<n>, (u64(1) << 62) | n>::message; };
struct call { int handler; u64 tag; };
struct handler { int type; int priority; time_point result; };       // result: offset into the step

struct bench : communicator {
    std::vector<call> calls; std::vector<handler> handlers; time_interval expected{0, 1}; std::seed_seq *seed = nullptr; std::string wrong;
    explicit bench(scheduling s) : communicator(s) {}
    template<unsigned n> void add(int id)
    {
        this->register_callback<msg<n>>([this, id](std::shared_ptr<msg<n>> m, time_interval s, std::seed_seq &q) {
            if(!m) { wrong = "handler got no message"; return s.upper; }
            if(s.lower != expected.lower || s.upper != expected.upper) wrong = "handler got another step";
            if(&q != seed) wrong = "handler got another seed";
            calls.push_back({id, m->tag}); return std::min(expected.lower + handlers[id].result, expected.upper); }, (communicator::priority_t)handlers[id].priority, "test");
    }
    void add(int type, int id) { switch(type) { case 0: add<0>(id); break; case 1: add<1>(id); break; case 2: add<2>(id); break; case 3: add<3>(id); break; default: add<4>(id); } }
};
static std::shared_ptr<header> make(int type, u64 tag)
{
    std::shared_ptr<header> h; auto f = [&](auto m) { m->tag = tag; h = m; };
    switch(type) { case 0: f(std::make_shared<msg<0>>()); break; case 1: f(std::make_shared<msg<1>>()); break; case 2: f(std::make_shared<msg<2>>()); break; case 3: f(std::make_shared<msg<3>>()); break; default: f(std::make_shared<msg<4>>()); } return h;
}
static void dispatch_case(pbt::Ctx &c, size_t crowd)
{
    bool random = c.flip(); bench b(random ? communicator::random : communicator::in_order); NOTE((random ? "random" : "in order"));
    std::map<int, std::vector<int>> by_type; bool two = false; size_t n = c.few(8);
    for(size_t i = 0; i < n; ++i) { int p = c.flip() ? (int)c.range(-2, 2) : (int)c.range(-128, 127); handler h{(int)c.below(4), p, c.below(12)}; b.handlers.push_back(h); by_type[h.type].push_back((int)i); two |= by_type[h.type].size() > 1; NOTE("handler " << i << " type " << h.type << " priority " << p << " wants step start + " << h.result); }
    for(size_t i = 0; i < n; ++i) b.add(b.handlers[i].type, (int)i);
    time_point lo = c.below(4) ? c.below(20) : c.big(u64(1) << 62), up = lo + 1 + c.below(10); b.expected = {lo, up}; NOTE("step " << lo << " to " << up);
    struct in { int type; u64 tag; time_point due; }; std::vector<in> inbox; u64 tag = 1;
    while(crowd ? inbox.size() < crowd : c.more(6, inbox.size(), 40)) { int t = (int)c.below(5); time_point d = c.below(3) ? (lo > 3 ? lo - c.below(4) : lo) : lo + 1 + c.below(12); inbox.push_back({t, tag, d}); NOTE("message " << tag << " type " << t << " due " << d); b.inbox.insert({d, make(t, tag)}); ++tag; }
    std::stable_sort(inbox.begin(), inbox.end(), [](auto &x, auto &y) { return x.due < y.due; });
    std::vector<std::pair<time_point, communicator::message_t>> before(b.inbox.begin(), b.inbox.end());
    std::seed_seq seed{(unsigned)c.below(1000), 7u}; b.seed = &seed;
    time_point next = b.process_messages(b.expected, seed);
    c.check(b.wrong.empty(), b.wrong); c.check(b.outbox.empty(), "dispatching sent messages");
    c.check(before == std::vector<std::pair<time_point, communicator::message_t>>(b.inbox.begin(), b.inbox.end()), "dispatching changed the inbox");
    // expected: due messages with handlers, by priority of their most urgent handler, then in queue order
    std::map<int, std::vector<u64>, std::greater<int>> groups; size_t due = 0, later = 0; std::set<int> types; std::map<u64, int> type_of; time_point want = up;
    for(auto &m : inbox) { type_of[m.tag] = m.type; if(m.due > lo) { ++later; continue; } auto h = by_type.find(m.type); if(h == by_type.end()) continue; ++due; types.insert(m.type); int top = -1000; for(int i : h->second) { top = std::max(top, b.handlers[i].priority); want = std::min(want, lo + b.handlers[i].result); } groups[top].push_back(m.tag); }
    std::string got; for(auto &k : b.calls) got += std::to_string(k.tag) + ">" + std::to_string(k.handler) + " "; if(c.noting) NOTE("calls " << got);
    size_t at = 0;
    for(auto &[p, tags] : groups) {
        std::multiset<u64> seen;
        for(size_t k = 0; k < tags.size(); ++k) {
            c.check(at < b.calls.size(), "a due message was not dispatched; calls " + got); u64 t = b.calls[at].tag; seen.insert(t);
            if(!random) c.check(t == tags[k], "messages of priority " + std::to_string(p) + " are not handled in queue order; calls " + got);
            auto h = by_type[type_of[t]]; std::multiset<int> hs, want_h(h.begin(), h.end()); int last = 1000;
            for(size_t i = 0; i < h.size(); ++i, ++at) { c.check(at < b.calls.size() && b.calls[at].tag == t, "handlers of a message are missing or interleaved; calls " + got); int q = b.handlers[b.calls[at].handler].priority; c.check(q <= last, "handlers do not run in descending priority; calls " + got); last = q; hs.insert(b.calls[at].handler); }
            c.check(hs == want_h, "not exactly the registered handlers ran; calls " + got);
        }
        c.check(seen == std::multiset<u64>(tags.begin(), tags.end()), "not exactly the due messages of priority " + std::to_string(p) + " were handled; calls " + got);
    }
    c.eq(at, b.calls.size(), "number of handler calls"); c.eq(next, want, "next event");
    // the same seed gives the same order
    auto first = b.calls; b.calls.clear(); std::seed_seq again = [&] { std::vector<uint32_t> v(seed.size()); seed.param(v.begin()); return std::seed_seq(v.begin(), v.end()); }(); b.seed = &again; b.process_messages(b.expected, again);
    c.check(std::equal(first.begin(), first.end(), b.calls.begin(), b.calls.end(), [](auto &x, auto &y) { return x.handler == y.handler && x.tag == y.tag; }), "the same seed gave another order");
    c.nontrivial(due >= 3 && types.size() >= 2 && later && two); c.label(random ? "random" : "in order");
}
PBT(dispatch, 150000, 4000000, "at least three due messages of two types, one not due, and two handlers on one type") { dispatch_case(c, 0); }
PBT(crowds, 1500, 40000, "at least three due messages of two types, one not due, and two handlers on one type") { size_t n = 40 + (c.below(3) ? c.below(400) : c.below(3000)); dispatch_case(c, n); }
PBT(randomised_orders, 3000, 60000, "always: at least seven messages of equal priority")
{
    bench b(communicator::random); b.handlers.push_back({0, 0, 100}); b.add(0, 0); size_t n = 7 + c.few(10); for(u64 i = 0; i < n; ++i) b.inbox.insert({c.flip() ? 0 : 1, make(0, i)});
    b.expected = {1, 2}; std::set<std::vector<u64>> orders; unsigned s = (unsigned)c.draw(1u << 31); c.nontrivial(); NOTE(n << " messages, seeds from " << s);
    for(unsigned i = 0; i < 30; ++i) { std::seed_seq seed{s, i}; b.seed = &seed; b.calls.clear(); b.process_messages(b.expected, seed); std::vector<u64> o; for(auto &k : b.calls) o.push_back(k.tag); orders.insert(o); }
    c.check(orders.size() > 1, "thirty seeds all gave the same order of messages");
}
PBT(single_message, 150000, 4000000, "the message has at least two handlers and another type has one too")
{
    bench b(communicator::in_order); std::map<int, std::vector<int>> by_type; size_t n = c.few(8);
    for(size_t i = 0; i < n; ++i) { handler h{(int)c.below(3), (int)c.range(-3, 3), c.below(12)}; b.handlers.push_back(h); by_type[h.type].push_back((int)i); NOTE("handler " << i << " type " << h.type << " priority " << h.priority << " wants " << h.result); }
    for(size_t i = 0; i < n; ++i) b.add(b.handlers[i].type, (int)i);
    time_point lo = c.moment(100), up = lo + 1 + c.below(10); b.expected = {lo, up}; int t = (int)c.below(4); auto m = make(t, 5); std::seed_seq seed{1}; b.seed = &seed; NOTE("message type " << t << " step " << lo << " to " << up);
    auto next = b.process_message(m, b.expected, seed); auto h = by_type[t]; time_point want = up; std::multiset<int> hs; int last = 1000; c.check(b.wrong.empty(), b.wrong);
    for(int i : h) want = std::min(want, lo + b.handlers[i].result);
    for(auto &k : b.calls) { c.check(b.handlers[k.handler].type == t && k.tag == 5, "a handler of another type ran"); c.check(b.handlers[k.handler].priority <= last, "handlers do not run in descending priority"); last = b.handlers[k.handler].priority; hs.insert(k.handler); }
    c.check(hs == std::multiset<int>(h.begin(), h.end()), "not exactly the registered handlers ran"); c.eq(next, want, "next event"); c.nontrivial(h.size() > 1 && n > h.size());
}
PBT(sending, 200000, 4000000, "at least three messages to two recipients")
{
    bench b(c.flip() ? communicator::random : communicator::in_order); std::vector<std::pair<std::vector<u64>, time_point>> want; std::set<std::vector<u64>> rs; std::vector<std::shared_ptr<header>> made;
    while(c.more(4, want.size(), 30)) { std::vector<u64> r{c.below(3)}; while(c.below(3) == 0) r.push_back(c.below(3)); time_point d = c.big(); rs.insert(r);
        if(c.flip()) { auto m = b.create_message<msg<0>>(identity<agent>(r), d, (u64)want.size()); c.eq(m->tag, (u64)want.size(), "constructor argument"); c.eq((u64)m->type, (u64(1) << 62) | 0, "message code"); made.push_back(m); }
        else { auto m = make((int)c.below(5), want.size()); m->recipient = identity<agent>(r); m->received = d; b.send_message(m); made.push_back(m); }
        want.emplace_back(r, d); }
    c.nontrivial(want.size() >= 3 && rs.size() >= 2); c.eq(b.outbox.size(), want.size(), "messages in the outbox"); c.eq(b.inbox.size(), (size_t)0, "messages in the sender's inbox");
    for(size_t i = 0; i < want.size(); ++i) { c.check(b.outbox[i] == made[i], "message queued"); c.check(b.outbox[i]->recipient.digits == want[i].first, "recipient"); c.eq(b.outbox[i]->received, want[i].second, "delivery time"); }
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
