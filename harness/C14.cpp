// Delivery of messages by the model.
// SOURCES: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include <sim.hpp>
using namespace sim;
static bool is_message(const event &e) { return e.kind >= 0; }
static void delivery(pbt::Ctx &c, shape sh)
{
    program p = generate(c, sh); describe(c, p); options o; o.threads = c.below(3) ? 1 : 2 + (unsigned)c.below(4); o.drive = p.windows.empty() ? (int)c.below(3) : 0; NOTE(o.threads << " threads, drive " << o.drive);
    bench b(p); run(b, o); c.check(b.trouble().empty(), b.trouble()); auto r = rank(b); history w = reference(p, r);
    // independent of the reference: every message is processed by its recipient at max(sent, due), exactly once, when the recipient handles its type and lives until then
    std::map<u64, const message_record *> by_tag; for(auto &m : b.h.messages) c.check(by_tag.emplace(m.tag, &m).second, "internal: tags collide");
    std::map<u64, int> seen; size_t delayed = 0, self = 0, past = 0, got = 0;
    for(size_t i = 0; i < p.actors.size(); ++i) for(auto &e : b.h.log[i]) if(is_message(e)) {
        auto f = by_tag.find(e.tag); c.check(f != by_tag.end(), "a message was processed that nobody sent"); auto &m = *f->second; ++got;
        c.check(m.to == (int)i, PBT_STR("message from " << m.from << " to " << m.to << " was processed by " << i)); c.check(e.kind == m.type && e.sender == m.from && e.sent == m.sent && e.received == m.received, "a message arrived changed: " + show(e));
        c.check(++seen[e.tag] == 1, "a message was processed twice: " + show(e)); c.eq(e.time, std::max(m.sent, m.received), "time at which " + show(e) + " is processed"); delayed += m.received > m.sent; self += m.from == m.to; past += m.received < m.sent;
    }
    for(auto &m : b.h.messages) if(p.actors[m.to].on[m.type].handled && p.actors[m.to].dies < 0 && std::max(m.sent, m.received) < p.end) c.check(seen[m.tag] == 1, PBT_STR("a message from " << m.from << " to " << m.to << " sent " << m.sent << " due " << m.received << " was never processed"));
    for(size_t i = 0; i < p.actors.size(); ++i) { auto d = difference(b.h.log[i], w.log[i], is_message); c.check(d.empty(), PBT_STR("messages of agent " << i << ": " << d)); }
    auto key = [](const message_record &m) { return std::make_tuple(m.tag, m.from, m.to, m.type, m.sent, m.received); }; std::set<decltype(key(w.messages[0]))> A, B; for(auto &m : b.h.messages) A.insert(key(m)); for(auto &m : w.messages) B.insert(key(m)); c.check(A == B, "not the expected messages were sent");
    c.nontrivial(got >= 5 && delayed >= 2 && p.actors.size() >= 2); if(self) c.label("to oneself"); if(past) c.label("due before it was sent"); if(o.threads > 1) c.label("several threads"); if(got > 50) c.label("more than 50 messages");
}
PBT(programs, 50000, 1200000, "at least five messages processed, two of them delayed, among two agents") { delivery(c, shape{}); }
PBT(changing_population, 30000, 800000, "at least five messages processed, two of them delayed, among two agents") { shape s; s.population = true; delivery(c, s); }
PBT(large_programs, 6000, 150000, "at least five messages processed, two of them delayed, among two agents") { shape s; s.max_actors = 40; delivery(c, s); }
PBT(crowds, 1500, 40000, "at least five messages processed, two of them delayed, among two agents") { shape s; s.max_actors = 6; s.crowd = true; delivery(c, s); }
PBT(unknown_recipient, 10000, 200000, "the message is sent after at least one step")
{
    // a message for an agent that does not exist is reported, not dropped
    program p = generate(c, shape{}); p.windows.clear(); p.end = p.start + 60; bench b(p); computation::environment e; model m(e, b.parameters(1)); b.populate(m, 0); u64 t = p.start; size_t before = c.below(4), k = 0; for(; k < before && t < p.end; ++k) { b.populate(m, k + 1); t = m.step({t, p.end}); } c.require(t < p.end); c.nontrivial(k > 0);
    size_t from = c.below(p.actors.size()); auto digits = b.ids[c.below(p.actors.size())].digits; if(c.flip()) digits.push_back(1000 + c.below(5)); else digits.back() += 1000; b.actors[from]->create_message<msg<0>>(identity<agent>(digits), t + c.below(3), (u64)1, 0); NOTE("step " << k << " sender " << from);
    c.check(pbt::throws_a<std::exception>([&] { m.step({t, p.end}); }), "a message to an agent that does not exist was not reported");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
