// Creation, removal and activation of agents, and complete runs.
// SOURCES: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
// FLAGS: -fsanitize=address
#include <sim.hpp>
using namespace sim;
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
struct quiet : agent { std::vector<u64> acts; u64 every; quiet(identity<quiet> i, u64 e) : agent(identity<agent>(i.digits)), every(e) {} time_point act(time_interval s, std::seed_seq &) override { acts.push_back(s.lower); return every ? s.lower + every : s.upper; }
    bool locked() { struct nothing : interaction::message<nothing, (u64(3) << 60) | 99> {}; return pbt::throws_a<std::logic_error>([&] { register_callback<nothing>([](std::shared_ptr<nothing>, time_interval s, std::seed_seq &) { return s.upper; }, 0, "late"); }); } };
// histories of creation, removal, look-up, accounting and steps
PBT(population, 40000, 1000000, "an agent is removed after it acted, and another created later")
{
    u64 start = c.moment(5), end = start + 10 + c.below(60); computation::environment e; model m(e, parameter::parametrization(0, start, end, 0, c.below(4) ? 1 : 3)); struct rec { std::shared_ptr<quiet> a; bool alive; std::vector<u64> want; u64 wake; bool fresh; }; std::vector<rec> all; size_t pending_on = 0, pending_off = 0, again = 0; u64 t = start; bool removed_active = false, created_later = false; std::set<std::vector<u64>> ids;
    while(c.more(20, 0, 60)) switch(c.below(8)) {
        case 0: case 1: { u64 every = c.below(4) ? 1 + c.below(8) : 0; std::shared_ptr<quiet> a; size_t parent = c.below(all.size() + 1);
            if(parent < all.size()) { auto &p = *all[parent].a; a = m.create<quiet, agent>(p, u64(every)); c.check(a->identifier.digits.size() == p.identifier.digits.size() + 1 && std::equal(p.identifier.digits.begin(), p.identifier.digits.end(), a->identifier.digits.begin()), "the identity of a created agent does not extend its parent's"); }
            else a = m.create<quiet>(u64(every));
            NOTE("create " << a->identifier << " acting every " << every); c.check(ids.insert(std::vector<u64>(a->identifier.digits.begin(), a->identifier.digits.end())).second, "an identity was given twice"); c.check(a->locked(), "handlers can be registered after creation"); all.push_back({a, true, {}, t, true}); ++pending_on; created_later |= removed_active; break; }
        case 2: { std::vector<size_t> v; for(size_t i = 0; i < all.size(); ++i) if(all[i].alive) v.push_back(i); if(v.empty()) break; auto &r = all[v[c.below(v.size())]]; NOTE("remove " << r.a->identifier); m.agents.deactivate(r.a); r.alive = false; ++pending_off; removed_active |= !r.want.empty(); break; }
        case 7: { std::vector<size_t> v; for(size_t i = 0; i < all.size(); ++i) if(!all[i].alive) v.push_back(i); if(v.empty()) break; auto &r = all[v[c.below(v.size())]]; NOTE("remove " << r.a->identifier << " again"); m.agents.deactivate(r.a); ++again; break; }
        case 3: { NOTE("activate"); c.eq(e.activate(), pending_on, "number of agents activated"); pending_on = 0; break; }
        case 4: { NOTE("deactivate"); { size_t got = e.deactivate(); c.check(got >= pending_off && got <= pending_off + again, PBT_STR("number of agents deactivated: got " << got << ", expected " << pending_off)); } pending_off = again = 0; break; }
        case 5: if(!all.empty()) { auto d = all[c.below(all.size())].a->identifier.digits; if(c.flip()) d.push_back(500 + c.below(3)); auto got = m.agents[identity<agent>(d)]; std::shared_ptr<agent> want; for(auto &r : all) if(r.alive && r.a->identifier.digits == d) want = r.a; NOTE("look up " << identity<agent>(d)); c.check(got == want, want ? "an agent is not found by its identity" : "an agent is found that is not in the model"); break; } break;
        default: { if(t >= end) break; u64 next = end; for(auto &r : all) if(r.alive) { if(r.fresh || r.wake <= t) { r.want.push_back(t); r.wake = r.a->every ? t + r.a->every : end; r.fresh = false; } next = std::min(next, r.wake); }
            bool env = c.flip(); NOTE((env ? "environment step at " : "step at ") << t); u64 got; if(env) { e.step(m); got = m.time; pending_on = pending_off = again = 0; } else got = m.step({t, end}); c.eq(got, next, "time after the step"); t = next;
            for(auto &r : all) c.check(r.a->acts == r.want, PBT_STR("agent " << r.a->identifier << (r.alive ? "" : " (removed)") << " acted " << r.a->acts.size() << " times, expected " << r.want.size())); }
    }
    std::set<std::vector<u64>> want; for(auto &r : all) if(r.alive) want.insert(std::vector<u64>(r.a->identifier.digits.begin(), r.a->identifier.digits.end())); std::multiset<std::vector<u64>> local, global; for(auto &[i, a] : m.agents.local_agents_) { local.insert(std::vector<u64>(i.digits.begin(), i.digits.end())); c.check(a && a->identifier.digits == i.digits, "an agent is filed under another identity"); } for(auto &i : m.agents.global_agents_) global.insert(std::vector<u64>(i.digits.begin(), i.digits.end()));
    c.check(local == std::multiset<std::vector<u64>>(want.begin(), want.end()) && global == local, "the model's agents are not those created and not removed"); c.nontrivial(removed_active && created_later);
}
// many agents at once
PBT(multitudes, 60, 1500, "more than two hundred agents, some of them removed")
{
    u64 start = c.moment(5), end = start + 6; computation::environment e; model m(e, parameter::parametrization(0, start, end, 0, c.below(3) ? 1 : 4)); size_t n = 60 + (c.below(3) ? c.below(400) : c.below(2500)), d = 0; std::vector<std::shared_ptr<quiet>> v; u64 mod = 2 + c.below(9), keep = c.below(mod); bool same = c.flip(), nested = c.flip(); NOTE(n << " agents, those whose number is not " << keep << " modulo " << mod << (same ? " stay" : " are removed") << (nested ? ", some created by others" : ""));
    for(size_t i = 0; i < n; ++i) { std::shared_ptr<quiet> a; if(nested && i % 7 == 6) { auto &p = *v[i / 2]; a = m.create<quiet, agent>(p, u64(1)); } else a = m.create<quiet>(u64(1)); v.push_back(a); } c.eq(e.activate(), n, "number of agents activated"); u64 t = m.step({start, end}); c.eq(t, start + 1, "time after the step");
    std::vector<char> gone(n, 0); for(size_t i = 0; i < n; ++i) if((i % mod == keep) == same) { m.agents.deactivate(v[i]); gone[i] = 1; ++d; } c.eq(e.deactivate(), d, "number of agents deactivated"); c.eq(e.deactivate(), (size_t)0, "number of agents deactivated again"); c.nontrivial(n > 200 && d);
    m.step({t, end}); for(size_t i = 0; i < n; ++i) { c.eq(v[i]->acts.size(), (size_t)(gone[i] ? 1 : 2), PBT_STR("acts of agent " << i << (gone[i] ? ", removed," : "") << " of " << n)); auto f = m.agents[identity<agent>(v[i]->identifier.digits)]; c.check(gone[i] ? !f : f == v[i], gone[i] ? "a removed agent is found" : "an agent is not found by its identity"); } c.eq(m.agents.local_agents_.size(), n - d, "agents in the model"); c.eq(m.agents.global_agents_.size(), n - d, "agents known to the model");
}
// removal of agents leaves the others exactly as they would be with the removed agent silent
PBT(removal_is_local, 12000, 300000, "an agent that acted is removed while others go on")
{
    shape s; s.population = true; program p = generate(c, s); p.windows.clear(); size_t n = p.actors.size(); c.require(n >= 2); int victim = (int)c.below(n);
    for(auto &a : p.actors) { for(auto &r : a.script) r.sends.erase(std::remove_if(r.sends.begin(), r.sends.end(), [&](auto &x) { return x.to == victim; }), r.sends.end()); for(auto &r : a.on) r.sends.erase(std::remove_if(r.sends.begin(), r.sends.end(), [&](auto &x) { return x.to == victim; }), r.sends.end()); if(&a != &p.actors[victim]) a.parent = a.parent == victim ? -1 : a.parent; }
    p.actors[victim].script.clear(); for(auto &r : p.actors[victim].on) r.sends.clear(); p.actors[victim].born = 0; p.actors[victim].dies = -1; program q = p; q.actors[victim].dies = (i64)c.below(8); describe(c, q); NOTE("agent " << victim << " is removed in one run only");
    bench a(p), b(q); run(a, {}); run(b, {}); c.check(a.trouble().empty() && b.trouble().empty(), a.trouble() + b.trouble()); for(size_t i = 0; i < n; ++i) if((int)i != victim) { auto d = difference(b.h.log[i], a.h.log[i], [](auto &) { return true; }); c.check(d.empty(), PBT_STR("removing agent " << victim << " changed agent " << i << ": " << d)); }
    auto &l = b.h.log[victim]; size_t k = (size_t)q.actors[victim].dies; if(k < b.h.steps.size()) for(auto &e : l) c.check(e.time < b.h.steps[k], "a removed agent still acts"); c.nontrivial(b.h.steps.size() > k + 2 && k > 0);
}
// complete runs
struct hooked : model { std::vector<std::string> calls; std::vector<u64> times; bench *b = nullptr; int more = 0; using model::model;
    void initialize() override { calls.push_back("initialize"); times.push_back(time); if(b) b->populate(*this, 0); }
    void terminate() override { calls.push_back("terminate"); times.push_back(time); }
    time_point step(time_interval s) override { calls.push_back("step"); times.push_back(s.lower); if(s.upper != end) calls.push_back("window"); return model::step(s); } };
// an environment that records when its hooks are called
struct watched : computation::environment { std::string said; void before_step() override { said += "<"; computation::environment::before_step(); } void after_step(simulation::model &m) override { said += ">"; computation::environment::after_step(m); } void after_run(simulation::model &m) override { said += "."; computation::environment::after_run(m); } };
PBT(complete_runs, 25000, 600000, "at least three steps and two agents")
{
    program p = generate(c, shape{}); p.windows.clear(); describe(c, p); bench b(p); auto e = std::make_unique<watched>(); hooked m(*e, b.parameters(c.below(3) ? 1 : 4)); m.b = &b; size_t early = c.below(3); for(size_t i = 0; i < early; ++i) m.create<quiet>(u64(0)); NOTE(early << " agents created before the run");
    { silence s; e->run(m); } c.check(b.trouble().empty(), b.trouble()); b.collect(); history w = reference(p, rank(b));
    c.check(m.calls.size() >= 3 && m.calls.front() == "initialize" && m.calls.back() == "terminate", "a run does not start with initialisation and end with termination"); for(size_t i = 1; i + 1 < m.calls.size(); ++i) c.eq(m.calls[i], std::string("step"), "call " + std::to_string(i) + " of the run");
    std::vector<u64> steps(m.times.begin() + 1, m.times.end() - 1); steps.push_back(m.time); c.check(steps == w.steps, "the run does not step through exactly the times with events"); c.eq(steps.front(), p.start, "start of the run"); c.eq(m.time, p.end, "end of the run"); c.eq(m.times.back(), p.end, "time at termination");
    for(size_t i = 0; i < p.actors.size(); ++i) { auto d = difference(b.h.log[i], w.log[i], [](auto &) { return true; }); c.check(d.empty(), PBT_STR("agent " << i << " in a complete run: " << d)); } c.eq(e->activate(), (size_t)0, "agents left to activate"); c.eq(e->deactivate(), (size_t)0, "agents left to deactivate"); c.eq(m.messages_sent, b.h.messages.size(), "messages counted"); std::string said; for(size_t i = 2; i < m.calls.size(); ++i) said += "<>"; c.eq(e->said, said + ".", "hooks of the environment called, before (<) and after (>) each step and after the run (.)"); c.nontrivial(w.steps.size() >= 4 && p.actors.size() >= 2);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
