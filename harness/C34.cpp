// The log.
// SOURCES: esl/data/channel.cpp esl/data/output_base.cpp
// FLAGS: -fsanitize=thread
#include <thread>
#include <pbt.hpp>
#include <esl/data/log.hpp>
using namespace esl; using namespace esl::data;
typedef uint64_t u64; typedef int64_t i64;
template<severity f> struct journal : data::log<f> { journal() : data::log<f>("journal") {} std::string text() const { return this->buffer_.str(); } };
static const char *label[] = {"trace", "notice", "warning", "error"};
static const char *files[] = {"/x/esl/agent.cpp", "/x/esl/data/log.cpp", "/esl/y/esl/b.cpp", "/x/y/c.cpp", "d.cpp", "esl/e.cpp", "/z/esl.cpp"}, *shown[] = {"agent.cpp", "data/log.cpp", "b.cpp", "c.cpp", "d.cpp", "e.cpp", "esl.cpp"};
template<severity f> static void write(pbt::Ctx &c, journal<f> &j, std::string &want, int level, bool &below, bool &above)
{
    int where = c.below(3) ? (int)c.below(7) : -1; unsigned line = (unsigned)c.below(c.chance(1, 8) ? 1000000 : 10000); i64 v = c.sbig(INT64_MAX); auto s = c.str("abc (), %s", c.chance(1, 8) ? 300 : 8); int end = (int)c.below(3); bool direct = c.below(4) == 0; std::vector<i64> l{v, 1};
    NOTE(label[level] << " " << s << v << (direct ? " chosen when running" : "") << (where < 0 ? "" : files[where])); bool kept = level >= (int)f; (kept ? above : below) = true; if(kept && !direct) want += std::string("(") + label[level] + (where < 0 ? "" : std::string(", ") + shown[where] + "[" + std::to_string(line) + "]") + ") "; if(kept) want += s + std::to_string(v) + "[" + std::to_string(v) + ", 1]" + (end == 0 ? "" : "\n");
    auto go = [&](channel k) { k << s << v << l; if(end == 1) k << std::endl; if(end == 2) k << channel::endl; c.eq((int)k.level, level, "level of the channel"); }; auto file = where < 0 ? nullptr : files[where]; if(direct) go(j.get((severity)level)); else switch(level) { case 0: go(j.template get<trace>("f", file, line)); break; case 1: go(j.template get<notice>("f", file, line)); break; case 2: go(j.template get<warning>("f", file, line)); break; default: go(j.template get<errorlog>("f", file, line)); }
}
template<severity f> static void run(pbt::Ctx &c) { NOTE("threshold " << label[f]); journal<f> j; std::string want; bool below = false, above = false; int n = 0; c.check(j.name == "journal" && j.text().empty(), "a new log is not empty"); while(c.more(6, 0, 25)) { write<f>(c, j, want, (int)c.below(4), below, above); c.eq(j.text(), want, "text of the log"); ++n; } c.nontrivial(n >= 3 && above && (below || f == trace)); }
PBT(messages, 60000, 1500000, "three messages, some kept and some dropped (none dropped at the lowest threshold)") { switch(c.below(4)) { case 0: run<trace>(c); break; case 1: run<notice>(c); break; case 2: run<warning>(c); break; default: run<errorlog>(c); } }
PBT(labels, 100, 400, "always") { for(int i = 0; i < 4; ++i) c.eq(PBT_STR((severity)i), std::string(label[i]), "label"); null_ostream n; n << c.str("abc", 5) << 5 << 'x' << std::endl; c.check(n.good(), "the stream that ignores everything fails"); c.nontrivial(); }
PBT_SCHED(threads, 1500, 25000, "two threads with at least three messages each")
{
    journal<warning> j; size_t n = 1 + c.below(6), k = c.below(12); NOTE(n << " threads, " << k << " messages each"); std::vector<std::thread> t; for(size_t i = 0; i < n; ++i) t.emplace_back([&, i] { for(size_t m = 0; m < k; ++m) { std::string s = "<" + std::to_string(i) + ":" + std::to_string(m) + ">"; channel a = j.get(warning); if(m % 3 == 2) j.get(notice) << "<lost>"; a << s; if(m % 4 == 1) a << channel::endl; } }); for(auto &x : t) x.join();
    std::string s = j.text(); std::map<size_t, size_t> next; size_t lines = 0, i = 0, total = 0; while(i < s.size()) { if(s[i] == '\n') { ++lines; ++i; continue; } size_t e = s.find('>', i); if(s[i] != '<' || e == std::string::npos) c.fail("messages are mixed: " + s); size_t who = 0, what = 0; if(sscanf(s.c_str() + i, "<%zu:%zu>", &who, &what) != 2 || who >= n) c.fail("messages are mixed: " + s); c.eq(what, next[who], "next message of a thread"); ++next[who]; ++total; i = e + 1; } c.eq(total, n * k, "messages in the log"); size_t w = 0; for(size_t m = 0; m < k; ++m) w += m % 4 == 1; c.eq(lines, w * n, "lines in the log"); c.nontrivial(n >= 2 && k >= 3);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
