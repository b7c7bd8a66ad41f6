// Minimal property-based testing engine (choice-sequence based, in the manner of Hypothesis).
//
// A case is the finite sequence of bounded choices its generator drew.  A failing case is shrunk by
// deleting and lowering choices, each candidate being evaluated in a forked child so that crashes,
// assertion failures, sanitizer reports, hangs and memory exhaustion are ordinary failures.
//
//   PBT(name, quick_cases, thorough_cases, "rule: what makes a case non-trivial") { ... c.below(3) ... }
//   int main(int argc, char **argv) { return pbt::main(argc, argv); }
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <atomic>
#include <algorithm>
#include <array>
#include <chrono>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef COV
extern "C" void __gcov_dump(void);
#define PBT_EXIT (__gcov_dump(), _exit(0))
#else
#define PBT_EXIT _exit(0)
#endif
namespace pbt {

struct Discard {};
struct Failure { std::string msg; };

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for(unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
    return mix(h);
}

constexpr size_t MAX_CHOICES = 1u << 17;
constexpr size_t MAX_HASHES  = 1u << 21;
constexpr size_t MAX_SUBS    = 32;
constexpr size_t MAX_LABELS  = 160;

struct Label { char name[72]; uint64_t count; };

struct Slot {           // shared between a worker and the parent
    volatile uint64_t cur_case;
    volatile int cur_sub;
    volatile int running;         // a case is under way
    volatile uint64_t nchoices;
    volatile int status;          // 0 none 1 pass 2 fail 3 discard
    volatile int done;
    char msg[8192];
    uint64_t evals[MAX_SUBS], nontriv[MAX_SUBS], discards[MAX_SUBS];
    Label labels[MAX_LABELS];
    Label knowns[32];
    uint64_t nhash;
    double cpu;
    uint64_t sample_case[MAX_SUBS][4];
    uint64_t nsample[MAX_SUBS];
    uint64_t hashes[MAX_HASHES / 8];
    uint64_t choices[MAX_CHOICES];
};

inline void count_in(Label *arr, size_t n, const std::string &name)
{
    for(size_t i = 0; i < n; ++i) {
        if(arr[i].count == 0) { snprintf(arr[i].name, sizeof arr[i].name, "%s", name.c_str()); arr[i].count = 1; return; }
        if(!strncmp(arr[i].name, name.c_str(), sizeof(arr[i].name) - 1)) { ++arr[i].count; return; }
    }
}

struct Options {
    std::set<std::string> known;     // keys listed in the known-findings file for this property
};
inline Options &options() { static Options o; return o; }

class Ctx {
public:
    Slot *slot = nullptr;
    std::vector<uint64_t> replay;
    bool replaying = false;
    bool noting = false;
    uint64_t rng = 0;
    size_t pos = 0;
    bool is_nontrivial = false;
    uint64_t hash = 0xcbf29ce484222325ull;
    std::string notes;
    std::mutex mu;
    bool failed = false;
    std::string failmsg;
    std::vector<std::string> labels_, knowns_;

    // ------------------------------------------------------------------ choices
    uint64_t draw(uint64_t n)       // uniform in [0,n); n == 0 means the full 64-bit range
    {
        uint64_t v;
        if(replaying) {
            v = pos < replay.size() ? replay[pos] : 0;
        } else {
            rng += 0x9E3779B97F4A7C15ull;
            uint64_t x = rng;
            x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
            x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
            v = x ^ (x >> 31);
        }
        if(n) v = (replaying && v < n) ? v : v % n;
        if(pos < MAX_CHOICES) { slot->choices[pos] = v; slot->nchoices = pos + 1; }
        else throw Discard();
        ++pos;
        hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
        return v;
    }
    uint64_t below(uint64_t n) { return draw(n ? n : 1); }
    int64_t range(int64_t lo, int64_t hi)          // inclusive; shrinks toward lo
    {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
    }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // shrinks toward false
    bool flip() { return draw(2) == 1; }
    // list continuation; shrinks toward "stop".  One case in 64 has lists that are several times as long, one in 2048 many times.
    unsigned scale_ = 0, max_scale = 40;      // max_scale: lowered by properties whose cost grows fast with size
    unsigned scale() { if(!scale_) scale_ = draw(64) != 63 ? 1 : draw(32) != 31 || max_scale < 40 ? 8 : 40; return scale_; }
    bool more(unsigned average, size_t sofar, size_t cap)
    {
        unsigned k = scale();
        if(sofar >= cap * k) return false;
        return draw(average * k + 1) != 0;
    }
    uint64_t few(uint64_t n) { return below(n * scale()); }                                      // a number of things, usually below n
    uint64_t moment(uint64_t n) { return chance(1, 8) ? big(uint64_t(1) << 60) : below(n); }      // a point in time, usually below n
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template<class T, size_t N> const T &pick(const std::array<T, N> &v) { return v[below(N)]; }
    // any unsigned up to `max`, with emphasis on small values and boundaries
    uint64_t big(uint64_t max = UINT64_MAX)
    {
        uint64_t r;
        switch(draw(8)) {
        case 0: case 1: r = draw(17); break;
        case 2: r = draw(1001); break;
        case 3: r = draw(1000003); break;
        case 4: { unsigned b = static_cast<unsigned>(draw(64)); r = (1ull << b) + draw(3) - 1; break; }
        case 5: { uint64_t p = 1; for(uint64_t k = draw(20); k; --k) p *= 10; r = p + draw(3) - 1; break; }
        case 6: { unsigned b = static_cast<unsigned>(draw(64)) + 1; r = b >= 64 ? draw(0) : draw(1ull << b); break; }
        default: r = max - draw(4); break;
        }
        if(max != UINT64_MAX) r %= (max + 1);
        return r;
    }
    int64_t sbig(int64_t maxabs = INT64_MAX)
    {
        uint64_t m = big(static_cast<uint64_t>(maxabs));
        return flip() ? -static_cast<int64_t>(m) : static_cast<int64_t>(m);
    }
    double unit() { return static_cast<double>(draw(1ull << 53)) / static_cast<double>(1ull << 53); }
    double real(double maxabs)       // real with varied magnitude
    {
        double r;
        switch(draw(5)) {
        case 0: r = static_cast<double>(range(-8, 8)); break;
        case 1: r = static_cast<double>(range(-100000, 100000)) / 100.0; break;
        case 2: r = (2 * unit() - 1); break;
        case 3: r = (2 * unit() - 1) * maxabs; break;
        default: { r = (2 * unit() - 1) * std::pow(10.0, static_cast<double>(draw(13)) - 4); break; }
        }
        if(r > maxabs) r = maxabs;
        if(r < -maxabs) r = -maxabs;
        return r;
    }
    std::string str(const std::string &alphabet, size_t maxlen)
    {
        std::string s;
        uint64_t average = scale() == 1 ? 6 : std::max<size_t>(6, maxlen);
        while(s.size() < maxlen && draw(average + 1) != 0) s.push_back(alphabet[below(alphabet.size())]);
        return s;
    }
    std::string fixed(const std::string &alphabet, size_t len)
    {
        std::string s;
        for(size_t i = 0; i < len; ++i) s.push_back(alphabet[below(alphabet.size())]);
        return s;
    }

    // ------------------------------------------------------------------ verdicts
    [[noreturn]] void fail(const std::string &m)
    {
        flag(m);
        throw Failure{m};
    }
    void flag(const std::string &m)          // record a failure without throwing (any thread)
    {
        std::lock_guard<std::mutex> l(mu);
        if(!failed) { failed = true; failmsg = m; }
    }
    void check(bool ok, const std::string &m) { if(!ok) fail(m); }
    template<class A, class B> void eq(const A &got, const B &want, const std::string &what)
    {
        if(!(got == want)) {
            std::ostringstream s; s.precision(17);
            s << what << ": got " << got << ", expected " << want; fail(s.str());
        }
    }
    [[noreturn]] void discard() { throw Discard(); }
    void require(bool ok) { if(!ok) throw Discard(); }
    void nontrivial(bool b = true) { if(b) is_nontrivial = true; }
    void label(const std::string &l) { labels_.push_back(l); }
    // A deviation that matches a recorded known finding exactly.  Fails unless the finding is listed.
    void known(const std::string &key, const std::string &msg)
    {
        if(options().known.count(key)) { knowns_.push_back(key); if(noting) note("[known finding " + key + "] " + msg); return; }
        fail(msg);
    }
    bool is_known(const std::string &key) const { return options().known.count(key) != 0; }
    void note(const std::string &s) { if(noting) { std::lock_guard<std::mutex> l(mu); if(notes.size() < 200000) { notes += s; notes += '\n'; } } }
};

// expects `f` to throw an exception of a type derived from std::exception; returns true if it did
template<class F> bool throws(F &&f)
{
    try { f(); } catch(const Failure &) { throw; } catch(const Discard &) { throw; }
    catch(const std::exception &) { return true; }
    catch(...) { return true; }
    return false;
}
template<class E, class F> bool throws_a(F &&f)
{
    try { f(); } catch(const Failure &) { throw; } catch(const Discard &) { throw; }
    catch(const E &) { return true; }
    catch(...) { return false; }
    return false;
}

struct Sub {
    std::string name;
    uint64_t quick, thorough;
    std::string rule;
    void (*fn)(Ctx &);
    bool sched;     // depends on the thread schedule: a failure may need many replays
};
inline std::vector<Sub> &subs() { static std::vector<Sub> s; return s; }
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, const char *rule, void (*fn)(Ctx &), bool sched = false)
             { subs().push_back({n, q, t, rule, fn, sched}); } };

#define PBT(name, q, t, rule) \
    static void pbt_##name(pbt::Ctx &c); \
    static pbt::Reg pbt_reg_##name(#name, q, t, rule, pbt_##name); \
    static void pbt_##name([[maybe_unused]] pbt::Ctx &c)
#define PBT_SCHED(name, q, t, rule) \
    static void pbt_##name(pbt::Ctx &c); \
    static pbt::Reg pbt_reg_##name(#name, q, t, rule, pbt_##name, true); \
    static void pbt_##name([[maybe_unused]] pbt::Ctx &c)

#define PBT_STR(expr) ([&]{ std::ostringstream s_; s_.precision(17); s_ << expr; return s_.str(); }())
#define NOTE(expr) do { if(c.noting) { std::ostringstream s_; s_.precision(17); s_ << expr; c.note(s_.str()); } } while(0)

// -------------------------------------------------------------------------------- execution
struct Limits { double cpu = 20, wall = 120, blocked = 15; };
inline double now();

// Notices that every thread of a process sleeps and that none has used the processor for some seconds.
struct Watch {
    double since = 0; long used = 0;
    bool blocked(pid_t pid, double seconds)
    {
        std::string dir = "/proc/" + std::to_string(pid) + "/task"; long cpu = 0; bool idle = true;
        DIR *d = opendir(dir.c_str()); if(!d) return false;
        while(dirent *e = readdir(d)) {
            if(e->d_name[0] == '.') continue;
            std::ifstream f(dir + "/" + e->d_name + "/stat"); std::string s; std::getline(f, s);
            size_t p = s.rfind(')'); if(p == std::string::npos) { idle = false; continue; }
            char state = 0; long u = 0, k = 0;
            if(sscanf(s.c_str() + p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %ld %ld", &state, &u, &k) != 3) { idle = false; continue; }
            if(state != 'S') idle = false;
            cpu += u + k;
        }
        closedir(d);
        if(!idle || since == 0 || cpu - used > 20) { since = now(); used = cpu; return false; }
        return now() - since > seconds;
    }
};

inline void arm(const Limits &l)
{
    auto tv = [](double s) { itimerval t{}; t.it_value.tv_sec = static_cast<long>(s); t.it_value.tv_usec = static_cast<long>((s - std::floor(s)) * 1e6); return t; };
    itimerval a = tv(l.cpu), b = tv(l.wall);
    setitimer(ITIMER_PROF, &a, nullptr);
    setitimer(ITIMER_REAL, &b, nullptr);
}

inline std::string tname(const std::type_info &t)
{
    int st = 0; char *p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
    std::string r = (st == 0 && p) ? p : t.name(); free(p); return r;
}

inline int run_case(const Sub &s, Ctx &c)       // 1 pass, 2 fail, 3 discard
{
    int st = 1; std::string msg;
    try { s.fn(c); }
    catch(const Discard &) { st = 3; }
    catch(const Failure &f) { st = 2; msg = f.msg; }
    catch(const std::exception &e) { st = 2; msg = "unexpected exception " + tname(typeid(e)) + ": " + e.what(); }
    catch(...) { st = 2; msg = "unexpected exception of unknown type"; }
    if(c.failed) { st = 2; msg = c.failmsg; }
    if(st == 2) snprintf(c.slot->msg, sizeof c.slot->msg, "%s", msg.c_str());
    return st;
}

inline Slot *new_slot()
{
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Slot *>(p);
}

inline std::string &scratch() { static std::string s; return s; }

inline void quiet_child(const std::string &errfile)
{
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(e < 0) e = nul;
    dup2(e, 2);
    rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
    rlimit rf{1ul << 30, 1ul << 30}; setrlimit(RLIMIT_FSIZE, &rf);
    setpgid(0, 0);
    for(int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGALRM})
        if(sg == SIGPROF || sg == SIGALRM) signal(sg, SIG_DFL);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    rlimit as{6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &as);
#endif
}

inline std::string tail_of(const std::string &file, size_t n)
{
    std::ifstream f(file); std::stringstream b; b << f.rdbuf();
    std::string s = b.str();
    // for sanitizer reports the head is informative, otherwise the tail
    size_t p = s.find("ERROR: AddressSanitizer"); if(p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if(p == std::string::npos) p = s.find("runtime error:");
    if(p != std::string::npos) { size_t b0 = s.rfind('\n', p); s = s.substr(b0 == std::string::npos ? 0 : b0 + 1); if(s.size() > n) s.resize(n); return s; }
    if(s.size() > n) s = s.substr(s.size() - n);
    return s;
}

struct Outcome { int status; std::string msg; bool timeout = false; std::vector<uint64_t> used; std::string notes; };

inline std::string describe_death(int wst, const std::string &errfile, bool &timeout)
{
    std::string m;
    timeout = false;
    if(WIFSIGNALED(wst)) {
        int sg = WTERMSIG(wst);
        if(sg == SIGPROF) { m = "did not terminate within the processor-time limit of one case"; timeout = true; }
        else if(sg == SIGALRM) { m = "did not terminate within the time limit of one case (blocked)"; timeout = true; }
        else { m = std::string("killed by signal ") + strsignal(sg); }
    } else m = "process exited with code " + std::to_string(WEXITSTATUS(wst));
    std::string t = tail_of(errfile, 1500);
    if(!timeout && !t.empty()) m += " | stderr: " + t;
    return m;
}

// evaluate one choice sequence in a forked child
inline Outcome eval(const Sub &s, const std::vector<uint64_t> &choices, const Limits &lim, bool noting = false)
{
    static Slot *slot = new_slot();
    slot->status = 0; slot->nchoices = 0; slot->msg[0] = 0;
    std::string err = scratch() + "/eval.err", notef = scratch() + "/eval.notes";
    unlink(notef.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
        quiet_child(err);
        Ctx c; c.slot = slot; c.replay = choices; c.replaying = true; c.noting = noting;
        arm(lim);
        int st = run_case(s, c);
        slot->status = st;
        if(noting) { std::ofstream o(notef); o << c.notes; }
        PBT_EXIT;
    }
    int wst = 0; Watch watch; double looked = now();
    for(useconds_t nap = 50; waitpid(pid, &wst, WNOHANG) == 0; nap = std::min<useconds_t>(nap + nap / 4, 5000)) {
        usleep(nap);
        if(now() - looked > 0.5) { looked = now(); if(watch.blocked(pid, lim.blocked)) kill(pid, SIGALRM); }
    }
    kill(-pid, SIGKILL);                           // stray children of the case
    Outcome o; o.status = slot->status;
    if(o.status == 0) { o.status = 2; o.msg = describe_death(wst, err, o.timeout); }
    else if(o.status == 2) o.msg = slot->msg;
    uint64_t n = std::min<uint64_t>(uint64_t(slot->nchoices), MAX_CHOICES);
    o.used.assign(slot->choices, slot->choices + n);
    if(noting) { std::ifstream f(notef); std::stringstream b; b << f.rdbuf(); o.notes = b.str(); }
    return o;
}

inline double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline std::vector<uint64_t> shrink(const Sub &s, std::vector<uint64_t> best, bool timeout, double budget, std::string &msg)
{
    Limits lim; if(timeout) { lim.cpu = 5; lim.wall = 20; lim.blocked = 5; }
    double end = now() + budget;
    auto smaller = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b; };
    auto attempt = [&](const std::vector<uint64_t> &cand) {
        if(now() > end || cand == best) return false;
        Outcome o = eval(s, cand, lim);
        if(o.status != 2 || o.timeout != timeout) return false;
        std::vector<uint64_t> u = o.used.size() <= cand.size() ? o.used : cand;
        if(!smaller(u, best)) { if(smaller(cand, best)) u = cand; else return false; }
        best = u; msg = o.msg; return true;
    };
    bool progress = true;
    while(progress && now() < end) {
        progress = false;
        for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for(size_t i = best.size(); i-- > 0 && now() < end;) {
                if(i + len > best.size()) continue;
                std::vector<uint64_t> cand(best.begin(), best.begin() + static_cast<long>(i));
                cand.insert(cand.end(), best.begin() + static_cast<long>(i + len), best.end());
                if(attempt(cand)) { progress = true; }
                if(len > 8 && i >= len / 2) i -= len / 2 - 1;
            }
            if(len == 1) break;
        }
        for(size_t i = 0; i < best.size() && now() < end; ++i) {       // lower single values
            if(best[i] == 0) continue;
            auto cand = best; cand[i] = 0;
            if(attempt(cand)) { progress = true; continue; }
            uint64_t lo = 0, hi = best[i];
            for(int k = 0; k < 24 && lo + 1 < hi && i < best.size(); ++k) {
                uint64_t mid = lo + (hi - lo) / 2;
                cand = best; cand[i] = mid;
                if(attempt(cand)) { progress = true; if(i >= best.size()) break; hi = std::min(mid, best[i]); } else lo = mid;
            }
            if(i < best.size() && best[i] > 0) { cand = best; cand[i] -= 1; if(attempt(cand)) progress = true; }
        }
        for(size_t i = 0; i + 1 < best.size() && now() < end; ++i) {   // delete two-element records at distance
            if(best[i] == 0) continue;
            for(size_t w : {1, 2, 3, 4, 5}) {
                if(i + 1 + w > best.size()) break;
                auto cand = best; cand[i] -= 1;
                cand.erase(cand.begin() + static_cast<long>(i) + 1, cand.begin() + static_cast<long>(i + 1 + w));
                if(attempt(cand)) { progress = true; break; }
            }
        }
    }
    return best;
}

inline std::string json_str(const std::string &s)
{
    std::string r = "\"";
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
        else if(ch == '\n') r += "\\n";
        else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += static_cast<char>(ch);
    }
    return r + "\"";
}

struct Found { int sub; uint64_t case_no; std::vector<uint64_t> choices; std::string msg; bool timeout; };

inline int main(int argc, char **argv)
{
    std::string out, tier = "quick", replay_out, known, only, replay;
    uint64_t seed = 1; double cap = 300, scale = 1; unsigned jobs = 8; 
    for(int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if(k == "--out") out = v; else if(k == "--tier") tier = v; else if(k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if(k == "--replay-out") replay_out = v; else if(k == "--known") known = v; else if(k == "--cap") cap = atof(v.c_str());
        else if(k == "--jobs") jobs = static_cast<unsigned>(atoi(v.c_str())); else if(k == "--only") only = v;
        else if(k == "--scale") scale = atof(v.c_str()); else if(k == "--replay") replay = v;
        else if(k == "--scratch") scratch() = v;
    }
    if(scratch().empty()) { char t[] = "/tmp/pbtXXXXXX"; scratch() = mkdtemp(t); }
    { std::stringstream ks(known); std::string k; while(std::getline(ks, k, ',')) if(!k.empty()) options().known.insert(k); }
    auto &S = subs();

    if(!replay.empty()) {
        std::ifstream f(replay); std::string line, sub; std::vector<uint64_t> ch;
        while(std::getline(f, line)) {
            if(line.rfind("sub ", 0) == 0) sub = line.substr(4);
            if(line.rfind("choices", 0) == 0) { std::stringstream ss(line.substr(7)); uint64_t x; while(ss >> x) ch.push_back(x); }
        }
        for(auto &s : S) if(s.name == sub) {
            int n = s.sched ? 200 : 1; Outcome o;
            for(int k = 0; k < n; ++k) { o = eval(s, ch, Limits(), true); if(o.status == 2) break; }
            std::cout << o.notes;
            std::cout << (o.status == 2 ? "FAIL: " + o.msg : o.status == 3 ? "DISCARDED" : "PASS") << std::endl;
            return o.status == 2 ? 1 : 0;
        }
        std::cerr << "unknown sub-property " << sub << "\n"; return 2;
    }

    // the schedule of cases: sub-properties interleaved proportionally
    struct Todo { int sub; uint64_t n; };
    std::vector<Todo> todo; uint64_t total = 0;
    for(size_t i = 0; i < S.size(); ++i) {
        if(!only.empty() && S[i].name != only) continue;
        uint64_t n = static_cast<uint64_t>(static_cast<double>(tier == "quick" ? S[i].quick : S[i].thorough) * scale);
        if(n == 0) n = 1;
        todo.push_back({static_cast<int>(i), n}); total += n;
    }
    double t0 = now();
    std::vector<Slot *> slots(jobs);
    std::vector<pid_t> pids(jobs, -1);
    struct Shared { std::atomic<int> stop; };
    auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (sh) Shared(); sh->stop = 0;
    std::vector<std::pair<int, uint64_t>> from(jobs, {0, 0});   // next (todo index, case) per worker
    for(unsigned w = 0; w < jobs; ++w) { slots[w] = new_slot(); from[w] = {0, w}; }

    auto start = [&](unsigned w) {
        fflush(nullptr);
        pid_t pid = fork();
        if(pid) { setpgid(pid, pid); pids[w] = pid; return; }
        Slot *sl = slots[w];
        quiet_child(scratch() + "/worker" + std::to_string(w) + ".err");
        size_t t = static_cast<size_t>(from[w].first); uint64_t k = from[w].second;
        double armed = 0;
        for(; t < todo.size(); ++t, k = w) {
            const Sub &s = S[static_cast<size_t>(todo[t].sub)];
            uint64_t base = mix(seed * 0x100000001B3ull ^ hash_str(s.name));
            for(; k < todo[t].n; k += jobs) {
                if(sh->stop) { sl->done = 1; PBT_EXIT; }
                if(now() - t0 > cap * static_cast<double>(t + 1) / static_cast<double>(todo.size())) { count_in(sl->labels, MAX_LABELS, "time cap reached: " + s.name); break; }
                Ctx c; c.slot = sl; c.rng = mix(base + k * 0xD1342543DE82EF95ull);
                sl->cur_case = k; sl->cur_sub = static_cast<int>(t); sl->nchoices = 0; sl->msg[0] = 0; sl->status = 0; sl->running = 1;
                double n0 = now();
                if(n0 - armed > 1) { arm(Limits()); armed = n0; }
                int st = run_case(s, c);
                sl->running = 0; sl->status = st;
                if(st == 2) { sl->running = 2; PBT_EXIT; }
                int si = todo[t].sub;
                if(st == 3) { sl->discards[si]++; continue; }
                sl->evals[si]++;
                for(auto &l : c.labels_) count_in(sl->labels, MAX_LABELS, s.name + ": " + l);
                for(auto &l : c.knowns_) count_in(sl->knowns, 32, l);
                if(c.is_nontrivial) {
                    sl->nontriv[si]++;
                    if(sl->nhash < MAX_HASHES / 8) sl->hashes[sl->nhash++] = mix(c.hash ^ hash_str(s.name));
                    if(sl->nsample[si] < 4) sl->sample_case[si][sl->nsample[si]++] = k;
                }
            }
        }
        sl->done = 1; PBT_EXIT;
    };
    std::vector<Found> found; int unconfirmed = 0; std::vector<std::string> unconf_msgs;
    auto regen = [&](int t, uint64_t k) {   // choices of a generated case cannot be recomputed without running: replays use the record
        (void)t; (void)k; };
    (void)regen;
    for(unsigned w = 0; w < jobs; ++w) start(w);
    unsigned live = jobs;
    std::vector<Watch> watches(jobs); double looked = now();
    while(live) {
        int wst = 0; pid_t pid = waitpid(-1, &wst, WNOHANG);
        if(pid < 0) { if(errno == EINTR) continue; break; }
        if(pid == 0) {
            usleep(3000);
            if(now() - looked > 0.5) { looked = now(); for(unsigned w = 0; w < jobs; ++w) if(pids[w] > 0 && watches[w].blocked(pids[w], Limits().blocked)) kill(pids[w], SIGALRM); }
            continue;
        }
        unsigned w = 0; for(; w < jobs; ++w) if(pids[w] == pid) break;
        if(w == jobs) continue;
        pids[w] = -1; watches[w] = Watch();
        kill(-pid, SIGKILL);                       // stray children of the case
        Slot *sl = slots[w];
        if(sl->done) { --live; continue; }
        Found f; int t = sl->cur_sub; f.sub = todo[static_cast<size_t>(t)].sub; f.case_no = sl->cur_case; f.timeout = false;
        uint64_t n = std::min<uint64_t>(uint64_t(sl->nchoices), MAX_CHOICES);
        f.choices.assign(sl->choices, sl->choices + n);
        if(sl->running == 2) f.msg = sl->msg;
        else f.msg = describe_death(wst, scratch() + "/worker" + std::to_string(w) + ".err", f.timeout);
        // confirm: the recorded choices must fail again
        const Sub &s = S[static_cast<size_t>(f.sub)];
        int hits = 0;
        std::string lastmsg = f.msg;
        if(!s.sched) {
            for(int k = 0; k < 3; ++k) { Outcome o = eval(s, f.choices, Limits()); if(o.status == 2) { ++hits; lastmsg = o.msg; f.timeout = o.timeout; } }
        } else {
            double e = now() + 40;
            for(int k = 0; k < 400 && now() < e && hits < 3; ++k) { Outcome o = eval(s, f.choices, Limits()); if(o.status == 2) { ++hits; lastmsg = o.msg; f.timeout = o.timeout; } }
        }
        if((!s.sched && hits == 3) || (s.sched && hits >= 1)) { f.msg = lastmsg; found.push_back(f); sh->stop = 1; break; }
        else {
            ++unconfirmed; unconf_msgs.push_back(s.name + " case " + std::to_string(f.case_no) + ": " + f.msg.substr(0, 300));
            from[w] = {t, sl->cur_case + jobs};
            if(unconfirmed > 50 || sh->stop) { --live; sl->done = 1; } else start(w);
        }
    }
    for(unsigned w = 0; w < jobs; ++w) if(pids[w] > 0) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }    // a failure was found
    double t_explore = now() - t0;

    // aggregate
    uint64_t evals = 0, disc = 0; std::vector<uint64_t> hs;
    std::map<std::string, uint64_t> labels, knowns;
    std::vector<uint64_t> sub_ev(S.size()), sub_nt(S.size()), sub_di(S.size());
    for(auto *sl : slots) {
        for(size_t i = 0; i < S.size(); ++i) { sub_ev[i] += sl->evals[i]; sub_nt[i] += sl->nontriv[i]; sub_di[i] += sl->discards[i]; }
        for(auto &l : sl->labels) if(l.count) labels[l.name] += l.count;
        for(auto &l : sl->knowns) if(l.count) knowns[l.name] += l.count;
        hs.insert(hs.end(), sl->hashes, sl->hashes + sl->nhash);
    }
    for(size_t i = 0; i < S.size(); ++i) { evals += sub_ev[i]; disc += sub_di[i]; }
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());

    // samples: re-run some non-trivial generated cases with notes on
    std::vector<std::string> samples;
    for(size_t i = 0; i < todo.size() && samples.size() < 24; ++i) {
        const Sub &s = S[static_cast<size_t>(todo[i].sub)];
        int got = 0;
        for(auto *sl : slots) {
            if(got >= 2) break;
            if(!sl->nsample[todo[i].sub]) continue;
            uint64_t k = sl->sample_case[todo[i].sub][sl->nsample[todo[i].sub] - 1];
            uint64_t base = mix(seed * 0x100000001B3ull ^ hash_str(s.name));
            Slot *x = new_slot(); std::string nf = scratch() + "/sample.notes"; unlink(nf.c_str());
            fflush(nullptr);
            pid_t pid = fork();
            if(pid == 0) {
                quiet_child(scratch() + "/sample.err"); arm(Limits());
                Ctx c; c.slot = x; c.noting = true; c.rng = mix(base + k * 0xD1342543DE82EF95ull);
                run_case(s, c); std::ofstream o(nf); o << c.notes; o.close(); PBT_EXIT;
            }
            int wst; while(waitpid(pid, &wst, 0) < 0 && errno == EINTR) {}
            munmap(x, sizeof(Slot));
            std::ifstream f(nf); std::stringstream b; b << f.rdbuf(); std::string nt = b.str();
            if(nt.size() > 700) nt = nt.substr(0, 700) + "...";
            if(!nt.empty()) { samples.push_back("[" + s.name + " #" + std::to_string(k) + "] " + nt); ++got; }
        }
    }

    std::string violation;
    if(!found.empty()) {
        std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.choices.size() < b.choices.size(); });
        Found &f = found.front();
        const Sub &s = S[static_cast<size_t>(f.sub)];
        size_t before = f.choices.size();
        std::string m = f.msg;
        auto best = s.sched ? f.choices : shrink(s, f.choices, f.timeout, tier == "quick" ? 45 : 120, m);
        Outcome fin;
        for(int k = 0; k < (s.sched ? 200 : 1); ++k) { fin = eval(s, best, Limits(), true); if(fin.status == 2) break; }
        if(fin.status == 2) m = fin.msg;
        std::ofstream o(replay_out);
        o << "pbt-replay 1\nsub " << s.name << "\nmessage " << json_str(m) << "\nseed " << seed << " case " << f.case_no
          << "\noriginal-choices " << before << " shrunk-choices " << best.size() << "\nchoices";
        for(auto v : best) o << ' ' << v;
        o << "\n--- notes\n" << fin.notes;
        violation = s.name + ": " + m;
    }
    std::ofstream o(out);
    o << "{\n \"evaluations\": " << evals << ",\n \"distinct_nontrivial\": " << hs.size() << ",\n \"discarded\": " << disc
      << ",\n \"planned\": " << total << ",\n \"explore_s\": " << t_explore << ",\n \"unconfirmed\": " << unconfirmed;
    o << ",\n \"unconfirmed_messages\": ["; for(size_t i = 0; i < unconf_msgs.size(); ++i) o << (i ? ", " : "") << json_str(unconf_msgs[i]); o << "]";
    o << ",\n \"subs\": ["; bool first = true;
    for(auto &t : todo) { auto i = static_cast<size_t>(t.sub); o << (first ? "" : ", ") << "{\"name\": " << json_str(S[i].name) << ", \"evaluations\": " << sub_ev[i]
        << ", \"nontrivial\": " << sub_nt[i] << ", \"discarded\": " << sub_di[i] << ", \"rule\": " << json_str(S[i].rule) << "}"; first = false; }
    o << "],\n \"labels\": {"; first = true;
    for(auto &l : labels) { o << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
    o << "},\n \"known\": {"; first = true;
    for(auto &l : knowns) { o << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
    o << "},\n \"samples\": ["; first = true;
    for(auto &l : samples) { o << (first ? "" : ", ") << json_str(l); first = false; }
    o << "],\n \"violation\": " << (violation.empty() ? std::string("null") : json_str(violation)) << "\n}\n";
    return violation.empty() ? 0 : 1;
}

} // namespace pbt
#endif
