// Bounded-exhaustive explorer (stateless model checking of the real code).
//
// A *scenario* is a deterministic function of a choice sequence.  The explorer
// enumerates every choice sequence by depth-first search, sharded over forked
// workers, and executes the real implementation on each of them.  A violation
// (oracle mismatch, escaped exception, crash, assertion, hang, memory blow-up)
// is confirmed by replaying it in a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc
{

constexpr int MAXCH = 4096;   // longest choice sequence
constexpr int MAXMSG = 8192;
constexpr int MAXSCEN = 128;
constexpr int MAXKNOWN = 16;

struct Fail { std::string msg; };
struct Skip {};      // other worker's shard
struct Prune {};     // execution ended early, not a violation
struct Diverge { std::string msg; };

inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
inline uint64_t hstr(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
//! canonical hash of a real number: 10 significant digits
inline uint64_t hdbl(double d)
{
    char b[40];
    if (d == 0) d = 0;
    snprintf(b, sizeof b, "%.9e", d);
    return hstr(b);
}

struct Stats
{
    uint64_t execs = 0, pruned = 0, steps = 0, validated = 0, states_seen = 0;
};

struct Known { char key[64]; char desc[400]; uint64_t n; };

struct Slot // one per worker, in shared memory
{
    volatile uint64_t beat;
    volatile int scen;
    volatile int nch;
    int ch[MAXCH];
    int state; // 0 running, 1 done, 2 failed, 3 harness error
    char msg[MAXMSG];
    Stats st[MAXSCEN];
    int nknown;
    Known known[MAXKNOWN];
};

inline std::ostringstream& traceText()
{
    static std::ostringstream o;
    return o;
}
inline void traceLine(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    traceText() << "  " << buf << "\n";
}
[[noreturn]] inline void failNow(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    throw Fail {buf};
}

class Ctx
{
  public:
    bool tracing = false;
    bool thorough = false;

    //! nondeterministic choice in 0..n-1
    int choose(int n, const char* label = "")
    {
        if (n <= 0) throw Prune {};
        int c;
        if (_replay)
        {
            if (_pos >= (int)_path.size())
                throw Diverge {"replay: too few choices"};
            c = _path[_pos].first;
            if (c >= n) throw Diverge {"replay: choice out of range"};
        }
        else
        {
            if (_pos == _shardDepth && (_prefix % _W) != (uint64_t)_w)
                throw Skip {};
            if (_pos < (int)_path.size())
            {
                if (_path[_pos].second != n)
                    throw Diverge {fmt("choice %d (%s) had %d alternatives, "
                        "now %d", _pos, label, _path[_pos].second, n)};
            }
            else
            {
                if (_pos >= MAXCH) throw Diverge {"too many choices"};
                _path.push_back({0, n});
            }
            c = _path[_pos].first;
        }
        if (_slot)
        {
            _slot->ch[_pos] = c;
            _slot->nch = _pos + 1;
        }
        if (tracing) _trace << "  choice " << label << " = " << c << "/" << n << "\n";
        ++_pos;
        return c;
    }
    template <typename T>
    const T& pick(const std::vector<T>& v, const char* label = "")
    {
        return v[choose((int)v.size(), label)];
    }
    bool flag(const char* label = "") { return choose(2, label) != 0; }
    int range(int lo, int hi, const char* label = "")
    {
        return lo + choose(hi - lo + 1, label);
    }

    //! a visited implementation state (canonical hash)
    void state(uint64_t h)
    {
        ++st.states_seen;
        if (_states.size() < 4000000) _states.insert(mix(h, _scenHash));
    }
    //! call(s) made on the real implementation
    void step(uint64_t n = 1) { st.steps += n; }
    //! observations compared with the reference
    void ok(uint64_t n = 1) { st.validated += n; }

    [[noreturn]] void fail(const char* f, ...)
    {
        char buf[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        throw Fail {buf};
    }
    //! for the macro MUST(): counts the comparison
    bool good(bool cond)
    {
        ++st.validated;
        return cond;
    }
    //! a deviation listed in known_findings.json (else a violation)
    void known(const std::string& key, const std::string& desc);

    bool quiet() const { return !tracing; }
    [[noreturn]] void prune() { throw Prune {}; }

    // engine
    Stats st;
    std::vector<std::pair<int, int>> _path;
    int _pos = 0;
    int _shardDepth = 0, _w = 0, _W = 1;
    uint64_t _prefix = 0;
    bool _replay = false;
    Slot* _slot = nullptr;
    uint64_t _scenHash = 0;
    std::unordered_set<uint64_t> _states;
    std::ostringstream& _trace = traceText();
    std::map<std::string, std::pair<std::string, uint64_t>> _known;
};

struct Scenario
{
    std::string name;
    int tiers;      // 1 quick+thorough, 2 thorough only
    int shardDepth; // number of choices that make a shard
    std::string bounds;
    std::function<void(Ctx&)> fn;
};

inline std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
inline void add(const std::string& name, int shardDepth,
    const std::string& bounds, std::function<void(Ctx&)> fn, int tiers = 1)
{
    scenarios().push_back({name, tiers, shardDepth, bounds, std::move(fn)});
}

inline std::set<std::string>& knownKeys()
{
    static std::set<std::string> k;
    return k;
}
inline void Ctx::known(const std::string& key, const std::string& desc)
{
    if (!knownKeys().count(key)) throw Fail {"[" + key + "] " + desc};
    auto& e = _known[key];
    if (e.second++ == 0) e.first = desc;
}

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r;
}

//! run one scenario once; 0 ok, 1 violation, 2 skip, 3 pruned, 4 harness error
inline int runOnce(const Scenario& s, Ctx& c, std::string& msg)
{
    c._pos = 0;
    try
    {
        s.fn(c);
        return 0;
    }
    catch (Skip&) { return 2; }
    catch (Prune&) { return 3; }
#ifdef SANITIZED // wrong answers are judged by the other checks
    catch (Fail&) { return 3; }
    catch (Diverge&) { return 3; }
    catch (std::exception&) { return 3; }
#endif
    catch (Fail& f) { msg = f.msg; return 1; }
    catch (Diverge& d) { msg = "non-deterministic exploration: " + d.msg; return 4; }
    catch (std::exception& e) { msg = std::string("exception escaped: ") + e.what(); return 1; }
    catch (...) { msg = "unknown exception escaped"; return 1; }
}

inline void limits()
{
#ifndef SANITIZED // (reserves a large address space)
    rlimit rl {3ULL << 30, 3ULL << 30};
    setrlimit(RLIMIT_AS, &rl);
#endif
    rlimit rc {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
}

//! at most so many choices of an execution differ from the first alternative
inline int& deviations()
{
    static int d = 1 << 30;
    return d;
}
//! the bound of a scenario where it has one of its own
inline std::map<std::string, int>& plan()
{
    static std::map<std::string, int> p;
    return p;
}
//! explore all scenarios as worker w of W
inline void worker(int w, int W, bool thorough, Slot* slot,
    const std::string& statesFile, int only, double startScale = 0)
{
    (void)startScale;
    limits();
    Ctx c;
    c.thorough = thorough;
    c._slot = slot;
    c._w = w;
    c._W = W;
    auto& S = scenarios();
    for (int si = 0; si < (int)S.size(); ++si)
    {
        if (only >= 0 && si != only) continue;
        if (S[si].tiers == 2 && !thorough) continue;
        const auto own = plan().find(S[si].name);
        const int bound = own == plan().end() ? deviations() : own->second;
        if (bound < 0) continue;
        slot->scen = si;
        c._scenHash = hstr(S[si].name);
        c._shardDepth = S[si].shardDepth;
        c._path.clear();
        c._prefix = 0;
        c.st = Stats {};
        while (true)
        {
            slot->nch = 0;
            std::string msg;
            Stats before = c.st;
            const int r = runOnce(S[si], c, msg);
            slot->beat = slot->beat + 1;
            if (r == 1 || r == 4)
            {
                snprintf(slot->msg, MAXMSG, "%s", msg.c_str());
                slot->state = r == 1 ? 2 : 3;
                slot->st[si] = c.st;
                _exit(0);
            }
            if (r == 2) c.st = before;
            else
            {
                bool mine = true;
                if (c._pos <= c._shardDepth && (int)c._path.size() <= c._shardDepth)
                    mine = (c._prefix % W) == (uint64_t)w;
                if (!mine) c.st = before;
                else if (r == 3) ++c.st.pruned;
                else ++c.st.execs;
            }
            // a Skip leaves the path at the shard depth
            auto& p = c._path;
            p.resize(std::min<size_t>(p.size(), (size_t)c._pos));
            while (true)
            {
                while (!p.empty() && p.back().first + 1 >= p.back().second) p.pop_back();
                if (p.empty()) break;
                ++p.back().first;
                if ((int)p.size() <= c._shardDepth) ++c._prefix;
                int dev = 0;
                for (auto& x : p) dev += x.first != 0;
                if (dev <= bound) break;
                p.pop_back(); // nor any further alternative there
            }
            if (p.empty()) break;
        }
        slot->st[si] = c.st;
    }
    int i = 0;
    for (auto& k : c._known)
    {
        if (i == MAXKNOWN) break;
        snprintf(slot->known[i].key, 64, "%s", k.first.c_str());
        snprintf(slot->known[i].desc, 400, "%s", k.second.first.c_str());
        slot->known[i].n = k.second.second;
        ++i;
    }
    slot->nknown = i;
    if (!statesFile.empty())
    {
        FILE* f = fopen(statesFile.c_str(), "wb");
        if (f)
        {
            std::vector<uint64_t> v(c._states.begin(), c._states.end());
            if (!v.empty()) fwrite(v.data(), 8, v.size(), f);
            fclose(f);
        }
    }
    slot->state = 1;
    _exit(0);
}

inline Slot* sharedSlots(int n)
{
    void* p = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(p, 0, sizeof(Slot) * n);
    return static_cast<Slot*>(p);
}

//! replay one choice sequence in a fresh process; 0 ok, 1 violation, 3 error
inline int replayOnce(int si, const std::vector<int>& ch, bool thorough,
    double limit, std::string& msg, std::string& trace)
{
    Slot* slot = sharedSlots(1);
    char tmp[] = "/tmp/mc_traceXXXXXX";
    int tfd = mkstemp(tmp);
    pid_t pid = fork();
    if (pid == 0)
    {
        limits();
        Ctx c;
        c.thorough = thorough;
        c._replay = true;
        c.tracing = true;
        c._slot = slot;
        c._scenHash = hstr(scenarios()[si].name);
        for (int x : ch) c._path.push_back({x, 1 << 30});
        std::string m;
        int r = runOnce(scenarios()[si], c, m);
        snprintf(slot->msg, MAXMSG, "%s", m.c_str());
        auto t = c._trace.str();
        if (write(tfd, t.data(), t.size()) < 0) {}
        slot->state = 10 + r;
        _exit(0);
    }
    const double t0 = now();
    int status = 0, res = 0;
    while (true)
    {
        pid_t p = waitpid(pid, &status, WNOHANG);
        if (p == pid)
        {
            if (slot->state >= 10)
            {
                int r = slot->state - 10;
                msg = slot->msg;
                res = r == 1 ? 1 : r == 4 ? 3 : 0;
            }
            else if (WIFSIGNALED(status))
            {
                msg = fmt("the process died with signal %d (%s)",
                    WTERMSIG(status), strsignal(WTERMSIG(status)));
                res = 1;
            }
            else
            {
                msg = fmt("the process exited with status %d", WEXITSTATUS(status));
                res = 1;
            }
            break;
        }
        if (now() - t0 > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            msg = fmt("no result after %.0f s (hang)", limit);
            res = 1;
            break;
        }
        usleep(1000);
    }
    lseek(tfd, 0, SEEK_SET);
    char buf[4096];
    ssize_t n;
    while ((n = read(tfd, buf, sizeof buf)) > 0) trace.append(buf, n);
    close(tfd);
    unlink(tmp);
    munmap(slot, sizeof(Slot));
    return res;
}

inline int main(int argc, char** argv)
{
    std::string tier = "quick", json, replay, out, knownFile;
    int W = 8;
    std::string onlyName;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = val();
        else if (a == "--json") json = val();
        else if (a == "--replay") replay = val();
        else if (a == "--out") out = val();
        else if (a == "--known") knownKeys().insert(val());
        else if (a == "--deviations") deviations() = atoi(val().c_str());
        else if (a == "--plan")
        {
            std::ifstream f(val());
            int k;
            std::string name;
            while (f >> k && f.get() && std::getline(f, name)) plan()[name] = k;
        }
        else if (a == "--workers") W = atoi(val().c_str());
        else if (a == "--only") onlyName = val();
        else if (a == "--list")
        {
            for (auto& x : scenarios()) if (x.tiers != 2) printf("%s\n", x.name.c_str());
            return 0;
        }
    }
    bool thorough = tier == "thorough";
    auto& S = scenarios();
    if ((int)S.size() > MAXSCEN) { fprintf(stderr, "too many scenarios\n"); return 3; }

    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string word, name;
        std::vector<int> ch;
        std::string line;
        while (std::getline(f, line))
        {
            if (line.rfind("scenario ", 0) == 0) name = line.substr(9);
            if (line.rfind("tier ", 0) == 0) thorough = line.substr(5) == "thorough";
            if (line.rfind("choices", 0) == 0)
            {
                std::istringstream is(line.substr(7));
                int x;
                while (is >> x) ch.push_back(x);
            }
        }
        for (int si = 0; si < (int)S.size(); ++si)
            if (S[si].name == name)
            {
                std::string m, t;
                int r = replayOnce(si, ch, thorough, 120, m, t);
                printf("%s%s\n%s\n", t.c_str(), m.c_str(), r ? "VIOLATED" : "held");
                return r;
            }
        fprintf(stderr, "no such scenario: %s\n", name.c_str());
        return 3;
    }

    int only = -1;
    if (!onlyName.empty())
    {
        for (int si = 0; si < (int)S.size(); ++si)
            if (S[si].name == onlyName) only = si;
        if (only < 0) { fprintf(stderr, "no such scenario\n"); return 3; }
    }
    const double t0 = now();
    Slot* slots = sharedSlots(W + 1);
    char dir[] = "/tmp/mc_statesXXXXXX";
    if (!mkdtemp(dir)) { perror("mkdtemp"); return 3; }
    std::vector<pid_t> pids(W);
    std::vector<uint64_t> beat(W, 0);
    std::vector<double> since(W, now());
    fflush(stdout);
    for (int w = 0; w < W; ++w)
    {
        pids[w] = fork();
        if (pids[w] == 0)
            worker(w, W, thorough, &slots[w], fmt("%s/%d", dir, w), only);
    }
    int failedW = -1;
    std::string failMsg;
    bool harnessErr = false, hang = false;
    int left = W;
    std::vector<bool> fin(W, false);
    while (left > 0 && failedW < 0)
    {
        usleep(2000);
        for (int w = 0; w < W && failedW < 0; ++w)
        {
            if (fin[w]) continue;
            int status;
            pid_t p = waitpid(pids[w], &status, WNOHANG);
            if (p == pids[w])
            {
                fin[w] = true;
                --left;
                if (slots[w].state == 1) continue;
                failedW = w;
                if (slots[w].state == 2) failMsg = slots[w].msg;
                else if (slots[w].state == 3) { failMsg = slots[w].msg; harnessErr = true; }
                else if (WIFSIGNALED(status))
                    failMsg = fmt("the process died with signal %d (%s)",
                        WTERMSIG(status), strsignal(WTERMSIG(status)));
                else failMsg = fmt("the process exited with status %d", WEXITSTATUS(status));
                continue;
            }
            if (slots[w].beat != beat[w]) { beat[w] = slots[w].beat; since[w] = now(); }
            else if (now() - since[w] > 30)
            {
                failedW = w;
                hang = true;
                failMsg = "no progress for 30 s";
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status, 0);
                fin[w] = true;
            }
        }
    }
    for (int w = 0; w < W; ++w)
        if (!fin[w]) { kill(pids[w], SIGKILL); int s; waitpid(pids[w], &s, 0); }

    int rc = 0;
    std::string trace, confirm;
    int fsi = -1;
    std::vector<int> fch;
    if (failedW >= 0)
    {
        Slot& sl = slots[failedW];
        fsi = sl.scen;
        fch.assign(sl.ch, sl.ch + sl.nch);
        if (harnessErr)
        {
            fprintf(stderr, "HARNESS ERROR in %s: %s\n", S[fsi].name.c_str(), failMsg.c_str());
            // a scenario that does not replay its own prefix: the code under test
            // carries state from one execution to the next; confirm by rerunning.
        }
        std::string m;
        int r = harnessErr ? 0 : replayOnce(fsi, fch, thorough, hang ? 90 : 60, m, trace);
        if (r == 1) { rc = 1; confirm = "replayed alone in a fresh process"; failMsg = m; }
        else
        {
            // not alone: rerun the same worker's whole exploration (deterministic)
            // A failure there that is not the same one is accepted too: code that
            // reads what it did not write need not fail twice at the same place.
            Slot* s2 = &slots[W];
            for (int attempt = 0; attempt < 3 && rc == 0; ++attempt)
            {
                memset(s2, 0, sizeof(Slot));
                pid_t pid = fork();
                if (pid == 0) worker(failedW, W, thorough, s2, "", only);
                double tb = now();
                uint64_t b = 0;
                int status;
                bool again = false, real = false;
                std::string m2;
                while (true)
                {
                    if (waitpid(pid, &status, WNOHANG) == pid)
                    {
                        again = s2->state != 1;
                        m2 = s2->state >= 2 ? s2->msg : "crash";
                        real = s2->state == 2 || (s2->state == 0 && !(WIFSIGNALED(status)
                            && WTERMSIG(status) == SIGKILL));
                        break;
                    }
                    if (s2->beat != b) { b = s2->beat; tb = now(); }
                    else if (now() - tb > 60)
                    {
                        kill(pid, SIGKILL);
                        waitpid(pid, &status, 0);
                        again = hang;
                        m2 = "hang";
                        break;
                    }
                    usleep(2000);
                }
                std::vector<int> ch2(s2->ch, s2->ch + s2->nch);
                if (again && s2->scen == fsi && ch2 == fch)
                {
                    rc = 1;
                    confirm = "replayed as part of the same exploration (depends on earlier executions)";
                }
                else if (again && real)
                {
                    rc = 1;
                    fsi = s2->scen;
                    fch = ch2;
                    failMsg = m2;
                    confirm = "fails whenever the exploration is repeated, not always at the same execution";
                }
            }
            if (rc == 0)
            {
                rc = 3;
                fprintf(stderr, "UNCONFIRMED failure in %s: %s\n", S[fsi].name.c_str(), failMsg.c_str());
            }
        }
        if (rc == 1)
        {
            if (!out.empty())
            {
                std::ofstream f(out);
                f << "scenario " << S[fsi].name << "\ntier " << tier << "\nchoices";
                for (int x : fch) f << " " << x;
                f << "\nconfirmed " << confirm << "\nmessage " << failMsg << "\ntrace\n" << trace;
            }
            printf("FAILED scenario=%s\n  %s\n  (%s)\n%s", S[fsi].name.c_str(),
                failMsg.c_str(), confirm.c_str(), trace.substr(0, 6000).c_str());
        }
    }

    // merge
    std::vector<uint64_t> all;
    bool capped = false;
    for (int w = 0; w < W; ++w)
    {
        std::string fn = fmt("%s/%d", dir, w);
        FILE* f = fopen(fn.c_str(), "rb");
        if (f)
        {
            fseek(f, 0, SEEK_END);
            long n = ftell(f) / 8;
            fseek(f, 0, SEEK_SET);
            size_t o = all.size();
            all.resize(o + n);
            if (n && fread(&all[o], 8, n, f) != (size_t)n) all.resize(o);
            if (n >= 4000000) capped = true;
            fclose(f);
            unlink(fn.c_str());
        }
    }
    rmdir(dir);
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    Stats tot;
    std::string per;
    for (int si = 0; si < (int)S.size(); ++si)
    {
        Stats s;
        for (int w = 0; w < W; ++w)
        {
            auto& x = slots[w].st[si];
            s.execs += x.execs; s.pruned += x.pruned; s.steps += x.steps;
            s.validated += x.validated; s.states_seen += x.states_seen;
        }
        tot.execs += s.execs; tot.pruned += s.pruned; tot.steps += s.steps;
        tot.validated += s.validated; tot.states_seen += s.states_seen;
        if (S[si].tiers == 2 && !thorough) continue;
        if (only >= 0 && si != only) continue;
        const auto own = plan().find(S[si].name);
        const int bound = own == plan().end() ? deviations() : own->second;
        const std::string limit = bound > 1000 ? "" : fmt("at most %d deviations; ", bound);
        per += fmt("%s{\"scenario\":\"%s\",\"bounds\":\"%s\",\"executions\":%llu,"
            "\"pruned\":%llu,\"transitions\":%llu,\"comparisons\":%llu}",
            per.empty() ? "" : ",", jesc(S[si].name).c_str(), jesc(limit + S[si].bounds).c_str(),
            (unsigned long long)s.execs, (unsigned long long)s.pruned,
            (unsigned long long)s.steps, (unsigned long long)s.validated);
        printf("  %-34s executions=%-9llu transitions=%-10llu comparisons=%llu\n",
            S[si].name.c_str(), (unsigned long long)s.execs,
            (unsigned long long)s.steps, (unsigned long long)s.validated);
    }
    std::map<std::string, std::pair<std::string, uint64_t>> kn;
    for (int w = 0; w < W; ++w)
        for (int i = 0; i < slots[w].nknown; ++i)
        {
            auto& e = kn[slots[w].known[i].key];
            if (e.second == 0) e.first = slots[w].known[i].desc;
            e.second += slots[w].known[i].n;
        }
    printf("  total: executions=%llu distinct states%s=%zu transitions=%llu comparisons=%llu  %.1f s\n",
        (unsigned long long)tot.execs, capped ? ">" : "", all.size(),
        (unsigned long long)tot.steps, (unsigned long long)tot.validated, now() - t0);
    // samples: first executions of a few scenarios, with their traces
    std::string samples;
    if (rc == 0)
    {
        int k = 0;
        for (int si = 0; si < (int)S.size() && k < 4; ++si)
        {
            if (S[si].tiers == 2 && !thorough) continue;
            if (only >= 0 && si != only) continue;
            Ctx c;
            c.thorough = thorough;
            c.tracing = true;
            c._W = 1;
            std::string m;
            // take the last alternative of each early choice where possible
            int tries = 0;
            int r;
            do
            {
                c._trace.str("");
                r = runOnce(S[si], c, m);
                auto& p = c._path;
                p.resize(std::min<size_t>(p.size(), (size_t)c._pos));
                if (r == 0) break;
                while (!p.empty() && p.back().first + 1 >= p.back().second) p.pop_back();
                if (p.empty()) break;
                ++p.back().first;
            } while (++tries < 200);
            auto t = c._trace.str();
            if (t.size() > 1500) t = t.substr(0, 1500) + "...";
            samples += fmt("%s{\"scenario\":\"%s\",\"trace\":\"", samples.empty() ? "" : ",",
                           jesc(S[si].name).c_str()) + jesc(t) + "\"}";
            ++k;
        }
    }
    if (!json.empty())
    {
        std::ofstream f(json);
        f << "{\"rc\":" << rc << ",\"executions\":" << tot.execs << ",\"states\":" << all.size()
          << ",\"states_capped\":" << (capped ? "true" : "false")
          << ",\"transitions\":" << tot.steps << ",\"comparisons\":" << tot.validated
          << ",\"wall\":" << (now() - t0) << ",\"scenarios\":[" << per << "],\"samples\":["
          << samples << "],\"known\":[";
        bool first = true;
        for (auto& k : kn)
        {
            f << (first ? "" : ",") << "{\"key\":\"" << jesc(k.first) << "\",\"desc\":\""
              << jesc(k.second.first) << "\",\"n\":" << k.second.second << "}";
            first = false;
        }
        f << "],\"fail\":\"" << jesc(failedW >= 0 ? failMsg : "") << "\",\"fail_scenario\":\""
          << (fsi >= 0 ? jesc(S[fsi].name) : "") << "\"}\n";
    }
    return rc;
}

} // namespace mc

// ctx.MUST(cond, "format", ...) and ctx.LOG("format", ...): the message is
// put together only when it is needed
#define MUST(cond, ...) good(cond) ? (void)0 : mc::failNow(__VA_ARGS__)
#define LOG(...) quiet() ? (void)0 : mc::traceLine(__VA_ARGS__)
