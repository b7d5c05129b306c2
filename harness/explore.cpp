#include "explore.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

namespace mc {

static constexpr int MAXW = 64, MAXC = 4096, NSAMP = 4;
static constexpr uint64_t TBL = 1ull << 24;

struct WorkerShm {
    std::atomic<uint64_t> execs, transitions, beat;
    std::atomic<int> scenario, nchoices, violated, done;
    struct { int v, n; } ch[MAXC];
    char msg[4096];
    char samples[NSAMP][512];
    std::atomic<int> nsamples;
    char known[8][512];
    std::atomic<int> nknown;
};
struct Shm {
    WorkerShm w[MAXW];
    std::atomic<uint64_t> states;
    std::atomic<uint64_t> tbl[TBL];
};

static WorkerShm& me(Ctx& c) { return ((Shm*)c.shm_)->w[c.worker_]; }

int Ctx::pick(int n)
{
    if (n <= 0) {
        fprintf(stderr, "harness error: pick(%d)\n", n);
        _exit(3);
    }
    if (pos_ == choices_.size()) {
        if (replay_ && 0) return 0;
        choices_.push_back({ 0, n });
        WorkerShm& w = me(*this);
        if (pos_ < MAXC) {
            w.ch[pos_].v = 0;
            w.ch[pos_].n = n;
            w.nchoices = (int)pos_ + 1;
        }
    } else if (choices_[pos_].n != n) {
        fprintf(stderr, "harness error: nondeterministic replay at pick %zu: %d != %d\n", pos_, choices_[pos_].n, n);
        _exit(3);
    }
    return choices_[pos_++].v;
}

void Ctx::shard()
{
    if (sharded_) return;
    sharded_ = true;
    if (replay_) return;
    std::vector<int> p;
    for (size_t i = 0; i < pos_; ++i) p.push_back(choices_[i].v);
    if (shard_count_ < 0 || p != last_shard_) {
        ++shard_count_;
        last_shard_ = p;
    }
    if (shard_count_ % workers_ != worker_) throw Skip {};
}

void Ctx::fail(std::string const& msg) { throw Violation { msg }; }

void Ctx::state(uint64_t h)
{
    auto* s = (Shm*)shm_;
    h ^= h >> 31; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29;
    if (!h) h = 1;
    for (uint64_t i = h & (TBL - 1), k = 0; k < 64; ++k, i = (i + 1) & (TBL - 1)) {
        uint64_t cur = s->tbl[i].load(std::memory_order_relaxed);
        if (cur == h) return;
        if (!cur) {
            if (s->tbl[i].compare_exchange_strong(cur, h)) { s->states++; return; }
            if (cur == h) return;
        }
    }
    // table region full: not counted (the count is then a lower bound)
}
void Ctx::state(std::string const& st) { Hash h; h << st; state(h.h); }

void Ctx::known(std::string const& what)
{
    WorkerShm& w = me(*this);
    for (int i = 0; i < w.nknown; ++i)
        if (what == w.known[i]) return;
    if (w.nknown < 8) {
        snprintf(w.known[w.nknown], 512, "%s", what.c_str());
        w.nknown++;
    }
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string type_name(std::exception const& e) { return typeid(e).name(); }

// runs one execution; returns false on violation
static bool run_one(Ctx& c, Scenario const& s, bool& skipped)
{
    c.pos_ = 0;
    c.sharded_ = false;
    c.note_.clear();
    skipped = false;
    WorkerShm& w = me(c);
    for (size_t i = 0; i < c.choices_.size() && i < MAXC; ++i) {
        w.ch[i].v = c.choices_[i].v;
        w.ch[i].n = c.choices_[i].n;
    }
    w.nchoices = (int)c.choices_.size();
    w.beat++;
    c.transitions_ = 0;
    try {
        s.fn(c);
        if (!c.sharded_ && !c.replay_ && c.worker_ != 0) {
            // scenario without a shard point: worker 0 owns it
            skipped = true;
        }
    } catch (Skip&) {
        skipped = true;
    } catch (Violation& v) {
        snprintf(w.msg, sizeof w.msg, "%s", v.msg.c_str());
        return false;
    } catch (std::exception& e) {
        snprintf(w.msg, sizeof w.msg, "unexpected exception %s: %s", type_name(e).c_str(), e.what());
        return false;
    } catch (...) {
        snprintf(w.msg, sizeof w.msg, "unexpected exception not derived from std::exception");
        return false;
    }
    if (!skipped) {
        w.execs++;
        w.transitions += c.transitions_;
        if (w.nsamples < NSAMP && (w.execs & (w.execs - 1)) == 0) {
            std::string t = s.name;
            t += ": picks";
            for (size_t i = 0; i < c.pos_ && i < 60; ++i) t += (i ? "," : " ") + std::to_string(c.choices_[i].v);
            if (!c.note_.empty()) t += " :: " + c.note_;
            snprintf(w.samples[w.nsamples], 512, "%s", t.c_str());
            w.nsamples++;
        }
    }
    // choices beyond what was consumed can only appear after a skip
    c.choices_.resize(c.pos_);
    return true;
}

static bool next(std::vector<Ctx::C>& ch)
{
    while (!ch.empty()) {
        if (++ch.back().v < ch.back().n) return true;
        ch.pop_back();
    }
    return false;
}

struct Resume { int scenario = 0; std::vector<Ctx::C> ch; bool active = false; };

static void worker_main(Ctx& c, std::vector<Scenario> const& sc, std::vector<int> const& order, Resume const& r)
{
    WorkerShm& w = me(c);
    for (size_t k = r.active ? r.scenario : 0; k < order.size(); ++k) {
        Scenario const& s = sc[order[k]];
        w.scenario = (int)k;
        c.choices_.clear();
        c.shard_count_ = -1;
        c.last_shard_.clear();
        // (after a resume the prefix counters have to be rebuilt, so enumeration restarts with this scenario)
        do {
            bool skipped;
            if (!run_one(c, s, skipped)) {
                w.violated = 1;
                _exit(11);
            }
        } while (next(c.choices_));
    }
    w.done = 1;
    _exit(0);
}

static std::string scratch_base()
{
    if (char const* e = getenv("VERIF_SCRATCH")) return e;
    return "/tmp";
}

static void rm_dir(std::string const& d)
{
    std::string cmd = "rm -rf -- '" + d + "'";
    if (d.find("/sedmc.") != std::string::npos && system(cmd.c_str())) {}
}

static std::string json_str(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}

static std::string mk_scratch()
{
    std::string t = scratch_base() + "/sedmc.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(3); }
    return b.data();
}

// run one choice list alone in a child: 0 ok, 1 violation, 2 hang
static int replay_child(Shm* shm, std::vector<Scenario> const& sc, int si, std::vector<Ctx::C> const& ch,
    bool thorough, double limit, std::string& msg, bool verbose)
{
    std::string d = mk_scratch();
    shm->w[0].msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (!p) {
        if (!verbose) {
            int fd = open((d + "/stderr").c_str(), O_CREAT | O_WRONLY, 0600);
            dup2(fd, 2);
        }
        Ctx c;
        c.thorough_ = thorough;
        c.replay_ = true;
        c.dir_ = d;
        c.shm_ = shm;
        c.choices_ = ch;
        bool sk;
        bool ok = run_one(c, sc[si], sk);
        if (verbose) fprintf(stderr, "%s\n", ok ? ("execution passed " + c.note_).c_str() : (std::string("violation: ") + shm->w[0].msg).c_str());
        _exit(ok ? 0 : 11);
    }
    double t0 = now();
    int st, res = -1;
    while (res < 0) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res = 0;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { res = 1; msg = shm->w[0].msg; }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error in replay\n"); res = 3; }
            else {
                res = 1;
                msg = WIFSIGNALED(st) ? fmt("crash: signal %d", WTERMSIG(st)) : fmt("crash: exit status %d", WEXITSTATUS(st));
                if (!verbose) {
                    std::string e = slurp(d + "/stderr");
                    size_t q = e.find("ERROR: ");
                    if (q == std::string::npos) q = e.find("runtime error");
                    if (q == std::string::npos) q = 0;
                    size_t n = e.find('\n', q);
                    msg += ": " + e.substr(q, std::min<size_t>(300, n == std::string::npos ? e.size() - q : n - q));
                    size_t fr = e.find("/src/", q);
                    if (fr != std::string::npos) {
                        size_t nl = e.find('\n', fr);
                        msg += " at " + e.substr(fr + 1, std::min<size_t>(80, nl - fr - 1));
                    }
                }
            }
        } else if (now() - t0 > limit) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            res = 2;
            msg = fmt("hang: no end within %.0f s", limit);
        } else
            usleep(2000);
    }
    rm_dir(d);
    return res;
}

int explore_main(int argc, char** argv, std::vector<Scenario> const& sc)
{
    // usage: prog --tier quick|thorough --workers N --out FILE --replays DIR | --replay FILE
    std::string tier = "quick", out, rdir = ".", rfile, only;
    int workers = 8;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier") tier = v;
        else if (a == "--workers") workers = atoi(v.c_str());
        else if (a == "--out") out = v;
        else if (a == "--replays") rdir = v;
        else if (a == "--replay") rfile = v;
        else if (a == "--only") only = v;
    }
    if (workers > MAXW) workers = MAXW;
    signal(SIGPIPE, SIG_IGN);
    bool thorough = tier == "thorough";
    auto* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 3; }
    if (!rfile.empty()) {
        FILE* f = fopen(rfile.c_str(), "r");
        if (!f) { perror("replay file"); return 3; }
        char name[256], tn[32];
        std::vector<Ctx::C> ch;
        int v, n, si = -1;
        if (fscanf(f, "%255s %31s", name, tn) != 2) return 3;
        while (fscanf(f, "%d/%d", &v, &n) == 2) ch.push_back({ v, n });
        fclose(f);
        for (size_t i = 0; i < sc.size(); ++i)
            if (!strcmp(sc[i].name, name)) si = (int)i;
        if (si < 0) { fprintf(stderr, "unknown scenario %s\n", name); return 3; }
        std::string msg;
        int r = replay_child(shm, sc, si, ch, !strcmp(tn, "thorough"), 60, msg, true);
        printf("%s %s\n", r == 0 ? "PASS" : "FAIL", msg.c_str());
        return r == 0 ? 0 : 1;
    }
    std::vector<int> order;
    for (size_t i = 0; i < sc.size(); ++i)
        if ((thorough || !sc[i].thorough_only) && (only.empty() || only == sc[i].name)) order.push_back((int)i);
    double t0 = now();
    std::string base = mk_scratch();
    std::vector<pid_t> pid(workers, 0);
    std::vector<uint64_t> lastbeat(workers, 0);
    std::vector<double> lastt(workers, now());
    std::vector<int> restarts(workers, 0);
    auto start = [&](int i) {
        std::string d = base + "/w" + std::to_string(i);
        mkdir(d.c_str(), 0700);
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (!p) {
            int fd = open((d + "/stderr").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            Ctx c;
            c.thorough_ = thorough;
            c.worker_ = i;
            c.workers_ = workers;
            c.dir_ = d;
            c.shm_ = shm;
            worker_main(c, sc, order, {});
        }
        pid[i] = p;
        lastt[i] = now();
        lastbeat[i] = ~0ull;
    };
    for (int i = 0; i < workers; ++i) start(i);
    int live = workers, bad = -1, rc = 0;
    std::string badmsg;
    double limit = 30;
    if (char const* e = getenv("VERIF_HANG_LIMIT")) limit = atof(e);
    while (live && bad < 0 && !rc) {
        usleep(5000);
        for (int i = 0; i < workers && bad < 0 && !rc; ++i) {
            if (!pid[i]) continue;
            int st;
            pid_t r = waitpid(pid[i], &st, WNOHANG);
            WorkerShm& w = shm->w[i];
            if (r == pid[i]) {
                pid[i] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.done) { --live; continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
                    fprintf(stderr, "%s", slurp(base + "/w" + std::to_string(i) + "/stderr").c_str());
                    rc = 3;
                    break;
                }
                bad = i;
            } else {
                uint64_t b = w.beat;
                if (b != lastbeat[i]) { lastbeat[i] = b; lastt[i] = now(); }
                else if (now() - lastt[i] > limit) {
                    kill(pid[i], SIGKILL);
                    waitpid(pid[i], &st, 0);
                    pid[i] = 0;
                    bad = i;
                }
            }
            if (bad == i) {
                std::vector<Ctx::C> ch;
                for (int k = 0; k < w.nchoices && k < MAXC; ++k) ch.push_back({ w.ch[k].v, w.ch[k].n });
                int si = order[w.scenario];
                std::string m0 = w.violated ? w.msg : "", msg;
                // confirm alone, in a fresh process
                int rr = 0;
                for (int att = 0; att < 3 && rr == 0; ++att)
                    rr = replay_child(shm, sc, si, ch, thorough, 2 * limit, msg, false);
                if (rr == 3) { rc = 3; break; }
                if (rr == 0 && m0.empty()) {
                    // not reproducible (e.g. a slow machine or killed for memory): restart this worker once or twice
                    bad = -1;
                    if (++restarts[i] > 3) { fprintf(stderr, "worker %d keeps dying without a reproducible cause\n", i); rc = 3; break; }
                    fprintf(stderr, "worker %d restarted: %s\n", i, slurp(base + "/w" + std::to_string(i) + "/stderr").substr(0, 2000).c_str());
                    w.execs = 0; w.transitions = 0; w.violated = 0; w.done = 0; w.nsamples = 0;
                    start(i);
                    continue;
                }
                if (rr == 0) msg = m0 + " (depends on executions before it: not reproduced alone)";
                badmsg = std::string(sc[si].name) + ": " + msg;
                std::string rp = rdir + "/" + sc[si].name + ".replay";
                FILE* f = fopen(rp.c_str(), "w");
                if (f) {
                    fprintf(f, "%s %s\n", sc[si].name, tier.c_str());
                    for (auto& x : ch) fprintf(f, "%d/%d ", x.v, x.n);
                    fprintf(f, "\n# %s\n", badmsg.c_str());
                    fclose(f);
                }
                printf("BAD %s\n%s\n", rp.c_str(), badmsg.c_str());
                rc = 1;
            }
        }
    }
    for (int i = 0; i < workers; ++i)
        if (pid[i]) { kill(pid[i], SIGKILL); int st; waitpid(pid[i], &st, 0); }
    rm_dir(base);
    uint64_t ex = 0, tr = 0;
    for (int i = 0; i < workers; ++i) { ex += shm->w[i].execs; tr += shm->w[i].transitions; }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"wall_s\":%.2f,\"complete\":%s,\"scenarios\":[",
            (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)shm->states.load(), now() - t0, rc == 0 ? "true" : "false");
        for (size_t i = 0; i < order.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", sc[order[i]].name);
        fprintf(f, "],\"samples\":[");
        int n = 0;
        for (int i = 0; i < workers && n < 12; ++i)
            for (int k = 0; k < shm->w[i].nsamples && n < 12; ++k)
                fprintf(f, "%s%s", n++ ? "," : "", json_str(shm->w[i].samples[k]).c_str());
        fprintf(f, "],\"known\":[");
        n = 0;
        std::vector<std::string> seen;
        for (int i = 0; i < workers; ++i)
            for (int k = 0; k < shm->w[i].nknown; ++k) {
                std::string s = shm->w[i].known[k];
                bool dup = false;
                for (auto& x : seen) dup |= x == s;
                if (!dup) { seen.push_back(s); fprintf(f, "%s%s", n++ ? "," : "", json_str(s).c_str()); }
            }
        fprintf(f, "],\"violation\":%s}\n", rc == 1 ? json_str(badmsg).c_str() : "null");
        fclose(f);
    }
    return rc;
}

std::string fmt(char const* f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

std::string hex(std::string const& s, size_t max)
{
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        char b[4];
        snprintf(b, 4, "%02x", (unsigned char)s[i]);
        r += b;
    }
    if (s.size() > max) r += "...";
    return r;
}

std::string slurp(std::string const& path)
{
    std::string r;
    int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return r;
    struct stat st;
    if (fstat(fd, &st) == 0 && st.st_size > 0) r.reserve(st.st_size);
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
    close(fd);
    return r;
}

void spew(std::string const& path, std::string const& data)
{
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600);
    size_t off = 0;
    while (fd >= 0 && off < data.size()) {
        ssize_t n = write(fd, data.data() + off, data.size() - off);
        if (n <= 0) break;
        off += n;
    }
    if (fd < 0 || off != data.size()) { perror("scratch file"); _exit(3); }
    close(fd);
}

std::string diff(std::string const& want, std::string const& got)
{
    if (want.size() != got.size()) {
        size_t i = 0;
        while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
        return fmt("size %zu expected %zu, first difference at byte %zu", got.size(), want.size(), i);
    }
    for (size_t i = 0; i < want.size(); ++i)
        if (want[i] != got[i])
            return fmt("byte %zu is %02x expected %02x (expected %s got %s)", i, (unsigned char)got[i], (unsigned char)want[i],
                hex(want.substr(i, 16)).c_str(), hex(got.substr(i, 16)).c_str());
    return "";
}

} // namespace mc
