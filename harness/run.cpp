#include "run.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define UNDER_SANITIZER 1
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define UNDER_SANITIZER 1
#endif
#endif

Ctx* g = nullptr;
static const size_t LOGCAP = 1 << 17, MSGCAP = 1 << 14, OUTBITS = 1u << 22;

struct Slot {
    std::atomic<long> cases;
    std::atomic<size_t> loglen;
    std::atomic<size_t> msglen;
    std::atomic<u64> states, transitions, traces, capped;
    char apiname[64];
    char log[LOGCAP];
    char msg[MSGCAP];
};
static std::atomic<unsigned char>* g_bits = nullptr;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
std::string desc_text(int d) {
    static const char* t[] = {"+", "-", "NaN", "+INF", "-INF"};
    return d >= 0 && d < 5 ? t[d] : "desc" + std::to_string(d);
}
std::string digits_text(const Digits& d) {
    std::string s = "[";
    size_t n = d.size();
    for (size_t i = n; i-- > 0;) {
        if (n > 60 && i == n - 25) { s += "... "; i = 24; }
        s += std::to_string(d[i]);
        if (i) s += ' ';
    }
    s += "]";
    if (n > 60) s += "(" + std::to_string(n) + " digits)";
    return s;
}
std::string value_text(int desc, const Digits& d) { return desc_text(desc) + digits_text(d); }

bool Ctx::begin() {
    const long c = cases++;
    if (slot) slot->cases.store(c, std::memory_order_relaxed);
    if (only >= 0 && c != only) return false;
    const bool l = (only >= 0) || (c == logat);
    if (l || logging) {
        logging = l;
        if (l && slot) { slot->loglen = 0; nextId = 0; }
    }
    return true;
}
void Ctx::begin_dependent() {
    const long c = cases++;
    if (slot) slot->cases.store(c, std::memory_order_relaxed);
    const bool l = (c == only) || (c == logat);
    if (l || logging) {
        logging = l;
        if (l && slot) { slot->loglen = 0; nextId = 0; }
    }
}
void Ctx::log(const std::string& line) {
    if (!logging || !slot) return;
    if (api && !slot->apiname[0]) snprintf(slot->apiname, sizeof slot->apiname, "%s", api->name);
    size_t n = slot->loglen;
    if (n + line.size() + 8 > LOGCAP) return;
    memcpy(slot->log + n, "    ", 4);
    memcpy(slot->log + n + 4, line.data(), line.size());
    slot->log[n + 4 + line.size()] = '\n';
    slot->loglen = n + line.size() + 5;
}
void Ctx::fail(const std::string& m) {
    if (slot) {
        std::string s = m.substr(0, MSGCAP - 1);
        memcpy(slot->msg, s.data(), s.size());
        slot->msglen = s.size();
        slot->cases = cases - 1;
        fflush(nullptr);
        _exit(3);
    }
    fprintf(stderr, "FAIL: %s\n", m.c_str());
    _exit(3);
}
void Ctx::outcome(u64 h) {
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 29;
    const size_t b = h % OUTBITS;
    if (g_bits) {
        std::atomic<unsigned char>& x = g_bits[b >> 3];
        const unsigned char m = 1u << (b & 7);
        if (!(x.load(std::memory_order_relaxed) & m)) x.fetch_or(m, std::memory_order_relaxed);
    }
}

void Num::born(const std::string& init) {
    if (!g || !g->logging) return;
    id = ++g->nextId;
    if (!g->api) g->api = A;
    g->log(std::string(A->name) + " " + nm() + init + ";");
}
static std::string init_list(const Digits& d) {
    std::string s;
    for (size_t i = 0; i < d.size(); ++i) s += (i ? "," : "") + std::to_string(d[i]) + "u";
    return s;
}
void Num::say_set(int desc, const Digits& d) const {
    say(nm() + ".setDescriptor(" + DESC_TXT[desc] + "); " + nm() + ".numData.clear(); for (unsigned long d : std::vector<unsigned long>{" +
        init_list(d) + "}) " + nm() + ".numData.push_back(static_cast<" + A->name + "::bn_single>(d)); // " + value_text(desc, d));
}
void Num::born_set(int desc, const Digits& d) { born(""); say_set(desc, d); }
Num::Num(List, const Api* a, int desc, const Digits& msd) : A(a) {
    if (lg()) {
        std::string s = std::string("{") + DESC_TXT[desc] + ", {";
        for (size_t i = 0; i < msd.size(); ++i)
            s += (i ? "," : "") + ("static_cast<" + std::string(A->name) + "::bn_single>(" + std::to_string(msd[i]) + "u)");
        born(s + "}}");
    }
    if (!A->construct_list(buf(), desc, msd.data(), msd.size())) {
        A->construct(buf());
        g->fail("internal: unsupported literal length");
    }
}

// ---------------------------------------------------------------------------
struct Child { pid_t pid = 0; size_t job = 0; Slot* slot = nullptr; int errfd = -1; long lastcase = -2; double lastcpu = 0, lastwall = 0, started = 0; };

static double cpu_of(pid_t p) {
    char path[64]; snprintf(path, sizeof path, "/proc/%d/stat", (int)p);
    FILE* f = fopen(path, "r"); if (!f) return 0;
    char buf[1024]; size_t n = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0;
    const char* q = strrchr(buf, ')'); if (!q) return 0;
    unsigned long ut = 0, st = 0;
    sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    return double(ut + st) / sysconf(_SC_CLK_TCK);
}
static void reset(Slot* s) {
    s->cases = -1; s->loglen = 0; s->msglen = 0; s->states = 0; s->transitions = 0; s->traces = 0; s->capped = 0; s->apiname[0] = 0;
}
static pid_t spawn(const Job& job, Slot* slot, int errfd, long only, long logat) {
    reset(slot);
    if (ftruncate(errfd, 0) || lseek(errfd, 0, SEEK_SET)) {}
    fflush(nullptr);
    pid_t p = fork();
    if (p) return p;
    dup2(errfd, 1); dup2(errfd, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
#ifndef UNDER_SANITIZER
    rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
    static Ctx c; c.slot = slot; c.only = only; c.logat = logat; g = &c;
    try { job.fn(c); }
    catch (const std::exception& e) { c.fail(std::string("unexpected exception: ") + e.what()); }
    catch (int v) { c.fail("unexpected exception: value " + std::to_string(v)); }
    catch (...) { c.fail("unexpected exception (the library's error value or another type)"); }
    slot->states = c.states; slot->transitions = c.transitions; slot->traces = c.traces; slot->capped = c.capped;
    fflush(nullptr);
#ifdef UNDER_SANITIZER
    exit(0);            // runs the leak checker
#else
    _exit(0);
#endif
}
static std::string tail(int fd) {
    off_t n = lseek(fd, 0, SEEK_END); off_t from = n > 6000 ? n - 6000 : 0;
    std::string s(n - from, 0);
    if (pread(fd, &s[0], s.size(), from) < 0) s.clear();
    return s;
}
// Runs a job to its end; returns wait status, or -1 when it hung.
static int run_one(const Job& job, Slot* slot, int errfd, long only, long logat, double cpulim, double walllim, double budget = 1e9) {
    pid_t p = spawn(job, slot, errfd, only, logat);
    long last = -2; double c0 = 0, w0 = now(), start = w0;
    for (;;) {
        int st = 0;
        if (waitpid(p, &st, WNOHANG) == p) return st;
        usleep(2000);
        long cs = slot->cases; double w = now();
        if (cs != last) { last = cs; c0 = cpu_of(p); w0 = w; }
        else if (w - w0 > 1 && (cpu_of(p) - c0 > cpulim || w - w0 > walllim)) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
        if (w - start > budget) { kill(p, SIGKILL); waitpid(p, &st, 0); return -2; }
    }
}
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch == '\t') o += "\\t";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

int check_main(int argc, char** argv, const JobMaker& make, const CheckInfo& info) {
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    const std::string prop = opt.count("--prop") ? opt["--prop"] : "C00";
    const bool thorough = opt["--tier"] == "thorough";
    const double t0 = now();
    const bool freerun = opt.count("--job");
    std::vector<Job> jobs;
    make(jobs, thorough);
    void* mem = mmap(nullptr, OUTBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_bits = static_cast<std::atomic<unsigned char>*>(mem);
    auto new_slot = [] { return static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); };
    auto new_err = [] { return memfd_create("err", 0); };
    const double HANG_CPU = 20, HANG_WALL = 240;

    if (freerun) {      // replay one job/case by hand
        for (const Job& j : jobs) if (j.name == opt["--job"]) {
            Slot* s = new_slot(); int e = new_err();
            long only = opt.count("--case") ? atol(opt["--case"].c_str()) : -1;
            long logat = opt.count("--log") ? atol(opt["--log"].c_str()) : -1;
            int st = run_one(j, s, e, only, logat, 1e9, 1e9);
            printf("%s\nstatus %d case %ld: %.*s\n%s\n", std::string(s->log, s->loglen).c_str(), st, (long)s->cases, (int)(size_t)s->msglen, s->msg, tail(e).c_str());
            return st ? 1 : 0;
        }
        fprintf(stderr, "no such job\n");
        return 2;
    }

    size_t W = opt.count("--workers") ? atoi(opt["--workers"].c_str()) : 8;
    std::vector<Child> ch(W);
    for (Child& c : ch) { c.slot = new_slot(); c.errfd = new_err(); }
    size_t next = 0, done = 0;
    u64 states = 0, transitions = 0, traces = 0, cases = 0, capped = 0; size_t slow = 0;
    bool violated = false; std::string vmsg; size_t vjob = 0; long vcase = 0; const char* vkind = "";
    std::string verr;
    auto stop_all = [&](Child* except) {
        for (Child& c : ch) if (c.pid && &c != except) { kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); c.pid = 0; }
    };
    struct Susp { size_t job; long cs; const char* kind; std::string msg, err; };
    std::vector<Susp> susp;
    std::vector<std::pair<double, std::string>> timing;
    bool unconfirmed = false;
    std::string vlog; std::string vapi; bool vhistory = false;
    auto failed = [&](int st) { return !(st == -2) && (st == -1 || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)); };
 again:
    while (done < jobs.size() && susp.empty()) {
        bool idle = true;
        for (Child& c : ch) {
            if (!c.pid) {
                if (next < jobs.size()) {
                    c.job = next++; c.lastcase = -2; c.lastwall = now(); c.lastcpu = 0; c.started = now();
                    c.pid = spawn(jobs[c.job], c.slot, c.errfd, -1, -1); idle = false;
                }
                continue;
            }
            int st = 0;
            if (waitpid(c.pid, &st, WNOHANG) == c.pid) {
                c.pid = 0; idle = false;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    ++done; states += c.slot->states; transitions += c.slot->transitions; traces += c.slot->traces; capped += c.slot->capped;
                    cases += c.slot->cases + 1;
                    timing.push_back({now() - c.started, jobs[c.job].name});
                } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
                    susp.push_back({c.job, c.slot->cases, "mismatch", std::string(c.slot->msg, c.slot->msglen), tail(c.errfd)});
                } else {
                    std::string m = WIFSIGNALED(st) ? "the process died of signal " + std::to_string(WTERMSIG(st)) : "the process exited with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or abort)";
                    susp.push_back({c.job, c.slot->cases, "crash", m, tail(c.errfd)});
                }
                if (!susp.empty()) break;
                continue;
            }
            long cs = c.slot->cases; double w = now();
            if (cs != c.lastcase) { c.lastcase = cs; c.lastwall = w; c.lastcpu = cpu_of(c.pid); }
            else if (w - c.lastwall > 1 && (cpu_of(c.pid) - c.lastcpu > HANG_CPU || w - c.lastwall > HANG_WALL)) {
                kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); c.pid = 0;
                susp.push_back({c.job, cs, "hang", "no result", ""});
                break;
            }
        }
        if (idle) usleep(1000);
    }
    if (!susp.empty()) {
        // Replay before report. The other workers are suspended meanwhile.
        const Susp s = susp[0]; susp.clear();
        for (Child& c : ch) if (c.pid) kill(c.pid, SIGSTOP);
        Slot* sl = new_slot(); int e = new_err();
        const bool soft = !strcmp(s.kind, "hang") || (!strcmp(s.kind, "crash") && s.msg.find("signal 9") != std::string::npos);
        violated = true; vjob = s.job; vcase = s.cs; vkind = s.kind; vmsg = s.msg; verr = s.err;
        int st = run_one(jobs[s.job], sl, e, s.cs, -1, 60, 300, 330);
        if (!failed(st)) {
            vhistory = true;
            st = run_one(jobs[s.job], sl, e, -1, s.cs, soft ? 90 : 60, 300, soft ? 500 : 330);
            if (soft && st == 0) {      // merely slow (or ended from outside): the whole job has now run
                violated = vhistory = false; ++slow; ++done;
                states += sl->states; transitions += sl->transitions; traces += sl->traces; capped += sl->capped; cases += sl->cases + 1;
                const double w = now();
                for (Child& c : ch) if (c.pid) { kill(c.pid, SIGCONT); c.lastwall = w; }
                munmap(sl, sizeof(Slot)); close(e);
                goto again;
            }
            if (soft && !failed(st)) unconfirmed = true;
        }
        if (failed(st)) {
            if (st == -1) vmsg = "does not terminate (stopped after 60 s of computing on this case alone)";
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) vmsg = std::string(sl->msg, sl->msglen);
            verr = tail(e);
        } else if (!unconfirmed) vmsg += " (seen once; not reproduced on replay)";
        vlog.assign(sl->log, sl->loglen); vapi = sl->apiname;
    }
    stop_all(nullptr);
    if (unconfirmed) {
        fprintf(stderr, "internal: job %s was slow but completed on replay\n", jobs[vjob].name.c_str());
        return 2;
    }
    // samples
    std::string samples;
    if (!violated) {
        Slot* sl = new_slot(); int e = new_err(); size_t got = 0;
        for (size_t k = 0; k < jobs.size() && got < 3; k += std::max<size_t>(1, jobs.size() / 3)) {
            long pick = 7;
            for (int tries = 0; tries < 2; ++tries, pick = 0) {
                run_one(jobs[k], sl, e, pick, -1, 5, 10, 15);
                if (sl->loglen) {
                    samples += (got ? ", " : "") + jstr("job " + jobs[k].name + " case " + std::to_string(pick) + ":\n" + std::string(sl->log, std::min<size_t>(sl->loglen, 700)));
                    ++got; break;
                }
            }
        }
        if (!got) samples = jstr("job " + jobs[0].name);
    } else samples = jstr("violation: " + vmsg);
    u64 bits = 0; for (size_t i = 0; i < OUTBITS / 8; ++i) bits += __builtin_popcount(g_bits[i]);

    if (opt.count("--evidence")) {
        std::ofstream f(opt["--evidence"]);
        f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(thorough ? "thorough" : "quick")
          << ",\n \"seed\": " << (getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 0) << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
          << "  \"states\": " << states << ",\n  \"transitions\": " << transitions << ",\n  \"traces_validated_against_impl\": " << traces
          << ",\n  \"cases_capped\": " << capped << ",\n  \"jobs_rerun_for_slowness\": " << slow << ",\n  \"jobs\": " << done << ",\n  \"distinct_outcome_buckets\": " << bits
          << ",\n  \"outcome_buckets_available\": " << OUTBITS
          << ",\n  \"exhaustive\": " << (info.exhaustive && !violated && !capped ? "true" : "false") << ",\n  \"rule\": " << jstr(info.rule) << ",\n  \"samples\": [" << samples << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < info.assumptions.size(); ++i) f << (i ? ", " : "") << jstr(info.assumptions[i]);
        f << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
    }
    if (getenv("VERIF_TIMING")) {
        std::sort(timing.rbegin(), timing.rend());
        for (size_t i = 0; i < timing.size() && i < 12; ++i) fprintf(stderr, "  %6.2fs %s\n", timing[i].first, timing[i].second.c_str());
    }
    if (violated) {
        const std::string rp = opt.count("--replay") ? opt["--replay"] : "/tmp/replay.cpp";
        std::ofstream f(rp);
        std::string one = vmsg; for (char& c : one) if (c == '\n') c = ' ';
        f << "// Property " << prop << " violated (" << vkind << ") in job '" << jobs[vjob].name << "', case " << vcase << ":\n//   " << one << "\n"
          << "// Replay in the explorer: <harness binary> --prop " << prop << " --tier " << (thorough ? "thorough" : "quick") << " --job '" << jobs[vjob].name << "' " << (vhistory ? "--log " : "--case ") << vcase << "\n";
        if (vhistory) f << "// NOTE: the failure needs the earlier cases of the same job (process history); the calls below are the failing case only.\n";
        if (!verr.empty()) { std::istringstream is(verr); std::string l; int k = 0; while (std::getline(is, l) && k++ < 60) f << "//   | " << l << "\n"; }
        const Api* a = vapi.empty() ? nullptr : api_by_name(vapi);
        f << "#include <deque>\n#include <iostream>\n#include <utility>\n#include <vector>\n#include \"bignum/bignum.h\"\n" << (a ? a->preamble : "")
          << "template <class T> void show(const char* n, const T& x) { std::cout << n << \" = descriptor \" << x.getDescriptor() << \" digits (least significant first)\"; for (auto d : x.getData()) std::cout << ' ' << (unsigned long)d; std::cout << std::endl; }\n"
          << "int main() {\n" << vlog;
        std::vector<std::string> names; { std::istringstream is(vlog); std::string l; while (std::getline(is, l)) { size_t p = l.find("bignum_"); if (p == 4) { size_t q = l.find(" n", p); if (q != std::string::npos) { size_t r = l.find_first_not_of("0123456789", q + 2); names.push_back(l.substr(q + 1, r - q - 1)); } } } }
        for (const std::string& n : names) f << "    show(\"" << n << "\", " << n << ");\n";
        f << "    // explorer's verdict: " << one << "\n}\n";
        f.close();
        printf("%s: %s in job '%s', case %ld: %s\n", prop.c_str(), vkind, jobs[vjob].name.c_str(), vcase, one.substr(0, 1500).c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
        return 1;
    }
    printf("%s: held on %llu states, %llu transitions, %llu traces, %llu cases in %zu jobs (%.1f s)\n", prop.c_str(),
           (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)traces, (unsigned long long)cases, done, now() - t0);
    return 0;
}
