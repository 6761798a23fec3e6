// simrun: runs seeded simulations of one property, replays and minimises failures.
#include "wl.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

using sim::Outcome;
using sim::Schedule;

// weak: a workload whose file cannot be built against the present headers is left out, and only its properties have no answer
#define EACH(X) X(01) X(02) X(03) X(04) X(05) X(06) X(07) X(08) X(09) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20)
#define DECL(n) extern const Workload w_p##n __attribute__((weak));
EACH(DECL)
const std::vector<Workload> &workloads() {
    static const std::vector<Workload> v = [] {
        std::vector<Workload> w;
#define ADD(n) if (&w_p##n) w.push_back(w_p##n);
        EACH(ADD)
        return w;
    }();
    return v;
}
const Workload *find_workload(const std::string &id) {
    for (auto &w : workloads())
        if (id == w.id) return &w;
    return nullptr;
}

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// workloads whose body may run several times at once
static bool team_body(const Workload &w) {
    static const char *ids[] = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P09", "P11", "P15", "P16", "P17"};
    for (auto id : ids)
        if (!strcmp(w.id, id)) return true;
    return false;
}
// What the process does after the body: the same once more, on something else.  0: anything, 1: the same sizes,
// 2: the same sizes, with the rows in another order
static bool later(const Workload &w, const Params &p, Params &q) {
    int64_t k = get(p, "then");
    if (!k) return false;
    Rng r(sim::mix((uint64_t)k, 0x7e4));
    static const char *keep[] = {"nthreads", "lag", "reduce", "poison", "poison2", "inregion"};
    if (get(p, "thenmode") == 0)
        for (int t = 0; t < 40; t++) {
            q = w.gen(r, 0);
            if (get(q, "reduce") != get(p, "reduce") || get(q, "big") > 1 || (get(q, "lag", -1) < 0) != (get(p, "lag", -1) < 0)) continue;
            if (get(q, "apps", 1) * (get(p, "inregion") ? 2 : 1) * get(p, "nthreads", 1) > 48) continue;
            for (auto c : keep) {
                if (p.count(c)) q[c] = get(p, c);
                else q.erase(c);
            }
            return true;
        }
    q = p;
    q.erase("then");
    for (auto c : {"vseed", "hseed"})
        if (q.count(c)) q[c] = (int64_t)(r.next() >> 34);
    if (get(p, "thenmode") == 2) q["renum"] = 1;
    else if (q.count("mseed")) q["mseed"] = (int64_t)(r.next() >> 34);
    return true;
}
static void guarded(const Workload &w, const Params &p) {
    std::string what;
    try {
        w.body(p);
        return;
    } catch (const std::exception &e) {
        what = e.what();
    } catch (...) {
        what = "unknown exception";
    }
    bad("exception", "an operation that must succeed threw an exception: %s", what.c_str());
}
static Outcome once(const Workload &w, const Params &p, const Schedule &sch) {
    RunConfig c = w.cfg ? w.cfg(p) : base_cfg(p);
    values_off = false;
    sim::abort_is_failstop = false;
    struct itimerval tv = {{0, 0}, {15, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    Outcome o = sim::run(c, sch, [&]() {
        if (get(p, "inregion") && team_body(w)) {
#pragma omp parallel num_threads(2)
            guarded(w, p);
        } else {
            guarded(w, p);
            Params q;
            if (later(w, p, q)) {
                if (get(p, "reuse")) sim::recycle();
                guarded(w, q);
            }
        }
    });
    tv = {{0, 0}, {0, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    return o;
}
static Outcome execute(const Workload &w, const Params &p, const Schedule &sch) {
    Outcome a = once(w, p, sch);
    if (!w.two_poisons || a.violation || a.trivial) return a;
    Params q = p;
    q["poison"] = get(p, "poison2");
    Schedule rep;
    rep.replay = true;
    rep.switches = a.switches;
    rep.decisions = a.decisions;
    Outcome b = once(w, q, rep);
    if (b.violation) { b.policy = a.policy; return b; }
    if (b.trivial) return a;
    if (b.out_hash != a.out_hash) {
        a.violation = true;
        a.cls = "uninitialised";
        a.msg = "the same execution with other contents of freshly allocated memory gives another result: a result depends on uninitialised data";
    }
    a.hash = sim::mix(a.hash, b.hash);
    a.steps += b.steps;
    a.vtime += b.vtime;
    a.faults.add(b.faults);
    return a;
}

static uint64_t hash_params(const Params &p) {
    uint64_t h = 7;
    for (auto &kv : p) {
        for (char c : kv.first) h = sim::mix(h, (uint64_t)c);
        h = sim::mix(h, (uint64_t)kv.second);
    }
    return h;
}
static uint64_t hash_str(const std::string &s) {
    uint64_t h = 3;
    for (char c : s) h = sim::mix(h, (uint64_t)c);
    return h;
}
static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
static std::string params_json(const Params &p) {
    std::ostringstream s;
    s << "{";
    bool f = true;
    for (auto &kv : p) { s << (f ? "" : ",") << '"' << kv.first << "\":" << kv.second; f = false; }
    s << "}";
    return s.str();
}

struct Case {
    std::string prop;
    Params p;
    Schedule sch;     // replay form
    std::string cls, msg;
    uint64_t hash = 0, seed = 0;
    int64_t index = -1;
};
static Case to_case(const std::string &prop, const Params &p, const Outcome &o) {
    Case c;
    c.prop = prop; c.p = p;
    c.sch.replay = true;
    c.sch.switches = o.switches;
    c.sch.decisions = o.decisions;
    c.cls = o.cls; c.msg = o.msg; c.hash = o.hash;
    return c;
}
static void write_case(const Case &c, const std::string &file) {
    std::ofstream f(file);
    f << "blasted-sim-replay 1\nproperty " << c.prop << "\nseed " << c.seed << "\nindex " << c.index << "\nclass " << c.cls
      << "\nhash " << c.hash << "\nmessage " << c.msg << "\n";
    for (auto &kv : c.p) f << "param " << kv.first << " " << kv.second << "\n";
    f << "decisions";
    for (auto d : c.sch.decisions) f << " " << d;
    f << "\n";
    for (auto &s : c.sch.switches) f << "switch " << s.first << " " << s.second << "\n";
    f << "end\n";
}
static bool read_case(const std::string &file, Case &c) {
    std::ifstream f(file);
    std::string line, k;
    if (!std::getline(f, line) || line != "blasted-sim-replay 1") return false;
    c.sch.replay = true;
    bool end = false;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        s >> k;
        if (k == "property") s >> c.prop;
        else if (k == "seed") s >> c.seed;
        else if (k == "index") s >> c.index;
        else if (k == "class") s >> c.cls;
        else if (k == "hash") s >> c.hash;
        else if (k == "message") c.msg = line.size() > 8 ? line.substr(8) : "";
        else if (k == "param") { std::string n; int64_t v; s >> n >> v; c.p[n] = v; }
        else if (k == "decisions") { int64_t v; while (s >> v) c.sch.decisions.push_back(v); }
        else if (k == "switch") { uint64_t a; int b; s >> a >> b; c.sch.switches.push_back({a, b}); }
        else if (k == "end") end = true;
    }
    return end;
}

static void gen_case(const Workload &w, uint64_t seed, int64_t idx, int tier, Params &p, Schedule &sch) {
    uint64_t rs = sim::mix(sim::mix(seed, hash_str(w.id)), (uint64_t)idx);
    Rng r(rs);
    p = w.gen(r, tier);
    // some of the runs make every call from inside a parallel region of the application (2: nested parallelism on)
    if (team_body(w) && r.chance(0.05)) p["inregion"] = r.range(1, 2);
    if (!get(p, "inregion") && get(p, "big") < 2 && r.chance(0.1)) {
        p["then"] = 1 + (int64_t)(r.next() >> 34);
        p["thenmode"] = r.below(3);
        p["reuse"] = r.below(2);
    }
    {   // the simulator has room for 64 simulated threads
        int64_t apps = get(p, "apps", 1) * (get(p, "inregion") ? 2 : 1);
        if (apps * get(p, "nthreads", 1) > 48) p["nthreads"] = 48 / apps;
    }
    if (w.two_poisons) p["poison2"] = (get(p, "poison") + 1 + (int64_t)r.below(4)) % 5;
    sch = Schedule();
    sch.seed = sim::mix(rs, 77);
}

static const char *arg(int c, char **v, const char *name, const char *d) {
    for (int i = 1; i + 1 < c; i++)
        if (!strcmp(v[i], name)) return v[i + 1];
    return d;
}

static int cmd_run(int argc, char **argv) {
    std::string prop = arg(argc, argv, "--prop", "");
    const Workload *w = find_workload(prop);
    if (!w) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    int worker = atoi(arg(argc, argv, "--worker", "0")), nw = atoi(arg(argc, argv, "--nworkers", "1"));
    double tmax = atof(arg(argc, argv, "--time", "20"));
    int64_t maxruns = atoll(arg(argc, argv, "--runs", "1000"));       // all workers together
    int tier = atoi(arg(argc, argv, "--tier", "0"));
    std::string out = arg(argc, argv, "--out", "/dev/null");
    std::string log = arg(argc, argv, "--log", "");
    std::string known = arg(argc, argv, "--known", "");
    std::set<std::string> known_cls;
    { std::istringstream s(known); std::string k; while (std::getline(s, k, ',')) if (!k.empty()) known_cls.insert(k); }
    double t0 = now();
    sim::FaultCounts fc;
    int64_t runs = 0, nontrivial = 0, failstop = 0, trivial = 0;
    uint64_t steps = 0, vtime = 0, switches = 0, preempts = 0;
    std::map<int, int64_t> pol, team;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    bool have = false, timeout = false;
    Case vc;
    std::ofstream lf;
    if (!log.empty()) lf.open(log);
    std::map<std::string, int64_t> ops;
    int cur = open((out + ".cur").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);   // the run in progress, should this process die
    for (int64_t i = worker; i < maxruns; i += nw) {
        if (now() - t0 > tmax) { timeout = true; break; }
        if (cur >= 0) (void)!pwrite(cur, &i, 8, 0);
        Params p;
        Schedule sch;
        gen_case(*w, seed, i, tier, p, sch);
        Outcome o = execute(*w, p, sch);
        runs++;
        if (o.cls == "failstop") failstop++;
        if (lf) {
            lf << i << " " << o.hash << " " << o.out_hash << " " << o.steps << " " << o.violation << " " << o.cls << "\n";
            lf.flush();
        }
        fc.add(o.faults);
        steps += o.steps; vtime += o.vtime; switches += o.nswitch; preempts += o.preempts;
        pol[o.policy]++;
        team[o.max_team]++;
        if (p.count("type")) ops[type_names[get(p, "type")]]++;
        if (p.count("op")) ops["op" + std::to_string(get(p, "op"))]++;
        if (p.count("sub")) ops["sub" + std::to_string(get(p, "sub"))]++;
        const sim::FaultCounts &f = o.faults;
        bool faulty = f.alloc_fail || f.short_read || f.eintr || f.eio || f.truncation || f.corruption || f.open_fail || f.api_fail || f.clock_step || f.team_reduced || f.lag_hold;
        if (o.trivial) trivial++;
        else if (o.preempts > 0 || faulty) {
            nontrivial++;
            hashes.push_back(sim::mix(o.hash, hash_params(p)));
        }
        if (samples.size() < 2 && !o.trivial && (i / nw) % 7 == 3) {
            std::ostringstream s;
            s << "{\"index\":" << i << ",\"params\":" << params_json(p) << ",\"policy\":\"" << sim::policy_names[o.policy]
              << "\",\"steps\":" << o.steps << ",\"switches\":" << o.nswitch << ",\"preemptions\":" << o.preempts
              << ",\"team\":" << o.max_team << ",\"event_hash\":\"" << o.hash << "\"}";
            samples.push_back(s.str());
        }
        if (o.violation) {
            vc = to_case(prop, p, o);
            vc.seed = seed; vc.index = i;
            have = true;
            break;
        }
    }
    std::ofstream f(out);
    f << "{\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"trivial\":" << trivial << ",\"failstop\":" << failstop
      << ",\"steps\":" << steps << ",\"vtime\":" << vtime << ",\"switches\":" << switches << ",\"preempts\":" << preempts
      << ",\"timeout\":" << (timeout ? 1 : 0) << ",\"wall\":" << now() - t0;
    f << ",\"faults\":{\"preemption\":" << fc.preempt << ",\"thread_stall\":" << fc.stall << ",\"late_start\":" << fc.late_start
      << ",\"delayed_write\":" << fc.wstall << ",\"straggler\":" << fc.straggler << ",\"team_reduced\":" << fc.team_reduced << ",\"lag_hold\":" << fc.lag_hold
      << ",\"alloc_fail\":" << fc.alloc_fail << ",\"memory_poison\":" << fc.poison << ",\"short_read\":" << fc.short_read
      << ",\"eintr\":" << fc.eintr << ",\"eio\":" << fc.eio << ",\"truncation\":" << fc.truncation << ",\"corruption\":" << fc.corruption
      << ",\"open_fail\":" << fc.open_fail << ",\"petsc_call_fail\":" << fc.api_fail << ",\"clock_step\":" << fc.clock_step << "}";
    f << ",\"policies\":{";
    bool first = true;
    for (auto &kv : pol) { f << (first ? "" : ",") << '"' << sim::policy_names[kv.first] << "\":" << kv.second; first = false; }
    f << "},\"teams\":{";
    first = true;
    for (auto &kv : team) { f << (first ? "" : ",") << '"' << kv.first << "\":" << kv.second; first = false; }
    f << "},\"ops\":{";
    first = true;
    for (auto &kv : ops) { f << (first ? "" : ",") << '"' << kv.first << "\":" << kv.second; first = false; }
    f << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << samples[i];
    f << "],\"violation\":" << (have ? "true" : "false");
    if (have) {
        f << ",\"cls\":\"" << esc(vc.cls) << "\",\"msg\":\"" << esc(vc.msg) << "\",\"index\":" << vc.index;
        write_case(vc, out + ".case");
    }
    f << "}\n";
    f.close();
    std::ofstream hf(out + ".hashes", std::ios::binary);
    hf.write((const char *)hashes.data(), hashes.size() * 8);
    return 0;
}

// exit 1: reproduces exactly (class and event hash); 0: no violation; 2: something else happened
static int cmd_replay(int argc, char **argv) {
    if (argc < 3) return 3;
    Case c;
    if (!read_case(argv[2], c)) { dprintf(sim::out_fd, "unreadable replay file\n"); return 3; }
    const Workload *w = find_workload(c.prop);
    if (!w) return 3;
    Outcome o = execute(*w, c.p, c.sch);
    dprintf(sim::out_fd, "property %s params %s\nswitches %zu decisions %zu steps %lu\n", c.prop.c_str(), params_json(c.p).c_str(),
            c.sch.switches.size(), c.sch.decisions.size(), (unsigned long)o.steps);
    if (o.violation) dprintf(sim::out_fd, "violation class=%s hash=%lu: %s\n", o.cls.c_str(), (unsigned long)o.hash, o.msg.c_str());
    else dprintf(sim::out_fd, "no violation (hash=%lu)\n", (unsigned long)o.hash);
    if (!o.violation) return 0;
    return o.cls == c.cls && o.hash == c.hash ? 1 : 2;
}

static int cmd_index(int argc, char **argv) {   // one run of a search, by index
    std::string prop = arg(argc, argv, "--prop", "");
    const Workload *w = find_workload(prop);
    if (!w) return 3;
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    int64_t i = atoll(arg(argc, argv, "--index", "0"));
    Params p;
    Schedule sch;
    gen_case(*w, seed, i, atoi(arg(argc, argv, "--tier", "0")), p, sch);
    for (int k = 2; k + 1 < argc; k++)
        if (!strcmp(argv[k], "--set")) { std::string kv = argv[k + 1]; size_t e = kv.find('='); p[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); }
    dprintf(sim::out_fd, "params %s\n", params_json(p).c_str());
    Outcome o = execute(*w, p, sch);
    dprintf(sim::out_fd, "policy %s steps %lu switches %lu preempts %lu team %d hash %lu out %lu trivial %d\n", sim::policy_names[o.policy],
            (unsigned long)o.steps, (unsigned long)o.nswitch, (unsigned long)o.preempts, o.max_team, (unsigned long)o.hash, (unsigned long)o.out_hash, o.trivial);
    if (o.violation) dprintf(sim::out_fd, "violation class=%s: %s\n", o.cls.c_str(), o.msg.c_str());
    std::string cf = arg(argc, argv, "--case", "");
    if (!cf.empty()) { Case c = to_case(prop, p, o); c.seed = seed; c.index = i; write_case(c, cf); }
    return o.violation ? 1 : 0;
}

// ---------------------------------------------------------------- minimisation
static int budget = 0;
static double deadline = 0;
static bool try_case(const Workload &w, const Params &p, const Schedule &s, const std::string &cls, Outcome &o) {
    if (budget <= 0 || now() > deadline) return false;
    budget--;
    o = execute(w, p, s);
    return o.violation && o.cls == cls;
}
static void norm(Case &c, const Outcome &o) {   // keep what the run really used, without a benign tail
    c.sch.replay = true;
    c.sch.switches = o.switches;
    c.sch.decisions = o.decisions;
    while (!c.sch.decisions.empty() && c.sch.decisions.back() == 0) c.sch.decisions.pop_back();
    c.msg = o.msg;
    c.hash = o.hash;
}
static int cmd_minimize(int argc, char **argv) {
    if (argc < 4) return 3;
    Case c;
    if (!read_case(argv[2], c)) return 3;
    const Workload *w = find_workload(c.prop);
    if (!w) return 3;
    budget = atoi(arg(argc, argv, "--budget", "3000"));
    deadline = now() + atof(arg(argc, argv, "--time", "25"));
    Outcome o;
    if (!try_case(*w, c.p, c.sch, c.cls, o)) { dprintf(sim::out_fd, "the case does not reproduce\n"); return 2; }
    norm(c, o);
    // 1. parameters, searching schedules again when needed
    struct Sh { const char *k; std::vector<int64_t> to; };
    static const std::vector<Sh> shr = {{"inregion", {0, 1}}, {"then", {0}}, {"recompute", {0}}, {"info", {0}}, {"extra", {0}}, {"napply", {1}}, {"reduce", {0}}, {"nops", {1, 2, 3, 4}}, {"napp", {1, 2}},
                                        {"chunk", {1}}, {"nb", {2, 3, 4, 5, 6, 8}}, {"nthreads", {2, 3}}, {"lag", {0, 1}}, {"sdiag", {0}}, {"scale", {0}}};
    Rng rr(12345);
    for (auto &s : shr) {
        if (!c.p.count(s.k)) continue;
        for (int64_t v : s.to) {
            if (v >= c.p[s.k]) break;
            Params q = c.p;
            q[s.k] = v;
            bool ok = try_case(*w, q, c.sch, c.cls, o);
            for (int t = 0; !ok && t < 25 && now() < deadline; t++) {
                Schedule sc;
                sc.seed = rr.next();
                ok = try_case(*w, q, sc, c.cls, o);
            }
            if (ok) { c.p = q; norm(c, o); break; }
        }
    }
    // 2. no schedule at all?
    Schedule e;
    e.replay = true;
    if (try_case(*w, c.p, e, c.cls, o)) norm(c, o);
    else {
        // shortest of several random schedules as the starting point
        for (int t = 0; t < 60 && now() < deadline; t++) {
            Schedule sc;
            sc.seed = rr.next();
            if (try_case(*w, c.p, sc, c.cls, o) && o.switches.size() + o.decisions.size() < c.sch.switches.size() + c.sch.decisions.size()) norm(c, o);
        }
        // decisions to benign
        for (size_t ch = std::max<size_t>(1, c.sch.decisions.size()); ch >= 1; ch /= 2) {
            for (size_t i = 0; i < c.sch.decisions.size(); i += ch) {
                Schedule s = c.sch;
                bool any = false;
                for (size_t j = i; j < std::min(i + ch, s.decisions.size()); j++) { any |= s.decisions[j] != 0; s.decisions[j] = 0; }
                if (any && try_case(*w, c.p, s, c.cls, o)) norm(c, o);
            }
            if (ch == 1) break;
        }
        // ddmin over the context switches
        bool progress = true;
        while (progress && budget > 0 && now() < deadline) {
            progress = false;
            for (size_t ch = std::max<size_t>(1, c.sch.switches.size() / 2); ch >= 1; ch /= 2) {
                for (size_t i = 0; i < c.sch.switches.size();) {
                    Schedule s = c.sch;
                    s.switches.erase(s.switches.begin() + i, s.switches.begin() + std::min(i + ch, s.switches.size()));
                    if (try_case(*w, c.p, s, c.cls, o) && o.switches.size() < c.sch.switches.size()) { norm(c, o); progress = true; }
                    else i += ch;
                    if (budget <= 0 || now() > deadline) break;
                }
                if (ch == 1) break;
            }
        }
    }
    // the written case must reproduce itself exactly
    budget = 1; deadline = now() + 1e9;
    if (!try_case(*w, c.p, c.sch, c.cls, o)) return 2;
    c.hash = o.hash; c.msg = o.msg;
    write_case(c, argv[3]);
    dprintf(sim::out_fd, "minimised: %zu switches, %zu decisions, params %s\n", c.sch.switches.size(), c.sch.decisions.size(), params_json(c.p).c_str());
    return 0;
}

int main(int argc, char **argv) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl = {12ull << 30, 12ull << 30};
    (void)rl;
    sim::init();
    sim::out_fd = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (!getenv("SIM_VERBOSE")) dup2(nul, 2);
    // first use of the C++ library's streams and formatting (state outside the code under test) happens before any run
    for (const char *id : {"P14", "P13", "P01"}) {
        const Workload *w = find_workload(id);
        for (int64_t i = 0; w && i < 12; i++) {
            Params p;
            Schedule sch;
            gen_case(*w, 4711, i, 0, p, sch);
            if (execute(*w, p, sch).violation) break;
        }
    }
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "run") return cmd_run(argc, argv);
    if (cmd == "replay") return cmd_replay(argc, argv);
    if (cmd == "minimize") return cmd_minimize(argc, argv);
    if (cmd == "index") return cmd_index(argc, argv);
    dprintf(sim::out_fd, "usage: simrun run|replay|minimize|index ...\n");
    return 3;
}
