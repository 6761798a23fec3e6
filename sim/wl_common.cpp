#include "wl.h"
#include <cstdarg>
#include <cstdio>

bool values_off = false;
const char *type_names[] = {"jacobi", "gs", "sgs", "ilu0", "seqilu0", "sfilu0", "sapilu0", "cscbgs", "level_sgs", "async_level_ilu0", "none"};

int64_t get(const Params &p, const char *k, int64_t dflt) {
    auto it = p.find(k);
    return it == p.end() ? dflt : it->second;
}
RunConfig base_cfg(const Params &p) {
    RunConfig c;
    c.nthreads = (int)std::max<int64_t>(1, get(p, "nthreads", 1));
    c.lag = (int)get(p, "lag", -1);
    c.reduce_team = (int)get(p, "reduce", 0);
    c.nested = get(p, "inregion") > 1;
    c.poison = (int)get(p, "poison", 1);
    c.alloc_fail_at = (int)get(p, "alloc_fail", -1);
    c.max_steps = get(p, "big") || get(p, "then") ? 300000000 : 30000000;
    return c;
}
void bad(const char *cls, const char *fmt, ...) {
    char b[800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::fail(cls, b);
}
void badv(const char *cls, const char *fmt, ...) {
    if (values_off) return;
    char b[800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim::fail(cls, b);
}

template <class T> static T *put(const T *src, size_t n, int align) {
    T *p = (T *)sim::arena_alloc(n * sizeof(T), align);
    if (n) memcpy((void *)p, src, n * sizeof(T));
    return p;
}
Held::Held(const Sys &sys, int align) : s(sys) {
    rp = put(s.rp.data(), s.rp.size(), 4);
    ci = put(s.ci.data(), s.ci.size(), 4);
    di = put(s.di.data(), s.di.size(), 4);
    std::vector<int> e(s.rp.begin() + 1, s.rp.end());
    re = put(e.data(), e.size(), 4);
    v = put(s.v.data(), s.v.size(), align);
}
Held::~Held() {
    sim::arena_release(rp);
    sim::arena_release(ci);
    sim::arena_release(di);
    sim::arena_release(re);
    sim::arena_release(v);
}
void Held::set_values(const Vec &nv) { memcpy(v, nv.data(), nv.size() * sizeof(double)); }
void Held::check_unmodified(const char *when) const {
    if (memcmp(rp, s.rp.data(), s.rp.size() * sizeof(int)) || memcmp(ci, s.ci.data(), s.ci.size() * sizeof(int)) ||
        memcmp(di, s.di.data(), s.di.size() * sizeof(int)) || memcmp(re, s.rp.data() + 1, (s.rp.size() - 1) * sizeof(int)))
        badv("input-modified", "the caller's matrix structure was modified by %s", when);
    if (s.v.size() && memcmp(v, s.v.data(), s.v.size() * sizeof(double)))
        badv("input-modified", "the caller's matrix values were modified by %s", when);
}
blasted::SRMatrixStorage<const double, const int> Held::wrap() const {
    return blasted::SRMatrixStorage<const double, const int>(rp, ci, v, di, re, s.nb, s.nnzb(), s.nnzb(), s.bs);
}
blasted::CRawBSRMatrix<double, int> Held::raw() const {
    return blasted::CRawBSRMatrix<double, int>(rp, ci, v, di, re, s.nb, s.nnzb(), s.nnzb());
}
HVec::HVec(const Vec &x, int align) : n((int)x.size()), orig(x) { d = put(x.data(), x.size(), align); }
HVec::~HVec() { sim::arena_release(d); }
void HVec::set(const Vec &x) {
    orig = x;
    if (n) memcpy(d, x.data(), n * sizeof(double));
}
void HVec::check_unmodified(const char *when) const {
    if (n && memcmp(d, orig.data(), n * sizeof(double))) badv("input-modified", "an input vector was modified by %s", when);
}
HInts::HInts(const std::vector<int> &x) : n((int)x.size()) { d = put(x.data(), x.size(), 4); }
HInts::~HInts() { sim::arena_release(d); }

void Prec::create(const Held &h, const Settings &st) {
    static const BlastedSolverType tt[] = {
        BLASTED_JACOBI, BLASTED_GS, BLASTED_SGS, BLASTED_ILU0, BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0,
        BLASTED_CSC_BGS, BLASTED_LEVEL_SGS, BLASTED_ASYNC_LEVEL_ILU0, BLASTED_NO_PREC};
    blasted::AsyncSolverSettings s;
    s.prectype = tt[st.type];
    s.bs = h.s.bs;
    s.blockstorage = h.s.rm ? blasted::RowMajor : blasted::ColMajor;
    s.relax = st.relax;
    s.thread_chunk_size = st.chunk;
    s.scale = st.scale;
    s.nbuildsweeps = st.bsw;
    s.napplysweeps = st.asw;
    s.fact_inittype = (blasted::FactInit)st.finit;
    s.apply_inittype = (blasted::ApplyInit)st.ainit;
    s.compute_precinfo = st.info;
    Sut in;
    blasted::SRFactory<double, int> f;
    p = f.create_preconditioner(h.wrap(), s);
}
blasted::PrecInfo Prec::compute() { Sut in; return p->compute(); }
void Prec::apply(const HVec &r, HVec &z) const { Sut in; p->apply(r.d, z.d); }
void Prec::relax(const HVec &b, HVec &x, int maxits, bool ctol, double rtol, double atol, double dtol) {
    blasted::SolveParams<double> sp{rtol, atol, dtol, ctol, maxits};
    Sut in;
    p->setApplyParams(sp);
    p->apply_relax(b.d, x.d);
}
void Prec::destroy() {
    if (!p) return;
    Sut in;
    delete p;
    p = nullptr;
}

void gen_sys_params(Params &p, Rng &r, const SysOpt &o) {
    int bs = 1;
    bool rm = false;
    if (o.blocks) {
        int c = (int)r.below(8);
        if (c == 5) { bs = 4; rm = true; }
        if (c == 6) { bs = 4; rm = false; }
        if (c == 7) { bs = 5; rm = false; }
    }
    int lo = std::max(1, o.min_nb);
    int hi = std::max(lo, bs == 1 ? o.max1 : o.max4);
    int nb = r.chance(0.15) ? r.range(lo, std::min(hi, lo + 2)) : r.range(std::min(hi, lo + 2), hi);
    p["bs"] = bs;
    p["rm"] = rm;
    p["nb"] = nb;
    int pat = (int)r.below(model::NPAT);
    if (pat == model::P_RAND_NONSYM && o.symmetric) pat = model::P_RAND_SYM;
    if (pat == model::P_DIAG && r.chance(0.7)) pat = model::P_TRI;
    p["pat"] = pat;
    p["dens"] = r.range(10, 80);
    p["kind"] = o.kind < 0 ? model::K_GENERAL : o.kind;
    p["dom"] = r.range(40, 100);
    p["sdiag"] = r.chance(0.3);
    p["mseed"] = (int64_t)(r.next() >> 34);
    p["vseed"] = (int64_t)(r.next() >> 34);
    p["align"] = r.chance(0.5) ? 64 : 8;
    if (o.units && r.chance(0.1)) {   // other units: everything, or every row, times a power of two
        if (r.chance(0.7)) p["gexp"] = r.range(-60, 60);
        if (r.chance(0.5)) p["rexp"] = r.range(1, 6);
    }
    if (r.chance(o.pbig)) {   // a larger sparse system, so that loops have many chunks
        static const int big[] = {model::P_RAND_SYM, model::P_BAND, model::P_GRID, model::P_GRID, model::P_TRI, model::P_BLOCKS, model::P_RAND_NONSYM};
        pat = big[r.below(o.symmetric ? 6 : 7)];
        nb = bs == 1 ? r.range(o.max1 + 1, std::max(o.max1 + 1, o.big1)) : r.range(o.max4 + 1, std::max(o.max4 + 1, o.big4));
        p["nb"] = nb;
        p["pat"] = pat;
        p["dens"] = 0;
        p["deg10"] = r.range(5, 40);
        p["big"] = 1;
    } else if (r.chance(o.phuge)) {   // many rows, many blocks in one row or column
        static const int huge[] = {model::P_RAND_SYM, model::P_RAND_SYM, model::P_GRID, model::P_BLOCKS, model::P_ARROW, model::P_RARROW, model::P_RAND_NONSYM};
        do pat = huge[r.below(o.symmetric ? 6 : 7)];
        while (!o.hugearrow && (pat == model::P_ARROW || pat == model::P_RARROW));
        nb = bs == 1 ? r.range(o.big1 + 1, std::max(o.big1 + 1, o.huge1)) : r.range(o.big4 + 1, std::max(o.big4 + 1, o.huge4));
        p["nb"] = nb;
        p["pat"] = pat;
        p["dens"] = 0;
        p["deg10"] = r.range(3, 25);
        p["big"] = 2;
    } else if (r.chance(o.pgiant)) {   // thousands of rows
        static const int giant[] = {model::P_RAND_SYM, model::P_RAND_SYM, model::P_BLOCKS, model::P_RAND_NONSYM};
        p["pat"] = giant[r.below(o.symmetric ? 3 : 4)];
        p["nb"] = bs == 1 ? r.range(o.huge1 + 1, std::max(o.huge1 + 1, o.giant1)) : r.range(o.huge4 + 1, std::max(o.huge4 + 1, o.giant4));
        p["dens"] = 0;
        p["deg10"] = r.range(3, 20);
        p["big"] = 3;
    }
}
int gen_chunk(const Params &p, Rng &r) {
    if (r.chance(0.6)) return 1;
    if (r.chance(0.08)) return r.chance(0.5) ? (int)get(p, "nb") + r.range(0, 2) : r.chance(0.5) ? 384 : r.range(5, 100);   // at most one chunk
    if (get(p, "big")) return r.chance(0.5) ? r.range(2, 8) : r.range(2, (int)get(p, "nb"));
    return r.range(2, 4);
}
void gen_run_params(Params &p, Rng &r, int min_threads) {
    p["nthreads"] = std::max(min_threads, r.chance(0.1) ? 1 : r.chance(get(p, "big") > 1 ? 0.4 : 0.015) ? r.range(7, 24) : r.range(2, 6));
    if (r.chance(0.03)) p["nthreads"] = 1;
    p["lag"] = r.range(0, 2);
    p["reduce"] = r.chance(0.2) ? 1 : 0;
    p["poison"] = (int64_t)r.below(5);
}
Sys make_sys(const Params &p) {
    model::GenOpt o;
    o.nb = (int)get(p, "nb", 4);
    o.bs = (int)get(p, "bs", 1);
    o.rm = get(p, "rm", 1);
    o.pat = (int)get(p, "pat");
    o.kind = (int)get(p, "kind");
    o.density = get(p, "deg10") ? 10.0 * get(p, "deg10") / std::max(1, o.nb) : (double)get(p, "dens", 40);
    o.dom = (int)get(p, "dom", 80);
    o.small_diag = get(p, "sdiag");
    o.neg_diag = get(p, "ndiag");
    o.gexp = (int)get(p, "gexp");
    o.rexp = (int)get(p, "rexp");
    o.seed = get(p, "mseed", 1);
    return get(p, "renum") ? model::renumbered(model::gen(o)) : model::gen(o);
}
int sweeps_for(int depth, const Params &p, int extra) {
    int D = lag_of(p);
    if (D < 0) bad("harness", "finite termination needs a lag bound");
    return depth * (2 * D + 3) + 1 + extra;
}
double tol_for(const Sys &s) { return s.bs == 1 ? 1e-9 : 1e-8; }
