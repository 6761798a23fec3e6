// P14: Matrix Market input.
#include "wl.h"
#include <cstdio>
#include <set>
#include "blockmatrices.hpp"
#include "coomatrix.hpp"
#include "reorderingscaling.hpp"

using namespace model;
using blasted::CRawBSRMatrix;
using blasted::RawBSRMatrix;

void gen_mm(Params &p, Rng &r);
enum { R_COO, R_CSR, R_BSR3, R_BSR4, R_BSR7, R_OWN1, R_OWN7, R_DENSED, R_DENSEF, NR };
static Params gen_p14(Rng &r, int) {
    Params p;
    p["op"] = (int)r.below(NR);
    gen_mm(p, r);
    // a row number times the number of columns does not fit into 32 bits
    if (p["op"] <= R_BSR7 && r.chance(0.0002)) { p["big"] = 3; p["trunc"] = -1; p["ncorr"] = 0; p["sem"] = 0; p["head"] = 0; p["crlf"] = 0; }
    return p;
}
void gen_mm(Params &p, Rng &r) {
    p["nb"] = r.range(1, 6);
    p["big"] = r.chance(0.08) ? 1 + (int)r.chance(0.05) : 0;
    p["dens"] = r.range(5, 90);
    p["sq"] = r.chance(0.85);
    p["fseed"] = (int64_t)(r.next() >> 34);
    p["cseed"] = (int64_t)(r.next() >> 34);
    p["fmt"] = (int)r.below(6);
    p["order"] = (int)r.below(3);
    p["comments"] = (int)r.below(4);
    p["head"] = r.chance(0.9) ? 0 : r.range(1, 6);
    p["crlf"] = r.chance(0.06);
    p["noeol"] = r.chance(0.2);
    int m = (int)r.below(10);    // 0-3 clean content; 4-6 truncation; 7-9 garbled
    p["trunc"] = m >= 4 && m <= 6 ? r.range(0, 1000) : -1;
    p["ncorr"] = m >= 7 ? r.range(1, 3) : 0;
    p["sem"] = 0;
    if (m == 9 || m == 8) { p["sem"] = r.range(1, 20); if (r.chance(0.9)) p["ncorr"] = 0; }
    static const int fm[] = {0, 1, 1, 2, 2, 3, 3};
    p["fmode"] = fm[r.below(7)];
    p["ofail"] = r.chance(0.02);
    p["poison"] = (int64_t)r.below(5);
    p["nthreads"] = 1;
}
static int block_of(int op) {
    static const int b[] = {1, 1, 3, 4, 7, 1, 7, 1, 1};
    return b[op];
}
static std::string num(Rng &r, int fmt) {
    char b[64];
    double v = r.unit() * 2 - 1;
    switch (fmt) {
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%.3f", v * 100); break;
    case 2: snprintf(b, sizeof b, "%.16e", v * 1e5); break;
    case 3: snprintf(b, sizeof b, "%d", r.range(-99, 99)); break;
    case 4: snprintf(b, sizeof b, "%+.6E", v * 1e-7); break;
    default: snprintf(b, sizeof b, "%.*g", r.range(1, 17), v * std::pow(10.0, r.range(-30, 30)));
    }
    return b;
}
static bool is_uint(const std::string &t, long &v) {
    if (t.empty() || t.size() > 12) return false;
    size_t i = t[0] == '+' || t[0] == '-' ? 1 : 0;
    if (i == t.size()) return false;
    for (; i < t.size(); i++)
        if (t[i] < '0' || t[i] > '9') return false;
    v = strtol(t.c_str(), nullptr, 10);
    return true;
}
static int num_kind(const std::string &t) {  // 0 malformed, 1 plain decimal, 2 anything may happen
    size_t i = 0;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
    size_t d = 0;
    while (i < t.size() && isdigit((unsigned char)t[i])) i++, d++;
    if (i < t.size() && t[i] == '.') { i++; while (i < t.size() && isdigit((unsigned char)t[i])) i++, d++; }
    if (d && i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        i++;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
        size_t e = 0;
        while (i < t.size() && isdigit((unsigned char)t[i])) i++, e++;
        if (!e) return 0;
    }
    if (d && i == t.size()) {
        double v = strtod(t.c_str(), nullptr);
        if (std::isinf(v) || std::isinf(strtof(t.c_str(), nullptr))) return 2;
        if (v != 0 && std::fabs(v) < 1e-37) return 2;   // underflow of single precision
        return 1;
    }
    // words and hexadecimal numbers: not decided here
    std::string l;
    for (char c : t) l += (char)tolower((unsigned char)c);
    if (l.find("inf") != std::string::npos || l.find("nan") != std::string::npos || l.find("0x") != std::string::npos) return 2;
    return 0;
}
static std::vector<std::string> split(const std::string &s) {
    std::vector<std::string> t;
    std::string c;
    for (char ch : s) {
        if (ch == ' ' || (ch >= 9 && ch <= 13)) { if (!c.empty()) t.push_back(c); c.clear(); }
        else c += ch;
    }
    if (!c.empty()) t.push_back(c);
    return t;
}
// Strict reading of the bytes: what a correct reader may return.
MM mm_strict(const std::string &d, bool want_array) {
    MM m;
    auto inv = [&](const char *w) { m.st = MM::INVALID; m.why = w; return m; };
    size_t pos = 0;
    bool any = false;
    auto line = [&](std::string &l) {
        if (pos >= d.size()) return false;
        size_t e = d.find('\n', pos);
        if (e == std::string::npos) e = d.size();
        l = d.substr(pos, e - pos);
        pos = e + 1;
        return true;
    };
    std::string l;
    if (!line(l)) return inv("empty file");
    for (char c : d) if (c == 0 || (unsigned char)c > 126) any = true;
    auto t = split(l);
    if (t.size() != 5) return inv("header does not have five words");
    if (t[0] != "%%MatrixMarket") return inv("no Matrix Market banner");
    if (t[1] != "matrix") any = true;
    auto low = [](std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; };
    for (int i = 2; i < 5; i++) if (low(t[i]) != t[i]) any = true;
    if (any) { m.st = MM::ANY; return m; }
    if (t[2] != "coordinate" && t[2] != "array") return inv("unknown storage");
    m.array = t[2] == "array";
    if (m.array != want_array) return inv("other storage type than can be read");
    if (t[3] != "real" && t[3] != "integer") return inv("scalar type that cannot be held");
    bool integer = t[3] == "integer";
    if (t[4] != "general" && t[4] != "symmetric") return inv("symmetry type that is not supported");
    bool sym = t[4] == "symmetric";
    if (sym && m.array) return inv("symmetric array");
    do {
        if (!line(l)) return inv("no size line");
        if (split(l).empty()) { any = true; continue; }
        if (l[0] != '%') break;
    } while (true);
    t = split(l);
    if (t.size() != (m.array ? 2u : 3u)) return inv("wrong number of sizes");
    long a, b, c = 0;
    if (!is_uint(t[0], a) || !is_uint(t[1], b) || (!m.array && !is_uint(t[2], c))) return inv("malformed size");
    if (a < 0 || b < 0 || c < 0) return inv("negative size");
    if (m.array) c = a * b;
    if (a > 2000000000L || b > 2000000000L || c > 2000000000L) return inv("size out of range");
    m.rows = (int)a;
    m.cols = (int)b;
    if (a == 0 || b == 0 || c == 0) any = true;
    t = pos < d.size() ? split(d.substr(pos)) : std::vector<std::string>();
    size_t per = m.array ? 1 : 3;
    if (t.size() < (size_t)c * per) return inv("fewer entries than announced");
    if (t.size() > (size_t)c * per) return inv("more data than announced");
    std::set<std::pair<int, int>> seen;
    for (long k = 0; k < c; k++) {
        const std::string &v = t[k * per + per - 1];
        int nk = num_kind(v);
        long i = 0, j = 0;
        if (!m.array) {
            if (!is_uint(t[k * 3], i) || !is_uint(t[k * 3 + 1], j)) return inv("malformed index");
            if (i < 1 || i > a || j < 1 || j > b) return inv("index out of range");
            if (!seen.insert({(int)i, (int)j}).second) any = true;
        }
        if (nk == 0) return inv("malformed value");
        if (nk == 2) any = true;
        if (integer && v.find_first_not_of("+-0123456789") != std::string::npos) any = true;
        m.ri.push_back((int)i - 1);
        m.ci.push_back((int)j - 1);
        m.val.push_back(v);
        if (sym && i != j) { m.ri.push_back((int)j - 1); m.ci.push_back((int)i - 1); m.val.push_back(v); }
    }
    if (any) m.st = MM::ANY;
    return m;
}
static std::string garble(std::string d, Rng &r, int n) {
    for (int q = 0; q < n && !d.empty(); q++) {
        size_t at = r.below(d.size());
        if (r.chance(0.4)) at = r.below(std::min<size_t>(d.size(), 120));
        switch (r.below(8)) {
        case 0: d[at] = (char)r.range(32, 126); break;
        case 1: d[at] = "0123456789"[r.below(10)]; break;
        case 2: d.erase(at, 1); break;
        case 3: d.insert(at, 1, " .-\n\n0123456789xeE"[r.below(18)]); break;
        case 4: d[at] = ' '; break;
        case 5: d[at] = '\n'; break;
        default: {   // drop, double or move a line
            size_t s = d.rfind('\n', at);
            s = s == std::string::npos ? 0 : s + 1;
            size_t e = d.find('\n', at);
            e = e == std::string::npos ? d.size() : e + 1;
            if (e < s) break;
            std::string l = d.substr(s, e - s);
            if (r.chance(0.5)) d.erase(s, e - s);
            else d.insert(s, l);
        }
        }
    }
    return d;
}
// Puts the file of the parameters into the simulated file system; true if a correct reader must accept it.
bool mm_put(const Params &p, const std::string &name, int bs, bool arr, bool rect, int rows, int *dims) {
    Rng r(get(p, "fseed", 1));
    int nb = (int)get(p, "nb", 2);
    int n = nb * bs, m = n;
    bool huge = get(p, "big") > 1;
    if (get(p, "big")) { n = get(p, "big") == 3 ? 46500 / bs * bs + 3 * bs : huge ? arr ? 3000 : bs * (300 / bs) : arr ? 500 : bs == 1 ? 36 : bs * (40 / bs); m = n; }
    if (rows) n = m = rows;
    if (!get(p, "sq") && rect) m = r.range(1, n + 3);
    if (arr) m = get(p, "sq") ? 1 : r.range(1, 3);
    if (dims) dims[0] = n, dims[1] = m;
    static const char *heads[] = {"real general", "integer general", "complex general", "real symmetric", "pattern general", "real hermitian", "real skew-symmetric"};
    int head = (int)get(p, "head");
    int fmt = head == 1 ? 3 : (int)get(p, "fmt");
    std::string eol = get(p, "crlf") ? "\r\n" : "\n";
    std::string d = std::string("%%MatrixMarket matrix ") + (arr ? "array " : "coordinate ") + heads[head] + eol;
    for (int i = 0; i < (int)get(p, "comments"); i++) d += (i == 1 ? std::string("%") : std::string("% some comment ") + std::to_string(i)) + eol;
    char b[96];
    std::vector<std::string> lines;
    if (arr) {
        snprintf(b, sizeof b, "%d %d", n, m);
        for (int i = 0; i < n * m; i++) lines.push_back(num(r, fmt));
    } else {
        double dens = get(p, "big") == 3 ? 0 : get(p, "dens", 40) / (huge ? 4000.0 : 100.0);
        for (int i = 0; i < n; i++) {
            int forced = (int)r.below(m);
            for (int j = 0; j < m; j++) {
                if (dens == 0 && j != forced && j != i) j = j < std::min(i, forced) ? std::min(std::min(i, forced), m - 1) : j < std::max(i, forced) ? std::min(std::max(i, forced), m - 1) : m - 1;
                if (head == 3 && j > i) continue;
                bool on = j == forced || (i == j && r.chance(0.9)) || r.chance(dens);
                if (head == 3 && i == j) on = true;
                if (!on) continue;
                const char *sep = fmt == 2 ? "\t" : fmt == 4 ? "   " : " ";
                std::string l = std::to_string(i + 1) + sep + std::to_string(j + 1);
                if (head != 4) l += sep + num(r, fmt);
                if (head == 2) l += sep + num(r, fmt);
                lines.push_back(l);
            }
        }
        int o = (int)get(p, "order");
        if (o == 1) for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
        if (o == 2) std::reverse(lines.begin(), lines.end());
        snprintf(b, sizeof b, "%d %d %d", n, m, (int)lines.size());
    }
    // ---- a well-formed but wrong file
    int sem = (int)get(p, "sem");
    std::string size = b;
    if (sem) {
        Rng sr(get(p, "cseed", 1) + 13);
        sim::faults().corruption++;
        size_t at = lines.empty() ? 0 : sr.below(lines.size());
        auto t = lines.empty() ? std::vector<std::string>() : split(lines[at]);
        auto put = [&](size_t k, const std::string &w) {
            if (k >= t.size()) return;
            t[k] = w;
            lines[at].clear();
            for (auto &x : t) lines[at] += (lines[at].empty() ? "" : " ") + x;
        };
        auto sizes = [&](long a, long c, long nz) {
            size = std::to_string(a) + " " + std::to_string(c);
            if (!arr) size += " " + std::to_string(nz);
        };
        auto header = [&](const char *from, const char *to) { size_t k = d.find(from); if (k != std::string::npos && k < 60) d.replace(k, strlen(from), to); };
        long nz = (long)lines.size();
        static const char *junk[] = {"1.5x", "--3", "1e", "abc", "1.2.3", "+", "3,5", "0;"};
        int q = (int)sr.below(4);
        switch (sem) {
        case 1: header(arr ? "array" : "coordinate", arr ? "coordinate" : "array"); break;
        case 2:
            header(arr ? "array" : "coordinate", arr ? "coordinate" : "array");
            lines.clear();
            if (arr) { size = std::to_string(n) + " 1 " + std::to_string(n); for (int i = 0; i < n; i++) lines.push_back(std::to_string(i + 1) + " 1 " + num(sr, fmt)); }
            else { size = std::to_string(n) + " " + std::to_string(m); for (int i = 0; i < n * m; i++) lines.push_back(num(sr, fmt)); }
            break;
        case 3: sizes(arr ? n + 1 : n, m, nz + 1); break;
        case 4: sizes(arr ? n - 1 : n, m, nz - 1); break;
        case 5: sizes(arr ? 0 : n, m, 0); if (sr.chance(0.7)) lines.clear(); break;
        case 6: sizes(q == 0 ? 0 : q == 1 ? -n : n, q == 2 ? 0 : q == 3 ? -m : m, nz); break;
        case 7: size += " 1"; break;
        case 8: size = q ? std::to_string(n) : ""; break;
        case 9: put(0, std::to_string(q == 0 ? 0 : q == 1 ? n + 1 : q == 2 ? -1 : n + 1000000)); break;
        case 10: put(1, std::to_string(q == 0 ? 0 : q == 1 ? m + 1 : q == 2 ? -1 : m + 1000000)); break;
        case 11: if (!t.empty()) { t.pop_back(); put(0, t.empty() ? "" : t[0]); if (t.empty()) lines[at].clear(); } break;
        case 12: if (!lines.empty()) lines[at] += " 1"; break;
        case 13: lines.push_back(sr.chance(0.5) ? "1 1 1" : "7"); break;
        case 14:
            if (!arr) {
                std::string pre = std::to_string(sr.range(1, n));
                std::vector<std::string> keep;
                for (auto &l : lines) if (split(l)[0] != pre) keep.push_back(l);
                lines = keep;
                sizes(n, m, (long)lines.size());
            }
            break;
        case 15: sizes(n, m, 1999999999); break;
        case 16: header("general", "symmetric"); break;
        case 17: header("real", q < 2 ? "complex" : "pattern"); break;
        case 18: put(arr ? 0 : 2, junk[sr.below(8)]); break;
        case 19: if (!arr && nz) { lines.push_back(lines[at]); sizes(n, m, nz + 1); } break;
        default: size = q == 0 ? size + "x" : q == 1 ? "x " + size : q == 2 ? "1.5 " + size : size.substr(0, size.size() - 1) + "-";
        }
    }
    d += size + eol;
    for (auto &l : lines) d += l + eol;
    if (get(p, "noeol")) d.resize(d.size() - eol.size());
    bool intact = head <= 1 && !get(p, "crlf") && !sem;
    Rng cr(get(p, "cseed", 1));
    std::string orig = d;
    if (get(p, "trunc", -1) >= 0) {
        size_t at = (size_t)(d.size() * (double)get(p, "trunc") / 1000.0);
        if (get(p, "trunc") >= 900) at = d.size() - std::min<size_t>(d.size(), 1 + get(p, "trunc") % 40);  // near the end
        if (at < d.size()) { d.resize(at); sim::faults().truncation++; }
    }
    if (get(p, "ncorr") > 0) {
        d = garble(d, cr, (int)get(p, "ncorr"));
        sim::faults().corruption += get(p, "ncorr");
    }
    if (d != orig) intact = false;
    sim::SimFile f;
    f.data = d;
    f.fault_mode = (int)get(p, "fmode");
    f.open_fail = get(p, "ofail");
    sim::simfs_put(name, f);
    if (f.open_fail || f.fault_mode >= 3) intact = false;
    return intact;
}
static void body_p14(const Params &p) {
    int op = (int)get(p, "op"), bs = block_of(op);
    bool arr = op >= R_DENSED;
    const std::string name = "/simfs/in.mtx";
    bool intact = mm_put(p, name, bs, arr, op == R_COO || op == R_CSR, 0);
    Rng cr(sim::mix(get(p, "cseed", 1), 3));
    sim::abort_is_failstop = !intact;
    // ---- read it
    bool threw = false;
    std::string err;
    std::unique_ptr<blasted::COOMatrix<double, int>> coo;
    std::unique_ptr<blasted::SRMatrixStorage<double, int>> sr;
    std::unique_ptr<blasted::BSRMatrix<double, int, 1>> o1;
    std::unique_ptr<blasted::BSRMatrix<double, int, 7>> o7;
    std::unique_ptr<blasted::device_vector<double>> dd;
    std::unique_ptr<blasted::device_vector<float>> df;
    const char *ordering = op == R_BSR4 && cr.chance(0.5) ? "colmajor" : op == R_BSR3 && cr.chance(0.5) ? "colmajor" : "rowmajor";
    try {
        Sut in;
        if (op == R_OWN1) o1.reset(new blasted::BSRMatrix<double, int, 1>(blasted::constructBSRMatrixFromMatrixMarketFile<double, int, 1>(name)));
        else if (op == R_OWN7) o7.reset(new blasted::BSRMatrix<double, int, 7>(blasted::constructBSRMatrixFromMatrixMarketFile<double, int, 7>(name)));
        else if (op == R_DENSED) dd.reset(new blasted::device_vector<double>(blasted::readDenseMatrixMarket<double>(name)));
        else if (op == R_DENSEF) df.reset(new blasted::device_vector<float>(blasted::readDenseMatrixMarket<float>(name)));
        else {
            coo.reset(new blasted::COOMatrix<double, int>);
            coo->readMatrixMarket(name);
            if (op == R_CSR) sr.reset(new blasted::SRMatrixStorage<double, int>(coo->convertToCSR()));
            if (op == R_BSR3) sr.reset(new blasted::SRMatrixStorage<double, int>(blasted::getSRMatrixFromCOO<double, int, 3>(*coo, ordering)));
            if (op == R_BSR4) sr.reset(new blasted::SRMatrixStorage<double, int>(blasted::getSRMatrixFromCOO<double, int, 4>(*coo, ordering)));
            if (op == R_BSR7) sr.reset(new blasted::SRMatrixStorage<double, int>(blasted::getSRMatrixFromCOO<double, int, 7>(*coo, ordering)));
        }
    } catch (const std::exception &e) {
        threw = true;
        err = e.what();
    } catch (const char *e) {
        threw = true;
        err = e;
    } catch (...) {
        threw = true;
    }
    sim::abort_is_failstop = false;
    // ---- judge
    std::string got = sim::simfs_delivered(name);
    MM x = mm_strict(got, arr);
    auto clean = [&] {
        Sut in;
        coo.reset(); sr.reset(); o1.reset(); o7.reset(); dd.reset(); df.reset();
    };
    if (threw) {
        if (intact) bad("refused", "a correct file was refused: %s", err.c_str());
        clean();
        return;
    }
    if (intact && x.st != MM::VALID) bad("harness", "the generated file is not valid: %s", x.why.c_str());
    if (x.st == MM::ANY) { clean(); sim::set_trivial(); return; }
    if (x.st == MM::INVALID) bad("garbage-accepted", "a file that is not a complete valid matrix (%s) was read without an error", x.why.c_str());
    if (arr) {
        size_t cnt = (size_t)x.rows * x.cols;
        if ((dd ? dd->size() : df->size()) != cnt) bad("wrong-matrix", "dense matrix has %zu values instead of %zu", dd ? dd->size() : df->size(), cnt);
        for (size_t k = 0; k < cnt; k++) {
            bool ok = dd ? (*dd)[k] == strtod(x.val[k].c_str(), nullptr) : (*df)[k] == strtof(x.val[k].c_str(), nullptr);
            if (!ok) bad("wrong-matrix", "dense value %zu differs from the file (%s)", k, x.val[k].c_str());
        }
        clean();
        return;
    }
    if (coo && bs > 1 && cr.chance(0.1)) {
        static const char *none[] = {"", "row", "Rowmajor", "ROWMAJOR", "columnmajor", "rowmajor ", "rowmajo", "colmajo"};
        const std::string nm = none[cr.below(8)];
        bool refused = false;
        try {
            Sut in;
            if (op == R_BSR3) blasted::getSRMatrixFromCOO<double, int, 3>(*coo, nm);
            else if (op == R_BSR4) blasted::getSRMatrixFromCOO<double, int, 4>(*coo, nm);
            else blasted::getSRMatrixFromCOO<double, int, 7>(*coo, nm);
        } catch (const std::exception &) { refused = true; }
        if (!refused) bad("order-accepted", "conversion to blocks stored in the unknown order '%s' was not refused", nm.c_str());
    }
    std::map<std::pair<int, int>, double> ref;
    for (size_t k = 0; k < x.val.size(); k++) ref[{x.ri[k], x.ci[k]}] = strtod(x.val[k].c_str(), nullptr);
    if (coo) {
        auto &e = coo->getEntries();
        auto &rp = coo->getRowPtrs();
        if (coo->numrows() != x.rows || coo->numcols() != x.cols || coo->numnonzeros() != (int)ref.size() || e.size() != ref.size() || (int)rp.size() != x.rows + 1)
            bad("wrong-matrix", "wrong dimensions: %d x %d with %d entries, the file has %d x %d with %zu", coo->numrows(), coo->numcols(), coo->numnonzeros(), x.rows, x.cols, ref.size());
        size_t k = 0;
        for (auto &kv : ref) {   // ordered by row, then column
            if (e[k].rowind != kv.first.first || e[k].colind != kv.first.second || e[k].value != kv.second)
                bad("wrong-matrix", "entry %zu is (%d,%d)=%.17g, the file has (%d,%d)=%.17g", k, e[k].rowind, e[k].colind, e[k].value, kv.first.first, kv.first.second, kv.second);
            k++;
        }
        std::vector<int> cnt(x.rows + 1, 0);
        for (auto &kv : ref) cnt[kv.first.first + 1]++;
        for (int i = 0, c = 0; i <= x.rows; i++) {
            c += cnt[i];
            if (rp[i] != c) bad("wrong-matrix", "row pointer %d is %d, expected %d", i, rp[i], c);
        }
    }
    if (sr) {
        int B = bs, R = x.rows / B;
        std::set<std::pair<int, int>> blk;
        for (auto &kv : ref) blk.insert({kv.first.first / B, kv.first.second / B});
        if (sr->nbrows != R || sr->nnzb != (int)blk.size() || sr->nbstored != (int)blk.size()) bad("wrong-matrix", "wrong dimensions of the sparse-row matrix");
        if (sr->browptr.size() != R + 1 || sr->bcolind.size() != (int)blk.size() || sr->vals.size() != (int)blk.size() * B * B || sr->diagind.size() != R || sr->browendptr.size() != R)
            bad("wrong-matrix", "wrong array sizes of the sparse-row matrix");
        int k = 0;
        auto it = blk.begin();
        bool cm = !strcmp(ordering, "colmajor");
        for (int i = 0; i < R; i++) {
            if (sr->browptr[i] != k) bad("wrong-matrix", "block row pointer %d is %d, expected %d", i, sr->browptr[i], k);
            for (; it != blk.end() && it->first == i; ++it, ++k) {
                if (sr->bcolind[k] != it->second) bad("wrong-matrix", "block %d of block row %d is in column %d, expected column %d (columns in order)", k - sr->browptr[i], i, sr->bcolind[k], it->second);
                if (it->second == i && sr->diagind[i] != k) bad("wrong-matrix", "position of the diagonal block of row %d is %d, expected %d", i, sr->diagind[i], k);
                for (int a = 0; a < B; a++)
                    for (int c = 0; c < B; c++) {
                        auto f = ref.find({i * B + a, it->second * B + c});
                        double w = f == ref.end() ? 0 : f->second;
                        double g = sr->vals[k * B * B + (cm ? c * B + a : a * B + c)];
                        if (g != w) bad("wrong-matrix", "entry (%d,%d) is %.17g, the file has %.17g", i * B + a, it->second * B + c, g, w);
                    }
            }
            if (sr->browendptr[i] != k) bad("wrong-matrix", "end of block row %d is %d, expected %d", i, sr->browendptr[i], k);
        }
        if (sr->browptr[R] != k) bad("wrong-matrix", "last row pointer is wrong");
    }
    if (o1 || o7) {
        int N = o1 ? o1->dim() : o7->dim();
        if (N != x.rows) bad("wrong-matrix", "dimension %d, the file has %d rows", N, x.rows);
        for (int j = 0; j < N; j++) {
            Vec e(N, 0.0);
            e[j] = 1;
            HVec v(e), y(Vec(N, 5.0));
            { Sut in; if (o1) o1->apply(v.d, y.d); else o7->apply(v.d, y.d); }
            for (int i = 0; i < N; i++) {
                auto f = ref.find({i, j});
                double w = f == ref.end() ? 0 : f->second;
                if (y.d[i] != w) bad("wrong-matrix", "entry (%d,%d) is %.17g, the file has %.17g", i, j, y.d[i], w);
            }
        }
    }
    clean();
    if (sim::live_sut_allocs()) bad("leak", "memory allocated while reading is never released: %s", sim::describe_live().c_str());
}

extern const Workload w_p14{"P14", gen_p14, body_p14, nullptr, false};
