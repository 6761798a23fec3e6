// P12: memory behaviour of the other workloads.
#include "wl.h"

static const int subs12[] = {1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 10, 11, 15, 7, 8, 16, 17, 18};
static std::string sub_id(int k) {
    char b[8];
    snprintf(b, sizeof b, "P%02d", k);
    return b;
}
static Params gen_p12(Rng &r, int tier) {
    int k = subs12[r.below(sizeof(subs12) / sizeof(int))];
    const Workload *w = find_workload(sub_id(k));
    while (!w) w = find_workload(sub_id(k = subs12[r.below(sizeof(subs12) / sizeof(int))]));
    Params p = w->gen(r, tier);
    p["sub"] = k;
    return p;
}
static void body_p12(const Params &p) {
    const Workload *w = find_workload(sub_id((int)get(p, "sub", 1)));
    values_off = true;
    bool threw = false;
    try {
        w->body(p);
    } catch (const std::exception &) { threw = true; }   // decided by the other properties
    if (!threw && sim::live_sut_allocs() > 0) bad("leak", "memory allocated by the operations is never released: %s", sim::describe_live().c_str());
}

extern const Workload w_p12{"P12", gen_p12, body_p12, nullptr, true};
