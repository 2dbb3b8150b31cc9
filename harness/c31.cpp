// C31: the store keeps the tables of the latest different requests, each under its own request.
// Model: a ring of max_storage_data places with the position of the next one.
#include "calc.h"
using namespace gen;

struct Key {
    P p;
    M m;
    C c;
    std::string str() const { return fmt("%s; %s; %s", p.str().c_str(), m.str().c_str(), c.str().c_str()); }
};
static bool same(const P &a, const P &b) { return a.A == b.A && a.Z == b.Z && a.ref().Q == b.ref().Q; }
static bool same(const M &a, const M &b) { // thickness does not count, the density to 1e-6
    if (a.e.size() != b.e.size() || std::fabs(a.rho - b.rho) > 1e-6 || a.I != b.I) return false;
    for (size_t i = 0; i < a.e.size(); i++) {
        auto w = [](const El &x) { return x.A > 0 ? x.A : ref::weight[x.Z]; };
        if (a.e[i].Z != b.e[i].Z || a.e[i].n != b.e[i].n || w(a.e[i]) != w(b.e[i])) return false;
    }
    return true;
}
static bool same(const C &a, const C &b) {
    return a.z_eff == b.z_eff && a.corr == b.corr && a.calc == b.calc && a.low == b.low && a.scat == b.scat && a.factor == b.factor;
}
static bool same(const Key &a, const Key &b) { return same(a.p, b.p) && same(a.m, b.m) && same(a.c, b.c); }

// cheap to calculate: one element, sometimes two
static Key fresh(Src &s) {
    Key k;
    k.p.Z = proj_z(s);
    k.p.A = ref::weight[(int)k.p.Z] * (s.coin() ? 1 : s.uniform(0.95, 1.1));
    k.p.Q = s.chance(1, 4) ? s.integer((int)(k.p.Z + 1) / 2, (int)k.p.Z) : 0;
    int n = s.chance(1, 6) ? 2 : 1;
    for (int i = 0; i < n; i++) k.m.e.push_back({s.chance(1, 4) ? 0.0 : ref::weight[target_z(s)], target_z(s), 1.0});
    for (auto &x : k.m.e)
        if (x.A > 0) x.A = std::round(ref::weight[x.Z]);
    k.m.rho = s.coin() ? 1 : s.loguniform(1e-3, 20);
    k.c = calc_config(s, k.p.Z);
    return k;
}
// another request that differs in one input, or in none that counts
static Key vary(Src &s, Key k) {
    auto &x = k.m.e[s.integer(0, k.m.e.size() - 1)];
    switch (s.pick({3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 2, 2})) {
    case 0: k.p.A *= s.coin() ? 1.01 : 1 + 1e-9; break;
    case 1: k.p.Z += k.p.Z > 60 ? -1 : 1; if (k.p.Q > k.p.Z) k.p.Q = k.p.Z; break;
    case 2: k.p.Q = k.p.ref().Q * (s.coin() ? 0.9 : 1 - 1e-9); break;
    case 3: x.A = (x.A > 0 ? x.A : ref::weight[x.Z]) * (s.coin() ? 1.02 : 1 + 1e-9); break;
    case 4: x.Z = x.Z > 60 ? x.Z - 1 : x.Z + 1; break;
    case 5: x.n += s.coin() ? 1 : 1e-9; break;
    case 6: k.m.e.push_back({0, target_z(s), 1.0}); break;
    case 7: k.m.I = k.m.I > 0 ? 0 : ref::ipot[x.Z] * s.uniform(0.9, 1.1); break;
    case 8: k.c.z_eff = (k.c.z_eff + 1) % 6; break;
    case 9: k.c.corr ^= 1 << s.integer(0, 3); break;
    case 10: k.c.calc ^= 1; break;
    case 11: k.c.low ^= 1; break;
    case 12: {
        static const int sc[] = {255, 0, 1, 2};
        k.c.scat = sc[s.draw(3)];
        break;
    }
    case 13: k.c.factor *= s.coin() ? 1.5 : 1 + 1e-9; break;
    case 14: k.m.th = s.loguniform(1e-3, 10); break;   // does not count
    case 15: k.p.Q = k.p.Q == 0 ? k.p.Z : k.p.Q; break; // neither
    default: std::swap(k.m.e[0], k.m.e.back());
    }
    return k;
}

static bool holds(const catima::DataPoint &d, const Key &k) {
    return d.p == k.p.lib() && d.m == k.m.lib() && d.config == k.c.lib();
}
static uint64_t sum(const std::vector<double> &v) {
    uint64_t h = 1469598103934665603ull;
    for (double x : v) {
        uint64_t b;
        memcpy(&b, &x, 8);
        h = (h ^ b) * 1099511628211ull;
    }
    return h;
}
struct Place {
    int key = -1;
    uint64_t tables = 0;
};
static uint64_t tables(const catima::DataPoint &d) { return sum(d.range) ^ 3 * sum(d.range_straggling) ^ 7 * sum(d.angular_variance); }

struct Model {
    catima::Data *d;
    std::vector<Place> place;
    int next = 0;
    bool global;
    int wraps = 0, hits = 0;
    void clear() {
        place.assign(catima::max_storage_data, Place());
        next = 0;
    }
};

static void check_entry(Src &s, const catima::DataPoint &d, const Key &k) {
    auto r = catima::calculate_DataPoint(k.p.lib(), k.m.lib(), k.c.lib());
    for (int i = 0; i < catima::max_datapoints; i++) {
        s.close(fmt("range %d", i).c_str(), d.range[i], r.range[i], 1e-12);
        s.close(fmt("range straggling %d", i).c_str(), d.range_straggling[i], r.range_straggling[i], 1e-12);
        s.close(fmt("angular variance %d", i).c_str(), d.angular_variance[i], r.angular_variance[i], 1e-12);
    }
    for (int i = 0; i < catima::max_datapoints; i += 37) { // the splines belong to these tables
        double T = catima::energy_table(i);
        s.close("range spline", catima::get_range_spline(d)(T), d.range[i], 1e-9, 1e-14);
        s.close("range straggling spline", catima::get_range_straggling_spline(d)(T), d.range_straggling[i], 1e-9, 1e-20);
        s.close("angular variance spline", catima::get_angular_variance_spline(d)(T), d.angular_variance[i], 1e-9, 1e-16);
    }
}
static void check_all(Src &s, Model &m, const std::vector<Key> &keys) {
    s.check(m.d->GetN() == catima::max_storage_data, "number of places", "the store has %d places", m.d->GetN());
    s.check(m.d->get_index() == m.next, "position", "position is %d, expected %d", m.d->get_index(), m.next);
    for (int i = 0; i < catima::max_storage_data; i++) {
        auto &d = m.d->Get(i);
        if (m.place[i].key < 0) {
            s.check(d.range.empty() && d.m.ncomponents() == 0 && d.p.A == 0, "empty place", "place %d is not empty", i);
            continue;
        }
        s.check(d.range.size() == (size_t)catima::max_datapoints && d.range_straggling.size() == d.range.size() && d.angular_variance.size() == d.range.size(),
                "size of the tables", "place %d has tables of %zu, %zu, %zu values", i, d.range.size(), d.range_straggling.size(), d.angular_variance.size());
        s.check(holds(d, keys[m.place[i].key]), "wrong request", "place %d does not belong to request %d", i, m.place[i].key);
        s.check(tables(d) == m.place[i].tables, "changed tables", "the tables of place %d changed while they were kept", i);
    }
}

static void request(Src &s, Model &m, const std::vector<Key> &keys, int k, int how) {
    const Key &key = keys[k];
    auto p = key.p.lib(s.loguniform(1, 1000));
    auto t = key.m.lib();
    auto c = key.c.lib();
    int at = -1;
    for (int i = 0; i < catima::max_storage_data && at < 0; i++)
        if (m.place[i].key >= 0 && same(keys[m.place[i].key], key)) at = i;
    bool kept = at >= 0;
    if (kept)
        m.hits++;
    else {
        if (m.next == catima::max_storage_data) {
            m.next = 0;
            m.wraps++;
        }
        at = m.next++;
    }
    const catima::DataPoint *ref = nullptr;
    if (how == 0)
        m.d->Add(p, t, c);
    else if (how == 1 || !m.global)
        ref = &m.d->Get(p, t, c);
    else
        switch (how) {
        case 2: ref = &catima::get_data(p, t, c); break;
        case 3: catima::range(p, t, c); break;
        case 4: catima::calculate(p, t, c); break;
        default: {
            catima::default_config = c;
            ref = &catima::get_data(p, t);
            catima::default_config = catima::Config();
        }
        }
    auto &d = m.d->Get(at);
    if (ref) s.check(ref == &d, "returned place", "request %d is not answered from place %d", k, at);
    s.check(m.d->get_index() == m.next, "position", "position after request %d (%s) is %d, expected %d", k, kept ? "kept" : "new", m.d->get_index(), m.next);
    s.check(holds(d, key), "wrong request", "place %d does not belong to request %d", at, k);
    if (kept)
        s.check(tables(d) == m.place[at].tables, "changed tables", "the tables of place %d changed while they were kept", at);
    else
        m.place[at] = {k, tables(d)};
}

static void run(Src &s, bool ring) {
    reset();
    catima::Data own;
    std::vector<Model> st(2);
    st[0].d = &catima::_storage;
    st[0].global = true;
    st[1].d = &own;
    st[1].global = false;
    for (auto &m : st) m.clear();
    int mode = s.pick({3, 2, ring ? 0 : 1}); // global, own, both
    int nk = ring ? s.integer(70, 100) : s.integer(2, 6);
    std::vector<Key> keys;
    for (int i = 0; i < nk; i++) {
        Key k = keys.empty() || s.chance(1, 3) ? fresh(s) : vary(s, keys[s.integer(0, keys.size() - 1)]);
        // densities that nearly agree make the same request only in pairs
        for (auto &o : keys)
            if (std::fabs(o.m.rho - k.m.rho) < 1e-3) k.m.rho = o.m.rho;
        if (s.chance(1, 10) && i) k.m.rho += 2e-3;
        keys.push_back(k);
        s.note("request %d: %s", i, k.str().c_str());
    }
    int n = ring ? s.integer(nk, 2 * nk) : s.integer(2, 12);
    std::string hist;
    for (int i = 0; i < n; i++) {
        auto &m = st[mode == 0 ? 0 : mode == 1 ? 1 : s.integer(0, 1)];
        if (s.chance(1, ring ? 200 : 20)) {
            m.d->Reset();
            m.clear();
            hist += "reset ";
            check_all(s, m, keys);
            continue;
        }
        int k = ring && i < nk ? i : s.integer(0, nk - 1), how = s.integer(0, 5);
        hist += fmt("%d/%d%s ", k, how, m.global ? "" : "own");
        request(s, m, keys, k, how);
        if (!ring) check_all(s, m, keys);
    }
    s.note("%s", hist.c_str());
    for (auto &m : st) {
        check_all(s, m, keys);
        std::vector<int> used;
        for (int i = 0; i < catima::max_storage_data; i++)
            if (m.place[i].key >= 0) used.push_back(i);
        for (int i = 0; i < 2 && !used.empty(); i++) {
            int at = used[s.integer(0, used.size() - 1)];
            check_entry(s, m.d->Get(at), keys[m.place[at].key]);
        }
        if (m.wraps) s.label("oldest replaced");
        if (m.hits) s.label("kept request");
        if (ring ? m.wraps > 0 : m.hits > 0) s.nontrivial();
    }
    reset();
}
static void brief(Src &s) { run(s, false); }
static void ring(Src &s) { run(s, true); }

// two entries are equal exactly when their requests are
static void equal(Src &s) {
    Key a = fresh(s), b = a;
    int n = s.integer(0, 2);
    for (int i = 0; i < n; i++) b = vary(s, b);
    if (s.chance(1, 6)) b.m.rho += s.coin() ? 5e-7 : 5e-6;
    if (s.chance(1, 4)) { // any value of the options
        a.c.z_eff = s.integer(0, 255), a.c.corr = s.integer(0, 255), a.c.calc = s.integer(0, 255), a.c.low = s.integer(0, 255), a.c.scat = s.integer(0, 255);
        b.c = a.c;
        if (s.chance(3, 4)) {
            int *o[] = {&b.c.z_eff, &b.c.corr, &b.c.calc, &b.c.low, &b.c.scat};
            int &x = *o[s.integer(0, 4)];
            x = (x + (s.coin() ? 128 : s.integer(1, 255))) % 256;
        }
    }
    s.note("%s", a.str().c_str());
    s.note("%s", b.str().c_str());
    catima::DataPoint x(a.p.lib(100), a.m.lib(), a.c.lib()), y(b.p.lib(s.loguniform(1, 1000)), b.m.lib(), b.c.lib()), z;
    bool want = same(a, b);
    s.check((x == y) == want && (y == x) == want, "equality", "the entries compare %d %d, the requests are %s", (int)(x == y), (int)(y == x), want ? "the same" : "different");
    s.check((a.p.lib(1) == b.p.lib(2)) == same(a.p, b.p), "projectiles", "projectiles compare %d", (int)(a.p.lib(1) == b.p.lib(2)));
    s.check((a.c.lib() == b.c.lib()) == same(a.c, b.c), "configurations", "configurations compare %d", (int)(a.c.lib() == b.c.lib()));
    s.check(x == x && !(x == z) && z == z, "itself", "an entry is not equal to itself only");
    z = y;
    s.check(z == y && (z == x) == want, "copy", "the copy does not equal the entry");
    catima::DataPoint w(std::move(z));
    s.check(w == y, "moved", "the moved entry does not equal the entry");
    catima::default_config = b.c.lib();
    catima::DataPoint v(a.p.lib(), a.m.lib());
    catima::default_config = catima::Config();
    s.check((v == x) == same(a.c, b.c), "default configuration", "an entry without configuration does not take the default one");
    if (n) s.nontrivial();
    s.label(want ? "same" : "different");
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C31", {
        {"brief", brief, 500, 20000, "Short histories over a few requests that differ in one input or in none that counts, in the global store and in one of our own; every place is compared with the model after each step; non-trivial: a kept request is asked for again."},
        {"ring", ring, 40, 2000, "More different requests than there are places, then any of them again; non-trivial: the oldest entry was replaced."},
        {"equal", equal, 100000, 4000000, "Pairs of entries differing in up to two inputs: equal exactly when the requests are; non-trivial: something was varied."},
    }});
}
