// C01: a result depends only on its arguments, never on earlier calculations.
// The worker itself never calculates: a history runs in a forked child, every calculation of it also alone in a child
// of its own, which is in the state of a fresh process.
#include "calc.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace gen;

struct Key {
    P p;
    M m;
    C c;
    double molar = 0; // molar mass set by hand
    catima::Material lib(double th) const {
        auto r = m.lib();
        r.thickness(th);
        if (molar > 0) r.M(molar);
        return r;
    }
    std::string str() const { return fmt("%s; %s molar=%.17g; %s", p.str().c_str(), m.str().c_str(), molar, c.str().c_str()); }
};
struct Op {
    int kind, key, key2;
    double T, T2, th;
    bool dflt; // through the global default configuration
    bool drop = false; // forget all tables while a copy of one is kept
    std::string str() const { return fmt("kind %d key %d,%d T=%.17g T2=%.17g thickness=%.17g%s", kind, key, key2, T, T2, th, dflt ? " default config" : drop ? " dropped" : ""); }
};
static const int kinds = 17;
typedef std::vector<double> V;
static void put(V &v, const catima::Result &r) {
    for (auto &f : fields()) v.push_back(r.*f.f);
}
static void put(V &v, const catima::DataPoint &d) {
    for (int i : {0, 100, 300, 450, 599}) {
        v.push_back(d.range[i]);
        v.push_back(d.range_straggling[i]);
        v.push_back(d.angular_variance[i]);
    }
}
static V eval(const std::vector<Key> &keys, const Op &o) {
    V v;
    const Key &k = keys[o.key];
    auto p = k.p.lib(o.T);
    auto m = k.lib(o.th);
    auto c = k.c.lib();
    if (o.kind == 16) {
        catima::_storage.Reset();
        return v;
    }
    if (o.dflt) {
        auto old = catima::default_config;
        catima::default_config = c;
        switch (o.kind % 6) {
        case 0: v.push_back(catima::range(p, m)); break;
        case 1: v.push_back(catima::energy_out(p, m)); break;
        case 2: v.push_back(catima::range_straggling(p, o.T2, m)); break;
        case 3: v.push_back(catima::dedx_from_range(p, m)); break;
        case 4: v.push_back(catima::angular_straggling(p, m)); break;
        default: put(v, catima::calculate(p, m));
        }
        catima::default_config = old;
        return v;
    }
    switch (o.kind) {
    case 0: put(v, catima::calculate(p, m, c)); break;
    case 1: v.push_back(catima::range(p, m, c)); break;
    case 2: v.push_back(catima::dedx_from_range(p, m, c)); break;
    case 3: v.push_back(catima::range_straggling(p, o.T2, m, c)); break;
    case 4: v.push_back(catima::energy_out(p, m, c)); break;
    case 5: v = catima::energy_out(p, V{o.T, o.T2, 0.7 * o.T}, m, c); break;
    case 6: v = catima::dedx_from_range(p, V{o.T, o.T2}, m, c); break;
    case 7: v.push_back(catima::energy_straggling_from_E(p, o.T, 0.6 * o.T, m, c)); break;
    case 8: v.push_back(catima::angular_straggling(p, m, c)); v.push_back(catima::angular_straggling_from_E(p, 0.6 * o.T, m, c)); break;
    case 9: v.push_back(catima::calculate_tof_from_E(p, 0.6 * o.T, m, c)); break;
    case 10: {
        auto w = catima::w_magnification(p, o.T, m, c);
        v = {w.first, w.second};
        break;
    }
    case 11: put(v, catima::get_data(p, m, c)); break;
    case 12: {
        catima::Layers l;
        l.add(m);
        l.add(keys[o.key2].lib(o.th * 0.7));
        l.add(m);
        auto r = catima::calculate(p, l, c);
        put(v, r.total_result);
        for (auto &x : r.results) put(v, x);
        break;
    }
    case 13: v = {catima::dedx(p, m, c), catima::domega2dx(p, m, c), catima::da2dx(p, m, c), catima::range_variance(p, o.T2, m, c), catima::domega2de(p, o.T2, m, c)}; break;
    case 14: {
        auto q = p;
        v.push_back(catima::nonreaction_rate(q, m, c));
        v.push_back(catima::angular_variance(p, m, c));
        break;
    }
    default: { // objects kept over calculations with other keys
        catima::DataPoint kept;
        kept = catima::get_data(p, m, c);
        auto sp = catima::get_range_spline(kept); // a copy
        catima::range(keys[o.key2].p.lib(o.T), keys[o.key2].lib(1), keys[o.key2].c.lib());
        v.push_back(sp(o.T));
        v.push_back(catima::range(p, m, c));
        if (o.drop) catima::_storage.Reset();
        for (size_t i = 0; i < std::min<size_t>(keys.size(), 8); i++) catima::range(keys[i].p.lib(o.T), keys[i].lib(1), keys[i].c.lib());
        put(v, kept);
        for (double T : {o.T, o.T2}) {
            v.push_back(catima::get_range_spline(kept)(T));
            v.push_back(catima::get_range_straggling_spline(kept)(T));
            v.push_back(catima::get_angular_variance_spline(kept)(T));
        }
    }
    }
    return v;
}

// ---- children -------------------------------------------------------------------------
struct Child {
    pid_t pid;
    int fd;
};
template <class F> static Child start(F f) {
    int h[2];
    if (pipe(h)) _exit(99);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(h[0]);
        alarm(60);
        V v = f();
        size_t n = 0, len = v.size() * sizeof(double);
        while (n < len) {
            ssize_t w = write(h[1], (char *)v.data() + n, len - n);
            if (w <= 0) _exit(3);
            n += w;
        }
        _exit(0);
    }
    close(h[1]);
    return {pid, h[0]};
}
static V finish(Child c, bool &ok) {
    V v;
    double b[512];
    std::string raw;
    ssize_t n;
    while ((n = read(c.fd, b, sizeof b)) > 0) raw.append((char *)b, n);
    close(c.fd);
    int ws = 0;
    while (waitpid(c.pid, &ws, 0) < 0 && errno == EINTR) {
    }
    ok = WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && raw.size() % sizeof(double) == 0;
    v.resize(raw.size() / sizeof(double));
    memcpy(v.data(), raw.data(), v.size() * sizeof(double));
    return v;
}

// ---- generating -----------------------------------------------------------------------
static Key fresh_key(Src &s) {
    Key k;
    k.p = proj(s);
    k.m = material(s);
    k.c = calc_config(s, k.p.Z);
    return k;
}
// differs in one input
static Key vary(Src &s, Key k, std::string &what) {
    auto &x = k.m.e[s.integer(0, k.m.e.size() - 1)];
    bool own = k.m.compound == 0;
    auto plain = [&] { // a compound written out
        if (!own) {
            k.m.compound = 0;
            for (auto &y : k.m.e)
                if (!(y.A > 0)) y.A = 0;
        }
    };
    switch (s.pick({3, 3, 3, 2, 2, 2, 2, 3, 2, 3, 3, 2, 2, 3, 2, 1, 1})) {
    case 0: {
        static const double f[] = {1.1, 1.001, 1.000001, 1 + 2.3e-16};
        k.p.A *= f[s.draw(3)];
        what = "projectile mass";
        break;
    }
    case 1:
        if (k.p.Q == 0 && s.coin()) k.p.Q = k.p.Z; // the charge state stays
        if (s.coin())
            k.p.Z += k.p.Z >= 108 ? -1 : 1;
        else { // a charge in between
            static const double d[] = {0.5, 0.25, 0.01, 1e-6};
            k.p.Z += (k.p.Z >= 108 ? -1 : 1) * d[s.draw(3)];
        }
        if (k.p.Q > k.p.Z) k.p.Q = k.p.Z;
        what = "projectile charge";
        break;
    case 2:
        k.p.Q = k.p.Q == 0 ? std::max(1.0, std::floor(k.p.Z * 0.7)) : s.coin() ? 0 : std::max(0.5, k.p.Q * (s.coin() ? 0.9 : 0.999999));
        if (s.coin()) k.c.z_eff = 0;
        what = "charge state";
        break;
    case 3: plain(); x.A = (x.A > 0 ? x.A : ref::weight[x.Z]) * (s.coin() ? 1.05 : 1.000001); what = "target mass"; break;
    case 4: plain(); x.Z = x.Z >= 98 ? 97 : x.Z + 1; what = "target charge"; break;
    case 5:
        plain();
        if (k.m.fractions)
            x.n *= s.coin() ? 0.97 : 0.999999;
        else
            x.n = x.n + (s.coin() ? 1 : 1e-6);
        what = "amount";
        break;
    case 6: plain(); k.m.e.push_back({0, s.integer(1, 92), k.m.fractions ? 0.05 : 1.0}); what = "further element"; break;
    case 7: {
        double a = 0, b = 0;
        for (auto &y : k.m.ref().e) a += y.w * y.Z / y.A * std::log(ref::ipot[y.Z]), b += y.w * y.Z / y.A;
        double I = std::exp(a / b);
        k.m.I = k.m.I > 0 ? (s.coin() ? 0 : k.m.I * (s.coin() ? 1.001 : 1.000001)) : I * s.uniform(0.8, 1.3);
        what = "ionisation potential";
        break;
    }
    case 8: k.molar = k.molar > 0 ? k.molar * (s.coin() ? 1.01 : 1.000001) : k.m.ref().M * (s.coin() ? 1.1 : 1.0001); what = "molar mass"; break;
    case 9: k.c.z_eff = (k.c.z_eff + s.integer(1, 5)) % 6; what = "charge model"; break;
    case 10: k.c.corr ^= 1 << s.integer(0, 3); what = "corrections"; break;
    case 11: k.c.calc ^= 1; what = "calculation type"; break;
    case 12: k.c.low ^= 1; what = "low energy tables"; break;
    case 13: {
        static const int sc[] = {255, 0, 1, 2};
        int i = 0;
        while (sc[i] != k.c.scat) i++;
        k.c.scat = sc[(i + s.integer(1, 3)) % 4];
        what = "scattering model";
        break;
    }
    case 14: k.c.factor *= s.coin() ? 1.5 : s.coin() ? 1.0001 : 1.0000001; what = "scattering factor"; break;
    case 15: k.m.rho *= s.coin() ? 1.1 : 1.00001; what = "density"; break;
    default:
        plain();
        if (k.m.e.size() > 1) std::swap(k.m.e[0], k.m.e.back());
        what = "order of elements";
    }
    return k;
}
// rough range in g/cm2, only used to aim
static double rough(const P &p, double T) {
    double z = std::min(p.Z, 0.3 + p.Z * (1 - std::exp(-std::sqrt(T) / std::pow(p.Z, 0.6667))));
    return p.A / (z * z) * (0.0025 * std::pow(T, 1.75) + 1e-5) / (1 + 0.0005 * T);
}
static Op draw_op(Src &s, const std::vector<Key> &keys, int key) {
    Op o;
    o.key = key;
    o.key2 = s.integer(0, keys.size() - 1);
    o.kind = s.chance(1, 40) ? 16 : s.pick({6, 5, 2, 3, 3, 2, 1, 1, 2, 1, 1, 3, 2, 2, 1, 2});
    o.T = s.chance(1, 4) ? energy(s) : s.loguniform(3, 2000);
    o.T2 = s.loguniform(1, 3000);
    o.th = rough(keys[key].p, o.T) * s.uniform(0, 1.2);
    o.dflt = s.chance(1, 8);
    o.drop = o.kind == 15 && s.chance(1, 3);
    return o;
}

static void compare(Src &s, const std::vector<Key> &keys, const std::vector<Op> &ops) {
    bool ok;
    // the history; sizes first
    Child h = start([&] {
        V all;
        for (auto &o : ops) {
            V v = eval(keys, o);
            all.push_back(v.size());
            all.insert(all.end(), v.begin(), v.end());
        }
        return all;
    });
    std::vector<V> alone(ops.size());
    const size_t batch = 6;
    for (size_t i = 0; i < ops.size(); i += batch) {
        std::vector<Child> c;
        for (size_t j = i; j < std::min(ops.size(), i + batch); j++) c.push_back(start([&] { return eval(keys, ops[j]); }));
        for (size_t j = 0; j < c.size(); j++) {
            bool k;
            alone[i + j] = finish(c[j], k);
            if (!k) {
                while (++j < c.size()) finish(c[j], ok);
                finish(h, ok);
                s.check(false, "crash", "calculation %zu alone did not return", i + j);
            }
        }
    }
    V all = finish(h, ok);
    s.check(ok, "crash", "the history did not return");
    size_t at = 0;
    for (size_t i = 0; i < ops.size(); i++) {
        s.check(at < all.size() && all[at] == (double)alone[i].size(), "number of values", "calculation %zu returned another number of values", i);
        at++;
        for (size_t j = 0; j < alone[i].size(); j++, at++) s.close(fmt("calculation %zu (%s), value %zu", i, ops[i].str().c_str(), j).c_str(), all[at], alone[i][j], 1e-12);
    }
}

// a few keys that differ in one input each
static void twins(Src &s) {
    std::vector<Key> keys{fresh_key(s)};
    int n = s.integer(1, 3);
    std::string names;
    for (int i = 0; i < n; i++) {
        std::string w;
        keys.push_back(vary(s, keys[s.integer(0, i)], w));
        names += w + ", ";
    }
    for (auto &k : keys) s.note("%s", k.str().c_str());
    s.note("differ in %s", names.c_str());
    std::vector<Op> ops;
    // the same question for two or more keys, then others
    Op q = draw_op(s, keys, 0);
    for (int i = 0; i <= n; i++) {
        q.key = i;
        ops.push_back(q);
    }
    int k = s.integer(0, 4);
    for (int i = 0; i < k; i++) {
        if (s.coin()) {
            q.key = s.integer(0, n);
            ops.push_back(q);
        } else
            ops.push_back(draw_op(s, keys, s.integer(0, n)));
    }
    for (auto &o : ops) s.note("%s", o.str().c_str());
    compare(s, keys, ops);
    s.nontrivial();
}

// more keys than there are slots, and back again
static void many(Src &s) {
    std::vector<Key> keys;
    int nb = s.integer(1, 4), n = s.pick({3, 2}) == 0 ? s.integer(58, 66) : s.integer(5, 150);
    for (int i = 0; i < nb; i++) keys.push_back(fresh_key(s));
    while ((int)keys.size() < n) {
        std::string w;
        keys.push_back(s.chance(1, 12) ? fresh_key(s) : vary(s, keys[s.integer(std::max(0, (int)keys.size() - 6), keys.size() - 1)], w));
    }
    std::vector<Op> ops;
    for (int i = 0; i < n; i++) ops.push_back(draw_op(s, keys, i));
    int back = s.integer(3, 25);
    for (int i = 0; i < back; i++) {
        int k = s.pick({2, 1, 2}) == 0 ? s.integer(0, std::min(n - 1, 4)) : s.coin() ? s.integer(std::max(0, n - 62), n - 1) : s.integer(0, n - 1);
        ops.push_back(s.coin() ? ops[k] : draw_op(s, keys, k));
    }
    s.note("%d keys, %zu calculations, first: %s", n, ops.size(), keys[0].str().c_str());
    compare(s, keys, ops);
    if (n > 60) {
        s.nontrivial();
        s.label("more keys than slots");
    }
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C01", {
        {"twins", twins, 1800, 150000, "Two to four keys that differ in one input each, the same and other questions for them in one process; every answer against a process of its own; non-trivial: all."},
        {"many", many, 60, 8000, "5 to 150 neighbouring keys in one process (the library keeps 60), then back to old ones; every answer against a process of its own; non-trivial: more than 60 keys."},
    }});
}
