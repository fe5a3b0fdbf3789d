// Shared harness code: seeded instance generator, model builder, JSON output.
// All coefficients are multiples of 1/DEN, so every double the library computes
// from them is exact and is logged as the integer DEN*value.
#pragma once
#include <printemps.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <csignal>
#include <cstdio>
#include <functional>
#include <iostream>
#include <sstream>
#include <thread>
#include <mutex>

namespace vf {
using namespace printemps;
using Variable = model_component::Variable<int, double>;
using Expr     = model_component::Expression<int, double>;
using Cons     = model_component::Constraint<int, double>;
using Model    = model::IPModel;
using Move     = neighborhood::Move<int, double>;

inline int DEN       = 4;      // scale of the current episode: 4 (exact) or 10 (decimal)
constexpr int NONE  = -999999;   // "not fixed"
constexpr int BIG   = 1000000000;  // |bound| >= BIG means infinite in the log
constexpr int BAD   = 2000000001;  // a logged value that is not an exact multiple
constexpr int PINF  = 2000000000;
constexpr int NINF  = -2000000000;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int  in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
    bool p(int percent) { return in(1, 100) <= percent; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[in(0, (int)v.size() - 1)]; }
};

// double -> scaled integer; BAD if not an exact multiple of 1/DEN.
inline int enc(double v) {
    if (std::isnan(v)) return BAD;
    if (v >= 4.0e8) return PINF;
    if (v <= -4.0e8) return NINF;
    double s = v * DEN;
    double r = std::floor(s + 0.5);
    if (std::fabs(s - r) > 1e-6) return BAD;
    return (int)r;
}
// scaled floor / ceil: for quantities that need not be multiples
inline int enc_ib(int b) { return b >= BIG ? BIG : (b <= -BIG ? -BIG : b); }

struct J {  // minimal JSON builder
    std::string s;
    bool        first = true;
    char        close;
    explicit J(char open = '{') : s(1, open), close(open == '{' ? '}' : ']') {}
    void sep() { if (!first) s += ','; first = false; }
    static std::string q(const std::string &t) {
        std::string r = "\"";
        for (char c : t) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c == '\t') r += "\\t";
            else if (c == '\r') r += "\\r";
            else r += c;
        }
        return r + "\"";
    }
    J &kv(const char *k, long v) { sep(); s += q(k) + ":" + std::to_string(v); return *this; }
    J &kb(const char *k, bool v) { sep(); s += q(k) + (v ? ":true" : ":false"); return *this; }
    J &ks(const char *k, const std::string &v) { sep(); s += q(k) + ":" + q(v); return *this; }
    J &kr(const char *k, const std::string &raw) { sep(); s += q(k) + ":" + raw; return *this; }
    template <class V> J &ka(const char *k, const V &v) {
        sep(); s += q(k) + ":[";
        bool f = true;
        for (auto &&e : v) { if (!f) s += ','; f = false; s += std::to_string((long)e); }
        s += "]"; return *this;
    }
    J &raw(const std::string &r) { sep(); s += r; return *this; }
    J &num(long v) { sep(); s += std::to_string(v); return *this; }
    std::string str() const { return s + close; }
};

struct Con {
    std::vector<int> a;      // scaled coefficients
    int              s = 0;  // -1: <= 0, 0: == 0, 1: >= 0
    int              b = 0;  // scaled constant   (a.x + b  sense 0)
};
struct Inst {
    int              n = 0;
    std::vector<int> lb, ub, fix, ini;
    int              sense = 1;  // 1 minimise, -1 maximise
    std::vector<int> o;
    int              oc = 0;
    std::vector<Con> c;
    int              flavour = 0;
    int              den     = 4;
    std::vector<int> wit;      // planted point (may or may not be feasible)

    std::string json_fields() const {
        J j;
        j.kv("n", n).ka("lb", [&] { std::vector<int> v; for (int b : lb) v.push_back(enc_ib(b)); return v; }());
        j.ka("ub", [&] { std::vector<int> v; for (int b : ub) v.push_back(enc_ib(b)); return v; }());
        j.ka("fix", fix).ka("ini", ini).kv("sense", sense).ka("o", o).kv("oc", oc).kv("m", (long)c.size());
        J cs('[');
        for (auto &k : c) { J e; e.ka("a", k.a).kv("s", k.s).kv("b", k.b); cs.raw(e.str()); }
        j.kr("c", cs.str());
        j.kv("fl", flavour).kv("den", den).ka("wit", wit);
        return j.str();
    }
    long box() const {
        long t = 1;
        for (int i = 0; i < n; i++) {
            long w = (long)ub[i] - lb[i] + 1;
            if (w > 100000) return -1;
            t *= w;
            if (t > 100000000) return -1;
        }
        return t;
    }
    long cval(int k, const std::vector<int> &x) const {
        long v = c[k].b;
        for (int i = 0; i < n; i++) v += (long)c[k].a[i] * x[i];
        return v;
    }
    bool sat(const std::vector<int> &x) const {
        for (int k = 0; k < (int)c.size(); k++) {
            long v = cval(k, x);
            if (c[k].s == 0 && v != 0) return false;
            if (c[k].s < 0 && v > 0) return false;
            if (c[k].s > 0 && v < 0) return false;
        }
        return true;
    }
    long oval(const std::vector<int> &x) const {
        long v = oc;
        for (int i = 0; i < n; i++) v += (long)o[i] * x[i];
        return v;
    }
};

// ---------------------------------------------------------------------------
// Instance generator
// ---------------------------------------------------------------------------
struct GenOpt {
    int  nmin = 2, nmax = 5, mmin = 0, mmax = 4;
    long box_max     = 600;
    bool fractions   = true;   // multiples of 1/4 allowed
    bool allow_fix   = true;
    bool want_feasible = false;  // plant a feasible point
    bool decimal     = true;   // coefficients that are multiples of 1/10 in some instances
    bool wide        = false;  // allow wide / unbounded variables
    int  wide_max    = 300000;
    bool infinite    = true;
};

inline Con zero_con(int n) { Con k; k.a.assign(n, 0); return k; }

inline Inst gen(Rng &r, const GenOpt &g) {
    Inst I;
    DEN       = (g.decimal && r.p(20)) ? 10 : 4;
    I.den     = DEN;
    I.flavour = r.in(0, 13);
    const int nb = I.flavour == 13 ? r.in(2, 3) : 0;   // 13: as many parity equations as binary variables, each with a key variable of its own
    I.n       = nb ? 2 * nb : r.in(g.nmin, g.nmax);
    const int n = I.n;
    I.lb.resize(n); I.ub.resize(n); I.fix.assign(n, NONE); I.ini.resize(n); I.o.assign(n, 0);
    const bool binary_heavy = I.flavour <= 4, all_binary = I.flavour == 10 || I.flavour == 11;
    for (;;) {
        for (int i = 0; i < n; i++) {
            if (nb) { I.lb[i] = i < nb ? 0 : r.pick(std::vector<int>{0, 0, -1, -1, -2}); I.ub[i] = i < nb ? 1 : r.pick(std::vector<int>{0, 1, 1, 2}); }
            else if (all_binary || (binary_heavy ? r.p(85) : r.p(30))) { I.lb[i] = 0; I.ub[i] = 1; }
            else {
                I.lb[i] = r.in(-4, 2);
                I.ub[i] = I.lb[i] + r.in(0, 5);
                if (r.p(25)) { I.lb[i] = 0; I.ub[i] = r.in(1, 6); }
            }
        }
        if (I.box() <= g.box_max) break;
    }
    if (g.wide && r.p(50)) {
        int i = r.in(0, n - 1);
        if (g.infinite && r.p(50)) I.ub[i] = constant::INT_HALF_MAX; else I.ub[i] = r.in(50, g.wide_max);
        if (r.p(50)) I.lb[i] = g.infinite && r.p(50) ? constant::INT_HALF_MIN : -r.in(50, g.wide_max);
    }
    std::vector<int> w(n);  // witness
    for (int i = 0; i < n; i++) w[i] = I.lb[i] + r.in(0, std::min(5, I.ub[i] > BIG || I.lb[i] < -BIG ? 5 : I.ub[i] - I.lb[i]));
    for (int i = 0; i < n; i++) if (I.lb[i] < -BIG) w[i] = r.in(-5, std::min(5, I.ub[i]));
    I.wit = w;
    auto coef = [&](bool frac) {
        int v;
        if (frac && g.fractions && r.p(25)) v = r.in(-12, 12);
        else v = DEN * r.in(-3, 3);
        return v;
    };
    I.sense = r.p(50) ? 1 : -1;
    const bool fracobj = r.p(40);
    for (int i = 0; i < n; i++) I.o[i] = r.p(75) ? coef(fracobj) : 0;
    if (r.p(40)) I.oc = coef(fracobj);
    const int m = nb && r.p(60) ? 0 : r.in(g.mmin, g.mmax);
    for (int q = 0; q < nb; q++) {
        Con K = zero_con(n);
        for (int i = 0; i < nb; i++) if (i == q || r.p(70)) K.a[i] = DEN * (r.p(75) ? 1 : -1);
        int key = r.p(95) ? nb + q : r.in(nb, n - 1);
        if (q == nb - 1 && r.p(12)) key = q;   // the key is a summand of the other rows
        K.a[key] = 2 * DEN * (r.p(50) ? 1 : -1);
        K.b = DEN * r.in(-1, 1);
        I.c.push_back(K);
    }
    if (nb) {}
    else if (I.flavour >= 10) {   // disjoint structures
        std::vector<int> perm(n);
        for (int i = 0; i < n; i++) perm[i] = i;
        for (int i = n; i > 1; i--) std::swap(perm[i - 1], perm[r.in(0, i - 1)]);
        for (int at = 0; at < n;) {
            int len = I.flavour == 12 ? 2 : r.in(2, 4);
            len = std::min(len, n - at);
            if (len < 2) break;
            Con K = zero_con(n);
            for (int q = 0; q < len; q++) K.a[perm[at + q]] = DEN;
            if (I.flavour == 10) { K.b = -DEN; }                                   // exactly one of the group
            else if (I.flavour == 11) { K.a[perm[at]] = -DEN; K.b = r.p(80) ? 0 : -DEN; }   // sum of the group = key
            else {                                                                 // pairs of integers
                K.a[perm[at + 1]] = DEN * r.pick(std::vector<int>{1, -1, -1, -2, 2, -3});
                if (r.p(30)) K.a[perm[at]] = DEN * r.pick(std::vector<int>{2, 3});
                K.s = r.pick(std::vector<int>{0, 0, 0, 1, -1});
                long v = 0; for (int i = 0; i < n; i++) v += (long)K.a[i] * w[i];
                K.b = r.p(50) ? 0 : -(int)v;
            }
            I.c.push_back(K);
            at += len;
        }
    }
    for (int k = 0; k < m; k++) {
        Con K = zero_con(n);
        int kind = r.in(0, 13);
        if (I.flavour == 0) kind = r.in(0, 2);
        if (I.flavour == 1) kind = r.pick(std::vector<int>{0, 0, 1, 2, 3, 12});
        if (I.flavour == 5) kind = r.pick(std::vector<int>{4, 5, 6, 7, 8});
        if (I.flavour == 6) kind = r.pick(std::vector<int>{9, 10, 13});
        if (I.flavour == 7) kind = r.pick(std::vector<int>{11, 13});
        auto subset = [&](int lo) {
            std::vector<int> s;
            for (int t = 0; t < 20 && (int)s.size() < lo; t++) {
                s.clear();
                for (int i = 0; i < n; i++) if (r.p(55)) s.push_back(i);
            }
            while ((int)s.size() < lo && (int)s.size() < n) {
                int i = r.in(0, n - 1);
                if (std::find(s.begin(), s.end(), i) == s.end()) s.push_back(i);
            }
            return s;
        };
        auto two = [&](int &i, int &j) { i = r.in(0, n - 1); do { j = r.in(0, n - 1); } while (n > 1 && j == i); };
        int sgn = r.p(75) ? 1 : -1;
        switch (kind) {
            case 0: for (int i : subset(2)) K.a[i] = DEN; K.b = -DEN; K.s = 0; break;    // set partitioning
            case 1: for (int i : subset(2)) K.a[i] = DEN; K.b = -DEN; K.s = -1; break;   // set packing
            case 2: for (int i : subset(2)) K.a[i] = DEN; K.b = -DEN; K.s = 1; break;    // set covering
            case 3: for (int i : subset(2)) K.a[i] = DEN; K.b = -DEN * r.in(2, 3); K.s = r.in(-1, 1); break; // cardinality etc.
            case 4: { int i, j; two(i, j); K.a[i] += DEN * r.in(1, 3); K.a[j] -= DEN * r.in(1, 3); K.b = DEN * r.in(-2, 2); K.s = 0; break; } // aggregation
            case 5: { int i, j; two(i, j); K.a[i] += DEN; K.a[j] -= DEN; K.b = r.p(50) ? 0 : DEN * r.in(-2, 2); K.s = r.in(-1, 1); break; }  // precedence / difference
            case 6: { int i, j; two(i, j); K.a[i] += DEN * r.in(-3, 3); K.a[j] += DEN * r.in(-3, 3); K.b = coef(true); K.s = r.p(50) ? -1 : 1; break; } // variable bound
            case 7: { int i, j; two(i, j); K.a[i] += DEN; K.a[j] += DEN; K.b = DEN * r.in(-4, 4); K.s = 0; break; }  // constant sum
            case 8: { int i, j; two(i, j); K.a[i] += DEN; K.a[j] -= DEN * r.in(1, 4); K.b = 0; K.s = 0; break; }      // constant ratio
            case 9: { int i = r.in(0, n - 1); K.a[i] = coef(true); K.b = coef(true); K.s = r.in(-1, 1); break; }       // singleton
            case 10: for (int i : subset(2)) K.a[i] = DEN * r.in(1, 4); K.b = -DEN * r.in(1, 8); K.s = r.in(-1, 1); break;  // knapsack
            case 11: { // intermediate: key variable = linear form of others
                auto s = subset(2); int key = s[0];
                for (int i : s) K.a[i] = DEN * r.in(1, 3) * (r.p(50) ? 1 : -1);
                K.a[key] = -DEN; K.b = r.p(50) ? 0 : DEN * r.in(-3, 3); K.s = 0; break; }
            case 12: { // parity-like: sum = 2*key (+1)
                auto s = subset(2); for (int i : s) K.a[i] = DEN; K.a[s[0]] = -2 * DEN; K.b = r.p(50) ? 0 : -DEN; K.s = 0; break; }
            default: for (int i : subset(1)) K.a[i] = coef(true); K.b = coef(true); K.s = r.in(-1, 1); break;
        }
        if (sgn < 0) { for (int &a : K.a) a = -a; K.b = -K.b; K.s = -K.s; }
        if (g.want_feasible || r.p(50)) {  // shift rhs so that the witness satisfies it
            long v = K.b;
            for (int i = 0; i < n; i++) v += (long)K.a[i] * w[i];
            if (K.s == 0 && v != 0) K.b -= (int)v;
            if (K.s < 0 && v > 0) K.b -= (int)v;
            if (K.s > 0 && v < 0) K.b -= (int)v;
        }
        I.c.push_back(K);
        if (r.p(10)) I.c.push_back(K);  // duplicates
        if (r.p(4)) { Con K2 = K; K2.s = -K.s; I.c.push_back(K2); }  // implicit equality
    }
    for (int i = 0; i < n; i++) {
        if (g.allow_fix && r.p(8)) { I.fix[i] = r.p(70) ? w[i] : I.lb[i]; }
        int lo = std::max(I.lb[i], -6), hi = std::min(I.ub[i], 6);
        if (lo > hi) { lo = hi = (I.lb[i] > 6 ? I.lb[i] : I.ub[i]); }
        I.ini[i] = r.p(50) ? w[i] : r.in(lo, hi);
        if (I.fix[i] != NONE) I.ini[i] = I.fix[i];
    }
    return I;
}

// ---------------------------------------------------------------------------
// Build the printemps model for an instance through the public modelling API.
// ---------------------------------------------------------------------------
inline double d(int scaled) { return (double)scaled / DEN; }

template <class X> Expr linear(X &x, const std::vector<int> &a, int b) {
    auto e = Expr::create_instance();
    bool any = false;
    for (int i = 0; i < (int)a.size(); i++) {
        if (a[i] == 0) continue;
        if (!any) { e = d(a[i]) * x(i); any = true; }
        else e = e + d(a[i]) * x(i);
    }
    if (b != 0 || !any) e = e + d(b);
    return e;
}

struct Built {
    std::vector<Variable *> v;
    std::vector<Cons *>     c;
    std::vector<std::string> vproxy, cproxy;  // proxy name of each
    std::vector<int>         vflat, cflat;    // flat index in the proxy
};

// layout 0: one array each. Otherwise variables / constraints are spread over several
// proxies of various shapes (scalars, vectors, matrices) in a seeded way.
inline Built build(Model &M, const Inst &I, uint64_t layout = 0, bool define_objective = true) {
    Rng   r(layout + 77);
    Built B;
    DEN = I.den;
    int i = 0, g = 0;
    while (i < I.n) {
        int left = I.n - i, take;
        std::string name = layout ? "x" + std::to_string(g++) : "x";
        if (!layout) { take = left; M.create_variables(name, take); }
        else {
            int shape = r.in(0, 3);
            if (shape == 0) { take = 1; M.create_variable(name); }
            else if (shape == 1 && left >= 4) { take = 4; M.create_variables(name, std::vector<int>{2, 2}); }
            else { take = r.in(1, left); M.create_variables(name, take); }
        }
        for (int q = 0; q < take; q++) { B.vproxy.push_back(name); B.vflat.push_back(q); }
        i += take;
    }
    auto find_v = [&](const std::string &nm) -> auto & {
        for (size_t q = 0; q < M.variable_names().size(); q++) if (M.variable_names()[q] == nm) return M.variable_proxies()[q];
        throw std::logic_error("harness: proxy");
    };
    for (int q = 0; q < I.n; q++) B.v.push_back(&find_v(B.vproxy[q]).flat_indexed_variables(B.vflat[q]));
    for (int q = 0; q < I.n; q++) {
        auto &x = *B.v[q];
        x.set_bound(I.lb[q], I.ub[q]);
        x = I.ini[q];
        if (I.fix[q] != NONE) x.fix_by(I.fix[q]);
    }
    auto lin = [&](const std::vector<int> &a, int b) {
        auto e = Expr::create_instance();
        bool any = false;
        for (int q = 0; q < I.n; q++) {
            if (a[q] == 0) continue;
            if (!any) { e = d(a[q]) * (*B.v[q]); any = true; }
            else e = e + d(a[q]) * (*B.v[q]);
        }
        if (b != 0 || !any) e = e + d(b);
        return e;
    };
    auto &f = M.create_expression("f", lin(I.o, I.oc));
    const int m = (int)I.c.size();
    i = 0; g = 0;
    while (i < m) {
        int left = m - i, take;
        std::string name = layout ? "c" + std::to_string(g++) : "c";
        if (!layout) take = left; else take = r.in(1, left);
        if (take == 1 && layout) M.create_constraint(name); else M.create_constraints(name, take);
        for (int q = 0; q < take; q++) { B.cproxy.push_back(name); B.cflat.push_back(q); }
        i += take;
    }
    auto find_c = [&](const std::string &nm) -> auto & {
        for (size_t q = 0; q < M.constraint_names().size(); q++) if (M.constraint_names()[q] == nm) return M.constraint_proxies()[q];
        throw std::logic_error("harness: proxy");
    };
    for (int k = 0; k < m; k++) {
        auto &c = find_c(B.cproxy[k]).flat_indexed_constraints(B.cflat[k]);
        auto  e = lin(I.c[k].a, I.c[k].b);
        if (I.c[k].s < 0) c = e <= 0.0;
        else if (I.c[k].s > 0) c = e >= 0.0;
        else c = e == 0.0;
    }
    for (int k = 0; k < m; k++) B.c.push_back(&find_c(B.cproxy[k]).flat_indexed_constraints(B.cflat[k]));
    if (define_objective) { if (I.sense > 0) M.minimize(f); else M.maximize(f); }
    return B;
}

// ---------------------------------------------------------------------------
// Options: small, deterministic, fast.
// ---------------------------------------------------------------------------
inline option::Option base_option(uint64_t seed) {
    option::Option o;
    o.output.verbose            = option::verbose::Off;
    o.general.iteration_max     = 3;
    o.general.time_max          = 1000;
    o.general.seed              = (int)(seed % 1000003);
    o.tabu_search.seed          = (int)(seed % 999983);
    o.tabu_search.iteration_max = 30;
    o.tabu_search.time_max      = 1000;
    o.local_search.seed         = (int)(seed % 999979);
    o.local_search.time_max     = 1000;
    o.lagrange_dual.time_max    = 1000;
    o.pdlp.time_max             = 1000;
    return o;
}

// Random solver configuration; every value is one the documentation allows.
inline option::Option rand_option(Rng &r, uint64_t seed) {
    auto o = base_option(seed);
    auto &n = o.neighborhood;
    auto coin = [&](bool &b, int p) { b = r.p(p); };
    o.general.iteration_max     = r.in(1, 4);
    o.tabu_search.iteration_max = r.in(5, 40);
    coin(o.general.is_enabled_fast_evaluation, 85);
    if (r.p(70)) {
        coin(n.is_enabled_exclusive_or_move, 70); coin(n.is_enabled_exclusive_nor_move, 70);
        coin(n.is_enabled_inverted_integers_move, 70); coin(n.is_enabled_balanced_integers_move, 70);
        coin(n.is_enabled_constant_sum_integers_move, 70); coin(n.is_enabled_constant_difference_integers_move, 70);
        coin(n.is_enabled_constant_ratio_integers_move, 70); coin(n.is_enabled_aggregation_move, 70);
        coin(n.is_enabled_precedence_move, 70); coin(n.is_enabled_variable_bound_move, 70);
        coin(n.is_enabled_trinomial_exclusive_nor_move, 70); coin(n.is_enabled_soft_selection_move, 70);
        coin(n.is_enabled_chain_move, 70);
    }
    n.chain_move_capacity = r.pick(std::vector<int>{1, 2, 10, 10000});
    if (r.p(40)) n.chain_move_reduce_mode = option::chain_move_reduce_mode::Shuffle;
    n.selection_mode = r.pick(std::vector<option::selection_mode::SelectionMode>{
        option::selection_mode::Off, option::selection_mode::Defined, option::selection_mode::Smaller,
        option::selection_mode::Larger, option::selection_mode::Independent});
    n.improvability_screening_mode = r.pick(std::vector<option::improvability_screening_mode::ImprovabilityScreeningMode>{
        option::improvability_screening_mode::Off, option::improvability_screening_mode::Soft,
        option::improvability_screening_mode::Aggressive, option::improvability_screening_mode::Intensive,
        option::improvability_screening_mode::Automatic});
    coin(n.is_enabled_integer_step_size_adjuster, 50);
    auto &p = o.preprocess;
    coin(p.is_enabled_presolve, 75);
    if (r.p(60)) {
        coin(p.is_enabled_remove_duplicated_constraints, 60); coin(p.is_enabled_remove_redundant_set_variables, 60);
        coin(p.is_enabled_remove_redundant_set_constraints, 60); coin(p.is_enabled_extract_implicit_equality_constraints, 60);
        coin(p.is_enabled_extract_dependent_exclusive_or, 60); coin(p.is_enabled_extract_dependent_exclusive_nor, 60);
        coin(p.is_enabled_extract_dependent_inverted_integers, 60); coin(p.is_enabled_extract_dependent_balanced_integers, 60);
        coin(p.is_enabled_extract_dependent_constant_sum_integers, 60); coin(p.is_enabled_extract_dependent_constant_difference_integers, 60);
        coin(p.is_enabled_extract_dependent_constant_ratio_integers, 60); coin(p.is_enabled_extract_dependent_intermediate, 60);
    }
    coin(p.is_enabled_online_bounding, 60);
    auto &t = o.tabu_search;
    t.initial_tabu_tenure = r.pick(std::vector<int>{0, 1, 2, 5, 10});
    if (r.p(40)) t.tabu_mode = option::tabu_mode::Any;
    coin(t.is_enabled_shuffle, 80); coin(t.is_enabled_move_curtail, 20); coin(t.is_enabled_automatic_break, 70);
    coin(t.is_enabled_automatic_tabu_tenure_adjustment, 70); coin(t.is_enabled_automatic_iteration_adjustment, 70);
    coin(t.is_enabled_initial_modification, 70); coin(t.ignore_tabu_if_global_incumbent, 70);
    if (r.p(30)) t.move_preserve_rate = 0.5;
    coin(o.local_search.is_enabled, 30); o.local_search.iteration_max = r.in(1, 20);
    coin(o.lagrange_dual.is_enabled, 25); o.lagrange_dual.iteration_max = r.in(1, 20);
    coin(o.pdlp.is_enabled, 15); o.pdlp.iteration_max = r.in(1, 50);
    coin(o.penalty.is_enabled_group_penalty_coefficient, 20); coin(o.penalty.is_enabled_shrink_penalty_coefficient, 70);
    coin(o.penalty.is_enabled_inner_stagnation_breaker, 70); coin(o.penalty.is_enabled_outer_stagnation_breaker, 70);
    if (r.p(60)) {   // numeric parameters
        using VI = std::vector<int>; using VD = std::vector<double>;
        t.intensity_increase_count_threshold = r.pick(VI{0, 0, 1, 10}); t.intensity_decrease_count_threshold = r.pick(VI{0, 0, 1, 10});
        t.tabu_tenure_randomize_rate = r.pick(VD{0.3, 0.0, 0.5, 1.0});
        t.initial_modification_fixed_rate = r.pick(VD{0.5, 0.0, 1.0}); t.initial_modification_randomize_rate = r.pick(VD{0.5, 0.0, 1.0});
        t.number_of_initial_modification = r.pick(VI{0, 0, 1, 3});
        t.frequency_penalty_coefficient = r.pick(VD{1e-4, 0.0, 1.0}); t.lagrangian_penalty_coefficient = r.pick(VD{1.0, 0.0, 0.1});
        t.pruning_rate_threshold = r.pick(VD{1.0, 0.5}); t.iteration_increase_rate = r.pick(VD{1.5, 1.0, 3.0}); t.iteration_decrease_rate = r.pick(VD{0.9, 0.5});
        auto &q = o.penalty;
        q.penalty_coefficient_relaxing_rate = r.pick(VD{0.9, 0.5}); q.penalty_coefficient_tightening_rate = r.pick(VD{1.0, 2.0});
        q.penalty_coefficient_updating_balance = r.pick(VD{0.0, 0.5, 1.0}); q.inner_stagnation_threshold = r.pick(VI{20, 1, 3}); q.outer_stagnation_threshold = r.pick(VI{80, 1, 3});
        auto &g = o.lagrange_dual;
        g.step_size_extend_rate = r.pick(VD{1.05, 2.0}); g.step_size_reduce_rate = r.pick(VD{0.95, 0.5}); g.tolerance = r.pick(VD{1e-5, 0.1}); g.queue_size = r.pick(VI{100, 1, 3});
        auto &d = o.pdlp;
        d.tolerance = r.pick(VD{1e-5, 0.1}); d.restart_check_interval = r.pick(VI{10, 1, 3}); d.convergence_check_interval = r.pick(VI{10, 1, 3}); d.counts_of_ruiz_scaling = r.pick(VI{10, 0, 1}); coin(d.is_enabled_pock_chambolle_scaling, 50);
        if (r.p(50)) o.restart.restart_mode = option::restart_mode::Smart;
    }
    coin(o.output.is_enabled_store_feasible_solutions, 30); o.output.feasible_solutions_capacity = r.pick(std::vector<int>{1, 2, 5, 1000});
    coin(o.parallel.is_enabled_move_update_parallelization, 30); coin(o.parallel.is_enabled_move_evaluation_parallelization, 30);
#ifdef _OPENMP
    coin(o.parallel.is_enabled_move_update_parallelization, 90); coin(o.parallel.is_enabled_move_evaluation_parallelization, 90);
    coin(o.parallel.is_enabled_automatic_move_update_parallelization, 30); coin(o.parallel.is_enabled_automatic_move_evaluation_parallelization, 30);
    o.parallel.number_of_threads_move_update = r.in(1, 4); o.parallel.number_of_threads_move_evaluation = r.in(1, 4);
#endif
    return o;
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };

// Episode runner: forks per chunk so that a crash/hang of the code under test
// is reported as an episode outcome rather than the death of the harness.
// fn(k) returns the JSON record of episode k.
inline void run_forked(int count, int cpu_seconds, const std::function<std::string(int)> &fn, FILE *out,
                       const std::function<std::string(int, const std::string &)> &on_crash, int jobs = 8) {
    // split into `jobs` children each handling k = j, j+jobs, ...
    std::vector<std::string> result(count);
    struct Ch { pid_t pid; int fd; int j; int next; };
    std::vector<int> nexts(jobs);
    std::function<void(int, int)> work = [&](int fd, int start) {
        for (int k = start; k < count; k += jobs) {
            struct itimerval tv = {{0, 0}, {cpu_seconds, 0}};
            setitimer(ITIMER_PROF, &tv, nullptr);
            std::string r = std::to_string(k) + "\t" + fn(k) + "\n";
            size_t      o = 0;
            while (o < r.size()) {
                ssize_t w = write(fd, r.data() + o, r.size() - o);
                if (w <= 0) _exit(3);
                o += (size_t)w;
            }
        }
        _exit(0);
    };
    std::vector<FILE *> files(jobs, nullptr);
    std::vector<pid_t>  pids(jobs, -1);
    auto launch = [&](int j, int start) {
        int p[2];
        if (pipe(p)) exit(2);
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) { close(p[0]); work(p[1], start); }
        close(p[1]);
        pids[j]  = pid;
        files[j] = fdopen(p[0], "r");
    };
    for (int j = 0; j < jobs; j++) { nexts[j] = j; if (j < count) launch(j, j); }
    // Read children round robin (sequentially; pipes block children, so use poll-free
    // approach: one reader per child in turn would stall others; use threads).
    std::vector<std::thread> ths;
    std::mutex               mu;
    for (int j = 0; j < jobs && j < count; j++) {
        ths.emplace_back([&, j] {
            int crashes = 0;
            for (;;) {
                char * line = nullptr;
                size_t cap  = 0;
                ssize_t len;
                while ((len = getline(&line, &cap, files[j])) > 0) {
                    std::string s(line, (size_t)len);
                    size_t      t = s.find('\t');
                    if (t == std::string::npos || s.back() != '\n') break;
                    int k = std::stoi(s.substr(0, t));
                    result[k] = s.substr(t + 1, s.size() - t - 2);
                    nexts[j]  = k + jobs;
                }
                free(line);
                fclose(files[j]);
                int st = 0;
                waitpid(pids[j], &st, 0);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
                int         k   = nexts[j];
                std::string why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) why = "cpu limit";
                if (k < count) result[k] = on_crash(k, why);
                nexts[j] = k + jobs;
                if (nexts[j] >= count || ++crashes >= 3) break;  // enough to report
                std::lock_guard<std::mutex> lk(mu);
                launch(j, nexts[j]);
            }
        });
    }
    for (auto &t : ths) t.join();
    for (int k = 0; k < count; k++) if (!result[k].empty()) fprintf(out, "%s\n", result[k].c_str());
    fflush(out);
}
}  // namespace vf
