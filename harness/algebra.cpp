// The modelling layer as a calculator: a random program of modelling operations is executed on
// the real classes and everything that changed after each operation is recorded.
#include "common.h"
#include <variant>
using namespace vf;
using VP = model_component::VariableProxy<int, double>;
using EP = model_component::ExpressionProxy<int, double>;
using CP = model_component::ConstraintProxy<int, double>;
using Operand = std::variant<double, int, Variable *, VP *, Expr *, EP *>;
constexpr int SC = 64;

template <class T> struct Deref { static T get(T v) { return v; } };
template <class T> struct Deref<T *> { static T &get(T *p) { return *p; } };
template <class T> constexpr bool scalar_v = std::is_arithmetic_v<T>;

static int es(double v) { double s = v * SC; double q = std::floor(s + 0.5); if (std::fabs(s - q) > 1e-9 || std::fabs(q) > 1e9) return BAD; return (int)q; }

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]); const int steps = atoi(argv[3]);
    auto fn = [&](int k) -> std::string {
        Rng r(S * 9000011 + k);
        Model M;
        // arrays: scalar, vector, matrix (or 3-D) of variables; the same of expressions; constraints
        struct Arr { std::vector<int> shape; int base, n; };
        std::vector<Arr> va, ga, ca;
        std::vector<VP *> vp; std::vector<EP *> gp; std::vector<CP *> cp;
        auto shapes = [&](int &total) {
            std::vector<Arr> a; total = 0;
            auto put = [&](std::vector<int> s) { int n = 1; for (int d : s) n *= d; a.push_back({s, total, n}); total += n; };
            put({1}); put({r.in(2, 3)});
            if (r.p(70)) put(r.p(60) ? std::vector<int>{2, r.in(1, 3)} : std::vector<int>{2, r.in(1, 2), 2});
            return a;
        };
        int nv, ng, nc;
        va = shapes(nv); ga = shapes(ng); ca = shapes(nc);
        for (size_t q = 0; q < va.size(); q++) {
            std::string nm = "x" + std::to_string(q); auto &s = va[q].shape;
            bool b = r.p(60); int lo = r.in(-3, 1), hi = lo + r.in(0, 4);
            if (q == 0) { if (b) M.create_variable(nm, lo, hi); else M.create_variable(nm); }
            else if (s.size() == 1) { if (b) M.create_variables(nm, s[0], lo, hi); else M.create_variables(nm, s[0]); }
            else { if (b) M.create_variables(nm, s, lo, hi); else M.create_variables(nm, s); }
        }
        for (size_t q = 0; q < ga.size(); q++) { std::string nm = "g" + std::to_string(q); auto &s = ga[q].shape; if (q == 0) M.create_expression(nm); else if (s.size() == 1) M.create_expressions(nm, s[0]); else M.create_expressions(nm, s); }
        for (size_t q = 0; q < ca.size(); q++) { std::string nm = "c" + std::to_string(q); auto &s = ca[q].shape; if (q == 0) M.create_constraint(nm); else if (s.size() == 1) M.create_constraints(nm, s[0]); else M.create_constraints(nm, s); }
        for (auto &p : M.variable_proxies()) vp.push_back(&p);
        for (auto &p : M.expression_proxies()) gp.push_back(&p);
        for (auto &p : M.constraint_proxies()) cp.push_back(&p);
        std::vector<Variable *> V; std::vector<Cons *> C; std::vector<Expr *> R;
        std::vector<Expr> L; for (int q = 0; q < 3; q++) L.push_back(Expr::create_instance());
        auto midx = [&](const Arr &a, int f) { std::vector<int> ix(a.shape.size()); for (int d = (int)a.shape.size() - 1; d >= 0; d--) { ix[d] = f % a.shape[d]; f /= a.shape[d]; } return ix; };
        // elements are addressed the way a user does: by their indices (row by row)
        for (size_t q = 0; q < va.size(); q++) for (int f = 0; f < va[q].n; f++) V.push_back(&(*vp[q])(midx(va[q], f)));
        for (auto &e : L) R.push_back(&e);
        for (size_t q = 0; q < ga.size(); q++) for (int f = 0; f < ga[q].n; f++) R.push_back(&(*gp[q])(midx(ga[q], f)));
        for (size_t q = 0; q < ca.size(); q++) for (int f = 0; f < ca[q].n; f++) C.push_back(&(*cp[q])(midx(ca[q], f)));
        auto lin = [&](const Expr &e) {
            std::vector<int> a(nv + 1, 0);
            int known = 0;
            for (int i = 0; i < nv; i++) { auto it = e.sensitivities().find(V[i]); if (it != e.sensitivities().end()) { a[i] = es(it->second); known++; } }
            a[nv] = known == (int)e.sensitivities().size() ? es(e.constant_value()) : BAD;
            return a;
        };
        auto snapshot = [&] {
            std::vector<std::vector<int>> s;
            for (auto *v : V) s.push_back({enc_ib(v->lower_bound()), enc_ib(v->upper_bound()), v->is_fixed(), v->value(), (int)v->sense() == (int)model_component::VariableSense::Binary, v->has_lower_bound_margin(), v->has_upper_bound_margin()});
            for (auto *e : R) s.push_back(lin(*e));
            for (auto *c : C) { auto a = lin(c->expression()); a.push_back(c->sense() == model_component::ConstraintSense::Less ? -1 : c->sense() == model_component::ConstraintSense::Equal ? 0 : 1); s.push_back(a); }
            return s;
        };
        auto prev = snapshot();
        J j; j.kv("k", k).kv("nv", nv).kv("nr", (long)R.size()).kv("nc", nc);
        auto aj = [&](const std::vector<int> &v) { J q('['); for (int x : v) q.num(x); return q.str(); };
        { J q('['); for (auto &s : prev) q.raw(aj(s)); j.kr("init", q.str()); }
        J ev('[');
        auto mag = [&](const std::vector<int> &a) { int m = 0; for (int x : a) m = std::max(m, std::abs(x)); return m; };
        for (int st = 0; st < steps; st++) {
            J e; std::string out = "ok"; bool done = false;
            auto operand = [&](int allow_scalar, std::string &desc) -> Operand {
                int t = r.in(0, 9);
                if (allow_scalar && t < 3) {
                    if (r.p(50)) { int v = r.in(-3, 3); J d; d.ks("t", "s").kv("i", v * SC); desc = d.str(); return v; }
                    double v = r.in(-6, 6) / 4.0; J d; d.ks("t", "s").kv("i", es(v)); desc = d.str(); return v;
                }
                if (t < 6) { int i = r.in(0, nv - 1); J d; d.ks("t", "v").kv("i", i + 1); desc = d.str(); if (i == 0 && r.p(50)) return vp[0]; return V[i]; }
                int i = r.in(0, (int)R.size() - 1); J d; d.ks("t", "r").kv("i", i + 1); desc = d.str();
                if (i == 3 && r.p(60)) return gp[0];
                return R[i];
            };
            auto pick_arr = [&](const std::vector<Arr> &A) { return r.in(0, (int)A.size() - 1); };
            const int dst = r.in(0, (int)R.size() - 1);
            std::string dl, dr;
            const int op = r.in(0, 27);
            auto emit = [&](const char *name) { e.ks("op", name).kv("dst", dst + 1); done = true; };
            try {
                if (op <= 3) {          // dst = l +/- r
                    Operand a = operand(true, dl), b = operand(true, dr);
                    const bool plus = r.p(50);
                    std::visit([&](auto x, auto y) {
                        if constexpr (!(scalar_v<decltype(x)> && scalar_v<decltype(y)>)) {
                            auto &&X = Deref<decltype(x)>::get(x); auto &&Y = Deref<decltype(y)>::get(y);
                            emit(plus ? "add" : "sub"); e.kr("l", dl).kr("r", dr);
                            if (plus) *R[dst] = X + Y; else *R[dst] = X - Y;
                        }
                    }, a, b);
                } else if (op <= 5) {   // dst = scalar * l, l * scalar
                    Operand a = operand(false, dl); int w = r.in(0, 2); double f = r.in(-3, 3); const bool left = r.p(50), asint = r.p(50);
                    if (mag(prev[nv + dst]) > 1000000) continue;
                    std::visit([&](auto x) {
                        if constexpr (!scalar_v<decltype(x)>) {
                            auto &&X = Deref<decltype(x)>::get(x);
                            emit("mul"); e.kr("l", dl).kv("f", (int)f);
                            if (asint) { if (left) *R[dst] = (int)f * X; else *R[dst] = X * (int)f; }
                            else { if (left) *R[dst] = f * X; else *R[dst] = X * f; }
                        }
                    }, a);
                } else if (op == 6) {   // dst = l / scalar
                    Operand a = operand(false, dl); int f = r.pick(std::vector<int>{2, -2, 1, -1, 4});
                    auto okdiv = [&](const Expr &x) { for (int v : lin(x)) if (v % f) return false; return true; };
                    std::visit([&](auto x) {
                        if constexpr (!scalar_v<decltype(x)>) {
                            auto &&X = Deref<decltype(x)>::get(x);
                            Expr tmp = Expr::create_instance(); tmp = X * 1.0;
                            if (!okdiv(tmp)) return;
                            emit("div"); e.kr("l", dl).kv("f", f);
                            if (r.p(50)) *R[dst] = X / f; else *R[dst] = X / (double)f;
                        }
                    }, a);
                } else if (op <= 8) {   // unary
                    Operand a = operand(false, dl); const bool neg = r.p(70);
                    std::visit([&](auto x) {
                        if constexpr (!scalar_v<decltype(x)>) { auto &&X = Deref<decltype(x)>::get(x); emit(neg ? "neg" : "pos"); e.kr("l", dl); if (neg) *R[dst] = -X; else *R[dst] = +X; }
                    }, a);
                } else if (op <= 10) {  // dst = l (copy)
                    Operand a = operand(true, dl); const bool viaproxy = dst == 3 && r.p(60);
                    std::visit([&](auto x) {
                        auto &&X = Deref<decltype(x)>::get(x); emit("pos"); e.kr("l", dl);
                        if (viaproxy) *gp[0] = X; else *R[dst] = X;
                    }, a);
                } else if (op <= 13) {  // dst += l, dst -= l
                    Operand a = operand(true, dl); const bool plus = r.p(50), viaproxy = dst == 3 && r.p(60);
                    std::visit([&](auto x) {
                        auto &&X = Deref<decltype(x)>::get(x); emit(plus ? "iadd" : "isub"); e.kr("l", dl);
                        if (viaproxy) { if (plus) *gp[0] += X; else *gp[0] -= X; }
                        else { if (plus) *R[dst] += X; else *R[dst] -= X; }
                    }, a);
                } else if (op == 14) {  // dst *= f, dst /= f
                    const bool viaproxy = dst == 3 && r.p(60);
                    if (r.p(60)) {
                        int f = r.in(-3, 3); if (mag(prev[nv + dst]) > 1000000) continue;
                        emit("imul"); e.kv("f", f);
                        if (viaproxy) *gp[0] *= f; else *R[dst] *= (double)f;
                    } else {
                        int f = r.pick(std::vector<int>{2, -2, -1, 4}); bool okd = true; for (int v : prev[nv + dst]) if (v % f) okd = false;
                        if (!okd) continue;
                        emit("idiv"); e.kv("f", f);
                        if (viaproxy) *gp[0] /= (double)f; else *R[dst] /= f;
                    }
                } else if (op <= 18) {  // sums and dot products over (part of) an array
                    const bool vars = r.p(55); const auto &A = vars ? va : ga; const int q = pick_arr(A); const auto &s = A[q].shape;
                    std::vector<int> pat; int alls = 0;
                    const bool dot = r.p(50), whole = r.p(30);
                    for (int d : s) { bool all = r.p(55) && !(dot && alls >= 1); pat.push_back(all ? -1 : r.in(0, d - 1)); alls += all; }
                    if (whole) pat.assign(s.size(), -1);
                    if (dot && whole && s.size() > 1) continue;
                    int cnt = 1; for (size_t d = 0; d < s.size(); d++) if (pat[d] < 0) cnt *= s[d];
                    std::vector<int> co; for (int t = 0; t < cnt; t++) co.push_back(r.in(-2, 2));
                    bool wrong = r.p(12);
                    if (wrong && dot) co.push_back(1); else if (wrong && !whole) pat.push_back(-1); else wrong = false;
                    for (int f = 0; f < A[q].n; f++) if (!vars && mag(prev[nv + 3 + A[q].base + f]) > 1000000) wrong = true;
                    e.kr("shape", aj(s)).kv("base", A[q].base).kb("vars", vars).kr("pat", aj(pat)).kr("co", aj(co)).kb("wrong", wrong);
                    emit(dot ? "dot" : "sum");
                    std::vector<int> P; for (int x : pat) P.push_back(x < 0 ? (int)model_component::Range::All : x);
                    std::vector<double> cod(co.begin(), co.end());
                    Expr res = Expr::create_instance();
                    if (vars) res = dot ? (whole && s.size() == 1 ? vp[q]->dot(cod) : vp[q]->dot(P, cod)) : whole ? vp[q]->sum() : vp[q]->sum(P);
                    else res = dot ? (whole && s.size() == 1 ? gp[q]->dot(cod) : gp[q]->dot(P, cod)) : whole ? gp[q]->sum() : gp[q]->sum(P);
                    *R[dst] = res;
                } else if (op <= 22) {  // constraint c = (l sense r)
                    const int c = r.in(0, nc - 1); int s = r.in(-1, 1);
                    if (r.p(12)) { const int c2 = r.in(0, nc - 1); e.kv("c", c + 1).kv("c2", c2 + 1); emit("ccopy"); if (c == 0 && r.p(50)) *cp[0] = *C[c2]; else *C[c] = *C[c2]; }
                    else if (r.p(10)) {
                        const int q = pick_arr(va); const auto &sh = va[q].shape; std::vector<int> pat; for (int d : sh) pat.push_back(r.p(55) ? -1 : r.in(0, d - 1));
                        const bool whole = r.p(30); if (whole) pat.assign(sh.size(), -1);
                        std::vector<int> P; for (int x : pat) P.push_back(x < 0 ? (int)model_component::Range::All : x);
                        e.kv("c", c + 1).kr("shape", aj(sh)).kv("base", va[q].base).kb("vars", true).kr("pat", aj(pat)).kr("co", "[]").kb("wrong", false); emit("csel");
                        if (whole) *C[c] = vp[q]->selection(); else *C[c] = vp[q]->selection(P);
                    } else {
                        Operand a = operand(true, dl), b = operand(true, dr); const bool viaproxy = c == 0 && r.p(50);
                        std::visit([&](auto x, auto y) {
                            if constexpr (!(scalar_v<decltype(x)> && scalar_v<decltype(y)>)) {
                                auto &&X = Deref<decltype(x)>::get(x); auto &&Y = Deref<decltype(y)>::get(y);
                                emit("con"); e.kv("c", c + 1).kv("s", s).kr("l", dl).kr("r", dr);
                                if (viaproxy) { if (s < 0) *cp[0] = X <= Y; else if (s > 0) *cp[0] = X >= Y; else *cp[0] = X == Y; }
                                else { if (s < 0) *C[c] = X <= Y; else if (s > 0) *C[c] = X >= Y; else *C[c] = X == Y; }
                            }
                        }, a, b);
                    }
                } else if (op <= 25) {  // variables: bounds, values, fixing
                    const int w = r.in(0, 5); const int i = r.in(0, nv - 1); int a = r.in(-3, 3), b = r.in(-3, 3);
                    const bool via = i == 0 && r.p(50);
                    e.kv("i", i + 1).kv("a", a).kv("b", b);
                    if (w == 0) { emit("vbound"); if (via) vp[0]->set_bound(a, b); else V[i]->set_bound(a, b); }
                    else if (w == 1) {
                        const int q = pick_arr(va); e.kv("base", va[q].base).kv("n", va[q].n); emit("abound");
                        if (r.p(70)) { if (a > b) std::swap(a, b); } e.kv("a2", a).kv("b2", b); vp[q]->set_bound(a, b);
                    }
                    else if (w == 2) { emit("vfix"); if (via) vp[0]->fix_by(a); else V[i]->fix_by(a); }
                    else if (w == 3) { emit("vunfix"); if (via) vp[0]->unfix(); else V[i]->unfix(); }
                    else if (w == 4) { emit("vset"); if (via) *vp[0] = a; else if (r.p(50)) V[i]->set_value(a); else *V[i] = a; }
                    else { emit("vreset"); if (via) vp[0]->reset_bound(); else V[i]->reset_bound(); }
                } else if (op == 26) {  // value of an expression / constraint at the current values, and its range
                    e.kv("v", es(R[dst]->evaluate())); emit("eval");
                    bool fin = true; for (int i = 0; i < nv; i++) if (prev[nv + dst][i] && !V[i]->is_fixed() && (std::abs(V[i]->lower_bound()) > 1000 || std::abs(V[i]->upper_bound()) > 1000)) fin = false;
                    e.kb("fin", fin).kv("lo", fin ? es(R[dst]->lower_bound()) : 0).kv("hi", fin ? es(R[dst]->upper_bound()) : 0);
                } else {                // substitute / solve for a variable
                    const int i = r.in(0, nv - 1), src = r.in(0, (int)R.size() - 1);
                    if (r.p(50)) {
                        const int u = prev[nv + src][i]; if (u != SC && u != -SC) continue;
                        e.kv("i", i + 1).kv("src", src + 1); emit("solve"); *R[dst] = R[src]->solve(V[i]);
                    } else {
                        const int u = prev[nv + dst][i]; if (src == dst || prev[nv + src][i] != 0 || R[src]->sensitivities().count(V[i]) || u % SC || mag(prev[nv + src]) > 100000 || std::abs(u) > 1000) continue;
                        e.kv("i", i + 1).kv("src", src + 1); emit("subst"); R[dst]->substitute(V[i], *R[src]);
                    }
                }
            } catch (const std::exception &) { out = "exc"; }
            if (!done) continue;
            auto cur = snapshot();
            J ch('['); for (size_t q = 0; q < cur.size(); q++) if (cur[q] != prev[q]) { J c; c.kv("q", (long)q + 1).kr("v", aj(cur[q])); ch.raw(c.str()); }
            prev = cur;
            e.ks("out", out).kr("chg", ch.str());
            ev.raw(e.str());
        }
        M.setup_unique_names();
        std::set<std::string> names; int total = 0; bool empty = false;
        for (auto *v : V) { names.insert("v" + v->name()); total++; empty |= v->name().empty(); }
        for (size_t q = 3; q < R.size(); q++) { names.insert("g" + R[q]->name()); total++; empty |= R[q]->name().empty(); }
        for (auto *c : C) { names.insert("c" + c->name()); total++; empty |= c->name().empty(); }
        J e; e.ks("op", "names").kv("dst", 1).kv("distinct", (long)names.size()).kv("total", total).kb("empty", empty).ks("out", "ok").kr("chg", "[]"); ev.raw(e.str());
        j.kr("ev", ev.str()).ks("kind", "algebra");
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10, fn, stdout, [&](int k, const std::string &w) {
        J j; j.kv("k", k).ks("kind", "crash").ks("what", w).kv("nv", 0).kv("nr", 0).kv("nc", 0).kr("init", "[]").kr("ev", "[{\"op\":\"crash\",\"dst\":1,\"out\":\"ok\",\"chg\":[]}]"); return j.str();
    }, 8);
}
