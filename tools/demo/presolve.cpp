// Demonstration: preprocessing of small random models, compared with brute force over all points.
#include <printemps.h>
#include <cstdio>
#include <random>
using namespace printemps;
using V = model_component::Variable<int, double>;
int main(int argc, char **argv) {
    int models = argc > 1 ? atoi(argv[1]) : 4000, bad = 0, seen = 0;
    for (int k = 0; k < models; k++) {
        std::mt19937 g(k + 1);
        auto R = [&](int a, int b) { return a + int(g() % unsigned(b - a + 1)); };
        int n = R(2, 6), type = R(0, 4);
        std::vector<int> lo(n), hi(n);
        for (int i = 0; i < n; i++) { bool bin = type <= 1 || R(0, 2) == 0; lo[i] = bin ? 0 : R(-3, 1); hi[i] = bin ? 1 : lo[i] + R(0, 4); }
        struct C { std::vector<double> a; int s; double b; };
        std::vector<C> cs;
        int m = R(1, 5);
        for (int q = 0; q < m; q++) {
            C c; c.a.assign(n, 0); c.s = R(-1, 1); c.b = R(-4, 4) / (R(0, 4) ? 1.0 : 2.0);
            int kind = R(0, 4);
            if (type == 0) kind = 0;
            if (kind == 0) { for (int i = 0; i < n; i++) c.a[i] = R(0, 1); c.b = -1; c.s = type == 0 ? R(-1, 1) : c.s; }
            else if (kind == 1) { int i = R(0, n - 1), j = (i + R(1, n - 1)) % n; c.a[i] = R(1, 3); c.a[j] = (R(0, 1) ? 1 : -1) * R(1, 3); c.b = R(0, 1) ? 0 : R(-3, 3); if (R(0, 1)) c.s = 0; }
            else if (kind == 2) { int i = R(0, n - 1); c.a[i] = R(-3, 3); }
            else for (int i = 0; i < n; i++) if (R(0, 1)) c.a[i] = R(-3, 3);
            cs.push_back(c);
            if (R(0, 7) == 0) cs.push_back(c);
        }
        std::vector<double> o(n); for (auto &q : o) q = R(-5, 5);
        bool mini = R(0, 1);
        auto sat = [&](const std::vector<int> &x) { for (auto &c : cs) { double v = c.b; for (int i = 0; i < n; i++) v += c.a[i] * x[i]; if (c.s == 0 ? std::fabs(v) > 1e-9 : c.s < 0 ? v > 1e-9 : v < -1e-9) return false; } return true; };
        auto obj = [&](const std::vector<int> &x) { double s = 0; for (int i = 0; i < n; i++) s += o[i] * x[i]; return mini ? s : -s; };
        double best = 1e30; std::vector<int> x(lo);
        auto next = [&](std::vector<int> &x, const std::vector<int> &l, const std::vector<int> &h) { for (int i = 0; i < n; i++) { if (x[i] < h[i]) { x[i]++; return true; } x[i] = l[i]; } return false; };
        do { if (sat(x)) best = std::min(best, obj(x)); } while (next(x, lo, hi));
        model::IPModel M; std::vector<V *> v;
        for (int i = 0; i < n; i++) v.push_back(&M.create_variable("x" + std::to_string(i), lo[i], hi[i])(0));
        for (size_t q = 0; q < cs.size(); q++) { auto e = cs[q].a[0] * (*v[0]) + cs[q].b; for (int i = 1; i < n; i++) if (cs[q].a[i] != 0) e += cs[q].a[i] * (*v[i]); std::string nm = "c" + std::to_string(q); if (cs[q].s == 0) M.create_constraint(nm, e == 0); else if (cs[q].s < 0) M.create_constraint(nm, e <= 0); else M.create_constraint(nm, e >= 0); }
        { auto e = o[0] * (*v[0]) + 0; for (int i = 1; i < n; i++) e += o[i] * (*v[i]); if (mini) M.minimize(e); else M.maximize(e); }
        option::Option op; op.output.verbose = option::verbose::Off;
        auto &p = op.preprocess;
        p.is_enabled_presolve = true;
        bool ext = R(0, 1);
        p.is_enabled_extract_dependent_exclusive_or = p.is_enabled_extract_dependent_exclusive_nor = p.is_enabled_extract_dependent_inverted_integers = ext;
        p.is_enabled_extract_dependent_balanced_integers = p.is_enabled_extract_dependent_constant_sum_integers = p.is_enabled_extract_dependent_constant_difference_integers = ext;
        p.is_enabled_extract_dependent_constant_ratio_integers = p.is_enabled_extract_dependent_intermediate = ext;
        seen++;
        try { M.setup(op, false); } catch (...) { if (best < 1e29) bad++; continue; }
        std::vector<int> l(n), h(n);
        for (int i = 0; i < n; i++) { if (v[i]->is_fixed()) l[i] = h[i] = v[i]->value(); else if (v[i]->dependent_expression_ptr()) l[i] = h[i] = 0; else { l[i] = v[i]->lower_bound(); h[i] = v[i]->upper_bound(); } }
        double best2 = 1e30; x = l; bool wrong = false, empty = false;
        for (int i = 0; i < n; i++) empty |= l[i] > h[i];
        if (!empty) do {
            auto y = x;
            for (int t = 0; t <= n; t++) for (int i = 0; i < n; i++) if (v[i]->dependent_expression_ptr() && !v[i]->is_fixed()) { double s = v[i]->dependent_expression_ptr()->constant_value(); for (auto &e : v[i]->dependent_expression_ptr()->sensitivities()) for (int q = 0; q < n; q++) if (v[q] == e.first) s += e.second * y[q]; y[i] = (int)std::lround(s); }
            bool ok = true;
            for (auto &pr : M.constraint_proxies()) for (auto &c : pr.flat_indexed_constraints()) {
                bool sel = false; for (auto &s : M.selections()) sel |= s.constraint_ptr == &c;
                if (!c.is_enabled() && !sel) continue;
                double s = c.expression().constant_value(); for (auto &e : c.expression().sensitivities()) for (int q = 0; q < n; q++) if (v[q] == e.first) s += e.second * y[q];
                auto se = c.sense();
                ok &= se == model_component::ConstraintSense::Equal ? std::fabs(s) < 1e-9 : se == model_component::ConstraintSense::Less ? s < 1e-9 : s > -1e-9;
            }
            for (int i = 0; i < n; i++) if (v[i]->dependent_expression_ptr() && !v[i]->is_fixed()) ok &= y[i] >= v[i]->lower_bound() && y[i] <= v[i]->upper_bound();
            if (!ok) continue;
            bool inb = true; for (int i = 0; i < n; i++) inb &= y[i] >= lo[i] && y[i] <= hi[i];
            if (!inb || !sat(y)) wrong = true; else best2 = std::min(best2, obj(y));
        } while (next(x, l, h));
        if (wrong || (best < 1e29 && std::fabs(best - best2) > 1e-9)) bad++;
    }
    printf("%d models, %d spoiled by preprocessing\n", seen, bad);
    return bad ? 1 : 0;
}
