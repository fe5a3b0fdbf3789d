// The model the search works on (after preprocessing), as scaled integers.
#pragma once
#include "common.h"
namespace vf {
inline int enc_s(double v, int scale) {
    if (std::isnan(v) || std::fabs(v) > 1.9e9 / scale) return BAD;
    double s = v * scale, r = std::floor(s + 0.5);
    if (std::fabs(s - r) > 1e-4) return BAD;
    return (int)r;
}
struct Reduced {
    int  sc  = 64;
    bool bad = false;
    std::unordered_map<const void *, int> idx;      // variable -> index
    std::vector<Cons *>                   cons;     // enabled constraints
    std::vector<std::vector<int>>         sels;     // selections (variable indices, 1-based)
    std::string                           vjson, cjson, ojson, sjson;

    template <class E> std::vector<int> coefs(const E &e, int n) {
        std::vector<int> a(n, 0);
        for (auto &s : e.sensitivities()) {
            auto it = idx.find(s.first);
            if (it == idx.end()) { bad = true; continue; }
            a[it->second] = enc_s(s.second, sc);
            if (a[it->second] == BAD) bad = true;
        }
        return a;
    }
    int con(double v) { int b = enc_s(v, sc); if (b == BAD) bad = true; return b; }
    // with_selections: list the constraints which selections enforce as ordinary ones
    void capture(Model &M, const Inst &I, const Built &B, bool with_selections) {
        sc = I.den * I.den * I.den;
        idx.clear(); cons.clear(); sels.clear(); bad = false;
        for (int i = 0; i < I.n; i++) idx[B.v[i]] = i;
        J V('[');
        for (int i = 0; i < I.n; i++) {
            J v; auto *x = B.v[i];
            bool dep = x->dependent_expression_ptr() != nullptr;
            v.kv("lb", enc_ib(x->lower_bound())).kv("ub", enc_ib(x->upper_bound())).kv("val", x->value());
            v.ks("t", x->is_fixed() ? "fixed" : dep ? "dep" : "free");
            std::vector<int> a(I.n, 0); int b = 0;
            if (dep && !x->is_fixed()) { a = coefs(*x->dependent_expression_ptr(), I.n); b = con(x->dependent_expression_ptr()->constant_value()); }
            v.ka("a", a).kv("b", b);
            V.raw(v.str());
        }
        vjson = V.str();
        J C('[');
        std::set<const void *> sel;
        J S('[');
        for (auto &s : M.selections()) {
            sel.insert(s.constraint_ptr);
            std::vector<int> m;
            for (auto *p : s.variable_ptrs) m.push_back(idx.count(p) ? idx[p] + 1 : 0);
            sels.push_back(m);
            J e('['); for (int q : m) e.num(q); S.raw(e.str());
        }
        sjson = S.str();
        for (auto &p : M.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) {
            if (!c.is_enabled() && !(with_selections && sel.count(&c))) continue;
            J e; int b = con(c.expression().constant_value());
            auto ss = c.sense();
            e.ka("a", coefs(c.expression(), I.n)).kv("b", b).kv("s", ss == model_component::ConstraintSense::Less ? -1 : ss == model_component::ConstraintSense::Equal ? 0 : 1);
            C.raw(e.str());
            cons.push_back(&c);
        }
        cjson = C.str();
        J O; int ob = con(M.objective().expression().constant_value());
        O.ka("a", coefs(M.objective().expression(), I.n)).kv("b", ob);
        ojson = O.str();
    }
};
}  // namespace vf
