// Classification of constraints: random constraints over variables of every kind, as the
// library classifies and groups them.
#include "common.h"
using namespace vf;
using VS = model_component::VariableSense;
constexpr int SC = 4;
static int es(double v) { return (int)std::floor(v * SC + 0.5); }
int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]);
    auto fn = [&](int k) -> std::string {
        Rng r(S * 6000023 + k);
        Model M; int n = r.in(2, 6);
        std::vector<Variable *> V;
        int mix = r.in(0, 5);   // 0 binaries, 1 integers, else mixed
        std::vector<std::pair<int, int>> bd;
        for (int i = 0; i < n; i++) {
            bool bin = mix == 0 ? true : mix == 1 ? false : r.p(60);
            int lo = 0, hi = 1;
            if (!bin) { lo = r.in(-3, 2); hi = lo + r.in(1, 5); if (lo == 0 && hi == 1) hi = 2; if (r.p(15)) { lo = constant::INT_HALF_MIN; } if (r.p(15)) hi = constant::INT_HALF_MAX; }
            bd.push_back({lo, hi});
        }
        // names in a random order, since some marks depend on them
        std::vector<int> nm(n); for (int i = 0; i < n; i++) nm[i] = i; for (int i = n - 1; i > 0; i--) std::swap(nm[i], nm[r.in(0, i)]);
        for (int i = 0; i < n; i++) M.create_variable("v" + std::to_string(nm[i]), bd[i].first, bd[i].second);
        for (auto &p : M.variable_proxies()) V.push_back(&p(0));
        int fixp = r.p(60) ? 0 : 25, selp = r.p(70) ? 0 : 40, depp = r.p(70) ? 0 : 30;
        model_component::Selection<int, double> sel; Expr dep = Expr::create_instance();
        for (int i = 0; i < n; i++) {
            V[i]->set_value_force(std::min(std::max(0, bd[i].first), bd[i].second));
            if (r.p(fixp)) V[i]->fix();
            bool bin = V[i]->sense() == VS::Binary;
            if (bin && r.p(selp)) V[i]->set_selection_ptr(&sel);
            else if (r.p(depp)) V[i]->set_dependent_expression_ptr(&dep);
        }
        int m = r.in(1, 3);
        std::vector<Cons *> C; std::vector<std::pair<std::vector<int>, int>> form;
        for (int c = 0; c < m; c++) {
            std::vector<int> a(n, 0); int style = r.in(0, 7); int b = 0;
            int w = style == 0 ? 2 : style == 1 ? std::min(n, 3) : r.in(1, n);
            std::vector<int> ix(n); for (int i = 0; i < n; i++) ix[i] = i; for (int i = n - 1; i > 0; i--) std::swap(ix[i], ix[r.in(0, i)]);
            int base = r.p(50) ? 1 : -1;
            for (int q = 0; q < w; q++) {
                int v = 4;
                if (style <= 1) v = 4 * r.pick(std::vector<int>{1, 1, 1, -1, -1, -1, 2, -2, 3});
                else if (style == 2) v = 4 * base;                                   // all ones
                else if (style == 3) v = r.p(50) ? 4 : -4;                           // flow
                else if (style == 4) v = 4 * base * r.in(1, 4);                      // knapsack
                else if (style == 5) v = q == 0 ? (r.p(50) ? 4 : -4) : 4 * r.in(2, 4) * (r.p(50) ? 1 : -1);  // one of unit coefficient
                else if (style == 6) v = q == 0 ? (r.p(50) ? 8 : -8) : (r.p(50) ? 4 : -4);                    // parity
                else v = 4 * r.in(-3, 3);
                if (v == 0) v = 4;
                if (r.p(6)) v = r.pick(std::vector<int>{6, -6, 5, -7, 2, 9, -10, 8, -8});
                a[ix[q]] = v;
            }
            if (style == 1 && r.p(60) && w == 3) { a[ix[0]] = a[ix[1]] = 4 * base; a[ix[2]] = -8 * base; }
            b = r.pick(std::vector<int>{0, 0, 0, -4, -4, -4, 4, 4, -8, -12, 8, -a[ix[0]]});
            if (r.p(5)) b = r.pick(std::vector<int>{-2, -6, 1, 5, -5});
            Expr e = Expr::create_instance();
            for (int i = 0; i < n; i++) if (a[i]) e += (a[i] / 4.0) * V[i]->to_expression();
            e += b / 4.0;
            int s = r.in(-1, 1);
            auto nmc = "c" + std::to_string(c);
            if (s < 0) M.create_constraint(nmc, e <= 0.0); else if (s == 0) M.create_constraint(nmc, e == 0.0); else M.create_constraint(nmc, e >= 0.0);
        }
        for (auto &p : M.constraint_proxies()) C.push_back(&p(0));
        for (auto *c : C) if (r.p(15)) c->disable();
        M.setup_unique_names();
        M.categorize_constraints();
        if (r.p(20)) M.categorize_constraints();
        auto &T = M.constraint_type_reference(); auto &CR = M.constraint_reference();
        J j; j.kv("k", k).ks("kind", "ok");
        { J vs('['); for (int i = 0; i < n; i++) { auto s = V[i]->sense(); J e; e.ks("s", s == VS::Binary ? "B" : s == VS::Integer ? "I" : s == VS::Selection ? "S" : s == VS::DependentBinary ? "DB" : "DI").kb("fx", V[i]->is_fixed()).kv("lb", enc_ib(bd[i].first)).kv("ub", enc_ib(bd[i].second)).kv("nm", nm[i]); if (bd[i].first == constant::INT_HALF_MIN) e.kb("nlb", true); else e.kb("nlb", false); e.kb("nub", bd[i].second == constant::INT_HALF_MAX); vs.raw(e.str()); } j.kr("v", vs.str()); }
        auto groups = [&](Cons *c) {
            J g('[');
            auto has = [&](const std::vector<Cons *> &v) { return std::count(v.begin(), v.end(), c); };
#define G(name, type) { long q = has(T.type##_ptrs); for (long z = 0; z < q; z++) g.raw("\"" name "\""); }
            G("Singleton", singleton) G("XOR", exclusive_or) G("XNOR", exclusive_nor) G("Inverted", inverted_integers) G("Balanced", balanced_integers) G("ConstSum", constant_sum_integers) G("ConstDiff", constant_difference_integers) G("ConstRatio", constant_ratio_integers) G("Aggregation", aggregation) G("Precedence", precedence) G("VariableBound", variable_bound) G("TriXNOR", trinomial_exclusive_nor) G("SetPartitioning", set_partitioning) G("SetPacking", set_packing) G("SetCovering", set_covering) G("Cardinality", cardinality) G("InvKnapsack", invariant_knapsack) G("MultiCovering", multiple_covering) G("BinaryFlow", binary_flow) G("IntegerFlow", integer_flow) G("SoftSelection", soft_selection) G("MinMax", min_max) G("MaxMin", max_min) G("Intermediate", intermediate) G("EqKnapsack", equation_knapsack) G("BinPacking", bin_packing) G("Knapsack", knapsack) G("IntKnapsack", integer_knapsack) G("GF2", gf2) G("General", general_linear)
            return g.str();
        };
        auto flags = [&](Cons *c) {
            J g('[');
#define F(name, type) if (c->is_##type()) g.raw("\"" name "\"");
            F("Singleton", singleton) F("XOR", exclusive_or) F("XNOR", exclusive_nor) F("Inverted", inverted_integers) F("Balanced", balanced_integers) F("ConstSum", constant_sum_integers) F("ConstDiff", constant_difference_integers) F("ConstRatio", constant_ratio_integers) F("Aggregation", aggregation) F("Precedence", precedence) F("VariableBound", variable_bound) F("TriXNOR", trinomial_exclusive_nor) F("SetPartitioning", set_partitioning) F("SetPacking", set_packing) F("SetCovering", set_covering) F("Cardinality", cardinality) F("InvKnapsack", invariant_knapsack) F("MultiCovering", multiple_covering) F("BinaryFlow", binary_flow) F("IntegerFlow", integer_flow) F("SoftSelection", soft_selection) F("MinMax", min_max) F("MaxMin", max_min) F("Intermediate", intermediate) F("EqKnapsack", equation_knapsack) F("BinPacking", bin_packing) F("Knapsack", knapsack) F("IntKnapsack", integer_knapsack) F("GF2", gf2) F("General", general_linear)
            return g.str();
        };
        J cs('[');
        for (auto *c : C) {
            std::vector<int> a(n, 0); for (int i = 0; i < n; i++) { auto it = c->expression().sensitivities().find(V[i]); if (it != c->expression().sensitivities().end()) a[i] = es(it->second); }
            auto *kp = c->key_variable_ptr(); int key = 0; for (int i = 0; i < n; i++) if (V[i] == kp) key = i + 1;
            if (kp && !key) key = -1;
            auto has = [&](const std::vector<Cons *> &v) { return (long)std::count(v.begin(), v.end(), c); };
            J e; e.ka("a", a).kv("b", es(c->expression().constant_value())).kv("s", c->sense() == model_component::ConstraintSense::Less ? -1 : c->sense() == model_component::ConstraintSense::Equal ? 0 : 1).kr("f", flags(c)).kr("g", groups(c)).kv("key", key).kb("en", c->is_enabled());
            e.kv("all", has(CR.constraint_ptrs)).kv("en1", has(CR.enabled_constraint_ptrs)).kv("en0", has(CR.disabled_constraint_ptrs)).kv("le", has(CR.less_ptrs)).kv("eq", has(CR.equal_ptrs)).kv("ge", has(CR.greater_ptrs));
            e.kb("int", c->is_integer()).kv("mx", es(c->max_abs_coefficient()));
            cs.raw(e.str());
        }
        j.kr("c", cs.str());
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10, fn, stdout, [&](int k, const std::string &w) {
        J j; j.kv("k", k).ks("kind", "crash").ks("what", w).kr("v", "[]").kr("c", "[]"); return j.str();
    }, 8);
}
