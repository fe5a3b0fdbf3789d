// Demonstration: random walks on random models. Usage: demo MODE [models]
//  score: predicted scores of moves = scores of the points they lead to (computed here)
//  state: constraint values, violations and objective after a move = those of the point (computed here)
//  legal: moves stay within bounds, change something, keep "exactly one" groups and two-variable relations
//  screen: screening by improvability keeps every move which lowers a violation or the objective
#include <printemps.h>
#include <cstdio>
#include <cstring>
#include <random>
#include <set>
using namespace printemps;
using Cn = model_component::Constraint<int, double>;
using V = model_component::Variable<int, double>;
static double val(Cn *c) { double s = c->expression().constant_value(); for (auto &e : c->expression().sensitivities()) s += e.second * e.first->value(); return s; }
static double vio(Cn *c) { double v = val(c); return c->sense() == model_component::ConstraintSense::Equal ? std::fabs(v) : c->sense() == model_component::ConstraintSense::Less ? std::max(v, 0.0) : std::max(-v, 0.0); }
int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "score";
    int models = argc > 2 ? atoi(argv[2]) : 3000, bad = 0, seen = 0;
    for (int k = 0; k < models; k++) {
        std::mt19937 g(k + 1);
        auto R = [&](int a, int b) { return a + int(g() % unsigned(b - a + 1)); };
        int n = R(4, 9), type = R(0, 3);
        model::IPModel M;
        std::vector<V *> v;
        for (int i = 0; i < n; i++) {
            bool bin = type == 0 || type == 1 || R(0, 2) == 0;
            int lo = bin ? 0 : R(-4, 1), hi = bin ? 1 : lo + R(1, 7);
            v.push_back(&M.create_variable("x" + std::to_string(i), lo, hi)(0));
        }
        std::vector<Cn *> cs;
        auto add = [&](std::vector<int> a, int sense, int rhs) {
            auto e = a[0] * (*v[0]) + 0;
            for (int i = 1; i < n; i++) if (a[i]) e += a[i] * (*v[i]);
            std::string name = "c" + std::to_string(cs.size());
            cs.push_back(sense == 0 ? &M.create_constraint(name, e == rhs)(0) : sense < 0 ? &M.create_constraint(name, e <= rhs)(0) : &M.create_constraint(name, e >= rhs)(0));
        };
        std::vector<int> z(n, 0);
        if (type == 1) for (int s = 0; s < 2; s++) { auto a = z; for (int i = s; i < n; i += 2) a[i] = 1; add(a, 0, 1); }
        if (type >= 2) for (int s = 0; s < 2; s++) { auto a = z; int i = R(0, n - 1), j = (i + R(1, n - 1)) % n; auto nz = [&] { int q = R(1, 3); return R(0, 1) ? q : -q; }; a[i] = nz(); a[j] = nz(); add(a, R(-1, 1), R(-4, 4)); }
        int m = R(2, 7);
        for (int q = 0; q < m; q++) { auto a = z; bool any = false; for (int i = 0; i < n; i++) if (R(0, 99) < 45) { a[i] = R(-3, 4); any |= a[i] != 0; } if (any) add(a, R(0, 5) == 0 ? 0 : R(0, 1) ? 1 : -1, R(-3, 5)); }
        auto o = 1 * (*v[0]) + 0;
        for (int i = 1; i < n; i++) o += R(-5, 5) * (*v[i]);
        bool mini = R(0, 1);
        if (mini) M.minimize(o); else M.maximize(o);
        option::Option opt;
        opt.output.verbose = option::verbose::Off;
        opt.preprocess.is_enabled_presolve = false;
        auto &p = opt.preprocess;
        p.is_enabled_extract_dependent_exclusive_or = p.is_enabled_extract_dependent_exclusive_nor = p.is_enabled_extract_dependent_inverted_integers = false;
        p.is_enabled_extract_dependent_balanced_integers = p.is_enabled_extract_dependent_constant_sum_integers = p.is_enabled_extract_dependent_constant_difference_integers = false;
        p.is_enabled_extract_dependent_constant_ratio_integers = p.is_enabled_extract_dependent_intermediate = false;
        auto &w = opt.neighborhood;
        w.selection_mode = type == 1 && R(0, 2) ? option::selection_mode::Defined : option::selection_mode::Off;
        w.is_enabled_exclusive_or_move = w.is_enabled_exclusive_nor_move = w.is_enabled_inverted_integers_move = w.is_enabled_balanced_integers_move = true;
        w.is_enabled_constant_sum_integers_move = w.is_enabled_constant_difference_integers_move = w.is_enabled_constant_ratio_integers_move = true;
        w.is_enabled_aggregation_move = w.is_enabled_precedence_move = w.is_enabled_variable_bound_move = w.is_enabled_trinomial_exclusive_nor_move = true;
        w.is_enabled_soft_selection_move = w.is_enabled_chain_move = true;
        try { M.setup(opt, false); } catch (...) { continue; }
        std::vector<Cn *> en;
        for (auto &pr : M.constraint_proxies()) for (auto &c : pr.flat_indexed_constraints()) if (c.is_enabled()) { en.push_back(&c); c.local_penalty_coefficient_less() = R(1, 40); c.local_penalty_coefficient_greater() = R(1, 40); }
        M.update();
        auto &nb = M.neighborhood();
        auto on = [&](auto &q) { if (!q.moves().empty()) q.enable(); };
        on(nb.binary()); on(nb.integer()); on(nb.selection()); on(nb.exclusive_or()); on(nb.exclusive_nor()); on(nb.inverted_integers()); on(nb.balanced_integers()); on(nb.constant_sum_integers());
        on(nb.constant_difference_integers()); on(nb.constant_ratio_integers()); on(nb.aggregation()); on(nb.precedence()); on(nb.variable_bound()); on(nb.trinomial_exclusive_nor()); on(nb.soft_selection()); nb.chain().enable();
        auto objective = [&] { double s = M.objective().expression().constant_value(); for (auto &e : M.objective().expression().sensitivities()) s += e.second * e.first->value(); return s; };
        auto cur = M.evaluate({});
        neighborhood::Move<int, double> prev; bool has = false;
        for (int t = 0; t < 8; t++) {
            nb.update_moves(true, true, true, false, 1);
            auto all = nb.move_ptrs();
            if (all.empty()) break;
            std::set<const void *> kept;
            if (mode == "screen") {
                M.update_variable_objective_improvabilities(); M.reset_variable_feasibility_improvabilities();
                if (!M.is_feasible()) M.update_variable_feasibility_improvabilities(M.current_violative_constraint_ptrs());
                nb.update_moves(false, true, !M.is_feasible(), false, 1);
                for (auto *q : nb.move_ptrs()) kept.insert(q);
            }
            std::vector<solution::SolutionScore> sc;
            for (auto *q : all) {
                solution::SolutionScore f;
                if (q->is_univariable_move) M.evaluate_single(&f, *q, cur); else if (q->is_selection_move) M.evaluate_selection(&f, *q, cur); else M.evaluate_multi(&f, *q, cur);
                sc.push_back(f); seen++;
                std::vector<double> before; for (auto *c : en) before.push_back(vio(c));
                double o0 = objective();
                std::vector<std::pair<V *, int>> undo;
                bool legal = true, same = true;
                for (auto &a : q->alterations) { undo.push_back({a.first, a.first->value()}); legal &= a.second >= a.first->lower_bound() && a.second <= a.first->upper_bound() && !a.first->is_fixed(); same &= a.second == a.first->value(); }
                for (auto &a : q->alterations) a.first->set_value_force(a.second);
                double tv = 0, lp = 0; bool better = false, kept2 = false;
                std::set<V *> alt; for (auto &a : q->alterations) alt.insert(a.first);
                bool two = alt.size() == 2 && q->sense != neighborhood::MoveSense::Chain && q->sense != neighborhood::MoveSense::Selection && q->sense != neighborhood::MoveSense::SoftSelection && q->sense != neighborhood::MoveSense::Precedence && q->sense != neighborhood::MoveSense::Aggregation;
                for (size_t i = 0; i < en.size(); i++) {
                    double u = vio(en[i]); tv += u; better |= u < before[i] - 1e-9;
                    lp += u * (val(en[i]) > 0 ? en[i]->local_penalty_coefficient_less() : en[i]->local_penalty_coefficient_greater());
                    bool sub = !en[i]->expression().sensitivities().empty(); for (auto &e : en[i]->expression().sensitivities()) sub &= alt.count(e.first) > 0;
                    kept2 |= sub && u < 1e-9;
                    bool even = true; for (auto &e : en[i]->expression().sensitivities()) even &= std::fabs(e.second) == 1; kept2 |= false && even;
                }
                double o1 = objective(); double om = mini ? o1 : -o1; bool obetter = mini ? o1 < o0 - 1e-9 : o1 > o0 + 1e-9;
                double one = 0; bool selok = true;
                for (auto &s : M.selections()) { one = 0; for (auto *x : s.variable_ptrs) one += x->value(); selok &= one == 1; }
                for (auto &u : undo) u.first->set_value_force(u.second);
                if (mode == "score" && (std::fabs(f.objective - om) > 1e-6 || std::fabs(f.total_violation - tv) > 1e-6 || std::fabs(f.local_penalty - lp) > 1e-6 || f.is_feasible != (tv < 1e-9))) bad++;
                if (mode == "legal" && (!legal || same || !selok || (two && !kept2))) bad++;
                if (mode == "screen" && !kept.count(q) && (better || obetter)) bad++;
            }
            int pick = R(0, int(all.size()) - 1);
            if (R(0, 1)) for (int tries = 0; tries < 6; tries++) { int c = R(0, int(all.size()) - 1); if (all[c]->sense != neighborhood::MoveSense::Binary && all[c]->sense != neighborhood::MoveSense::Integer) { pick = c; break; } }
            auto ch = *all[pick]; cur = sc[pick];
            M.update(ch);
            if (mode == "state") {
                double tv = 0; for (auto *c : en) { tv += vio(c); if (std::fabs(c->constraint_value() - val(c)) > 1e-6) bad++; }
                int nv = 0; for (auto *c : en) nv += vio(c) > 1e-9;
                if (nv != (int)M.current_violative_constraint_ptrs().size() || M.is_feasible() != (nv == 0) || std::fabs(M.objective().value() - objective()) > 1e-6) bad++;
            }
            if (has && prev.sense == neighborhood::MoveSense::Binary && ch.sense == neighborhood::MoveSense::Binary) {
                auto c2 = prev.alterations.front().first < ch.alterations.front().first ? prev + ch : ch + prev;
                if (!c2.has_duplicate_variable()) { nb.chain().register_move(c2); for (auto &al : c2.alterations) al.second = 1 - al.second; nb.chain().register_move(c2); nb.reset_special_neighborhood_moves_availability(); }
            }
            prev = ch; has = true;
        }
    }
    printf("%s: %d moves, %d wrong\n", mode.c_str(), seen, bad);
    return bad ? 1 : 0;
}
