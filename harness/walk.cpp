// Random walks over the neighbourhood of a preprocessed model: at every step all enabled
// kinds of moves are generated, each candidate is evaluated by the incremental evaluators
// and from scratch by the library, a random candidate is applied incrementally, and the
// resulting model state is recorded.
#include "reduced.h"
using namespace vf;
#ifdef _OPENMP
#define PAR true, 2 + k % 3
#define JOBS 3
#else
#define PAR false, 1
#define JOBS 8
#endif

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]);
    int STEPS = argc > 3 ? atoi(argv[3]) : 6;
    auto make = [&](Rng &r) {
        GenOpt g; g.nmin = 2; g.nmax = r.p(60) ? 6 : 12; g.mmin = 1; g.mmax = r.p(50) ? 4 : 9; g.box_max = 2000000000; g.infinite = false; g.wide_max = 200;
        if (r.p(10)) g.wide = true;
        g.want_feasible = r.p(60);
        Inst I = gen(r, g);
#ifdef _PRINTEMPS_MPS_SOLVER
        I.sense = 1;
#endif
        return I;
    };
    auto fn = [&](int k) -> std::string {
        Rng r(S * 9000011 + k);
        Inst I = make(r);
        bool noobj = r.p(5);
        if (noobj) { std::fill(I.o.begin(), I.o.end(), 0); I.oc = 0; I.sense = 1; }
        Model M; auto B = build(M, I, r.p(40) ? 0 : k + 1, !noobj);
        auto o = rand_option(r, r.next() % 100000);
        auto &n = o.neighborhood;
        n.is_enabled_exclusive_or_move = n.is_enabled_exclusive_nor_move = n.is_enabled_inverted_integers_move = n.is_enabled_balanced_integers_move = true;
        n.is_enabled_constant_sum_integers_move = n.is_enabled_constant_difference_integers_move = n.is_enabled_constant_ratio_integers_move = true;
        n.is_enabled_aggregation_move = n.is_enabled_precedence_move = n.is_enabled_variable_bound_move = n.is_enabled_trinomial_exclusive_nor_move = true;
        n.is_enabled_soft_selection_move = n.is_enabled_chain_move = n.is_enabled_two_flip_move = true;
        if (r.p(55)) {   // keep special constraints: no elimination of dependent variables
            o.preprocess.is_enabled_presolve = r.p(30);
            auto &p = o.preprocess;
            p.is_enabled_extract_dependent_exclusive_or = p.is_enabled_extract_dependent_exclusive_nor = p.is_enabled_extract_dependent_inverted_integers = false;
            p.is_enabled_extract_dependent_balanced_integers = p.is_enabled_extract_dependent_constant_sum_integers = p.is_enabled_extract_dependent_constant_difference_integers = false;
            p.is_enabled_extract_dependent_constant_ratio_integers = p.is_enabled_extract_dependent_intermediate = false;
        }
        o.penalty.initial_penalty_coefficient = r.pick(std::vector<int>{1, 5, 20, 50});
        if (r.p(30)) {   // two-flip pairs, named like a flippable variable pair file would
            std::vector<std::pair<std::string, std::string>> pairs; std::set<std::pair<int,int>> seen;
            for (int q = 0; q < 3; q++) { int a = r.in(0, I.n - 1), b = r.in(0, I.n - 1); if (a == b || I.lb[a] != 0 || I.ub[a] != 1 || I.lb[b] != 0 || I.ub[b] != 1 || !seen.insert({a, b}).second) continue; M.flippable_variable_ptr_pairs().emplace_back(B.v[a], B.v[b]); }
        }
        if (r.p(15) && !I.c.empty()) {
            o.neighborhood.selection_mode = option::selection_mode::UserDefined;
            for (auto *c : B.c) if (r.p(60)) c->set_is_user_defined_selection(true);
        }
        if (r.p(10)) for (auto *c : B.c) c->set_name("row");   // names need not be unique
        J j; j.kv("k", k);
        std::string outcome = "ok", what;
        try { M.setup(o, false); } catch (const std::exception &e) { outcome = "exc"; what = e.what(); }
        Reduced R; R.sc = 64;
        bool skip = outcome == "exc";
        std::vector<std::string> ev;
        if (outcome == "ok") {
            // distinct penalty coefficients per constraint and side
            for (auto &p : M.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) { c.local_penalty_coefficient_less() = r.in(1, 40); c.local_penalty_coefficient_greater() = r.in(1, 40); }
            M.set_global_penalty_coefficient(r.pick(std::vector<int>{1, 5, 20, 50}));
            M.update();
            R.capture(M, I, B, false); skip = R.bad;
            auto &nb = M.neighborhood();
            auto en = [&](auto &g) { if (g.moves().size() > 0) g.enable(); };
            en(nb.binary()); en(nb.integer()); en(nb.selection()); en(nb.exclusive_or()); en(nb.exclusive_nor()); en(nb.inverted_integers()); en(nb.balanced_integers());
            en(nb.constant_sum_integers()); en(nb.constant_difference_integers()); en(nb.constant_ratio_integers()); en(nb.aggregation()); en(nb.precedence()); en(nb.variable_bound());
            en(nb.trinomial_exclusive_nor()); en(nb.soft_selection()); en(nb.two_flip()); nb.chain().enable();
            auto X = [&] { std::vector<int> x; for (auto *v : B.v) x.push_back(v->value()); return x; };
            auto score = [&](const solution::SolutionScore &s) {
                J e; e.kv("o", enc_s(s.objective, R.sc)).kv("v", enc_s(s.total_violation, R.sc)).kb("f", s.is_feasible).kv("lp", enc_s(s.local_penalty, R.sc)).kv("gp", enc_s(s.global_penalty, R.sc)).kv("la", enc_s(s.local_augmented_objective, R.sc)).kv("ga", enc_s(s.global_augmented_objective, R.sc));
                e.kb("oi", s.is_objective_improvable).kb("fi", s.is_feasibility_improvable);
                return e.str();
            };
            auto alts = [&](const Move &m) { J a('['); for (auto &al : m.alterations) { J t('['); t.num(R.idx.count(al.first) ? R.idx[al.first] + 1 : 0).num(al.second); a.raw(t.str()); } return a.str(); };
            auto modelstate = [&](J &e) {
                std::vector<int> cv, vio;
                for (auto *c : R.cons) cv.push_back(enc_s(c->constraint_value(), R.sc));
                for (auto *c : M.current_violative_constraint_ptrs()) { int q = 0; for (size_t t = 0; t < R.cons.size(); t++) if (R.cons[t] == c) q = (int)t + 1; vio.push_back(q); }
                e.ka("x", X()).ka("cv", cv).ka("vio", vio).kb("feas", M.is_feasible()).kv("mo", noobj ? 0 : enc_s(M.objective().value(), R.sc));
                std::vector<int> selv;
                for (auto &s : M.selections()) selv.push_back(s.selected_variable_ptr && R.idx.count(s.selected_variable_ptr) ? R.idx[s.selected_variable_ptr] + 1 : 0);
                e.ka("selv", selv);
            };
            {
                J e; e.ks("e", "init");
                std::vector<int> lb, ub, fx, lcl, lcg;
                for (auto *v : B.v) { lb.push_back(enc_ib(v->lower_bound())); ub.push_back(enc_ib(v->upper_bound())); fx.push_back(v->is_fixed()); }
                for (auto *c : R.cons) { lcl.push_back((int)c->local_penalty_coefficient_less()); lcg.push_back((int)c->local_penalty_coefficient_greater()); }
                e.ka("lb", lb).ka("ub", ub).ka("fx", fx).ka("lcl", lcl).ka("lcg", lcg).kv("gc", (int)M.global_penalty_coefficient());
                modelstate(e); e.kr("st", score(M.evaluate({})));
                ev.push_back(e.str());
            }
            auto cur = M.evaluate({});
            Move prev; bool hasprev = false;
            int mode = r.in(0, 3);          // 0: no screening
            for (int t = 0; t < STEPS && !skip; t++) {
                nb.update_moves(true, true, true, PAR);
                auto all = nb.move_ptrs();
                if (all.empty()) break;
                std::set<const Move *> kept(all.begin(), all.end());
                // the same neighbourhood under improvability screening
                bool scr = r.p(35);
                if (scr) {
                    M.update_variable_objective_improvabilities();
                    M.reset_variable_feasibility_improvabilities();
                    if (!M.is_feasible()) M.update_variable_feasibility_improvabilities(M.current_violative_constraint_ptrs());
                    nb.update_moves(false, true, !M.is_feasible(), PAR);
                    kept = std::set<const Move *>(nb.move_ptrs().begin(), nb.move_ptrs().end());
                }
                std::vector<Move *> cs = all;
                for (size_t q = cs.size(); q > 1; q--) std::swap(cs[q - 1], cs[r.in(0, (int)q - 1)]);
                // prefer rare kinds
                std::stable_sort(cs.begin(), cs.end(), [](auto *a, auto *b) { auto w = [](auto *m) { return m->sense == neighborhood::MoveSense::Integer || m->sense == neighborhood::MoveSense::Binary; }; return w(a) < w(b); });
                if (cs.size() > 16) { std::vector<Move *> sub(cs.begin(), cs.begin() + 8); for (size_t q = cs.size() - 8; q < cs.size(); q++) sub.push_back(cs[q]); cs = sub; }
                J C('[');
                std::vector<solution::SolutionScore> sc;
#ifdef _OPENMP
                const int reps = 12, threads = 2 + k % 3;   // every candidate is evaluated repeatedly, concurrently with the others
#else
                const int reps = 1;
#endif
                const int nc = (int)cs.size();
                std::vector<solution::SolutionScore> fs(reps * nc), ss(nc);
#ifdef _OPENMP
#pragma omp parallel for schedule(static, 1) num_threads(threads)
#endif
                for (int q = 0; q < reps * nc; q++) {
                    Move *m = cs[q % nc]; auto *f = &fs[q];
                    if (m->is_univariable_move) M.evaluate_single(f, *m, cur);
                    else if (m->is_selection_move) M.evaluate_selection(f, *m, cur);
                    else M.evaluate_multi(f, *m, cur);
                    if (q < nc) M.evaluate(&ss[q], *m);
                }
                for (int q = 0; q < nc; q++) {
                    Move *m = cs[q]; solution::SolutionScore f = fs[q];
                    for (int z = 1; z < reps; z++) if (score(fs[z * nc + q]) != score(fs[q])) f = fs[z * nc + q];
                    sc.push_back(f);
                    J c; c.kr("a", alts(*m)).ks("k", m->sense_label()).kr("s", score(f)).kr("w", score(ss[q])).kb("kept", kept.count(m) > 0).kb("uni", m->is_univariable_move);
                    C.raw(c.str());
                }
                int pick = r.in(0, (int)cs.size() - 1);
                Move chosen = *cs[pick];
                M.update(chosen);
                cur = sc[pick];
                J e; e.ks("e", "step").kr("cand", C.str()).kb("scr", scr).kv("pick", pick + 1);
                modelstate(e); e.kr("st", score(M.evaluate({})));
                ev.push_back(e.str());
                // chain moves, composed the way the search composes them
                if (hasprev && ((prev.sense == neighborhood::MoveSense::Binary && chosen.sense == neighborhood::MoveSense::Binary) || (prev.sense == neighborhood::MoveSense::Chain && chosen.sense == neighborhood::MoveSense::Chain))) {
                    Move ch = prev.alterations.front().first < chosen.alterations.front().first ? prev + chosen : chosen + prev;
                    if (!ch.has_duplicate_variable()) { nb.chain().register_move(ch); Move b = ch; for (auto &al : b.alterations) al.second = 1 - al.second; nb.chain().register_move(b); nb.reset_special_neighborhood_moves_availability(); }
                }
                prev = chosen; hasprev = true;
            }
        } else R.capture(M, I, B, false);
        j.ks("kind", outcome).ks("out", outcome).ks("what", what.substr(what.find("function") == std::string::npos ? 0 : what.find("function"))).kr("I", I.json_fields()).kb("skip", skip).kv("sc", R.sc).kv("sense", I.sense);
        j.kr("v", R.vjson).kr("rc", R.cjson).kr("ro", R.ojson).kr("sels", R.sjson);
        J E('['); for (auto &e : ev) E.raw(e);
        j.kr("ev", skip ? "[]" : E.str());
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10 * (8 / JOBS), fn, stdout, [&](int k, const std::string &w) {
        Rng r(S * 9000011 + k); Inst I = make(r);
        J j; j.kv("k", k).ks("kind", "crash").kr("I", I.json_fields()).ks("out", "crash").ks("what", w).kb("skip", false).kr("ev", "[]");
        return j.str();
    }, JOBS);
}
