// Complete solves observed move by move: every record is one run of the solver with the
// reduced model, the candidate moves with their scores, the state after each move, the
// incumbents, the tabu memory, the outer loops and the final result.
#include "reduced.h"
using namespace vf;
using Core = solver::tabu_search::core::TabuSearchCore<int, double>;
using Local = solver::local_search::core::LocalSearchCore<int, double>;
using Dual = solver::lagrange_dual::core::LagrangeDualCore<int, double>;
// Virtual time: in runs with a clock, every reading of the clock by the code
// under test advances the time by one second; otherwise time stands still.
static long vnow = 0, vtick = 0;
#ifndef _OPENMP
extern "C" clock_t clock(void) noexcept { vnow += vtick; return (clock_t)(vnow * CLOCKS_PER_SEC); }
#endif
constexpr int PS = 100;  // scale of penalty coefficients and penalties

static int enc_p(double v) { double s = v * PS; if (std::isnan(s) || std::fabs(s) > 1e9) return BAD; return (int)std::floor(s + 0.5); }

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]);
    const int max_events = argc > 3 ? atoi(argv[3]) : 60;
    const int full_pct = argc > 4 ? atoi(argv[4]) : 40;     // share of selections recorded with all candidates
    const int small_box = argc > 5 ? atoi(argv[5]) : 0;     // > 0: instances with at most this many points
    const int local_pct = argc > 6 ? atoi(argv[6]) : 0;     // > 0: runs which are mostly local search
    auto make = [&](int k, Rng &r) {
        GenOpt g; g.nmin = 1; g.nmax = r.p(50) ? 6 : 10; g.mmax = r.p(50) ? 4 : 8; g.box_max = small_box ? small_box : 100000000; g.infinite = false; g.wide_max = 400;
        if (local_pct) { g.nmin = 5; g.nmax = 12; g.mmax = 8; }
        if (r.p(15) && !small_box) g.wide = true;
        g.want_feasible = !r.p(15); if (r.p(50)) { g.nmin = 5; g.mmin = 3; }
        if (g.nmin == 1 && !r.p(10)) g.nmin = 2;
        if (small_box) { g.nmax = 6; g.nmin = std::min(g.nmin, 4); }
        Inst I = gen(r, g);
#ifdef _PRINTEMPS_MPS_SOLVER
        I.sense = 1;
#endif
        return I;
    };
    auto fn = [&](int k) -> std::string {
        Rng r(S * 7000003 + k);
        Inst I = make(k, r);
        bool noobj = r.p(7);
        if (noobj) { std::fill(I.o.begin(), I.o.end(), 0); I.oc = 0; I.sense = 1; }
        Model M; auto B = build(M, I, r.p(40) ? 0 : k + 1, !noobj);
        auto o = rand_option(r, r.next() % 100000);
        o.general.iteration_max = r.p(70) ? r.in(1, 3) : r.in(4, 8);
        o.tabu_search.iteration_max = r.in(3, 25);
        o.penalty.initial_penalty_coefficient = r.pick(std::vector<int>{1, 5, 20, 100});
        if (r.p(50)) o.pdlp.is_enabled = false;
        if (local_pct) { o.local_search.is_enabled = r.p(local_pct); o.lagrange_dual.is_enabled = false; o.local_search.iteration_max = r.in(1, 30); o.general.iteration_max = 1; o.tabu_search.iteration_max = 1; if (r.p(50)) o.penalty.initial_penalty_coefficient = 1000; }
        bool has_target = r.p(15);
        const int target = r.in(-10, 10);
        if (has_target) o.general.target_objective_value = target;
        if (r.p(12)) o.output.is_enabled_store_feasible_solutions = true;
        if (r.p(6)) o.neighborhood.is_enabled_binary_move = r.p(50);
        if (r.p(6)) o.neighborhood.is_enabled_integer_move = r.p(50);
        bool clk = false;
#ifndef _OPENMP
        clk = r.p(20);
        if (clk) {
            auto lim = [&] { return r.p(50) ? 100000.0 : (double)r.in(0, 25); };
            o.general.time_max = r.p(60) ? (double)r.in(0, 120) : 100000.0;
            o.tabu_search.time_max = lim(); o.local_search.time_max = lim(); o.lagrange_dual.time_max = lim();
        }
#endif
        vnow = 0; vtick = clk;
        int callbacks = 0;
        M.set_callback([&](auto *, auto *) { callbacks++; });
        J j; j.kv("k", k);
        Reduced R; bool have = false; bool skip = false; std::string Vfirst;
        std::vector<std::string> ev;
        int budget = max_events; int cands = 0; bool truncated = false;
        auto X = [&] { std::vector<int> x; for (auto *v : B.v) x.push_back(v->value()); return x; };
        auto score = [&](const solution::SolutionScore &s) {
            J e; int oo = enc_s(s.objective, R.sc), vv = enc_s(s.total_violation, R.sc);
            e.kv("gs", enc_s(s.global_augmented_objective, 4 * R.sc)).kv("o", oo).kv("v", vv).kb("f", s.is_feasible).kv("lp", enc_p(s.local_penalty)).kv("gp", enc_p(s.global_penalty)).kv("la", enc_p(s.local_augmented_objective)).kv("ga", enc_p(s.global_augmented_objective));
            e.kb("oi", s.is_objective_improvable).kb("fi", s.is_feasibility_improvable);
            return e.str();
        };
        std::vector<std::pair<double, double>> pen;
        auto point = [&](const solution::DenseSolution<int, double> &d) {
            std::vector<int> x;
            if (!d.variable_value_proxies.empty()) for (int i = 0; i < I.n; i++) x.push_back(d.variable_value_proxies[B.v[i]->proxy_index()].flat_indexed_values(B.v[i]->flat_index()));
            return x;
        };
        auto incs = [&](const solution::IncumbentHolder<int, double> &h) {
            J e; bool f = h.is_found_feasible_solution();
            e.kb("f", f);
            auto sol = [&](const solution::DenseSolution<int, double> &d) {
                std::vector<int> x;
                if (!d.variable_value_proxies.empty()) for (int i = 0; i < I.n; i++) x.push_back(d.variable_value_proxies[B.v[i]->proxy_index()].flat_indexed_values(B.v[i]->flat_index()));
                return x;
            };
            e.kv("fo", f ? enc_s(h.feasible_incumbent_objective(), R.sc) : 0);
            e.ka("fx", f ? sol(h.feasible_incumbent_solution()) : std::vector<int>());
            e.kv("gos", enc_s(h.global_augmented_incumbent_objective(), 4 * R.sc)).kv("go", enc_p(h.global_augmented_incumbent_objective())).kv("lo", h.local_augmented_incumbent_objective() > 1e9 ? BAD : enc_p(h.local_augmented_incumbent_objective()));
            e.ka("gx", sol(h.global_augmented_incumbent_solution()));
            double db = h.dual_bound();
            e.kv("dbc", db > 1e6 ? PINF : db < -1e6 ? NINF : (long)std::ceil(db * R.sc - 1e-3)).kv("dbf", db > 1e6 ? PINF : db < -1e6 ? NINF : (long)std::floor(db * R.sc + 1e-3));
            return e.str();
        };
        auto modelstate = [&](J &e, Model &m) {
            std::vector<int> cv; std::vector<int> vio;
            for (auto *c : R.cons) cv.push_back(enc_s(c->constraint_value(), R.sc));
            for (auto *c : m.current_violative_constraint_ptrs()) { int q = 0; for (size_t t = 0; t < R.cons.size(); t++) if (R.cons[t] == c) q = (int)t + 1; vio.push_back(q); }
            std::vector<int> selv; for (auto &s : m.selections()) selv.push_back(s.selected_variable_ptr && R.idx.count(s.selected_variable_ptr) ? R.idx[s.selected_variable_ptr] + 1 : 0);
            e.ka("selv", selv);
            e.ka("x", X()).ka("cv", cv).ka("vio", vio).kb("feas", m.is_feasible()).kv("mo", noobj ? 0 : enc_s(m.objective().value(), R.sc));
        };
        auto mem = [&](J &e) {
            std::vector<int> last, cnt;
            for (auto *v : B.v) { int t = v->local_last_update_iteration(); last.push_back(t < -100000 ? -100000 : t); cnt.push_back((int)v->update_count()); }
            e.ka("last", last).ka("cnt", cnt);
        };
        auto alts = [&](const Move &m) { J a('['); for (auto &al : m.alterations) { J t('['); t.num(R.idx.count(al.first) ? R.idx[al.first] + 1 : 0).num(al.second); a.raw(t.str()); } return a.str(); };
        auto first = [&] { if (!have) { R.capture(M, I, B, false); have = true; Vfirst = R.vjson; if (R.bad) skip = true; } };
        Core::observer = [&](const Core::Observation &ob) {
            first();
            std::string evn = ob.event;
            J e; e.ks("e", evn).kv("t", vnow);
            auto &h = ob.global_state_ptr->incumbent_holder;
            if (evn == "start") {
                std::vector<int> lb, ub, fx, lcl, lcg; bool np = false;
                for (auto *v : B.v) { lb.push_back(enc_ib(v->lower_bound())); ub.push_back(enc_ib(v->upper_bound())); fx.push_back(v->is_fixed()); }
                for (auto *c : R.cons) { int a = enc_p(c->local_penalty_coefficient_less()), b = enc_p(c->local_penalty_coefficient_greater()); if (a > 20000 || b > 20000) np = true; lcl.push_back(std::min(a, 20000)); lcg.push_back(std::min(b, 20000)); }
                e.ka("lb", lb).ka("ub", ub).ka("fx", fx).ka("lcl", lcl).ka("lcg", lcg).kv("gc", enc_p(M.global_penalty_coefficient())).kb("np", np);
                {   // penalty coefficients: order relative to the previous loop, range
                    const double init = o.penalty.initial_penalty_coefficient, gc = M.global_penalty_coefficient(); std::vector<std::pair<double, double>> now; std::vector<int> dl, dg, eq, bad, grp;
                    for (auto *c : R.cons) now.push_back({c->local_penalty_coefficient_less(), c->local_penalty_coefficient_greater()});
                    auto dir = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)) ? 0 : a > b ? 1 : -1; };
                    for (size_t q = 0; q < now.size(); q++) {
                        double a = now[q].first, b = now[q].second; bool known = q < pen.size();
                        dl.push_back(known ? dir(a, pen[q].first) : 0); dg.push_back(known ? dir(b, pen[q].second) : 0);
                        eq.push_back(a == gc && b == gc); auto wrong = [&](double v) { return !(v >= 0 && v <= init * (1 + 1e-12)); }; bad.push_back(wrong(a) || wrong(b));
                        int g = 0; for (size_t t = 0; t < q; t++) if (R.cons[t]->proxy_index() == R.cons[q]->proxy_index() && (now[t].first != now[q].first || now[t].second != now[q].second)) g = 1;
                        grp.push_back(g);
                    }
                    pen = now;
                    e.ka("dl", dl).ka("dg", dg).ka("peq", eq).ka("pbad", bad).ka("pgrp", grp).kb("gbad", !(gc > 0 && gc <= init)).kb("gsmall", gc < init).kv("gcf", (long)std::min(1e9, std::floor(gc * R.sc + 1e-6)));
                }
                e.kr("st", score(ob.state_ptr->current_solution_score)).kr("inc", incs(h)).kv("ten", ob.state_ptr->tabu_tenure);
                e.kv("nmut", M.number_of_mutable_variables());
                modelstate(e, *ob.model_ptr); mem(e);
                auto &t = ob.option_ptr->tabu_search;
                e.kv("imax", t.iteration_max).kv("iten", t.initial_tabu_tenure).kb("any", t.tabu_mode == option::tabu_mode::Any).kb("asp", t.ignore_tabu_if_global_incumbent);
                e.kv("rr", (long)std::lround(t.tabu_tenure_randomize_rate * 1000)).kb("autot", t.is_enabled_automatic_tabu_tenure_adjustment);
                {   // per kind of move: asked for, present, in use
                    auto &n = M.neighborhood(); auto &q = o.neighborhood; J nb('[');
                    auto kind = [&](bool opt, auto &g) { J t('['); t.num(opt).num(!g.moves().empty()).num(g.is_enabled()); nb.raw(t.str()); };
                    kind(q.is_enabled_binary_move, n.binary()); kind(q.is_enabled_integer_move, n.integer()); kind(q.selection_mode != option::selection_mode::Off, n.selection());
                    kind(q.is_enabled_exclusive_or_move, n.exclusive_or()); kind(q.is_enabled_exclusive_nor_move, n.exclusive_nor()); kind(q.is_enabled_inverted_integers_move, n.inverted_integers()); kind(q.is_enabled_balanced_integers_move, n.balanced_integers());
                    kind(q.is_enabled_constant_sum_integers_move, n.constant_sum_integers()); kind(q.is_enabled_constant_difference_integers_move, n.constant_difference_integers()); kind(q.is_enabled_constant_ratio_integers_move, n.constant_ratio_integers());
                    kind(q.is_enabled_aggregation_move, n.aggregation()); kind(q.is_enabled_precedence_move, n.precedence()); kind(q.is_enabled_variable_bound_move, n.variable_bound()); kind(q.is_enabled_trinomial_exclusive_nor_move, n.trinomial_exclusive_nor());
                    kind(q.is_enabled_soft_selection_move, n.soft_selection()); kind(q.is_enabled_two_flip_move, n.two_flip()); kind(q.is_enabled_chain_move, n.chain()); kind(q.is_enabled_user_defined_move, n.user_defined());
                    e.kr("nb", nb.str());
                }
                e.kb("ssa", ob.option_ptr->neighborhood.is_enabled_integer_step_size_adjuster);
            } else if (evn == "select") {
                bool full = cands < 25 && r.p(full_pct);
                e.kv("it", ob.state_ptr->iteration).kv("ten", ob.state_ptr->tabu_tenure).kb("aspd", ob.is_aspirated).kv("sel", full ? ob.selected_index + 1 : 1).kb("full", full);
                J cs('[');
                const auto &mv = M.neighborhood().move_ptrs(); int nm = ob.state_ptr->number_of_moves;
                // observed order of the raw scores (before the tabu and special-move handicaps)
                std::vector<double> raw(nm);
                for (int q = 0; q < nm; q++) raw[q] = (*ob.solution_scores_ptr)[q].local_augmented_objective + (*ob.move_scores_ptr)[q].frequency_penalty + (*ob.move_scores_ptr)[q].lagrangian_penalty;
                std::vector<double> srt = raw; std::sort(srt.begin(), srt.end());
                std::vector<double> ga(nm); for (int q = 0; q < nm; q++) ga[q] = (*ob.solution_scores_ptr)[q].global_augmented_objective;
                std::vector<double> sga = ga; std::sort(sga.begin(), sga.end());
                auto rank = [](const std::vector<double> &s, double v) { int d = 0; for (size_t q = 0; q < s.size(); q++) { if (s[q] >= v - 1e-7) break; d++; } return d; };
                for (int q = 0; q < nm; q++) {
                    if (!full && q != ob.selected_index) continue;
                    J c; c.kr("a", alts(*mv[q])).ks("k", mv[q]->sense_label()).kr("s", score((*ob.solution_scores_ptr)[q])).kb("pm", (*ob.move_scores_ptr)[q].is_permissible).kb("sp", mv[q]->is_special_neighborhood_move).kv("rk", rank(srt, raw[q])).kv("gk", rank(sga, ga[q]));
                    c.kb("av", mv[q]->is_available).kb("asp", ga[q] + constant::EPSILON < h.global_augmented_incumbent_objective());
                    cs.raw(c.str());
                }
                if (full) cands++;
                e.kr("cand", cs.str());
                e.kb("imp", (*ob.solution_scores_ptr)[ob.selected_index].global_augmented_objective < h.global_augmented_incumbent_objective());
            } else if (evn == "moved" || evn == "modified") {
                e.kr("a", alts(*ob.move_ptr)).ks("k", ob.move_ptr->sense_label()).kr("st", score(ob.state_ptr->current_solution_score)).kr("inc", incs(h)).kv("upd", ob.state_ptr->update_status);
                e.kv("it", ob.state_ptr->iteration);
                modelstate(e, *ob.model_ptr); mem(e);
            } else if (evn == "end") {
                e.kv("it", ob.state_ptr->iteration).kr("inc", incs(h)).kv("ten", ob.state_ptr->tabu_tenure).ka("lx", point(h.local_augmented_incumbent_solution()));
                using T = solver::tabu_search::core::TabuSearchCoreTerminationStatus;
                auto t = ob.state_ptr->termination_status;
                e.ks("term", t == T::OPTIMAL ? "OPTIMAL" : t == T::ITERATION_OVER ? "ITERATION_OVER" : t == T::REACH_TARGET ? "REACH_TARGET" : t == T::NO_MOVE ? "NO_MOVE" : t == T::EARLY_STOP ? "EARLY_STOP" : t == T::PENALTY_COEFFICIENT_TOO_LARGE ? "PENALTY" : t == T::TIME_OVER ? "TIME_OVER" : "OTHER");
            }
            if ((int)ev.size() < budget) ev.push_back(e.str()); else truncated = true;
        };
        // the phases before the tabu search
        auto phase = [&](const std::string &ph, const auto &ob, int imax, const char *term) {
            first();
            std::string evn = ob.event;
            J e; e.kv("t", vnow).ks("e", evn == "start" ? "pstart" : evn == "end" ? "pend" : "pmove").ks("ph", ph).kr("inc", incs(ob.global_state_ptr->incumbent_holder)).kv("it", ob.state_ptr->iteration);
            if (evn == "end") e.ks("term", term);
            else {
                e.kr("st", score(ob.state_ptr->current_solution_score)).kr("a", ob.move_ptr ? alts(*ob.move_ptr) : "[]");
                modelstate(e, *ob.model_ptr); mem(e);
            }
            if (evn == "start") {
                std::vector<int> lb, ub, fx;
                for (auto *v : B.v) { lb.push_back(enc_ib(v->lower_bound())); ub.push_back(enc_ib(v->upper_bound())); fx.push_back(v->is_fixed()); }
                e.ka("lb", lb).ka("ub", ub).ka("fx", fx).kv("imax", imax).kb("ssa", o.neighborhood.is_enabled_integer_step_size_adjuster);
            }
            if ((int)ev.size() < budget) ev.push_back(e.str()); else truncated = true;
        };
        Local::observer = [&](const Local::Observation &ob) {
            using T = solver::local_search::core::LocalSearchCoreTerminationStatus;
            auto t = ob.state_ptr->termination_status;
            phase("local", ob, o.local_search.iteration_max, t == T::OPTIMAL ? "OPTIMAL" : t == T::ITERATION_OVER ? "ITERATION_OVER" : t == T::REACH_TARGET ? "REACH_TARGET" : t == T::NO_MOVE ? "NO_MOVE" : t == T::LOCAL_OPTIMAL ? "LOCAL_OPTIMAL" : t == T::TIME_OVER ? "TIME_OVER" : "OTHER");
        };
        Dual::observer = [&](const Dual::Observation &ob) {
            using T = solver::lagrange_dual::core::LagrangeDualCoreTerminationStatus;
            auto t = ob.state_ptr->termination_status;
            phase("dual", ob, o.lagrange_dual.iteration_max, t == T::ITERATION_OVER ? "ITERATION_OVER" : t == T::REACH_TARGET ? "REACH_TARGET" : t == T::CONVERGE ? "CONVERGE" : t == T::TIME_OVER ? "TIME_OVER" : "OTHER");
        };
        std::string outcome = "ok", what;
        J fin;
        solver::Solver<int, double> sv;
        try {
            sv.setup(&M, o);
            auto res = sv.solve();
            fin.kv("t", vnow).kv("et", (long)std::lround(res.status.elapsed_time));
            vtick = 0;
            first();
            fin.kb("feas", res.solution.is_feasible()).kv("obj", noobj ? 0 : enc_s(res.solution.objective(), R.sc));
            std::vector<int> x; for (int i = 0; i < I.n; i++) x.push_back(res.solution.variables(B.vproxy[i]).flat_indexed_values(B.vflat[i]));
            fin.ka("x", x).kr("inc", incs(sv.global_state().incumbent_holder)).kb("found", res.status.is_found_feasible_solution);
            fin.kb("named_feas", res.solution.is_feasible()).kv("viol", enc_s(res.solution.total_violation(), R.sc)).kv("cb", callbacks);
            std::vector<long> uc, vc;
            for (int i = 0; i < I.n; i++) uc.push_back(res.status.update_counts.at(B.vproxy[i]).flat_indexed_values(B.vflat[i]));
            for (size_t i = 0; i < B.c.size(); i++) vc.push_back(res.status.violation_counts.at(B.cproxy[i]).flat_indexed_values(B.cflat[i]));
            fin.ka("uc", uc).ka("vc", vc);
            std::vector<int> cid; for (auto *c : R.cons) { int q = 0; for (size_t t = 0; t < B.c.size(); t++) if (B.c[t] == c) q = (int)t + 1; cid.push_back(q); }
            fin.ka("cid", cid);
            auto arch = [&](auto &A) { J a('['); for (auto &q : A.solutions()) { J t; std::vector<int> z(I.n, 0); for (int i = 0; i < I.n; i++) { auto it = q.variables.find(B.v[i]->name()); if (it != q.variables.end()) z[i] = it->second; } t.ka("x", z).kv("o", noobj ? 0 : enc_s(q.objective, R.sc)).kb("f", q.is_feasible).kv("v", enc_s(q.total_violation, R.sc)); a.raw(t.str()); } return a.str(); };
            fin.kr("fa", arch(res.feasible_solution_archive)).kr("ia", arch(sv.global_state().incumbent_solution_archive));
            fin.kb("store", o.output.is_enabled_store_feasible_solutions).kv("cap", o.output.feasible_solutions_capacity);
            fin.kv("lsi", sv.local_search_controller().result().core.number_of_iterations).kv("ldi", sv.lagrange_dual_controller().result().core.number_of_iterations);
            fin.kv("loops", res.status.number_of_tabu_search_loops).kv("iters", res.status.number_of_tabu_search_iterations);
        } catch (const std::exception &e) { outcome = "exc"; what = e.what(); }
        Core::observer = nullptr; Local::observer = nullptr; Dual::observer = nullptr;
        if (outcome == "exc") { skip = true; first(); }
        j.ks("kind", outcome).ks("out", outcome).ks("what", what.substr(what.find("function") == std::string::npos ? 0 : what.find("function"))).kr("I", I.json_fields()).kv("sc", R.sc).kv("scr", R.sc / I.den).kv("sense", I.sense);
        j.kr("v", Vfirst).kr("rc", R.cjson).kr("ro", R.ojson).kr("sels", R.sjson).kb("lsd", o.local_search.is_enabled || o.lagrange_dual.is_enabled).kb("pdlp", o.pdlp.is_enabled).kb("lse", o.local_search.is_enabled).kb("lde", o.lagrange_dual.is_enabled).kv("ndep", std::count_if(B.v.begin(), B.v.end(), [](auto *v) { return v->dependent_expression_ptr() != nullptr; }));
        // magnitudes must fit the specification's 32-bit integers
        double mag = 0, om = std::fabs(M.objective().expression().constant_value());
        auto width = [&](const Variable *v) { return (double)std::max(std::abs(v->lower_bound()), std::abs(v->upper_bound())); };
        for (auto *c : R.cons) { mag += std::fabs(c->expression().constant_value()); for (auto &t : c->expression().sensitivities()) mag += std::fabs(t.second) * width(t.first); }
        for (auto &t : M.objective().expression().sensitivities()) om += std::fabs(t.second) * width(t.first);
        double gc4 = M.global_penalty_coefficient() * 4;
        bool gok = enc_s(gc4, 1) != BAD && (mag * gc4 + 4 * om) * R.sc < 1.9e9;
        if ((mag + 4 * om) * R.sc > 1.9e9) skip = true;
        j.kb("clk", clk).kv("gt", (long)o.general.time_max).kv("tt", (long)o.tabu_search.time_max).kv("lt", (long)o.local_search.time_max).kv("dt", (long)o.lagrange_dual.time_max);
        j.kb("skip", skip).kb("trunc", truncated).kv("gmax", o.general.iteration_max).kv("imax", o.tabu_search.iteration_max).kv("tten", o.tabu_search.initial_tabu_tenure).kb("auto", o.tabu_search.is_enabled_automatic_iteration_adjustment);
        j.kb("grp", o.penalty.is_enabled_group_penalty_coefficient).kb("htar", has_target || noobj).kv("tar", has_target ? target : 0).kb("noobj", noobj).kv("gc", gok ? enc_s(gc4, 1) : 0).kb("gok", gok);
        J E('['); for (auto &e : ev) E.raw(e);
        if (outcome == "ok") j.kr("fin", fin.str());
        j.kr("ev", skip ? "[]" : E.str());
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
#ifdef _OPENMP
    const int cpu = 60;
#else
    const int cpu = 10;
#endif
    run_forked(N, cpu, fn, stdout, [&](int k, const std::string &w) {
        Rng r(S * 7000003 + k); Inst I = make(k, r);
        J j; j.kv("k", k).ks("kind", "crash").kr("I", I.json_fields()).ks("out", "crash").ks("what", w).kb("skip", false).kr("ev", "[]");
        return j.str();
#ifdef _OPENMP
    }, 3);
#else
    }, 8);
#endif
}
