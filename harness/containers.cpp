// The data structures the solver is built on: random histories of operations on the real
// containers, and random arguments for the matrix, vector, graph and set operations.
// args: N seed
#include "common.h"
using namespace vf;
namespace ut = utility;
namespace sp = utility::sparse;
static std::string arr(const std::vector<int> &v) { J a('['); for (int x : v) a.num(x); return a.str(); }
static std::string mat(const std::vector<std::vector<int>> &v) { J a('['); for (auto &x : v) a.raw(arr(x)); return a.str(); }
static long q4(double v) { double w = v * 4; return w == std::floor(w) && std::fabs(w) < 1e8 ? (long)w : 987654321; }   // exact quarters only
static std::string vec(const sp::Vector &v) { J a('['); for (double x : v.values) a.num(q4(x)); return a.str(); }

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]);
    auto fn = [&](int k) -> std::string {
        Rng r(S * 8000033 + k);
        J j; j.kv("k", k);
        J ops('[');
        switch (k % 11) {
            case 0: {   // bounded queue
                int cap = r.in(1, 5); const int cap0 = cap; ut::FixedSizeQueue<double> Q; if (r.p(50)) Q = ut::FixedSizeQueue<double>(cap); else Q.setup(cap);
                for (int t = r.in(1, 14); t > 0; t--) {
                    J o; int what = r.in(0, 11);
                    if (what == 0) { cap = r.in(1, 5); if (r.p(50)) { Q.initialize(); if (Q.size() || Q.max_size()) cap = -1; } Q.setup(cap); o.ks("o", "setup").kv("a", cap); }
                    else { int v = r.in(-9, 9); Q.push(v); o.ks("o", "push").kv("a", v); }
                    std::vector<int> c(Q.queue().begin(), Q.queue().end());
                    o.ka("q", c).kv("n", Q.size()).kv("cap", Q.max_size());
                    if (Q.size()) o.kv("mn", Q.min()).kv("mx", Q.max()).kv("sum", std::lround(Q.average() * Q.size())); else o.kv("mn", 0).kv("mx", 0).kv("sum", 0);
                    ops.raw(o.str());
                }
                j.ks("kind", "queue").kv("cap0", cap0); break;
            }
            case 1: {   // disjoint sets
                int n = r.in(2, 9); std::unordered_set<int> el; for (int i = 1; i <= n; i++) el.insert(i);
                ut::UnionFind<int> U; if (r.p(50)) U = ut::UnionFind<int>(el); else U.setup(el);
                if (r.p(30)) { for (int t = 0; t < 4; t++) U.unite(r.in(1, n), r.in(1, n)); U.initialize(); if (r.p(50)) { U.setup(el); } else { el.erase(n); n--; if (n < 2) { el.insert(2); n = 2; } U.setup(el); } if ((int)U.parents().size() != n || (int)U.sizes().size() != n) { j.ks("kind", "crash").ks("what", "the sets keep former elements"); break; } }
                for (int t = r.in(1, 16); t > 0; t--) {
                    J o; int a = r.in(1, n), b = r.in(1, n);
                    if (r.p(60)) o.ks("o", "unite").kv("a", a).kv("b", b).kb("r", U.unite(a, b));
                    else if (r.p(60)) o.ks("o", "same").kv("a", a).kv("b", b).kb("r", U.is_same(a, b));
                    else { std::vector<int> c; for (int i = 1; i <= n; i++) c.push_back(U.root(i)); o.ks("o", "roots").ka("c", c); }
                    ops.raw(o.str());
                }
                j.ks("kind", "sets").kv("n", n); break;
            }
            case 2: {   // one-to-one map
                ut::BidirectionalMap<int, int> B; int n = r.in(1, 7); std::vector<int> to; for (int i = 0; i < n; i++) to.push_back(10 + i);
                for (int i = n; i > 1; i--) std::swap(to[i - 1], to[r.in(0, i - 1)]);
                std::vector<int> done;
                for (int i = 0; i < n; i++) {
                    J o; B.insert(i + 1, to[i]); done.push_back(i); if (r.p(20)) B.insert(i + 1, to[i]);
                    std::vector<int> f, b; for (int q : done) { f.push_back(B.forward_at(q + 1)); b.push_back(B.reverse_at(to[q])); }
                    o.ks("o", "insert").kv("a", i + 1).kv("b", to[i]).ka("f", f).ka("r", b).kv("n", B.size()).kb("e", B.empty()).kb("x", B.forward().count(n + 5) + B.reverse().count(1));
                    ops.raw(o.str());
                }
                j.ks("kind", "bimap"); break;
            }
            case 3: {   // fixed hash map from addresses to numbers: keys may collide, lookups of absent keys give 0
                int n = r.in(0, 12); int size = r.pick(std::vector<int>{1, 8, 64, 100, 200, 256});
                std::vector<int *> key; std::unordered_map<int *, double> m; std::vector<int> val; std::set<uint64_t> used;
                uint64_t base = 0x10000 + 64 * r.in(0, 1000);
                for (int i = 0; i < n + 12; i++) {
                    uint64_t a; int tries = 0;
                    do { int style = r.in(0, 3); a = style == 0 ? base + (uint64_t)size * r.in(0, 40) : style == 1 ? base + ((uint64_t)r.in(0, 7) << r.in(10, 40)) : style == 2 ? base + 8 * r.in(0, 60) : base + ((uint64_t)size << 4) * r.in(0, 30); } while (used.count(a) && ++tries < 200);
                    if (!used.insert(a).second) { n = std::min(n, (int)key.size()); break; }
                    key.push_back((int *)a);
                }
                n = std::min<int>(n, key.size());
                for (int i = 0; i < n; i++) { int v = r.in(-50, 50); val.push_back(v); m[key[i]] = v; }
                ut::FixedSizeHashMap<int *, double> H; if (r.p(50)) H.setup(m, size); else { H.setup({}, size); H.setup(m, size); }
                std::vector<int> got, absent; for (int i = 0; i < (int)key.size(); i++) (i < n ? got : absent).push_back((int)H.at(key[i]));
                j.ks("kind", "hash").ka("v", val).ka("g", got).ka("ab", absent).kv("bk", H.bucket_size()).kv("sh", H.shift_size()); break;
            }
            case 4: {   // matrices over GF(2)
                int n = r.in(1, 5), dens = r.pick(std::vector<int>{20, 35, 50, 80}); ut::BinaryMatrix A(n, n); std::vector<std::vector<int>> a(n, std::vector<int>(n));
                for (int i = 0; i < n; i++) for (int c = 0; c < n; c++) A[i][c] = a[i][c] = r.p(dens);
                if (r.p(40)) { for (int i = 0; i < n; i++) for (int c = 0; c < n; c++) A[i][c] = a[i][c] = (i == c) || (c > i && r.p(50)); for (int t = 0; t < 4; t++) { int x = r.in(0, n - 1), y = r.in(0, n - 1); if (x != y) for (int c = 0; c < n; c++) A[x][c] = a[x][c] = a[x][c] ^ a[y][c]; } }
                std::vector<int> v(n); for (auto &e : v) e = r.in(0, 1);
                auto ir = A.inverse_and_rank(); auto w = A.dot(v);
                int cc = r.in(1, 4); ut::BinaryMatrix C(n, cc); std::vector<std::vector<int>> c0(n, std::vector<int>(cc)); for (int i = 0; i < n; i++) for (int c = 0; c < cc; c++) C[i][c] = c0[i][c] = r.in(0, 1);
                auto P = A.dot(C); auto R = A.reachability(); auto Id = ut::BinaryMatrix::identity(n);
                auto out = [&](const ut::BinaryMatrix &X) { std::vector<std::vector<int>> x(X.number_of_rows()); for (int i = 0; i < X.number_of_rows(); i++) x[i] = X[i]; return mat(x); };
                j.ks("kind", "gf2").kv("n", n).kr("A", mat(a)).kr("inv", out(ir.first)).kv("rk", ir.second).ka("v", v).ka("w", w).kr("C", mat(c0)).kr("P", out(P)).kr("R", out(R)).kr("Id", out(Id)).kv("cc", cc); break;
            }
            case 5: {   // sparse matrices
                int n = r.in(1, 4), m = r.in(1, 4); std::vector<std::vector<int>> a(n, std::vector<int>(m, 0)); std::vector<double> v; std::vector<int> ri, ci; int dens = r.pick(std::vector<int>{0, 30, 60, 100});
                for (int i = 0; i < n; i++) { std::vector<int> cs; for (int c = 0; c < m; c++) cs.push_back(c); for (int c = m; c > 1; c--) std::swap(cs[c - 1], cs[r.in(0, c - 1)]);
                    for (int c : cs) if (r.p(dens)) { int x = r.in(-9, 9); if (!x) x = 1; a[i][c] = x; v.push_back(x); ri.push_back(i); ci.push_back(c); } }
                sp::SparseMatrix M(v, ri, ci, n, m);
                if (r.p(20)) { M = sp::SparseMatrix(); M.setup(v, ri, ci, n, m); }
                sp::Vector x(m), y(n), z(n), res(n, 77.0), res2(m, 77.0); for (auto &e : x.values) e = r.in(-5, 5); for (auto &e : y.values) e = r.in(-5, 5); for (auto &e : z.values) e = r.in(-5, 5);
                auto T = M.transpose();
                int al = r.in(-3, 3), be = r.in(-3, 3), ga = r.in(-3, 3);
                j.ks("kind", "sparse").kv("n", n).kv("m", m).kr("A", mat(a)).kr("x", vec(x)).kr("y", vec(y)).kr("z", vec(z)).kv("al", al).kv("be", be).kv("ga", ga);
                j.kr("Ax", vec(M * x)).kr("Aty", vec(T.dot(y))).kv("n1", q4(M.norm_one)).kv("tn1", q4(T.norm_one)).kv("tr", T.number_of_rows).kv("tc", T.number_of_columns);
                sp::linear_combination(&res, al, M, x, be, y); j.kr("l2", vec(res));
                sp::linear_combination(&res, al, M, x, be, y, ga, z); j.kr("l3", vec(res));
                std::vector<sp::Vector *> ps{&y, &z}; std::vector<double> cs{(double)be, (double)ga};
                sp::linear_combination(&res, al, M, x, cs, ps); j.kr("l4", vec(res));
                j.kv("dd", q4(sp::dot_dot(&res, y, M, x)));
                sp::Diagonal Dr(n), Dc(m); std::vector<int> dr, dc; for (int i = 0; i < n; i++) { dr.push_back(r.in(1, 4)); Dr[i] = dr.back(); } for (int i = 0; i < m; i++) { dc.push_back(r.in(1, 4)); Dc[i] = dc.back(); }
                auto SR = Dr * M; auto SC = M * Dc; j.ka("dr", dr).ka("dc", dc).kr("SRx", vec(SR.dot(x))).kr("SCx", vec(SC.dot(x))).kr("Dx", vec(Dc.dot(x))).kr("A2", vec(M.dot(x)));
                auto W = M; if (r.p(50)) { W.ruiz_scaling(r.in(1, 6)); if (r.p(50)) W.pock_chambolle_scaling(); } else W.pock_chambolle_scaling();
                // the scaled matrix with its scalers is the matrix
                std::vector<std::vector<int>> back(n, std::vector<int>(m, 0)); for (size_t q = 0; q < W.values.size(); q++) back[W.row_indices[q]][W.column_indices[q]] = (int)std::lround(W.values[q] * W.row_scaler[W.row_indices[q]] * W.column_scaler[W.column_indices[q]] * 1e6);
                bool pos = true; for (int i = 0; i < n; i++) pos &= W.row_scaler[i] > 0; for (int i = 0; i < m; i++) pos &= W.column_scaler[i] > 0;
                std::vector<double> cn(m, 0.0); for (size_t q = 0; q < W.values.size(); q++) cn[W.column_indices[q]] += std::fabs(W.values[q]);
                double mx = 0; for (double q : cn) mx = std::max(mx, q);
                j.kr("back", mat(back)).kb("pos", pos).kv("wn", (int)std::lround(1e6 * W.norm_one)).kv("wc", (int)std::lround(1e6 * mx)); break;
            }
            case 6: {   // vectors
                int n = r.in(1, 5); sp::Vector x(n), y(n), lo(n), hi(n), c(n, 7.0); for (int i = 0; i < n; i++) { x[i] = r.in(-20, 20) / 4.0; y[i] = r.in(-20, 20) / 4.0; lo[i] = r.in(-12, 4) / 4.0; hi[i] = lo[i] + r.in(0, 12) / 4.0; }
                int s = r.in(-5, 5); int al = r.in(-3, 3), be = r.in(-3, 3), ga = r.in(-3, 3);
                j.ks("kind", "vector").kv("n", n).kr("x", vec(x)).kr("y", vec(y)).kr("lo", vec(lo)).kr("hi", vec(hi)).kv("s", s).kv("al", al).kv("be", be).kv("ga", ga);
                j.kr("add", vec(x + y)).kr("sub", vec(x - y)).kr("neg", vec(-x)).kr("adds", vec(x + s)).kr("sadd", vec(s + x)).kr("ssub", vec(s - x)).kr("subs", vec(x - s)).kr("mul", vec((double)s * x)).kr("mul2", vec(x * s)).kr("half", vec((x + x) / 2.0));
                auto t = x; t.clamp(lo, hi); j.kr("cl", vec(t)); t = x; t.clamp_positive(); j.kr("cp", vec(t)); t = x; t.clamp_negative(); j.kr("cn", vec(t));
                j.kv("dot", q4(4 * x.dot(y))).kv("sq", q4(4 * x.square_sum())).kv("nn", std::lround(16 * x.norm() * x.norm())).kv("n1", std::lround(4 * x.norm(1.0))).kv("mx", q4(x.max())).kv("mn", q4(x.min())).kv("di", std::lround(16 * std::pow(sp::distance(x, y), 2)));
                t = x; t.extend(y); j.kr("ext", vec(t)); t = x; t.learn(y, 0.5); t *= 2; j.kr("le", vec(t));
                sp::sum(&c, x, y); j.kr("s1", vec(c)); sp::subtract(&c, x, y); j.kr("s2", vec(c)); sp::linear_combination(&c, al, x, be, y); j.kr("s3", vec(c)); sp::linear_combination(&c, al, x, be, y, ga, lo); j.kr("s4", vec(c));
                t = x; t.reset(); j.kr("z", vec(t));
                t = x; t += y; t -= y; t += s; t -= s; t *= 4; t /= 4; j.kr("same", vec(t)).kr("x2", vec(x)); break;
            }
            case 7: {   // weighted graphs
                int n = r.in(1, 6); ut::graph::Graph<int> G; std::vector<std::vector<int>> es; std::set<int> ns;
                if (r.p(30)) { for (int t = 0; t < 5; t++) G.add_edge(r.in(1, 9), r.in(1, 9)); G.initialize(); }
                if (r.p(50)) for (int i = 1; i <= n; i++) { int how = r.in(0, 2); if (how == 0) G.add_node(i); else if (how == 1) G.add_node(i, r.in(0, 5)); else { ut::graph::Node<int> nd(i); G.add_node(nd); } ns.insert(i); }
                for (int t = r.in(0, 10); t > 0; t--) { int a = r.in(1, n), b = r.in(1, n), w = r.in(-3, 4); int how = r.in(0, 2); if (how == 0) { G.add_edge(a, b, w); } else if (how == 1) { G.add_edge(ut::graph::Edge<int>(a, b, w)); } else { G.add_edge(a, b); w = (int)G.edges().back().weight(); } es.push_back({a, b, w}); ns.insert(a); ns.insert(b); }
                auto T = G.minimum_spanning_tree();
                std::vector<std::vector<int>> ts; for (auto &e : T.edges()) ts.push_back({e.node_keys().first, e.node_keys().second, (int)e.weight()});
                std::vector<int> all(ns.begin(), ns.end()), gn, tn, deg; for (auto &q : G.nodes()) gn.push_back(q.first); for (auto &q : T.nodes()) tn.push_back(q.first); for (int q : all) deg.push_back(T.nodes().at(q).edge_indices().size());
                bool inc = true; for (auto &q : T.nodes()) for (int e : q.second.edge_indices()) inc &= e >= 0 && e < (int)T.edges().size() && (T.edges()[e].node_keys().first == q.first || T.edges()[e].node_keys().second == q.first);
                std::vector<int> gd; for (int q : all) gd.push_back(G.nodes().at(q).edge_indices().size());
                for (auto &q : G.nodes()) for (int e : q.second.edge_indices()) inc &= e >= 0 && e < (int)G.edges().size() && (G.edges()[e].node_keys().first == q.first || G.edges()[e].node_keys().second == q.first);
                for (size_t e = 0; e < es.size() && e < G.edges().size(); e++) inc &= G.edges()[e].node_keys().first == es[e][0] && G.edges()[e].node_keys().second == es[e][1] && G.edges()[e].weight() == es[e][2];
                j.ks("kind", "graph").ka("N", all).ka("gn", gn).ka("tn", tn).kr("E", mat(es)).kr("T", mat(ts)).ka("deg", deg).kb("inc", inc).ka("gd", gd).kv("ge", G.edges().size()); break;
            }
            case 9: {   // the learner which chooses the number of threads
                int n = r.in(1, 5); std::vector<ut::ucb1::Action<int>> as; for (int i = 1; i <= n; i++) as.push_back(ut::ucb1::Action<int>(i)); double decay = r.pick(std::vector<double>{0.5, 0.75, 0.9});
                ut::ucb1::Learner<int> L; if (r.p(50)) L.setup(as, decay); else L = ut::ucb1::Learner<int>(), L.setup(as, decay); if (r.p(20)) { L.learn(1.0); L.setup(as, decay); }
                int st = r.in(0, 2);
                for (int t = r.in(1, 14); t > 0; t--) {
                    J o; int b = L.best_action().body; double sc = st == 0 ? r.in(-8, 8) : st == 1 ? 2 * b + r.in(0, 1) : 8 - b;
                    L.learn(sc);
                    std::vector<int> ns, up; for (auto &a : L.actions()) { ns.push_back(a.number_of_samples); up.push_back((int)std::lround(std::min(1e3, std::max(-1e3, a.mean + a.confidence)) * 1e5)); }
                    o.ks("o", "learn").kv("a", b).kv("b", L.best_action().body).ka("ns", ns).ka("up", up).kv("tot", L.total_number_of_samples());
                    ops.raw(o.str());
                }
                j.ks("kind", "learner").kv("n", n); break;
            }
            case 10: {  // text
                static const char cs[] = "  \t.ab/\\\r\nZ-"; std::string s; for (int t = r.in(0, 9); t > 0; t--) s += cs[r.in(0, (int)sizeof cs - 2)];
                auto code = [](const std::string &q) { std::vector<int> v; for (unsigned char c : q) v.push_back(c); return arr(v); };
                std::string dir, stem, ext; for (int t = r.in(0, 3); t > 0; t--) { dir += "ab-."[r.in(0, 2)]; if (r.p(50)) dir += r.p(80) ? '/' : '\\'; } if (!dir.empty() && dir.back() != '/' && dir.back() != '\\') dir += '/'; if (r.p(20)) dir = "../" + dir;
                for (int t = r.in(1, 4); t > 0; t--) stem += "xy-. "[r.in(0, t == 1 ? 2 : 4)]; for (int t = r.in(1, 3); t > 0; t--) ext += "msp"[r.in(0, 2)];
                j.ks("kind", "text").kr("s", code(s)).kr("tr", code(ut::trim(s))).kr("ds", code(ut::delete_space(s))).kb("hs", ut::has_space(s)).kr("cr", code(ut::delete_crlf(s))).kv("lv", (int)ut::indent_spaces(r.in(3, 3)).size());
                j.kr("dir", code(dir)).kr("stem", code(stem)).kr("ext", code(ext)).kr("rx", code(ut::remove_extension(dir + stem + "." + ext))).kr("rp", code(ut::remove_path(dir + stem + "." + ext))).kr("bn", code(ut::base_name(dir + stem + "." + ext))); break;
            }
            default: {  // sets, maps and arrays
                std::unordered_set<int> a, b; std::vector<int> av, bv; for (int i = 1; i <= 8; i++) { if (r.p(50)) { a.insert(i); av.push_back(i); } if (r.p(40)) { b.insert(i); bv.push_back(i); } }
                auto s2v = [](const std::unordered_set<int> &s) { std::vector<int> v(s.begin(), s.end()); return v; };
                auto in = ut::intersection_set(a, b), un = ut::union_set(a, b); auto a1 = a, a2 = a; ut::update_intersection_set(&a1, b); ut::update_union_set(&a2, b);
                std::unordered_map<int, int> f, g; std::vector<std::vector<int>> fv, gv; for (int i = 1; i <= 5; i++) { if (r.p(60)) { f[i] = r.in(-2, 2); fv.push_back({i, f[i]}); } if (r.p(60)) { g[i] = r.in(-2, 2); gv.push_back({i, g[i]}); } }
                auto vp = ut::to_vector_pair(f); std::vector<std::vector<int>> fp; for (size_t i = 0; i < vp.first.size(); i++) fp.push_back({vp.first[i], vp.second[i]});
                std::vector<int> w; for (int t = r.in(1, 6); t > 0; t--) w.push_back(r.in(-4, 4)); int c = r.in(-4, 4);
                ut::Range<double> R; for (int x : w) R.update(x);
                int lo = r.in(-3, 3), hi = lo + r.in(0, 5);
                j.ks("kind", "util").ka("a", av).ka("b", bv).ka("in", s2v(in)).ka("un", s2v(un)).ka("in2", s2v(a1)).ka("un2", s2v(a2)).ka("tv", ut::to_vector(a)).ka("fv", s2v(ut::from_vector(w)));
                j.kr("f", mat(fv)).kr("g", mat(gv)).kr("fp", mat(fp)).kv("l1", ut::distance_l1(f, g)).kv("l0", ut::distance_l0(f, g));
                j.ka("w", w).kv("c", c).kv("cnt", ut::count(w, c)).kv("dup", ut::count_duplicate(w)).kv("wmin", ut::min(w)).kv("wmax", ut::max(w)).kv("wabs", ut::max_abs(w)).kv("amin", ut::argmin(w)).kv("amax", ut::argmax(w));
                j.kv("rmin", R.min()).kv("rmax", R.max()).kv("rabs", R.max_abs()).kv("rr", R.range()).kv("lo", lo).kv("hi", hi).ka("seq", ut::sequence(lo, hi)).ka("seq0", ut::sequence(hi - lo)); break;
            }
        }
        j.kr("ops", ops.str());
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10, fn, stdout, [&](int k, const std::string &w) {
        J j; j.kv("k", k).ks("kind", "crash").ks("what", w).kr("ops", "[]"); return j.str();
    }, 8);
}
