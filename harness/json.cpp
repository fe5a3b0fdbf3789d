// JSON documents: random documents are written through the library and read by it in many
// layouts.  args: N seed dir
#include "common.h"
#include <unistd.h>
using namespace vf;
using namespace utility::json;

// a document as its sequence of events: "{" "}" "[" "]" key string int double bool null
struct Tok { std::string t, v; };
using Doc = std::vector<Tok>;
static std::string cd(double v) { char b[64]; snprintf(b, sizeof b, "%.6e", v); return b; }
static std::string doc_json(const Doc &d) { J q('['); for (auto &k : d) { J e('['); e.raw(J::q(k.t)).raw(J::q(k.v)); q.raw(e.str()); } return q.str(); }

static void flat(const std::any &a, Doc &d);
static void flat(const JsonObject &o, Doc &d) { d.push_back({"{", ""}); for (auto &e : o.body) { d.push_back({"key", e.first}); flat(e.second, d); } d.push_back({"}", ""}); }
static void flat(const JsonArray &o, Doc &d) { d.push_back({"[", ""}); for (auto &e : o.body) flat(e, d); d.push_back({"]", ""}); }
static void flat(const std::any &a, Doc &d) {
    if (a.type() == typeid(JsonObject)) flat(std::any_cast<JsonObject>(a), d);
    else if (a.type() == typeid(JsonArray)) flat(std::any_cast<JsonArray>(a), d);
    else if (a.type() == typeid(int)) d.push_back({"int", std::to_string(std::any_cast<int>(a))});
    else if (a.type() == typeid(double)) d.push_back({"double", cd(std::any_cast<double>(a))});
    else if (a.type() == typeid(bool)) d.push_back({"bool", std::any_cast<bool>(a) ? "true" : "false"});
    else if (a.type() == typeid(std::string)) d.push_back({"string", std::any_cast<std::string>(a)});
    else if (a.type() == typeid(std::nullptr_t)) d.push_back({"null", ""});
    else d.push_back({"?", a.type().name()});
}
// lookups by key and by position agree with the document
static bool lookup(const JsonObject &o) {
    for (auto &e : o.body) { if (!o.find(e.first)) return false; Doc a, b; flat(e.second, a); flat(o.at(e.first), b); if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].t != b[i].t || a[i].v != b[i].v) return false; }
    return !o.find("no such key");
}

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]); std::string dir = argv[3];
    auto fn = [&](int k) -> std::string {
        Rng r(S * 6000011 + k);
        const std::string file = dir + "/j" + std::to_string(getpid()) + ".json";
        const bool wide = r.p(30);   // number types a file cannot distinguish are only written
        auto text = [&] {
            static const char *pieces[] = {"a", "b c", ",", ":", "{", "}", "[", "]", "\"", "\\", "\n", "\t", " ", "0", "true", "null", "x[0, 1]", "{}", "\xc3\xa9", "/", "\\n", "\\\"", "\r", "1.5"};
            std::string s; int q = r.in(0, 4), hard = r.p(60); for (int i = 0; i < q; i++) s += pieces[hard ? r.in(0, 23) : r.in(0, 1)]; return s;
        };
        auto number = [&] { static const double f[] = {1, 0.5, 0.001, 1e3, 1e-7, 1e12}; return r.in(-999, 999) * f[r.in(0, 5)]; };
        Doc doc;
        std::function<std::any(int)> value; std::function<JsonObject(int)> object; std::function<JsonArray(int)> array;
        object = [&](int depth) {
            JsonObject o; doc.push_back({"{", ""}); int q = r.in(0, depth > 2 ? 2 : 4); std::set<std::string> used;
            for (int i = 0; i < q; i++) {
                std::string key = r.p(70) ? "key_" + std::to_string(i) : text(); if (!used.insert(key).second) continue;
                doc.push_back({"key", key}); std::any v = value(depth + 1);
                if (v.type() == typeid(JsonObject)) o.emplace_back(key, std::any_cast<JsonObject>(v)); else o.emplace_back(key, v);
            }
            doc.push_back({"}", ""}); return o;
        };
        array = [&](int depth) {
            JsonArray a; doc.push_back({"[", ""}); int q = r.in(0, 4);
            if (r.p(20)) { std::vector<int> c; for (int i = 0; i < q; i++) { c.push_back(r.in(-9, 9)); doc.push_back({"int", std::to_string(c.back())}); } a = JsonArray(c); }
            else for (int i = 0; i < q; i++) a.emplace_back(value(depth + 1));
            doc.push_back({"]", ""}); return a;
        };
        value = [&](int depth) -> std::any {
            int q = r.in(0, depth > 3 ? 5 : 8);
            if (q == 0) { int v = r.p(90) ? r.in(-100, 100) : r.p(50) ? 2147483647 : -2147483647; doc.push_back({"int", std::to_string(v)}); return v; }
            if (q == 1) { double v = number(); doc.push_back({"double", cd(v)}); return v; }
            if (q == 2) { bool v = r.p(50); doc.push_back({"bool", v ? "true" : "false"}); return v; }
            if (q == 3) { std::string s = text(); doc.push_back({"string", s}); return s; }
            if (q == 4) { doc.push_back({"null", ""}); return nullptr; }
            if (q == 5 && wide) {
                int t = r.in(0, 8); long w = r.in(0, 1) ? r.in(0, 30000) : r.in(1, 900);
                doc.push_back({t < 7 ? "int" : "double", t < 7 ? std::to_string(t == 0 ? -w : w) : cd(w)});
                switch (t) { case 0: return (short)-w; case 1: return (unsigned short)w; case 2: return (unsigned)w; case 3: return (long)w; case 4: return (unsigned long)w; case 5: return (long long)w; case 6: return (unsigned long long)w; case 7: return (float)w; default: return (long double)w; }
            }
            if (q <= 6) return array(depth);
            return object(depth);
        };
        auto file_text = [&] { std::ifstream f(file, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); };
        auto lit = [&](const std::string &s) { std::string q = "\""; for (char c : s) { if (c == '"' || c == '\\') { q += '\\'; q += c; } else if (c == '\n') q += "\\n"; else if (c == '\t') q += "\\t"; else if (c == '\r') q += "\\r"; else q += c; } return q + "\""; };
        // the same document in another layout (possibly damaged)
        const int style = r.in(0, 4);
        auto ws = [&]() -> std::string { static const char *w[] = {" ", "\n", "\t", "\r\n", "  ", "\n    "}; if (style == 0) return ""; if (style == 1) return " "; if (style == 2) return "\r\n"; std::string s; for (int q = r.in(0, 2); q > 0; q--) s += w[r.in(0, 5)]; return s; };
        const bool top = r.p(60);    // object or array
        J ev('['); J j; j.kv("k", k).kb("top", top);
        std::any root; if (top) root = object(0); else root = array(0);
        j.kr("doc", doc_json(doc)).kb("wide", wide);
        auto reading = [&](J &e) {
            Doc d; std::string out = "ok"; bool look = true;
            try { if (top) { auto o = read_json_object(file); flat(o, d); look = lookup(o); } else { auto a = read_json_array(file); flat(a, d); } } catch (...) { out = "refused"; d.clear(); }
            e.ks("out", out).kb("look", look).kr("got", doc_json(d));
        };
        {   // written by the library
            if (top) write_json_object(std::any_cast<JsonObject>(root), file); else write_json_array(std::any_cast<JsonArray>(root), file);
            J e; e.ks("op", "write").ks("text", file_text()); reading(e); ev.raw(e.str());
        }
        {   // written by someone else
            std::string t = ws(); std::vector<std::string> out; std::vector<std::string> stack; std::vector<bool> first; bool after_key = false;
            for (auto &x : doc) {
                bool close = x.t == "}" || x.t == "]";
                if (!close && !after_key && !first.empty()) { if (!first.back()) out.push_back(","); first.back() = false; }
                after_key = false;
                if (x.t == "{" || x.t == "[") { out.push_back(x.t); first.push_back(true); }
                else if (close) { out.push_back(x.t); first.pop_back(); }
                else if (x.t == "key") { out.push_back(lit(x.v)); out.push_back(":"); after_key = true; }
                else if (x.t == "string") out.push_back(lit(x.v));
                else if (x.t == "null") out.push_back("null");
                else if (x.t == "double" && r.p(50)) { std::string s = x.v; size_t p = s.find('e'); if (p != std::string::npos && r.p(50)) s[p] = 'E'; out.push_back(s); }
                else out.push_back(x.v);
            }
            int brackets = 0; bool damaged = r.p(12);
            if (damaged) {
                std::vector<int> at; for (size_t i = 0; i < out.size(); i++) if (out[i] == "{" || out[i] == "}" || out[i] == "[" || out[i] == "]") at.push_back(i);
                int i = at[r.in(0, (int)at.size() - 1)];
                if (r.p(50)) out.erase(out.begin() + i); else out.insert(out.begin() + i, out[i]);
            }
            (void)brackets;
            for (auto &q : out) t += q + ws();
            { std::ofstream f(file, std::ios::binary); f << t; }
            J e; e.ks("op", "read").ks("text", t); if (damaged) e.kb("damaged", true); reading(e); ev.raw(e.str());
        }
        unlink(file.c_str());
        j.kr("ev", ev.str()).ks("kind", top ? "object" : "array");
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10, fn, stdout, [&](int k, const std::string &w) { J j; j.kv("k", k).kb("top", true).kb("wide", false).kr("doc", "[]").kr("ev", "[{\"op\":\"crash\",\"why\":" + J::q(w) + "}]"); return j.str(); }, 8);
}
