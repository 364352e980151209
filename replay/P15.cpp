#include "h.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/SOFTLibException.h>
using std::string; using std::vector;
struct S { string n; vector<string> v; };
struct M { size_t type; string name, st; vector<S> s; vector<M> b; };
struct Tok { string s; bool q; };           // word or symbol; quoted
typedef vector<Tok> Toks;
static const char *BT[] = {"Block", "block", "Zone"};
static size_t BTN[3];
static string dir;
static vector<string> files;
enum K { NAME, VALUE, EQ, BTYPE, BNAME, LP, RP, BS, BE, END, EOF_ };
static bool isbt(const string &s) { for (auto b : BT) if (s == b) return true; return false; }
static bool issym(const string &s) { return s.size() == 1 && strchr("=(){};", s[0]); }
static K kind(const Tok &t, int last) {
    if (!t.q) { if (t.s == "=") return EQ; if (t.s == "(") return LP; if (t.s == ")") return RP; if (t.s == "{") return BS; if (t.s == "}") return BE; if (t.s == ";") return END; }
    if (last == EQ || last == VALUE) return VALUE;
    if (last == BTYPE) return BNAME;
    return isbt(t.s) ? BTYPE : NAME;
}
// reference: meaning of a sequence of tokens; false if it is not a script
static bool meaning(const Toks &t, M &root) {
    vector<K> k; int last = -1;
    for (auto &x : t) { k.push_back(kind(x, last)); last = k.back(); }
    k.push_back(EOF_);
    vector<vector<size_t>> path(1);         // indices from the root to the current block
    auto cur = [&]() -> M & { M *m = &root; for (size_t i : path.back()) m = &m->b[i]; return *m; };
    size_t i = 0;
    while (k[i] != EOF_) {
        if (k[i] == NAME) {
            if (k[i + 1] != EQ || k[i + 2] != VALUE) return false;
            vector<string> v; size_t j = i + 2;
            while (k[j] == VALUE) v.push_back(t[j++].s);
            if (k[j] != END) return false;
            bool f = false;
            for (auto &x : cur().s) if (x.n == t[i].s) { x.v = v; f = true; }
            if (!f) cur().s.push_back({t[i].s, v});
            i = j + 1;
        } else if (k[i] == BTYPE) {
            if (k[i + 1] != BNAME) return false;
            string st; size_t j = i + 2;
            if (k[j] == LP) { if (k[j + 1] != NAME || k[j + 2] != RP) return false; st = t[j + 1].s; j += 3; }
            if (k[j] != BS) return false;
            size_t ty = 0; while (t[i].s != BT[ty]) ty++;
            M &c = cur(); size_t n = 0;
            while (n < c.b.size() && !(c.b[n].type == ty && c.b[n].name == t[i + 1].s)) n++;
            if (n == c.b.size()) c.b.push_back({ty, t[i + 1].s, st, {}, {}});
            path.push_back(path.back()); path.back().push_back(n);
            i = j + 1;
        } else if (k[i] == BE) {
            if (path.size() == 1) return false;
            path.pop_back(); i++;
        } else return false;
    }
    return path.size() == 1;
}
static string comment() { static const char *p[] = {"#\n", "# text; a = 1 { \"\n", "## x\n", "#}\n", "# <f>\n"}; return p[I(0, 4)]; }
static string blank(bool need) {
    string s;
    if (need) { static const char *p[] = {" ", "\n", "\t", ",", "  ", " , ", "\n\n", ",,", " #\n"}; s = p[I(0, 8)]; }
    while (I(0, 3) == 0) { static const char *p[] = {" ", "\n", "\t", ",", " \t "}; s += I(0, 3) ? p[I(0, 4)] : comment(); }
    return s;
}
static string render(const Toks &t) {
    string s = blank(false); bool word = false;
    for (auto &x : t) {
        bool w = !x.q && !issym(x.s);
        s += blank(w && word);
        s += x.q ? "\"" + x.s + "\"" : x.s;
        word = w;
    }
    s += blank(false);
    switch (I(0, 5)) { case 0: s += "#"; break; case 1: s += "# end"; break; case 2: s += "\n"; break; default: break; }
    return s;
}
static Tok word(bool value) {
    static const char *p[] = {"a", "b", "ab", "A", "value", "-1.5e3", "x.y", "name_1", "/path/to", "\xc3\xa9"};
    static const char *q[] = {"", "=", ";", "{", "}", "(", ")", "a b", " ", "#", "a # b", "x\ny", "<f>", ",", "a,b", "\t", "  a  b "};
    if (value && I(0, 8) == 0) return {BT[I(0, 2)], I(0, 1) == 1};
    if (I(0, 3) == 0) return {q[I(0, 16)], true};
    return {p[I(0, 9)], I(0, 4) == 0};
}
static void statements(Toks &t, int depth, int n);
static void statement(Toks &t, int depth) {
    auto sym = [&](const char *s) { t.push_back({s, false}); };
    if (depth && I(0, 2) == 0) {
        t.push_back({BT[I(0, 2)], I(0, 5) == 0}); t.push_back(word(true));
        if (I(0, 2) == 0) { sym("("); t.push_back(word(false)); sym(")"); }
        sym("{"); statements(t, depth - 1, I(0, 3)); sym("}");
    } else {
        t.push_back(word(false)); sym("=");
        int n = I(0, 2) ? 1 : I(1, 5);
        while (n--) t.push_back(word(true));
        sym(";");
    }
}
static void statements(Toks &t, int depth, int n) { while (n--) statement(t, depth); }
static void same(const M &m, ConfigBlock *c, ConfigBlock *par) {
    CHECK((par ? c->GetType() == BTN[m.type] : true) && c->GetName() == m.name, "type %zu, name '%s' of a block; got %zu, '%s'", m.type, m.name.c_str(), (size_t)c->GetType(), c->GetName().c_str());
    CHECK(c->GetSecondaryType() == (m.st.empty() ? m.name : m.st), "secondary type of block '%s': '%s', got '%s'", m.name.c_str(), m.st.c_str(), c->GetSecondaryType().c_str());
    CHECK(c->GetParent() == par, "parent of block '%s'", m.name.c_str());
    auto s = c->GetAllSettings(); auto b = c->GetAllSubBlocks();
    CHECK(s.size() == m.s.size(), "block '%s' has %zu settings, required %zu", m.name.c_str(), s.size(), m.s.size());
    CHECK(b.size() == m.b.size(), "block '%s' has %zu sub-blocks, required %zu", m.name.c_str(), b.size(), m.b.size());
    for (size_t i = 0; i < s.size(); i++) {
        CHECK(s[i]->GetName() == m.s[i].n, "setting '%s' of block '%s', got '%s'", m.s[i].n.c_str(), m.name.c_str(), s[i]->GetName().c_str());
        CHECK(s[i]->GetNumberOfValues() == m.s[i].v.size(), "setting '%s' has %zu values, required %zu", m.s[i].n.c_str(), s[i]->GetNumberOfValues(), m.s[i].v.size());
        for (size_t j = 0; j < m.s[i].v.size(); j++)
            CHECK(s[i]->GetString(j) == m.s[i].v[j], "value %zu of setting '%s' of block '%s': got '%s', required '%s'", j, m.s[i].n.c_str(), m.name.c_str(), s[i]->GetString(j).c_str(), m.s[i].v[j].c_str());
        CHECK(s[i]->GetTextVector() == m.s[i].v && !s[i]->Touched(), "setting '%s'", m.s[i].n.c_str());
    }
    for (size_t i = 0; i < b.size(); i++) same(m.b[i], b[i], c);
}
static void regtypes(ConfigurationScript &c) { for (size_t i = 0; i < 3; i++) BTN[i] = c.RegisterBlockType(BT[i]); }
static string tofile(const string &s) {
    string n = dir + "/f" + std::to_string(files.size());
    std::ofstream(n) << s; files.push_back(n); return n;
}
static void clean() { for (auto &f : files) unlink(f.c_str()); files.clear(); }
// how: 0 text, 1 file
static void judge(const string &text, const Toks &t, int how) {
    M m{0, "<root>", "", {}, {}};
    bool ok = meaning(t, m), err = false;
    CASE("script%s:\n%s\n(end of script)", how ? " in a file" : "", text.c_str());
    { ConfigurationScript c; regtypes(c);
      try {
        ConfigBlock *r = nullptr;
        if (how == 0) r = c.FromString(text); else { c.FromFile(tofile(text)); r = c.GetRootBlock(); }
        err = c.HasError();
        CHECK(r == c.GetRootBlock(), "root block");
        if (ok) { CHECK(!err, "an error is reported for a correct script"); same(m, r, nullptr); }
      } catch (SOFTLibException &e) { err = true; CHECK(!ok, "a correct script is refused: %s", e.what()); }
      CHECK(ok || err, "a syntax error is not reported"); }
}
// split at statement boundaries; some of the parts are put into files
static string includes(const Toks &t, int lo, int hi, int depth) {
    string s = blank(false); int i = lo;
    while (i < hi) {
        int d = 0, j = i;
        for (;; j++) { if (!t[j].q && t[j].s == "{") d++; if (!t[j].q && t[j].s == "}") { d--; if (!d) break; } if (!t[j].q && t[j].s == ";" && !d) break; }
        j++;
        if (depth && I(0, 2) == 0) {
            int k = j;      // more statements
            string n = tofile(includes(t, i, k, depth - 1) + (I(0, 3) ? "" : "# end"));
            s += "<" + n + ">";
        } else {
            int b = -1; for (int k = i; k < j; k++) if (!t[k].q && t[k].s == "{") { b = k; break; }
            if (b >= 0 && I(0, 1)) s += render(Toks(t.begin() + i, t.begin() + b + 1)) + "\n" + includes(t, b + 1, j - 1, depth) + "}";
            else s += render(Toks(t.begin() + i, t.begin() + j)) + "\n";
        }
        s += blank(false); i = j;
    }
    return s;
}
static void fixed() {
    auto W = [](const char *s) { return Tok{s, false}; };
    struct { const char *s; Toks t; } c[] = {
        {"", {}}, {"#", {}}, {"# a", {}}, {" \n\t", {}}, {"a=1;", {W("a"), W("="), W("1"), W(";")}}, {"a=1;#", {W("a"), W("="), W("1"), W(";")}},
        {"a=1 #;\n;", {W("a"), W("="), W("1"), W(";")}}, {"a=\"\";", {W("a"), W("="), {"", true}, W(";")}}, {"a=1", {W("a"), W("="), W("1")}},
        {"a=1,2,,3;", {W("a"), W("="), W("1"), W("2"), W("3"), W(";")}}, {"a=\"1\"2\"3\";", {W("a"), W("="), {"1", true}, W("2"), {"3", true}, W(";")}},
        {"a", {W("a")}}, {"a=", {W("a"), W("=")}}, {"Block", {W("Block")}}, {"Block x", {W("Block"), W("x")}}, {"Block x{", {W("Block"), W("x"), W("{")}},
        {"Block x{}", {W("Block"), W("x"), W("{"), W("}")}}, {"Block x{}}", {W("Block"), W("x"), W("{"), W("}"), W("}")}}, {"}", {W("}")}}, {";", {W(";")}},
        {"Block Block(y){a=Block;}", {W("Block"), W("Block"), W("("), W("y"), W(")"), W("{"), W("a"), W("="), W("Block"), W(";"), W("}")}},
        {"Block x(){}", {W("Block"), W("x"), W("("), W(")"), W("{"), W("}")}}, {"Block x(y z){}", {W("Block"), W("x"), W("("), W("y"), W("z"), W(")"), W("{"), W("}")}},
        {"a=1;a=2;", {W("a"), W("="), W("1"), W(";"), W("a"), W("="), W("2"), W(";")}}, {"a==1;", {W("a"), W("="), W("="), W("1"), W(";")}}, {"a=;", {W("a"), W("="), W(";")}},
    };
    for (auto &x : c) { judge(x.s, x.t, 0); judge(x.s, x.t, 1); }
    clean();
}
static void body() {
    char tmpl[] = "./p15XXXXXX"; CHECK(mkdtemp(tmpl)); dir = tmpl;
    
    std::ostringstream sink; auto *old = std::cerr.rdbuf(sink.rdbuf());
    fixed();
    for (int it = 0; it < N_(1500, 30000); it++) {
        Toks t; statements(t, 3, I(0, 5));
        judge(render(t), t, I(0, 3) == 0);
        if (I(0, 2) == 0) judge(includes(t, 0, t.size(), 2), t, I(0, 1));
        // something wrong (perhaps)
        for (int r = 0; r < 3; r++) {
            Toks u = t; int n = I(1, 2);
            while (n--) {
                static const char *sy[] = {"=", "(", ")", "{", "}", ";", "a", "Block", "b"};
                size_t i = u.empty() ? 0 : I(0, u.size() - 1);
                switch (u.empty() ? 0 : I(0, 4)) {
                    case 0: u.insert(u.begin() + i, Tok{sy[I(0, 8)], false}); break;
                    case 1: u.erase(u.begin() + i); break;
                    case 2: std::swap(u[i], u[I(0, u.size() - 1)]); break;
                    case 3: u.resize(i); break;
                    case 4: u[i] = Tok{sy[I(0, 8)], false}; break;
                }
            }
            judge(render(u), u, 0);
            // a file of complete statements, included anywhere
            Toks f; statements(f, 1, I(0, 2)); size_t at = I(0, u.size());
            string text = render(Toks(u.begin(), u.begin() + at)); size_t h = text.rfind('#');
            if (h != string::npos && text.find('\n', h) == string::npos) text += "\n";
            text += "<" + tofile(render(f)) + ">" + render(Toks(u.begin() + at, u.end()));
            u.insert(u.begin() + at, f.begin(), f.end());
            judge(text, u, 0);
        }
        sink.str(""); clean();
    }
    // files that cannot be read; one script object reads one file
    CASE("script includes a file that does not exist");
    bool thrown = false;
    { ConfigurationScript c; regtypes(c); try { c.FromString("a=1; <" + dir + "/none> b=2;"); } catch (SOFTLibException &e) { thrown = true; } }
    CHECK(thrown, "no error is raised");
    CASE("script file that does not exist"); thrown = false;
    { ConfigurationScript c; try { c.FromFile(dir + "/none"); } catch (SOFTLibException &e) { thrown = true; } }
    CHECK(thrown, "no error is raised");
    clean(); rmdir(dir.c_str());
    std::cerr.rdbuf(old);
}
MAIN(body)
