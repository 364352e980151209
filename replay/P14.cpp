#include "h.h"
#include <set>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/SOFTLibException.h>
using std::string; using std::vector;
struct S { string n; vector<string> v; bool t; };
struct M { size_t type; string name, st; vector<S> s; vector<M> b;
    S *find(const string &n) { for (auto &x : s) if (x.n == n) return &x; return nullptr; }
    M *sub(size_t t, const string &n) { for (auto &x : b) if (x.type == t && x.name == n) return &x; return nullptr; } };
static string nm() { static const char *p[] = {"a", "b", "ab", "A", "c", "", "aa", "d e"}; return p[I(0, 7)]; }
static string val() { static const char *p[] = {"1", "x", "", "-3.5", "long value with spaces"}; return p[I(0, 4)]; }
static vector<string> vals() { vector<string> v; int n = I(0, 4); while (n--) v.push_back(val()); return v; }
static void build(M &m, ConfigBlock *c, int depth) {
    int n = I(0, 5);
    while (n--) {
        string k = nm(); auto v = vals();
        if (S *s = m.find(k)) s->v = v; else m.s.push_back({k, v, false});
        Setting *r = c->AddSetting(new SettingScript(k, v));
        CHECK(r && r->GetName() == k && r->GetTextVector() == v, "adding a setting returns it");
    }
    n = depth ? I(0, 3) : 0;
    while (n--) {
        size_t t = I(0, 2); string k = nm(), st = I(0, 1) ? nm() : "";
        M *e = m.sub(t, k); ConfigBlock *r;
        if (!e) { m.b.push_back({t, k, st, {}, {}}); e = &m.b.back(); }
        if (I(0, 1)) r = c->AddSubBlock(t, k, st); else { ConfigBlock *q = new ConfigBlock(t, k, st); r = c->AddSubBlock(q); if (r != q) delete q; }
        CHECK(r == c->GetConfigBlock(t, k), "adding a sub-block returns it");
        build(*e, r, depth - 1);
    }
}
// touched: 1 compare use flags
static void same(M &m, ConfigBlock *c, ConfigBlock *par, int touched, const char *what) {
    CHECK(c->GetType() == m.type && c->GetName() == m.name, "%s: type or name of block '%s'", what, m.name.c_str());
    CHECK(c->GetSecondaryType() == (m.st.empty() ? m.name : m.st), "%s: secondary type of block '%s'", what, m.name.c_str());
    CHECK(c->GetParent() == par && c->HasParent() == (par != nullptr), "%s: parent of block '%s'", what, m.name.c_str());
    auto s = c->GetAllSettings(); auto b = c->GetAllSubBlocks();
    CHECK(s.size() == m.s.size(), "%s: block '%s' has %zu settings, required %zu", what, m.name.c_str(), s.size(), m.s.size());
    CHECK(b.size() == m.b.size(), "%s: block '%s' has %zu sub-blocks, required %zu", what, m.name.c_str(), b.size(), m.b.size());
    vector<Setting *> un;
    for (size_t i = 0; i < s.size(); i++) {
        CHECK(s[i]->GetName() == m.s[i].n && s[i]->GetTextVector() == m.s[i].v, "%s: setting '%s' of block '%s'", what, m.s[i].n.c_str(), m.name.c_str());
        if (touched) CHECK(s[i]->Touched() == m.s[i].t, "%s: setting '%s' of block '%s' is %s", what, m.s[i].n.c_str(), m.name.c_str(), m.s[i].t ? "marked unused though it was looked up" : "marked used though it was not looked up");
        if (!s[i]->Touched()) un.push_back(s[i]);
    }
    CHECK(c->GetUntouchedSettings() == un && c->HasUntouchedSettings() == !un.empty(), "%s: unused settings of block '%s'", what, m.name.c_str());
    CHECK(c->HasSubBlocks() == !m.b.empty(), "%s", what);
    for (size_t t = 0; t < 4; t++) {
        vector<ConfigBlock *> w; for (auto x : b) if (x->GetType() == t) w.push_back(x);
        CHECK(c->GetAllSubBlocksOfType(t) == w && c->HasSubBlocks(t) == !w.empty(), "%s: sub-blocks of type %zu of block '%s'", what, t, m.name.c_str());
    }
    for (size_t i = 0; i < b.size(); i++) same(m.b[i], b[i], c, touched, what);
}
static void lookups(M &m, ConfigBlock *c) {
    for (int i = 0; i < 3; i++) {
        string k = nm(); S *s = m.find(k); int how = I(0, 3);
        CHECK(c->HasSetting(k) == (s != nullptr), "presence of setting '%s'", k.c_str());
        if (how == 0) { Setting *r = c->GetSetting(k); CHECK((r != nullptr) == (s != nullptr) && (!r || r->GetName() == k), "look-up of '%s'", k.c_str()); if (s) s->t = true; }
        if (how == 1) { Setting *r = c->GetSetting(k.c_str()); CHECK((r != nullptr) == (s != nullptr) && (!r || r->GetName() == k), "look-up of '%s'", k.c_str()); if (s) s->t = true; }
        if (how == 2 && !(s && s->v.empty())) {
            bool thrown = false; string v;
            try { v = (*c)[k]; } catch (SOFTLibException &) { thrown = true; }
            CHECK(thrown == (s == nullptr) && (thrown || v == s->v[0]), "value of '%s'", k.c_str()); if (s) s->t = true;
        }
        size_t t = I(0, 3); M *q = m.sub(t, k);
        CHECK(c->HasSubBlock(t, k) == (q != nullptr), "presence of sub-block '%s'", k.c_str());
        ConfigBlock *r = c->GetConfigBlock(t, k);
        CHECK((r != nullptr) == (q != nullptr) && (!r || (r->HasTypeAndName(t, k) && r->HasType(t) && !r->HasType(t + 1) && !r->HasTypeAndName(t, k + "x"))), "look-up of sub-block '%s'", k.c_str());
        if (r && I(0, 1)) lookups(*q, r);
    }
}
static void merge(M &a, M &b, bool allow, vector<string> &unk) {
    for (auto &s : b.s) { if (S *x = a.find(s.n)) x->v = s.v; else if (allow) a.s.push_back({s.n, s.v, false}); else unk.push_back(s.n); }
    for (auto &s : b.b) { if (M *x = a.sub(s.type, s.name)) merge(*x, s, allow, unk); else if (allow) a.b.push_back(s); else unk.push_back(s.name); }
}
static void scramble(M &m, ConfigBlock *c) {   // change everything in a tree
    for (auto s : c->GetAllSettings()) { SettingScript n("other", vector<string>{"changed", "too"}); s->OverwriteValues(&n); s->Touch(); }
    for (auto b : c->GetAllSubBlocks()) scramble(m, b);
}
struct C : public Configuration { void FromFile(const string &) override {} };
static void run() {
    for (int t = 0; t < N_(3000, 40000); t++) {
        CASE("configuration tree number %d (seed as given)", t);
        M a{1, "root", "", {}, {}}, b{1, "other", "", {}, {}};
        ConfigBlock *ca = new ConfigBlock(1, "root"), *cb = new ConfigBlock(1, "other");
        build(a, ca, 3); build(b, cb, 3);
        same(a, ca, nullptr, 1, "built tree");
        lookups(a, ca); lookups(a, ca);
        same(a, ca, nullptr, 1, "tree after look-ups");
        build(a, ca, 1);
        same(a, ca, nullptr, 1, "tree after more settings");
        M a0 = a;
        CASE("configuration tree number %d, copy", t);
        ConfigBlock *cc = new ConfigBlock(ca);
        same(a0, cc, nullptr, 0, "copy");
        CHECK(*cc == *ca && !(*cc == *cb) && !(ConfigBlock(2, "root") == *ca), "equality of blocks");
        CASE("configuration tree number %d, merge", t);
        bool allow = I(0, 1); vector<string> unk;
        merge(a, b, allow, unk);
        vector<string> *u = ca->Merge(cb, allow);
        CHECK((u != nullptr) == !unk.empty(), "merge reports %s unknown names, required %zu", u ? "some" : "no", unk.size());
        if (u) { CHECK(*u == unk, "names reported as unknown by merge"); delete u; }
        same(a, ca, nullptr, 0, "merged tree");
        same(b, cb, nullptr, 1, "tree merged in");
        same(a0, cc, nullptr, 0, "copy after merging into the original");
        scramble(b, cb); same(a, ca, nullptr, 0, "merged tree after changing the tree merged in");
        delete cb; same(a, ca, nullptr, 0, "merged tree after deleting the tree merged in");
        scramble(a, ca); same(a0, cc, nullptr, 0, "copy after changing the original");
        delete ca; same(a0, cc, nullptr, 0, "copy after deleting the original");
        delete cc;
    }
    for (int t = 0; t < N_(500, 5000); t++) {
        CASE("configuration with block types, number %d", t);
        C c; vector<string> types = {"/root"};
        M m{0, "<root>", "", {}, {}};
        for (int i = I(0, 6); i > 0; i--) {
            string k = nm(); bool known = std::find(types.begin(), types.end(), k) != types.end(), thrown = false; size_t id = 0;
            try { id = c.RegisterBlockType(k); } catch (SOFTLibException &) { thrown = true; }
            CHECK(thrown == known, "block type '%s' registered twice", k.c_str());
            if (!thrown) { CHECK(id == types.size(), "block types are numbered in order"); types.push_back(k); }
        }
        build(m, c.GetRootBlock(), 2); bool err = I(0, 1); CHECK(!c.HasError()); if (err) c.SetErrorFlag();
        C d(c);
        for (C *x : {&c, &d}) {
            for (int i = 0; i < 8; i++) { string k = nm(); auto it = std::find(types.begin(), types.end(), k); bool known = it != types.end();
                CHECK(x->IsBlockType(k) == known, "block type '%s'", k.c_str()); if (known) CHECK(x->StringToBlockType(k) == size_t(it - types.begin()), "number of block type '%s'", k.c_str()); }
            CHECK(x->GetBlockTypes() == types && x->HasError() == err);
            same(m, x->GetRootBlock(), nullptr, 0, "configuration");
        }
        CHECK(c.GetRootBlock() != d.GetRootBlock());
        C e; M n{0, "<root>", "", {}, {}}; build(n, e.GetRootBlock(), 2);
        M m1 = m; bool allow = I(0, 1); vector<string> unk; merge(m1, n, allow, unk);
        vector<string> *u = c.Merge(e, allow); CHECK((u != nullptr) == !unk.empty() && (!u || *u == unk), "names reported as unknown"); delete u;
        same(m1, c.GetRootBlock(), nullptr, 0, "merged configuration"); same(m, d.GetRootBlock(), nullptr, 0, "copy of a configuration"); same(n, e.GetRootBlock(), nullptr, 0, "configuration merged in");
        delete c.GetRootBlock(); delete d.GetRootBlock(); delete e.GetRootBlock();
    }
}
MAIN(run)
