// P34: resolve_messages over symbolic reference graphs; the result is executed by a model of how C++ reads the generated header:
// a member held by value needs a complete type, a pointer / vector needs a declared one, and a name denotes the innermost
// declaration seen so far.
#include "symx.h"
#include "schema.h"
#include "cxx_model.h"
#include <vector>

namespace
{
using Label = proto_field::Label;

enum kind { k_field, k_map, k_oneof };
struct Edge { int from; int to; Label label; kind k; std::string_view as; };

// messages 0..n-1, up[i] the enclosing message of i or -1
constexpr size_t max_n = 6;
struct Graph
{
    size_t n = 0;
    int up[max_n] = {};
    bool need[max_n][max_n] = {};
    bool encloses(int a, int b) const
    {
        for (; b >= 0; b = up[b])
            if (a == b) return true;
        return false;
    }
    // order(a before b) is needed
    void build(const std::vector<Edge> &es, bool optional_is_hard)
    {
        for (size_t i = 0; i < n; i++)
        {
            for (size_t j = 0; j < n; j++) need[i][j] = false;
            if (up[i] >= 0) need[i][up[i]] = true;
        }
        for (const auto &e : es)
        {
            if (e.k != k_field || e.label == Label::NONE || (optional_is_hard && e.label == Label::OPTIONAL)) need[e.to][e.from] = true;
            // a type inside of another message is only visible once that message is complete, or from inside of it
            const int outer = up[e.to];
            if (outer >= 0 && !encloses(outer, e.from)) need[outer][e.from] = true;
        }
    }
    bool acyclic() const
    {
        bool r[max_n][max_n];
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) r[i][j] = need[i][j];
        for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) r[i][j] |= r[i][k] && r[k][j];
        for (size_t i = 0; i < n; i++) if (r[i][i]) return false;
        return true;
    }
};

const char *const names[max_n] = {"A", "B", "C", "D", "E", "F"};
const char *const field_names[8] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"};

void check(proto_file &f, const Graph &shape, const std::vector<Edge> &es)
{
    bool ok = true;
    try { resolve_messages(f); }
    catch (const std::exception &) { ok = false; }
    symx_observe(ok);
    Graph g = shape;
    g.build(es, false);
    CHECK(ok == g.acyclic());
    if (!ok) { symx_reach("rejected"); return; }
    CHECK(Header().read(f));
    // no pointers where no member has to be one
    g.build(es, true);
    const bool plain = g.acyclic();
    struct Count { static size_t ptr(const proto_message &m) { size_t n = 0; for (auto &x : m.fields) n += x.label == Label::PTR; for (auto &x : m.messages) n += ptr(x); return n; } };
    const size_t ptr = Count::ptr(f.package);
    symx_observe(ptr);
    if (plain) { symx_reach("plain"); CHECK(ptr == 0); }
    else symx_reach("pointers");
}
proto_message message(const char *name) { proto_message m; m.name.proto_name = name; m.number = 0; return m; }
void add_edge(proto_message &m, const Edge &e, size_t i)
{
    auto fill = [&](auto &b) { b.name.proto_name = field_names[i]; b.number = int32_t(i + 1); };
    if (e.k == k_field)
    {
        proto_field x;
        fill(x);
        x.label = e.label;
        x.type_name.proto_name = e.as;
        m.fields.push_back(std::move(x));
    }
    else if (e.k == k_map)
    {
        proto_map x;
        fill(x);
        x.key.type_name.proto_name = "int32";
        x.value.type_name.proto_name = e.as;
        m.maps.push_back(std::move(x));
    }
    else
    {
        if (m.oneofs.empty()) { proto_oneof o; o.name.proto_name = "o"; o.number = 0; m.oneofs.push_back(std::move(o)); }
        proto_field x;
        fill(x);
        x.type_name.proto_name = e.as;
        m.oneofs[0].fields.push_back(std::move(x));
    }
}
Label any_label(const char *name)
{
    const auto l = symx_any<uint8_t>(name);
    symx_assume(l <= 2);
    return Label(l); // NONE (required), OPTIONAL, REPEATED
}
}

// n messages next to each other, each with r references to a symbolic message, with a symbolic label or in a map or oneof
SYMX_TEST(flat)
{
    const size_t n = symx_param("n", 3), r = symx_param("r", 1);
    static char target[8];
    Graph g;
    g.n = n;
    proto_file f;
    std::vector<Edge> es;
    const unsigned odd = symx_choose(0, uint8_t(symx_param("odd", 0) ? n * r : 0), "map or oneof");
    const unsigned how = odd ? symx_choose(1, 2, "which") : 0;
    for (size_t i = 0; i < n; i++)
    {
        g.up[i] = -1;
        auto m = message(names[i]);
        for (size_t j = 0; j < r; j++)
        {
            const size_t x = i * r + j;
            target[x] = symx_any<char>("target");
            symx_assume(target[x] >= 'A' && target[x] < char('A' + n));
            Edge e{int(i), target[x] - 'A', Label::OPTIONAL, odd == x + 1 ? kind(how) : k_field, std::string_view(&target[x], 1)};
            if (e.k == k_field) e.label = any_label("label");
            e.to = int(symx_concretize(uint64_t(e.to)));
            es.push_back(e);
            add_edge(m, e, j);
        }
        f.package.messages.push_back(std::move(m));
    }
    check(f, g, es);
}

// A { B {} C {} } D: one reference from each, to any of them
SYMX_TEST(nested)
{
    Graph g;
    g.n = 4;
    g.up[0] = -1; g.up[1] = 0; g.up[2] = 0; g.up[3] = -1;
    static const char *const full[4] = {"A", "A.B", "A.C", "D"};
    const unsigned odd = symx_choose(0, uint8_t(symx_param("odd", 0) ? 4 : 0), "map or oneof");
    const unsigned how = odd ? symx_choose(1, 2, "which") : 0;
    const bool d_first = symx_choose(0, 1, "D first");
    const bool relative = symx_choose(0, 1, "short names");
    proto_file f;
    std::vector<Edge> es;
    proto_message ms[4] = {message("A"), message("B"), message("C"), message("D")};
    for (int i = 0; i < 4; i++)
    {
        const int to = symx_choose(0, 3, "target");
        Edge e{i, to, Label::OPTIONAL, odd == unsigned(i) + 1 ? kind(how) : k_field, full[to]};
        if (relative && g.up[to] >= 0 && g.encloses(g.up[to], i)) e.as = e.as.substr(2);
        if (e.k == k_field) e.label = any_label("label");
        es.push_back(e);
        add_edge(ms[i], e, 0);
    }
    ms[0].messages.push_back(std::move(ms[1]));
    ms[0].messages.push_back(std::move(ms[2]));
    if (d_first) f.package.messages.push_back(std::move(ms[3]));
    f.package.messages.push_back(std::move(ms[0]));
    if (!d_first) f.package.messages.push_back(std::move(ms[3]));
    check(f, g, es);
}
