// P35: type names in real schema texts with symbolic names of the declarations, the real parser and type resolution against
// the scoping rule of protobuf.
#include "symx.h"
#include "schema.h"
#include "cxx_model.h"
#include <vector>

namespace
{
// one declaration: full name = prefix + letter (or fixed text)
enum what { w_package, w_message, w_enum };
struct Decl { std::string_view scope; char letter; what kind; bool imported; };

const char *const scopes[] = {"p.q.M.N", "p.q.M", "p.q", "p", ""};

struct World
{
    std::vector<Decl> decls;
    std::string_view import_package;
    bool has_import = false;
    bool enum_first = false; // an enum has the name of the first part of a qualified name

    static bool starts(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(0, p.size()) == p; }
    bool package_is(std::string_view pkg, std::string_view name) const
    {
        return starts(pkg, name) && (pkg.size() == name.size() || pkg[name.size()] == '.');
    }
    static constexpr int nothing = -1, package = 1000;
    // what the full name scope + "." + rest names: a declaration, a package or nothing
    int find(std::string_view scope, std::string_view name) const
    {
        // several parts: move all but the last one to the scope
        char full[40];
        size_t n = 0;
        for (char c : scope) full[n++] = c;
        if (n) full[n++] = '.';
        for (char c : name) full[n++] = c;
        size_t dot = n;
        while (dot > 0 && full[dot - 1] != '.') --dot;
        const std::string_view in(full, dot ? dot - 1 : 0), last(full + dot, n - dot);
        for (size_t i = 0; i < decls.size(); i++)
            if (decls[i].scope == in && last.size() == 1 && last[0] == decls[i].letter) return int(i);
        const std::string_view whole(full, n);
        if (package_is("p.q", whole) || (has_import && package_is(import_package, whole))) return package;
        return nothing;
    }
    // the rule of protobuf: -1 is an error
    int resolve(std::string_view name, size_t innermost)
    {
        const auto dot = name.find('.');
        const auto first = name.substr(0, dot);
        for (size_t i = innermost; i < std::size(scopes); i++)
        {
            const char *const s = scopes[i];
            const int k = find(s, first);
            if (k < 0) continue;
            if (dot == name.npos)
            {
                if (k != package) return k;
                continue;
            }
            if (k != package && decls[size_t(k)].kind == w_enum) { enum_first = true; continue; }
            const int r = find(s, name);
            return r == package ? nothing : r;
        }
        return nothing;
    }
};
char any_name(const char *name)
{
    const char c = symx_any<char>(name);
    symx_assume(c == 'X' || c == 'Y' || c == 'M' || c == 'N');
    return c;
}
}

SYMX_TEST(scopes)
{
    static const char *const forms[] = {"", "M.", "N.", "M.N.", "q.", "p.", "p.q.", "p.q.M.", "q.M.N.", "p.q.M.N."};
    static const char *const packages[] = {"", "p", "p.q", "p.r", "q", "p.q.M"};
    const unsigned form = symx_choose(0, std::size(forms) - 1, "form");
    const unsigned imp = symx_choose(0, symx_param("imports", 1) ? std::size(packages) : 0, "import"); // 0: no import
    const bool in_n = symx_choose(0, 1, "field in N");

    World w;
    Text t;
    auto one = [&](std::string_view x) { t.add(x); };
    auto ch = [&](char x) { t.s.push_back(x); };
    const char use = any_name("use");
    // every scope declares one enum and one message; names are symbolic
    auto decl = [&](std::string_view scope, bool imported)
    {
        const char e = any_name("enum"), m = any_name("message");
        symx_assume(e != m);
        one("enum "); ch(e); one("{V=0;}message "); ch(m); one("{}");
        w.decls.push_back({scope, e, w_enum, imported});
        w.decls.push_back({scope, m, w_message, imported});
    };
    Text file_i;
    if (imp)
    {
        w.has_import = true;
        w.import_package = packages[imp - 1];
        if (!w.import_package.empty()) { one("package "); one(w.import_package); one(";"); }
        decl(w.import_package, true);
        file_i = t;
        t = Text();
        fake_files[0] = {"i", file_i.s};
    }
    one("syntax=\"proto2\";package p.q;");
    if (imp) one("import \"i\";");
    decl("p.q", false);
    const bool late = symx_param("late", 1) && symx_choose(0, 1, "declarations after their use");
    one("message M{");
    if (!late) decl("p.q.M", false);
    one("message N{");
    if (!late) decl("p.q.M.N", false);
    if (!in_n) { if (late) decl("p.q.M.N", false); one("}"); }
    // the use: an optional, repeated or map field, or a member of a oneof
    const unsigned kind = symx_choose(symx_param("kinds_from", 0), symx_param("kinds", 3), "kind of the use");
    static const char *const before[] = {"optional ", "repeated ", "map<int32,", "oneof o{"}, *const after[] = {" f=1;", " f=1;", "> f=1;", " f=1;}"};
    one(before[kind]); one(forms[form]); ch(use); one(after[kind]);
    if (in_n) { if (late) decl("p.q.M.N", false); one("}"); }
    if (late) decl("p.q.M", false);
    one("}");
    w.decls.push_back({"p.q", 'M', w_message, false});
    w.decls.push_back({"p.q.M", 'N', w_message, false});

    // names are unique in every scope
    for (size_t i = 0; i < w.decls.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (w.decls[i].scope == w.decls[j].scope) symx_assume(w.decls[i].letter != w.decls[j].letter);
    if (imp && w.import_package == "p.q.M") return; // a package and a message of the same name

    char name[16];
    size_t n = 0;
    for (const char *c = forms[form]; *c; c++) name[n++] = *c;
    name[n++] = use;
    // the field is in N or in M
    const int want = w.resolve(std::string_view(name, n), in_n ? 0 : 1);

    // a map or oneof of an enclosing message is recursion that needs the complete type: P34
    if (kind >= 2 && want >= 0 && want != World::package)
    {
        const Decl &d = w.decls[size_t(want)];
        if ((d.scope == "p.q" && d.letter == 'M' && !d.imported) || (in_n && d.scope == "p.q.M" && d.letter == 'N')) return;
    }

    proto_file f;
    const bool ok = parse(f, t);
    symx_observe(ok);
    CHECK(ok == (want != World::nothing));
    if (!ok) { symx_reach("rejected"); return; }
    const proto_message *holder = nullptr;
    for (const auto &m : f.package.messages)
        if (m.name.proto_name == "M") holder = &m;
    if (in_n && holder)
    {
        const proto_message *n2 = nullptr;
        for (const auto &m : holder->messages)
            if (m.name.proto_name == "N") n2 = &m;
        holder = n2;
    }
    const proto_field *field = nullptr;
    if (holder && kind < 2 && holder->fields.size() == 1) field = &holder->fields[0];
    if (holder && kind == 2 && holder->maps.size() == 1) field = &holder->maps[0].value;
    if (holder && kind == 3 && holder->oneofs.size() == 1 && holder->oneofs[0].fields.size() == 1) field = &holder->oneofs[0].fields[0];
    if (!field) { CHECK(!"the field is there"); return; }
    const Decl &d = w.decls[size_t(want)];
    symx_reach(d.kind == w_enum ? "enum" : "message");
    CHECK(field->type == (d.kind == w_enum ? proto_field::Type::ENUM : proto_field::Type::MESSAGE));

    // the generated header: C++ has to find the same declaration. Not for what C++ does not allow or sees differently:
    // members with the name of their class, enums in front of ::
    for (const auto &x : w.decls)
        if ((x.scope == "p.q.M" && x.letter == 'M') || (x.scope == "p.q.M.N" && x.letter == 'N')) return;
    if (w.enum_first) return;
    struct Arg { const World *w; const Decl *d; bool found = false, right = true; } arg{&w, &d};
    Header h;
    h.arg = &arg;
    h.seen = [](void *p, const proto_field &, const Seen *t)
    {
        Arg &a = *static_cast<Arg *>(p);
        a.found = true;
        if (!t) { a.right = false; return; }
        if (t->name.size() != 1 || t->name[0] != a.d->letter) a.right = false;
        std::string in;
        for (const Seen *s = t->parent; s && s->parent; s = s->parent) in = in.empty() ? s->name : s->name + "." + in;
        if (in != a.d->scope) a.right = false;
    };
    CHECK(h.read(f));
    CHECK(arg.found && arg.right);
    symx_reach("header");
}
