#pragma once
// What a C++ compiler knows while it reads a generated header: types and namespaces declared so far, in the order in which
// the header generator writes them (forward declarations, enums, nested messages, members).
#include <ast/proto-file.h>
#include <string>
#include <string_view>
#include <vector>

struct Seen
{
    std::string name;
    Seen *parent = nullptr;
    enum { ns, type, enum_ } kind = type;
    bool complete = false;
    std::vector<Seen *> inner;
};
struct Header
{
    using Label = proto_field::Label;
    std::vector<Seen *> all;
    Seen *root;
    // is called with the field and what its type name denotes, after the checks
    void (*seen)(void *, const proto_field &, const Seen *) = nullptr;
    void *arg = nullptr;

    Header() { root = make("", nullptr); root->kind = Seen::ns; }
    ~Header() { for (Seen *s : all) delete s; }
    Seen *make(std::string_view name, Seen *parent)
    {
        Seen *s = new Seen;
        s->name = std::string(name);
        s->parent = parent;
        all.push_back(s);
        return s;
    }
    static Seen *in(const Seen *scope, std::string_view name)
    {
        for (Seen *s : scope->inner)
            if (s->name == name) return s;
        return nullptr;
    }
    Seen *declare(Seen *scope, std::string_view name)
    {
        if (Seen *s = in(scope, name)) return s;
        Seen *s = make(name, scope);
        scope->inner.push_back(s);
        return s;
    }
    Seen *open_namespace(std::string_view dotted)
    {
        Seen *s = root;
        while (!dotted.empty())
        {
            const auto dot = dotted.find('.');
            s = declare(s, dotted.substr(0, dot));
            s->kind = Seen::ns;
            dotted = dot == dotted.npos ? std::string_view() : dotted.substr(dot + 1);
        }
        return s;
    }
    // the declaration that A::B (written A.B) denotes inside of scope
    static Seen *find(const Seen *scope, std::string_view dotted)
    {
        auto dot = dotted.find('.');
        Seen *t = nullptr;
        for (const Seen *s = scope; s && !t; s = s->parent) t = in(s, dotted.substr(0, dot));
        while (t && dot != dotted.npos)
        {
            dotted.remove_prefix(dot + 1);
            dot = dotted.find('.');
            t = in(t, dotted.substr(0, dot));
        }
        return t;
    }
    bool use(const Seen *scope, const proto_field &f, bool value)
    {
        if (f.type != proto_field::Type::MESSAGE && f.type != proto_field::Type::ENUM) return true;
        const Seen *t = find(scope, f.type_name.proto_name);
        if (seen) seen(arg, f, t);
        return t && t->kind == (f.type == proto_field::Type::ENUM ? Seen::enum_ : Seen::type) && (!value || t->complete);
    }
    bool read(Seen *scope, const proto_message &m)
    {
        Seen *self = declare(scope, m.name.get_name());
        for (const auto &f : m.forwards) declare(self, f);
        enums(self, m);
        for (const auto &s : m.messages)
            if (!read(self, s)) return false;
        for (const auto &f : m.fields)
            if (!use(self, f, f.label == Label::NONE || f.label == Label::OPTIONAL)) return false;
        for (const auto &f : m.maps)
            if (!use(self, f.value, true)) return false;
        for (const auto &o : m.oneofs)
            for (const auto &f : o.fields)
                if (!use(self, f, true)) return false;
        self->complete = true;
        return true;
    }
    void enums(Seen *scope, const proto_message &m)
    {
        for (const auto &e : m.enums)
        {
            Seen *s = declare(scope, e.name.get_name());
            s->kind = Seen::enum_;
            s->complete = true;
        }
    }
    bool read(const proto_file &f)
    {
        for (const auto &i : f.imports)
            if (!read(i)) return false;
        Seen *ns = open_namespace(f.package.name.proto_name);
        for (const auto &x : f.package.forwards) declare(ns, x);
        enums(ns, f.package);
        for (const auto &m : f.package.messages)
            if (!read(ns, m)) return false;
        return true;
    }
};
