#pragma once
#include "symx.h"
#include <ast/ast.h>
#include <ast/proto-file.h>
#include <parser/parser.h>
#include <dumper/header.h>
#include <cstring>
#include <stdexcept>
#include <string>

// the two functions of other translation units that the parser calls
inline void throw_here() { throw std::runtime_error("parse error"); }
#ifdef OWN_THROW // units without dumper/header.cpp
void throw_parse_error(const proto_file &, std::string_view, std::string_view) { throw_here(); __builtin_unreachable(); }
#endif

// an in-memory file system: the library functions behind std::filesystem::path that the parser uses
struct FakeFile { std::string_view name, content; };
inline FakeFile fake_files[4];
inline const FakeFile *fake_file(std::string_view name)
{
    for (const auto &f : fake_files)
        if (!f.name.empty() && f.name == name) return &f;
    return nullptr;
}
std::string load_file(const std::filesystem::path &p)
{
    const FakeFile *f = fake_file(p.native());
    if (!f) throw_here();
    return std::string(f->content);
}
void std::filesystem::path::_M_split_cmpts() {}
std::filesystem::path &std::filesystem::path::operator/=(const path &p)
{
    if (!_M_pathname.empty()) _M_pathname += '/';
    _M_pathname += p._M_pathname;
    return *this;
}
bool std::filesystem::path::has_root_path() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
std::filesystem::path std::filesystem::path::parent_path() const { return {}; }
std::filesystem::file_status std::filesystem::status(const path &p) { return std::filesystem::file_status(fake_file(p.native()) ? std::filesystem::file_type::regular : std::filesystem::file_type::not_found); }

struct Text
{
    std::string s;
    void add(std::string_view t) { s.append(t.data(), t.size()); }
    void add_any(size_t n, const char *name) { for (size_t i = 0; i < n; i++) s.push_back(symx_any<char>(name)); }
};
inline bool parse(proto_file &f, const Text &t, bool resolve = true)
{
    static parsed_files done;
    static const std::filesystem::path base;
    auto ctx = parsing_ctx{.base_dir = base, .already_parsed = done, .import_paths = {}};
    f.content = std::string(t.s.data(), t.s.size()); // exactly as long as the text
    try
    {
        parse_proto_file_content(f, ctx);
        if (resolve) resolve_messages(f);
        return true;
    }
    catch (const std::exception &) { return false; }
}
