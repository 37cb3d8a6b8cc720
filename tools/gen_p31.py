#!/usr/bin/env python3
"""Writes the schemas pbw*.proto (kinds, labels, packed settings), pbs*.proto (options at every level), pbd.proto
(default values, integer types) and harness/p31_rows.h, the table of what the generated code has to look like.
Run by hand; the output is committed. The table is written from the declarations below, never from sprotoc's output."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
rows = {}


def row(table, msg, member, kind, shape, number, ctype, size=0, count=0, packed=0, value="", json=None):
    rows.setdefault(table, []).append('X(%s, %s, "%s", %s, %s, %d, (%s), %d, %d, %d%s)' % (
        msg, member, json or member, kind, shape, number, ctype, size, count, packed, value))


# ---- kinds, labels, packed -----------------------------------------------------------------------
KINDS = [("I32", "int32", "int32_t"), ("I64", "int64", "int64_t"), ("U32", "uint32", "uint32_t"), ("U64", "uint64", "uint64_t"),
         ("S32", "sint32", "int32_t"), ("S64", "sint64", "int64_t"), ("BOO", "bool", "bool"), ("F32", "fixed32", "uint32_t"),
         ("F64", "fixed64", "uint64_t"), ("SF32", "sfixed32", "int32_t"), ("SF64", "sfixed64", "int64_t"), ("FLT", "float", "float"),
         ("DBL", "double", "double"), ("STR", "string", "std::string"), ("BYT", "bytes", "std::vector<std::byte>"), ("ENU", "E", "E"),
         ("MSG", "Sub", "Sub")]
POOL = [1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911, 18999, 20000, 127, 128, 31, 32, 255, 256, 511, 512, 1023, 1024, 7, 8]
for v in (2, 3):
    p = "pbw%d" % v
    t = ["// generated by tools/gen_p31.py: every kind with every label", 'syntax = "proto%d";' % v, "package %s;" % p,
         "enum E { ZERO = 0; ONE = 1; BIG = 2147483647; NEG = -1; }", "message Sub { %sint32 v = 1; }" % ("optional " if v == 2 else "")]
    for k, (K, pt, ct) in enumerate(KINDS):
        if pt in ("E", "Sub"):
            ct = p + "::" + ct
        m = "W%d" % k
        msg = "%s::%s" % (p, m)
        used = iter([POOL[(k * 5 + v * 3 + i) % len(POOL)] for i in range(len(POOL))])
        scalar = K not in ("STR", "BYT", "MSG")
        l = []

        def add(decl, member, shape, ctype, packed=0, tail="", pre=""):
            n = next(used)
            l.append("    %s%s %s = %d%s;" % (pre, decl, member, n, tail))
            row("WIRE%d" % v, msg, member, K, shape, n, ctype, packed=packed)
        opt = "std::optional<%s>" % ct
        vec = "std::vector<%s>" % ct
        add("optional " + pt, "o", "OPT", opt)
        if v == 2:
            n = next(used)
            t.append("message Q%d { required %s q = %d; }" % (k, pt, n))
            row("WIRE%d" % v, "%s::Q%d" % (p, k), "q", K, "REQ", n, ct)
        else:
            add(pt, "i", "OPT", opt)
        add("repeated " + pt, "r", "REP", vec, packed=int(v == 3 and scalar))
        if scalar:
            add("repeated " + pt, "p", "REP", vec, 1, " [packed = true]")
            add("repeated " + pt, "u", "REP", vec, 0, " [packed = false]")
            add("repeated " + pt, "c", "REP", vec, 1, pre="//[[ packed = true ]]\n    ")
            add("repeated " + pt, "d", "REP", vec, 0, pre="//[[ packed = false ]]\n    ")
            add("repeated " + pt, "e", "REP", vec, 1 - (v == 3), " [deprecated = false, packed = %s]" % ("true" if v == 2 else "false"))
        a, b, c = next(used), next(used), next(used)
        l.append("    oneof x { %s xa = %d; string xs = %d; %s xb = %d; }" % (pt, a, b, pt, c))
        var = "std::variant<std::monostate, %s, std::string, %s>" % (ct, ct)
        row("WIRE%d" % v, msg, "x", K, "ONE<1>", a, var, json="xa")
        row("WIRE%d" % v, msg, "x", K, "ONE<3>", c, var, json="xb")
        add("map<int32, %s>" % pt, "mv", "MAPV", "std::map<int32_t, %s>" % ct)
        if K not in ("FLT", "DBL", "BYT", "ENU", "MSG"):
            add("map<%s, string>" % pt, "mk", "MAPK", "std::map<%s, std::string>" % ct)
        t += ["message %s" % m, "{"] + l + ["}"]
    out[p + ".proto"] = "\n".join(t) + "\n"

# ---- options at file, message and field level ------------------------------------------------------
ATTR = {"optional": "Opt<$>", "repeated": "Vec<$>", "string": "Str", "bytes": "Byt<$>", "map": "Map<$, @>", "pointer": "Box<$>"}
LIMIT = {"F": 3, "M": 2, "X": 1}


def attrs(level, how, kinds, limits):
    """the options of one level: (brackets, comment lines)"""
    o = {"F": "(spb_fileopt)", "M": "(spb_msgopt)", "X": "(spb_opt)"}[level]
    nano = {"F": "(nanopb_fileopt)", "M": "(nanopb_msgopt)", "X": "(nanopb)"}[level]
    ty = [(a, "std::unique_ptr<%s>" % (level + ATTR[a]) if a == "pointer" else level + ATTR[a]) for a in kinds]
    n = LIMIT[level]
    if how == "none":
        return [], []
    if how == "option":
        return ['%s.%s = "%s"' % (o, a, x) for a, x in ty] + ["%s.%s = %d" % (o, a, n) for a in limits], []
    if how == "nanopb":
        lim = ["%s.%s = %d" % (nano, "max_length" if a == "max_size" else a, n - 1 if a == "max_size" else n) for a in limits]
        return ['%s.%s = "%s"' % (o, a, x) for a, x in ty] + lim, []
    if how == "aggregate":
        return ["%s = { %s }" % (o, ", ".join(['%s: "%s"' % (a, x) for a, x in ty] + ["%s: %d" % (a, n) for a in limits]))], []
    if how == "comment":
        return [], ['//[[ %s.%s = "%s" ]]' % (o, a, x) for a, x in ty] + ["//[[ %s.%s = %d ]]" % (o, a, n) for a in limits]
    if how == "mixed":  # types as options, limits as comments
        return ['%s.%s = "%s"' % (o, a, x) for a, x in ty], ["//[[ %s.%s = %d ]]" % (nano, a, n) for a in limits]
    if how == "legacy":
        return [], ['//[[ %s.type = "%s" ]]' % (a, x) for a, x in ty] + ["//[[ %s.%s = %d ]]" % (nano, a, n) for a in limits]
    raise ValueError(how)


ENUMT = {"F": "int16", "M": "uint8", "X": "int8"}
ALL = list(ATTR)
fhows = ["none", "option", "comment", "nanopb"]
mhows = ["none", "option", "comment", "nanopb"]
xhows = ["none", "option", "comment", "aggregate", "mixed", "nanopb", "legacy"]
for fi, fh in enumerate(fhows):
    p = "pbs%d" % fi
    br, co = attrs("F", fh, ALL, ["max_size", "max_count"])
    t = ["// generated by tools/gen_p31.py: options of the file: " + fh, 'syntax = "proto2";', "package %s;" % p, 'import "spb.proto";', 'import "nanopb.proto";']
    enum_f = fh in ("option", "comment", "nanopb")
    if fh == "comment":
        pend = ['//[[ (spb_fileopt).include = "p31_types.h" ]]', '//[[ (spb_fileopt).enum = "%s" ]]' % ENUMT["F"]] + co
    else:
        pend = []
        t.append('option (spb_fileopt).include = "p31_types.h";')
        if enum_f:
            t.append('option (spb_fileopt).enum = "%s";' % ENUMT["F"])
        t += ["option %s;" % x for x in br]
    t += pend
    t.append("message Sub { optional int32 v = 1 [(spb_opt).optional = \"std::optional<$>\"]; }")
    t.append("enum Top { TZERO = 0; TONE = 1; }")
    t.append('enum TopO { option (spb_enumopt).type = "int8"; UZERO = 0; UONE = 1; }')
    t.append('//[[ (spb_enumopt).type = "uint16" ]]\nenum TopC { VZERO = 0; VONE = 1; }')
    for e, ty in (("Top", ENUMT["F"] if enum_f else "int32"), ("TopO", "int8"), ("TopC", "uint16")):
        rows.setdefault("ENUMS%d" % fi, []).append("E(%s::%s, %s_t)" % (p, e, ty))
    for mi, mh in enumerate(mhows):
        if fh in ("comment", "nanopb") and mh == "nanopb":
            continue
        m = "M%d" % mi
        msg = "%s::%s" % (p, m)
        mb, mc = attrs("M", mh, ALL, ["max_size", "max_count"])
        enum_m = mh in ("option", "nanopb", "comment")
        if mh == "comment":
            mc.append('//[[ (spb_msgopt).enum = "%s" ]]' % ENUMT["M"])
        elif enum_m:
            mb.append('(spb_msgopt).enum = "%s"' % ENUMT["M"])
        t += mc + ["message " + m, "{"] + ["    option %s;" % x for x in mb]
        t.append("    enum In { IZERO = 0; IONE = 1; }")
        t.append('    enum InO { option (spb_enumopt).type = "%s"; JZERO = 0; JONE = 1; }' % ENUMT["X"])
        t.append('    //[[ (spb_enumopt).type = "%s" ]]\n    enum InC { KZERO = 0; KONE = 1; }' % ENUMT["X"])
        for e, ty in (("In", ENUMT["M"] if enum_m else ENUMT["F"] if enum_f else "int32"), ("InO", ENUMT["X"]), ("InC", ENUMT["X"])):
            rows.setdefault("ENUMS%d" % fi, []).append("E(%s::%s, %s_t)" % (msg, e, ty))
        base = {a: None for a in ALL + ["max_size", "max_count"]}
        if fh != "none":
            base = {a: "F" for a in base}
        if mh != "none":
            base = {a: "M" for a in base}
        num = 0
        oneof = []
        var = []
        orow = []
        hows = xhows if (fh, mh) in (("none", "none"), ("option", "option")) else ["none", "option", "comment"] if fi + mi & 1 else ["none", "option", "nanopb"]

        def typ(a, lv, *args):
            l = lv[a]
            if a == "string":
                return "FStr MStr XStr std::string".split()["FMX".index(l) if l else 3]
            if a == "bytes":
                return "%sByt<std::byte>" % l if l else "std::vector<std::byte>"
            if a == "pointer":
                return "std::unique_ptr<%s>" % ("%sBox<%s>" % (l, args[0]) if l else args[0])
            std = {"optional": "std::optional", "repeated": "std::vector", "map": "std::map", "pointer": "std::unique_ptr"}[a]
            name = {"optional": "Opt", "repeated": "Vec", "map": "Map", "pointer": "Ptr"}[a]
            return "%s<%s>" % (l + name if l else std, ", ".join(args))
        for xi, xh in enumerate(hows):
            for member, label, pt, K, use, lim in (
                    ("o", "optional", "int32", "I32", ["optional"], []), ("os", "optional", "string", "STR", ["optional", "string"], ["max_size"]),
                    ("ob", "optional", "bytes", "BYT", ["optional", "bytes"], ["max_size"]), ("qs", "required", "string", "STR", ["string"], ["max_size"]),
                    ("qb", "required", "bytes", "BYT", ["bytes"], ["max_size"]), ("ri", "repeated", "sint32", "S32", ["repeated"], ["max_count"]),
                    ("rp", "repeated", "fixed32", "F32", ["repeated"], ["max_count"]), ("rs", "repeated", "string", "STR", ["repeated", "string"], ["max_size", "max_count"]),
                    ("rb", "repeated", "bytes", "BYT", ["repeated", "bytes"], ["max_size", "max_count"]), ("rm", "repeated", "Sub", "MSG", ["repeated"], ["max_count"]),
                    ("p", "optional", m, "MSG", ["pointer"], []), ("m", "", "map<string, bytes>", "BYT", ["map"], []),
                    ("xs", "oneof", "string", "STR", ["string"], ["max_size"]), ("xb", "oneof", "bytes", "BYT", ["bytes"], ["max_size"])):
                if xh in ("aggregate", "mixed", "nanopb") and member in ("o", "p", "m") and xh != "aggregate":
                    continue
                num += 1
                b, c = attrs("X", xh, use, lim)
                lv = dict(base)
                if xh != "none":
                    for a in use + lim:
                        lv[a] = "X"
                inner = typ("string", lv) if pt == "string" else typ("bytes", lv) if pt == "bytes" else {"int32": "int32_t", "sint32": "int32_t", "fixed32": "uint32_t",
                    "Sub": p + "::Sub", m: msg}.get(pt)
                size = LIMIT[lv["max_size"]] if lv["max_size"] and "max_size" in lim else 0
                count = LIMIT[lv["max_count"]] if lv["max_count"] and "max_count" in lim else 0
                name = "%s%d" % (member, xi)
                packed = 0
                if member == "rp":
                    packed = 1
                    b = ["packed = true"] + b
                line = c + ["%s %s = %d%s;" % (pt if label in ("", "oneof") else label + " " + pt, name, num, " [%s]" % ", ".join(b) if b else "")]
                if label == "oneof":
                    oneof += line
                    var.append(inner)
                    orow.append((name, K, num, size, len(var)))
                    continue
                t += ["    " + x for x in line]
                if label == "":
                    row("OPTS%d" % fi, msg, name, K, "MAPS", num, typ("map", lv, typ("string", base), typ("bytes", base)))
                elif member == "p":
                    row("OPTS%d" % fi, msg, name, K, "PTR", num, typ("pointer", lv, inner))
                elif label == "optional":
                    row("OPTS%d" % fi, msg, name, K, "OPT", num, typ("optional", lv, inner), size)
                elif label == "required":
                    row("OPTS%d" % fi, msg, name, K, "REQ", num, inner, size)
                else:
                    row("OPTS%d" % fi, msg, name, K, "REP", num, typ("repeated", lv, inner), size, count, packed)
        t += ["    oneof x", "    {"] + ["        " + x for x in oneof] + ["    }"]
        for name, K, n, size, idx in orow:
            row("OPTS%d" % fi, msg, "x", K, "ONE<%d>" % idx, n, "std::variant<std::monostate, %s>" % ", ".join(var), size, json=name)
        t.append("}")
    out[p + ".proto"] = "\n".join(t) + "\n"

# ---- default values, integer types ------------------------------------------------------------------
t = ["// generated by tools/gen_p31.py: default values and types of integers", 'syntax = "proto2";', "package pbd;", 'import "spb.proto";',
     "enum E { ONE = 1; class = 2; inf = 3; NEG = -7; }", "message D", "{"]
D = [("int32", "0", "0"), ("int32", "7", "7"), ("int32", "-1", "-1"), ("int32", "2147483647", "2147483647"), ("int32", "-2147483648", "(-2147483647 - 1)"),
     ("int32", "0x7fffffff", "2147483647"), ("int32", "-0x10", "-16"), ("int32", "017", "15"), ("int64", "9223372036854775807", "9223372036854775807LL"),
     ("int64", "-9223372036854775808", "(-9223372036854775807LL - 1)"), ("int64", "-077", "-63"), ("uint32", "4294967295", "4294967295u"),
     ("uint32", "0xFFFFFFFF", "4294967295u"), ("uint64", "18446744073709551615", "~0ull"), ("uint64", "0xffffffffffffffff", "~0ull"), ("uint64", "1", "1"),
     ("sint32", "-5", "-5"), ("sint64", "-6000000000", "-6000000000LL"), ("fixed32", "3000000000", "3000000000u"), ("fixed64", "9223372036854775808", "9223372036854775808ull"),
     ("sfixed32", "-9", "-9"), ("sfixed64", "-077", "-63"), ("bool", "true", "true"), ("bool", "false", "false"), ("float", "1", "1.0f"), ("float", "-1.5", "-1.5f"),
     ("float", "1e10", "1e10f"), ("float", "0.1", "0.1f"), ("float", "nan", "__builtin_nanf(\"\")"), ("float", "-inf", "-__builtin_inff()"), ("float", "0x10", "16.0f"), ("float", "010", "8.0f"),
     ("float", "-0.0", "-0.0f"), ("float", "16777217", "16777216.0f"), ("double", "inf", "__builtin_inf()"), ("double", "0.1", "0.1"), ("double", "1.5e-300", "1.5e-300"),
     ("double", "123456789012345678901234567890", "123456789012345678901234567890.0"), ("double", "-7", "-7.0"), ("double", "0", "0.0"), ("double", "1E5", "1e5"),
     ("string", '"text"', '"text"'), ("string", "'single'", '"single"'), ("string", "'say \"x\"'", '"say \\"x\\""'), ("string", '"a\\\\b\\n\\t"', '"a\\\\b\\n\\t"'),
     ("string", '"ž€𝄞"', '"ž€𝄞"'), ("string", '"//[[ not ]] an option; }"', '"//[[ not ]] an option; }"'), ("E", "ONE", "pbd::E(1)"), ("E", "class", "pbd::E(2)"), ("E", "inf", "pbd::E(3)"), ("E", "NEG", "pbd::E(-7)")]
KD = {k[1]: k for k in KINDS}
n = 0
for pt, text, want in D:
    for label in ("optional", "required"):
        n += 1
        how = n % 3
        name = "%s%d" % (label[0], n)
        if how == 0 and not text.startswith('"//'):
            t.append("    //[[ default = %s ]]" % text)
            t.append("    %s %s %s = %d;" % (label, pt, name, n))
        else:
            t.append("    %s %s %s = %d [%sdefault = %s];" % (label, pt, name, n, "deprecated = false, " if how == 1 else "", text))
        K, _, ct = KD[pt]
        ct = "pbd::E" if pt == "E" else ct
        rows.setdefault("DEFAULTS", []).append("D(%s, %s, %s, (%s), %d, (%s))" % (name, K, "true" if label == "optional" else "false", ct, n, want))
for pt, ty, text, want in (("int32", "int8", "-128", "-128"), ("int32", "int16", "32767", "32767"), ("uint32", "uint8", "255", "255"), ("uint64", "uint16", "65535", "65535"),
                           ("int64", "int32", "-2147483648", "(-2147483647 - 1)"), ("fixed32", "uint8", "200", "200"), ("sint32", "int8", "127", "127")):
    for label in ("optional", "required"):
        n += 1
        name = "%s%d" % (label[0], n)
        t.append("    %s %s %s = %d [(spb_opt).type = \"%s\", default = %s];" % (label, pt, name, n, ty, text))
        rows["DEFAULTS"].append("D(%s, %s, %s, (%s_t), %d, (%s))" % (name, KD[pt][0], "true" if label == "optional" else "false", ty, n, want))
t.append("}")
nb = n
t += ["message B", "{"]
for i, (pt, ty, text, want) in enumerate((("int32", "int8:3", "-4", -4), ("uint32", "uint8:5", "31", 31), ("uint64", "uint64:40", "0xffffffffff", 0xffffffffff), ("sint32", "int16:9", "255", 255), ("int64", "int64:64", "-9223372036854775808", -2**63))):
    t.append("    required %s b%d = %d [(spb_opt).type = \"%s\", default = %s];" % (pt, i, i + 1, ty, text))
    rows.setdefault("BITS", []).append("B(b%d, %s)" % (i, want if want > -2**63 else "(-9223372036854775807LL - 1)"))
t.append("}")
t += ["message T", "{"]
n = 0
one = []
var = []
tr = []
for K, pt, ct in KINDS:
    if not ct.endswith("_t"):
        continue
    sign = "" if ct.startswith("int") else "u"
    for w in (8, 16, 32, 64):
        if w == 64 and "64" not in pt:
            continue
        ty = "%sint%d" % (sign, w)
        for label in ("optional", "required", "repeated"):
            n += 1
            name = "%s%d" % (label[:3], n)
            if n % 2:
                decl = "    %s %s %s = %d [(spb_opt).type = \"%s\"];" % (label, pt, name, n, ty)
            else:
                decl = "    //[[ (spb_opt).type = \"%s\" ]]\n    %s %s %s = %d;" % (ty, label, pt, name, n)
            msg = "T"
            if label == "required":
                msg = "R%d" % n
                tr.append("message %s\n{\n%s\n}" % (msg, decl))
            else:
                t.append(decl)
            c = ty + "_t"
            shape = {"optional": "OPT", "required": "REQ", "repeated": "REP"}[label]
            row("TYPES", "pbd::" + msg, name, K, shape, n, {"OPT": "std::optional<%s>", "REQ": "%s", "REP": "std::vector<%s>"}[shape] % c)
        n += 1
        one.append("        %s x%d = %d [(spb_opt).type = \"%s\"];" % (pt, n, n, ty))
        var.append((n, K, ty + "_t"))
t += ["    oneof x", "    {"] + one + ["    }", "}"] + tr
for i, (n, K, c) in enumerate(var):
    row("TYPES", "pbd::T", "x", K, "ONE<%d>" % (i + 1), n, "std::variant<std::monostate, %s>" % ", ".join(x[2] for x in var), json="x%d" % n)
out["pbd.proto"] = "\n".join(t) + "\n"

for f, s in out.items():
    open(os.path.join(ROOT, "harness/proto", f), "w").write(s)
h = ["// generated by tools/gen_p31.py", "#pragma once"]
for name, r in rows.items():
    h.append("#define %s(%s) \\" % (name, {"ENUM": "E", "DEFA": "D", "BITS": "B"}.get(name[:4], "X")))
    h += ["    %s \\" % x for x in r]
    h += ["", "enum { N_%s = %d };" % (name, len(r))]
open(os.path.join(ROOT, "harness/p31_rows.h"), "w").write("\n".join(h) + "\n")
print({k: len(v) for k, v in rows.items()})
