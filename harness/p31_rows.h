// generated by tools/gen_p31.py
#pragma once
#define WIRE2(X) \
    X(pbw2::W0, o, "o", I32, OPT, 262144, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw2::Q0, q, "q", I32, REQ, 33554431, (int32_t), 0, 0, 0) \
    X(pbw2::W0, r, "r", I32, REP, 33554432, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W0, p, "p", I32, REP, 536870911, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W0, u, "u", I32, REP, 18999, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W0, c, "c", I32, REP, 20000, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W0, d, "d", I32, REP, 127, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W0, e, "e", I32, REP, 128, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W0, x, "xa", I32, ONE<1>, 31, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw2::W0, x, "xb", I32, ONE<3>, 255, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw2::W0, mv, "mv", I32, MAPV, 256, (std::map<int32_t, int32_t>), 0, 0, 0) \
    X(pbw2::W0, mk, "mk", I32, MAPK, 511, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw2::W1, o, "o", I64, OPT, 20000, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw2::Q1, q, "q", I64, REQ, 127, (int64_t), 0, 0, 0) \
    X(pbw2::W1, r, "r", I64, REP, 128, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W1, p, "p", I64, REP, 31, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W1, u, "u", I64, REP, 32, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W1, c, "c", I64, REP, 255, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W1, d, "d", I64, REP, 256, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W1, e, "e", I64, REP, 511, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W1, x, "xa", I64, ONE<1>, 512, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw2::W1, x, "xb", I64, ONE<3>, 1024, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw2::W1, mv, "mv", I64, MAPV, 7, (std::map<int32_t, int64_t>), 0, 0, 0) \
    X(pbw2::W1, mk, "mk", I64, MAPK, 8, (std::map<int64_t, std::string>), 0, 0, 0) \
    X(pbw2::W2, o, "o", U32, OPT, 255, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbw2::Q2, q, "q", U32, REQ, 256, (uint32_t), 0, 0, 0) \
    X(pbw2::W2, r, "r", U32, REP, 511, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw2::W2, p, "p", U32, REP, 512, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw2::W2, u, "u", U32, REP, 1023, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw2::W2, c, "c", U32, REP, 1024, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw2::W2, d, "d", U32, REP, 7, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw2::W2, e, "e", U32, REP, 8, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw2::W2, x, "xa", U32, ONE<1>, 1, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw2::W2, x, "xb", U32, ONE<3>, 16, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw2::W2, mv, "mv", U32, MAPV, 2047, (std::map<int32_t, uint32_t>), 0, 0, 0) \
    X(pbw2::W2, mk, "mk", U32, MAPK, 2048, (std::map<uint32_t, std::string>), 0, 0, 0) \
    X(pbw2::W3, o, "o", U64, OPT, 1024, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbw2::Q3, q, "q", U64, REQ, 7, (uint64_t), 0, 0, 0) \
    X(pbw2::W3, r, "r", U64, REP, 8, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw2::W3, p, "p", U64, REP, 1, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw2::W3, u, "u", U64, REP, 15, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw2::W3, c, "c", U64, REP, 16, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw2::W3, d, "d", U64, REP, 2047, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw2::W3, e, "e", U64, REP, 2048, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw2::W3, x, "xa", U64, ONE<1>, 262143, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw2::W3, x, "xb", U64, ONE<3>, 33554431, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw2::W3, mv, "mv", U64, MAPV, 33554432, (std::map<int32_t, uint64_t>), 0, 0, 0) \
    X(pbw2::W3, mk, "mk", U64, MAPK, 536870911, (std::map<uint64_t, std::string>), 0, 0, 0) \
    X(pbw2::W4, o, "o", S32, OPT, 16, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw2::Q4, q, "q", S32, REQ, 2047, (int32_t), 0, 0, 0) \
    X(pbw2::W4, r, "r", S32, REP, 2048, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W4, p, "p", S32, REP, 262143, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W4, u, "u", S32, REP, 262144, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W4, c, "c", S32, REP, 33554431, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W4, d, "d", S32, REP, 33554432, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W4, e, "e", S32, REP, 536870911, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W4, x, "xa", S32, ONE<1>, 18999, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw2::W4, x, "xb", S32, ONE<3>, 127, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw2::W4, mv, "mv", S32, MAPV, 128, (std::map<int32_t, int32_t>), 0, 0, 0) \
    X(pbw2::W4, mk, "mk", S32, MAPK, 31, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw2::W5, o, "o", S64, OPT, 33554431, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw2::Q5, q, "q", S64, REQ, 33554432, (int64_t), 0, 0, 0) \
    X(pbw2::W5, r, "r", S64, REP, 536870911, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W5, p, "p", S64, REP, 18999, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W5, u, "u", S64, REP, 20000, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W5, c, "c", S64, REP, 127, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W5, d, "d", S64, REP, 128, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W5, e, "e", S64, REP, 31, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W5, x, "xa", S64, ONE<1>, 32, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw2::W5, x, "xb", S64, ONE<3>, 256, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw2::W5, mv, "mv", S64, MAPV, 511, (std::map<int32_t, int64_t>), 0, 0, 0) \
    X(pbw2::W5, mk, "mk", S64, MAPK, 512, (std::map<int64_t, std::string>), 0, 0, 0) \
    X(pbw2::W6, o, "o", BOO, OPT, 127, (std::optional<bool>), 0, 0, 0) \
    X(pbw2::Q6, q, "q", BOO, REQ, 128, (bool), 0, 0, 0) \
    X(pbw2::W6, r, "r", BOO, REP, 31, (std::vector<bool>), 0, 0, 0) \
    X(pbw2::W6, p, "p", BOO, REP, 32, (std::vector<bool>), 0, 0, 1) \
    X(pbw2::W6, u, "u", BOO, REP, 255, (std::vector<bool>), 0, 0, 0) \
    X(pbw2::W6, c, "c", BOO, REP, 256, (std::vector<bool>), 0, 0, 1) \
    X(pbw2::W6, d, "d", BOO, REP, 511, (std::vector<bool>), 0, 0, 0) \
    X(pbw2::W6, e, "e", BOO, REP, 512, (std::vector<bool>), 0, 0, 1) \
    X(pbw2::W6, x, "xa", BOO, ONE<1>, 1023, (std::variant<std::monostate, bool, std::string, bool>), 0, 0, 0) \
    X(pbw2::W6, x, "xb", BOO, ONE<3>, 7, (std::variant<std::monostate, bool, std::string, bool>), 0, 0, 0) \
    X(pbw2::W6, mv, "mv", BOO, MAPV, 8, (std::map<int32_t, bool>), 0, 0, 0) \
    X(pbw2::W6, mk, "mk", BOO, MAPK, 1, (std::map<bool, std::string>), 0, 0, 0) \
    X(pbw2::W7, o, "o", F32, OPT, 256, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbw2::Q7, q, "q", F32, REQ, 511, (uint32_t), 0, 0, 0) \
    X(pbw2::W7, r, "r", F32, REP, 512, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw2::W7, p, "p", F32, REP, 1023, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw2::W7, u, "u", F32, REP, 1024, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw2::W7, c, "c", F32, REP, 7, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw2::W7, d, "d", F32, REP, 8, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw2::W7, e, "e", F32, REP, 1, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw2::W7, x, "xa", F32, ONE<1>, 15, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw2::W7, x, "xb", F32, ONE<3>, 2047, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw2::W7, mv, "mv", F32, MAPV, 2048, (std::map<int32_t, uint32_t>), 0, 0, 0) \
    X(pbw2::W7, mk, "mk", F32, MAPK, 262143, (std::map<uint32_t, std::string>), 0, 0, 0) \
    X(pbw2::W8, o, "o", F64, OPT, 7, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbw2::Q8, q, "q", F64, REQ, 8, (uint64_t), 0, 0, 0) \
    X(pbw2::W8, r, "r", F64, REP, 1, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw2::W8, p, "p", F64, REP, 15, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw2::W8, u, "u", F64, REP, 16, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw2::W8, c, "c", F64, REP, 2047, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw2::W8, d, "d", F64, REP, 2048, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw2::W8, e, "e", F64, REP, 262143, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw2::W8, x, "xa", F64, ONE<1>, 262144, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw2::W8, x, "xb", F64, ONE<3>, 33554432, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw2::W8, mv, "mv", F64, MAPV, 536870911, (std::map<int32_t, uint64_t>), 0, 0, 0) \
    X(pbw2::W8, mk, "mk", F64, MAPK, 18999, (std::map<uint64_t, std::string>), 0, 0, 0) \
    X(pbw2::W9, o, "o", SF32, OPT, 2047, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw2::Q9, q, "q", SF32, REQ, 2048, (int32_t), 0, 0, 0) \
    X(pbw2::W9, r, "r", SF32, REP, 262143, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W9, p, "p", SF32, REP, 262144, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W9, u, "u", SF32, REP, 33554431, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W9, c, "c", SF32, REP, 33554432, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W9, d, "d", SF32, REP, 536870911, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw2::W9, e, "e", SF32, REP, 18999, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw2::W9, x, "xa", SF32, ONE<1>, 20000, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw2::W9, x, "xb", SF32, ONE<3>, 128, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw2::W9, mv, "mv", SF32, MAPV, 31, (std::map<int32_t, int32_t>), 0, 0, 0) \
    X(pbw2::W9, mk, "mk", SF32, MAPK, 32, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw2::W10, o, "o", SF64, OPT, 33554432, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw2::Q10, q, "q", SF64, REQ, 536870911, (int64_t), 0, 0, 0) \
    X(pbw2::W10, r, "r", SF64, REP, 18999, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W10, p, "p", SF64, REP, 20000, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W10, u, "u", SF64, REP, 127, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W10, c, "c", SF64, REP, 128, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W10, d, "d", SF64, REP, 31, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw2::W10, e, "e", SF64, REP, 32, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw2::W10, x, "xa", SF64, ONE<1>, 255, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw2::W10, x, "xb", SF64, ONE<3>, 511, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw2::W10, mv, "mv", SF64, MAPV, 512, (std::map<int32_t, int64_t>), 0, 0, 0) \
    X(pbw2::W10, mk, "mk", SF64, MAPK, 1023, (std::map<int64_t, std::string>), 0, 0, 0) \
    X(pbw2::W11, o, "o", FLT, OPT, 128, (std::optional<float>), 0, 0, 0) \
    X(pbw2::Q11, q, "q", FLT, REQ, 31, (float), 0, 0, 0) \
    X(pbw2::W11, r, "r", FLT, REP, 32, (std::vector<float>), 0, 0, 0) \
    X(pbw2::W11, p, "p", FLT, REP, 255, (std::vector<float>), 0, 0, 1) \
    X(pbw2::W11, u, "u", FLT, REP, 256, (std::vector<float>), 0, 0, 0) \
    X(pbw2::W11, c, "c", FLT, REP, 511, (std::vector<float>), 0, 0, 1) \
    X(pbw2::W11, d, "d", FLT, REP, 512, (std::vector<float>), 0, 0, 0) \
    X(pbw2::W11, e, "e", FLT, REP, 1023, (std::vector<float>), 0, 0, 1) \
    X(pbw2::W11, x, "xa", FLT, ONE<1>, 1024, (std::variant<std::monostate, float, std::string, float>), 0, 0, 0) \
    X(pbw2::W11, x, "xb", FLT, ONE<3>, 8, (std::variant<std::monostate, float, std::string, float>), 0, 0, 0) \
    X(pbw2::W11, mv, "mv", FLT, MAPV, 1, (std::map<int32_t, float>), 0, 0, 0) \
    X(pbw2::W12, o, "o", DBL, OPT, 511, (std::optional<double>), 0, 0, 0) \
    X(pbw2::Q12, q, "q", DBL, REQ, 512, (double), 0, 0, 0) \
    X(pbw2::W12, r, "r", DBL, REP, 1023, (std::vector<double>), 0, 0, 0) \
    X(pbw2::W12, p, "p", DBL, REP, 1024, (std::vector<double>), 0, 0, 1) \
    X(pbw2::W12, u, "u", DBL, REP, 7, (std::vector<double>), 0, 0, 0) \
    X(pbw2::W12, c, "c", DBL, REP, 8, (std::vector<double>), 0, 0, 1) \
    X(pbw2::W12, d, "d", DBL, REP, 1, (std::vector<double>), 0, 0, 0) \
    X(pbw2::W12, e, "e", DBL, REP, 15, (std::vector<double>), 0, 0, 1) \
    X(pbw2::W12, x, "xa", DBL, ONE<1>, 16, (std::variant<std::monostate, double, std::string, double>), 0, 0, 0) \
    X(pbw2::W12, x, "xb", DBL, ONE<3>, 2048, (std::variant<std::monostate, double, std::string, double>), 0, 0, 0) \
    X(pbw2::W12, mv, "mv", DBL, MAPV, 262143, (std::map<int32_t, double>), 0, 0, 0) \
    X(pbw2::W13, o, "o", STR, OPT, 8, (std::optional<std::string>), 0, 0, 0) \
    X(pbw2::Q13, q, "q", STR, REQ, 1, (std::string), 0, 0, 0) \
    X(pbw2::W13, r, "r", STR, REP, 15, (std::vector<std::string>), 0, 0, 0) \
    X(pbw2::W13, x, "xa", STR, ONE<1>, 16, (std::variant<std::monostate, std::string, std::string, std::string>), 0, 0, 0) \
    X(pbw2::W13, x, "xb", STR, ONE<3>, 2048, (std::variant<std::monostate, std::string, std::string, std::string>), 0, 0, 0) \
    X(pbw2::W13, mv, "mv", STR, MAPV, 262143, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw2::W13, mk, "mk", STR, MAPK, 262144, (std::map<std::string, std::string>), 0, 0, 0) \
    X(pbw2::W14, o, "o", BYT, OPT, 2048, (std::optional<std::vector<std::byte>>), 0, 0, 0) \
    X(pbw2::Q14, q, "q", BYT, REQ, 262143, (std::vector<std::byte>), 0, 0, 0) \
    X(pbw2::W14, r, "r", BYT, REP, 262144, (std::vector<std::vector<std::byte>>), 0, 0, 0) \
    X(pbw2::W14, x, "xa", BYT, ONE<1>, 33554431, (std::variant<std::monostate, std::vector<std::byte>, std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbw2::W14, x, "xb", BYT, ONE<3>, 536870911, (std::variant<std::monostate, std::vector<std::byte>, std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbw2::W14, mv, "mv", BYT, MAPV, 18999, (std::map<int32_t, std::vector<std::byte>>), 0, 0, 0) \
    X(pbw2::W15, o, "o", ENU, OPT, 536870911, (std::optional<pbw2::E>), 0, 0, 0) \
    X(pbw2::Q15, q, "q", ENU, REQ, 18999, (pbw2::E), 0, 0, 0) \
    X(pbw2::W15, r, "r", ENU, REP, 20000, (std::vector<pbw2::E>), 0, 0, 0) \
    X(pbw2::W15, p, "p", ENU, REP, 127, (std::vector<pbw2::E>), 0, 0, 1) \
    X(pbw2::W15, u, "u", ENU, REP, 128, (std::vector<pbw2::E>), 0, 0, 0) \
    X(pbw2::W15, c, "c", ENU, REP, 31, (std::vector<pbw2::E>), 0, 0, 1) \
    X(pbw2::W15, d, "d", ENU, REP, 32, (std::vector<pbw2::E>), 0, 0, 0) \
    X(pbw2::W15, e, "e", ENU, REP, 255, (std::vector<pbw2::E>), 0, 0, 1) \
    X(pbw2::W15, x, "xa", ENU, ONE<1>, 256, (std::variant<std::monostate, pbw2::E, std::string, pbw2::E>), 0, 0, 0) \
    X(pbw2::W15, x, "xb", ENU, ONE<3>, 512, (std::variant<std::monostate, pbw2::E, std::string, pbw2::E>), 0, 0, 0) \
    X(pbw2::W15, mv, "mv", ENU, MAPV, 1023, (std::map<int32_t, pbw2::E>), 0, 0, 0) \
    X(pbw2::W16, o, "o", MSG, OPT, 31, (std::optional<pbw2::Sub>), 0, 0, 0) \
    X(pbw2::Q16, q, "q", MSG, REQ, 32, (pbw2::Sub), 0, 0, 0) \
    X(pbw2::W16, r, "r", MSG, REP, 255, (std::vector<pbw2::Sub>), 0, 0, 0) \
    X(pbw2::W16, x, "xa", MSG, ONE<1>, 256, (std::variant<std::monostate, pbw2::Sub, std::string, pbw2::Sub>), 0, 0, 0) \
    X(pbw2::W16, x, "xb", MSG, ONE<3>, 512, (std::variant<std::monostate, pbw2::Sub, std::string, pbw2::Sub>), 0, 0, 0) \
    X(pbw2::W16, mv, "mv", MSG, MAPV, 1023, (std::map<int32_t, pbw2::Sub>), 0, 0, 0) \

enum { N_WIRE2 = 184 };
#define WIRE3(X) \
    X(pbw3::W0, o, "o", I32, OPT, 536870911, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw3::W0, i, "i", I32, OPT, 18999, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw3::W0, r, "r", I32, REP, 20000, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W0, p, "p", I32, REP, 127, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W0, u, "u", I32, REP, 128, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W0, c, "c", I32, REP, 31, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W0, d, "d", I32, REP, 32, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W0, e, "e", I32, REP, 255, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W0, x, "xa", I32, ONE<1>, 256, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw3::W0, x, "xb", I32, ONE<3>, 512, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw3::W0, mv, "mv", I32, MAPV, 1023, (std::map<int32_t, int32_t>), 0, 0, 0) \
    X(pbw3::W0, mk, "mk", I32, MAPK, 1024, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw3::W1, o, "o", I64, OPT, 31, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw3::W1, i, "i", I64, OPT, 32, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw3::W1, r, "r", I64, REP, 255, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W1, p, "p", I64, REP, 256, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W1, u, "u", I64, REP, 511, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W1, c, "c", I64, REP, 512, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W1, d, "d", I64, REP, 1023, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W1, e, "e", I64, REP, 1024, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W1, x, "xa", I64, ONE<1>, 7, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw3::W1, x, "xb", I64, ONE<3>, 1, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw3::W1, mv, "mv", I64, MAPV, 15, (std::map<int32_t, int64_t>), 0, 0, 0) \
    X(pbw3::W1, mk, "mk", I64, MAPK, 16, (std::map<int64_t, std::string>), 0, 0, 0) \
    X(pbw3::W2, o, "o", U32, OPT, 512, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbw3::W2, i, "i", U32, OPT, 1023, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbw3::W2, r, "r", U32, REP, 1024, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw3::W2, p, "p", U32, REP, 7, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw3::W2, u, "u", U32, REP, 8, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw3::W2, c, "c", U32, REP, 1, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw3::W2, d, "d", U32, REP, 15, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw3::W2, e, "e", U32, REP, 16, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw3::W2, x, "xa", U32, ONE<1>, 2047, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw3::W2, x, "xb", U32, ONE<3>, 262143, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw3::W2, mv, "mv", U32, MAPV, 262144, (std::map<int32_t, uint32_t>), 0, 0, 0) \
    X(pbw3::W2, mk, "mk", U32, MAPK, 33554431, (std::map<uint32_t, std::string>), 0, 0, 0) \
    X(pbw3::W3, o, "o", U64, OPT, 1, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbw3::W3, i, "i", U64, OPT, 15, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbw3::W3, r, "r", U64, REP, 16, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw3::W3, p, "p", U64, REP, 2047, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw3::W3, u, "u", U64, REP, 2048, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw3::W3, c, "c", U64, REP, 262143, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw3::W3, d, "d", U64, REP, 262144, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw3::W3, e, "e", U64, REP, 33554431, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw3::W3, x, "xa", U64, ONE<1>, 33554432, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw3::W3, x, "xb", U64, ONE<3>, 18999, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw3::W3, mv, "mv", U64, MAPV, 20000, (std::map<int32_t, uint64_t>), 0, 0, 0) \
    X(pbw3::W3, mk, "mk", U64, MAPK, 127, (std::map<uint64_t, std::string>), 0, 0, 0) \
    X(pbw3::W4, o, "o", S32, OPT, 262143, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw3::W4, i, "i", S32, OPT, 262144, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw3::W4, r, "r", S32, REP, 33554431, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W4, p, "p", S32, REP, 33554432, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W4, u, "u", S32, REP, 536870911, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W4, c, "c", S32, REP, 18999, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W4, d, "d", S32, REP, 20000, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W4, e, "e", S32, REP, 127, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W4, x, "xa", S32, ONE<1>, 128, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw3::W4, x, "xb", S32, ONE<3>, 32, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw3::W4, mv, "mv", S32, MAPV, 255, (std::map<int32_t, int32_t>), 0, 0, 0) \
    X(pbw3::W4, mk, "mk", S32, MAPK, 256, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw3::W5, o, "o", S64, OPT, 18999, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw3::W5, i, "i", S64, OPT, 20000, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw3::W5, r, "r", S64, REP, 127, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W5, p, "p", S64, REP, 128, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W5, u, "u", S64, REP, 31, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W5, c, "c", S64, REP, 32, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W5, d, "d", S64, REP, 255, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W5, e, "e", S64, REP, 256, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W5, x, "xa", S64, ONE<1>, 511, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw3::W5, x, "xb", S64, ONE<3>, 1023, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw3::W5, mv, "mv", S64, MAPV, 1024, (std::map<int32_t, int64_t>), 0, 0, 0) \
    X(pbw3::W5, mk, "mk", S64, MAPK, 7, (std::map<int64_t, std::string>), 0, 0, 0) \
    X(pbw3::W6, o, "o", BOO, OPT, 32, (std::optional<bool>), 0, 0, 0) \
    X(pbw3::W6, i, "i", BOO, OPT, 255, (std::optional<bool>), 0, 0, 0) \
    X(pbw3::W6, r, "r", BOO, REP, 256, (std::vector<bool>), 0, 0, 1) \
    X(pbw3::W6, p, "p", BOO, REP, 511, (std::vector<bool>), 0, 0, 1) \
    X(pbw3::W6, u, "u", BOO, REP, 512, (std::vector<bool>), 0, 0, 0) \
    X(pbw3::W6, c, "c", BOO, REP, 1023, (std::vector<bool>), 0, 0, 1) \
    X(pbw3::W6, d, "d", BOO, REP, 1024, (std::vector<bool>), 0, 0, 0) \
    X(pbw3::W6, e, "e", BOO, REP, 7, (std::vector<bool>), 0, 0, 0) \
    X(pbw3::W6, x, "xa", BOO, ONE<1>, 8, (std::variant<std::monostate, bool, std::string, bool>), 0, 0, 0) \
    X(pbw3::W6, x, "xb", BOO, ONE<3>, 15, (std::variant<std::monostate, bool, std::string, bool>), 0, 0, 0) \
    X(pbw3::W6, mv, "mv", BOO, MAPV, 16, (std::map<int32_t, bool>), 0, 0, 0) \
    X(pbw3::W6, mk, "mk", BOO, MAPK, 2047, (std::map<bool, std::string>), 0, 0, 0) \
    X(pbw3::W7, o, "o", F32, OPT, 1023, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbw3::W7, i, "i", F32, OPT, 1024, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbw3::W7, r, "r", F32, REP, 7, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw3::W7, p, "p", F32, REP, 8, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw3::W7, u, "u", F32, REP, 1, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw3::W7, c, "c", F32, REP, 15, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbw3::W7, d, "d", F32, REP, 16, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw3::W7, e, "e", F32, REP, 2047, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbw3::W7, x, "xa", F32, ONE<1>, 2048, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw3::W7, x, "xb", F32, ONE<3>, 262144, (std::variant<std::monostate, uint32_t, std::string, uint32_t>), 0, 0, 0) \
    X(pbw3::W7, mv, "mv", F32, MAPV, 33554431, (std::map<int32_t, uint32_t>), 0, 0, 0) \
    X(pbw3::W7, mk, "mk", F32, MAPK, 33554432, (std::map<uint32_t, std::string>), 0, 0, 0) \
    X(pbw3::W8, o, "o", F64, OPT, 15, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbw3::W8, i, "i", F64, OPT, 16, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbw3::W8, r, "r", F64, REP, 2047, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw3::W8, p, "p", F64, REP, 2048, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw3::W8, u, "u", F64, REP, 262143, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw3::W8, c, "c", F64, REP, 262144, (std::vector<uint64_t>), 0, 0, 1) \
    X(pbw3::W8, d, "d", F64, REP, 33554431, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw3::W8, e, "e", F64, REP, 33554432, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbw3::W8, x, "xa", F64, ONE<1>, 536870911, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw3::W8, x, "xb", F64, ONE<3>, 20000, (std::variant<std::monostate, uint64_t, std::string, uint64_t>), 0, 0, 0) \
    X(pbw3::W8, mv, "mv", F64, MAPV, 127, (std::map<int32_t, uint64_t>), 0, 0, 0) \
    X(pbw3::W8, mk, "mk", F64, MAPK, 128, (std::map<uint64_t, std::string>), 0, 0, 0) \
    X(pbw3::W9, o, "o", SF32, OPT, 262144, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw3::W9, i, "i", SF32, OPT, 33554431, (std::optional<int32_t>), 0, 0, 0) \
    X(pbw3::W9, r, "r", SF32, REP, 33554432, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W9, p, "p", SF32, REP, 536870911, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W9, u, "u", SF32, REP, 18999, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W9, c, "c", SF32, REP, 20000, (std::vector<int32_t>), 0, 0, 1) \
    X(pbw3::W9, d, "d", SF32, REP, 127, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W9, e, "e", SF32, REP, 128, (std::vector<int32_t>), 0, 0, 0) \
    X(pbw3::W9, x, "xa", SF32, ONE<1>, 31, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw3::W9, x, "xb", SF32, ONE<3>, 255, (std::variant<std::monostate, int32_t, std::string, int32_t>), 0, 0, 0) \
    X(pbw3::W9, mv, "mv", SF32, MAPV, 256, (std::map<int32_t, int32_t>), 0, 0, 0) \
    X(pbw3::W9, mk, "mk", SF32, MAPK, 511, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw3::W10, o, "o", SF64, OPT, 20000, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw3::W10, i, "i", SF64, OPT, 127, (std::optional<int64_t>), 0, 0, 0) \
    X(pbw3::W10, r, "r", SF64, REP, 128, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W10, p, "p", SF64, REP, 31, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W10, u, "u", SF64, REP, 32, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W10, c, "c", SF64, REP, 255, (std::vector<int64_t>), 0, 0, 1) \
    X(pbw3::W10, d, "d", SF64, REP, 256, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W10, e, "e", SF64, REP, 511, (std::vector<int64_t>), 0, 0, 0) \
    X(pbw3::W10, x, "xa", SF64, ONE<1>, 512, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw3::W10, x, "xb", SF64, ONE<3>, 1024, (std::variant<std::monostate, int64_t, std::string, int64_t>), 0, 0, 0) \
    X(pbw3::W10, mv, "mv", SF64, MAPV, 7, (std::map<int32_t, int64_t>), 0, 0, 0) \
    X(pbw3::W10, mk, "mk", SF64, MAPK, 8, (std::map<int64_t, std::string>), 0, 0, 0) \
    X(pbw3::W11, o, "o", FLT, OPT, 255, (std::optional<float>), 0, 0, 0) \
    X(pbw3::W11, i, "i", FLT, OPT, 256, (std::optional<float>), 0, 0, 0) \
    X(pbw3::W11, r, "r", FLT, REP, 511, (std::vector<float>), 0, 0, 1) \
    X(pbw3::W11, p, "p", FLT, REP, 512, (std::vector<float>), 0, 0, 1) \
    X(pbw3::W11, u, "u", FLT, REP, 1023, (std::vector<float>), 0, 0, 0) \
    X(pbw3::W11, c, "c", FLT, REP, 1024, (std::vector<float>), 0, 0, 1) \
    X(pbw3::W11, d, "d", FLT, REP, 7, (std::vector<float>), 0, 0, 0) \
    X(pbw3::W11, e, "e", FLT, REP, 8, (std::vector<float>), 0, 0, 0) \
    X(pbw3::W11, x, "xa", FLT, ONE<1>, 1, (std::variant<std::monostate, float, std::string, float>), 0, 0, 0) \
    X(pbw3::W11, x, "xb", FLT, ONE<3>, 16, (std::variant<std::monostate, float, std::string, float>), 0, 0, 0) \
    X(pbw3::W11, mv, "mv", FLT, MAPV, 2047, (std::map<int32_t, float>), 0, 0, 0) \
    X(pbw3::W12, o, "o", DBL, OPT, 1024, (std::optional<double>), 0, 0, 0) \
    X(pbw3::W12, i, "i", DBL, OPT, 7, (std::optional<double>), 0, 0, 0) \
    X(pbw3::W12, r, "r", DBL, REP, 8, (std::vector<double>), 0, 0, 1) \
    X(pbw3::W12, p, "p", DBL, REP, 1, (std::vector<double>), 0, 0, 1) \
    X(pbw3::W12, u, "u", DBL, REP, 15, (std::vector<double>), 0, 0, 0) \
    X(pbw3::W12, c, "c", DBL, REP, 16, (std::vector<double>), 0, 0, 1) \
    X(pbw3::W12, d, "d", DBL, REP, 2047, (std::vector<double>), 0, 0, 0) \
    X(pbw3::W12, e, "e", DBL, REP, 2048, (std::vector<double>), 0, 0, 0) \
    X(pbw3::W12, x, "xa", DBL, ONE<1>, 262143, (std::variant<std::monostate, double, std::string, double>), 0, 0, 0) \
    X(pbw3::W12, x, "xb", DBL, ONE<3>, 33554431, (std::variant<std::monostate, double, std::string, double>), 0, 0, 0) \
    X(pbw3::W12, mv, "mv", DBL, MAPV, 33554432, (std::map<int32_t, double>), 0, 0, 0) \
    X(pbw3::W13, o, "o", STR, OPT, 16, (std::optional<std::string>), 0, 0, 0) \
    X(pbw3::W13, i, "i", STR, OPT, 2047, (std::optional<std::string>), 0, 0, 0) \
    X(pbw3::W13, r, "r", STR, REP, 2048, (std::vector<std::string>), 0, 0, 0) \
    X(pbw3::W13, x, "xa", STR, ONE<1>, 262143, (std::variant<std::monostate, std::string, std::string, std::string>), 0, 0, 0) \
    X(pbw3::W13, x, "xb", STR, ONE<3>, 33554431, (std::variant<std::monostate, std::string, std::string, std::string>), 0, 0, 0) \
    X(pbw3::W13, mv, "mv", STR, MAPV, 33554432, (std::map<int32_t, std::string>), 0, 0, 0) \
    X(pbw3::W13, mk, "mk", STR, MAPK, 536870911, (std::map<std::string, std::string>), 0, 0, 0) \
    X(pbw3::W14, o, "o", BYT, OPT, 33554431, (std::optional<std::vector<std::byte>>), 0, 0, 0) \
    X(pbw3::W14, i, "i", BYT, OPT, 33554432, (std::optional<std::vector<std::byte>>), 0, 0, 0) \
    X(pbw3::W14, r, "r", BYT, REP, 536870911, (std::vector<std::vector<std::byte>>), 0, 0, 0) \
    X(pbw3::W14, x, "xa", BYT, ONE<1>, 18999, (std::variant<std::monostate, std::vector<std::byte>, std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbw3::W14, x, "xb", BYT, ONE<3>, 127, (std::variant<std::monostate, std::vector<std::byte>, std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbw3::W14, mv, "mv", BYT, MAPV, 128, (std::map<int32_t, std::vector<std::byte>>), 0, 0, 0) \
    X(pbw3::W15, o, "o", ENU, OPT, 127, (std::optional<pbw3::E>), 0, 0, 0) \
    X(pbw3::W15, i, "i", ENU, OPT, 128, (std::optional<pbw3::E>), 0, 0, 0) \
    X(pbw3::W15, r, "r", ENU, REP, 31, (std::vector<pbw3::E>), 0, 0, 1) \
    X(pbw3::W15, p, "p", ENU, REP, 32, (std::vector<pbw3::E>), 0, 0, 1) \
    X(pbw3::W15, u, "u", ENU, REP, 255, (std::vector<pbw3::E>), 0, 0, 0) \
    X(pbw3::W15, c, "c", ENU, REP, 256, (std::vector<pbw3::E>), 0, 0, 1) \
    X(pbw3::W15, d, "d", ENU, REP, 511, (std::vector<pbw3::E>), 0, 0, 0) \
    X(pbw3::W15, e, "e", ENU, REP, 512, (std::vector<pbw3::E>), 0, 0, 0) \
    X(pbw3::W15, x, "xa", ENU, ONE<1>, 1023, (std::variant<std::monostate, pbw3::E, std::string, pbw3::E>), 0, 0, 0) \
    X(pbw3::W15, x, "xb", ENU, ONE<3>, 7, (std::variant<std::monostate, pbw3::E, std::string, pbw3::E>), 0, 0, 0) \
    X(pbw3::W15, mv, "mv", ENU, MAPV, 8, (std::map<int32_t, pbw3::E>), 0, 0, 0) \
    X(pbw3::W16, o, "o", MSG, OPT, 256, (std::optional<pbw3::Sub>), 0, 0, 0) \
    X(pbw3::W16, i, "i", MSG, OPT, 511, (std::optional<pbw3::Sub>), 0, 0, 0) \
    X(pbw3::W16, r, "r", MSG, REP, 512, (std::vector<pbw3::Sub>), 0, 0, 0) \
    X(pbw3::W16, x, "xa", MSG, ONE<1>, 1023, (std::variant<std::monostate, pbw3::Sub, std::string, pbw3::Sub>), 0, 0, 0) \
    X(pbw3::W16, x, "xb", MSG, ONE<3>, 7, (std::variant<std::monostate, pbw3::Sub, std::string, pbw3::Sub>), 0, 0, 0) \
    X(pbw3::W16, mv, "mv", MSG, MAPV, 8, (std::map<int32_t, pbw3::Sub>), 0, 0, 0) \

enum { N_WIRE3 = 184 };
#define ENUMS0(E) \
    E(pbs0::Top, int32_t) \
    E(pbs0::TopO, int8_t) \
    E(pbs0::TopC, uint16_t) \
    E(pbs0::M0::In, int32_t) \
    E(pbs0::M0::InO, int8_t) \
    E(pbs0::M0::InC, int8_t) \
    E(pbs0::M1::In, uint8_t) \
    E(pbs0::M1::InO, int8_t) \
    E(pbs0::M1::InC, int8_t) \
    E(pbs0::M2::In, uint8_t) \
    E(pbs0::M2::InO, int8_t) \
    E(pbs0::M2::InC, int8_t) \
    E(pbs0::M3::In, uint8_t) \
    E(pbs0::M3::InO, int8_t) \
    E(pbs0::M3::InC, int8_t) \

enum { N_ENUMS0 = 15 };
#define OPTS0(X) \
    X(pbs0::M0, o0, "o0", I32, OPT, 1, (std::optional<int32_t>), 0, 0, 0) \
    X(pbs0::M0, os0, "os0", STR, OPT, 2, (std::optional<std::string>), 0, 0, 0) \
    X(pbs0::M0, ob0, "ob0", BYT, OPT, 3, (std::optional<std::vector<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, qs0, "qs0", STR, REQ, 4, (std::string), 0, 0, 0) \
    X(pbs0::M0, qb0, "qb0", BYT, REQ, 5, (std::vector<std::byte>), 0, 0, 0) \
    X(pbs0::M0, ri0, "ri0", S32, REP, 6, (std::vector<int32_t>), 0, 0, 0) \
    X(pbs0::M0, rp0, "rp0", F32, REP, 7, (std::vector<uint32_t>), 0, 0, 1) \
    X(pbs0::M0, rs0, "rs0", STR, REP, 8, (std::vector<std::string>), 0, 0, 0) \
    X(pbs0::M0, rb0, "rb0", BYT, REP, 9, (std::vector<std::vector<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, rm0, "rm0", MSG, REP, 10, (std::vector<pbs0::Sub>), 0, 0, 0) \
    X(pbs0::M0, p0, "p0", MSG, PTR, 11, (std::unique_ptr<pbs0::M0>), 0, 0, 0) \
    X(pbs0::M0, m0, "m0", BYT, MAPS, 12, (std::map<std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M0, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M0, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs0::M0, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M0, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M0, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M0, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M0, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M0, rm1, "rm1", MSG, REP, 24, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M0, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs0::M0>>), 0, 0, 0) \
    X(pbs0::M0, m1, "m1", BYT, MAPS, 26, (XMap<std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M0, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M0, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs0::M0, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M0, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M0, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M0, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M0, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M0, rm2, "rm2", MSG, REP, 38, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M0, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs0::M0>>), 0, 0, 0) \
    X(pbs0::M0, m2, "m2", BYT, MAPS, 40, (XMap<std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, o3, "o3", I32, OPT, 43, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M0, os3, "os3", STR, OPT, 44, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M0, ob3, "ob3", BYT, OPT, 45, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, qs3, "qs3", STR, REQ, 46, (XStr), 1, 0, 0) \
    X(pbs0::M0, qb3, "qb3", BYT, REQ, 47, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M0, ri3, "ri3", S32, REP, 48, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M0, rp3, "rp3", F32, REP, 49, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M0, rs3, "rs3", STR, REP, 50, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M0, rb3, "rb3", BYT, REP, 51, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M0, rm3, "rm3", MSG, REP, 52, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M0, p3, "p3", MSG, PTR, 53, (std::unique_ptr<XBox<pbs0::M0>>), 0, 0, 0) \
    X(pbs0::M0, m3, "m3", BYT, MAPS, 54, (XMap<std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, os4, "os4", STR, OPT, 57, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M0, ob4, "ob4", BYT, OPT, 58, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, qs4, "qs4", STR, REQ, 59, (XStr), 1, 0, 0) \
    X(pbs0::M0, qb4, "qb4", BYT, REQ, 60, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M0, ri4, "ri4", S32, REP, 61, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M0, rp4, "rp4", F32, REP, 62, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M0, rs4, "rs4", STR, REP, 63, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M0, rb4, "rb4", BYT, REP, 64, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M0, rm4, "rm4", MSG, REP, 65, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M0, os5, "os5", STR, OPT, 68, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M0, ob5, "ob5", BYT, OPT, 69, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, qs5, "qs5", STR, REQ, 70, (XStr), 1, 0, 0) \
    X(pbs0::M0, qb5, "qb5", BYT, REQ, 71, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M0, ri5, "ri5", S32, REP, 72, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M0, rp5, "rp5", F32, REP, 73, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M0, rs5, "rs5", STR, REP, 74, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M0, rb5, "rb5", BYT, REP, 75, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M0, rm5, "rm5", MSG, REP, 76, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M0, o6, "o6", I32, OPT, 79, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M0, os6, "os6", STR, OPT, 80, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M0, ob6, "ob6", BYT, OPT, 81, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, qs6, "qs6", STR, REQ, 82, (XStr), 1, 0, 0) \
    X(pbs0::M0, qb6, "qb6", BYT, REQ, 83, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M0, ri6, "ri6", S32, REP, 84, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M0, rp6, "rp6", F32, REP, 85, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M0, rs6, "rs6", STR, REP, 86, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M0, rb6, "rb6", BYT, REP, 87, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M0, rm6, "rm6", MSG, REP, 88, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M0, p6, "p6", MSG, PTR, 89, (std::unique_ptr<XBox<pbs0::M0>>), 0, 0, 0) \
    X(pbs0::M0, m6, "m6", BYT, MAPS, 90, (XMap<std::string, std::vector<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M0, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xs3", STR, ONE<7>, 55, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xb3", BYT, ONE<8>, 56, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xs4", STR, ONE<9>, 66, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xb4", BYT, ONE<10>, 67, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xs5", STR, ONE<11>, 77, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xb5", BYT, ONE<12>, 78, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xs6", STR, ONE<13>, 91, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M0, x, "xb6", BYT, ONE<14>, 92, (std::variant<std::monostate, std::string, std::vector<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M1, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M1, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs0::M1, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M1, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs0::M1, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs0::M1, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs0::M1, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs0::M1, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs0::M1, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs0::M1, rm0, "rm0", MSG, REP, 10, (MVec<pbs0::Sub>), 0, 2, 0) \
    X(pbs0::M1, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs0::M1>>), 0, 0, 0) \
    X(pbs0::M1, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M1, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M1, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M1, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M1, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs0::M1, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M1, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M1, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M1, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M1, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M1, rm1, "rm1", MSG, REP, 24, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M1, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs0::M1>>), 0, 0, 0) \
    X(pbs0::M1, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M1, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M1, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M1, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M1, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs0::M1, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M1, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M1, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M1, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M1, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M1, rm2, "rm2", MSG, REP, 38, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M1, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs0::M1>>), 0, 0, 0) \
    X(pbs0::M1, m2, "m2", BYT, MAPS, 40, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M1, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M1, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M1, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M1, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M1, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M1, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M2, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M2, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs0::M2, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M2, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs0::M2, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs0::M2, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs0::M2, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs0::M2, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs0::M2, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs0::M2, rm0, "rm0", MSG, REP, 10, (MVec<pbs0::Sub>), 0, 2, 0) \
    X(pbs0::M2, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs0::M2>>), 0, 0, 0) \
    X(pbs0::M2, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M2, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M2, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M2, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M2, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs0::M2, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M2, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M2, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M2, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M2, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M2, rm1, "rm1", MSG, REP, 24, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M2, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs0::M2>>), 0, 0, 0) \
    X(pbs0::M2, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M2, os2, "os2", STR, OPT, 29, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M2, ob2, "ob2", BYT, OPT, 30, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M2, qs2, "qs2", STR, REQ, 31, (XStr), 1, 0, 0) \
    X(pbs0::M2, qb2, "qb2", BYT, REQ, 32, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M2, ri2, "ri2", S32, REP, 33, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M2, rp2, "rp2", F32, REP, 34, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M2, rs2, "rs2", STR, REP, 35, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M2, rb2, "rb2", BYT, REP, 36, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M2, rm2, "rm2", MSG, REP, 37, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M2, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M2, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M2, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M2, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M2, x, "xs2", STR, ONE<5>, 38, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M2, x, "xb2", BYT, ONE<6>, 39, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M3, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M3, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs0::M3, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M3, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs0::M3, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs0::M3, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs0::M3, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs0::M3, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs0::M3, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs0::M3, rm0, "rm0", MSG, REP, 10, (MVec<pbs0::Sub>), 0, 2, 0) \
    X(pbs0::M3, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs0::M3>>), 0, 0, 0) \
    X(pbs0::M3, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M3, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M3, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M3, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M3, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs0::M3, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M3, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M3, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M3, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M3, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M3, rm1, "rm1", MSG, REP, 24, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M3, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs0::M3>>), 0, 0, 0) \
    X(pbs0::M3, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M3, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs0::M3, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs0::M3, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M3, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs0::M3, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs0::M3, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs0::M3, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs0::M3, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs0::M3, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs0::M3, rm2, "rm2", MSG, REP, 38, (XVec<pbs0::Sub>), 0, 1, 0) \
    X(pbs0::M3, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs0::M3>>), 0, 0, 0) \
    X(pbs0::M3, m2, "m2", BYT, MAPS, 40, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs0::M3, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M3, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs0::M3, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M3, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M3, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs0::M3, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \

enum { N_OPTS0 = 215 };
#define ENUMS1(E) \
    E(pbs1::Top, int16_t) \
    E(pbs1::TopO, int8_t) \
    E(pbs1::TopC, uint16_t) \
    E(pbs1::M0::In, int16_t) \
    E(pbs1::M0::InO, int8_t) \
    E(pbs1::M0::InC, int8_t) \
    E(pbs1::M1::In, uint8_t) \
    E(pbs1::M1::InO, int8_t) \
    E(pbs1::M1::InC, int8_t) \
    E(pbs1::M2::In, uint8_t) \
    E(pbs1::M2::InO, int8_t) \
    E(pbs1::M2::InC, int8_t) \
    E(pbs1::M3::In, uint8_t) \
    E(pbs1::M3::InO, int8_t) \
    E(pbs1::M3::InC, int8_t) \

enum { N_ENUMS1 = 15 };
#define OPTS1(X) \
    X(pbs1::M0, o0, "o0", I32, OPT, 1, (FOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M0, os0, "os0", STR, OPT, 2, (FOpt<FStr>), 3, 0, 0) \
    X(pbs1::M0, ob0, "ob0", BYT, OPT, 3, (FOpt<FByt<std::byte>>), 3, 0, 0) \
    X(pbs1::M0, qs0, "qs0", STR, REQ, 4, (FStr), 3, 0, 0) \
    X(pbs1::M0, qb0, "qb0", BYT, REQ, 5, (FByt<std::byte>), 3, 0, 0) \
    X(pbs1::M0, ri0, "ri0", S32, REP, 6, (FVec<int32_t>), 0, 3, 0) \
    X(pbs1::M0, rp0, "rp0", F32, REP, 7, (FVec<uint32_t>), 0, 3, 1) \
    X(pbs1::M0, rs0, "rs0", STR, REP, 8, (FVec<FStr>), 3, 3, 0) \
    X(pbs1::M0, rb0, "rb0", BYT, REP, 9, (FVec<FByt<std::byte>>), 3, 3, 0) \
    X(pbs1::M0, rm0, "rm0", MSG, REP, 10, (FVec<pbs1::Sub>), 0, 3, 0) \
    X(pbs1::M0, p0, "p0", MSG, PTR, 11, (std::unique_ptr<FBox<pbs1::M0>>), 0, 0, 0) \
    X(pbs1::M0, m0, "m0", BYT, MAPS, 12, (FMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M0, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M0, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M0, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M0, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs1::M0, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M0, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M0, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M0, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M0, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M0, rm1, "rm1", MSG, REP, 24, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M0, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs1::M0>>), 0, 0, 0) \
    X(pbs1::M0, m1, "m1", BYT, MAPS, 26, (XMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M0, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M0, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M0, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M0, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs1::M0, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M0, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M0, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M0, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M0, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M0, rm2, "rm2", MSG, REP, 38, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M0, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs1::M0>>), 0, 0, 0) \
    X(pbs1::M0, m2, "m2", BYT, MAPS, 40, (XMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M0, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 3, 0, 0) \
    X(pbs1::M0, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 3, 0, 0) \
    X(pbs1::M0, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M0, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M0, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M0, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M1, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs1::M1, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M1, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs1::M1, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs1::M1, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs1::M1, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs1::M1, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs1::M1, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs1::M1, rm0, "rm0", MSG, REP, 10, (MVec<pbs1::Sub>), 0, 2, 0) \
    X(pbs1::M1, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs1::M1>>), 0, 0, 0) \
    X(pbs1::M1, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M1, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M1, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M1, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs1::M1, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M1, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M1, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M1, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M1, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M1, rm1, "rm1", MSG, REP, 24, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M1, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs1::M1>>), 0, 0, 0) \
    X(pbs1::M1, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M1, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M1, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M1, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs1::M1, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M1, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M1, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M1, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M1, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M1, rm2, "rm2", MSG, REP, 38, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M1, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs1::M1>>), 0, 0, 0) \
    X(pbs1::M1, m2, "m2", BYT, MAPS, 40, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M1, o3, "o3", I32, OPT, 43, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M1, os3, "os3", STR, OPT, 44, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M1, ob3, "ob3", BYT, OPT, 45, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, qs3, "qs3", STR, REQ, 46, (XStr), 1, 0, 0) \
    X(pbs1::M1, qb3, "qb3", BYT, REQ, 47, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M1, ri3, "ri3", S32, REP, 48, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M1, rp3, "rp3", F32, REP, 49, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M1, rs3, "rs3", STR, REP, 50, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M1, rb3, "rb3", BYT, REP, 51, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M1, rm3, "rm3", MSG, REP, 52, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M1, p3, "p3", MSG, PTR, 53, (std::unique_ptr<XBox<pbs1::M1>>), 0, 0, 0) \
    X(pbs1::M1, m3, "m3", BYT, MAPS, 54, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M1, os4, "os4", STR, OPT, 57, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M1, ob4, "ob4", BYT, OPT, 58, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, qs4, "qs4", STR, REQ, 59, (XStr), 1, 0, 0) \
    X(pbs1::M1, qb4, "qb4", BYT, REQ, 60, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M1, ri4, "ri4", S32, REP, 61, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M1, rp4, "rp4", F32, REP, 62, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M1, rs4, "rs4", STR, REP, 63, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M1, rb4, "rb4", BYT, REP, 64, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M1, rm4, "rm4", MSG, REP, 65, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M1, os5, "os5", STR, OPT, 68, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M1, ob5, "ob5", BYT, OPT, 69, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, qs5, "qs5", STR, REQ, 70, (XStr), 1, 0, 0) \
    X(pbs1::M1, qb5, "qb5", BYT, REQ, 71, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M1, ri5, "ri5", S32, REP, 72, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M1, rp5, "rp5", F32, REP, 73, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M1, rs5, "rs5", STR, REP, 74, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M1, rb5, "rb5", BYT, REP, 75, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M1, rm5, "rm5", MSG, REP, 76, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M1, o6, "o6", I32, OPT, 79, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M1, os6, "os6", STR, OPT, 80, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M1, ob6, "ob6", BYT, OPT, 81, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, qs6, "qs6", STR, REQ, 82, (XStr), 1, 0, 0) \
    X(pbs1::M1, qb6, "qb6", BYT, REQ, 83, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M1, ri6, "ri6", S32, REP, 84, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M1, rp6, "rp6", F32, REP, 85, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M1, rs6, "rs6", STR, REP, 86, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M1, rb6, "rb6", BYT, REP, 87, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M1, rm6, "rm6", MSG, REP, 88, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M1, p6, "p6", MSG, PTR, 89, (std::unique_ptr<XBox<pbs1::M1>>), 0, 0, 0) \
    X(pbs1::M1, m6, "m6", BYT, MAPS, 90, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M1, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M1, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M1, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xs3", STR, ONE<7>, 55, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xb3", BYT, ONE<8>, 56, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xs4", STR, ONE<9>, 66, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xb4", BYT, ONE<10>, 67, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xs5", STR, ONE<11>, 77, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xb5", BYT, ONE<12>, 78, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xs6", STR, ONE<13>, 91, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M1, x, "xb6", BYT, ONE<14>, 92, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M2, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M2, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs1::M2, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M2, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs1::M2, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs1::M2, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs1::M2, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs1::M2, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs1::M2, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs1::M2, rm0, "rm0", MSG, REP, 10, (MVec<pbs1::Sub>), 0, 2, 0) \
    X(pbs1::M2, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs1::M2>>), 0, 0, 0) \
    X(pbs1::M2, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M2, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M2, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M2, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M2, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs1::M2, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M2, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M2, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M2, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M2, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M2, rm1, "rm1", MSG, REP, 24, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M2, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs1::M2>>), 0, 0, 0) \
    X(pbs1::M2, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M2, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M2, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M2, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M2, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs1::M2, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M2, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M2, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M2, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M2, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M2, rm2, "rm2", MSG, REP, 38, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M2, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs1::M2>>), 0, 0, 0) \
    X(pbs1::M2, m2, "m2", BYT, MAPS, 40, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M2, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M2, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M2, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M2, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M2, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M2, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M3, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M3, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs1::M3, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M3, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs1::M3, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs1::M3, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs1::M3, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs1::M3, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs1::M3, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs1::M3, rm0, "rm0", MSG, REP, 10, (MVec<pbs1::Sub>), 0, 2, 0) \
    X(pbs1::M3, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs1::M3>>), 0, 0, 0) \
    X(pbs1::M3, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M3, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs1::M3, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M3, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M3, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs1::M3, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M3, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M3, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M3, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M3, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M3, rm1, "rm1", MSG, REP, 24, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M3, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs1::M3>>), 0, 0, 0) \
    X(pbs1::M3, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs1::M3, os2, "os2", STR, OPT, 29, (XOpt<XStr>), 1, 0, 0) \
    X(pbs1::M3, ob2, "ob2", BYT, OPT, 30, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M3, qs2, "qs2", STR, REQ, 31, (XStr), 1, 0, 0) \
    X(pbs1::M3, qb2, "qb2", BYT, REQ, 32, (XByt<std::byte>), 1, 0, 0) \
    X(pbs1::M3, ri2, "ri2", S32, REP, 33, (XVec<int32_t>), 0, 1, 0) \
    X(pbs1::M3, rp2, "rp2", F32, REP, 34, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs1::M3, rs2, "rs2", STR, REP, 35, (XVec<XStr>), 1, 1, 0) \
    X(pbs1::M3, rb2, "rb2", BYT, REP, 36, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs1::M3, rm2, "rm2", MSG, REP, 37, (XVec<pbs1::Sub>), 0, 1, 0) \
    X(pbs1::M3, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M3, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs1::M3, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M3, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M3, x, "xs2", STR, ONE<5>, 38, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs1::M3, x, "xb2", BYT, ONE<6>, 39, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \

enum { N_OPTS1 = 215 };
#define ENUMS2(E) \
    E(pbs2::Top, int16_t) \
    E(pbs2::TopO, int8_t) \
    E(pbs2::TopC, uint16_t) \
    E(pbs2::M0::In, int16_t) \
    E(pbs2::M0::InO, int8_t) \
    E(pbs2::M0::InC, int8_t) \
    E(pbs2::M1::In, uint8_t) \
    E(pbs2::M1::InO, int8_t) \
    E(pbs2::M1::InC, int8_t) \
    E(pbs2::M2::In, uint8_t) \
    E(pbs2::M2::InO, int8_t) \
    E(pbs2::M2::InC, int8_t) \

enum { N_ENUMS2 = 12 };
#define OPTS2(X) \
    X(pbs2::M0, o0, "o0", I32, OPT, 1, (FOpt<int32_t>), 0, 0, 0) \
    X(pbs2::M0, os0, "os0", STR, OPT, 2, (FOpt<FStr>), 3, 0, 0) \
    X(pbs2::M0, ob0, "ob0", BYT, OPT, 3, (FOpt<FByt<std::byte>>), 3, 0, 0) \
    X(pbs2::M0, qs0, "qs0", STR, REQ, 4, (FStr), 3, 0, 0) \
    X(pbs2::M0, qb0, "qb0", BYT, REQ, 5, (FByt<std::byte>), 3, 0, 0) \
    X(pbs2::M0, ri0, "ri0", S32, REP, 6, (FVec<int32_t>), 0, 3, 0) \
    X(pbs2::M0, rp0, "rp0", F32, REP, 7, (FVec<uint32_t>), 0, 3, 1) \
    X(pbs2::M0, rs0, "rs0", STR, REP, 8, (FVec<FStr>), 3, 3, 0) \
    X(pbs2::M0, rb0, "rb0", BYT, REP, 9, (FVec<FByt<std::byte>>), 3, 3, 0) \
    X(pbs2::M0, rm0, "rm0", MSG, REP, 10, (FVec<pbs2::Sub>), 0, 3, 0) \
    X(pbs2::M0, p0, "p0", MSG, PTR, 11, (std::unique_ptr<FBox<pbs2::M0>>), 0, 0, 0) \
    X(pbs2::M0, m0, "m0", BYT, MAPS, 12, (FMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs2::M0, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs2::M0, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs2::M0, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M0, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs2::M0, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs2::M0, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs2::M0, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs2::M0, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs2::M0, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs2::M0, rm1, "rm1", MSG, REP, 24, (XVec<pbs2::Sub>), 0, 1, 0) \
    X(pbs2::M0, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs2::M0>>), 0, 0, 0) \
    X(pbs2::M0, m1, "m1", BYT, MAPS, 26, (XMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs2::M0, os2, "os2", STR, OPT, 29, (XOpt<XStr>), 1, 0, 0) \
    X(pbs2::M0, ob2, "ob2", BYT, OPT, 30, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M0, qs2, "qs2", STR, REQ, 31, (XStr), 1, 0, 0) \
    X(pbs2::M0, qb2, "qb2", BYT, REQ, 32, (XByt<std::byte>), 1, 0, 0) \
    X(pbs2::M0, ri2, "ri2", S32, REP, 33, (XVec<int32_t>), 0, 1, 0) \
    X(pbs2::M0, rp2, "rp2", F32, REP, 34, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs2::M0, rs2, "rs2", STR, REP, 35, (XVec<XStr>), 1, 1, 0) \
    X(pbs2::M0, rb2, "rb2", BYT, REP, 36, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs2::M0, rm2, "rm2", MSG, REP, 37, (XVec<pbs2::Sub>), 0, 1, 0) \
    X(pbs2::M0, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 3, 0, 0) \
    X(pbs2::M0, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 3, 0, 0) \
    X(pbs2::M0, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M0, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M0, x, "xs2", STR, ONE<5>, 38, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M0, x, "xb2", BYT, ONE<6>, 39, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M1, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs2::M1, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs2::M1, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs2::M1, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs2::M1, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs2::M1, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs2::M1, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs2::M1, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs2::M1, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs2::M1, rm0, "rm0", MSG, REP, 10, (MVec<pbs2::Sub>), 0, 2, 0) \
    X(pbs2::M1, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs2::M1>>), 0, 0, 0) \
    X(pbs2::M1, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs2::M1, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs2::M1, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs2::M1, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M1, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs2::M1, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs2::M1, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs2::M1, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs2::M1, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs2::M1, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs2::M1, rm1, "rm1", MSG, REP, 24, (XVec<pbs2::Sub>), 0, 1, 0) \
    X(pbs2::M1, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs2::M1>>), 0, 0, 0) \
    X(pbs2::M1, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs2::M1, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs2::M1, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs2::M1, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M1, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs2::M1, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs2::M1, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs2::M1, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs2::M1, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs2::M1, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs2::M1, rm2, "rm2", MSG, REP, 38, (XVec<pbs2::Sub>), 0, 1, 0) \
    X(pbs2::M1, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs2::M1>>), 0, 0, 0) \
    X(pbs2::M1, m2, "m2", BYT, MAPS, 40, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs2::M1, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs2::M1, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs2::M1, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M1, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M1, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M1, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M2, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs2::M2, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs2::M2, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs2::M2, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs2::M2, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs2::M2, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs2::M2, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs2::M2, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs2::M2, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs2::M2, rm0, "rm0", MSG, REP, 10, (MVec<pbs2::Sub>), 0, 2, 0) \
    X(pbs2::M2, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs2::M2>>), 0, 0, 0) \
    X(pbs2::M2, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs2::M2, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs2::M2, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs2::M2, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M2, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs2::M2, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs2::M2, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs2::M2, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs2::M2, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs2::M2, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs2::M2, rm1, "rm1", MSG, REP, 24, (XVec<pbs2::Sub>), 0, 1, 0) \
    X(pbs2::M2, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs2::M2>>), 0, 0, 0) \
    X(pbs2::M2, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs2::M2, os2, "os2", STR, OPT, 29, (XOpt<XStr>), 1, 0, 0) \
    X(pbs2::M2, ob2, "ob2", BYT, OPT, 30, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M2, qs2, "qs2", STR, REQ, 31, (XStr), 1, 0, 0) \
    X(pbs2::M2, qb2, "qb2", BYT, REQ, 32, (XByt<std::byte>), 1, 0, 0) \
    X(pbs2::M2, ri2, "ri2", S32, REP, 33, (XVec<int32_t>), 0, 1, 0) \
    X(pbs2::M2, rp2, "rp2", F32, REP, 34, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs2::M2, rs2, "rs2", STR, REP, 35, (XVec<XStr>), 1, 1, 0) \
    X(pbs2::M2, rb2, "rb2", BYT, REP, 36, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs2::M2, rm2, "rm2", MSG, REP, 37, (XVec<pbs2::Sub>), 0, 1, 0) \
    X(pbs2::M2, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs2::M2, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs2::M2, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M2, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M2, x, "xs2", STR, ONE<5>, 38, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs2::M2, x, "xb2", BYT, ONE<6>, 39, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \

enum { N_OPTS2 = 120 };
#define ENUMS3(E) \
    E(pbs3::Top, int16_t) \
    E(pbs3::TopO, int8_t) \
    E(pbs3::TopC, uint16_t) \
    E(pbs3::M0::In, int16_t) \
    E(pbs3::M0::InO, int8_t) \
    E(pbs3::M0::InC, int8_t) \
    E(pbs3::M1::In, uint8_t) \
    E(pbs3::M1::InO, int8_t) \
    E(pbs3::M1::InC, int8_t) \
    E(pbs3::M2::In, uint8_t) \
    E(pbs3::M2::InO, int8_t) \
    E(pbs3::M2::InC, int8_t) \

enum { N_ENUMS3 = 12 };
#define OPTS3(X) \
    X(pbs3::M0, o0, "o0", I32, OPT, 1, (FOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M0, os0, "os0", STR, OPT, 2, (FOpt<FStr>), 3, 0, 0) \
    X(pbs3::M0, ob0, "ob0", BYT, OPT, 3, (FOpt<FByt<std::byte>>), 3, 0, 0) \
    X(pbs3::M0, qs0, "qs0", STR, REQ, 4, (FStr), 3, 0, 0) \
    X(pbs3::M0, qb0, "qb0", BYT, REQ, 5, (FByt<std::byte>), 3, 0, 0) \
    X(pbs3::M0, ri0, "ri0", S32, REP, 6, (FVec<int32_t>), 0, 3, 0) \
    X(pbs3::M0, rp0, "rp0", F32, REP, 7, (FVec<uint32_t>), 0, 3, 1) \
    X(pbs3::M0, rs0, "rs0", STR, REP, 8, (FVec<FStr>), 3, 3, 0) \
    X(pbs3::M0, rb0, "rb0", BYT, REP, 9, (FVec<FByt<std::byte>>), 3, 3, 0) \
    X(pbs3::M0, rm0, "rm0", MSG, REP, 10, (FVec<pbs3::Sub>), 0, 3, 0) \
    X(pbs3::M0, p0, "p0", MSG, PTR, 11, (std::unique_ptr<FBox<pbs3::M0>>), 0, 0, 0) \
    X(pbs3::M0, m0, "m0", BYT, MAPS, 12, (FMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M0, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M0, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs3::M0, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M0, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs3::M0, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs3::M0, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs3::M0, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs3::M0, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs3::M0, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs3::M0, rm1, "rm1", MSG, REP, 24, (XVec<pbs3::Sub>), 0, 1, 0) \
    X(pbs3::M0, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs3::M0>>), 0, 0, 0) \
    X(pbs3::M0, m1, "m1", BYT, MAPS, 26, (XMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M0, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M0, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs3::M0, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M0, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs3::M0, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs3::M0, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs3::M0, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs3::M0, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs3::M0, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs3::M0, rm2, "rm2", MSG, REP, 38, (XVec<pbs3::Sub>), 0, 1, 0) \
    X(pbs3::M0, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs3::M0>>), 0, 0, 0) \
    X(pbs3::M0, m2, "m2", BYT, MAPS, 40, (XMap<FStr, FByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M0, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 3, 0, 0) \
    X(pbs3::M0, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 3, 0, 0) \
    X(pbs3::M0, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M0, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M0, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M0, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, FStr, FByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M1, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M1, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs3::M1, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs3::M1, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs3::M1, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs3::M1, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs3::M1, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs3::M1, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs3::M1, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs3::M1, rm0, "rm0", MSG, REP, 10, (MVec<pbs3::Sub>), 0, 2, 0) \
    X(pbs3::M1, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs3::M1>>), 0, 0, 0) \
    X(pbs3::M1, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M1, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M1, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs3::M1, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M1, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs3::M1, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs3::M1, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs3::M1, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs3::M1, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs3::M1, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs3::M1, rm1, "rm1", MSG, REP, 24, (XVec<pbs3::Sub>), 0, 1, 0) \
    X(pbs3::M1, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs3::M1>>), 0, 0, 0) \
    X(pbs3::M1, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M1, os2, "os2", STR, OPT, 29, (XOpt<XStr>), 1, 0, 0) \
    X(pbs3::M1, ob2, "ob2", BYT, OPT, 30, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M1, qs2, "qs2", STR, REQ, 31, (XStr), 1, 0, 0) \
    X(pbs3::M1, qb2, "qb2", BYT, REQ, 32, (XByt<std::byte>), 1, 0, 0) \
    X(pbs3::M1, ri2, "ri2", S32, REP, 33, (XVec<int32_t>), 0, 1, 0) \
    X(pbs3::M1, rp2, "rp2", F32, REP, 34, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs3::M1, rs2, "rs2", STR, REP, 35, (XVec<XStr>), 1, 1, 0) \
    X(pbs3::M1, rb2, "rb2", BYT, REP, 36, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs3::M1, rm2, "rm2", MSG, REP, 37, (XVec<pbs3::Sub>), 0, 1, 0) \
    X(pbs3::M1, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs3::M1, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs3::M1, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M1, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M1, x, "xs2", STR, ONE<5>, 38, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M1, x, "xb2", BYT, ONE<6>, 39, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M2, o0, "o0", I32, OPT, 1, (MOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M2, os0, "os0", STR, OPT, 2, (MOpt<MStr>), 2, 0, 0) \
    X(pbs3::M2, ob0, "ob0", BYT, OPT, 3, (MOpt<MByt<std::byte>>), 2, 0, 0) \
    X(pbs3::M2, qs0, "qs0", STR, REQ, 4, (MStr), 2, 0, 0) \
    X(pbs3::M2, qb0, "qb0", BYT, REQ, 5, (MByt<std::byte>), 2, 0, 0) \
    X(pbs3::M2, ri0, "ri0", S32, REP, 6, (MVec<int32_t>), 0, 2, 0) \
    X(pbs3::M2, rp0, "rp0", F32, REP, 7, (MVec<uint32_t>), 0, 2, 1) \
    X(pbs3::M2, rs0, "rs0", STR, REP, 8, (MVec<MStr>), 2, 2, 0) \
    X(pbs3::M2, rb0, "rb0", BYT, REP, 9, (MVec<MByt<std::byte>>), 2, 2, 0) \
    X(pbs3::M2, rm0, "rm0", MSG, REP, 10, (MVec<pbs3::Sub>), 0, 2, 0) \
    X(pbs3::M2, p0, "p0", MSG, PTR, 11, (std::unique_ptr<MBox<pbs3::M2>>), 0, 0, 0) \
    X(pbs3::M2, m0, "m0", BYT, MAPS, 12, (MMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M2, o1, "o1", I32, OPT, 15, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M2, os1, "os1", STR, OPT, 16, (XOpt<XStr>), 1, 0, 0) \
    X(pbs3::M2, ob1, "ob1", BYT, OPT, 17, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M2, qs1, "qs1", STR, REQ, 18, (XStr), 1, 0, 0) \
    X(pbs3::M2, qb1, "qb1", BYT, REQ, 19, (XByt<std::byte>), 1, 0, 0) \
    X(pbs3::M2, ri1, "ri1", S32, REP, 20, (XVec<int32_t>), 0, 1, 0) \
    X(pbs3::M2, rp1, "rp1", F32, REP, 21, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs3::M2, rs1, "rs1", STR, REP, 22, (XVec<XStr>), 1, 1, 0) \
    X(pbs3::M2, rb1, "rb1", BYT, REP, 23, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs3::M2, rm1, "rm1", MSG, REP, 24, (XVec<pbs3::Sub>), 0, 1, 0) \
    X(pbs3::M2, p1, "p1", MSG, PTR, 25, (std::unique_ptr<XBox<pbs3::M2>>), 0, 0, 0) \
    X(pbs3::M2, m1, "m1", BYT, MAPS, 26, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M2, o2, "o2", I32, OPT, 29, (XOpt<int32_t>), 0, 0, 0) \
    X(pbs3::M2, os2, "os2", STR, OPT, 30, (XOpt<XStr>), 1, 0, 0) \
    X(pbs3::M2, ob2, "ob2", BYT, OPT, 31, (XOpt<XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M2, qs2, "qs2", STR, REQ, 32, (XStr), 1, 0, 0) \
    X(pbs3::M2, qb2, "qb2", BYT, REQ, 33, (XByt<std::byte>), 1, 0, 0) \
    X(pbs3::M2, ri2, "ri2", S32, REP, 34, (XVec<int32_t>), 0, 1, 0) \
    X(pbs3::M2, rp2, "rp2", F32, REP, 35, (XVec<uint32_t>), 0, 1, 1) \
    X(pbs3::M2, rs2, "rs2", STR, REP, 36, (XVec<XStr>), 1, 1, 0) \
    X(pbs3::M2, rb2, "rb2", BYT, REP, 37, (XVec<XByt<std::byte>>), 1, 1, 0) \
    X(pbs3::M2, rm2, "rm2", MSG, REP, 38, (XVec<pbs3::Sub>), 0, 1, 0) \
    X(pbs3::M2, p2, "p2", MSG, PTR, 39, (std::unique_ptr<XBox<pbs3::M2>>), 0, 0, 0) \
    X(pbs3::M2, m2, "m2", BYT, MAPS, 40, (XMap<MStr, MByt<std::byte>>), 0, 0, 0) \
    X(pbs3::M2, x, "xs0", STR, ONE<1>, 13, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs3::M2, x, "xb0", BYT, ONE<2>, 14, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 2, 0, 0) \
    X(pbs3::M2, x, "xs1", STR, ONE<3>, 27, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M2, x, "xb1", BYT, ONE<4>, 28, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M2, x, "xs2", STR, ONE<5>, 41, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \
    X(pbs3::M2, x, "xb2", BYT, ONE<6>, 42, (std::variant<std::monostate, MStr, MByt<std::byte>, XStr, XByt<std::byte>, XStr, XByt<std::byte>>), 1, 0, 0) \

enum { N_OPTS3 = 123 };
#define DEFAULTS(D) \
    D(o1, I32, true, (int32_t), 1, (0)) \
    D(r2, I32, false, (int32_t), 2, (0)) \
    D(o3, I32, true, (int32_t), 3, (7)) \
    D(r4, I32, false, (int32_t), 4, (7)) \
    D(o5, I32, true, (int32_t), 5, (-1)) \
    D(r6, I32, false, (int32_t), 6, (-1)) \
    D(o7, I32, true, (int32_t), 7, (2147483647)) \
    D(r8, I32, false, (int32_t), 8, (2147483647)) \
    D(o9, I32, true, (int32_t), 9, ((-2147483647 - 1))) \
    D(r10, I32, false, (int32_t), 10, ((-2147483647 - 1))) \
    D(o11, I32, true, (int32_t), 11, (2147483647)) \
    D(r12, I32, false, (int32_t), 12, (2147483647)) \
    D(o13, I32, true, (int32_t), 13, (-16)) \
    D(r14, I32, false, (int32_t), 14, (-16)) \
    D(o15, I32, true, (int32_t), 15, (15)) \
    D(r16, I32, false, (int32_t), 16, (15)) \
    D(o17, I64, true, (int64_t), 17, (9223372036854775807LL)) \
    D(r18, I64, false, (int64_t), 18, (9223372036854775807LL)) \
    D(o19, I64, true, (int64_t), 19, ((-9223372036854775807LL - 1))) \
    D(r20, I64, false, (int64_t), 20, ((-9223372036854775807LL - 1))) \
    D(o21, I64, true, (int64_t), 21, (-63)) \
    D(r22, I64, false, (int64_t), 22, (-63)) \
    D(o23, U32, true, (uint32_t), 23, (4294967295u)) \
    D(r24, U32, false, (uint32_t), 24, (4294967295u)) \
    D(o25, U32, true, (uint32_t), 25, (4294967295u)) \
    D(r26, U32, false, (uint32_t), 26, (4294967295u)) \
    D(o27, U64, true, (uint64_t), 27, (~0ull)) \
    D(r28, U64, false, (uint64_t), 28, (~0ull)) \
    D(o29, U64, true, (uint64_t), 29, (~0ull)) \
    D(r30, U64, false, (uint64_t), 30, (~0ull)) \
    D(o31, U64, true, (uint64_t), 31, (1)) \
    D(r32, U64, false, (uint64_t), 32, (1)) \
    D(o33, S32, true, (int32_t), 33, (-5)) \
    D(r34, S32, false, (int32_t), 34, (-5)) \
    D(o35, S64, true, (int64_t), 35, (-6000000000LL)) \
    D(r36, S64, false, (int64_t), 36, (-6000000000LL)) \
    D(o37, F32, true, (uint32_t), 37, (3000000000u)) \
    D(r38, F32, false, (uint32_t), 38, (3000000000u)) \
    D(o39, F64, true, (uint64_t), 39, (9223372036854775808ull)) \
    D(r40, F64, false, (uint64_t), 40, (9223372036854775808ull)) \
    D(o41, SF32, true, (int32_t), 41, (-9)) \
    D(r42, SF32, false, (int32_t), 42, (-9)) \
    D(o43, SF64, true, (int64_t), 43, (-63)) \
    D(r44, SF64, false, (int64_t), 44, (-63)) \
    D(o45, BOO, true, (bool), 45, (true)) \
    D(r46, BOO, false, (bool), 46, (true)) \
    D(o47, BOO, true, (bool), 47, (false)) \
    D(r48, BOO, false, (bool), 48, (false)) \
    D(o49, FLT, true, (float), 49, (1.0f)) \
    D(r50, FLT, false, (float), 50, (1.0f)) \
    D(o51, FLT, true, (float), 51, (-1.5f)) \
    D(r52, FLT, false, (float), 52, (-1.5f)) \
    D(o53, FLT, true, (float), 53, (1e10f)) \
    D(r54, FLT, false, (float), 54, (1e10f)) \
    D(o55, FLT, true, (float), 55, (0.1f)) \
    D(r56, FLT, false, (float), 56, (0.1f)) \
    D(o57, FLT, true, (float), 57, (__builtin_nanf(""))) \
    D(r58, FLT, false, (float), 58, (__builtin_nanf(""))) \
    D(o59, FLT, true, (float), 59, (-__builtin_inff())) \
    D(r60, FLT, false, (float), 60, (-__builtin_inff())) \
    D(o61, FLT, true, (float), 61, (16.0f)) \
    D(r62, FLT, false, (float), 62, (16.0f)) \
    D(o63, FLT, true, (float), 63, (8.0f)) \
    D(r64, FLT, false, (float), 64, (8.0f)) \
    D(o65, FLT, true, (float), 65, (-0.0f)) \
    D(r66, FLT, false, (float), 66, (-0.0f)) \
    D(o67, FLT, true, (float), 67, (16777216.0f)) \
    D(r68, FLT, false, (float), 68, (16777216.0f)) \
    D(o69, DBL, true, (double), 69, (__builtin_inf())) \
    D(r70, DBL, false, (double), 70, (__builtin_inf())) \
    D(o71, DBL, true, (double), 71, (0.1)) \
    D(r72, DBL, false, (double), 72, (0.1)) \
    D(o73, DBL, true, (double), 73, (1.5e-300)) \
    D(r74, DBL, false, (double), 74, (1.5e-300)) \
    D(o75, DBL, true, (double), 75, (123456789012345678901234567890.0)) \
    D(r76, DBL, false, (double), 76, (123456789012345678901234567890.0)) \
    D(o77, DBL, true, (double), 77, (-7.0)) \
    D(r78, DBL, false, (double), 78, (-7.0)) \
    D(o79, DBL, true, (double), 79, (0.0)) \
    D(r80, DBL, false, (double), 80, (0.0)) \
    D(o81, DBL, true, (double), 81, (1e5)) \
    D(r82, DBL, false, (double), 82, (1e5)) \
    D(o83, STR, true, (std::string), 83, ("text")) \
    D(r84, STR, false, (std::string), 84, ("text")) \
    D(o85, STR, true, (std::string), 85, ("single")) \
    D(r86, STR, false, (std::string), 86, ("single")) \
    D(o87, STR, true, (std::string), 87, ("say \"x\"")) \
    D(r88, STR, false, (std::string), 88, ("say \"x\"")) \
    D(o89, STR, true, (std::string), 89, ("a\\b\n\t")) \
    D(r90, STR, false, (std::string), 90, ("a\\b\n\t")) \
    D(o91, STR, true, (std::string), 91, ("ž€𝄞")) \
    D(r92, STR, false, (std::string), 92, ("ž€𝄞")) \
    D(o93, STR, true, (std::string), 93, ("//[[ not ]] an option; }")) \
    D(r94, STR, false, (std::string), 94, ("//[[ not ]] an option; }")) \
    D(o95, ENU, true, (pbd::E), 95, (pbd::E(1))) \
    D(r96, ENU, false, (pbd::E), 96, (pbd::E(1))) \
    D(o97, ENU, true, (pbd::E), 97, (pbd::E(2))) \
    D(r98, ENU, false, (pbd::E), 98, (pbd::E(2))) \
    D(o99, ENU, true, (pbd::E), 99, (pbd::E(3))) \
    D(r100, ENU, false, (pbd::E), 100, (pbd::E(3))) \
    D(o101, ENU, true, (pbd::E), 101, (pbd::E(-7))) \
    D(r102, ENU, false, (pbd::E), 102, (pbd::E(-7))) \
    D(o103, I32, true, (int8_t), 103, (-128)) \
    D(r104, I32, false, (int8_t), 104, (-128)) \
    D(o105, I32, true, (int16_t), 105, (32767)) \
    D(r106, I32, false, (int16_t), 106, (32767)) \
    D(o107, U32, true, (uint8_t), 107, (255)) \
    D(r108, U32, false, (uint8_t), 108, (255)) \
    D(o109, U64, true, (uint16_t), 109, (65535)) \
    D(r110, U64, false, (uint16_t), 110, (65535)) \
    D(o111, I64, true, (int32_t), 111, ((-2147483647 - 1))) \
    D(r112, I64, false, (int32_t), 112, ((-2147483647 - 1))) \
    D(o113, F32, true, (uint8_t), 113, (200)) \
    D(r114, F32, false, (uint8_t), 114, (200)) \
    D(o115, S32, true, (int8_t), 115, (127)) \
    D(r116, S32, false, (int8_t), 116, (127)) \

enum { N_DEFAULTS = 116 };
#define BITS(B) \
    B(b0, -4) \
    B(b1, 31) \
    B(b2, 1099511627775) \
    B(b3, 255) \
    B(b4, (-9223372036854775807LL - 1)) \

enum { N_BITS = 5 };
#define TYPES(X) \
    X(pbd::T, opt1, "opt1", I32, OPT, 1, (std::optional<int8_t>), 0, 0, 0) \
    X(pbd::R2, req2, "req2", I32, REQ, 2, (int8_t), 0, 0, 0) \
    X(pbd::T, rep3, "rep3", I32, REP, 3, (std::vector<int8_t>), 0, 0, 0) \
    X(pbd::T, opt5, "opt5", I32, OPT, 5, (std::optional<int16_t>), 0, 0, 0) \
    X(pbd::R6, req6, "req6", I32, REQ, 6, (int16_t), 0, 0, 0) \
    X(pbd::T, rep7, "rep7", I32, REP, 7, (std::vector<int16_t>), 0, 0, 0) \
    X(pbd::T, opt9, "opt9", I32, OPT, 9, (std::optional<int32_t>), 0, 0, 0) \
    X(pbd::R10, req10, "req10", I32, REQ, 10, (int32_t), 0, 0, 0) \
    X(pbd::T, rep11, "rep11", I32, REP, 11, (std::vector<int32_t>), 0, 0, 0) \
    X(pbd::T, opt13, "opt13", I64, OPT, 13, (std::optional<int8_t>), 0, 0, 0) \
    X(pbd::R14, req14, "req14", I64, REQ, 14, (int8_t), 0, 0, 0) \
    X(pbd::T, rep15, "rep15", I64, REP, 15, (std::vector<int8_t>), 0, 0, 0) \
    X(pbd::T, opt17, "opt17", I64, OPT, 17, (std::optional<int16_t>), 0, 0, 0) \
    X(pbd::R18, req18, "req18", I64, REQ, 18, (int16_t), 0, 0, 0) \
    X(pbd::T, rep19, "rep19", I64, REP, 19, (std::vector<int16_t>), 0, 0, 0) \
    X(pbd::T, opt21, "opt21", I64, OPT, 21, (std::optional<int32_t>), 0, 0, 0) \
    X(pbd::R22, req22, "req22", I64, REQ, 22, (int32_t), 0, 0, 0) \
    X(pbd::T, rep23, "rep23", I64, REP, 23, (std::vector<int32_t>), 0, 0, 0) \
    X(pbd::T, opt25, "opt25", I64, OPT, 25, (std::optional<int64_t>), 0, 0, 0) \
    X(pbd::R26, req26, "req26", I64, REQ, 26, (int64_t), 0, 0, 0) \
    X(pbd::T, rep27, "rep27", I64, REP, 27, (std::vector<int64_t>), 0, 0, 0) \
    X(pbd::T, opt29, "opt29", U32, OPT, 29, (std::optional<uint8_t>), 0, 0, 0) \
    X(pbd::R30, req30, "req30", U32, REQ, 30, (uint8_t), 0, 0, 0) \
    X(pbd::T, rep31, "rep31", U32, REP, 31, (std::vector<uint8_t>), 0, 0, 0) \
    X(pbd::T, opt33, "opt33", U32, OPT, 33, (std::optional<uint16_t>), 0, 0, 0) \
    X(pbd::R34, req34, "req34", U32, REQ, 34, (uint16_t), 0, 0, 0) \
    X(pbd::T, rep35, "rep35", U32, REP, 35, (std::vector<uint16_t>), 0, 0, 0) \
    X(pbd::T, opt37, "opt37", U32, OPT, 37, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbd::R38, req38, "req38", U32, REQ, 38, (uint32_t), 0, 0, 0) \
    X(pbd::T, rep39, "rep39", U32, REP, 39, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbd::T, opt41, "opt41", U64, OPT, 41, (std::optional<uint8_t>), 0, 0, 0) \
    X(pbd::R42, req42, "req42", U64, REQ, 42, (uint8_t), 0, 0, 0) \
    X(pbd::T, rep43, "rep43", U64, REP, 43, (std::vector<uint8_t>), 0, 0, 0) \
    X(pbd::T, opt45, "opt45", U64, OPT, 45, (std::optional<uint16_t>), 0, 0, 0) \
    X(pbd::R46, req46, "req46", U64, REQ, 46, (uint16_t), 0, 0, 0) \
    X(pbd::T, rep47, "rep47", U64, REP, 47, (std::vector<uint16_t>), 0, 0, 0) \
    X(pbd::T, opt49, "opt49", U64, OPT, 49, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbd::R50, req50, "req50", U64, REQ, 50, (uint32_t), 0, 0, 0) \
    X(pbd::T, rep51, "rep51", U64, REP, 51, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbd::T, opt53, "opt53", U64, OPT, 53, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbd::R54, req54, "req54", U64, REQ, 54, (uint64_t), 0, 0, 0) \
    X(pbd::T, rep55, "rep55", U64, REP, 55, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbd::T, opt57, "opt57", S32, OPT, 57, (std::optional<int8_t>), 0, 0, 0) \
    X(pbd::R58, req58, "req58", S32, REQ, 58, (int8_t), 0, 0, 0) \
    X(pbd::T, rep59, "rep59", S32, REP, 59, (std::vector<int8_t>), 0, 0, 0) \
    X(pbd::T, opt61, "opt61", S32, OPT, 61, (std::optional<int16_t>), 0, 0, 0) \
    X(pbd::R62, req62, "req62", S32, REQ, 62, (int16_t), 0, 0, 0) \
    X(pbd::T, rep63, "rep63", S32, REP, 63, (std::vector<int16_t>), 0, 0, 0) \
    X(pbd::T, opt65, "opt65", S32, OPT, 65, (std::optional<int32_t>), 0, 0, 0) \
    X(pbd::R66, req66, "req66", S32, REQ, 66, (int32_t), 0, 0, 0) \
    X(pbd::T, rep67, "rep67", S32, REP, 67, (std::vector<int32_t>), 0, 0, 0) \
    X(pbd::T, opt69, "opt69", S64, OPT, 69, (std::optional<int8_t>), 0, 0, 0) \
    X(pbd::R70, req70, "req70", S64, REQ, 70, (int8_t), 0, 0, 0) \
    X(pbd::T, rep71, "rep71", S64, REP, 71, (std::vector<int8_t>), 0, 0, 0) \
    X(pbd::T, opt73, "opt73", S64, OPT, 73, (std::optional<int16_t>), 0, 0, 0) \
    X(pbd::R74, req74, "req74", S64, REQ, 74, (int16_t), 0, 0, 0) \
    X(pbd::T, rep75, "rep75", S64, REP, 75, (std::vector<int16_t>), 0, 0, 0) \
    X(pbd::T, opt77, "opt77", S64, OPT, 77, (std::optional<int32_t>), 0, 0, 0) \
    X(pbd::R78, req78, "req78", S64, REQ, 78, (int32_t), 0, 0, 0) \
    X(pbd::T, rep79, "rep79", S64, REP, 79, (std::vector<int32_t>), 0, 0, 0) \
    X(pbd::T, opt81, "opt81", S64, OPT, 81, (std::optional<int64_t>), 0, 0, 0) \
    X(pbd::R82, req82, "req82", S64, REQ, 82, (int64_t), 0, 0, 0) \
    X(pbd::T, rep83, "rep83", S64, REP, 83, (std::vector<int64_t>), 0, 0, 0) \
    X(pbd::T, opt85, "opt85", F32, OPT, 85, (std::optional<uint8_t>), 0, 0, 0) \
    X(pbd::R86, req86, "req86", F32, REQ, 86, (uint8_t), 0, 0, 0) \
    X(pbd::T, rep87, "rep87", F32, REP, 87, (std::vector<uint8_t>), 0, 0, 0) \
    X(pbd::T, opt89, "opt89", F32, OPT, 89, (std::optional<uint16_t>), 0, 0, 0) \
    X(pbd::R90, req90, "req90", F32, REQ, 90, (uint16_t), 0, 0, 0) \
    X(pbd::T, rep91, "rep91", F32, REP, 91, (std::vector<uint16_t>), 0, 0, 0) \
    X(pbd::T, opt93, "opt93", F32, OPT, 93, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbd::R94, req94, "req94", F32, REQ, 94, (uint32_t), 0, 0, 0) \
    X(pbd::T, rep95, "rep95", F32, REP, 95, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbd::T, opt97, "opt97", F64, OPT, 97, (std::optional<uint8_t>), 0, 0, 0) \
    X(pbd::R98, req98, "req98", F64, REQ, 98, (uint8_t), 0, 0, 0) \
    X(pbd::T, rep99, "rep99", F64, REP, 99, (std::vector<uint8_t>), 0, 0, 0) \
    X(pbd::T, opt101, "opt101", F64, OPT, 101, (std::optional<uint16_t>), 0, 0, 0) \
    X(pbd::R102, req102, "req102", F64, REQ, 102, (uint16_t), 0, 0, 0) \
    X(pbd::T, rep103, "rep103", F64, REP, 103, (std::vector<uint16_t>), 0, 0, 0) \
    X(pbd::T, opt105, "opt105", F64, OPT, 105, (std::optional<uint32_t>), 0, 0, 0) \
    X(pbd::R106, req106, "req106", F64, REQ, 106, (uint32_t), 0, 0, 0) \
    X(pbd::T, rep107, "rep107", F64, REP, 107, (std::vector<uint32_t>), 0, 0, 0) \
    X(pbd::T, opt109, "opt109", F64, OPT, 109, (std::optional<uint64_t>), 0, 0, 0) \
    X(pbd::R110, req110, "req110", F64, REQ, 110, (uint64_t), 0, 0, 0) \
    X(pbd::T, rep111, "rep111", F64, REP, 111, (std::vector<uint64_t>), 0, 0, 0) \
    X(pbd::T, opt113, "opt113", SF32, OPT, 113, (std::optional<int8_t>), 0, 0, 0) \
    X(pbd::R114, req114, "req114", SF32, REQ, 114, (int8_t), 0, 0, 0) \
    X(pbd::T, rep115, "rep115", SF32, REP, 115, (std::vector<int8_t>), 0, 0, 0) \
    X(pbd::T, opt117, "opt117", SF32, OPT, 117, (std::optional<int16_t>), 0, 0, 0) \
    X(pbd::R118, req118, "req118", SF32, REQ, 118, (int16_t), 0, 0, 0) \
    X(pbd::T, rep119, "rep119", SF32, REP, 119, (std::vector<int16_t>), 0, 0, 0) \
    X(pbd::T, opt121, "opt121", SF32, OPT, 121, (std::optional<int32_t>), 0, 0, 0) \
    X(pbd::R122, req122, "req122", SF32, REQ, 122, (int32_t), 0, 0, 0) \
    X(pbd::T, rep123, "rep123", SF32, REP, 123, (std::vector<int32_t>), 0, 0, 0) \
    X(pbd::T, opt125, "opt125", SF64, OPT, 125, (std::optional<int8_t>), 0, 0, 0) \
    X(pbd::R126, req126, "req126", SF64, REQ, 126, (int8_t), 0, 0, 0) \
    X(pbd::T, rep127, "rep127", SF64, REP, 127, (std::vector<int8_t>), 0, 0, 0) \
    X(pbd::T, opt129, "opt129", SF64, OPT, 129, (std::optional<int16_t>), 0, 0, 0) \
    X(pbd::R130, req130, "req130", SF64, REQ, 130, (int16_t), 0, 0, 0) \
    X(pbd::T, rep131, "rep131", SF64, REP, 131, (std::vector<int16_t>), 0, 0, 0) \
    X(pbd::T, opt133, "opt133", SF64, OPT, 133, (std::optional<int32_t>), 0, 0, 0) \
    X(pbd::R134, req134, "req134", SF64, REQ, 134, (int32_t), 0, 0, 0) \
    X(pbd::T, rep135, "rep135", SF64, REP, 135, (std::vector<int32_t>), 0, 0, 0) \
    X(pbd::T, opt137, "opt137", SF64, OPT, 137, (std::optional<int64_t>), 0, 0, 0) \
    X(pbd::R138, req138, "req138", SF64, REQ, 138, (int64_t), 0, 0, 0) \
    X(pbd::T, rep139, "rep139", SF64, REP, 139, (std::vector<int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x4", I32, ONE<1>, 4, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x8", I32, ONE<2>, 8, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x12", I32, ONE<3>, 12, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x16", I64, ONE<4>, 16, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x20", I64, ONE<5>, 20, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x24", I64, ONE<6>, 24, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x28", I64, ONE<7>, 28, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x32", U32, ONE<8>, 32, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x36", U32, ONE<9>, 36, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x40", U32, ONE<10>, 40, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x44", U64, ONE<11>, 44, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x48", U64, ONE<12>, 48, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x52", U64, ONE<13>, 52, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x56", U64, ONE<14>, 56, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x60", S32, ONE<15>, 60, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x64", S32, ONE<16>, 64, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x68", S32, ONE<17>, 68, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x72", S64, ONE<18>, 72, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x76", S64, ONE<19>, 76, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x80", S64, ONE<20>, 80, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x84", S64, ONE<21>, 84, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x88", F32, ONE<22>, 88, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x92", F32, ONE<23>, 92, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x96", F32, ONE<24>, 96, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x100", F64, ONE<25>, 100, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x104", F64, ONE<26>, 104, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x108", F64, ONE<27>, 108, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x112", F64, ONE<28>, 112, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x116", SF32, ONE<29>, 116, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x120", SF32, ONE<30>, 120, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x124", SF32, ONE<31>, 124, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x128", SF64, ONE<32>, 128, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x132", SF64, ONE<33>, 132, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x136", SF64, ONE<34>, 136, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \
    X(pbd::T, x, "x140", SF64, ONE<35>, 140, (std::variant<std::monostate, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int8_t, int16_t, int32_t, int64_t>), 0, 0, 0) \

enum { N_TYPES = 140 };
