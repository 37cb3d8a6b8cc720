// containers that can be told apart, for the options of pbs*.proto
#pragma once
#include <cstddef>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#define LEVEL(L) \
    template <typename T> struct L##Opt : std::optional<T> { using std::optional<T>::optional; }; \
    template <typename T> struct L##Vec : std::vector<T> { using std::vector<T>::vector; }; \
    struct L##Str : std::string { using std::string::string; }; \
    template <typename T> struct L##Byt : std::vector<T> { using std::vector<T>::vector; }; \
    template <typename K, typename V> struct L##Map : std::map<K, V> { using std::map<K, V>::map; }; \
    template <typename T> struct L##Box : T {};
LEVEL(F)
LEVEL(M)
LEVEL(X)
#undef LEVEL
