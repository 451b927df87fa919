// Included before every translation unit: the time stamp counter is read through the simulator
#pragma once
#include <x86intrin.h>
#include <algorithm>
#include <sstream>
#include <map>
#include <vector>
#include <cstring>
#include <memory>
#include <functional>
extern "C" unsigned long long sim_rdtsc();
#define __rdtsc() sim_rdtsc()
#ifdef SIM_CACHE_REGEX
// Regular expressions are compiled once: the library compiles them each time a number is parsed, which is slow
#include <map>
#include <regex>
#include <string>
namespace std {
inline const regex& sim_cached_regex(const char* s) {
    static map<string, regex> m; auto it = m.find(s);
    if (it == m.end()) it = m.insert(make_pair(string(s), regex(s))).first;
    return it->second;
}
}
#define regex(...) sim_cached_regex(__VA_ARGS__)
#endif
