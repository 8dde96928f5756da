#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
struct ThreadResult { uint64_t hash = 0; std::string text; };
typedef std::function<ThreadResult()> Script;
struct Execution {
    enum { OK, CRASH, STUCK, DEADLOCK, SHARED_CHANGED } status = OK;
    ThreadResult r[2]; bool done[2] = {false, false};
    long points = 0, accesses = 0; bool grew = false;
};
void use_arenas();
Execution execute(const Script& a, const Script& b, int start, const std::vector<long>& sched, std::vector<uintptr_t>& conflicts, int only, const std::function<uint64_t()>& after);
