// Job runner: every check is a list of deterministic jobs; every job enumerates
// numbered cases. Each job runs in a process of its own; a mismatch, crash or
// hang is replayed alone before it is reported.
#pragma once
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include "api.hpp"

struct Slot;    // shared with the parent process

struct Ctx {
    Slot* slot = nullptr;
    long only = -1;         // run only this case
    long logat = -1;        // run all cases, log this one
    long cases = 0;
    bool logging = false;
    unsigned nextId = 0;
    u64 states = 0, transitions = 0, traces = 0;
    u64 capped = 0;         // cases whose bound was cut short by a time budget
    const Api* api = nullptr;

    // Starts the next case; false: skip it (replay of another case).
    bool begin();
    // Starts a case that later ones depend on: executed even when replaying.
    void begin_dependent();
    void log(const std::string& line);      // C++ statement of the case's replay
    [[noreturn]] void fail(const std::string& msg);
    void outcome(u64 h);                    // fingerprint of a result
};
extern Ctx* g;

struct Job { std::string name; std::function<void(Ctx&)> fn; };
typedef std::function<void(std::vector<Job>&, bool thorough)> JobMaker;

struct CheckInfo {
    const char* rule;                       // what is enumerated
    std::vector<std::string> assumptions;
    bool exhaustive;
    CheckInfo(const char* r, const std::vector<std::string>& a, bool e = true) : rule(r), assumptions(a), exhaustive(e) {}
};
int check_main(int argc, char** argv, const JobMaker& make, const CheckInfo& info);

std::string desc_text(int desc);
std::string digits_text(const Digits& d);           // most significant first, readable
std::string value_text(int desc, const Digits& d);

// One live object of the library, with its API calls logged when replaying.
class Num {
public:
    const Api* A;
    unsigned id = 0;
    explicit Num(const Api* a) : A(a) { A->construct(buf()); born(""); }
    Num(const Api* a, int desc, const Digits& d) : A(a) {
        A->construct(buf()); A->set(buf(), desc, d.data(), d.size());
        if (g && g->logging) born_set(desc, d);
    }
    struct Copy {}; struct Move {}; struct List {};
    Num(Copy, const Num& o) : A(o.A) { if (lg()) born("{" + o.nm() + "}"); A->copy_construct(buf(), o.buf()); }
    Num(Move, Num& o) : A(o.A) { if (lg()) born("{std::move(" + o.nm() + ")}"); A->move_construct(buf(), o.buf()); }
    Num(const Num& a, const Num& b, int op) : A(a.A) {
        if (lg()) born("{" + a.nm() + " " + OP_TXT[op] + " " + b.nm() + "}");
        A->op_binary(buf(), a.buf(), b.buf(), op);
    }
    Num(List, const Api* a, int desc, const Digits& msd);
    ~Num() { A->destroy(buf()); }
    Num(const Num&) = delete;
    Num& operator=(const Num&) = delete;

    void* buf() { return buf_; }
    const void* buf() const { return buf_; }
    bool lg() const { return g && g->logging; }
    std::string nm() const { return "n" + std::to_string(id); }
    void say(const std::string& s) const { if (lg()) g->log(s); }

    void set(int desc, const Digits& d) { if (lg()) say_set(desc, d); A->set(buf(), desc, d.data(), d.size()); }
    const void* op_assign(const Num& b, int op) {
        if (lg()) say(nm() + " " + OP_TXT[op] + "= " + b.nm() + ";");
        return A->op_assign(buf(), b.buf(), op);
    }
    bool cmp(const Num& b, int c) const {
        if (lg()) say("std::cout << (" + nm() + " " + CMP_TXT[c] + " " + b.nm() + ") << std::endl;");
        return A->cmp(buf(), b.buf(), c);
    }
    const void* copy_assign(const Num& b) { if (lg()) say(nm() + " = " + b.nm() + ";"); return A->copy_assign(buf(), b.buf()); }
    const void* move_assign(Num& b) { if (lg()) say(nm() + " = std::move(" + b.nm() + ");"); return A->move_assign(buf(), b.buf()); }
    void swap(Num& b) { if (lg()) say("std::swap(" + nm() + ", " + b.nm() + ");"); A->swap(buf(), b.buf()); }
    void push_front(u64 d) { if (lg()) say(nm() + ".push_front(" + std::to_string(d) + "u);"); A->push_front(buf(), d); }
    void pop_front() { if (lg()) say(nm() + ".pop_front();"); A->pop_front(buf()); }
    void push_back(u64 d) { if (lg()) say(nm() + ".push_back(" + std::to_string(d) + "u);"); A->push_back(buf(), d); }
    void pop_back() { if (lg()) say(nm() + ".pop_back();"); A->pop_back(buf()); }
    void push(u64 d, size_t i) { if (lg()) say(nm() + ".push(" + std::to_string(d) + "u, " + std::to_string(i) + ");"); A->push(buf(), d, i); }
    void pop(size_t i) { if (lg()) say(nm() + ".pop(" + std::to_string(i) + ");"); A->pop(buf(), i); }
    void resize(size_t n, u64 d) { if (lg()) say(nm() + ".resize(" + std::to_string(n) + ", " + std::to_string(d) + "u);"); A->resize(buf(), n, d); }
    void resize0(size_t n) { if (lg()) say(nm() + ".resize(" + std::to_string(n) + ");"); A->resize0(buf(), n); }
    void clear() { if (lg()) say(nm() + ".clear();"); A->clear(buf()); }
    void set_descriptor(int d) { if (lg()) say(nm() + ".setDescriptor(" + DESC_TXT[d] + ");"); A->set_descriptor(buf(), d); }
    u64 at_const(size_t i) const { if (lg()) say("(void)static_cast<const decltype(" + nm() + ")&>(" + nm() + ")[" + std::to_string(i) + "u];"); return A->at_const(buf(), i); }
    u64 at_mut(size_t i) { if (lg()) say("(void)" + nm() + "[" + std::to_string(i) + "u];"); return A->at_mut(buf(), i); }
    void at_set(size_t i, u64 d) { if (lg()) say(nm() + "[" + std::to_string(i) + "u] = " + std::to_string(d) + "u;"); A->at_set(buf(), i, d); }
    std::string print(int base, bool* same) const {
        if (lg()) say(std::string("std::cout << std::") + (base == 16 ? "hex" : base == 8 ? "oct" : "dec") + " << " + nm() + " << std::dec << std::endl;");
        return A->print(buf(), base, same);
    }
    int desc() const { return A->desc(buf()); }
    size_t size() const { return A->size(buf()); }
    void get(Digits& d) const { A->get(buf(), d); }
    Digits digits() const { Digits d; get(d); return d; }
    std::string text() const { return value_text(desc(), digits()); }
private:
    void born(const std::string& init);
    void born_set(int desc, const Digits& d);
    void say_set(int desc, const Digits& d) const;
    alignas(16) unsigned char buf_[128];
};
