// Type-erased access to the public interface of every number type under test.
// Only public members of the library are used; property code is written once
// against this table and runs on every base, digit width and container.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef std::vector<u64> Digits;           // least significant digit first

enum { D_POS = 0, D_NEG = 1, D_NAN = 2, D_PINF = 3, D_NINF = 4 };
enum Op { ADD = 0, SUB = 1, MUL = 2, DIV = 3 };
enum Cmp { EQ = 0, NE, LT, LE, GT, GE };
extern const char* const OP_TXT[4];
extern const char* const CMP_TXT[6];
extern const char* const DESC_TXT[5];

struct Api {
    const char* name;       // e.g. "bignum_base10"
    const char* preamble;   // C++ needed to declare the type in a replay program
    u64 base;
    bool custom;            // user-defined base (not one of the predefined types)
    bool native;            // digits are plain unsigned integers
    unsigned width;         // bits of the digit's storage
    size_t objsize;

    void (*construct)(void*);
    void (*destroy)(void*);
    void (*set)(void*, int desc, const u64* d, size_t n);
    bool (*construct_list)(void*, int desc, const u64* msd, size_t n);
    int (*desc)(const void*);
    size_t (*size)(const void*);
    size_t (*data_size)(const void*);
    u64 (*data_at)(const void*, size_t);
    void (*get)(const void*, Digits&);
    const void* (*op_assign)(void*, const void*, int op);       // returned reference
    void (*op_binary)(void* raw, const void*, const void*, int op); // constructs raw
    bool (*cmp)(const void*, const void*, int c);
    void (*copy_construct)(void* raw, const void*);
    void (*move_construct)(void* raw, void*);
    const void* (*copy_assign)(void*, const void*);
    const void* (*move_assign)(void*, void*);
    void (*swap)(void*, void*);
    void (*push_front)(void*, u64);
    void (*pop_front)(void*);
    void (*push_back)(void*, u64);
    void (*pop_back)(void*);
    void (*push)(void*, u64, size_t);
    void (*pop)(void*, size_t);
    void (*resize)(void*, size_t, u64);
    void (*resize0)(void*, size_t);
    void (*clear)(void*);
    void (*set_descriptor)(void*, int);
    u64 (*at_const)(const void*, size_t);
    u64 (*at_mut)(void*, size_t);
    void (*at_set)(void*, size_t, u64);
    bool (*is_pos)(const void*);
    bool (*is_neg)(const void*);
    bool (*is_inf)(const void*);
    bool (*is_nan)(const void*);
    bool (*is_computable)(int);
    // base: 10, 16 or 8, plus 256 uppercase, 512 showbase, 1024 written twice
    // to the same stream with ",255," between. same_stream reports whether operator<< returned its argument.
    std::string (*print)(const void*, int base, bool* same_stream);
    u64 lim[4];             // SINGLE_BASE_MIN/MAX as published, bn_min/max_limit<digit>
};

const std::vector<const Api*>& all_apis();      // vector-based types
const Api* api_by_name(const std::string&);
std::vector<const Api*>& extra_apis();
const std::vector<const Api*>& wide_apis();       // cfg6: all_apis and two wider user-defined bases
