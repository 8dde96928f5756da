// Operand families. Everything here is enumerated completely by the checks.
#pragma once
#include <memory>
#include <set>
#include "model.hpp"
#include "run.hpp"

typedef std::vector<Digits> Forms;
typedef std::shared_ptr<const Forms> FormsPtr;

inline std::vector<u64> all_digits(u64 base) { std::vector<u64> v; for (u64 i = 0; i < base; ++i) v.push_back(i); return v; }
// Every digit when the base is small, otherwise the values at which digit
// arithmetic changes its behaviour (0, 1, half words, half base, base - 1 ...).
inline std::vector<u64> alphabet(u64 base, unsigned richness = 2) {
    if (base <= 10 || (richness >= 2 && base <= 16)) return all_digits(base);
    std::set<u64> s = {0, 1, base - 1, base / 2};
    if (richness >= 1) { s.insert(2); s.insert(base - 2); s.insert(base / 2 - 1); }
    if (richness >= 2) {
        u64 r = 1; while (r * r < base) r *= 2;
        s.insert(r - 1); s.insert(r); s.insert(r + 1); s.insert(base / 2 + 1); s.insert(3);
    }
    if (richness >= 3) {
        for (u64 p = 4; p < base; p *= 2) { s.insert(p - 1); s.insert(p); s.insert(p + 1); if (base > p) s.insert(base - p); }
        for (u64 p = 10; p < base; p *= 10) { s.insert(p - 1); s.insert(p); }
        for (u64 p : {0x55ull, 0xAAull, 0x5555ull, 0xAAAAull, 0x55555555ull, 0xAAAAAAAAull}) if (p < base) s.insert(p);
    }
    std::vector<u64> v;
    for (u64 x : s) if (x < base) v.push_back(x);
    return v;
}
inline void append_vectors(Forms& out, const std::vector<u64>& alpha, size_t n) {
    std::vector<size_t> idx(n, 0);
    for (;;) {
        Digits d(n);
        for (size_t i = 0; i < n; ++i) d[i] = alpha[idx[i]];
        out.push_back(d);
        size_t k = 0;
        while (k < n && ++idx[k] == alpha.size()) idx[k++] = 0;
        if (k == n) break;
    }
}
// All stored forms (leading zero digits included) of length 0, 1, 2 ... as long
// as the whole set stays within the budget; at least up to length 1.
inline Forms short_forms(u64 base, size_t budget, unsigned richness = 2) {
    Forms f; f.push_back(Digits());
    const std::vector<u64> al = alphabet(base, richness);
    append_vectors(f, al, 1);
    double level = double(al.size());
    for (size_t n = 2; n < 64; ++n) {
        level *= double(al.size());
        if (double(f.size()) + level > double(budget)) break;
        append_vectors(f, al, n);
    }
    return f;
}
inline void dedupe(Forms& f) { std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end()); std::stable_sort(f.begin(), f.end(), [](const Digits& a, const Digits& b) { return a.size() < b.size(); }); }
// Structured digit patterns of exactly n digits.
inline Forms patterns(u64 base, size_t n, unsigned richness = 1) {
    Forms f;
    if (n == 0) { f.push_back(Digits()); return f; }
    const u64 M = base - 1;
    auto fill = [&](u64 v) { return Digits(n, v); };
    f.push_back(fill(M));
    { Digits d = fill(0); d[n - 1] = 1; f.push_back(d); }                     // B^(n-1)
    { Digits d = fill(0); d[n - 1] = M; d[0] = M; f.push_back(d); }
    { Digits d(n); for (size_t i = 0; i < n; ++i) d[i] = (i * i * 7 + i * 13 + 5) % base; if (!d[n - 1]) d[n - 1] = 1; f.push_back(d); }
    { Digits d = fill(M); d[0] = M - 1; d[n - 1] = 1; f.push_back(d); }
    if (richness >= 1) {
        { Digits d(n); for (size_t i = 0; i < n; ++i) d[i] = i % 2 ? 0 : M; f.push_back(d); }   // may have a leading zero
        { Digits d = fill(M); d[n - 1] = 0; f.push_back(d); }                                   // leading zero
        { Digits d = fill(0); d[0] = 1; f.push_back(d); }                                       // 1 behind leading zeroes
        { Digits d = fill(0); d[n / 2] = 1; if (n > 1) d[n - 1] = M; f.push_back(d); }
        { Digits d(n); u64 s = 0x243F6A8885A308D3ull ^ n; for (size_t i = 0; i < n; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; d[i] = (s >> 33) % base; } if (!d[n - 1]) d[n - 1] = M; f.push_back(d); }
        f.push_back(fill(0));
    }
    if (richness >= 2) {
        f.push_back(fill(base / 2));
        f.push_back(fill(1));
        { Digits d(n); u64 s = 0x13198A2E03707344ull + n; for (size_t i = 0; i < n; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; d[i] = (s >> 33) % base; } if (!d[n - 1]) d[n - 1] = 1; f.push_back(d); }
        { Digits d = fill(0); for (size_t i = n / 2; i < n; ++i) d[i] = M; f.push_back(d); }
        { Digits d = fill(0); for (size_t i = 0; i < n / 2; ++i) d[i] = M; d[n - 1] = 1; f.push_back(d); }
    }
    dedupe(f);
    return f;
}
inline FormsPtr share(Forms f) { return std::make_shared<const Forms>(std::move(f)); }
inline model::Val val(int desc, const Digits& d) { model::Val v; v.desc = desc; v.d = d; return v; }
inline std::string text(const model::Val& v) { return value_text(v.desc, v.d); }
inline model::Val read(const Num& n) { model::Val v; v.desc = n.desc(); n.get(v.d); return v; }
inline void read(const Num& n, model::Val& v) { v.desc = n.desc(); n.get(v.d); }

// One job per slice of all pairs fa x fb x 4 sign combinations.
typedef std::function<void(Ctx&, const Api*, const model::Val&, const model::Val&)> PairFn;
inline void pair_jobs(std::vector<Job>& jobs, const std::string& what, const Api* A, FormsPtr fa, FormsPtr fb, size_t slices, PairFn fn, int signs = 4) {
    if (slices < 1) slices = 1;
    slices = std::min(slices, fa->size());
    for (size_t s = 0; s < slices; ++s)
        jobs.push_back({std::string(A->name) + " " + what + " " + std::to_string(s + 1) + "/" + std::to_string(slices), [=](Ctx& c) {
            model::Val a, b;
            for (size_t i = s; i < fa->size(); i += slices) {
                a.d = (*fa)[i];
                for (size_t j = 0; j < fb->size(); ++j) {
                    b.d = (*fb)[j];
                    for (int sg = 0; sg < signs; ++sg) {
                        a.desc = sg & 1; b.desc = sg >> 1;
                        fn(c, A, a, b);
                    }
                }
            }
        }});
}
