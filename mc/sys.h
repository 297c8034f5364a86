// Adapters between the reference model and the code under test (public interface only).
#pragma once
#include "mc.h"
#include "ref.h"
#include "include/batchproof.h"
#include "include/pollard.h"
#include "include/ram_forest.h"
#include "src/state.h"
#include <functional>

namespace sys {
using ref::Hash;
using ref::V64;
using utreexo::Accumulator;
using utreexo::BatchProof;
using utreexo::ForestState;
using utreexo::Leaf;
using utreexo::Pollard;
using utreexo::RamForest;
using utreexo::UndoBatch;
using VH = std::vector<Hash>;
using mc::choose;
using mc::flip;
using mc::require;
using mc::step;

// Families of leaf hashes: which bytes of the hash tell two leaves apart.  Leaf 0 of family 3 is all zero.
enum { FAM_SPREAD, FAM_LAST, FAM_FIRST, FAM_ZERO, NFAM };
inline Hash leaf_hash(uint32_t i, int fam = FAM_SPREAD)
{
    Hash h;
    h.fill(0);
    switch (fam) {
    case FAM_SPREAD:
        for (int k = 0; k < 32; k++) h[k] = uint8_t(mc::mix(i * 32 + k + 0x1234567) & 0xff);
        break;
    case FAM_LAST: // same first 8 bytes (the map's hash function reads only those)
        h.fill(0x5a);
        for (int k = 0; k < 4; k++) h[31 - k] = uint8_t(i >> (8 * k));
        break;
    case FAM_FIRST:
        for (int k = 0; k < 4; k++) h[k] = uint8_t((i + 1) >> (8 * k));
        break;
    case FAM_ZERO:
        for (int k = 0; k < 4; k++) h[8 + k] = uint8_t(i >> (8 * k));
        break;
    }
    return h;
}

inline std::string hx(const Hash& h)
{
    char b[20];
    snprintf(b, sizeof b, "%02x%02x%02x%02x..%02x", h[0], h[1], h[2], h[3], h[31]);
    return b;
}
inline std::string str(const V64& v)
{
    std::string s = "{";
    for (size_t i = 0; i < v.size(); i++) {
        if (i > 300 && i + 3 < v.size()) {
            if (i == 301) s += ",...";
            continue;
        }
        s += (i ? "," : "") + std::to_string(v[i]);
    }
    return s + (v.size() > 300 ? "}(" + std::to_string(v.size()) + ")" : "}");
}
inline std::string str(const VH& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) {
        if (i > 100 && i + 3 < v.size()) {
            if (i == 101) s += " ...";
            continue;
        }
        s += (i ? " " : "") + hx(v[i]);
    }
    return s + (v.size() > 100 ? "](" + std::to_string(v.size()) + ")" : "]");
}
inline VH roots_of(const Accumulator& a)
{
    VH r(a.NumLeaves() % 3 ? 2 : 0, leaf_hash(90007)); // to be overwritten
    a.Roots(r);
    return r;
}
inline VH pick(const VH& all, const V64& at)
{
    VH r;
    for (auto i : at) r.push_back(all[i]);
    return r;
}
// every subset of 0..n-1, smaller masks first
inline V64 choose_subset(uint64_t n)
{
    V64 v;
    uint64_t m = choose(1u << n);
    for (uint64_t i = 0; i < n; i++)
        if (m >> i & 1) v.push_back(i);
    return v;
}
inline std::vector<Leaf> mk_leaves(uint32_t& next_id, int k, uint32_t rem, int fam)
{
    std::vector<Leaf> v;
    for (int i = 0; i < k; i++) v.push_back({leaf_hash(next_id++, fam), bool(rem >> (i & 31) & 1)});
    return v;
}
// Leaves that come back: hashes that were in the forest before (c) are added again, in one of 5 ways, some of
// them with new ones.  rem: the remember flags of those added, in order.
inline std::vector<Leaf> choose_returning(const VH& c, uint32_t& next_id, uint32_t rem, int fam)
{
    VH h;
    switch (c.empty() ? 5 : choose(5)) {
    case 0: h = c; break;
    case 1: h.assign(c.rbegin(), c.rend()); break;
    case 2: h = {c[0], leaf_hash(next_id++, fam)}; break;
    case 3: h = {leaf_hash(next_id++, fam), c.back()}; break;
    case 4:
        for (size_t i = c.size(); i-- > 0;) if (i & 1) h.push_back(c[i]);
        h.push_back(leaf_hash(next_id++, fam));
        for (size_t i = 0; i < c.size(); i += 2) h.push_back(c[i]);
        break;
    case 5: h = {leaf_hash(next_id++, fam)}; break;
    }
    std::vector<Leaf> v;
    for (size_t i = 0; i < h.size(); i++) v.push_back({h[i], bool(rem >> (i & 31) & 1)});
    return v;
}
// the hashes of leaves 0..ids-1 that are not among the leaves that stay when d is deleted
inline VH gone(const VH& leaves, const V64& d, uint32_t ids, int fam)
{
    VH v, stay;
    for (uint64_t i = 0, k = 0; i < leaves.size(); i++) {
        if (k < d.size() && d[k] == i) k++;
        else stay.push_back(leaves[i]);
    }
    for (uint32_t i = 0; i < ids; i++)
        if (std::find(stay.begin(), stay.end(), leaf_hash(i, fam)) == stay.end()) v.push_back(leaf_hash(i, fam));
    return v;
}
inline uint64_t key(const VH& v)
{
    mc::Hasher h;
    for (auto& x : v) h.bytes(x);
    return h.u(v.size()).h;
}

// everything a user can see of a forest equals the reference
inline void check_forest(const RamForest& f, const ref::Forest& r, const char* when)
{
    VH lv = r.leaves();
    require(f.NumLeaves() == lv.size(), "%s: forest has %llu leaves, expected %zu", when, (unsigned long long)f.NumLeaves(), lv.size());
    VH got = roots_of(f), want = r.roots();
    require(got == want, "%s: roots %s, expected %s", when, str(got).c_str(), str(want).c_str());
    for (uint64_t i = 0; i < lv.size(); i++) {
        Hash h = f.GetLeaf(i);
        require(h == lv[i], "%s: leaf %llu is %s, expected %s", when, (unsigned long long)i, hx(h).c_str(), hx(lv[i]).c_str());
    }
}
// the forest's own index agrees: every leaf is proven at its position with the right hashes
inline void check_proof(const Accumulator& f, const ref::Forest& r, const VH& lv, const V64& order, const char* when)
{
    // the object to be filled in may have been used before
    BatchProof bp;
    if (order.size() % 3 == 1) bp = BatchProof({lv.size() + 3, 1}, {leaf_hash(90005), leaf_hash(90006)});
    VH th = pick(lv, order);
    bool ok = f.Prove(bp, th);
    require(ok, "%s: leaves %s cannot be proven", when, str(order).c_str());
    V64 s(order);
    std::sort(s.begin(), s.end());
    require(bp.GetTargets() == order, "%s: proof of %s has targets %s", when, str(order).c_str(), str(bp.GetTargets()).c_str());
    require(bp.GetSortedTargets() == s, "%s: proof of %s has sorted targets %s", when, str(order).c_str(), str(bp.GetSortedTargets()).c_str());
    VH want = r.proof(s);
    mc::outcome(mc::Hasher().u(key(want)).u(s.size()).h);
    require(bp.GetHashes() == want, "%s: proof of %s has hashes %s, expected %s", when, str(order).c_str(), str(bp.GetHashes()).c_str(), str(want).c_str());
}

inline bool thorough()
{
    static const char* t = getenv("VERIF_TIER");
    return t && !strcmp(t, "thorough");
}
// bounds: quick run, thorough run, run under the address sanitizer (slower, same scenarios)
inline int B(int quick, int thor, int asan)
{
#if defined(__SANITIZE_ADDRESS__) || defined(MC_SMALL)
    return thorough() ? quick : asan;
#else
    return thorough() ? thor : quick;
#endif
}
// Sizes and deletion sets beyond what fits into 7 and 8 bits, for counters of that width.
inline uint64_t choose_wide_n(int most)
{
    static const uint64_t N[] = {129, 256, 257, 300, 128, 255, 511, 513, 600, 769, 1030, 127, 512, 1280};
    return N[choose(most)];
}
inline V64 choose_wide(uint64_t n)
{
    V64 v;
    auto add = [&](uint64_t a, uint64_t b, uint64_t s) {
        for (uint64_t i = a; i < b && i < n; i += s) v.push_back(i);
    };
    switch (choose(16)) {
    case 0: add(0, n, 1); break;
    case 1: add(1, n, 1); break;
    case 2: add(0, n - 1, 1); break;
    case 3: add(0, n, 2); break;
    case 4: add(1, n, 2); break;
    case 5: add(0, n, 3); break;
    case 6: add(1, n, 5); break;
    case 7: add(0, n / 2, 1); break;
    case 8: add(n / 4, 3 * n / 4, 1); break;
    case 9: add(0, 256, 1); break;
    case 10: add(1, 258, 1); break;
    case 11: for (uint64_t i = 0; i < n; i++) if (i % 17) v.push_back(i); break;
    case 12: for (uint64_t i = 0; i < n; i++) if (i % 4 == 1 || i % 4 == 2) v.push_back(i); break;
    case 13: add(n / 2, n, 1); break;
    case 14: add(0, 128, 1); add(n - 1, n, 1); break;
    case 15: add(n - n / 3, n, 1); break;
    }
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
// The same beyond 16 bits.
inline uint64_t choose_bulk_n(int most)
{
    static const uint64_t N[] = {(3 << 16) + 1, (1 << 17) - 1, (1 << 16) + 300, 5 << 16};
    return N[choose(most)];
}
inline V64 choose_bulk(uint64_t n, int most)
{
    V64 v;
    auto add = [&](uint64_t a, uint64_t b, uint64_t s) {
        for (uint64_t i = a; i < b && i < n; i += s) v.push_back(i);
    };
    const uint64_t K = 1 << 16;
    switch (choose(most)) {
    case 0: add(0, K, 1); break;              // a whole subtree, or more
    case 1: v = {0}; break;
    case 2: add(0, n, 1); break;
    case 3: add(1, n, 1); break;
    case 4: add(K - 1, K + 2, 1); break;
    case 5: for (uint64_t i = 0; i < n; i++) if (i % 1024) v.push_back(i); break;
    case 6: add(K / 2, K, 1); add(n - 2, n, 1); break;
    case 7: add(0, n, 2); break;
    case 8: add(K, 2 * K, 1); break;
    }
    return v;
}
// leaf counts at and around powers of two and sums of two powers, up to 2^62
inline uint64_t boundary_n(int maxe)
{
    int e = 5 + choose(maxe - 4);
    uint64_t n = 1ull << e;
    int k = choose(3 + e);
    if (k < 3) n += k - 1;
    else n += (1ull << (k - 3)) + choose(2) * ((1ull << ((k - 3) / 2)) - 1);
    return std::min<uint64_t>(n, 1ull << 62);
}
inline V64 boundary_targets(uint64_t n, int k)
{
    // k targets out of: ends, block boundaries
    V64 c;
    for (uint64_t x : std::initializer_list<uint64_t>{0, 1, 2, 3, 4, n / 2 - 1, n / 2, n - 1, n - 2, n - 3, n & (n - 1), (n & (n - 1)) - 1, (n & (n - 1)) - 2, n / 3, n / 3 + 1, 1ull << 31, 1ull << 32, (1ull << 32) + 1})
        if (x < n) c.push_back(x);
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    V64 t;
    unsigned at = 0;
    for (int i = 0; i < k; i++) {
        if (at >= c.size()) break;
        unsigned j = at + choose(unsigned(c.size() - at));
        t.push_back(c[j]);
        at = j + 1;
    }
    return t;
}
} // namespace sys
