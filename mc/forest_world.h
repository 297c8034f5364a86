// A RamForest driven in lockstep with the reference model, with its undo stack.
#pragma once
#include "sys.h"
namespace sys {

struct FW {
    std::unique_ptr<RamForest> f;
    ref::Forest r;
    uint32_t id = 0;
    int fam;
    struct U {
        UndoBatch u;
        ref::Forest before;
        V64 dels;
        size_t adds;
        std::vector<Leaf> leaves;
    };
    std::vector<U> undo;
    explicit FW(int fam_ = FAM_SPREAD) : f(new RamForest(0)), fam(fam_) {}
    FW(const std::string& file, int fam_) : f(new RamForest(file)), fam(fam_) {}

    void block(const V64& dels, int adds, const char* when)
    {
        block(dels, mk_leaves(id, adds, 0, fam), when);
    }
    // what was in the forest before may be added again
    std::vector<Leaf> returning(const V64& dels, uint32_t rem = 0) { return choose_returning(gone(r.leaves(), dels, id, fam), id, rem, fam); }
    void block(const V64& dels, const std::vector<Leaf>& l, const char* when)
    {
        const int adds = int(l.size());
        step("block: delete %s, add %d", str(dels).c_str(), adds);
        UndoBatch u;
        if (adds % 2) u = UndoBatch(9, {4, 5}, {leaf_hash(90008), leaf_hash(90009)}); // to be overwritten
        bool ok = f->Modify(u, l, dels);
        require(ok, "%s: valid block (delete %s, add %d) refused", when, str(dels).c_str(), adds);
        undo.push_back({u, r, dels, size_t(adds), l});
        r.remove(dels);
        for (auto& x : l) r.add(x.first);
        mc::state(key(r.roots()));
    }
    // how: 0 the batch itself, 1 its serialized form read into a fresh object, 2 read into a used object
    void undo_last(int how, const char* when)
    {
        U x = undo.back();
        undo.pop_back();
        step("undo (delete %s, add %zu) how=%d", str(x.dels).c_str(), x.adds, how);
        UndoBatch u = x.u;
        if (how) {
            std::vector<uint8_t> b;
            x.u.Serialize(b);
            UndoBatch v;
            if (how == 2) v = UndoBatch(7, {1, 2, 3}, {leaf_hash(90001), leaf_hash(90002), leaf_hash(90003)});
            require(v.Unserialize(b), "%s: serialized undo data is refused", when);
            u = v;
        }
        require(f->Undo(u), "%s: undo refused", when);
        r = x.before;
        mc::state(key(r.roots()));
    }
    void check(const char* when) const { check_forest(*f, r, when); }
    void check_all(const char* when) const
    {
        check_forest(*f, r, when);
        VH lv = r.leaves();
        for (uint64_t i = 0; i < lv.size(); i++) check_proof(*f, r, lv, {i}, when);
        if (!lv.empty()) {
            V64 a;
            for (uint64_t i = 0; i < lv.size(); i++) a.push_back(i);
            check_proof(*f, r, lv, a, when);
        }
        // the hashes of internal nodes, and of leaves never added, are not leaves
        BatchProof bp;
        require(!f->Prove(bp, {leaf_hash(id + 1000, fam)}), "%s: a hash that was never added can be proven", when);
    }
};

// Structured deletion sets of n leaves for sizes where all subsets are too many: singles, pairs, triples of
// neighbours, intervals, complements of intervals, strides, complements of pairs and aligned blocks.
inline V64 choose_structured(uint64_t n)
{
    V64 v;
    auto iv = [&](bool inside) {
        uint64_t a = choose(unsigned(n + 1)), b = choose(unsigned(n + 1 - a));
        for (uint64_t i = 0; i < n; i++)
            if ((i >= a && i < a + b) == inside) v.push_back(i);
    };
    switch (choose(6)) {
    case 0: iv(true); break;
    case 1: iv(false); break;
    case 2: { // pairs
        if (n < 2) { choose(1); break; }
        uint64_t a = choose(unsigned(n - 1)), b = a + 1 + choose(unsigned(n - 1 - a));
        v = {a, b};
        break;
    }
    case 3: { // complement of pairs
        if (n < 2) { choose(1); break; }
        uint64_t a = choose(unsigned(n - 1)), b = a + 1 + choose(unsigned(n - 1 - a));
        for (uint64_t i = 0; i < n; i++)
            if (i != a && i != b) v.push_back(i);
        break;
    }
    case 4: { // strides
        uint64_t k = 2 + choose(6), o = choose(unsigned(k));
        for (uint64_t i = o; i < n; i += k) v.push_back(i);
        break;
    }
    case 5: { // one leaf of each of two neighbouring aligned blocks, plus the last leaf
        uint64_t b = 1ull << choose(5), k = choose(unsigned(n / b + 1));
        for (uint64_t i : {k * b, k * b + b + 1, n - 1})
            if (n && i < n && (v.empty() || v.back() < i)) v.push_back(i);
        break;
    }
    }
    return v;
}
} // namespace sys
