// A Pollard driven in lockstep with the reference model and with the set of leaves it must remember.
#pragma once
#include "sys.h"
#include <set>
namespace sys {

// A pollard in lockstep with the reference and with the set of leaves it must remember.
struct PW {
    std::unique_ptr<Pollard> p;
    ref::Forest r;
    std::set<Hash> M;
    uint32_t id = 0;
    int fam;
    explicit PW(int fam_ = FAM_SPREAD) : p(new Pollard(0)), fam(fam_) {}

    void mark() const
    {
        mc::Hasher h;
        h.u(key(r.roots()));
        for (auto& m : M) h.bytes(m);
        mc::state(h.h);
    }
    // leaves of the (fully known) reference, and positions of the remembered ones
    V64 remembered_positions() const
    {
        V64 v;
        VH lv = r.leaves();
        for (uint64_t i = 0; i < lv.size(); i++)
            if (M.count(lv[i])) v.push_back(i);
        return v;
    }
    // positions whose hashes the pollard must hold: the proof of every single remembered leaf
    std::set<uint64_t> cached_positions() const
    {
        std::set<uint64_t> s;
        ref::Geo g(r.n());
        for (uint64_t m : remembered_positions())
            for (uint64_t x : g.proof_positions({m})) s.insert(x);
        return s;
    }
    void roots(const char* when) const
    {
        require(p->NumLeaves() == r.n(), "%s: %llu leaves, expected %llu", when, (unsigned long long)p->NumLeaves(), (unsigned long long)r.n());
        VH got = roots_of(*p), want = r.roots();
        require(got == want, "%s: roots %s, expected %s", when, str(got).c_str(), str(want).c_str());
    }
    // every remembered leaf, every pair of them (of more than a dozen: two pairs each) and all together can be proven, with exactly the right proof
    void memory(const char* when) const
    {
        require(p->NumCachedLeaves() == M.size(), "%s: %llu leaves remembered, expected %zu", when, (unsigned long long)p->NumCachedLeaves(), M.size());
        V64 at = remembered_positions();
        require(at.size() == M.size(), "harness: remembered leaf not in the forest");
        VH lv = r.leaves();
        for (size_t i = 0; i < at.size(); i++) {
            check_proof(*p, r, lv, {at[i]}, when);
            for (size_t j = 0; j < i; j++)
                if (at.size() <= 12 || j + 1 == i || j == i / 2) check_proof(*p, r, lv, {at[i], at[j]}, when);
        }
        if (at.size() > 2) check_proof(*p, r, lv, at, when);
    }
    // nothing is held beyond the roots and, for every remembered leaf, its path and the path's siblings
    uint64_t size_bound() const
    {
        ref::Geo g(r.n());
        std::set<std::pair<int, uint64_t>> s;
        for (int k = 0; k <= g.rows; k++)
            if (g.has_root(k)) s.insert({k, g.count(k) - 1});
        for (uint64_t m : remembered_positions())
            for (int k = 0; !g.is_root(k, m >> k); k++) {
                s.insert({k, m >> k});
                s.insert({k, m >> k ^ 1});
            }
        return s.size();
    }
    void size(const char* when) const
    {
        uint64_t b = size_bound(), c = p->CountNodes();
        require(c <= b, "%s: %llu nodes are held where %llu suffice", when, (unsigned long long)c, (unsigned long long)b);
    }
    // whatever the pollard is willing to prove is right; deleted and unknown hashes are not provable
    void honest(const char* when) const
    {
        VH lv = r.leaves();
        ref::Geo g(r.n());
        for (uint64_t i = 0; i < lv.size(); i++) {
            BatchProof bp;
            if (p->Prove(bp, {lv[i]})) check_proof(*p, r, lv, {i}, when);
        }
        for (uint32_t k = 0; k < id; k++) {
            Hash h = leaf_hash(k, fam);
            BatchProof bp;
            if (std::find(lv.begin(), lv.end(), h) == lv.end()) require(!p->Prove(bp, {h}), "%s: deleted leaf %s can be proven", when, hx(h).c_str());
        }
    }
    void everything(const char* when) const
    {
        roots(when);
        memory(when);
        honest(when);
    }

    void fill(int n, uint32_t rem)
    {
        step("add %d leaves, remember mask %x", n, rem);
        auto l = mk_leaves(id, n, rem, fam);
        require(p->Modify(l, {}), "adding leaves refused");
        note_adds(l);
        mark();
    }
    void note_adds(const std::vector<Leaf>& l)
    {
        for (auto& x : l) {
            r.add(x.first);
            if (x.second) M.insert(x.first);
        }
    }
    // omit: drop from the proof what the pollard is bound to hold (0 nothing, 1 everything)
    void verify(const V64& t, bool omit, const char* when)
    {
        step("verify %s%s", str(t).c_str(), omit ? " with the shortest proof" : "");
        VH lv = r.leaves(), full = r.proof(t), pr;
        V64 pos = ref::Geo(r.n()).proof_positions(t);
        std::set<uint64_t> c;
        if (omit) c = cached_positions();
        for (size_t i = 0; i < pos.size(); i++)
            if (!c.count(pos[i])) pr.push_back(full[i]);
        VH th = pick(lv, t);
        require(p->Verify(BatchProof(t, pr), th), "%s: honest proof of %s rejected", when, str(t).c_str());
        for (auto& h : th) M.insert(h);
        mark();
    }
    void apply(const V64& d, int adds, uint32_t rem, const char* when) { apply(d, mk_leaves(id, adds, rem, fam), when); }
    void apply(const V64& d, const std::vector<Leaf>& l, const char* when)
    {
        uint32_t rem = 0;
        for (size_t i = 0; i < l.size() && i < 32; i++) rem |= uint32_t(l[i].second) << i;
        step("modify: delete %s, add %zu remember mask %x", str(d).c_str(), l.size(), rem);
        require(p->Modify(l, d), "%s: deletion of %s refused", when, str(d).c_str());
        commit_ref(d, l);
    }
    void commit_ref(const V64& d, const std::vector<Leaf>& l)
    {
        VH lv = r.leaves();
        for (auto x : d) M.erase(lv[x]);
        r.remove(d);
        note_adds(l);
        mark();
    }
    // mode 0: verify the full proof first, 1: the shortest proof, 2: no proof at all (the leaves may or may
    // not be remembered).  Returns false if the combination is a duplicate of another one.
    bool block(const V64& d, int adds, uint32_t rem, int mode, const char* when)
    {
        if (d.empty() && mode) return false;
        if (mode == 1) {
            bool any = false;
            std::set<uint64_t> c = cached_positions();
            for (uint64_t x : ref::Geo(r.n()).proof_positions(d)) any |= c.count(x) > 0;
            if (!any) return false;
        }
        if (mode < 2) {
            if (!d.empty()) verify(d, mode == 1, when);
            apply(d, adds, rem, when);
            return true;
        }
        VH lv = r.leaves();
        bool all = true;
        for (auto x : d) all &= M.count(lv[x]) > 0;
        if (all) {
            apply(d, adds, rem, when);
            return true;
        }
        step("modify without proof: delete %s, add %d remember mask %x", str(d).c_str(), adds, rem);
        uint32_t keep = id;
        auto l = mk_leaves(id, adds, rem, fam);
        if (p->Modify(l, d)) commit_ref(d, l);
        else id = keep; // nothing may have changed
        return true;
    }
};
} // namespace sys
