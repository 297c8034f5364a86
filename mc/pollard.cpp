// The pollard (pruned accumulator): C06 roots, C07 completeness, C08 soundness, C09 rejected proofs leave no
// trace, C10 remembered leaves, C11 prune and restore, C12 refused modifications.
#include "pollard_world.h"
using namespace sys;
typedef std::vector<mc::Scenario> Scn;

// additions of a block: (number, remember mask) pairs, simplest first
static void choose_adds(int max, int& k, uint32_t& rem)
{
    static const struct { int k; uint32_t m; } T[] = {{0, 0}, {1, 0}, {1, 1}, {2, 0}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 5}, {4, 8}};
    int c = choose(max == 0 ? 1 : max == 1 ? 3 : max == 2 ? 7 : 10);
    k = T[c].k;
    rem = T[c].m;
}
static uint32_t some_mask(int n, int full) // all masks up to `full` leaves, a few patterns beyond
{
    if (n <= full) return choose(1u << n);
    static const uint32_t T[] = {0, 1, 0xaaaaaaaau, 0x55555555u, 0xffffffffu, 0x11111111u, 0x80808080u, 6};
    return T[choose(8)] & ((1u << n) - 1);
}

// shape: fill, then `blocks` blocks, `between` called after each
static void history(PW& w, int nmax, int blocks, int adds1, int adds2, int nlimit, const std::function<void(const char*)>& audit)
{
    int n = choose(nmax + 1);
    w.fill(n, some_mask(n, 6));
    audit("after fill");
    for (int b = 0; b < blocks; b++) {
        if (w.r.n() > (uint64_t)nlimit) return;
        V64 d = choose_subset(w.r.n());
        int mode = d.empty() ? 0 : choose(3);
        int k;
        uint32_t rem;
        choose_adds(b == 0 ? adds1 : adds2, k, rem);
        if (!w.block(d, k, rem, mode, "block")) return;
        audit("after block");
    }
}

// ------------------------------------------------------------------------------------------- huge forests
// A forest of n leaves of which only a few are known; everything else is opaque subtrees.
struct Sparse {
    ref::Forest r;
    VH known; // hashes of the known leaves
    uint32_t op = 500000;
    ref::TP opaque() { return ref::mk_leaf(leaf_hash(op++)); }
    // a tree of the given row with a known subtree of 2^min(row,2) leaves at the place chosen by `path`
    ref::TP tree(int row, uint64_t path, uint32_t& id)
    {
        if (row <= 2) return full(row, id);
        ref::TP in = tree(row - 1, path >> 1, id), out = opaque();
        return path & 1 ? ref::mk_node(out, in) : ref::mk_node(in, out);
    }
    ref::TP full(int row, uint32_t& id)
    {
        if (row == 0) {
            Hash h = leaf_hash(id++);
            known.push_back(h);
            return ref::mk_leaf(h);
        }
        ref::TP a = full(row - 1, id);
        return ref::mk_node(a, full(row - 1, id));
    }
    // which: bit r set: the tree of row r has a known part
    Sparse(uint64_t n, uint64_t which, uint64_t path)
    {
        uint32_t id = 0;
        for (int r_ = 0; r_ < 64; r_++) {
            this->r.root.push_back(nullptr);
            if (n >> r_ & 1) this->r.root[r_] = which >> r_ & 1 ? tree(r_, path, id) : opaque();
        }
    }
    static void find(const ref::TP& t, int row, uint64_t at, std::map<Hash, uint64_t>& m)
    {
        if (row == 0) { m[t->h] = at; return; }
        if (!t->l) return;
        find(t->l, row - 1, at, m);
        find(t->r, row - 1, at + (1ull << (row - 1)), m);
    }
    static std::map<Hash, uint64_t> positions(const ref::Forest& r)
    {
        std::map<Hash, uint64_t> m;
        uint64_t at = 0;
        for (size_t k = r.root.size(); k-- > 0;)
            if (r.root[k]) { find(r.root[k], int(k), at, m); at += 1ull << k; }
        return m;
    }
};
static const uint64_t HUGE_N[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 6, (1ull << 33) + (1ull << 32) + 5,
                                  (1ull << 40) + (1ull << 33) + 3, (1ull << 40) - 1, (1ull << 47) + 12, (1ull << 62) - 1, (1ull << 61) + (1ull << 31) + 2};
// verify + delete in huge forests; `mode` as in PW::block
static const std::string HUGE_WHAT = std::to_string(B(7, 13, 4)) + " forests of 2^31-1 to 2^62 leaves";
static void sparse_body(bool prove, bool reject, bool forget = false, bool count = false)
{
    static const int PICK[2][7] = {{2, 8, 11, 5, 0, 0, 0}, {0, 2, 4, 5, 7, 9, 11}};
    const int some = B(7, 0, 4); // 0: all sizes
    uint64_t n = HUGE_N[some ? PICK[some == 7][choose(some)] : choose(sizeof HUGE_N / sizeof *HUGE_N)];
    static const uint64_t PATH[] = {0, ~0ull, 0x5555555555555555ull, 0x123456789abcdefull};
    uint64_t path = PATH[choose(4)];
    // known: the tallest tree, the smallest one, and one in between
    uint64_t hi = 1ull << (63 - __builtin_clzll(n)), lo = n & -n, mid = 0;
    for (int b = 0, k = 0; b < 64; b++)
        if (n >> b & 1 && ++k == 3) mid = 1ull << b;
    Sparse s(n, hi | lo | mid, path);
    std::unique_ptr<Pollard> pp(new Pollard(s.r.roots(), n));
#define p (*pp)
    require(p.NumLeaves() == n && roots_of(p) == s.r.roots(), "restored pollard of %llu leaves has other roots", (unsigned long long)n);
    std::set<Hash> M;
    VH live = s.known;
    auto verify = [&](const VH& hs, const char* when) {
        auto at = Sparse::positions(s.r);
        std::map<uint64_t, Hash> m;
        for (auto& h : hs) m[at.at(h)] = h;
        V64 t;
        VH th;
        for (auto& kv : m) { t.push_back(kv.first); th.push_back(kv.second); }
        step("%s: verify %s of %llu", when, str(t).c_str(), (unsigned long long)s.r.n());
        VH pr = s.r.proof(t);
        if (reject) {
            VH bad = th;
            bad[0][5] ^= 1;
            require(!p.Verify(BatchProof(t, pr), bad), "%s: wrong hash for leaf %llu accepted", when, (unsigned long long)t[0]);
            V64 t2(t);
            t2[0] ^= 1ull << 31;
            if (std::is_sorted(t2.begin(), t2.end())) require(!p.Verify(BatchProof(t2, pr), th), "%s: leaf %llu accepted at position %llu", when, (unsigned long long)t[0], (unsigned long long)t2[0]);
            t2 = t;
            t2[0] ^= 1ull << 32;
            if (std::is_sorted(t2.begin(), t2.end())) require(!p.Verify(BatchProof(t2, pr), th), "%s: leaf %llu accepted at position %llu", when, (unsigned long long)t[0], (unsigned long long)t2[0]);
            if (!pr.empty()) {
                VH bp = pr;
                bp.back()[0] ^= 0x80;
                bool full_cached = true;
                for (auto& h : hs) full_cached &= M.count(h) > 0;
                if (!full_cached) require(!p.Verify(BatchProof(t, bp), th), "%s: altered proof accepted", when);
            }
        }
        require(p.Verify(BatchProof(t, pr), th), "%s: honest proof of %s rejected", when, str(t).c_str());
        for (auto& h : hs) M.insert(h);
        return t;
    };
    auto audit = [&](const char* when) {
        require(p.NumLeaves() == s.r.n(), "%s: %llu leaves, expected %llu", when, (unsigned long long)p.NumLeaves(), (unsigned long long)s.r.n());
        require(roots_of(p) == s.r.roots(), "%s: wrong roots for %llu leaves", when, (unsigned long long)s.r.n());
        mc::state(key(s.r.roots()));
        if (count) {
            ref::Geo g(s.r.n());
            auto at = Sparse::positions(s.r);
            std::set<std::pair<int, uint64_t>> need;
            for (int k = 0; k <= g.rows; k++)
                if (g.has_root(k)) need.insert({k, g.count(k) - 1});
            for (auto& h : M)
                for (int k = 0; !g.is_root(k, at.at(h) >> k); k++) {
                    need.insert({k, at.at(h) >> k});
                    need.insert({k, at.at(h) >> k ^ 1});
                }
            uint64_t c = p.CountNodes();
            require(c <= need.size(), "%s: %llu nodes are held where %zu suffice", when, (unsigned long long)c, need.size());
        }
        if (!prove) return;
        require(p.NumCachedLeaves() == M.size(), "%s: %llu leaves remembered, expected %zu", when, (unsigned long long)p.NumCachedLeaves(), M.size());
        auto at = Sparse::positions(s.r);
        for (auto& h : M) {
            BatchProof bp;
            require(p.Prove(bp, {h}), "%s: remembered leaf %llu cannot be proven", when, (unsigned long long)at.at(h));
            require(bp.GetTargets() == V64{at.at(h)} && bp.GetHashes() == s.r.proof({at.at(h)}), "%s: wrong proof for leaf %llu", when, (unsigned long long)at.at(h));
        }
    };
    // remember one leaf (not deleted by the first block unless chosen again)
    verify({live[choose(std::min<unsigned>(live.size(), 3))]}, "remember");
    audit("after remembering");
    const bool prune = forget && flip();
    auto lose = [&]() {
        if (!forget) return;
        step(prune ? "prune" : "restore from roots");
        if (prune) p.Prune();
        else pp.reset(new Pollard(roots_of(p), p.NumLeaves()));
        M.clear();
        audit("after prune/restore");
        require(p.CountNodes() == s.r.roots().size(), "%llu nodes are kept for %zu roots", (unsigned long long)p.CountNodes(), s.r.roots().size());
    };
    uint32_t id = 90000;
    for (int b = 0; b < B(2, 2, 1); b++) {
        VH d;
        if (live.empty()) return;
        lose();
        // a block deletes one or two known leaves, or four neighbours
        uint64_t i = choose(live.size());
        d.push_back(live[i]);
        switch (choose(3)) {
        case 0: break;
        case 1: {
            uint64_t j = i + 1 + choose(std::min<unsigned>(live.size(), 4));
            if (j >= live.size()) return;
            d.push_back(live[j]);
            break;
        }
        case 2:
            if (i + 3 >= live.size() || i % 4) return;
            for (int k = 1; k < 4; k++) d.push_back(live[i + k]);
            break;
        }
        V64 t = verify(d, b ? "block 2" : "block 1");
        auto l = mk_leaves(id, b ? 0 : choose(2) * 2, 1, FAM_SPREAD);
        step("delete %s, add %zu", str(t).c_str(), l.size());
        require(p.Modify(l, t), "deletion of %s refused", str(t).c_str());
        s.r.remove(t);
        for (auto& h : d) {
            M.erase(h);
            live.erase(std::find(live.begin(), live.end(), h));
        }
        for (auto& x : l) {
            s.r.add(x.first);
            if (x.second) M.insert(x.first);
            live.push_back(x.first);
        }
        audit("after block");
    }
    lose();
#undef p
}

// Blocks that add leaves which were there before, remembered or not then and now.  After each block, t more leaves are verified.
static void returning_body(int N, int blocks, const std::function<void(PW&, const char*)>& audit)
{
    PW w;
    int n = choose(N + 1);
    w.fill(n, n <= 4 ? choose(1u << n) : some_mask(n, choose(4)));
    for (int i = 0; i < blocks; i++) {
        V64 d = choose_subset(w.r.n());
        static const uint32_t R[] = {0, ~0u, 0x55555555};
        auto l = choose_returning(gone(w.r.leaves(), d, w.id, w.fam), w.id, R[choose(3)], w.fam);
        if (!d.empty()) w.verify(d, flip(), "verify");
        w.apply(d, l, "block");
        audit(w, "after block");
    }
    uint64_t m = w.r.n();
    if (!m) return;
    V64 t{choose(unsigned(m))};
    w.verify(t, true, "verify afterwards");
    audit(w, "after verification");
    w.apply(t, 1, 1, "last block");
    audit(w, "after the last block");
}

// large blocks on pollards of some hundred leaves
static void wide_body(int most, const std::function<void(PW&, const char*)>& audit)
{
    PW w;
    uint64_t n = choose_wide_n(most);
    int pat = choose(3);
    for (uint64_t i = 0; i < n; i++) {
        Hash h = leaf_hash(w.id++, w.fam);
        bool rem = pat == 0 ? false : pat == 1 ? i % 7 == 3 : i % 32 < 5;
        require(w.p->Modify({{h, rem}}, {}), "adding a leaf refused");
        w.note_adds({{h, rem}});
    }
    static const int A[] = {0, 1, 130, 300};
    V64 d = choose_wide(n);
    int a = A[choose(4)];
    w.verify(d, pat && flip(), "verify");
    audit(w, "after verification");
    w.apply(d, a, 0x10001, "block");
    audit(w, "after block");
    V64 e;
    for (uint64_t i = 0; i < w.r.n(); i++)
        if (i % 5 == 2 || i + 4 > w.r.n()) e.push_back(i);
    w.verify(e, true, "verify again");
    w.apply(e, 2, 1, "block 2");
    audit(w, "after block 2");
}

#ifndef __SANITIZE_ADDRESS__
// blocks beyond what fits into 16 bits
static void bulk_body(int sizes, int sets, const std::function<void(PW&, const char*)>& audit)
{
    uint64_t n = choose_bulk_n(sizes);
    V64 d = choose_bulk(n, sets);
    int add = flip() ? 65537 : 0;
    mc::slow(60);
    PW w;
    auto l = mk_leaves(w.id, int(n), 0, w.fam);
    for (uint64_t i = 5; i < n; i += 8192) l[i].second = true;
    step("add %llu leaves, every 8192nd remembered", (unsigned long long)n);
    require(w.p->Modify(l, {}), "adding leaves refused");
    w.note_adds(l);
    w.verify(d, false, "verify");
    audit(w, "after verification");
    w.apply(d, add, 4, "block");
    w.roots("after block");
    V64 e;
    for (uint64_t i = 1; i < w.r.n(); i += 777) e.push_back(i);
    w.verify(e, false, "verify again");
    w.apply(e, 2, 1, "block 2");
    w.roots("after block 2");
}
#endif

// long lives: 300 blocks of one of 6 shapes on a pollard of 0 to 40 leaves
static void long_body(int blocks, const std::function<void(PW&, const char*)>& audit)
{
    PW w;
    int shape = choose(6), start = choose(4) * 13;
    if (start) w.fill(start, some_mask(start, 0));
    for (int i = 0; i < blocks; i++) {
        uint64_t n = w.r.n();
        V64 d;
        int add = 0;
        switch (shape) {
        case 0: add = n < 40 ? 3 : 0; if (n) d = {i % n}; break;
        case 1: add = i % 3; if (n > 2) d = {n - 2, n - 1}; break;
        case 2: if (i & 1) for (uint64_t k = 0; k < n; k++) d.push_back(k); else add = 1 + i % 9; break;
        case 3: add = 2; if (n > 9) for (uint64_t k = i % 3; k < n; k += 3) d.push_back(k); break;
        case 4: add = 1; if (n > 33) d = {0, 1, 2, 3}; break;
        case 5: add = i % 40 < 20 ? 1 : 0; if (i % 40 >= 20 && n) d = {n / 2}; break;
        }
        if (!w.block(d, add, uint32_t(i * 0x9d) & 7, d.empty() ? 0 : i % 3, "block")) w.block(d, add, 0, 0, "block");
        audit(w, "after block");
        if (n > 80) return;
    }
}

// ------------------------------------------------------------------------------------------- C06
static Scn c06()
{
    Scn S;
    const int N1 = B(7, 8, 5), A1 = B(3, 3, 2);
    S.push_back({"one-block", mc::fmt("n<=%d leaves with every remember mask (patterns from 7 leaves on), a block: every subset, proof full / shortest / none, additions with remember masks; roots after every step", N1), 3, [=] {
        PW w;
        history(w, N1, 1, A1, 0, 99, [&](const char* m) { w.roots(m); });
    }});
    const int N2 = B(4, 5, 3), L2 = B(6, 7, 5);
    S.push_back({"two-blocks", mc::fmt("n<=%d leaves with every remember mask, two such blocks (at most %d leaves), against a full forest in lockstep", N2, L2), 4, [=] {
        PW w;
        RamForest f(0);
        history(w, N2, 2, 2, B(1, 2, 1), L2, [&](const char* m) { w.roots(m); });
    }});
    const int D3 = B(3, 4, 3), N3 = B(4, 4, 3);
    S.push_back({"lockstep", mc::fmt("every sequence of %d blocks (every subset with full proof, 0..2 additions, even leaves remembered) starting from nothing, pollard against full forest, at most %d leaves; leaf hash families", D3 + 1, N3), 3, [=] {
        PW w(choose(NFAM));
        RamForest f(0);
        for (int i = 0; i < D3 + 1; i++) {
            V64 d = choose_subset(w.r.n());
            int k = choose(3);
            if (w.r.n() - d.size() + k > (uint64_t)N3) return;
            uint32_t keep = w.id;
            UndoBatch u;
            auto l = mk_leaves(keep, k, 0, w.fam);
            VH th = pick(w.r.leaves(), d);
            BatchProof bp;
            require(f.Prove(bp, th) && w.p->Verify(bp, th), "the forest's proof of %s is rejected by the pollard", str(d).c_str());
            for (auto& h : th) w.M.insert(h);
            w.apply(d, k, 1, "block");
            require(f.Modify(u, l, d), "the forest refuses what the pollard accepts");
            require(roots_of(f) == roots_of(*w.p) && f.NumLeaves() == w.p->NumLeaves(), "pollard and forest disagree after the same blocks");
            w.roots("after block");
        }
    }});
    const int NL = B(24, 40, 14);
    S.push_back({"larger", mc::fmt("n in 8..%d and 31..33 with 8 remember patterns: deletion of every pair, interval complement and stride, proof full / shortest / none", NL), 4, [=] {
        int k = choose(NL - 8 + 1 + 3);
        int n = k <= NL - 8 ? 8 + k : 31 + (k - (NL - 8) - 1);
        PW w;
        w.fill(n, some_mask(n, 0));
        V64 d;
        uint64_t a = choose(n);
        switch (choose(3)) {
        case 0: { uint64_t b = a + choose(unsigned(n - a)); d = {a}; if (b > a) d.push_back(b); break; }
        case 1: { uint64_t b = a + choose(unsigned(n - a)); for (int i = 0; i < n; i++) if (i < (int)a || i > (int)b) d.push_back(i); break; }
        case 2: { uint64_t s = 2 + choose(4); if (a >= s) return; for (int i = a; i < n; i += s) d.push_back(i); break; }
        }
        if (!w.block(d, choose(2), 1, d.empty() ? 0 : choose(3), "block")) return;
        w.roots("after block");
    }});
    const int NW = B(14, 14, 3);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280, 3 remember patterns: 16 large deletion sets (up to every leaf) proven in full or in short, 0, 1, 130 or 300 additions, then another", NW), 3, [=] {
        wide_body(NW, [](PW& w, const char* m) { w.roots(m); });
    }});
    S.push_back({"long", mc::fmt("lives of %d blocks of 6 shapes, starting with 0, 13, 26 or 39 leaves of which some are remembered: roots after every block", B(300, 1200, 100)), 2, [=] {
        long_body(B(300, 1200, 100), [](PW& w, const char* m) { w.roots(m); });
    }});
#ifndef __SANITIZE_ADDRESS__
    const int NX = B(1, 4, 1), DX = B(7, 9, 4);
    S.push_back({"bulk", mc::fmt("%d sizes of about 65836 to 327680 leaves: %d deletion sets from one leaf to all, proven in full, 0 or 65537 additions; then a deletion of every 777th leaf", NX, DX), 3, [=] {
        bulk_body(NX, DX, [](PW& w, const char* m) { w.roots(m); });
    }});
#endif
    S.push_back({"huge", "pollards restored from the roots of 13 forests of 2^31-1 to 2^62 leaves (known leaves in three trees on four kinds of paths, the rest opaque): verify a leaf, two blocks that delete 1, 2 or 4 known leaves, 0 or 2 additions", 4, [=] { sparse_body(false, false); }});
    S.push_back({"returning", mc::fmt("n<=%d with every remember mask (patterns from 5 on), %d block(s) (every subset, proven in full or in short) adding leaves which were there before in 5 arrangements, remembered or not; then any leaf is verified and deleted", B(2, 3, 2), 2), 4, [=] { returning_body(B(2, 3, 2), 2, [](PW& w, const char* m) { w.roots(m); }); }});
    return S;
}

// ------------------------------------------------------------------------------------------- C07
static const size_t ORDERS = 4; // up to so many targets are asked for in every order
static void omit_and_verify(PW& w, const V64& t, int maxomit)
{
    VH lv = w.r.leaves(), full = w.r.proof(t), th = pick(lv, t);
    V64 pos = ref::Geo(w.r.n()).proof_positions(t);
    std::set<uint64_t> c = w.cached_positions();
    std::vector<size_t> can;
    for (size_t i = 0; i < pos.size(); i++)
        if (c.count(pos[i])) can.push_back(i);
    std::set<size_t> out;
    if ((int)can.size() <= maxomit) {
        unsigned m = choose(1u << can.size());
        for (size_t k = 0; k < can.size(); k++)
            if (m >> k & 1) out.insert(can[k]);
    } else { // none, all, all but one, only one
        unsigned m = choose(2 + 2 * can.size());
        for (size_t k = 0; k < can.size(); k++) {
            bool o = m == 0 ? false : m == 1 ? true : m < 2 + can.size() ? k != m - 2 : k == m - 2 - can.size();
            if (o) out.insert(can[k]);
        }
    }
    VH pr;
    for (size_t i = 0; i < full.size(); i++)
        if (!out.count(i)) pr.push_back(full[i]);
    V64 order(t);
    if (out.empty() && t.size() > 1) {
        if (t.size() <= ORDERS) { // every order
            unsigned f = 1;
            for (unsigned i = 2; i <= t.size(); i++) f *= i;
            for (unsigned o = choose(f); o; o--) std::next_permutation(order.begin(), order.end());
        } else { // rotations, forwards and backwards, and interleaved
            unsigned o = choose(2 * t.size() + 1);
            if (o == 2 * t.size()) std::stable_partition(order.begin(), order.end(), [](uint64_t x) { return x & 1; });
            else {
                std::rotate(order.begin(), order.begin() + o / 2, order.end());
                if (o & 1) std::reverse(order.begin(), order.end());
            }
        }
    }
    step("verify %s, %zu of %zu proof hashes given", str(order).c_str(), pr.size(), full.size());
    require(w.p->Verify(BatchProof(order, pr), th), "honest proof of %s (%zu of %zu hashes, the others are cached) rejected", str(t).c_str(), pr.size(), full.size());
    for (auto& h : th) w.M.insert(h);
    w.mark();
    // now everything is cached: the empty proof is enough, and the full one still works
    require(w.p->Verify(BatchProof(t, {}), th), "verified leaves %s are not accepted again without proof", str(t).c_str());
    require(w.p->Verify(BatchProof(t, full), th), "verified leaves %s are not accepted again with the full proof", str(t).c_str());
}
static Scn c07()
{
    Scn S;
    const int N1 = B(7, 8, 6);
    S.push_back({"fresh", mc::fmt("n<=%d with every remember mask (patterns from 7 on), optionally restored from roots; then every target set, in every order (rotations from %zu targets on), and every omission of cached proof hashes; repeated with empty and full proof", N1, ORDERS + 1), 3, [=] {
        PW w(choose(NFAM));
        int n = choose(N1 + 1);
        if (w.fam != FAM_SPREAD && n > 5) return;
        w.fill(n, some_mask(n, 6));
        if (flip()) {
            w.p.reset(new Pollard(w.r.roots(), w.r.n()));
            w.M.clear();
        }
        omit_and_verify(w, choose_subset(n), 4);
    }});
    const int N2 = B(6, 7, 4);
    S.push_back({"chained", mc::fmt("n<=%d, remember masks; two or three verifications in a row, each of any target set with the shortest or the full proof, the last with every omission", N2), 3, [=] {
        PW w;
        int n = choose(N2 + 1);
        w.fill(n, some_mask(n, 2));
        w.verify(choose_subset(n), flip(), "first");
        if (n <= 4 && flip()) w.verify(choose_subset(n), flip(), "second");
        omit_and_verify(w, choose_subset(n), 3);
    }});
    const int N3 = B(4, 5, 4), L3 = B(6, 7, 5);
    S.push_back({"after-blocks", mc::fmt("n<=%d with every remember mask, a block (every subset, three ways, additions with masks), then every target set (at most %d leaves) with every omission", N3, L3), 4, [=] {
        PW w;
        history(w, N3, 1, 2, 0, 99, [](const char*) {});
        if (w.r.n() > (uint64_t)L3) return;
        omit_and_verify(w, choose_subset(w.r.n()), 3);
    }});
    S.push_back({"larger", "n in 8..20 and 31..33, 4 remember patterns: every pair, interval and stride of targets; full and shortest proof", 4, [=] {
        int k = choose(16);
        int n = k < 13 ? 8 + k : 18 + k;
        PW w;
        w.fill(n, some_mask(n, 0));
        V64 d;
        uint64_t a = choose(n);
        switch (choose(3)) {
        case 0: { uint64_t b = a + choose(unsigned(n - a)); d = {a}; if (b > a) d.push_back(b); break; }
        case 1: { uint64_t b = a + choose(unsigned(n - a)); for (uint64_t i = a; i <= b; i++) d.push_back(i); break; }
        case 2: { uint64_t s = 2 + choose(4); if (a >= s) return; for (int i = a; i < n; i += s) d.push_back(i); break; }
        }
        w.verify(d, flip(), "verify");
    }});
    const int NW = B(14, 14, 3);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280, 3 remember patterns: 16 large sets of leaves verified in full or in short before and after a block that deletes them", NW), 3, [=] {
        wide_body(NW, [](PW&, const char*) {});
    }});
#ifndef __SANITIZE_ADDRESS__
    const int NX = B(1, 4, 1), DX = B(7, 9, 4);
    S.push_back({"bulk", mc::fmt("%d sizes of about 65836 to 327680 leaves: %d sets from one leaf to all, verified in full, and again without any proof", NX, DX), 3, [=] {
        bulk_body(NX, DX, [](PW& w, const char*) {
            V64 d = w.remembered_positions();
            require(w.p->Verify(BatchProof(d, {}), pick(w.r.leaves(), d)), "%zu remembered leaves are not accepted again without proof", d.size());
        });
    }});
#endif
    S.push_back({"huge", "pollards restored from the roots of 13 forests of 2^31-1 to 2^62 leaves: verification before and between blocks", 4, [=] { sparse_body(false, false); }});
    return S;
}

// ------------------------------------------------------------------------------------------- C08 / C09
// all node hashes of the forest, and some foreign ones
static VH alphabet(const PW& w, bool internals)
{
    VH a;
    auto rows = w.r.rows();
    for (size_t r = 0; r < rows.size(); r++)
        if (r == 0 || internals)
            for (auto& t : rows[r]) a.push_back(t->h);
    a.push_back(leaf_hash(70001, w.fam));
    Hash z;
    z.fill(0);
    if (std::find(a.begin(), a.end(), z) == a.end()) a.push_back(z);
    return a;
}
struct Msg {
    V64 t;
    VH th, pr;
};
// one deviation from an honest message; false: not applicable
static bool tamper(const PW& w, Msg& m, const VH& al, bool wide)
{
    uint64_t n = w.r.n();
    switch (choose(11)) {
    case 0: { // another hash for a target
        if (m.th.empty()) return false;
        uint64_t i = choose(m.th.size());
        m.th[i] = al[choose(al.size())];
        return true;
    }
    case 1: { // one bit of a target hash
        if (m.th.empty()) return false;
        m.th[choose(m.th.size())][choose(3) * 15] ^= 1;
        return true;
    }
    case 2: { // another proof hash
        if (m.pr.empty()) return false;
        uint64_t i = choose(m.pr.size());
        m.pr[i] = al[choose(al.size())];
        return true;
    }
    case 3: { // a proof hash is missing
        if (m.pr.empty()) return false;
        m.pr.erase(m.pr.begin() + choose(m.pr.size()));
        return true;
    }
    case 4: { // an extra proof hash
        uint64_t i = choose(m.pr.size() + 1);
        m.pr.insert(m.pr.begin() + i, al[choose(al.size())]);
        return true;
    }
    case 5: { // two target hashes exchanged
        if (m.th.size() < 2) return false;
        uint64_t i = choose(m.th.size() - 1);
        std::swap(m.th[i], m.th[i + 1 + choose(unsigned(m.th.size() - 1 - i))]);
        return true;
    }
    case 6: { // two proof hashes exchanged
        if (m.pr.size() < 2) return false;
        uint64_t i = choose(m.pr.size() - 1);
        std::swap(m.pr[i], m.pr[i + 1 + choose(unsigned(m.pr.size() - 1 - i))]);
        return true;
    }
    case 7: { // another position
        if (m.t.empty()) return false;
        uint64_t i = choose(m.t.size());
        ref::Geo g(n);
        uint64_t top = 2ull << g.rows;
        unsigned k = choose(unsigned(top + (wide ? 6 : 2)));
        uint64_t special[] = {~0ull, m.t[i] + (1ull << 32), 1ull << 63, (1ull << 32) - 1, m.t[i] | (1ull << 63), m.t[i] + top};
        m.t[i] = k < top ? k : special[k - top];
        return true;
    }
    case 8: { // an extra target without a hash, or a hash without target
        if (flip()) m.t.insert(m.t.begin() + choose(m.t.size() + 1), choose(unsigned(n + 1)));
        else m.th.insert(m.th.begin() + choose(m.th.size() + 1), al[choose(al.size())]);
        return true;
    }
    case 9: { // a target, or its hash, or both left out
        if (m.t.empty()) return false;
        uint64_t i = choose(m.t.size());
        int k = choose(3);
        if (k != 1) m.t.erase(m.t.begin() + i);
        if (k != 0 && i >= m.th.size()) return false;
        if (k != 0) m.th.erase(m.th.begin() + i);
        return true;
    }
    case 10: { // an extra target with a hash
        uint64_t i = choose(m.t.size() + 1);
        if (i > m.th.size()) return false;
        m.t.insert(m.t.begin() + i, choose(unsigned(n + 1)));
        m.th.insert(m.th.begin() + i, al[choose(al.size())]);
        return true;
    }
    }
    return false;
}
// Is the claim of the message true, and is every supplied hash the right one (a subsequence of the full proof)?
static bool claim_true(const PW& w, const Msg& m, bool& proof_fits)
{
    proof_fits = false;
    if (m.t.size() != m.th.size()) return false;
    V64 s(m.t);
    std::sort(s.begin(), s.end());
    if (!ref::sane_targets(s, w.r.n())) return false;
    VH lv = w.r.leaves();
    for (size_t i = 0; i < s.size(); i++)
        if (lv[s[i]] != m.th[i]) return false;
    VH full = w.r.proof(s);
    size_t k = 0;
    for (size_t i = 0; i < full.size() && k < m.pr.size(); i++)
        if (full[i] == m.pr[k]) k++;
    proof_fits = k == m.pr.size();
    return true;
}
// C08: accepted => true.   C09: rejected => no trace.
enum { SOUND = 1, TRACE = 2 };
static bool submit(PW& w, const Msg& m, int what)
{
    bool fits, truth = claim_true(w, m, fits);
    uint64_t nodes = w.p->CountNodes();
    step("submit targets %s hashes %s proof %s (claim is %s)", str(m.t).c_str(), str(m.th).c_str(), str(m.pr).c_str(), truth ? "true" : "false");
    bool ok = w.p->Verify(BatchProof(m.t, m.pr), m.th);
    mc::outcome(mc::Hasher().u(ok).u(truth).u(fits).u(m.t.size()).u(m.pr.size()).h);
    if (ok) {
        if (what & SOUND) {
            require(truth, "accepted: targets %s are not leaves %s", str(m.t).c_str(), str(m.th).c_str());
            require(fits, "accepted with proof hashes %s that do not belong to the proof", str(m.pr).c_str());
            w.roots("after an accepted proof");
        }
        if (truth)
            for (auto& h : m.th) w.M.insert(h);
    } else if (what & TRACE) {
        w.everything("after a rejected proof");
        require(w.p->CountNodes() == nodes, "a rejected proof left %lld nodes behind", (long long)(w.p->CountNodes() - nodes));
    }
    return ok;
}
// claims and proof for m.t
static void finish_msg(const PW& w, Msg& m, bool shortest)
{
    m.th = pick(w.r.leaves(), m.t);
    VH full = w.r.proof(m.t);
    V64 pos = ref::Geo(w.r.n()).proof_positions(m.t);
    std::set<uint64_t> c;
    if (shortest) c = w.cached_positions();
    for (size_t i = 0; i < pos.size(); i++)
        if (!c.count(pos[i])) m.pr.push_back(full[i]);
}
static Msg honest_msg(PW& w, bool shortest)
{
    Msg m;
    m.t = choose_subset(w.r.n());
    finish_msg(w, m, shortest);
    return m;
}
// some place of a list of k things: all of them if there are few
static size_t place(size_t k)
{
    if (k <= 11) return choose(unsigned(k));
    const size_t at[] = {0, 1, 7, k / 3, k / 2, k - 2, k - 1, std::min<size_t>(k - 1, 127), std::min<size_t>(k - 1, 128), std::min<size_t>(k - 1, 255), std::min<size_t>(k - 1, 256)};
    return at[choose(11)];
}
// one small deviation of a large message
static bool nudge(const PW& w, Msg& m)
{
    unsigned kind = choose(10);
    size_t T = m.t.size(), P = m.pr.size();
    if (kind <= 4 ? !T : kind <= 8 ? !P : false) return false;
    switch (kind) {
    case 0: m.th[place(T)][13] ^= 0x10; break;
    case 1: { size_t i = place(T); if (i + 1 >= T) return false; std::swap(m.th[i], m.th[i + 1]); break; }
    case 2: { size_t i = place(T); m.t[i] ^= 1; break; }
    case 3: { size_t i = place(T); m.t.erase(m.t.begin() + i); m.th.erase(m.th.begin() + i); break; }
    case 4: { size_t i = place(T); m.t.insert(m.t.begin() + i, m.t[i]); m.th.insert(m.th.begin() + i, m.th[i]); break; }
    case 5: m.pr[place(P)][13] ^= 0x10; break;
    case 6: { size_t i = place(P); if (i + 1 >= P) return false; std::swap(m.pr[i], m.pr[i + 1]); break; }
    case 7: m.pr.erase(m.pr.begin() + place(P)); break;
    case 8: { size_t i = place(P); m.pr.insert(m.pr.begin() + i, m.pr[i]); break; }
    case 9: m.pr.push_back(w.r.roots().back()); break;
    }
    return true;
}
// after the message, an honest block must still go through with the right result
static void go_on(PW& w)
{
    uint64_t n = w.r.n();
    if (!n) return;
    V64 d;
    switch (choose(3)) {
    case 0: d = {0}; break;
    case 1: d = {n - 1}; break;
    case 2: if (n < 3) return; d = {n / 2 - 1, n / 2}; break;
    }
    w.verify(d, false, "later proof");
    w.apply(d, 1, 1, "later block");
    w.everything("after a later block");
}
static Scn tampering(int what)
{
    Scn S;
    const int N1 = B(what == SOUND ? 6 : 5, 7, what == SOUND ? 4 : 3);
    S.push_back({"one-deviation", mc::fmt("n<=%d, remember masks (all up to 4 leaves); every target set with full or shortest proof, every single deviation of 11 kinds", N1), 4, [=] {
        PW w;
        int n = choose(N1 + 1);
        w.fill(n, some_mask(n, 4));
        Msg m = honest_msg(w, flip());
        VH al = alphabet(w, true);
        if (!tamper(w, m, al, true)) return;
        if (!submit(w, m, what) && what == TRACE && n <= 4) go_on(w);
    }});
    const int N2 = B(3, 4, 2);
    S.push_back({"two-deviations", mc::fmt("n<=%d, every remember mask; every target set with full proof, every two deviations", N2), 5, [=] {
        PW w;
        int n = 1 + choose(N2);
        w.fill(n, choose(1u << n));
        Msg m = honest_msg(w, false);
        VH al = alphabet(w, true);
        if (!tamper(w, m, al, false)) return;
        if (!tamper(w, m, al, false)) return;
        submit(w, m, what);
    }});
    const int N3 = B(4, 4, 3), P3 = B(2, 3, 2);
    S.push_back({"all-messages", mc::fmt("n<=%d, every remember mask: every message of <=2 targets over all positions, target hashes and <=%d proof hashes over all node hashes, a foreign hash and zero", N3, P3), 5, [=] {
        PW w;
        int n = 1 + choose(N3);
        static const uint32_t T[] = {0, 1, 6, 8, 13};
        w.fill(n, n < 4 ? choose(1u << n) : T[choose(5)]);
        VH al = alphabet(w, true);
        Msg m;
        int k = 1 + choose(2);
        for (int i = 0; i < k; i++) m.t.push_back(choose(n + 1));
        for (int i = 0; i < k; i++) m.th.push_back(al[choose(al.size())]);
        int q = choose(P3 + 1);
        for (int i = 0; i < q; i++) m.pr.push_back(al[choose(al.size())]);
        submit(w, m, what);
    }});
    const int N4 = B(what == TRACE ? 3 : 4, 5, what == TRACE ? 2 : 3), L4 = B(5, 6, 4);
    S.push_back({"after-block", mc::fmt("n<=%d with every remember mask, a block (every subset, three ways, additions), then every target set with full or shortest proof and every single deviation (at most %d leaves)", N4, L4), 5, [=] {
        PW w;
        history(w, N4, 1, 1, 0, 99, [](const char*) {});
        if (w.r.n() > (uint64_t)L4) return;
        Msg m = honest_msg(w, flip());
        VH al = alphabet(w, false);
        if (!tamper(w, m, al, false)) return;
        submit(w, m, what);
    }});
    const int N5 = B(what == TRACE ? 4 : 5, what == TRACE ? 5 : 6, 3);
    S.push_back({"chained", mc::fmt("n<=%d, 4 remember patterns: a verified target set, then a deviating message, then another honest verification and (no-trace) a block", N5), 4, [=] {
        PW w;
        int n = 1 + choose(N5);
        w.fill(n, some_mask(n, 1));
        w.verify(choose_subset(n), false, "first");
        Msg m = honest_msg(w, true);
        VH al = alphabet(w, false);
        if (!tamper(w, m, al, false)) return;
        bool ok = submit(w, m, what);
        if (!ok && what == TRACE) go_on(w);
    }});
    const int NB = B(what == TRACE ? 5 : 6, 7, 4), SB = B(what == TRACE ? 4 : 1, 1, 8);
    S.push_back({"bits", mc::fmt("n<=%d with every remember mask (4 patterns from 5 on), 4 leaf hash families; one leaf or a pair claimed with full proof: one of %d of the 256 bits of a claimed hash or of a proof hash flipped", NB, 256 / SB), 4, [=] {
        PW w(choose(NFAM));
        int n = 1 + choose(NB);
        w.fill(n, some_mask(n, 4));
        uint64_t a = choose(n), b = a + choose(unsigned(n - a));
        Msg m;
        m.t = {a};
        if (b > a) m.t.push_back(b);
        m.th = pick(w.r.leaves(), m.t);
        m.pr = w.r.proof(m.t);
        unsigned k = choose(unsigned(m.th.size() + m.pr.size())), bit = choose(256 / SB) * SB + k % SB;
        Hash& h = k < m.th.size() ? m.th[k] : m.pr[k - m.th.size()];
        h[bit / 8] ^= 1 << (bit % 8);
        submit(w, m, what);
        if (what & TRACE) go_on(w);
    }});
    const int NM = what == TRACE ? B(12, 16, 7) : B(20, 33, 12), NX = what == TRACE ? B(3, 3, 0) : B(3, 3, 1);
    S.push_back({"larger", mc::fmt("n in 7..%d and %d sizes from 31 with 4 remember patterns: every single leaf, every pair of a leaf with one of 5 partners, 8 intervals and 3 strides, full or shortest proof; one of 10 deviations at every place", NM, NX), 4, [=] {
        int k = choose(NM - 7 + 1 + NX);
        int n = k <= NM - 7 ? 7 + k : 31 + (k - (NM - 7) - 1);
        PW w;
        w.fill(n, some_mask(n, 0));
        Msg m;
        uint64_t a = choose(n);
        switch (choose(3)) {
        case 0: {
            m.t = {a};
            uint64_t c[] = {a, a ^ 1, a ^ 2, a / 2, uint64_t(n) - 1, (a * 5 + 3) % n};
            uint64_t b = c[choose(6)];
            if (b < (uint64_t)n && b != a) m.t.push_back(b);
            std::sort(m.t.begin(), m.t.end());
            break;
        }
        case 1: if (a % 3) return; for (uint64_t i = a; i < a + n / 2 && i < (uint64_t)n; i++) m.t.push_back(i); break;
        case 2: if (a > 2) return; for (uint64_t i = a; i < (uint64_t)n; i += a + 2) m.t.push_back(i); break;
        }
        finish_msg(w, m, flip());
        if (!nudge(w, m)) return;
        submit(w, m, what);
        if (what & TRACE) go_on(w);
    }});
    const int NW = B(8, 14, 3);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280, 3 remember patterns: 16 large target sets, full or shortest proof; one of 10 deviations at 11 places; then the honest proof and a block", NW), 4, [=] {
        uint64_t n = choose_wide_n(NW);
        int pat = choose(3);
        PW w;
        Msg m, good;
        m.t = choose_wide(n);
        bool shortest = pat && flip();
        auto l = mk_leaves(w.id, int(n), 0, w.fam);
        for (uint64_t i = 0; i < n; i++) l[i].second = pat == 0 ? false : pat == 1 ? i % 7 == 3 : i % 32 < 5;
        require(w.p->Modify(l, {}), "adding leaves refused");
        w.note_adds(l);
        finish_msg(w, m, shortest);
        good = m;
        if (!nudge(w, m)) return;
        submit(w, m, what & SOUND);
        if (!(what & TRACE)) return;
        w.roots("after the message");
        require(w.p->NumCachedLeaves() == w.M.size(), "%llu leaves remembered after a rejected proof, expected %zu", (unsigned long long)w.p->NumCachedLeaves(), w.M.size());
        w.size("after the message");
        check_proof(*w.p, w.r, w.r.leaves(), w.remembered_positions(), "after the message");
        require(w.p->Verify(BatchProof(good.t, good.pr), good.th), "honest proof rejected after another one was");
        for (auto& h : good.th) w.M.insert(h);
        w.apply(good.t, 2, 1, "block");
        w.roots("after the block");
        check_proof(*w.p, w.r, w.r.leaves(), w.remembered_positions(), "after the block");
    }});
    S.push_back({"huge", HUGE_WHAT + ": altered leaf hash, position changed in bit 31 or 32, altered proof hash; then the honest proof and a deletion", 4, [=] { sparse_body(what == TRACE, true); }});
    return S;
}

// ------------------------------------------------------------------------------------------- C10
static Scn c10()
{
    Scn S;
    const int N1 = B(6, 7, 5);
    S.push_back({"one-block", mc::fmt("n<=%d with every remember mask, a block (every subset, three ways, additions with masks); every remembered leaf, pair and all together proven after every step, nothing else proven wrongly", N1), 4, [=] {
        PW w(choose(2) ? FAM_LAST : FAM_SPREAD);
        if (w.fam != FAM_SPREAD) { history(w, 4, 1, 1, 0, 99, [&](const char* m) { w.everything(m); }); return; }
        history(w, N1, 1, 3, 0, 99, [&](const char* m) { w.everything(m); });
    }});
    const int N2 = B(3, 4, 3), L2 = B(5, 6, 4);
    S.push_back({"two-blocks", mc::fmt("n<=%d with every remember mask, two such blocks (at most %d leaves)", N2, L2), 4, [=] {
        PW w;
        history(w, N2, 2, 2, 1, L2, [&](const char* m) { w.everything(m); });
    }});
    const int D = B(5, 6, 4), NM = B(5, 6, 5);
    S.push_back({"walk", mc::fmt("every sequence of %d steps out of 12 (add 1/2/3 leaves, some remembered; verify first/last/middle pair; delete with proof, with the shortest proof or unproven; bad proof; prune), at most %d leaves", D, NM), 4, [=] {
        PW w;
        w.fill(3, 2);
        for (int i = 0; i < D; i++) {
            uint64_t n = w.r.n();
            switch (choose(12)) {
            case 0: w.fill(1, 0); break;
            case 1: w.fill(1, 1); break;
            case 2: w.fill(2, 1); break;
            case 3: if (n < 1) return; w.verify({0}, true, "verify first"); break;
            case 4: if (n < 2) return; w.verify({n - 1}, false, "verify last"); break;
            case 5: if (n < 3) return; w.verify({n / 2 - 1, n / 2}, true, "verify pair"); break;
            case 6: if (n < 1) return; if (!w.block({0}, 0, 0, 0, "delete first")) return; break;
            case 7: if (n < 2) return; if (!w.block({n - 2}, 1, 1, 0, "replace")) return; break;
            case 8: { V64 at = w.remembered_positions(); if (at.empty()) return; if (!w.block(at, 0, 0, 2, "delete all remembered")) return; break; }
            case 9: if (n < 2) return; if (!w.block({1}, 0, 0, 2, "delete unproven")) return; break;
            case 10: {
                if (n < 2) return;
                step("bad proof of the last leaf");
                VH pr = w.r.proof({n - 1});
                if (pr.empty()) return;
                pr[0][7] ^= 4;
                VH lv = w.r.leaves();
                if (!w.M.count(lv[n - 1])) require(!w.p->Verify(BatchProof({n - 1}, pr), {lv[n - 1]}), "bad proof accepted");
                break;
            }
            case 11: step("prune"); w.p->Prune(); w.M.clear(); w.mark(); break;
            }
            if (w.r.n() > (uint64_t)NM) return;
            w.everything("after step");
        }
    }});
    const int NL = B(20, 40, 10);
    S.push_back({"larger", mc::fmt("n in 8..%d and 31..33 with 8 remember patterns: deletion of every single leaf, pair, and stride", NL), 4, [=] {
        int k = choose(NL - 8 + 1 + 3);
        int n = k <= NL - 8 ? 8 + k : 31 + (k - (NL - 8) - 1);
        PW w;
        w.fill(n, some_mask(n, 0));
        V64 d;
        uint64_t a = choose(n);
        if (flip()) { uint64_t b = a + choose(unsigned(n - a)); d = {a}; if (b > a) d.push_back(b); }
        else { uint64_t s = 2 + choose(4); if (a >= s) return; for (int i = a; i < n; i += s) d.push_back(i); }
        if (!w.block(d, choose(2), 1, choose(3), "block")) return;
        w.memory("after block");
        w.honest("after block");
    }});
    const int NW = B(14, 14, 2);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280, 3 remember patterns: 16 large deletion sets proven in full or in short, 0, 1, 130 or 300 additions, then another; every remembered leaf proven after every step, all of them together, no deleted one", NW), 3, [=] {
        wide_body(NW, [](PW& w, const char* m) {
            require(w.p->NumCachedLeaves() == w.M.size(), "%s: %llu leaves remembered, expected %zu", m, (unsigned long long)w.p->NumCachedLeaves(), w.M.size());
            VH lv = w.r.leaves();
            V64 at = w.remembered_positions();
            for (uint64_t x : at) check_proof(*w.p, w.r, lv, {x}, m);
            if (at.size() > 1) check_proof(*w.p, w.r, lv, at, m);
            for (uint32_t k = 0; k < w.id; k++) {
                Hash h = leaf_hash(k, w.fam);
                BatchProof bp;
                if (!w.M.count(h) && w.p->Prove(bp, {h})) {
                    auto it = std::find(lv.begin(), lv.end(), h);
                    require(it != lv.end(), "%s: deleted leaf %u can be proven", m, k);
                    check_proof(*w.p, w.r, lv, {uint64_t(it - lv.begin())}, m);
                }
            }
        });
    }});
    S.push_back({"long", mc::fmt("lives of %d blocks of 6 shapes, starting with 0, 13, 26 or 39 leaves of which some are remembered: everything provable and nothing else after every block", B(300, 1200, 100)), 2, [=] {
        long_body(B(300, 1200, 100), [](PW& w, const char* m) { w.everything(m); });
    }});
    S.push_back({"huge", HUGE_WHAT + ": remembered leaves stay provable at the right position across two blocks", 4, [=] { sparse_body(true, false); }});
    S.push_back({"returning", mc::fmt("n<=%d with every remember mask (patterns from 5 on), %d block(s) (every subset, proven in full or in short) adding leaves which were there before in 5 arrangements, remembered or not; then any leaf is verified and deleted", B(5, 6, 4), 1), 4, [=] { returning_body(B(5, 6, 4), 1, [](PW& w, const char* m) { w.everything(m); }); }});
    return S;
}

// ------------------------------------------------------------------------------------------- C11
static Scn c11()
{
    Scn S;
    const int N1 = B(5, 6, 4), L1 = B(6, 7, 4);
    S.push_back({"prune-restore", mc::fmt("n<=%d with every remember mask, a block, then the pollard is pruned, restored from its roots, or kept; then an honest block (every subset, at most %d leaves): same roots, nothing remembered but what came after", N1, L1), 4, [=] {
        PW w;
        history(w, N1, 1, 2, 0, 99, [](const char*) {});
        if (w.r.n() > (uint64_t)L1) return;
        if (flip()) {
            step("prune");
            w.p->Prune();
        } else {
            step("restore from roots");
            VH rt = roots_of(*w.p);
            w.p.reset(new Pollard(rt, w.p->NumLeaves()));
        }
        w.M.clear();
        w.everything("after prune/restore");
        require(w.p->CountNodes() == w.r.roots().size(), "%llu nodes are kept for %zu roots", (unsigned long long)w.p->CountNodes(), w.r.roots().size());
        V64 d = choose_subset(w.r.n());
        int k = 0;
        uint32_t rem = 0;
        if (w.r.n() <= 5) choose_adds(1, k, rem);
        if (!w.block(d, k, rem, 0, "block after prune/restore")) return;
        w.everything("after block");
    }});
    const int D = B(5, 6, 4);
    S.push_back({"walk", mc::fmt("every sequence of %d steps out of: prune, restore, add 1 or 3 (some remembered), verify, replace, delete unproven", D), 4, [=] {
        PW w;
        w.fill(4, 5);
        for (int i = 0; i < D; i++) {
            uint64_t n = w.r.n();
            switch (choose(7)) {
            case 0: step("prune"); w.p->Prune(); w.M.clear(); break;
            case 1: step("restore"); w.p.reset(new Pollard(roots_of(*w.p), w.p->NumLeaves())); w.M.clear(); break;
            case 2: w.fill(1, 1); break;
            case 3: w.fill(3, 2); break;
            case 4: if (n < 2) return; w.verify({0, n - 1}, true, "verify"); break;
            case 5: if (n < 3) return; if (!w.block({1, n - 1}, 1, 1, 0, "replace")) return; break;
            case 6: if (n < 3) return; if (!w.block({0, n - 2}, 0, 0, 2, "delete unproven")) return; break;
            }
            if (w.r.n() > 9) return;
            w.everything("after step");
        }
        w.p->Prune();
        w.M.clear();
        w.everything("pruned at the end");
        require(w.p->CountNodes() == w.r.roots().size(), "%llu nodes are kept for %zu roots", (unsigned long long)w.p->CountNodes(), w.r.roots().size());
    }});
    auto forget = [](PW& w, bool prune) {
        step(prune ? "prune" : "restore from roots");
        if (prune) w.p->Prune();
        else w.p.reset(new Pollard(roots_of(*w.p), w.p->NumLeaves()));
        w.M.clear();
        w.roots("after prune/restore");
        require(w.p->NumCachedLeaves() == 0, "%llu leaves are still remembered", (unsigned long long)w.p->NumCachedLeaves());
        require(w.p->CountNodes() == w.r.roots().size(), "%llu nodes are kept for %zu roots", (unsigned long long)w.p->CountNodes(), w.r.roots().size());
    };
    const int NL = B(24, 40, 14);
    S.push_back({"larger", mc::fmt("n in 6..%d with 8 remember patterns, optionally a leaf verified and deleted; pruned or restored; then every pair or stride of leaves deleted with proof, 0..2 additions", NL), 4, [=] {
        int n = 6 + choose(NL - 5);
        PW w;
        w.fill(n, some_mask(n, 0));
        if (flip()) w.block({uint64_t(n) / 2}, 1, 1, 0, "block");
        forget(w, flip());
        w.everything("after prune/restore");
        V64 d;
        uint64_t m = w.r.n(), a = choose(m);
        if (flip()) {
            uint64_t b = a + choose(unsigned(m - a));
            d = {a};
            if (b > a) d.push_back(b);
        } else {
            uint64_t s = 1 + choose(4);
            if (a >= s) return;
            for (uint64_t i = a; i < m; i += s) d.push_back(i);
        }
        int k = choose(3);
        w.block(d, k, 2, 0, "block after prune/restore");
        w.everything("after block");
    }});
    const int NW = B(14, 14, 3);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280, 3 remember patterns, pruned or restored before and after a large block", NW), 3, [=] {
        bool pr = flip();
        wide_body(NW, [=](PW& w, const char* when) { if (!strncmp(when, "after block", 11)) forget(w, pr); });
    }});
    S.push_back({"root-sets", "leaf counts around powers of two and sums of two from 2^5 to 2^62: restored from that many roots (opaque), pruned or restored again, 0..3 leaves added: leaf count, roots, node count", 3, [=] {
        int e = 5 + choose(58);
        uint64_t n = 1ull << e;
        int q = choose(3 + e);
        if (q < 3) n += q - 1;
        else n += (1ull << (q - 3)) + choose(2) * ((1ull << ((q - 3) / 2)) - 1);
        n = std::min<uint64_t>(n, 1ull << 62);
        int how = choose(3), add = choose(4);
        Sparse sp(n, 0, 0);
        PW w;
        step("restore %llu leaves from %zu roots", (unsigned long long)n, sp.r.roots().size());
        w.r = sp.r;
        w.p.reset(new Pollard(w.r.roots(), n));
        w.roots("restored");
        if (how) forget(w, how == 1);
        w.fill(add, 2);
        w.roots("after additions");
        forget(w, how == 1);
        w.fill(1, 1);
        w.roots("after another addition");
    }});
    S.push_back({"huge", "pollards restored from the roots of " + HUGE_WHAT + " (known leaves in three trees on four kinds of paths): pruned or restored before, between and after two blocks", 4, [=] { sparse_body(true, false, true); }});
    return S;
}

// ------------------------------------------------------------------------------------------- C12
static uint64_t odd_target(uint64_t n)
{
    unsigned k = choose(unsigned(n + 3 + 4));
    uint64_t sp[] = {~0ull, 1ull << 32, 1ull << 63, (1ull << 32) + 1};
    return k < n + 3 ? k : sp[k - n - 3];
}
static Scn c12()
{
    Scn S;
    const int N1 = B(5, 6, 4);
    S.push_back({"forest", mc::fmt("forest of n<=%d (after one block): every list of 1..3 targets over 0..n+2 and four huge values that is not sorted, distinct and in range, with 0..2 additions: refused, nothing changes, a later block works and undoes", N1), 4, [=] {
        RamForest f(0);
        ref::Forest r;
        uint32_t id = 0;
        UndoBatch u;
        int n = choose(N1 + 1);
        for (auto& l : mk_leaves(id, n, 0, FAM_SPREAD)) {
            require(f.Modify(u, {l}, {}), "adding a leaf refused");
            r.add(l.first);
        }
        if (n > 2 && flip()) {
            require(f.Modify(u, {}, {1}), "deleting a leaf refused");
            r.remove({1});
        }
        V64 t;
        int k = 1 + choose(3);
        for (int i = 0; i < k; i++) t.push_back(odd_target(r.n()));
        if (ref::sane_targets(t, r.n())) return;
        uint32_t tmp = id + 50;
        auto l = mk_leaves(tmp, choose(3), 0, FAM_SPREAD);
        step("modify with targets %s, %zu additions", str(t).c_str(), l.size());
        require(!f.Modify(u, l, t), "targets %s accepted for %llu leaves", str(t).c_str(), (unsigned long long)r.n());
        check_forest(f, r, "after the refused block");
        VH lv = r.leaves();
        for (uint64_t i = 0; i < lv.size(); i++) check_proof(f, r, lv, {i}, "after the refused block");
        BatchProof bp;
        for (auto& x : l) require(!f.Prove(bp, {x.first}), "a leaf of the refused block was added");
        mc::state(mc::Hasher().u(key(r.roots())).u(t.size()).u(t[0]).h);
        // life goes on
        V64 d;
        if (r.n()) d.push_back(r.n() / 2);
        ref::Forest before = r;
        require(f.Modify(u, l, d), "valid block refused afterwards");
        r.remove(d);
        for (auto& x : l) r.add(x.first);
        check_forest(f, r, "after a later block");
        require(f.Undo(u), "undo refused");
        check_forest(f, before, "after undoing the later block");
    }});
    const int N2 = B(4, 5, 3);
    S.push_back({"pollard", mc::fmt("pollard of n<=%d with every remember mask: the same target lists are refused by Modify, and proofs over them by Verify; nothing changes, a later block works", N2), 4, [=] {
        PW w;
        int n = choose(N2 + 1);
        w.fill(n, choose(1u << n));
        V64 t;
        int k = 1 + choose(3);
        for (int i = 0; i < k; i++) t.push_back(odd_target(n));
        if (ref::sane_targets(t, n)) return;
        uint32_t tmp = w.id + 50;
        auto l = mk_leaves(tmp, choose(2) * 2, 1, w.fam);
        step("modify with targets %s, %zu additions", str(t).c_str(), l.size());
        require(!w.p->Modify(l, t), "targets %s accepted for %d leaves", str(t).c_str(), n);
        w.everything("after the refused block");
        BatchProof bp;
        for (auto& x : l) require(!w.p->Prove(bp, {x.first}), "a leaf of the refused block was added");
        mc::outcome(mc::Hasher().u(t[0]).u(t.size()).u(n).h);
        if (!w.r.n()) return;
        w.block({w.r.n() / 2}, 1, 1, 0, "later block");
        w.everything("after a later block");
    }});
    const int NW = B(8, 14, 3);
    S.push_back({"wide", mc::fmt("forest and pollard of %d sizes from 127 to 1280 whose 16 large target lists are all proven: at 11 places of the list a target repeated, exchanged with the next, or moved beyond the leaves: refused by both (a proof with the list by the pollard, too), nothing changes; the honest block works afterwards", NW), 4, [=] {
        uint64_t n = choose_wide_n(NW);
        V64 t = choose_wide(n), bad(t);
        if (t.empty()) return;
        int kind = choose(5);
        size_t i = place(t.size());
        switch (kind) {
        case 0: bad.insert(bad.begin() + i, bad[i]); break;
        case 1: if (i + 1 >= t.size()) return; std::swap(bad[i], bad[i + 1]); break;
        case 2: if (i) return; bad.push_back(n); break;
        case 3: if (i) return; bad.push_back((1ull << 32) + 1); break;
        case 4: bad[i] += 1ull << 32; break;
        }
        if (ref::sane_targets(bad, n)) return;
        int add = choose(2) * 3;
        PW w;
        w.fill(int(n), 0x01000010);
        RamForest f(0);
        UndoBatch u;
        uint32_t id = 0;
        require(f.Modify(u, mk_leaves(id, int(n), 0, w.fam), {}), "adding leaves refused");
        w.verify(t, false, "verify");
        uint32_t tmp = w.id + 50;
        auto l = mk_leaves(tmp, add, 1, w.fam);
        step("modify with targets %s (kind %d at %zu), %d additions", str(bad).c_str(), kind, i, add);
        require(!f.Modify(u, l, bad), "forest: bad target list accepted");
        require(!w.p->Modify(l, bad), "pollard: bad target list accepted");
        check_forest(f, w.r, "after the refused block");
        w.roots("after the refused block");
        w.size("after the refused block");
        V64 o = w.remembered_positions();
        require(w.p->NumCachedLeaves() == o.size(), "%llu leaves are remembered, expected %zu", (unsigned long long)w.p->NumCachedLeaves(), o.size());
        check_proof(*w.p, w.r, w.r.leaves(), o, "after the refused block");
        if (kind != 1) {
            VH th;
            for (auto x : bad) th.push_back(w.r.leaves()[x % n]);
            require(!w.p->Verify(BatchProof(bad, w.r.proof(t)), th), "proof with a bad target list accepted");
        }
        w.apply(t, 2, 1, "the honest block");
        w.roots("after the honest block");
        auto l2 = mk_leaves(id, 2, 1, w.fam);
        require(f.Modify(u, l2, t), "the honest block is refused by the forest");
        check_forest(f, w.r, "after the honest block");
    }});
    const int N3 = B(6, 7, 5);
    S.push_back({"unproven", mc::fmt("pollard of n<=%d with every remember mask, every set of targets deleted without a proof, with additions: either refused with nothing changed, or the right result; then a proven block", N3), 4, [=] {
        PW w;
        int n = choose(N3 + 1);
        w.fill(n, some_mask(n, 6));
        V64 d = choose_subset(n);
        if (d.empty()) return;
        if (!w.block(d, choose(2), 1, 2, "unproven")) return;
        w.everything("after the unproven block");
        uint64_t m = w.r.n();
        if (!m) return;
        w.block({choose(unsigned(m))}, 1, 0, 0, "later block");
        w.everything("after a later block");
    }});
    S.push_back({"unproven-after", mc::fmt("pollard of n<=%d with remember masks, pruned or with one verified set, then an unproven deletion of every set, twice", N3 - 1), 4, [=] {
        PW w;
        int n = 1 + choose(N3 - 1);
        w.fill(n, some_mask(n, 3));
        if (flip()) { w.p->Prune(); w.M.clear(); step("prune"); }
        else w.verify(choose_subset(n), false, "verify");
        V64 d = choose_subset(n);
        if (d.empty()) return;
        if (!w.block(d, 1, 1, 2, "unproven")) return;
        w.everything("after the unproven block");
        if (w.r.n() > 4) return;
        d = choose_subset(w.r.n());
        if (d.empty()) return;
        if (!w.block(d, 0, 0, 2, "unproven again")) return;
        w.everything("after the second unproven block");
    }});
    return S;
}

// ------------------------------------------------------------------------------------------- C22
// One step of a pollard's life; false if not applicable.
static const int NWALK = 13;
static bool walk_step(PW& w, int c)
{
    uint64_t n = w.r.n();
    switch (c) {
    case 0: w.fill(1, 0); break;
    case 1: w.fill(1, 1); break;
    case 2: w.fill(3, 2); break;
    case 3: if (n < 1) return false; w.verify({0}, true, "verify first"); break;
    case 4: if (n < 2) return false; w.verify({n - 1}, false, "verify last"); break;
    case 5: if (n < 3) return false; w.verify({n / 2 - 1, n / 2}, true, "verify pair"); break;
    case 6: if (n < 1 || !w.block({0}, 0, 0, 0, "delete first")) return false; break;
    case 7: if (n < 2 || !w.block({n - 2}, 1, 1, 0, "replace")) return false; break;
    case 8: { V64 at = w.remembered_positions(); if (at.empty() || !w.block(at, 0, 0, 2, "delete all remembered")) return false; break; }
    case 9: if (n < 2 || !w.block({1}, 0, 0, 2, "delete unproven")) return false; break;
    case 10: {
        if (n < 2) return false;
        step("bad proof of the last leaf");
        VH pr = w.r.proof({n - 1});
        VH lv = w.r.leaves();
        if (pr.empty() || w.M.count(lv[n - 1])) return false;
        pr[0][7] ^= 4;
        require(!w.p->Verify(BatchProof({n - 1}, pr), {lv[n - 1]}), "bad proof accepted");
        break;
    }
    case 11: step("prune"); w.p->Prune(); w.M.clear(); w.mark(); break;
    case 12: step("restore"); w.p.reset(new Pollard(roots_of(*w.p), w.p->NumLeaves())); w.M.clear(); w.mark(); break;
    }
    return true;
}
static Scn c22()
{
    Scn S;
    const int N1 = B(6, 7, 5);
    S.push_back({"one-block", mc::fmt("n<=%d with every remember mask, a block (every subset, three ways, additions with masks): node count within the bound after every step", N1), 4, [=] {
        PW w;
        history(w, N1, 1, 3, 0, 99, [&](const char* m) { w.size(m); });
    }});
    const int N2 = B(4, 5, 3), L2 = B(5, 6, 4);
    S.push_back({"two-blocks", mc::fmt("n<=%d with every remember mask, two such blocks (at most %d leaves)", N2, L2), 4, [=] {
        PW w;
        history(w, N2, 2, 2, 1, L2, [&](const char* m) { w.size(m); });
    }});
    const int NJ = B(6, 7, 5);
    S.push_back({"rejected", mc::fmt("n<=%d with every remember mask, a block (every subset, proven in full or in short, up to 1 addition); then every target set with full or shortest proof, one claim or proof hash changed, the last hash cut or one too many: refused, and exactly as many nodes as before, twice", NJ), 4, [=] {
        PW w;
        int n = 1 + choose(NJ);
        w.fill(n, choose(1u << n));
        V64 d = choose_subset(n);
        int mode = d.empty() ? 0 : choose(2), k = choose(2);
        w.block(d, k, k, mode, "block");
        if (!w.r.n()) return;
        Msg m;
        m.t = choose_subset(w.r.n());
        if (m.t.empty()) return;
        finish_msg(w, m, flip());
        unsigned q = choose(unsigned(m.th.size() + m.pr.size() + 2));
        if (q < m.th.size()) m.th[q][9] ^= 2;
        else if (q < m.th.size() + m.pr.size()) m.pr[q - m.th.size()][9] ^= 2;
        else if (q == m.th.size() + m.pr.size()) m.pr.push_back(leaf_hash(99999));
        else if (!m.pr.empty()) m.pr.pop_back();
        else return;
        uint64_t nodes = w.p->CountNodes();
        step("submit targets %s hashes %s proof %s", str(m.t).c_str(), str(m.th).c_str(), str(m.pr).c_str());
        for (int i = 0; i < 2; i++) {
            if (w.p->Verify(BatchProof(m.t, m.pr), m.th)) return; // what was cut was not needed
            require(w.p->CountNodes() == nodes, "a rejected proof left %lld nodes behind", (long long)(w.p->CountNodes() - nodes));
        }
        w.size("after rejected proofs");
    }});
    const int D = B(6, 7, 5);
    S.push_back({"walk", mc::fmt("every sequence of %d steps out of %d (additions, verifications, deletions in three ways, bad proof, prune, restore), at most 9 leaves", D, NWALK), 4, [=] {
        PW w;
        w.fill(4, 2);
        for (int i = 0; i < D; i++) {
            if (!walk_step(w, choose(NWALK)) || w.r.n() > 9) return;
            w.size("after step");
        }
    }});
    const int NL = B(24, 48, 16);
    S.push_back({"larger", mc::fmt("n in 7..%d with 8 remember patterns; deletion of every single leaf, interval or stride, with proof; then every single leaf", NL), 4, [=] {
        int n = 7 + choose(NL - 6);
        PW w;
        w.fill(n, some_mask(n, 0));
        V64 d;
        uint64_t a = choose(n);
        if (flip()) { uint64_t b = a + choose(unsigned(n - a)); for (uint64_t i = a; i <= b; i++) d.push_back(i); }
        else { uint64_t s = 2 + choose(4); if (a >= s) return; for (uint64_t i = a; i < (uint64_t)n; i += s) d.push_back(i); }
        if (!w.block(d, choose(2), 1, 1, "block") && !w.block(d, 0, 0, 0, "block")) return;
        w.size("after block");
        if (!w.r.n()) return;
        w.block({choose(unsigned(w.r.n()))}, 0, 0, 0, "second block");
        w.size("after second block");
    }});
    const int NW = B(14, 14, 3);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280, 3 remember patterns: 16 large deletion sets proven in full or in short, additions, then another: node count within the bound after every step", NW), 3, [=] {
        wide_body(NW, [](PW& w, const char* m) { w.size(m); });
    }});
    S.push_back({"long", mc::fmt("lives of %d blocks of 6 shapes, starting with 0, 13, 26 or 39 leaves of which some are remembered: node count after every block", B(300, 1200, 100)), 2, [=] {
        long_body(B(300, 1200, 100), [](PW& w, const char* m) { w.size(m); });
    }});
    S.push_back({"huge", HUGE_WHAT + ": node count within the bound after a verification and two blocks", 4, [=] { sparse_body(false, false, false, true); }});
    const int NR = B(5, 6, 4);
    S.push_back({"repeat", mc::fmt("n<=%d, remember masks: the same verification, rejected proof or replacement repeated 12 times does not let the pollard grow beyond the bound", NR), 4, [=] {
        PW w;
        int n = 2 + choose(NR - 1);
        w.fill(n, choose(1u << n));
        int a = choose(NWALK), b = choose(NWALK);
        for (int i = 0; i < 12; i++) {
            if (!walk_step(w, i & 1 ? b : a) || w.r.n() > 20) return;
            w.size("after step");
        }
        w.everything("at the end");
    }});
    S.push_back({"returning", mc::fmt("n<=%d with every remember mask (patterns from 5 on), %d block(s) (every subset, proven in full or in short) adding leaves which were there before in 5 arrangements, remembered or not; then any leaf is verified and deleted", B(5, 6, 4), 1), 4, [=] { returning_body(B(5, 6, 4), 1, [](PW& w, const char* m) { w.size(m); }); }});
    return S;
}

int main(int argc, char** argv)
{
    return mc::main_loop(argc, argv, {{"C06", c06}, {"C07", c07}, {"C08", [] { return tampering(SOUND); }}, {"C09", [] { return tampering(TRACE); }}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C22", c22}});
}
