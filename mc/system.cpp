// The whole system: a full forest kept in a file, a pollard that follows it through serialized proofs, and
// pollards that know nothing but the roots (C23).
#include "forest_world.h"
#include "pollard_world.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace sys;
typedef std::vector<mc::Scenario> Scn;

static std::string scratch(const char* name)
{
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid()) {
        const char* d = getenv("MC_SCRATCH");
        if (!d) { fprintf(stderr, "MC_SCRATCH not set\n"); _exit(3); }
        dir = std::string(d) + "/" + std::to_string(getpid());
        mkdir(dir.c_str(), 0700);
        owner = getpid();
    }
    return dir + "/" + name;
}

struct World {
    std::string path;
    FW w;  // the bridge node
    PW k;  // the wallet
    BatchProof reused; // a proof object that is read into again and again
    explicit World(const std::string& p, int fam) : path(p), w(p, fam), k(fam) {}

    BatchProof wire(const BatchProof& b, const char* what)
    {
        std::vector<uint8_t> v;
        b.Serialize(v);
        require(reused.Unserialize(v), "%s: the serialized proof is refused", what);
        return reused;
    }
    // proof of the leaves at the given positions, as the bridge node sends it
    BatchProof ask(const V64& t)
    {
        BatchProof b;
        require(w.f->Prove(b, pick(w.r.leaves(), t)), "the forest cannot prove %s", str(t).c_str());
        return wire(b, "forest proof");
    }
    void wallet_verify(const V64& t, const BatchProof& b)
    {
        V64 s(t);
        std::sort(s.begin(), s.end());
        VH th = pick(w.r.leaves(), s);
        require(k.p->Verify(b, th), "the wallet rejects the forest's proof of %s", str(t).c_str());
        for (auto& h : th) k.M.insert(h);
    }
    // cached: the wallet is given no proof at all (only called when it remembers all targets)
    void block(const V64& d, int adds, uint32_t rem, bool cached = false) { block(d, mk_leaves(w.id, adds, rem, w.fam), cached); }
    void block(const V64& d, const std::vector<Leaf>& l, bool cached = false)
    {
        if (!d.empty() && !cached) {
            V64 order(d);
            std::reverse(order.begin(), order.end());
            wallet_verify(order, ask(order));
        }
        w.block(d, l, "block");
        require(k.p->Modify(l, d), "the wallet refuses the block (delete %s, add %zu)", str(d).c_str(), l.size());
        k.commit_ref(d, l);
        k.id = w.id;
    }
    void restart_wallet()
    {
        k.p.reset(new Pollard(roots_of(*w.f), w.f->NumLeaves()));
        k.r = w.r;
        k.M.clear();
    }
    void check(const char* when)
    {
        w.check(when);
        k.roots(when);
        k.size(when);
        VH rt = roots_of(*w.f);
        require(rt == roots_of(*k.p) && w.f->NumLeaves() == k.p->NumLeaves(), "%s: forest and wallet disagree", when);
        require(k.p->NumCachedLeaves() == k.M.size(), "%s: the wallet remembers %llu leaves, expected %zu", when, (unsigned long long)k.p->NumCachedLeaves(), k.M.size());
        require(k.p->ComparePositionMap(*w.f), "%s: the wallet's index is not part of the forest's", when);
        VH lv = w.r.leaves();
        // the forest's proof of everything holds for a newcomer
        if (!lv.empty()) {
            V64 all;
            for (uint64_t i = lv.size(); i-- > 0;) all.push_back(i);
            BatchProof b = ask(all);
            Pollard nu(rt, lv.size());
            require(nu.Verify(b, lv), "%s: a newcomer rejects the forest's proof of all leaves", when);
            // asked in an order that begins low and ends high, but is not sorted
            all.clear();
            for (uint64_t i = 0; i < lv.size(); i += 3) all.push_back(i);
            for (uint64_t i = 1; i < lv.size(); i += 3) all.push_back(i);
            for (uint64_t i = 2; i < lv.size(); i += 3) all.push_back(i);
            b = ask(all);
            Pollard nu2(rt, lv.size());
            require(nu2.Verify(b, lv), "%s: a newcomer rejects the forest's proof of all leaves, asked for in the order %s", when, str(all).c_str());
        }
        // so do the wallet's proofs, each and together; and the forest accepts them
        V64 mine = k.remembered_positions();
        const size_t skip = mine.size() < 24 ? 1 : mine.size() / 8; // of many, only some are proven alone
        for (size_t i = 0; i < mine.size() + (mine.size() > 1); i += i + skip > mine.size() && i < mine.size() ? mine.size() - i : skip) {
            V64 t = i < mine.size() ? V64{mine[i]} : mine;
            BatchProof b;
            require(k.p->Prove(b, pick(lv, t)), "%s: the wallet cannot prove %s", when, str(t).c_str());
            b = wire(b, "wallet proof");
            Pollard nu(rt, lv.size());
            require(nu.Verify(b, pick(lv, t)), "%s: a newcomer rejects the wallet's proof of %s", when, str(t).c_str());
            require(w.f->Verify(b, pick(lv, t)), "%s: the forest rejects the wallet's proof of %s", when, str(t).c_str());
            BatchProof c = ask(t);
            require(b == c, "%s: forest and wallet prove %s differently", when, str(t).c_str());
        }
        mc::Hasher h;
        h.u(key(rt));
        for (auto& m : k.M) h.bytes(m);
        mc::state(h.h);
    }
    // false: not applicable now
    bool act(int what)
    {
        uint64_t n = w.r.n();
        switch (what) {
        case 0: block({}, 1, 1); return true;
        case 1: block({}, 3, 2); return true;
        case 2: if (n < 1) return false; block({n / 3}, 1, 1); return true;
        case 3: if (n < 2) return false; block({0, n - 1}, 0, 0); return true;
        case 4: {
            if (n < 3) return false;
            V64 d;
            for (uint64_t i = 0; i + 1 < n; i++) d.push_back(i);
            block(d, 2, 2);
            return true;
        }
        case 5: { // spend what the wallet remembers, without any proof
            V64 d = k.remembered_positions();
            if (d.empty()) return false;
            block(d, 1, 0, true);
            return true;
        }
        case 6: // reorganisation: the wallet starts again from the roots
            if (w.undo.empty()) return false;
            w.undo_last(2, "undo");
            restart_wallet();
            return true;
        case 7:
            step("restart the forest");
            w.f.reset();
            w.f.reset(new RamForest(path));
            return true;
        case 8:
            if (k.M.empty()) return false;
            step("prune the wallet");
            k.p->Prune();
            k.M.clear();
            return true;
        case 9: {
            if (n < 2) return false;
            V64 t{n - 1, n / 2};
            if (n / 2 == n - 1) t.pop_back();
            step("the wallet verifies %s", str(t).c_str());
            wallet_verify(t, ask(t));
            return true;
        }
        case 10: { // bad messages: an untrue claim, a cut proof, a repeated deletion
            if (n < 1) return false;
            V64 t{n / 2};
            BatchProof b = ask(t);
            step("a forged claim and bad deletions");
            require(!k.p->Verify(b, {leaf_hash(88888, w.fam)}), "the wallet accepts a leaf that is not there");
            require(!w.f->Verify(b, {leaf_hash(88888, w.fam)}), "the forest accepts a leaf that is not there");
            require(!k.p->Verify(b, {}), "the wallet accepts a proof without claims");
            std::vector<uint8_t> v;
            b.Serialize(v);
            v.pop_back();
            BatchProof c;
            require(!c.Unserialize(v), "a cut proof is read");
            UndoBatch u;
            require(!w.f->Modify(u, {}, {n / 2, n / 2}) && !k.p->Modify({}, {n / 2, n / 2}), "a repeated deletion is accepted");
            require(!w.f->Modify(u, {}, {n}) && !k.p->Modify({}, {n}), "deletion of a leaf that is not there is accepted");
            return true;
        }
        case 11: // the block is undone and another one put in its place
            if (w.undo.empty()) return false;
            w.undo_last(1, "undo");
            restart_wallet();
            block(w.r.n() ? V64{w.r.n() - 1} : V64{}, 2, 3);
            return true;
        }
        return false;
    }
};

static Scn c23()
{
    Scn S;
    const int D = B(5, 6, 4), M = 14;
    S.push_back({"walk", mc::fmt("a forest in a file and a wallet, starting with 0 or 5 leaves: every sequence of %d steps out of 12: six blocks (one of them proven by the wallet's memory alone), undo with restart from the roots, undo and replacement, forest restart, prune, verify, bad messages; at most %d leaves", D, M), 4, [=] {
        std::string p = scratch("bridge");
        unlink(p.c_str());
        World x(p, FAM_SPREAD);
        if (flip()) x.block({}, 5, 0x12);
        for (int i = 0; i < D; i++) {
            if (!x.act(choose(12))) return;
            if (x.w.r.n() > (uint64_t)M) return;
            x.check("after step");
        }
    }});
    const int N = B(7, 8, 5);
    S.push_back({"reorg", mc::fmt("n<=%d leaves with even ones remembered, a block (every subset, 0..2 additions), optionally a forest restart, undone; the wallet restarts from the roots; then another block (every subset)", N), 3, [=] {
        std::string p = scratch("bridge");
        unlink(p.c_str());
        World x(p, choose(2) ? FAM_ZERO : FAM_SPREAD);
        x.block({}, choose(N + 1), 0x55);
        if (x.w.fam != FAM_SPREAD && x.w.r.n() > 4) return;
        int a = choose(3);
        x.block(choose_subset(x.w.r.n()), a, 1);
        x.check("after block");
        bool re = flip();
        if (re) x.act(7);
        x.act(6);
        x.check("after undo");
        if (re) x.act(7);
        x.block(choose_subset(x.w.r.n()), 1, 1);
        x.check("after the other block");
    }});
    const int NB = B(4, 5, 3);
    S.push_back({"returning", mc::fmt("n<=%d leaves with even ones remembered, a block (every subset) that adds leaves which were there before in 5 arrangements, optionally a forest restart; undone or not; the same block again or another such block", NB), 3, [=] {
        std::string p = scratch("bridge");
        unlink(p.c_str());
        World x(p, FAM_SPREAD);
        x.block({}, choose(NB + 1), 0x55);
        V64 d = choose_subset(x.w.r.n());
        auto l = x.w.returning(d, 0x55);
        x.block(d, l);
        x.check("after block");
        if (flip()) x.act(7);
        if (flip()) {
            x.act(6);
            x.check("after undo");
            x.block(d, l);
            x.check("after the same block");
        }
        d = choose_subset(x.w.r.n());
        x.block(d, x.w.returning(d, 0xaa));
        x.check("after the other block");
        x.act(6);
        x.check("after the last undo");
    }});
    const int NO = B(7, 9, 5);
    S.push_back({"orders", mc::fmt("n<=%d leaves, 4 remember patterns, after a block that deletes none, one or two of them: every sequence of up to 4 distinct leaves asked of the forest; the proof is sent to the wallet and to a newcomer, and a block deletes these leaves; the wallet's own proof in this order is the forest's", NO), 4, [=] {
        std::string p = scratch("bridge");
        unlink(p.c_str());
        int n = 1 + choose(NO), b = choose(3);
        uint32_t mask = choose(4) * 0x2b % 0xff;
        if (b > n) return;
        uint64_t left = n - b;
        V64 t;
        int k = choose(std::min<uint64_t>(left, 4) + 1);
        for (int i = 0; i < k; i++) {
            uint64_t x = choose(left);
            if (std::find(t.begin(), t.end(), x) != t.end()) return;
            t.push_back(x);
        }
        World x(p, FAM_SPREAD);
        x.block({}, n, mask);
        x.block(b == 0 ? V64{} : b == 1 ? V64{uint64_t(n) / 2} : V64{0, uint64_t(n) - 1}, 0, 0);
        if (t.empty()) return x.check("at the end");
        V64 s(t);
        std::sort(s.begin(), s.end());
        VH th = pick(x.w.r.leaves(), s);
        step("ask for %s", str(t).c_str());
        BatchProof m = x.ask(t);
        require(m.GetTargets() == t && m.GetSortedTargets() == s, "the proof lists targets %s, asked were %s", str(m.GetTargets()).c_str(), str(t).c_str());
        Pollard nu(roots_of(*x.w.f), left);
        require(nu.Verify(m, th), "a newcomer rejects the forest's proof of %s", str(t).c_str());
        x.wallet_verify(t, m);
        BatchProof own;
        require(x.k.p->Prove(own, pick(x.w.r.leaves(), t)) && x.wire(own, "wallet proof") == m, "wallet and forest prove %s differently", str(t).c_str());
        x.block(s, 1, 1, true);
        uint32_t last = x.w.id - 1;
        require(nu.Modify(mk_leaves(last, 1, 0, x.w.fam), s), "the newcomer refuses the block");
        require(roots_of(nu) == roots_of(*x.w.f) && nu.NumLeaves() == x.w.f->NumLeaves(), "the newcomer has other roots after the block");
        x.check("at the end");
    }});
    const int NW = B(8, 14, 2);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280, 3 remember patterns: one of 16 large blocks with 0, 1 or 130 additions, forest restart, undo or not, another large block, proofs of many leaves verified by the wallet and a newcomer", NW), 4, [=] {
        uint64_t n = choose_wide_n(NW);
        static const uint32_t masks[] = {0, 0x10, 0x08080808};
        uint32_t mask = masks[choose(3)];
        V64 d = choose_wide(n);
        static const int A[] = {0, 1, 130};
        int a = A[choose(3)];
        bool undone = flip();
        int second = choose(3);
        std::string p = scratch("bridge");
        unlink(p.c_str());
        World x(p, FAM_SPREAD);
        x.block({}, int(n), mask);
        x.block(d, a, mask);
        x.check("after a large block");
        x.act(7);
        if (undone) {
            x.act(6);
            x.check("after its undo");
        }
        n = x.w.r.n();
        V64 t;
        for (uint64_t i = second; i < n; i += 2 + second) t.push_back(i);
        if (!t.empty()) {
            V64 o(t.begin() + t.size() / 2, t.end());
            o.insert(o.end(), t.begin(), t.begin() + t.size() / 2);
            x.wallet_verify(o, x.ask(o));
        }
        x.check("after a large proof");
        x.block(t, second, 2, true);
        x.check("after another large block");
    }});
    const int L = B(120, 500, 40);
    S.push_back({"long", mc::fmt("every repetition (%d steps) of every list of up to 3 of the 12 steps, from 5 leaves; leaves are added when there are few and deleted when there are many", L), 2, [=] {
        int m = 1 + choose(3);
        int a[3];
        for (int i = 0; i < m; i++) a[i] = choose(12);
        std::string p = scratch("bridge");
        unlink(p.c_str());
        World x(p, FAM_SPREAD);
        x.block({}, 5, 0x12);
        for (int i = 0; i < L; i++) {
            x.act(a[i % m]);
            uint64_t n = x.w.r.n();
            if (n < 3) x.block({}, 3, 5);
            if (n > 20) x.block({1, n / 4, n / 2, n - 3}, 0, 0);
            x.check("after step");
        }
    }});
    return S;
}

int main(int argc, char** argv)
{
    return mc::main_loop(argc, argv, {{"C23", c23}});
}
