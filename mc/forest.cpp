// The full forest in memory: C01 blocks, C02 undo, C03 proofs, C21 comparison.
#include "forest_world.h"
#include "pollard_world.h"
using namespace sys;
typedef std::vector<mc::Scenario> Scn;
typedef unsigned long long ull;

// ------------------------------------------------------------------------------------------- C01
static Scn c01()
{
    Scn S;
    const int N1 = B(13, 16, 10), A1 = B(3, 5, 2);
    S.push_back({"one-block", mc::fmt("n<=%d leaves added at once, then one block: every deletion subset, 0..%d additions", N1, A1), 3, [=] {
        FW w;
        w.block({}, choose(N1 + 1), "fill");
        w.check("fill");
        int a = choose(A1 + 1);
        w.block(choose_subset(w.r.n()), a, "block");
        w.check_all("after block");
    }});
    const int N2 = B(7, 9, 5);
    S.push_back({"three-blocks", mc::fmt("n<=%d, block (every subset, 0..3 additions), block (every subset, 0..1 additions); 4 leaf hash families", N2), 3, [=] {
        int fam = choose(NFAM);
        int n = choose(N2 + 1);
        if (fam != FAM_SPREAD && n > N2 - 2) return;
        FW w(fam);
        w.block({}, n, "fill");
        V64 d = choose_subset(n);
        w.block(d, choose(4), "block 1");
        w.check("block 1");
        w.block(choose_subset(w.r.n()), choose(2), "block 2");
        w.check_all("after block 2");
    }});
    const int D4 = B(6, 7, 4), N4 = B(4, 5, 4);
    S.push_back({"many-blocks", mc::fmt("every sequence of %d blocks (every subset, 0..2 additions) that never holds more than %d leaves", D4, N4), 4, [=] {
        FW w;
        for (int i = 0; i < D4; i++) {
            int a = choose(3);
            V64 d = choose_subset(w.r.n());
            if (w.r.n() - d.size() + a > (uint64_t)N4) return;
            w.block(d, a, "block");
            w.check("after block");
        }
        w.check_all("at the end");
    }});
    const int N6 = B(5, 6, 4);
    S.push_back({"returning", mc::fmt("n<=%d, two blocks (every subset) that add leaves which were in the forest before, deleted by this block or an earlier one, in 5 arrangements", N6), 3, [=] {
        FW w;
        w.block({}, choose(N6 + 1), "fill");
        for (int i = 0; i < 2; i++) {
            V64 d = choose_subset(w.r.n());
            w.block(d, w.returning(d), "block");
            w.check_all("after block");
        }
    }});
    const int N5 = B(6, 7, 5);
    S.push_back({"no-undo-data", mc::fmt("n<=%d added through Add or the undo-less Modify, then two blocks (every subset, 0..2 additions), each with or without undo data; undone if they have it", N5), 3, [=] {
        FW w;
        auto plain = [&](const V64& d, int adds, bool by_add) {
            auto l = mk_leaves(w.id, adds, 0, w.fam);
            Accumulator& a = *w.f;
            step("%s: delete %s, add %d", by_add ? "Add" : "Modify without undo data", str(d).c_str(), adds);
            bool ok = by_add ? w.f->Add(l) : a.Modify(l, d);
            require(ok, "valid block (delete %s, add %d) refused", str(d).c_str(), adds);
            w.r.remove(d);
            for (auto& x : l) w.r.add(x.first);
            w.undo.clear();
        };
        int n = choose(N5 + 1);
        plain({}, n, flip());
        w.check_all("after adding");
        for (int b = 0; b < 2; b++) {
            int a = choose(3);
            V64 d = choose_subset(w.r.n());
            if (w.r.n() > (uint64_t)N5) return;
            if (flip()) w.block(d, a, "block");
            else plain(d, a, d.empty() && a && flip());
            w.check_all("after block");
        }
        while (!w.undo.empty()) {
            w.undo_last(0, "undo");
            w.check_all("after undo");
        }
    }});
    const int NB = B(11, 14, 9);
    S.push_back({"batching", mc::fmt("n<=%d leaves added in every possible split into batches (empty batches too), then one structured deletion", NB), 4, [=] {
        int n = 1 + choose(NB);
        FW w;
        int run = 1;
        for (int i = 1; i < n; i++) {
            if (flip()) { w.block({}, run, "batch"); run = 0; w.block({}, 0, "empty block"); }
            run++;
        }
        w.block({}, run, "batch");
        w.check_all("after all batches");
        w.block({uint64_t(n - 1) / 2}, 1, "delete");
        w.check("after deletion");
    }});
    const int NL = B(36, 72, 20);
    S.push_back({"structured", mc::fmt("n in 12..%d and 63..65: pairs, intervals, strides, complements, blocks; 0..1 additions, then a second structured deletion of the same shape family", NL), 4, [=] {
        int k = choose(NL - 12 + 1 + 3);
        int n = k <= NL - 12 ? 12 + k : 63 + (k - (NL - 12) - 1);
        FW w;
        w.block({}, n, "fill");
        w.block(choose_structured(n), choose(2), "block 1");
        w.check_all("after block 1");
    }});
    const int NB2 = B(10, 13, 6);
    S.push_back({"tall", mc::fmt("n around every power of two up to 2^%d: one deletion or a pair at every boundary position, 0 or 2 additions", NB2), 3, [=] {
        int e = 4 + choose(NB2 - 3);
        uint64_t n = (1ull << e) + choose(5) - 2;
        FW w;
        w.block({}, int(n), "fill");
        V64 c;
        for (int b = 0; b <= e; b++)
            for (int d = -1; d <= 1; d++) {
                c.push_back((1ull << b) + d);
                c.push_back(n - (1ull << b) + d);
            }
        c.push_back(0);
        V64 p;
        for (auto x : c)
            if (x < n) p.push_back(x);
        std::sort(p.begin(), p.end());
        p.erase(std::unique(p.begin(), p.end()), p.end());
        uint64_t a = p[choose(p.size())];
        // its partner: nothing, its sibling, the last leaf, or the middle one
        uint64_t cand[] = {a, a ^ 1, n - 1, n / 2};
        uint64_t b = cand[choose(4)];
        V64 d{a};
        if (b != a && b < n) d.push_back(b);
        std::sort(d.begin(), d.end());
        w.block(d, flip() ? 2 : 0, "block");
        w.check("after block");
        check_proof(*w.f, w.r, w.r.leaves(), a % w.r.n() ? V64{0, a % w.r.n()} : V64{0}, "after block");
    }});
    const int NW = B(14, 14, 4);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280: 16 large deletion sets (up to every leaf), 0, 1, 130 or 300 additions, then a second large deletion", NW), 3, [=] {
        FW w;
        uint64_t n = choose_wide_n(NW);
        w.block({}, int(n), "fill");
        static const int A[] = {0, 1, 130, 300};
        V64 d = choose_wide(n);
        w.block(d, A[choose(4)], "block");
        w.check("after block");
        VH lv = w.r.leaves();
        if (lv.empty()) return;
        V64 o;
        for (uint64_t i = lv.size(); i-- > 0;)
            if (i % 3) o.push_back(i);
        check_proof(*w.f, w.r, lv, o, "after block");
        V64 e;
        for (uint64_t i = 0; i < lv.size(); i++)
            if (i % 5 != 2) e.push_back(i);
        w.block(e, 3, "block 2");
        w.check("after block 2");
    }});
#ifndef __SANITIZE_ADDRESS__
    const int NX = B(2, 4, 1), DX = B(7, 9, 4);
    S.push_back({"bulk", mc::fmt("%d sizes of about 65836 to 327680 leaves: %d deletion sets from one leaf to all, 0 or 65537 additions, a proof of a third of the leaves, and another deletion", NX, DX), 3, [=] {
        uint64_t n = choose_bulk_n(NX);
        V64 d = choose_bulk(n, DX);
        int add = flip() ? 65537 : 0;
        mc::slow(60);
        FW w;
        w.block({}, int(n), "fill");
        w.block(d, add, "block");
        w.check("after block");
        VH lv = w.r.leaves();
        if (lv.empty()) return;
        V64 o;
        for (uint64_t i = lv.size(); i-- > 0;)
            if (i % 3 == 1) o.push_back(i);
        check_proof(*w.f, w.r, lv, o, "after block");
        w.block({lv.size() - 1}, 1, "block 2");
        w.check("after block 2");
    }});
#endif
    return S;
}

// ------------------------------------------------------------------------------------------- C02
static Scn c02()
{
    Scn S;
    const int N1 = B(12, 14, 9), A1 = B(3, 4, 2);
    S.push_back({"one", mc::fmt("n<=%d, one block (every subset, 0..%d additions), undone directly or through its serialized form", N1, A1), 3, [=] {
        FW w;
        w.block({}, choose(N1 + 1), "fill");
        int a = choose(A1 + 1);
        w.block(choose_subset(w.r.n()), a, "block");
        w.undo_last(choose(3), "undo");
        w.check_all("after undo");
        w.undo_last(0, "undo of the fill");
        w.check_all("after undoing the fill");
    }});
    const int N2 = B(5, 6, 4);
    S.push_back({"stacked", mc::fmt("n<=%d, two blocks (every subset, 0..2 additions), undone 1..3 deep, then another block (every subset, 0..1 additions) and everything undone again", N2), 3, [=] {
        FW w;
        w.block({}, choose(N2 + 1), "fill");
        int a = choose(3);
        w.block(choose_subset(w.r.n()), a, "block 1");
        a = choose(3);
        V64 d = choose_subset(w.r.n());
        w.block(d, a, "block 2");
        int k = 1 + choose(3);
        for (int i = 0; i < k; i++) {
            w.undo_last(i & 1, "undo");
            w.check("after undo");
        }
        w.check_all("after the undos");
        if (w.r.n() > 5) return;
        a = choose(2);
        w.block(choose_subset(w.r.n()), a, "block after undo");
        w.check("block after undo");
        while (!w.undo.empty()) {
            w.undo_last(0, "undo");
            w.check_all("after undoing again");
        }
    }});
    const int N6 = B(4, 5, 3);
    S.push_back({"returning", mc::fmt("n<=%d, a block (every subset) that adds leaves which were in the forest before in 5 arrangements, undone, the same block again, another such block, and everything undone", N6), 3, [=] {
        FW w;
        w.block({}, choose(N6 + 1), "fill");
        V64 d = choose_subset(w.r.n());
        auto l = w.returning(d);
        w.block(d, l, "block");
        w.undo_last(choose(3), "undo");
        w.check_all("after undo");
        w.block(d, l, "the same block again");
        w.check_all("after the same block");
        d = choose_subset(w.r.n());
        w.block(d, w.returning(d), "another block");
        while (!w.undo.empty()) {
            w.undo_last(1, "undo");
            w.check_all("after undo");
        }
    }});
    const int D3 = B(7, 9, 5), NM = B(4, 5, 4);
    S.push_back({"walk", mc::fmt("every sequence of %d steps, each undoing the last block or applying one of 5 block shapes, at most %d+1 leaves", D3, NM), 5, [=] {
        FW w;
        for (int i = 0; i < D3; i++) {
            uint64_t n = w.r.n();
            switch (choose(6)) {
            case 0: w.block({}, 1, "add 1"); break;
            case 1: w.block({}, 3, "add 3"); break;
            case 2: if (!n) return; w.block({0}, 0, "delete first"); break;
            case 3: if (n < 2) return; w.block({n - 2, n - 1}, 1, "delete last two"); break;
            case 4: if (n < 3) return; w.block({0, n / 2}, 2, "replace two"); break;
            case 5: if (w.undo.empty()) return; w.undo_last(i % 2, "undo"); break;
            }
            if (w.r.n() > (uint64_t)NM + 1) return;
            w.check_all("after step");
        }
    }});
    const int NL = B(32, 70, 18);
    S.push_back({"structured", mc::fmt("n in 11..%d and 63..66: structured deletion sets, 0..1 additions, undone", NL), 4, [=] {
        int k = choose(NL - 11 + 1 + 4);
        int n = k <= NL - 11 ? 11 + k : 63 + (k - (NL - 11) - 1);
        FW w;
        w.block({}, n, "fill");
        w.block(choose_structured(n), choose(2) * 3, "block");
        w.undo_last(0, "undo");
        w.check("after undo");
        check_proof(*w.f, w.r, w.r.leaves(), {0, uint64_t(n) / 2, uint64_t(n) - 1}, "after undo");
    }});
    const int NU = B(300, 1200, 100);
    S.push_back({"long", mc::fmt("%d blocks of 6 shapes, then all of them undone one by one; checked after every step", NU), 1, [=] {
        int shape = choose(6);
        FW w;
        for (int i = 0; i < NU; i++) {
            uint64_t n = w.r.n();
            V64 d;
            int add = 0;
            switch (shape) {
            case 0: add = n < 40 ? 3 : 0; if (n) d = {i % n}; break;
            case 1: add = i % 3; if (n > 2) d = {n - 2, n - 1}; break;
            case 2: if (i & 1) for (uint64_t k = 0; k < n; k++) d.push_back(k); else add = 1 + i % 9; break;
            case 3: add = 2; if (n > 9) for (uint64_t k = i % 3; k < n; k += 3) d.push_back(k); break;
            case 4: add = 1; break;
            case 5: add = i % 40 < 20 ? 1 : 0; if (i % 40 >= 20 && n) d = {n / 2}; break;
            }
            w.block(d, add, "block");
            if (i % 7 == 3) { w.undo_last(i % 3, "undo"); w.check("after undo"); w.block(d, add, "block again"); }
            w.check("after block");
        }
        while (!w.undo.empty()) {
            w.undo_last(0, "undo");
            w.check("after undo");
        }
    }});
    const int NW = B(14, 14, 3);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280: 16 large deletion sets (up to every leaf), 0, 1, 130 or 300 additions, undone in three ways; then undone down to nothing", NW), 3, [=] {
        FW w;
        uint64_t n = choose_wide_n(NW);
        w.block({}, int(n / 2), "fill");
        w.block({}, int(n - n / 2), "fill");
        static const int A[] = {0, 1, 130, 300};
        V64 d = choose_wide(n);
        w.block(d, A[choose(4)], "block");
        w.undo_last(choose(3), "undo");
        w.check("after undo");
        VH lv = w.r.leaves();
        V64 o;
        for (uint64_t i = 0; i < lv.size(); i++)
            if (i % 3) o.push_back(i);
        check_proof(*w.f, w.r, lv, o, "after undo");
        w.undo_last(0, "undo");
        w.check("after undoing half of the fill");
        w.undo_last(0, "undo");
        w.check_all("after undoing everything");
    }});
#ifndef __SANITIZE_ADDRESS__
    const int NX = B(2, 4, 1), DX = B(7, 9, 4);
    S.push_back({"bulk", mc::fmt("%d sizes of about 65836 to 327680 leaves: %d deletion sets from one leaf to all, 0 or 65537 additions, undone directly or through the serialized form", NX, DX), 3, [=] {
        uint64_t n = choose_bulk_n(NX);
        V64 d = choose_bulk(n, DX);
        int add = flip() ? 65537 : 0, how = choose(2);
        mc::slow(60);
        FW w;
        w.block({}, int(n), "fill");
        w.block(d, add, "block");
        w.undo_last(how, "undo");
        w.check("after undo");
        VH lv = w.r.leaves();
        V64 o;
        for (uint64_t i = lv.size(); i-- > 0;)
            if (i % 3 == 1) o.push_back(i);
        check_proof(*w.f, w.r, lv, o, "after undo");
    }});
#endif
    return S;
}

// ------------------------------------------------------------------------------------------- C03
static void check_verdict(const FW& w, const V64& order)
{
    VH lv = w.r.leaves();
    BatchProof bp;
    require(w.f->Prove(bp, pick(lv, order)), "leaves %s cannot be proven", str(order).c_str());
    V64 s(order);
    std::sort(s.begin(), s.end());
    require(ref::verify(w.r.n(), w.r.roots(), s, pick(lv, s), bp.GetHashes()), "the proof of %s does not hold against the roots", str(order).c_str());
    require(bp.CheckSanity(w.r.n()), "the proof of %s is not sane", str(order).c_str());
    // the forest's own verdict: the claims as they are, and with one of them foreign (never added, inner, or gone)
    VH claims = pick(lv, s);
    require(w.f->Verify(bp, claims), "the forest refuses its own proof of %s", str(order).c_str());
    VH foreign{leaf_hash(99999999, w.fam)};
    for (auto& h : w.r.roots())
        if (std::find(lv.begin(), lv.end(), h) == lv.end()) { foreign.push_back(h); break; }
    if (w.id < 40)
        for (uint32_t i = 0; i < w.id && foreign.size() < 3; i++)
            if (std::find(lv.begin(), lv.end(), leaf_hash(i, w.fam)) == lv.end()) foreign.push_back(leaf_hash(i, w.fam));
    const size_t m = claims.size();
    std::set<size_t> at;
    for (size_t i = 0; i < m; i++)
        if (m <= 24 || i < 3 || i + 3 > m) at.insert(i);
    for (size_t k = 0; k < 12 && m > 24; k++) at.insert({k * m / 12, k * m / 12 + 1, (size_t(1) << k) % m, ((size_t(1) << k) + 1) % m});
    for (size_t i : at) {
        Hash keep = claims[i];
        const Hash& h = foreign[(i + m) % foreign.size()];
        claims[i] = h;
        require(!w.f->Verify(bp, claims), "the forest accepts a claim of %zu hashes of which number %zu is not its leaf", m, i);
        claims[i] = keep;
    }
}
static Scn c03()
{
    Scn S;
    const int N1 = B(14, 17, 10);
    S.push_back({"all-subsets", mc::fmt("n<=%d: every set of leaves, asked for in ascending, descending and rotated order", N1), 3, [=] {
        FW w;
        w.block({}, choose(N1 + 1), "fill");
        V64 o = choose_subset(w.r.n());
        int how = choose(3);
        if (how == 1) std::reverse(o.begin(), o.end());
        if (how == 2 && !o.empty()) std::rotate(o.begin(), o.begin() + o.size() / 2, o.end());
        step("prove %s", str(o).c_str());
        VH lv = w.r.leaves();
        check_proof(*w.f, w.r, lv, o, "prove");
        check_verdict(w, o);
        std::sort(o.begin(), o.end());
        BatchProof bp;
        require(w.f->Prove(bp, pick(lv, o)) && w.f->Verify(bp, pick(lv, o)), "the forest refuses its own proof");
        w.check("after proving");
    }});
    const int N2 = B(7, 8, 5);
    S.push_back({"all-orders", mc::fmt("n<=%d: every ordered list of distinct leaves", N2), 3, [=] {
        FW w(choose(NFAM));
        int n = choose(N2 + 1);
        w.block({}, n, "fill");
        int k = choose(n + 1);
        V64 o, left;
        for (int i = 0; i < n; i++) left.push_back(i);
        for (int i = 0; i < k; i++) {
            int j = choose(left.size());
            o.push_back(left[j]);
            left.erase(left.begin() + j);
        }
        step("prove %s", str(o).c_str());
        check_proof(*w.f, w.r, w.r.leaves(), o, "prove");
        check_verdict(w, o);
    }});
    const int N3 = B(7, 8, 5);
    S.push_back({"after-block", mc::fmt("n<=%d, a block (every subset, 0..2 additions), optionally undone; then every set of leaves", N3), 3, [=] {
        FW w(choose(2));
        w.block({}, choose(N3 + 1), "fill");
        int a = choose(3);
        w.block(choose_subset(w.r.n()), a, "block");
        if (a == 2 && flip()) w.undo_last(0, "undo");
        V64 o = choose_subset(w.r.n());
        step("prove %s", str(o).c_str());
        check_proof(*w.f, w.r, w.r.leaves(), o, "prove");
        check_verdict(w, o);
    }});
    const int N7 = B(6, 7, 4);
    S.push_back({"returning", mc::fmt("n<=%d, a block (every subset) that adds leaves which were in the forest before in 5 arrangements, optionally undone; then every set of leaves, and every leaf that is gone", N7), 3, [=] {
        FW w;
        w.block({}, choose(N7 + 1), "fill");
        V64 d = choose_subset(w.r.n());
        w.block(d, w.returning(d), "block");
        if (flip()) w.undo_last(0, "undo");
        for (auto& h : gone(w.r.leaves(), {}, w.id, w.fam)) {
            BatchProof bp;
            require(!w.f->Prove(bp, {h}), "a leaf that is gone can be proven");
            require(!w.f->Verify(BatchProof({0}, {}), {h}), "the forest verifies a leaf that is gone");
        }
        V64 o = choose_subset(w.r.n());
        step("prove %s", str(o).c_str());
        check_proof(*w.f, w.r, w.r.leaves(), o, "prove");
        check_verdict(w, o);
    }});
    S.push_back({"not-provable", mc::fmt("n<=%d, a block (every subset); then every set of <=2 leaves plus a deleted leaf, an internal hash, an unknown hash or a duplicate, at every place of the list", N3), 3, [=] {
        FW w(choose(2));
        w.block({}, choose(N3 + 1), "fill");
        VH old = w.r.leaves();
        V64 d = choose_subset(w.r.n());
        w.block(d, choose(2), "block");
        VH lv = w.r.leaves();
        int k = choose(3);
        VH ask;
        if (lv.size() < (size_t)k) return;
        uint64_t from = k ? choose(unsigned(lv.size() - k + 1)) : 0;
        for (int i = 0; i < k; i++) ask.push_back(lv[from + i]);
        Hash x;
        switch (choose(4)) {
        case 0: if (d.empty()) return; x = old[d[choose(d.size())]]; break;
        case 1: {
            auto rows = w.r.rows();
            VH in;
            for (size_t r = 1; r < rows.size(); r++)
                for (auto& t : rows[r]) in.push_back(t->h);
            if (in.empty()) return;
            x = in[choose(in.size())];
            break;
        }
        case 2: x = leaf_hash(77777, w.fam); break;
        case 3: if (ask.empty()) return; x = ask[choose(ask.size())]; break;
        }
        ask.insert(ask.begin() + choose(ask.size() + 1), x);
        step("prove %s", str(ask).c_str());
        BatchProof bp;
        require(!w.f->Prove(bp, ask), "a proof was produced for %s", str(ask).c_str());
        w.check_all("after the refused proof");
        bool absent = std::find(lv.begin(), lv.end(), x) == lv.end();
        if (absent) {
            VH good(ask);
            good.erase(std::find(good.begin(), good.end(), x));
            require(w.f->Prove(bp, good) && w.f->Verify(bp, good), "the forest refuses its own proof");
            require(!w.f->Verify(bp, ask), "the forest verifies %s", str(ask).c_str());
            require(!w.f->Verify(BatchProof({0}, {}), {x}), "the forest verifies a hash that it does not hold");
        }
    }});
    const int NL = B(32, 80, 20), NT = B(63, 127, 63);
    S.push_back({"structured", mc::fmt("n in 12..%d and %d..%d: structured sets of leaves", NL, NT, NT + 2), 4, [=] {
        int k = choose(NL - 12 + 1 + 3);
        int n = k <= NL - 12 ? 12 + k : NT + (k - (NL - 12) - 1);
        FW w;
        w.block({}, n, "fill");
        V64 o = choose_structured(n);
        step("prove %s", str(o).c_str());
        check_proof(*w.f, w.r, w.r.leaves(), o, "prove");
        check_verdict(w, o);
    }});
    const int NW = B(14, 14, 4);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280: 16 large sets of leaves, in ascending, descending or rotated order; none left out, one leaf twice, or one foreign hash", NW), 3, [=] {
        FW w;
        uint64_t n = choose_wide_n(NW);
        w.block({}, int(n), "fill");
        V64 o = choose_wide(n);
        if (o.empty()) return;
        int how = choose(3);
        if (how == 1) std::reverse(o.begin(), o.end());
        if (how == 2) std::rotate(o.begin(), o.begin() + o.size() / 3, o.end());
        step("prove %zu leaves", o.size());
        VH lv = w.r.leaves();
        int odd = choose(3);
        if (!odd) {
            check_proof(*w.f, w.r, lv, o, "prove");
            check_verdict(w, o);
            return;
        }
        VH ask = pick(lv, o);
        ask.push_back(odd == 1 ? ask[ask.size() / 2] : leaf_hash(77777, w.fam));
        BatchProof bp;
        require(!w.f->Prove(bp, ask), "a proof was produced for %zu leaves and %s", o.size(), odd == 1 ? "one of them again" : "a foreign hash");
    }});
#ifndef __SANITIZE_ADDRESS__
    const int NX = B(2, 4, 1), DX = B(7, 9, 4);
    S.push_back({"bulk", mc::fmt("%d sizes of about 65836 to 327680 leaves: %d sets of leaves from one to all, in ascending or descending order; as it is, or with one of them a second time at the end", NX, DX), 3, [=] {
        FW w;
        uint64_t n = choose_bulk_n(NX);
        V64 o = choose_bulk(n, DX);
        if (flip()) std::reverse(o.begin(), o.end());
        bool twice = flip();
        mc::slow(60);
        w.block({}, int(n), "fill");
        step("prove %zu leaves", o.size());
        VH lv = w.r.leaves();
        if (!twice) {
            check_proof(*w.f, w.r, lv, o, "prove");
            check_verdict(w, o);
            return;
        }
        VH ask = pick(lv, o);
        ask.push_back(ask[ask.size() / 2]);
        BatchProof bp;
        require(!w.f->Prove(bp, ask), "a proof was produced for %zu leaves and one of them again", o.size());
    }});
#endif
    return S;
}

// ------------------------------------------------------------------------------------------- C21
static Scn c21()
{
    Scn S;
    const int N = B(5, 5, 3);
    S.push_back({"pairs", mc::fmt("every pair of histories (n<=%d, one block with every subset and 0..2 additions, maybe undone) of two forests over overlapping leaf hashes", N), 3, [=] {
        FW a, b;
        auto grow = [&](FW& w) {
            w.id = choose(2); // second forest may start with a different first leaf
            w.block({}, choose(N + 1), "fill");
            int k = choose(3);
            w.block(choose_subset(w.r.n()), k, "block");
            if (k == 1 && flip()) w.undo_last(0, "undo");
        };
        grow(a);
        grow(b);
        VH la = a.r.leaves(), lb = b.r.leaves();
        bool same = la == lb;
        require((*a.f == *b.f) == same, "operator== says %d for leaves %s and %s", int(!same), str(la).c_str(), str(lb).c_str());
        require((*b.f == *a.f) == same, "operator== says %d for leaves %s and %s", int(!same), str(lb).c_str(), str(la).c_str());
        bool sub = true;
        for (size_t i = 0; i < la.size(); i++) sub = sub && i < lb.size() && lb[i] == la[i];
        require(a.f->ComparePositionMap(*b.f) == sub, "ComparePositionMap says %d for leaves %s in %s", int(!sub), str(la).c_str(), str(lb).c_str());
        a.check("first forest after comparing");
        b.check("second forest after comparing");
        mc::outcome(mc::Hasher().u(same).u(sub).h);
    }});
    const int NW = B(14, 14, 4);
    S.push_back({"wide", mc::fmt("pairs of forests of %d sizes from 127 to 1280 that came about in different ways (other batches, a large block undone, deletion and other additions) and are the same or differ in one leaf, in the order of two leaves, or in the last leaf, at 9 places", NW), 3, [=] {
        uint64_t n = choose_wide_n(NW);
        const uint64_t at[] = {0, 1, n / 2, n / 3, n - 1, n - 2, 127, 128 % n, 255 % n};
        int way = choose(3), diff = choose(5);
        uint64_t x = at[choose(9)] % n, y = (x + 1 + n / 3) % n;
        FW a, b;
        a.block({}, int(n), "fill");
        // b's leaves in order
        std::vector<Leaf> l = mk_leaves(b.id, int(n), 0, b.fam);
        switch (diff) {
        case 0: break;
        case 1: l[x].first = leaf_hash(99999); break;
        case 2: std::swap(l[x], l[y]); break;
        case 3: l.pop_back(); break;
        case 4: l[x].first[20] ^= 1; break;
        }
        UndoBatch u;
        size_t cut = way == 0 ? l.size() : l.size() / 3;
        require(b.f->Modify(u, {l.begin(), l.begin() + cut}, {}), "fill refused");
        require(b.f->Modify(u, {l.begin() + cut, l.end()}, {}), "fill refused");
        if (way == 2) {
            V64 d;
            for (uint64_t i = 0; i < l.size(); i++) if (i % 3 != 1) d.push_back(i);
            uint32_t other = 70000;
            require(b.f->Modify(u, mk_leaves(other, 200, 0, b.fam), d) && b.f->Undo(u), "block or undo refused");
        }
        step("n=%llu way %d difference %d at %llu and %llu", (ull)n, way, diff, (ull)x, (ull)y);
        bool same = diff == 0;
        require((*a.f == *b.f) == same, "operator== says %d", int(!same));
        require((*b.f == *a.f) == same, "operator== says %d", int(!same));
        require(a.f->ComparePositionMap(*b.f) == same, "ComparePositionMap says %d", int(!same));
        require(b.f->ComparePositionMap(*a.f) == (same || diff == 3), "ComparePositionMap says %d the other way", int(!(same || diff == 3)));
        mc::outcome(mc::Hasher().u(diff).h);
    }});
    const int NI = B(5, 6, 3);
    S.push_back({"index", mc::fmt("every pair of a forest or a pollard with every remember mask (n<=%d, then nothing, a deletion of 1 leaf with 0..1 additions, or a prune) with another such forest or pollard: the index comparison succeeds iff the second knows every leaf the first knows, at the same position; both compared both ways, before and after: nothing changes", NI), 3, [=] {
        struct One {
            bool pol;
            FW f;
            PW p;
            std::map<Hash, uint64_t> known() const
            {
                std::map<Hash, uint64_t> m;
                VH lv = pol ? p.r.leaves() : f.r.leaves();
                for (uint64_t i = 0; i < lv.size(); i++)
                    if (!pol || p.M.count(lv[i])) m[lv[i]] = i;
                return m;
            }
            Accumulator& acc() { return pol ? static_cast<Accumulator&>(*p.p) : static_cast<Accumulator&>(*f.f); }
            void make(int nmax)
            {
                pol = flip();
                int n = choose(nmax + 1);
                uint32_t rem = pol ? choose(1u << n) : 0;
                f.id = p.id = n && n < 3 ? choose(2) : 0;
                if (pol) p.fill(n, rem);
                else f.block({}, n, "fill");
                int what = choose(pol ? 4 : 3);
                if (what == 3) { step("prune"); p.p->Prune(); p.M.clear(); return; }
                if (what == 0 || n == 0) return;
                V64 d{uint64_t(choose(n))};
                if (pol) p.block(d, what - 1, 1, 0, "block");
                else f.block(d, what - 1, "block");
            }
            void check(const char* when) const
            {
                if (pol) p.everything(when);
                else f.check_all(when);
            }
        } x, y;
        x.make(NI);
        y.make(NI);
        auto kx = x.known(), ky = y.known();
        auto within = [](const std::map<Hash, uint64_t>& a, const std::map<Hash, uint64_t>& b) {
            for (auto& e : a) {
                auto it = b.find(e.first);
                if (it == b.end() || it->second != e.second) return false;
            }
            return true;
        };
        bool xy = within(kx, ky), yx = within(ky, kx);
        step("compare an index of %zu leaves with one of %zu", kx.size(), ky.size());
        for (int i = 0; i < 2; i++) {
            require(x.acc().ComparePositionMap(y.acc()) == xy, "the index comparison of %zu known leaves with %zu says %d", kx.size(), ky.size(), int(!xy));
            require(y.acc().ComparePositionMap(x.acc()) == yx, "the index comparison of %zu known leaves with %zu says %d", ky.size(), kx.size(), int(!yx));
        }
        require(x.acc().ComparePositionMap(x.acc()), "an index differs from itself");
        x.check("first after comparing");
        y.check("second after comparing");
        mc::outcome(mc::Hasher().u(xy).u(yx).u(x.pol).u(y.pol).h);
    }});
    return S;
}

int main(int argc, char** argv)
{
    return mc::main_loop(argc, argv, {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C21", c21}});
}
