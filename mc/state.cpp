// Position arithmetic: C13 geometry, C14 proof positions, C15 removal transformation.
#include "sys.h"
using namespace sys;
typedef std::vector<mc::Scenario> Scn;
typedef unsigned long long ull;

static void eq(uint64_t got, uint64_t want, const char* what, uint64_t n, uint64_t pos)
{
    require(got == want, "%s of position %llu with %llu leaves is %llu, expected %llu", what, (ull)pos, (ull)n, (ull)got, (ull)want);
}
// everything about one slot (row r, index i) of the perfect tree around the forest
static void check_slot(const ref::Geo& g, int r, uint64_t i)
{
    const ForestState s(g.n);
    const uint64_t p = g.pos(r, i);
    eq(s.DetectRow(p), r, "row", g.n, p);
    eq(s.RowOffset(p), g.offset(r), "row offset", g.n, p);
    if (r < g.rows) {
        eq(s.Parent(p), g.pos(r + 1, i / 2), "parent", g.n, p);
        eq(s.Sibling(p), g.pos(r, i ^ 1), "sibling", g.n, p);
        eq(s.RightSibling(p), g.pos(r, i | 1), "right sibling", g.n, p);
    }
    if (r + 2 <= g.rows) eq(s.Cousin(p), g.pos(r, i ^ 2), "cousin", g.n, p);
    for (int k = 0; r + k <= g.rows; k++) eq(s.Ancestor(p, k), g.pos(r + k, k < 64 ? i >> k : 0), "ancestor", g.n, p);
    for (int k = 0; k <= r; k++) eq(s.LeftDescendant(p, k), g.pos(r - k, i << k), "left descendant", g.n, p);
    if (r > 0) {
        eq(s.LeftChild(p), g.pos(r - 1, 2 * i), "left child", g.n, p);
        eq(s.Child(p, 0), g.pos(r - 1, 2 * i), "child 0", g.n, p);
        eq(s.Child(p, 1), g.pos(r - 1, 2 * i + 1), "child 1", g.n, p);
    }
    if (!g.exists(r, i)) return;
    // which tree is it in, and how does one get there
    int rr = r;
    uint64_t j = i, dirs = 0;
    while (!g.is_root(rr, j)) {
        dirs |= (j & 1) << (rr - r);
        j /= 2;
        rr++;
    }
    int tree = 0;
    for (int q = g.rows; q > rr; q--) tree += g.has_root(q);
    auto [t, len, bits] = s.Path(p);
    eq(t, tree, "tree", g.n, p);
    eq(len, rr - r, "path length", g.n, p);
    uint64_t mask = len < 64 ? (1ull << len) - 1 : ~0ull;
    eq(~bits & mask, dirs, "path", g.n, p);
    eq(s.RootIndex(p), tree, "root index", g.n, p);
}
static void check_forest_geo(const ref::Geo& g)
{
    const ForestState s(g.n);
    eq(s.NumRows(), g.rows, "rows", g.n, 0);
    eq(s.NumRoots(), g.num_roots(), "number of roots", g.n, 0);
    eq(s.MaxNodes(), g.offset(g.rows) + 1, "max nodes", g.n, 0);
    for (int r = 0; r <= g.rows; r++) {
        require(s.HasRoot(r) == g.has_root(r), "HasRoot(%d) is wrong for %llu leaves", r, (ull)g.n);
        if (g.has_root(r)) eq(s.RootPosition(r), g.pos(r, g.count(r) - 1), "root", g.n, r);
        eq(s.RowOffset(uint8_t(r)), g.offset(r), "offset of row", g.n, r);
    }
    require(s.RootPositions() == g.root_positions(), "roots of %llu leaves are %s, expected %s", (ull)g.n, str(s.RootPositions()).c_str(), str(g.root_positions()).c_str());
}
static void check_roots_after(const ref::Geo& g, uint64_t m)
{
    V64 want;
    for (int r = g.rows; r >= 0; r--)
        if (m >> r & 1) want.push_back(g.pos(r, (m >> r) - 1));
    V64 got = ForestState(g.n).RootPositions(m);
    require(got == want, "root positions of %llu leaves in a forest of %llu are %s, expected %s", (ull)m, (ull)g.n, str(got).c_str(), str(want).c_str());
}
static Scn c13()
{
    Scn S;
    const int N = B(700, 2100, 300);
    S.push_back({"small", mc::fmt("every leaf count up to %d, every position of the surrounding perfect tree, every rise and drop; roots of every smaller count", N), 1, [=] {
        uint64_t n = choose(N + 1);
        step("n=%llu", (ull)n);
        ref::Geo g(n);
        check_forest_geo(g);
        for (uint64_t m = 0; m <= n; m++) check_roots_after(g, m);
        if (n)
            for (int r = 0; r <= g.rows; r++)
                for (uint64_t i = 0; i < g.width(r); i++) check_slot(g, r, i);
        mc::state(n);
    }});
    S.push_back({"large", "leaf counts around every power of two and sum of two powers of two from 2^5 to 2^62; in every row the positions at both ends, in the middle, and around the last node", 2, [] {
        uint64_t n = boundary_n(62);
        step("n=%llu", (ull)n);
        ref::Geo g(n);
        check_forest_geo(g);
        for (uint64_t m : {n - 1, n - 2, n / 2, n / 2 - 1, n / 3, uint64_t(0), uint64_t(1), n & (n - 1)}) check_roots_after(g, m);
        for (int r = 0; r <= g.rows; r++) {
            uint64_t w = g.width(r), c = g.count(r);
            for (uint64_t i : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(3), w / 2 - 1, w / 2, w / 3, w - 1, w - 2, c, c - 1, c - 2, c - 3, c / 2})
                if (i < w) check_slot(g, r, i);
        }
        mc::state(n);
    }});
    const int NT = B(4, 5, 4);
    S.push_back({"target-check", mc::fmt("every n<=%d and every list of up to 4 targets over 0..n+1, 2^32, 2^63, 2^64-1: sane iff ascending, distinct and in range", NT), 2, [=] {
        uint64_t n = choose(NT + 1);
        int k = choose(5);
        V64 t;
        uint64_t sp[] = {1ull << 32, 1ull << 63, ~0ull};
        for (int i = 0; i < k; i++) {
            unsigned c = choose(unsigned(n + 2 + 3));
            t.push_back(c < n + 2 ? c : sp[c - n - 2]);
        }
        step("n=%llu targets %s", (ull)n, str(t).c_str());
        bool want = ref::sane_targets(t, n);
        require(ForestState(n).CheckTargetsSanity(t) == want, "targets %s of %llu leaves are judged %s", str(t).c_str(), (ull)n, want ? "bad" : "good");
        mc::outcome(want);
        mc::state(mc::Hasher().u(n).u(key({})).u(k).u(k ? t[0] : 0).u(k > 1 ? t[1] : 0).u(k > 2 ? t[2] : 0).u(k > 3 ? t[3] : 0).h);
    }});
    return S;
}

// ------------------------------------------------------------------------------------------- C14
static void check_pp(uint64_t n, const V64& t)
{
    step("n=%llu targets %s", (ull)n, str(t).c_str());
    ref::Geo g(n);
    auto got = ForestState(n).ProofPositions(t);
    V64 pp = g.proof_positions(t), cp = g.computed_positions(t);
    require(got.first == pp, "%llu leaves, targets %s: proof positions %s, expected %s", (ull)n, str(t).c_str(), str(got.first).c_str(), str(pp).c_str());
    require(got.second == cp, "%llu leaves, targets %s: computed positions %s, expected %s", (ull)n, str(t).c_str(), str(got.second).c_str(), str(cp).c_str());
    mc::Hasher h;
    for (auto x : pp) h.u(x);
    mc::outcome(h.h);
    h.u(n);
    for (auto x : t) h.u(x);
    mc::state(h.h);
}
static Scn c14()
{
    Scn S;
    const int N = B(15, 18, 15);
    S.push_back({"subsets", mc::fmt("every n<=%d, every target set", N), 2, [=] {
        uint64_t n = choose(N + 1);
        check_pp(n, choose_subset(n));
    }});
    const int NW = B(22, 26, 22);
    S.push_back({"windows", mc::fmt("every n in 16..%d, every target set inside every aligned window of 8 leaves, plus every single leaf elsewhere", NW), 3, [=] {
        uint64_t n = 16 + choose(NW - 15);
        uint64_t w = choose(unsigned((n + 7) / 8)) * 8;
        unsigned m = choose(256);
        uint64_t x = choose(unsigned(n + 1));
        V64 t;
        for (int i = 0; i < 8; i++)
            if (m >> i & 1 && w + i < n) t.push_back(w + i);
        if (x < n && !std::binary_search(t.begin(), t.end(), x)) t.insert(std::lower_bound(t.begin(), t.end(), x), x);
        check_pp(n, t);
    }});
    S.push_back({"large", "leaf counts around powers of two and sums of two from 2^5 to 2^62: every choice of up to 3 (2 under the address sanitizer) of 18 boundary positions", 3, [] {
        uint64_t n = boundary_n(62);
        int k = 1 + choose(B(3, 3, 2));
        V64 t = boundary_targets(n, k);
        check_pp(n, t);
    }});
    S.push_back({"wide", "14 sizes from 127 to 1280: 16 large target sets", 2, [] {
        uint64_t n = choose_wide_n(14);
        check_pp(n, choose_wide(n));
    }});
    S.push_back({"bulk", "4 sizes of about 65836 to 327680 leaves: 9 target sets from one leaf to all", 2, [] {
        uint64_t n = choose_bulk_n(4);
        V64 t = choose_bulk(n, 9);
        mc::slow(60);
        check_pp(n, t);
    }});
    return S;
}

// ------------------------------------------------------------------------------------------- C15
static void check_tf(uint64_t n, const V64& t, const V64& ref_order)
{
    step("n=%llu targets %s", (ull)n, str(t).c_str());
    ref::Geo g(n);
    ForestState s(n);
    V64 a;
    for (uint64_t i = 0; i < n; i++) a.push_back(i);
    V64 orig(a);
    auto swaps = s.Transform(t);
    for (size_t r = 0; r < swaps.size(); r++)
        for (auto& sw : swaps[r]) {
            auto f = g.locate(sw.m_from), d = g.locate(sw.m_to);
            require(f.first == (int)r && d.first == (int)r, "swap %llu <-> %llu is not in row %zu", (ull)sw.m_from, (ull)sw.m_to, r);
            uint64_t w = 1ull << r, x = f.second << r, y = d.second << r;
            require(x + w <= n && y + w <= n, "swap %llu <-> %llu reaches beyond the %llu leaves", (ull)sw.m_from, (ull)sw.m_to, (ull)n);
            if (x == y) continue;
            for (uint64_t i = 0; i < w; i++) std::swap(a[x + i], a[y + i]);
        }
    V64 head(a.begin(), a.end() - t.size()), tail(a.end() - t.size(), a.end());
    require(head == ref_order, "%llu leaves, delete %s: the remaining leaves are %s, expected %s", (ull)n, str(t).c_str(), str(head).c_str(), str(ref_order).c_str());
    V64 st(tail);
    std::sort(st.begin(), st.end());
    require(st == t, "%llu leaves, delete %s: %s end up behind the remaining leaves", (ull)n, str(t).c_str(), str(tail).c_str());
    auto un = s.UndoTransform(t);
    for (auto it = un.rbegin(); it != un.rend(); ++it) {
        uint64_t w = it->m_is_range_swap ? it->m_range : 1;
        require(it->m_from + w <= n && it->m_to + w <= n, "undo swap %llu <-> %llu range %llu reaches beyond the %llu leaves", (ull)it->m_from, (ull)it->m_to, (ull)w, (ull)n);
        for (uint64_t i = 0; i < w; i++) std::swap(a[it->m_from + i], a[it->m_to + i]);
    }
    require(a == orig, "%llu leaves, delete %s: undoing the swaps gives %s", (ull)n, str(t).c_str(), str(a).c_str());
    mc::Hasher h;
    for (auto x : head) h.u(x);
    mc::state(h.u(n).h);
}
static V64 ref_order(uint64_t n, const V64& t)
{
    ref::Forest r;
    for (uint64_t i = 0; i < n; i++) r.add(leaf_hash(uint32_t(i), FAM_FIRST));
    r.remove(t);
    V64 v;
    for (auto& h : r.leaves()) v.push_back((h[0] | h[1] << 8 | h[2] << 16) - 1);
    return v;
}
// A permutation of 0..n-1 as a list of runs of consecutive numbers.
struct Runs {
    std::vector<std::pair<uint64_t, uint64_t>> v; // start, length
    size_t cut(uint64_t at) // index of the run that begins at place `at`
    {
        uint64_t p = 0;
        for (size_t i = 0; i < v.size(); i++) {
            if (p == at) return i;
            if (at < p + v[i].second) {
                uint64_t k = at - p;
                v.insert(v.begin() + i + 1, {v[i].first + k, v[i].second - k});
                v[i].second = k;
                return i + 1;
            }
            p += v[i].second;
        }
        return v.size();
    }
    void swap(uint64_t a, uint64_t b, uint64_t w)
    {
        if (a == b) return;
        if (a > b) std::swap(a, b);
        for (uint64_t x : {a, a + w, b, b + w}) cut(x);
        size_t i = cut(a), j = cut(a + w), k = cut(b), l = cut(b + w);
        std::vector<std::pair<uint64_t, uint64_t>> o(v.begin(), v.begin() + i);
        o.insert(o.end(), v.begin() + k, v.begin() + l);
        o.insert(o.end(), v.begin() + j, v.begin() + k);
        o.insert(o.end(), v.begin() + i, v.begin() + j);
        o.insert(o.end(), v.begin() + l, v.end());
        v.swap(o);
    }
    void push(uint64_t start, uint64_t len)
    {
        if (!v.empty() && v.back().first + v.back().second == start) v.back().second += len;
        else v.push_back({start, len});
    }
    Runs normal(uint64_t from, uint64_t to) // places from..to-1
    {
        size_t i = cut(from), j = cut(to);
        Runs r;
        for (; i < j; i++) r.push(v[i].first, v[i].second);
        return r;
    }
    std::string text() const
    {
        std::string s;
        for (auto& x : v) s += mc::fmt(" %llu+%llu", (ull)x.first, (ull)x.second);
        return s;
    }
};
static void check_tf_huge(uint64_t n, const V64& t)
{
    step("n=%llu targets %s", (ull)n, str(t).c_str());
    // the leaves that remain, by surgery on labelled trees
    ref::Forest r;
    uint64_t at = n;
    for (int k = 0; k < 64; k++) {
        r.root.push_back(nullptr);
        if (n >> k & 1) {
            at -= 1ull << k;
            r.root[k] = ref::mk_label(at, k);
        }
    }
    r.remove(t);
    Runs want;
    std::function<void(const ref::TP&, int)> flat = [&](const ref::TP& x, int row) {
        if (ref::is_label(x)) {
            uint64_t s;
            memcpy(&s, x->h.data(), 8);
            require(x->h[8] == row, "harness: label of another row");
            want.push(s, 1ull << row);
            return;
        }
        flat(x->l, row - 1);
        flat(x->r, row - 1);
    };
    for (size_t k = r.root.size(); k-- > 0;)
        if (r.root[k]) flat(r.root[k], int(k));
    ref::Geo g(n);
    ForestState s(n);
    Runs a;
    a.push(0, n);
    auto swaps = s.Transform(t);
    for (size_t q = 0; q < swaps.size(); q++)
        for (auto& sw : swaps[q]) {
            auto f = g.locate(sw.m_from), d = g.locate(sw.m_to);
            require(f.first == (int)q && d.first == (int)q, "swap %llu <-> %llu is not in row %zu", (ull)sw.m_from, (ull)sw.m_to, q);
            uint64_t w = 1ull << q, x = f.second << q, y = d.second << q;
            require(x + w <= n && y + w <= n, "swap %llu <-> %llu reaches beyond the %llu leaves", (ull)sw.m_from, (ull)sw.m_to, (ull)n);
            a.swap(x, y, w);
        }
    Runs head = a.normal(0, n - t.size()), tail = a.normal(n - t.size(), n);
    require(head.v == want.v, "%llu leaves, delete %s: the remaining leaves are%s, expected%s", (ull)n, str(t).c_str(), head.text().c_str(), want.text().c_str());
    V64 st;
    for (auto& x : tail.v)
        for (uint64_t i = 0; i < x.second; i++) st.push_back(x.first + i);
    std::sort(st.begin(), st.end());
    require(st == t, "%llu leaves, delete %s: %s end up behind the remaining leaves", (ull)n, str(t).c_str(), tail.text().c_str());
    auto un = s.UndoTransform(t);
    for (auto it = un.rbegin(); it != un.rend(); ++it) {
        uint64_t w = it->m_is_range_swap ? it->m_range : 1;
        require(w <= n && it->m_from <= n - w && it->m_to <= n - w, "undo swap %llu <-> %llu range %llu reaches beyond the %llu leaves", (ull)it->m_from, (ull)it->m_to, (ull)w, (ull)n);
        a.swap(it->m_from, it->m_to, w);
    }
    Runs id = a.normal(0, n);
    require(id.v.size() == 1 && id.v[0].first == 0, "%llu leaves, delete %s: undoing the swaps gives%s", (ull)n, str(t).c_str(), id.text().c_str());
    mc::Hasher h;
    for (auto& x : head.v) h.u(x.first).u(x.second);
    mc::state(h.u(n).h);
}
static Scn c15()
{
    Scn S;
    const int N = B(14, 17, 12);
    S.push_back({"subsets", mc::fmt("every n<=%d, every deletion set", N), 2, [=] {
        uint64_t n = choose(N + 1);
        V64 t = choose_subset(n);
        check_tf(n, t, ref_order(n, t));
    }});
    const int NW = B(33, 40, 24);
    S.push_back({"windows", mc::fmt("every n in 15..%d, every deletion set inside every aligned window of 8 leaves, plus every single leaf elsewhere", NW), 3, [=] {
        uint64_t n = 15 + choose(NW - 14);
        uint64_t w = choose(unsigned((n + 7) / 8)) * 8;
        unsigned m = choose(256);
        uint64_t x = choose(unsigned(n + 1));
        V64 t;
        for (int i = 0; i < 8; i++)
            if (m >> i & 1 && w + i < n) t.push_back(w + i);
        if (x < n && !std::binary_search(t.begin(), t.end(), x)) t.insert(std::lower_bound(t.begin(), t.end(), x), x);
        check_tf(n, t, ref_order(n, t));
    }});
    const int NB = B(10, 13, 8);
    S.push_back({"larger", mc::fmt("leaf counts around powers of two and sums of two from 2^5 to 2^%d: every choice of up to 3 of 18 boundary leaves, and their complements up to 2^7", NB), 3, [=] {
        uint64_t n = boundary_n(NB);
        int k = 1 + choose(3);
        V64 t = boundary_targets(n, k);
        if (n < 130 && flip()) {
            V64 c;
            for (uint64_t i = 0; i < n; i++)
                if (!std::binary_search(t.begin(), t.end(), i)) c.push_back(i);
            t = c;
        }
        check_tf(n, t, ref_order(n, t));
    }});
    const int KH = B(2, 3, 1);
    S.push_back({"huge", mc::fmt("leaf counts around powers of two and sums of two from 2^5 to 2^62: every choice of up to %d of 18 boundary leaves; for 13 counts from 2^31-1 to 2^62 one more; whole runs of leaves are followed through the swaps", KH), 3, [=] {
        static const uint64_t NH[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 6, (1ull << 33) + (1ull << 32) + 5,
                                      (1ull << 40) + (1ull << 33) + 3, (1ull << 40) - 1, (1ull << 47) + 12, (1ull << 62) - 1, (1ull << 61) + (1ull << 31) + 2};
        int k = 1 + choose(KH + 1);
        uint64_t n = k <= KH ? boundary_n(62) : NH[choose(sizeof NH / sizeof *NH)];
        check_tf_huge(n, boundary_targets(n, k));
    }});
    S.push_back({"wide", "14 sizes from 127 to 1280: 16 large deletion sets", 2, [] {
        uint64_t n = choose_wide_n(14);
        V64 t = choose_wide(n);
        check_tf(n, t, ref_order(n, t));
    }});
    S.push_back({"bulk", "4 sizes of about 65836 to 327680 leaves: 9 deletion sets from one leaf to all", 2, [] {
        uint64_t n = choose_bulk_n(4);
        V64 t = choose_bulk(n, 9);
        mc::slow(60);
        check_tf(n, t, ref_order(n, t));
    }});
    return S;
}

int main(int argc, char** argv)
{
    return mc::main_loop(argc, argv, {{"C13", c13}, {"C14", c14}, {"C15", c15}});
}
