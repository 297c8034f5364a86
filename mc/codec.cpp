// Wire formats: C16 batch proofs, C17 undo data, C18 proof sanity; C19 the hash function.
#include "sys.h"
#include "src/crypto/sha512.h"
#include <sys/mman.h>
#include <sys/resource.h>
using namespace sys;
typedef std::vector<mc::Scenario> Scn;
typedef std::vector<uint8_t> Bytes;
typedef unsigned long long ull;

static void be32(Bytes& b, uint32_t v)
{
    for (int k = 3; k >= 0; k--) b.push_back(uint8_t(v >> (8 * k)));
}
static void app(Bytes& b, const Hash& h) { b.insert(b.end(), h.begin(), h.end()); }
static const uint64_t VAL[] = {0, 1, 2, 255, 256, 65535, 65536, (1u << 24) + 1, 1u << 31, 0xffffffffull, 0x01020304};
static const int NVAL = sizeof VAL / sizeof *VAL;
static uint64_t bhash(const Bytes& b) { return mc::Hasher().bytes(b).u(b.size()).h; }
// header counts that are small, or large enough to overflow 32-bit size arithmetic
static uint32_t count_value()
{
    static const uint32_t V[] = {0, 1, 2, 3, 1u << 24, 1u << 25, 1u << 26, 1u << 27, 1u << 28, 1u << 29, 1u << 30, 3u << 30, 1u << 31, 0xffffffffu, 0xfffffffeu, (1u << 27) + 1, (1u << 30) + 1, 0x71c71c72u, 0x38e38e39u, 0xf8000000u};
    return V[choose(sizeof V / sizeof *V)];
}

// ------------------------------------------------------------------------------------------- C16
static BatchProof used_proof(int how)
{
    switch (how) {
    case 0: return BatchProof();
    case 1: return BatchProof({5, 3}, {leaf_hash(1), leaf_hash(2)});
    case 2: { BatchProof b({9}, {leaf_hash(3)}); b.SetNull(); return b; }
    default: { // one that was itself read
        BatchProof b({7, 1, 4}, {leaf_hash(4)}), c;
        Bytes x;
        b.Serialize(x);
        c.Unserialize(x);
        return c;
    }
    }
}
static void same_proof(const BatchProof& b, const V64& t, const VH& p, const char* when)
{
    V64 s(t);
    std::sort(s.begin(), s.end());
    require(b.GetTargets() == t, "%s: targets %s, expected %s", when, str(b.GetTargets()).c_str(), str(t).c_str());
    require(b.GetSortedTargets() == s, "%s: sorted targets %s, expected %s", when, str(b.GetSortedTargets()).c_str(), str(s).c_str());
    require(b.GetHashes() == p, "%s: hashes differ", when);
}
static Scn c16()
{
    Scn S;
    const int K = B(3, 4, 3);
    S.push_back({"round-trip", mc::fmt("every list of up to %d targets over 11 values up to 2^32-1 in any order (duplicates too), 0..3 hashes, read into 4 kinds of objects (fresh, used, cleared, read before) with a used or empty output buffer", K), 3, [=] {
        int k = choose(K + 1), q = choose(4);
        V64 t;
        VH p;
        for (int i = 0; i < k; i++) t.push_back(VAL[choose(NVAL)]);
        for (int i = 0; i < q; i++) p.push_back(leaf_hash(100 + i + k, i == 1 ? FAM_ZERO : FAM_SPREAD));
        BatchProof b(t, p);
        same_proof(b, t, p, "built");
        Bytes out;
        int into = choose(4);
        if (into & 1) out.assign(500, 0xee);
        b.Serialize(out);
        step("serialize targets %s and %d hashes, read into object kind %d", str(t).c_str(), q, into);
        Bytes want;
        be32(want, k);
        be32(want, q);
        for (auto x : t) be32(want, uint32_t(x));
        for (auto& h : p) app(want, h);
        require(out == want, "serialized form of targets %s and %d hashes is not the documented one", str(t).c_str(), q);
        BatchProof c = used_proof(into);
        require(c.Unserialize(out), "own serialized form refused");
        same_proof(c, t, p, "read back");
        require(c == b && b == c, "read back object differs (operator==)");
        Bytes again;
        c.Serialize(again);
        require(again == out, "serializing again gives other bytes");
        mc::state(bhash(out));
    }});
    S.push_back({"many", "round trips with 0 to 70000 targets (in 3 orders) and 0 to 66000 hashes, counts around 2^7, 2^8, 2^15 and 2^16; truncated or extended by one byte, one target or one hash: refused", 2, [] {
        static const uint32_t C[] = {0, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 66000, 70000};
        uint32_t k = C[choose(12)], q = C[choose(11)];
        int order = choose(3);
        V64 t;
        VH p;
        for (uint32_t i = 0; i < k; i++) t.push_back(order == 0 ? i * 3 : order == 1 ? (k - i) * 7 : mc::mix(i) & 0xffffffff);
        for (uint32_t i = 0; i < q; i++) p.push_back(leaf_hash(i, FAM_LAST));
        BatchProof b(t, p);
        Bytes out;
        b.Serialize(out);
        step("%u targets, %u hashes", k, q);
        Bytes want;
        be32(want, k);
        be32(want, q);
        for (auto x : t) be32(want, uint32_t(x));
        for (auto& h : p) app(want, h);
        require(out == want, "serialized form of %u targets and %u hashes is not the documented one", k, q);
        BatchProof c = used_proof(1);
        require(c.Unserialize(out), "own serialized form refused");
        V64 s(t);
        std::sort(s.begin(), s.end());
        require(c.GetTargets() == t && c.GetSortedTargets() == s && c.GetHashes() == p && c == b, "%u targets and %u hashes are read back wrongly", k, q);
        for (int d : {-32, -4, -1, 1, 4, 32}) {
            Bytes x(out);
            if (d < 0 && x.size() < size_t(8 - d)) continue;
            x.resize(x.size() + d);
            require(!c.Unserialize(x), "%zu bytes accepted for %u targets and %u hashes", x.size(), k, q);
            require(c == b, "a refused input changed the object");
        }
        mc::state(bhash(out));
    }});
    S.push_back({"strict", "every input of every length 0..160 whose two counts are any of 20 values (small ones and ones that overflow 32-bit sizes): accepted iff the length is exactly what the counts say; a refused input leaves the object as it was, an accepted one round-trips", 3, [] {
        uint32_t a = count_value(), b = count_value();
        size_t len = choose(161);
        Bytes in;
        be32(in, a);
        be32(in, b);
        for (size_t i = 8; i < len; i++) in.push_back(uint8_t(mc::mix(i * 7 + a + b)));
        in.resize(len);
        bool want = len >= 8 && uint64_t(len) == 8 + 4 * uint64_t(a) + 32 * uint64_t(b);
        int into = choose(2);
        BatchProof o = used_proof(into);
        V64 t0 = o.GetTargets();
        VH p0 = o.GetHashes();
        step("read %zu bytes claiming %u targets and %u hashes", len, a, b);
        bool ok = o.Unserialize(in);
        require(ok == want, "%zu bytes claiming %u targets and %u hashes: %s", len, a, b, ok ? "accepted" : "refused");
        if (ok) {
            Bytes out;
            o.Serialize(out);
            require(out == in, "accepted input does not serialize back");
        } else same_proof(o, t0, p0, "after a refused input");
        mc::outcome(mc::Hasher().u(ok).u(len).h);
        mc::state(bhash(in));
    }});
    S.push_back({"equality", "every pair of proofs with up to 2 targets over {0,1,2} and up to 2 of 2 hashes: equal iff targets (in order) and hashes are", 3, [] {
        auto some = [](V64& t, VH& p) {
            int k = choose(3), q = choose(3);
            for (int i = 0; i < k; i++) t.push_back(choose(3));
            for (int i = 0; i < q; i++) p.push_back(leaf_hash(choose(2), FAM_LAST));
        };
        V64 t1, t2;
        VH p1, p2;
        some(t1, p1);
        some(t2, p2);
        BatchProof a(t1, p1), b(t2, p2);
        step("compare %s and %s", str(t1).c_str(), str(t2).c_str());
        bool same = t1 == t2 && p1 == p2;
        require((a == b) == same, "proofs with targets %s and %s compare as %d", str(t1).c_str(), str(t2).c_str(), int(!same));
        a.SetNull();
        same_proof(a, {}, {}, "cleared");
        mc::outcome(same);
    }});
    return S;
}

// ------------------------------------------------------------------------------------------- C17
static UndoBatch used_undo(int how)
{
    switch (how) {
    case 0: return UndoBatch();
    case 1: return UndoBatch(6, {5, 3}, {leaf_hash(1), leaf_hash(2)});
    default: {
        UndoBatch b(9, {7, 1, 4}, {leaf_hash(4), leaf_hash(5), leaf_hash(6)}), c;
        Bytes x;
        b.Serialize(x);
        c.Unserialize(x);
        return c;
    }
    }
}
static void same_undo(const UndoBatch& b, uint64_t adds, const V64& t, const VH& p, const char* when)
{
    require(b.GetNumAdds() == adds, "%s: %llu additions, expected %llu", when, (ull)b.GetNumAdds(), (ull)adds);
    require(b.GetDeletedPositions() == t, "%s: positions %s, expected %s", when, str(b.GetDeletedPositions()).c_str(), str(t).c_str());
    require(b.GetDeletedHashes() == p, "%s: hashes differ", when);
}
static Scn c17()
{
    Scn S;
    const int K = B(3, 4, 3);
    S.push_back({"round-trip", mc::fmt("up to %d deletions at 11 position values, 11 addition counts, read into 3 kinds of objects", K), 3, [=] {
        int k = choose(K + 1);
        uint64_t adds = VAL[choose(NVAL)];
        V64 t;
        VH p;
        for (int i = 0; i < k; i++) {
            t.push_back(VAL[choose(NVAL)]);
            p.push_back(leaf_hash(100 + i + k, i == 1 ? FAM_ZERO : FAM_SPREAD));
        }
        UndoBatch b(adds, t, p);
        same_undo(b, adds, t, p, "built");
        Bytes out;
        int into = choose(3);
        if (into & 1) out.assign(500, 0xee);
        b.Serialize(out);
        step("serialize %llu additions, deletions %s, read into object kind %d", (ull)adds, str(t).c_str(), into);
        Bytes want;
        be32(want, uint32_t(adds));
        be32(want, k);
        for (auto x : t) be32(want, uint32_t(x));
        for (auto& h : p) app(want, h);
        require(out == want, "serialized form is not the documented one");
        UndoBatch c = used_undo(into);
        require(c.Unserialize(out), "own serialized form refused");
        same_undo(c, adds, t, p, "read back");
        require(c == b && b == c, "read back object differs (operator==)");
        Bytes again;
        c.Serialize(again);
        require(again == out, "serializing again gives other bytes");
        mc::state(bhash(out));
    }});
    S.push_back({"many", "round trips with 0 to 70000 deletions and 12 addition counts around 2^7, 2^8, 2^15 and 2^16; truncated or extended by one byte, one position, one hash or one pair: refused", 2, [] {
        static const uint32_t C[] = {0, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 66000, 70000};
        uint32_t k = C[choose(12)], a = C[choose(12)];
        V64 t;
        VH p;
        for (uint32_t i = 0; i < k; i++) {
            t.push_back(mc::mix(i) & 0xffffffff);
            p.push_back(leaf_hash(i, FAM_LAST));
        }
        UndoBatch b(a, t, p);
        Bytes out;
        b.Serialize(out);
        step("%u deletions, %u additions", k, a);
        Bytes want;
        be32(want, a);
        be32(want, k);
        for (auto x : t) be32(want, uint32_t(x));
        for (auto& h : p) app(want, h);
        require(out == want, "serialized form of %u deletions is not the documented one", k);
        UndoBatch c = used_undo(1);
        require(c.Unserialize(out), "own serialized form refused");
        require(c.GetNumAdds() == a && c.GetDeletedPositions() == t && c.GetDeletedHashes() == p && c == b, "%u deletions are read back wrongly", k);
        for (int d : {-36, -32, -4, -1, 1, 4, 32, 36}) {
            Bytes x(out);
            if (d < 0 && x.size() < size_t(8 - d)) continue;
            x.resize(x.size() + d);
            require(!c.Unserialize(x), "%zu bytes accepted for %u deletions", x.size(), k);
            require(c == b, "a refused input changed the object");
        }
        mc::state(bhash(out));
    }});
    S.push_back({"strict", "every input of every length 0..160 whose counts are any of 20 values: accepted iff the length is exactly what the deletion count says; a refused input leaves the object as it was, an accepted one round-trips", 3, [] {
        uint32_t a = count_value(), b = count_value();
        size_t len = choose(161);
        Bytes in;
        be32(in, a);
        be32(in, b);
        for (size_t i = 8; i < len; i++) in.push_back(uint8_t(mc::mix(i * 7 + a + b)));
        in.resize(len);
        bool want = len >= 8 && uint64_t(len) == 8 + 36 * uint64_t(b);
        UndoBatch o = used_undo(choose(2));
        uint64_t a0 = o.GetNumAdds();
        V64 t0 = o.GetDeletedPositions();
        VH p0 = o.GetDeletedHashes();
        step("read %zu bytes claiming %u additions and %u deletions", len, a, b);
        bool ok = o.Unserialize(in);
        require(ok == want, "%zu bytes claiming %u deletions: %s", len, b, ok ? "accepted" : "refused");
        if (ok) {
            Bytes out;
            o.Serialize(out);
            require(out == in, "accepted input does not serialize back");
        } else same_undo(o, a0, t0, p0, "after a refused input");
        mc::outcome(mc::Hasher().u(ok).u(len).h);
        mc::state(bhash(in));
    }});
    S.push_back({"equality", "every pair of undo records with 0..2 additions, up to 2 deletions over {0,1,2} and 2 hashes", 3, [] {
        auto some = [](uint64_t& n, V64& t, VH& p) {
            n = choose(3);
            int k = choose(3);
            for (int i = 0; i < k; i++) {
                t.push_back(choose(3));
                p.push_back(leaf_hash(choose(2), FAM_LAST));
            }
        };
        uint64_t n1, n2;
        V64 t1, t2;
        VH p1, p2;
        some(n1, t1, p1);
        some(n2, t2, p2);
        UndoBatch a(n1, t1, p1), b(n2, t2, p2);
        step("compare");
        bool same = n1 == n2 && t1 == t2 && p1 == p2;
        require((a == b) == same, "undo records compare as %d", int(!same));
        mc::outcome(same);
    }});
    S.push_back({"from-forest", "the undo record of every block (n<=6, every subset, 0..2 additions): counts, positions and hashes of exactly that block", 3, [] {
        RamForest f(0);
        uint32_t id = 0;
        UndoBatch u = used_undo(choose(3)), v;
        int n = choose(7);
        auto l = mk_leaves(id, n, 0, FAM_SPREAD);
        require(f.Modify(u, l, {}), "fill refused");
        same_undo(u, n, {}, {}, "record of the fill");
        V64 d = choose_subset(n);
        int k = choose(3);
        step("n=%d delete %s add %d", n, str(d).c_str(), k);
        require(f.Modify(u, mk_leaves(id, k, 0, FAM_SPREAD), d), "block refused");
        require(u.GetNumAdds() == (uint64_t)k && u.GetDeletedPositions() == d, "the undo record does not describe the block");
        VH want, got = u.GetDeletedHashes();
        for (auto x : d) want.push_back(l[x].first);
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        require(got == want, "the undo record does not hold the deleted leaves");
        Bytes b;
        u.Serialize(b);
        require(v.Unserialize(b) && v == u, "the record does not survive serialization");
    }});
    const int NF = B(14, 14, 6);
    S.push_back({"from-forest-wide", mc::fmt("the undo record of blocks of %d sizes from 127 to 1280 leaves with 16 large deletion sets and 0, 1, 130, 300 or 65537 additions", NF), 3, [=] {
        uint64_t n = choose_wide_n(NF);
        V64 d = choose_wide(n);
        static const int A[] = {0, 1, 130, 300, 65537};
        int k = A[choose(5)];
        if (k > 60000 && d.size() > 100) return;
        RamForest f(0);
        uint32_t id = 0;
        UndoBatch u, v;
        auto l = mk_leaves(id, int(n), 0, FAM_SPREAD);
        require(f.Modify(u, l, {}), "fill refused");
        step("n=%llu delete %s add %d", (ull)n, str(d).c_str(), k);
        require(f.Modify(u, mk_leaves(id, k, 0, FAM_SPREAD), d), "block refused");
        require(u.GetNumAdds() == (uint64_t)k && u.GetDeletedPositions() == d, "the undo record does not describe the block");
        VH want, got = u.GetDeletedHashes();
        for (auto x : d) want.push_back(l[x].first);
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        require(got == want, "the undo record does not hold the deleted leaves");
        Bytes b;
        u.Serialize(b);
        require(v.Unserialize(b) && v == u, "the record does not survive serialization");
    }});
    return S;
}

// ------------------------------------------------------------------------------------------- C18
static Scn c18()
{
    Scn S;
    const int N = B(6, 7, 5);
    S.push_back({"all", mc::fmt("every n<=%d, every list of up to 3 targets in any order over 0..n+1, 2^32 and 2^64-1, 0..8 proof hashes; built or read from bytes", N), 3, [=] {
        uint64_t n = choose(N + 1);
        int k = choose(4);
        V64 t;
        for (int i = 0; i < k; i++) {
            unsigned c = choose(unsigned(n + 4));
            t.push_back(c < n + 2 ? c : c == n + 2 ? 1ull << 32 : ~0ull);
        }
        int q = choose(9);
        VH p;
        for (int i = 0; i < q; i++) p.push_back(leaf_hash(i));
        V64 s(t);
        std::sort(s.begin(), s.end());
        bool want = ref::sane_targets(s, n) && ref::Geo(n).proof_positions(s).size() >= (size_t)q;
        BatchProof b(t, p);
        step("n=%llu targets %s, %d proof hashes", (ull)n, str(t).c_str(), q);
        require(b.CheckSanity(n) == want, "proof of %s with %d hashes for %llu leaves is judged %s", str(t).c_str(), q, (ull)n, want ? "bad" : "good");
        require(b.CheckSanity(n) == want, "judged differently the second time");
        same_proof(b, t, p, "after the check");
        if (t.empty() || s.back() < (1ull << 32)) {
            Bytes x;
            b.Serialize(x);
            BatchProof c = used_proof(q & 3);
            require(c.Unserialize(x) && c.CheckSanity(n) == want, "judged differently after a round trip");
        }
        mc::outcome(mc::Hasher().u(want).u(k).u(q).h);
        mc::state(mc::Hasher().u(n).u(q).u(k).u(k ? t[0] : 0).u(k > 1 ? t[1] : 0).u(k > 2 ? t[2] : 0).h);
    }});
    const int N2 = B(11, 13, 9);
    S.push_back({"subsets", mc::fmt("every n<=%d, every target set, proof count from 0 to two more than needed", N2), 3, [=] {
        uint64_t n = choose(N2 + 1);
        V64 t = choose_subset(n);
        size_t need = ref::Geo(n).proof_positions(t).size();
        size_t q = choose(unsigned(need + 3));
        step("n=%llu targets %s, %zu of %zu proof hashes", (ull)n, str(t).c_str(), q, need);
        require(BatchProof(t, VH(q, leaf_hash(1))).CheckSanity(n) == (q <= need), "proof of %s with %zu hashes (%zu needed) is judged %s", str(t).c_str(), q, need, q <= need ? "bad" : "good");
        mc::outcome(mc::Hasher().u(q).u(need).h);
    }});
    S.push_back({"wide", "14 sizes from 127 to 1280: 16 large target sets in 3 orders, up to two hashes more or less than needed, or a duplicate, or a position beyond the last leaf", 3, [] {
        uint64_t n = choose_wide_n(14);
        V64 t = choose_wide(n);
        int64_t need = ref::Geo(n).proof_positions(t).size();
        int64_t q = need + choose(5) - 2;
        if (q < 0) return;
        int odd = choose(3);
        if (odd == 1 && !t.empty()) t.push_back(t[t.size() / 2]);
        if (odd == 2) t.push_back(n);
        int how = choose(3);
        if (how == 1) std::reverse(t.begin(), t.end());
        if (how == 2) std::rotate(t.begin(), t.begin() + t.size() / 3, t.end());
        bool want = q <= need && !(odd == 1 && !t.empty()) && odd != 2;
        step("n=%llu %zu targets, %lld of %lld proof hashes", (ull)n, t.size(), (long long)q, (long long)need);
        require(BatchProof(t, VH(q, leaf_hash(1))).CheckSanity(n) == want, "proof of %zu targets (kind %d) with %lld hashes (%lld needed) for %llu leaves is judged %s", t.size(), odd, (long long)q, (long long)need, (ull)n, want ? "bad" : "good");
        mc::outcome(mc::Hasher().u(q).u(need).h);
    }});
    const int HW = B(62, 62, 33);
    S.push_back({"huge", mc::fmt("leaf counts around powers of two and sums of two from 2^5 to 2^%d: every choice of up to 2 of 18 boundary targets in either order, one hash less, as many as, or more than needed; or one of them repeated, or one just beyond the leaves, or 2^32 or 2^63 added to one", HW), 3, [=] {
        uint64_t n = boundary_n(HW);
        V64 t = boundary_targets(n, 1 + choose(2));
        bool rev = flip();
        int odd = choose(7);
        int64_t q = ref::Geo(n).proof_positions(t).size();
        bool want = odd < 2;
        switch (odd) {
        case 1: if (q-- == 0) return; break;
        case 2: q++; break;
        case 3: t.push_back(t[0]); break;
        case 4: t.push_back(n); break;
        case 5: t.back() += 1ull << 32; want = t.back() < n; break;
        case 6: t.back() += 1ull << 63; break;
        }
        if (want) { // positions may have changed
            V64 s(t);
            std::sort(s.begin(), s.end());
            want = ref::sane_targets(s, n) && q <= (int64_t)ref::Geo(n).proof_positions(s).size();
        }
        if (rev) std::reverse(t.begin(), t.end());
        step("n=%llu targets %s, %lld proof hashes", (ull)n, str(t).c_str(), (long long)q);
        require(BatchProof(t, VH(q, leaf_hash(1))).CheckSanity(n) == want, "proof of %s with %lld hashes for %llu leaves is judged %s", str(t).c_str(), (long long)q, (ull)n, want ? "bad" : "good");
        mc::outcome(mc::Hasher().u(q).u(want).h);
    }});
    S.push_back({"bulk", "4 sizes of about 65836 to 327680 leaves: 9 target sets from one leaf to all, ascending or descending, one hash more or less than needed, or a duplicate, or a position beyond the last leaf", 3, [] {
        uint64_t n = choose_bulk_n(4);
        V64 t = choose_bulk(n, 9);
        int odd = choose(5);
        bool rev = flip();
        mc::slow(60);
        int64_t need = ref::Geo(n).proof_positions(t).size(), q = need;
        if (odd == 1) t.push_back(t[t.size() / 2]);
        if (odd == 2) t.push_back(n);
        if (odd == 3) q++;
        if (odd == 4 && q-- == 0) return;
        if (rev) std::reverse(t.begin(), t.end());
        bool want = !(odd >= 1 && odd <= 3);
        step("n=%llu %zu targets, %lld of %lld proof hashes, kind %d", (ull)n, t.size(), (long long)q, (long long)need, odd);
        require(BatchProof(t, VH(q, leaf_hash(1))).CheckSanity(n) == want, "proof of %zu targets (kind %d) with %lld hashes (%lld needed) for %llu leaves is judged %s", t.size(), odd, (long long)q, (long long)need, (ull)n, want ? "bad" : "good");
        mc::outcome(mc::Hasher().u(q).u(need).h);
    }});
    return S;
}

// ------------------------------------------------------------------------------------------- C19
static Bytes message(size_t len, int pat)
{
    Bytes m(len);
    for (size_t i = 0; i < len; i++) m[i] = pat == 0 ? uint8_t(mc::mix(i + len * 1000)) : pat == 1 ? 0 : 0xff;
    return m;
}
static std::string digest_of(utreexo::CSHA512& h, bool is256)
{
    // the output buffer is exactly as large as the digest: anything written beyond it is caught
    Bytes b(is256 ? 32 + 8 : 64 + 8, 0xa5);
    if (is256) h.Finalize256(b.data());
    else h.Finalize(b.data());
    for (size_t i = is256 ? 32 : 64; i < b.size(); i++) require(b[i] == 0xa5, "writes beyond the digest");
    return std::string(b.begin(), b.begin() + (is256 ? 32 : 64));
}
static std::string ref_digest(const Bytes& m, bool is256)
{
    uint8_t o[64];
    ref::Sha::digest(m.data(), m.size(), o, is256 ? 32 : 64);
    return std::string(o, o + (is256 ? 32 : 64));
}
static utreexo::CSHA512 hasher(bool is256) { return is256 ? utreexo::CSHA512(utreexo::CSHA512::OUTPUT_SIZE_256) : utreexo::CSHA512(); }
static Scn c19()
{
    Scn S;
    const int L = B(2100, 9000, 1100);
    S.push_back({"lengths", mc::fmt("every message length 0..%d, 3 contents, both variants, written at once", L), 2, [=] {
        bool v = flip();
        int pat = choose(3);
        size_t len = choose(L + 1);
        Bytes m = message(len, pat);
        step("%zu bytes", len);
        auto h = hasher(v);
        h.Write(m.data(), m.size());
        require(h.Size() == len, "Size() is %llu after %zu bytes", (ull)h.Size(), len);
        require(digest_of(h, v) == ref_digest(m, v), "wrong digest of %zu bytes (%s)", len, v ? "512/256" : "512");
        mc::state(mc::Hasher().u(len).u(pat).u(v).h);
    }});
    const int L2 = B(400, 700, 300);
    S.push_back({"two-chunks", mc::fmt("every length 0..%d, every split into two writes, both variants", L2), 2, [=] {
        bool v = flip();
        size_t len = choose(L2 + 1), a = choose(unsigned(len + 1));
        Bytes m = message(len, 0);
        step("%zu+%zu bytes", a, len - a);
        auto h = hasher(v);
        h.Write(m.data(), a).Write(m.data() + a, len - a);
        require(digest_of(h, v) == ref_digest(m, v), "wrong digest of %zu+%zu bytes", a, len - a);
        mc::state(mc::Hasher().u(len).u(a).u(v).h);
    }});
    const int E = B(8, 12, 6);
    S.push_back({"chunks", mc::fmt("every sequence of up to 4 writes with sizes 0, 1, and within %d/2 of 64, 111, 128, 240 and 256", E), 3, [=] {
        bool v = choose(2);
        int k = 1 + choose(4);
        static const int C[] = {0, 1, 63, 64, 65, 111, 112, 113, 127, 128, 129, 239, 240, 241, 255, 256, 257, 300};
        Bytes m = message(1300, 0);
        auto h = hasher(v);
        size_t at = 0;
        for (int i = 0; i < k; i++) {
            int c = C[choose(sizeof C / sizeof *C)];
            h.Write(m.data() + at, c);
            at += c;
        }
        m.resize(at);
        step("%d writes, %zu bytes", k, at);
        require(h.Size() == at, "Size() is %llu after %zu bytes", (ull)h.Size(), at);
        require(digest_of(h, v) == ref_digest(m, v), "wrong digest of %zu bytes in %d writes", at, k);
        mc::state(mc::Hasher().u(at).u(k).u(v).h);
    }});
    S.push_back({"reuse", "a hasher of either variant is given 0..260 bytes, finalized or not, reset, and used for 0..260 bytes more: same as a new one; a copy taken half way goes its own way", 3, [] {
        bool v = flip(), fin = flip(), copy = flip();
        size_t a = choose(20) * 13, b = choose(66) * 4;
        Bytes m = message(a, 0), n = message(b, 1), mn(m);
        mn.insert(mn.end(), n.begin(), n.end());
        step("%zu bytes, %sreset, %zu bytes", a, fin ? "finalize, " : "", b);
        auto h = hasher(v);
        h.Write(m.data(), a);
        auto g = h;
        if (fin) require(digest_of(h, v) == ref_digest(m, v), "wrong digest");
        h.Reset();
        require(h.Size() == 0, "Size() is not zero after Reset");
        h.Write(n.data(), b);
        require(digest_of(h, v) == ref_digest(n, v), "wrong digest after Reset (%s)", v ? "512/256" : "512");
        if (copy) {
            g.Write(n.data(), b);
            require(digest_of(g, v) == ref_digest(mn, v), "wrong digest of a copied hasher");
        }
        mc::state(mc::Hasher().u(a).u(b).u(v * 4 + fin * 2 + copy).h);
    }});
    S.push_back({"parents", "parent hashes of 64-byte inputs: every single-bit change of left and right gives the digest of left||right", 2, [] {
        int bit = choose(512);
        Bytes m = message(64, 1);
        m[bit / 8] ^= 1 << (bit % 8);
        Hash l, r;
        std::copy(m.begin(), m.begin() + 32, l.begin());
        std::copy(m.begin() + 32, m.end(), r.begin());
        if (l == r) return;
        RamForest f(0);
        UndoBatch u;
        step("bit %d", bit);
        require(f.Modify(u, {{l, false}, {r, false}}, {}), "adding refused");
        VH rt = roots_of(f);
        std::string want = ref_digest(m, true);
        require(rt.size() == 1 && std::equal(rt[0].begin(), rt[0].end(), (const uint8_t*)want.data()), "the parent is not SHA-512/256(left || right)");
    }});
#ifndef __SANITIZE_ADDRESS__
    S.push_back({"long", "messages of about 2^29 bytes (2^32 bits), written in pieces of 1 MiB", 1, [] {
        static const uint64_t T[] = {(1ull << 29) - 1, 1ull << 29, (1ull << 29) + 1, (1ull << 29) + 112};
        bool v = flip();
        uint64_t len = T[thorough() ? choose(4) : 3];
        step("%llu bytes", (ull)len);
        auto h = hasher(v);
        Bytes blk = message(1 << 20, 0);
        uint64_t s[8];
        memcpy(s, v ? REF_H256 : REF_H512, sizeof s);
        uint64_t left = len;
        while (left >= blk.size()) {
            h.Write(blk.data(), blk.size());
            for (size_t o = 0; o < blk.size(); o += 128) ref::Sha::compress(s, &blk[o]);
            left -= blk.size();
        }
        h.Write(blk.data(), left);
        Bytes p(blk.begin(), blk.begin() + left);
        p.push_back(0x80);
        while (p.size() % 128 != 112) p.push_back(0);
        for (int i = 0; i < 8; i++) p.push_back(0);
        for (int i = 7; i >= 0; i--) p.push_back(uint8_t(len * 8 >> (8 * i)));
        for (size_t o = 0; o < p.size(); o += 128) ref::Sha::compress(s, &p[o]);
        std::string want;
        for (int i = 0; i < (v ? 32 : 64); i++) want += char(s[i / 8] >> (56 - 8 * (i % 8)));
        require(digest_of(h, v) == want, "wrong digest of %llu bytes", (ull)len);
        mc::state(len * 2 + v);
    }});
    S.push_back({"one-write", "2^32 + 200 zero bytes in a single write, both variants", 1, [] {
        const uint64_t len = (1ull << 32) + 200;
        bool v = flip();
        mc::slow(300);
        step("%llu bytes at once", (ull)len);
        rlimit was, more;
        getrlimit(RLIMIT_AS, &was);
        more = was;
        more.rlim_cur = RLIM_INFINITY;
        setrlimit(RLIMIT_AS, &more);
        void* z = mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (z == MAP_FAILED) return; // not enough address space here
        auto h = hasher(v);
        h.Write(static_cast<const uint8_t*>(z), len);
        munmap(z, len);
        setrlimit(RLIMIT_AS, &was);
        require(h.Size() == len, "Size() is %llu after %llu bytes", (ull)h.Size(), (ull)len);
        // from an independent implementation (openssl)
        const char* want = v ? "134afc0c755b37602a5f8089709c1d3b9ec9cd14debdfe999d01490a9a09c1fa"
                             : "d8cc5b234eac5811ef021b335c25c40ce69ed19c036c52b538f99eb75ababa0138a84369207ecf7804ce9f789a1b21f0362441bad021cc811edd7e92d06e55ca";
        std::string got;
        for (unsigned char c : digest_of(h, v)) got += mc::fmt("%02x", c);
        require(got == want, "wrong digest of %llu zero bytes: %s", (ull)len, got.c_str());
        mc::state(v);
    }});
#endif
    return S;
}

int main(int argc, char** argv)
{
    return mc::main_loop(argc, argv, {{"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}});
}
