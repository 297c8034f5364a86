// Reference model of the accumulator, written independently of the code under test.
//
// It knows nothing of position arithmetic, swaps, collapses, caches or files: the forest is an array
// of rows, row r holding n>>r subtrees (the last one of an odd row is a root), and deletion is tree
// surgery on those rows.  Hashing is SHA-512/256 written from FIPS 180-4 with derived constants.
#pragma once
#include "sha_consts.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace ref {
using Hash = std::array<uint8_t, 32>;
typedef std::vector<uint64_t> V64;

// ---------------------------------------------------------------- SHA-512 family
struct Sha {
    static uint64_t rr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
    static void compress(uint64_t* s, const uint8_t* blk)
    {
        uint64_t w[80];
        for (int i = 0; i < 16; i++) {
            w[i] = 0;
            for (int j = 0; j < 8; j++) w[i] = (w[i] << 8) | blk[i * 8 + j];
        }
        for (int i = 16; i < 80; i++) {
            uint64_t s0 = rr(w[i - 15], 1) ^ rr(w[i - 15], 8) ^ (w[i - 15] >> 7);
            uint64_t s1 = rr(w[i - 2], 19) ^ rr(w[i - 2], 61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        uint64_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
        for (int i = 0; i < 80; i++) {
            uint64_t t1 = h + (rr(e, 14) ^ rr(e, 18) ^ rr(e, 41)) + ((e & f) ^ (~e & g)) + REF_K[i] + w[i];
            uint64_t t2 = (rr(a, 28) ^ rr(a, 34) ^ rr(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
            h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
    }
    // whole message at once, digest of outlen bytes (64: SHA-512, 32: SHA-512/256)
    static void digest(const uint8_t* m, size_t len, uint8_t* out, size_t outlen)
    {
        uint64_t s[8];
        memcpy(s, outlen == 64 ? REF_H512 : REF_H256, sizeof s);
        std::vector<uint8_t> p(m, m + len);
        p.push_back(0x80);
        while (p.size() % 128 != 112) p.push_back(0);
        for (int i = 0; i < 8; i++) p.push_back(0);
        uint64_t bits = uint64_t(len) * 8;
        for (int i = 7; i >= 0; i--) p.push_back(uint8_t(bits >> (8 * i)));
        for (size_t o = 0; o < p.size(); o += 128) compress(s, &p[o]);
        for (size_t i = 0; i < outlen; i++) out[i] = uint8_t(s[i / 8] >> (56 - 8 * (i % 8)));
    }
};

inline Hash parent_hash(const Hash& l, const Hash& r)
{
    // one-block special case of Sha::digest (64 byte message)
    uint8_t b[128] = {0};
    memcpy(b, l.data(), 32);
    memcpy(b + 32, r.data(), 32);
    b[64] = 0x80;
    b[126] = 0x02; // 512 bits
    uint64_t s[8];
    memcpy(s, REF_H256, sizeof s);
    Sha::compress(s, b);
    Hash h;
    for (int i = 0; i < 32; i++) h[i] = uint8_t(s[i / 8] >> (56 - 8 * (i % 8)));
    return h;
}

// ---------------------------------------------------------------- positions
// A node is (row, index in row).  Its position number is the count of slots in the rows below of the
// smallest perfect tree that could hold all leaves, plus its index.
struct Geo {
    uint64_t n;
    int rows;
    explicit Geo(uint64_t n_) : n(n_), rows(0)
    {
        while (rows < 63 && (uint64_t(1) << rows) < n) rows++; // n <= 2^63
    }
    uint64_t width(int r) const { return uint64_t(1) << (rows - r); } // slots in row r of the perfect tree
    uint64_t offset(int r) const
    {
        uint64_t o = 0;
        for (int k = 0; k < r; k++) o += width(k);
        return o;
    }
    uint64_t count(int r) const { return r < 64 ? n >> r : 0; } // existing nodes in row r
    bool has_root(int r) const { return count(r) & 1; }
    uint64_t pos(int r, uint64_t i) const { return offset(r) + i; }
    bool exists(int r, uint64_t i) const { return r <= rows && i < count(r); }
    bool is_root(int r, uint64_t i) const { return has_root(r) && i == count(r) - 1; }
    // row/index of a position, by scanning rows
    std::pair<int, uint64_t> locate(uint64_t p) const
    {
        uint64_t o = 0;
        for (int r = 0; r <= rows; r++) {
            if (p < o + width(r)) return {r, p - o};
            o += width(r);
        }
        return {-1, 0};
    }
    V64 root_positions() const
    {
        V64 v;
        for (int r = rows; r >= 0; r--)
            if (has_root(r)) v.push_back(pos(r, count(r) - 1));
        return v;
    }
    int num_roots() const
    {
        int k = 0;
        for (int r = 0; r <= rows; r++) k += has_root(r);
        return k;
    }
    // proof / computed nodes of a sorted target set as (row,index), row by row, left to right
    void proof_nodes(const V64& targets, std::vector<std::pair<int, uint64_t>>& proof,
                     std::vector<std::pair<int, uint64_t>>& computed) const
    {
        std::vector<uint64_t> cur(targets);
        for (int r = 0; r <= rows; r++) {
            std::vector<uint64_t> next;
            for (size_t k = 0; k < cur.size(); k++) {
                uint64_t i = cur[k];
                computed.push_back({r, i});
                if (is_root(r, i)) continue;
                uint64_t sib = i ^ 1;
                bool have = std::binary_search(cur.begin(), cur.end(), sib);
                if (!have) proof.push_back({r, sib});
                if (next.empty() || next.back() != i / 2) next.push_back(i / 2);
            }
            cur.swap(next);
        }
    }
    V64 proof_positions(const V64& targets) const
    {
        std::vector<std::pair<int, uint64_t>> p, c;
        proof_nodes(targets, p, c);
        V64 v;
        for (auto& x : p) v.push_back(pos(x.first, x.second));
        return v;
    }
    V64 computed_positions(const V64& targets) const
    {
        std::vector<std::pair<int, uint64_t>> p, c;
        proof_nodes(targets, p, c);
        V64 v;
        for (auto& x : c) v.push_back(pos(x.first, x.second));
        return v;
    }
};

inline bool sane_targets(const V64& t, uint64_t n)
{
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] >= n) return false;
        if (i && t[i] <= t[i - 1]) return false;
    }
    return true;
}

// ---------------------------------------------------------------- forest
struct Tree;
using TP = std::shared_ptr<const Tree>;
struct Tree {
    Hash h;
    TP l, r;
};
inline TP mk_leaf(const Hash& h) { return std::make_shared<Tree>(Tree{h, nullptr, nullptr}); }
inline TP mk_node(const TP& l, const TP& r) { return std::make_shared<Tree>(Tree{parent_hash(l->h, r->h), l, r}); }

// A labelled tree stands for the perfect subtree of 2^row leaves that starts at a given leaf; its halves come
// into being when they are looked at.
inline TP mk_label(uint64_t start, int row)
{
    Hash h;
    h.fill(0x77);
    memcpy(h.data(), &start, 8);
    h[8] = uint8_t(row);
    return mk_leaf(h);
}
inline bool is_label(const TP& t)
{
    if (t->l) return false;
    for (int k = 9; k < 32; k++)
        if (t->h[k] != 0x77) return false;
    return true;
}
inline TP kid(const TP& t, int right)
{
    if (t->l) return right ? t->r : t->l;
    if (!is_label(t) || !t->h[8]) return nullptr;
    uint64_t start;
    memcpy(&start, t->h.data(), 8);
    int row = t->h[8] - 1;
    return mk_label(start + (right ? uint64_t(1) << row : 0), row);
}

struct Forest {
    // root tree of each row (null if none); at most one per row
    std::vector<TP> root; // index = row

    uint64_t n() const
    {
        uint64_t k = 0;
        for (size_t r = 0; r < root.size(); r++)
            if (root[r]) k += uint64_t(1) << r;
        return k;
    }
    void add(const Hash& h)
    {
        TP t = mk_leaf(h);
        size_t r = 0;
        for (;; r++) {
            if (root.size() <= r) root.resize(r + 1);
            if (!root[r]) break;
            t = mk_node(root[r], t);
            root[r] = nullptr;
        }
        root[r] = t;
    }
    static void collect(const TP& t, std::vector<Hash>& out)
    {
        if (!t->l) { out.push_back(t->h); return; }
        collect(t->l, out);
        collect(t->r, out);
    }
    std::vector<Hash> leaves() const
    {
        std::vector<Hash> v;
        for (size_t r = root.size(); r-- > 0;)
            if (root[r]) collect(root[r], v);
        return v;
    }
    std::vector<Hash> roots() const
    {
        std::vector<Hash> v;
        for (size_t r = root.size(); r-- > 0;)
            if (root[r]) v.push_back(root[r]->h);
        return v;
    }
    // rows()[r][i]: node i of row r
    std::vector<std::vector<TP>> rows() const
    {
        std::vector<std::vector<TP>> g(1);
        for (size_t r = root.size(); r-- > 0;)
            if (root[r]) {
                std::vector<TP> lv{root[r]};
                std::vector<std::vector<TP>> levels{lv};
                for (size_t k = r; k-- > 0;) {
                    std::vector<TP> nx;
                    for (auto& t : lv) { nx.push_back(t->l); nx.push_back(t->r); }
                    levels.push_back(nx);
                    lv = nx;
                }
                if (g.size() < levels.size()) g.resize(levels.size());
                for (size_t k = 0; k <= r; k++) {
                    auto& dst = g[r - k];
                    dst.insert(dst.end(), levels[k].begin(), levels[k].end());
                }
            }
        return g;
    }
    TP node(int row, uint64_t idx) const
    {
        // index of the node among the trees, larger trees first
        uint64_t before = 0;
        for (size_t r = root.size(); r-- > 0;) {
            if (!root[r]) continue;
            if ((int)r < row) return nullptr;
            uint64_t cnt = uint64_t(1) << (r - row);
            if (idx < before + cnt) {
                uint64_t k = idx - before;
                TP t = root[r];
                for (int d = int(r) - row - 1; d >= 0; d--) t = kid(t, (k >> d) & 1);
                return t;
            }
            before += cnt;
        }
        return nullptr;
    }
    // Remove the leaves at the (sorted, distinct, in-range) positions.  Row by row, only slots touched by
    // the deletion are written down: `cur` maps a slot index to its new content (nullptr: deleted).
    void remove(const V64& del)
    {
        if (del.empty()) return;
        const uint64_t cnt = n(), keep = cnt - del.size();
        std::map<uint64_t, TP> cur;
        for (uint64_t d : del) cur[d] = nullptr;
        std::vector<TP> out(root.size());
        for (size_t r = 0; r < root.size(); r++) {
            const uint64_t width = cnt >> r;
            const bool has_root = width & 1;
            auto get = [&](uint64_t i) -> TP {
                auto it = cur.find(i);
                return it != cur.end() ? it->second : node(int(r), i);
            };
            TP root_content = has_root ? get(width - 1) : nullptr; // nullptr: no root, or root deleted
            // slots whose subtree is gone while the sibling's is not
            std::vector<uint64_t> single;
            std::set<uint64_t> pairs;
            for (auto& kv : cur)
                if (!(has_root && kv.first == width - 1)) pairs.insert(kv.first / 2);
            for (uint64_t p : pairs) {
                bool a = get(2 * p) != nullptr, b = get(2 * p + 1) != nullptr;
                if (a != b) single.push_back(a ? 2 * p + 1 : 2 * p);
            }
            // Two half-empty pairs make one full pair and one empty pair: the survivor of the right
            // pair moves into the hole of the left pair.
            size_t k = 0;
            for (; k + 1 < single.size(); k += 2) {
                cur[single[k]] = get(single[k + 1] ^ 1);
                cur[single[k + 1] ^ 1] = nullptr;
            }
            if (k < single.size()) {
                uint64_t hole = single[k];
                if (root_content) { // the row's root fills the hole
                    cur[hole] = root_content;
                } else { // the hole's sibling becomes the row's root
                    out[r] = get(hole ^ 1);
                    cur[hole ^ 1] = nullptr;
                }
            } else {
                out[r] = root_content;
            }
            std::map<uint64_t, TP> up;
            for (uint64_t p : pairs) {
                TP a = get(2 * p), b = get(2 * p + 1);
                if (!a != !b) { fprintf(stderr, "reference model inconsistent\n"); abort(); }
                up[p] = a ? mk_node(a, b) : nullptr;
            }
            cur.swap(up);
        }
        root = out;
        if (n() != keep) { fprintf(stderr, "reference model inconsistent\n"); abort(); }
    }
    Hash hash_at(int row, uint64_t idx) const { return node(row, idx)->h; }
    // proof hashes for sorted targets
    std::vector<Hash> proof(const V64& sorted) const
    {
        Geo g(n());
        std::vector<std::pair<int, uint64_t>> p, c;
        g.proof_nodes(sorted, p, c);
        std::vector<Hash> v;
        for (auto& x : p) v.push_back(node(x.first, x.second)->h);
        return v;
    }
};

// Stand-alone verification of a batch proof against roots: sorted targets, their hashes, full proof.
inline bool verify(uint64_t n, const std::vector<Hash>& roots, const V64& sorted,
                   const std::vector<Hash>& thash, const std::vector<Hash>& proof)
{
    if (sorted.size() != thash.size() || !sane_targets(sorted, n)) return false;
    Geo g(n);
    std::vector<std::pair<uint64_t, Hash>> cur;
    for (size_t i = 0; i < sorted.size(); i++) cur.push_back({sorted[i], thash[i]});
    size_t used = 0;
    for (int r = 0; r <= g.rows; r++) {
        std::vector<std::pair<uint64_t, Hash>> next;
        for (size_t k = 0; k < cur.size(); k++) {
            uint64_t i = cur[k].first;
            const Hash self = cur[k].second;
            if (g.is_root(r, i)) {
                int idx = 0; // roots are listed tallest first
                for (int q = g.rows; q > r; q--) idx += g.has_root(q);
                if (roots[idx] != self) return false;
                continue;
            }
            if (!(i & 1) && k + 1 < cur.size() && cur[k + 1].first == i + 1) {
                next.push_back({i / 2, parent_hash(self, cur[k + 1].second)});
                k++;
            } else {
                if (used >= proof.size()) return false;
                const Hash& sib = proof[used++];
                next.push_back({i / 2, (i & 1) ? parent_hash(sib, self) : parent_hash(self, sib)});
            }
        }
        cur.swap(next);
    }
    return used == proof.size();
}

} // namespace ref
