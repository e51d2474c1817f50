// Fourier-Motzkin elimination over the integers' linear relaxation (same steps as lin._fm, in 64-bit arithmetic with overflow detection).
#include <stdint.h>
#include <string.h>
#include <algorithm>
#include <unordered_map>
#include <vector>
typedef int64_t i64;
typedef __int128 i128;
namespace {
struct Row { std::vector<i64> k; i64 c; int nz; };
const i64 NONE_LO = INT64_MIN, NONE_HI = INT64_MAX;
i64 gcd(i64 a, i64 b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
struct H { size_t operator()(const std::vector<i64>& v) const { size_t h = 1469598103934665603ull; for (i64 x : v) { h ^= (size_t)x; h *= 1099511628211ull; } return h; } };
bool fits(i128 x) { return x > -((i128)1 << 62) && x < ((i128)1 << 62); }
struct Sys {
    int n;
    std::vector<Row> rows;
    std::vector<char> dead;
    std::unordered_map<std::vector<i64>, int, H> idx;
    std::vector<i64> lo, hi;
    // 0 ok, 1 empty, 2 overflow
    int add(std::vector<i64>& k, i64 c) {
        i64 g = 0; int nz = 0, one = -1;
        for (int i = 0; i < n; i++) if (k[i]) { nz++; one = i; if (g != 1) g = gcd(g, k[i]); }
        if (!nz) return c < 0;
        if (g > 1) { for (int i = 0; i < n; i++) k[i] /= g; c = fdiv(c, g); }
        if (nz == 1) {
            i64 kk = k[one];      // +-1
            if (kk > 0) { if (lo[one] == NONE_LO || -c > lo[one]) lo[one] = -c; }
            else { if (hi[one] == NONE_HI || c < hi[one]) hi[one] = c; }
            if (lo[one] != NONE_LO && hi[one] != NONE_HI && lo[one] > hi[one]) return 1;
        } else {
            i128 m = c; bool ok = true;
            for (int i = 0; i < n && ok; i++) if (k[i]) {
                i64 b = k[i] > 0 ? lo[i] : hi[i];
                if (b == NONE_LO || b == NONE_HI) ok = false; else m += (i128)k[i] * b;
            }
            if (ok && m >= 0) return 0;
        }
        auto it = idx.find(k);
        if (it != idx.end() && !dead[it->second]) { if (c < rows[it->second].c) rows[it->second].c = c; }
        else { int r = rows.size(); idx[k] = r; rows.push_back(Row{k, c, nz}); dead.push_back(0); }
        return 0;
    }
};
}
// in: ncons, then per constraint: nterms, c, (sym, coef)...   keep: symbol or -1.
// returns 0 = not shown empty (out[0..3] = has-lo, lo, has-hi, hi of keep), 1 = empty, 2 = arithmetic too large, 3 = gave up (not shown empty)
extern "C" int fm_run(const i64* in, i64 ncons, i64 keep, i64 cap, i64* out) {
    std::vector<i64> syms;
    const i64* p = in;
    for (i64 i = 0; i < ncons; i++) { i64 n = p[0]; for (i64 j = 0; j < n; j++) syms.push_back(p[2 + 2 * j]); p += 2 + 2 * n; }
    std::sort(syms.begin(), syms.end());
    syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
    Sys s; s.n = syms.size();
    s.lo.assign(s.n, NONE_LO); s.hi.assign(s.n, NONE_HI);
    s.idx.reserve(256);
    std::vector<i64> k(s.n);
    // single-symbol constraints first: they make others redundant
    for (int pass = 0; pass < 2; pass++) {
        p = in;
        for (i64 i = 0; i < ncons; i++) {
            i64 n = p[0];
            if ((n == 1) == (pass == 0)) {
                std::fill(k.begin(), k.end(), 0);
                for (i64 j = 0; j < n; j++) { i64 x = p[3 + 2 * j]; if (!fits(x)) return 2; k[std::lower_bound(syms.begin(), syms.end(), p[2 + 2 * j]) - syms.begin()] = x; }
                if (!fits(p[1])) return 2;
                int r = s.add(k, p[1]); if (r) return r;
            }
            p += 2 + 2 * n;
        }
    }
    int kp = -1;
    if (keep >= 0) { auto it = std::lower_bound(syms.begin(), syms.end(), keep); if (it != syms.end() && *it == keep) kp = it - syms.begin(); }
    std::vector<int> pos(s.n), neg(s.n);
    int gave = 0;
    for (;;) {
        std::fill(pos.begin(), pos.end(), 0); std::fill(neg.begin(), neg.end(), 0);
        size_t live = 0;
        for (size_t r = 0; r < s.rows.size(); r++) if (!s.dead[r]) {
            live++;
            const Row& w = s.rows[r];
            for (int i = 0; i < s.n; i++) { if (w.k[i] > 0) pos[i]++; else if (w.k[i] < 0) neg[i]++; }
        }
        // opposite constraints
        for (size_t r = 0; r < s.rows.size(); r++) if (!s.dead[r]) {
            for (int i = 0; i < s.n; i++) k[i] = -s.rows[r].k[i];
            auto it = s.idx.find(k);
            if (it != s.idx.end() && !s.dead[it->second] && (i128)s.rows[it->second].c + s.rows[r].c < 0) return 1;
        }
        int best = -1; i64 bc = 0;
        for (int i = 0; i < s.n; i++) {
            if (i == kp || (!pos[i] && !neg[i])) continue;
            i64 cost = (i64)pos[i] * neg[i] - pos[i] - neg[i];
            if (best < 0 || cost < bc || (cost == bc && i > best)) { best = i; bc = cost; }
        }
        if (best < 0) break;
        if ((i64)pos[best] * neg[best] + (i64)live > cap) { gave = 3; break; }
        std::vector<int> P, N;
        for (size_t r = 0; r < s.rows.size(); r++) if (!s.dead[r]) {
            if (s.rows[r].k[best] > 0) P.push_back(r); else if (s.rows[r].k[best] < 0) N.push_back(r);
        }
        for (int r : P) s.dead[r] = 1;
        for (int r : N) s.dead[r] = 1;
        for (int a : P) for (int b : N) {
            i64 k1 = s.rows[a].k[best], k2 = -s.rows[b].k[best];
            i64 g = gcd(k1, k2), m1 = k2 / g, m2 = k1 / g;
            for (int i = 0; i < s.n; i++) {
                i128 x = (i128)s.rows[a].k[i] * m1 + (i128)s.rows[b].k[i] * m2;
                if (!fits(x)) return 2;
                k[i] = (i64)x;
            }
            i128 c = (i128)s.rows[a].c * m1 + (i128)s.rows[b].c * m2;
            if (!fits(c)) return 2;
            int r = s.add(k, (i64)c);
            if (r) return r;
        }
    }
    out[0] = out[2] = 0;
    if (kp >= 0) {
        for (size_t r = 0; r < s.rows.size(); r++) if (!s.dead[r] && s.rows[r].nz == 1 && s.rows[r].k[kp]) {
            i64 kk = s.rows[r].k[kp], c = s.rows[r].c;
            if (kk > 0) { if (!out[0] || -c > out[1]) { out[0] = 1; out[1] = -c; } }
            else { if (!out[2] || c < out[3]) { out[2] = 1; out[3] = c; } }
        }
    }
    return gave;
}
