// Damages files far beyond io.h's mutate: values that stand for sizes, counts and offsets, moved, repeated, missing and foreign parts.
#pragma once
#include "io.h"
#include <zlib.h>
inline void png_crcs(Bytes &b) { auto be = [&](size_t p) { return (uint32_t)b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3]; }; for (size_t p = 8; p + 12 <= b.size();) { size_t n = be(p); if (n > b.size() - p - 12) return; uint32_t c = crc32(0, &b[p + 4], n + 4); for (int i = 0; i < 4; i++) b[p + 8 + n + i] = c >> (24 - 8 * i); p += n + 12; } }
inline std::string hostile(Rng &r, Bytes &b, const Bytes &other) {
    std::string s; char t[80]; int n = r.pick({0, 1, 1, 1, 2, 2, 3, 4, 6, 8, 12}); static const uint32_t V16[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff}, V32[] = {0, 1, 2, 0x7f, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x40000000, 0x20000000, 0x3fffffff, 0x55555556, 0xffff0000u, 0x1000000, 0x2000};
    for (int i = 0; i < n; i++) {
        if (b.empty()) { b.push_back(r.u32()); continue; } size_t hd = std::min<size_t>(b.size(), r.pick({16, 32, 64, 128, 256, 1100})), p = r.chance(70) ? r.below(hd) : r.below(b.size()); if (r.chance(5)) p = b.size() - 1 - r.below(std::min<size_t>(b.size(), 600)); auto put = [&](uint32_t v, int k, bool be) { for (int j = 0; j < k && p + j < b.size(); j++) b[p + j] = v >> 8 * (be ? k - 1 - j : j); snprintf(t, 80, " [%zu]%d%s=%x", p, k, be ? "be" : "le", v); s += t; }; auto get = [&](int k, bool be) { uint32_t v = 0; for (int j = 0; j < k && p + j < b.size(); j++) v |= (uint32_t)b[p + j] << 8 * (be ? k - 1 - j : j); return v; };
        switch (r.below(15)) {
        case 0: put(r.pick({0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 24, 31, 32, 33, 48, 64, 127, 128, 129, 254, 255}), 1, false); break;
        case 1: b[p] ^= 1 << r.below(8); snprintf(t, 80, " [%zu]=%02x", p, b[p]); s += t; break;
        case 2: case 3: put(r.chance(70) ? r.pick(V16) : r.below(65536), 2, r.chance(50)); break;
        case 4: case 5: put(r.chance(60) ? r.pick(V32) : r.chance(60) ? (uint32_t)b.size() + r.range(-9, 9) : r.chance(50) ? r.below(b.size() * 2) : r.u32(), 4, r.chance(50)); break;
        case 6: { int k = r.pick({1, 2, 4}); bool be = r.chance(50); put(get(k, be) + r.range(-35, 35), k, be); break; }
        case 7: { size_t c = r.chance(40) ? b.size() - 1 - r.below(std::min<size_t>(b.size(), 40)) : r.below(b.size()); b.resize(c); snprintf(t, 80, " cut to %zu", c); s += t; break; }
        case 8: { int k = r.range(1, r.chance(20) ? 3000 : 40), c = r.chance(50) ? -1 : r.below(256); for (int j = 0; j < k; j++) b.push_back(c < 0 ? r.u32() : c); snprintf(t, 80, " and %d bytes", k); s += t; break; }
        case 9: { size_t q = r.below(b.size()), k = std::min<size_t>(r.range(1, 64), b.size() - std::max(p, q)); memmove(&b[p], &b[q], k); snprintf(t, 80, " %zu from %zu to %zu", k, q, p); s += t; break; }
        case 10: { size_t q = r.below(b.size()), k = std::min<size_t>(r.range(1, 64), b.size() - q); Bytes c(b.begin() + q, b.begin() + q + k); b.insert(b.begin() + p, c.begin(), c.end()); snprintf(t, 80, " %zu from %zu inserted at %zu", k, q, p); s += t; break; }
        case 11: { size_t k = std::min<size_t>(r.range(1, r.chance(20) ? 500 : 16), b.size() - p); b.erase(b.begin() + p, b.begin() + p + k); snprintf(t, 80, " %zu removed at %zu", k, p); s += t; break; }
        case 12: { if (other.empty()) break; size_t q = r.below(other.size()), k = std::min<size_t>(r.range(1, r.chance(30) ? 2000 : 60), other.size() - q); if (r.chance(50)) b.resize(std::max(b.size(), p + k)); else k = std::min(k, b.size() - p); memcpy(&b[p], &other[q], k); snprintf(t, 80, " %zu of another at %zu", k, p); s += t; break; }
        case 13: { size_t k = std::min<size_t>(r.range(1, 300), b.size() - p); int c = r.chance(40) ? -1 : r.pick({0, 255, 128, 1, 127}); for (size_t j = 0; j < k; j++) b[p + j] = c < 0 ? r.u32() : c; snprintf(t, 80, " %zu bytes at %zu=%d", k, p, c); s += t; break; }
        default: { size_t q = p; while (q < b.size() && !isdigit(b[q])) q++; if (q == b.size()) break; size_t e = q; while (e < b.size() && isdigit(b[e])) e++; static const char *N[] = {"0", "-1", "99999", "65536", "4294967295", "4294967297", "2147483647", "-2147483648", "1", "255", "99999999999999999999", ""}; const char *v = r.pick(N); b.erase(b.begin() + q, b.begin() + e); b.insert(b.begin() + q, v, v + strlen(v)); snprintf(t, 80, " number at %zu=%s", q, v); s += t; break; }
        } }
    return s.size() > 500 ? s.substr(0, 500) : s;
}
