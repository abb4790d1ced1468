// Generators of files of the less common formats, as codec.h: written from the layouts of the formats.  Where a layout leaves
// open which row comes first, anyflip accepts both; frames is empty where it does not determine the picture at all.
#pragma once
#include "file.h"
#include "pals.h"
inline void pad_to(Bytes &b, size_t n) { if (b.size() < n) b.resize(n); }
inline int ilog2(int v) { int n = 0; while (v > 1) { v >>= 1; n++; } return n; }
inline void px_frame(Frame &f, Px &p, const std::vector<RGBAd> *pal = NULL) { f.size(p.w, p.h); for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) f.at(x, y) = pal ? (*pal)[p.at(x, y, 0)] : p.ch == 1 ? rgb8(p.at(x, y, 0), p.at(x, y, 0), p.at(x, y, 0)) : p.ch == 2 ? rgb8(p.at(x, y, 0), p.at(x, y, 0), p.at(x, y, 0), p.at(x, y, 1)) : rgb8(p.at(x, y, 0), p.at(x, y, 1), p.at(x, y, 2), p.ch == 4 ? p.at(x, y, 3) : 255); }
inline std::vector<RGBAd> pal_of(const unsigned char *p, int n) { std::vector<RGBAd> v; for (int i = 0; i < n; i++) v.push_back(rgb8(p[i * 3], p[i * 3 + 1], p[i * 3 + 2])); return v; }
inline Frame flipped(const Frame &f) { Frame g; g.size(f.w, f.h); for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) g.at(x, y) = f.at(x, f.h - 1 - y); return g; }
// runs within rows: emit(count, x, run)
template <class F> inline void runs(Rng &r, Px &p, int y, int c0, int nc, int maxrun, int minrun, F emit) { auto same = [&](int a, int b) { for (int c = c0; c < c0 + nc; c++) if (p.at(a, y, c) != p.at(b, y, c)) return false; return true; }; for (int x = 0; x < p.w;) { int k = 1; while (x + k < p.w && k < maxrun && same(x, x + k)) k++; if (k >= minrun) { emit(k, x, true); x += k; continue; } int q = std::min(p.w - x, r.range(1, r.chance(10) ? maxrun : 9)); emit(q, x, false); x += q; } }

inline FileGen gen_cut(Rng &r) { FileGen g; g.type = IL_CUT; g.ext = "cut"; g.sniff = false; int w, h; rnd_size(r, w, h); Px p = rnd_px(r, w, h, 1, 255); BW o(g.b); o.le16(w); o.le16(h); o.le32(0); for (int y = 0; y < h; y++) { runs(r, p, y, 0, 1, 127, 2, [&](int k, int x, bool run) { if (run) { o.u8(0x80 | k); o.u8(p.at(x, y, 0)); } else { o.u8(k); for (int i = 0; i < k; i++) o.u8(p.at(x + i, y, 0)); } }); o.u8(0); o.le16(0); }
    Frame f; px_frame(f, p); g.frames = {f}; g.name = "cut"; return g; }
inline FileGen gen_doom(Rng &r) {
    FileGen g; g.type = IL_DOOM; g.sniff = false; auto pal = pal_of(DOOM_PAL, 256); Frame f; BW o(g.b); if (r.chance(25)) { g.type = IL_DOOM_FLAT; g.name = "doomflat"; f.size(64, 64); Px p = rnd_px(r, 64, 64, 1, 255); for (auto v : p.v) o.u8(v); px_frame(f, p, &pal); g.frames = {f}; g.ext = "flat"; g.alpha = false; return g; }
    g.name = "doom"; g.ext = "pat"; int w, h; rnd_size(r, w, h); if (h > 200) h = 200; f.size(w, h); o.le16(w); o.le16(h); o.le16(r.below(40)); o.le16(r.below(40)); size_t tab = g.b.size(); o.zero(4 * w); RGBAd tr = pal[247]; for (auto &q : f.px) q = tr;
    for (int x = 0; x < w; x++) { o.set32(tab + 4 * x, g.b.size()); int y = r.below(3) ? r.below(h) : 0; while (y < h && r.chance(80)) { int n = std::min(h - y, r.range(1, 30)); o.u8(y); o.u8(n); o.u8(r.below(256)); for (int i = 0; i < n; i++) { int v = r.below(256); if (v == 247) v = 246; o.u8(v); f.at(x, y + i) = pal[v]; } o.u8(r.below(256)); y += n + r.below(5); } o.u8(255); }
    g.alpha = false; g.frames = {f}; return g;
}
inline FileGen gen_ilbm(Rng &r) {
    FileGen g; g.type = IL_ILBM; g.ext = r.pick({"iff", "ilbm", "lbm"}); int w, h; rnd_size(r, w, h); bool pbm = r.chance(25), c24 = !pbm && r.chance(25), ham = !pbm && !c24 && r.chance(15), ehb = !pbm && !c24 && !ham && r.chance(10), mask = !pbm && !c24 && r.chance(15), comp = r.chance(60); int planes = pbm ? 8 : c24 ? 24 : ham ? r.pick({6, 8}) : ehb ? 6 : r.range(1, 8); int ncol = c24 ? 0 : ham ? 1 << (planes - 2) : ehb ? 32 : 1 << planes; if (!c24 && !ham && !ehb && ncol > 2 && r.chance(30)) ncol = r.range(ncol / 2 + 1, ncol); if (ham || ehb) g.ext = "ham"; auto pal = rnd_pal(r, ncol); Px p = rnd_px(r, w, h, c24 ? 3 : 1, c24 ? 255 : ncol ? ham ? (1 << planes) - 1 : ehb ? 63 : ncol - 1 : 255); BW o(g.b); if (ham) for (int y = 0; y < h; y++) p.v[(size_t)y * w] &= (1 << (planes - 2)) - 1;
    o.str("FORM"); o.be32(0); o.str(pbm ? "PBM " : "ILBM"); if (r.chance(15)) { o.str("ANNO"); o.be32(5); o.str("hello"); o.u8(0); } o.str("BMHD"); o.be32(20); o.be16(w); o.be16(h); o.be16(0); o.be16(0); o.u8(planes); o.u8(mask); o.u8(comp); o.u8(0); o.be16(0); o.u8(10); o.u8(11); o.be16(w); o.be16(h);
    if (ncol) { o.str("CMAP"); o.be32(ncol * 3); for (auto &c : pal) { o.u8(b255(c.r)); o.u8(b255(c.g)); o.u8(b255(c.b)); } if (ncol * 3 & 1) o.u8(0); } if (ham || ehb) { o.str("CAMG"); o.be32(4); o.be32(ham ? 0x800 : 0x80); }
    int nop = r.chance(20) ? r.range(1, 5) : 0; Bytes body; auto row = [&](const Bytes &b) { if (comp) { pb_nop = nop; packbits(body, b.data(), b.size()); pb_nop = 0; } else body.insert(body.end(), b.begin(), b.end()); };
    for (int y = 0; y < h; y++) { if (pbm) { Bytes b; for (int x = 0; x < w; x++) b.push_back(p.at(x, y, 0)); if (w & 1) b.push_back(0); row(b); continue; } int bpl = (w + 15) / 16 * 2; for (int pl = 0; pl < planes + mask; pl++) { Bytes b(bpl); for (int x = 0; x < w; x++) { int bit = pl >= planes ? 1 : c24 ? p.at(x, y, pl / 8) >> (pl & 7) & 1 : p.at(x, y, 0) >> pl & 1; if (bit) b[x / 8] |= 0x80 >> (x & 7); } row(b); } }
    o.str("BODY"); o.be32(body.size()); o.raw(body.data(), body.size()); if (body.size() & 1) o.u8(0); o.bset32(4, g.b.size() - 8);
    Frame f; if (c24) px_frame(f, p); else { f.size(w, h); for (int y = 0; y < h; y++) { RGBAd last = pal[0]; for (int x = 0; x < w; x++) { int v = p.at(x, y, 0); if (ham) { int d = v & ((1 << (planes - 2)) - 1), c = v >> (planes - 2); double q = planes == 6 ? d * 17 / 255. : (d << 2 | d >> 4) / 255.; if (c == 0) last = pal[d]; else if (c == 1) last.b = q; else if (c == 2) last.r = q; else last.g = q; f.at(x, y) = last; } else if (ehb && v >= 32) { RGBAd c = pal[v - 32]; f.at(x, y) = RGBAd{c.r / 2, c.g / 2, c.b / 2, 1}; } else f.at(x, y) = pal[v]; } } }
    if (ham) g.tol = (planes == 6 ? 15.1 : 3.1) / 255; if (ehb) g.tol = 1.01 / 255; g.alpha = false; g.frames = {f}; char n[80]; snprintf(n, 80, "ilbm%s planes%d%s%s%s%s", pbm ? " pbm" : "", planes, ham ? " ham" : "", ehb ? " ehb" : "", mask ? " mask" : "", comp ? " rle" : ""); g.name = n; return g;
}
inline FileGen gen_iff(Rng &r) { // Maya
    FileGen g; g.type = IL_IFF; g.ext = "iff"; int w, h; rnd_size(r, w, h); int tw = r.range(1, 64), th = r.range(1, 64); if (r.chance(50)) tw = th = 64; bool rle = r.chance(60); int ch = rle ? 4 : r.pick({3, 4}); Px p = rnd_px(r, w, h, ch, 255); BW o(g.b); int tx = (w + tw - 1) / tw, ty = (h + th - 1) / th;
    o.str("FOR4"); o.be32(0); o.str("CIMG"); o.str("TBHD"); o.be32(32); o.be32(w); o.be32(h); o.be16(1); o.be16(1); o.be32(ch == 4 ? 3 : 1); o.be16(0); o.be16(tx * ty); o.be32(rle); o.be32(0); o.be32(0); size_t tb = g.b.size(); o.str("FOR4"); o.be32(0); o.str("TBMP");
    for (int j = 0; j < ty; j++) for (int i = 0; i < tx; i++) { int x0 = i * tw, y0 = j * th, x1 = std::min(w, x0 + tw) - 1, y1 = std::min(h, y0 + th) - 1; Bytes b; BW q(b); q.be16(x0); q.be16(y0); q.be16(x1); q.be16(y1);
        if (!rle) { for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) for (int c = ch - 1; c >= 0; c--) q.u8(p.at(x, y, c)); }
        else for (int c = ch - 1; c >= 0; c--) { std::vector<int> s; for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) s.push_back(p.at(x, y, c)); for (size_t k = 0; k < s.size();) { size_t n = 1; while (k + n < s.size() && n < 128 && s[k + n] == s[k]) n++; if (n > 2) { q.u8(0x80 | (n - 1)); q.u8(s[k]); k += n; } else { n = std::min(s.size() - k, (size_t)r.range(1, r.chance(10) ? 128 : 8)); q.u8(n - 1); while (n--) q.u8(s[k++]); } } }
        if (rle && (int)b.size() - 8 >= (x1 - x0 + 1) * (y1 - y0 + 1) * ch) { b.resize(8); for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) for (int c = ch - 1; c >= 0; c--) q.u8(p.at(x, y, c)); }
        o.str("RGBA"); o.be32(b.size()); o.raw(b.data(), b.size()); while (g.b.size() & 3) o.u8(0); }
    o.bset32(tb + 4, g.b.size() - tb - 8); o.bset32(4, g.b.size() - 8); Frame f; px_frame(f, p); g.frames = {f}; g.rel = false; char n[80]; snprintf(n, 80, "iff ch%d %dx%d tiles%s", ch, tx, ty, rle ? " rle" : ""); g.name = n; return g;
}
inline FileGen gen_pcd(Rng &r) { // the three uncompressed resolutions; 2x2 pixels share their chroma
    FileGen g; g.type = IL_PCD; g.ext = "pcd"; g.sniff = false; int k = r.chance(20) ? 2 : r.below(2); g.picnum = k; static const int OFF[] = {0x2000, 0xb800, 0x30000}; int w = 192 << k, h = 128 << k; g.b.assign(OFF[k], 0); for (int i = 0; i < 100; i++) g.b[r.below(OFF[k])] = r.below(256); g.b[72] = r.chance(50) ? 8 : 0; size_t n = (size_t)w * h * 3 / 2, want = n; if (r.chance(20)) n = r.below(n); bool noise = r.chance(30); for (size_t i = 0; i < n; i++) g.b.push_back(noise || r.below(16) == 0 ? r.below(256) : g.b.back()); char s[20]; snprintf(s, 20, "pcd %d", k); g.name = s; if (n < want) return g;
    Frame f; f.size(w, h); auto cl = [](double v) { return std::min(255., std::max(0., v)) / 255; }; const uint8_t *d = &g.b[OFF[k]]; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const uint8_t *q = d + (size_t)(y / 2) * 3 * w; double Y = 1.407488 * q[y % 2 * w + x], c1 = q[2 * w + x / 2] - 156., c2 = q[2 * w + w / 2 + x / 2] - 137.; f.at(x, y) = {cl(Y + 1.323034 * c2), cl(Y - .395418 * c1 - .673920 * c2), cl(Y + 2.036045 * c1), 1}; }
    g.frames = {f}; g.anyflip = true; g.tol = 1.1 / 255; return g; }
inline FileGen gen_mdl(Rng &r) {
    FileGen g; g.type = IL_MDL; g.ext = "mdl"; BW o(g.b); o.str("IDST"); o.le32(10); o.zero(172); int n = r.range(1, 4); o.le32(n); o.le32(244); o.le32(244 + n * 80); pad_to(g.b, 244); o.zero(n * 80); for (int i = 0; i < n; i++) { int w, h; rnd_size(r, w, h); Px p = rnd_px(r, w, h, 1, 255); auto pal = rnd_pal(r, 256); size_t e = 244 + i * 80; memcpy(g.b.data() + e, "tex.bmp", 7); o.set32(e + 68, w); o.set32(e + 72, h); o.set32(e + 76, g.b.size()); for (auto v : p.v) o.u8(v); for (auto &c : pal) { o.u8(b255(c.r)); o.u8(b255(c.g)); o.u8(b255(c.b)); } Frame f; px_frame(f, p, &pal); g.frames.push_back(f); } g.anyflip = true; g.alpha = false; g.name = "mdl"; return g; }
inline FileGen gen_lif(Rng &r) { FileGen g; g.type = IL_LIF; g.ext = "lif"; int w, h; rnd_size(r, w, h); auto pal = rnd_pal(r, 256); for (auto &c : pal) c.a = r.below(256) / 255.; Px p = rnd_px(r, w, h, 1, 255); BW o(g.b); o.str("Willy 7"); o.u8(0); o.le32(260); o.le32(50); o.le32(w); o.le32(h); o.le32(0); o.le32(0); o.le32(w * h); o.le32(0); o.le32(0); for (auto v : p.v) o.u8(v); for (auto &c : pal) { o.u8(b255(c.r)); o.u8(b255(c.g)); o.u8(b255(c.b)); o.u8(b255(c.a)); } Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f.at(x, y) = pal[(p.at(x, y, 0) + 1) & 255]; g.frames = {f}; g.anyflip = true; g.name = "lif"; return g; } // the indices are stored less one
inline FileGen gen_psp(Rng &r) {
    FileGen g; g.type = IL_PSP; g.ext = "psp"; int w, h; rnd_size(r, w, h); int ver = r.range(3, 5), kind = r.below(4); bool v3 = ver == 3, rle = r.chance(50); int ch = kind == 0 ? 3 : kind == 1 ? 4 : kind == 2 ? 1 : 3; bool pal = kind == 2 && r.chance(70), bank = kind == 3; int n = pal ? r.range(1, 256) : 256; auto P = rnd_pal(r, n); Px p = rnd_px(r, w, h, bank ? 4 : ch, n - 1); Bytes &b = g.b; BW o(b); o.str("Paint Shop Pro Image File\n\x1a"); pad_to(b, 32); o.le16(ver); o.le16(0);
    std::vector<size_t> open; auto begin = [&](int id, uint32_t init) { o.u8(0x7E); o.u8(0x42); o.u8(0x4B); o.u8(0); o.le16(id); if (v3) o.le32(init); open.push_back(b.size()); o.le32(0); }; auto end = [&] { size_t at = open.back(); open.pop_back(); o.set32(at, b.size() - at - 4); };
    begin(0, 46); if (v3) { open.pop_back(); b.resize(b.size() - 8); o.le32(42); } size_t cl = b.size(); o.le32(0); size_t c0 = b.size(); o.le32(w); o.le32(h); o.zero(8); o.u8(1); o.le16(rle); o.le16(ch == 1 ? 8 : 24); o.le16(1); o.le32(ch == 1 ? 256 : 1 << 24); o.u8(0); o.le32(0); o.le32(0); o.le16(1); if (!v3 && r.chance(70)) o.le32(0); o.set32(cl, b.size() - c0 + (v3 ? 0 : 4)); if (!v3) end();
    auto chan = [&](int c, int type) { begin(5, 12); Bytes d; for (int y = 0; y < h; y++) { if (!rle) for (int x = 0; x < w; x++) d.push_back(p.at(x, y, c)); else runs(r, p, y, c, 1, 127, 3, [&](int k, int x, bool run) { if (run) { d.push_back(128 + k); d.push_back(p.at(x, y, c)); } else { d.push_back(k); for (int i = 0; i < k; i++) d.push_back(p.at(x + i, y, c)); } }); } if (!v3) o.le32(16); o.le32(d.size()); o.le32(w * h); o.le16(0); o.le16(type); o.raw(d.data(), d.size()); end(); };
    auto rect = [&] { o.le32(0); o.le32(0); o.le32(w); o.le32(h); }; auto layerinfo = [&] { o.u8(1); rect(); rect(); o.u8(255); o.u8(0); o.u8(1); o.u8(0); o.u8(0); rect(); rect(); o.u8(0); o.u8(0); o.u8(0); o.le16(5); o.zero(8 * 5); };
    if (pal && r.chance(50)) { begin(2, 8); if (!v3) o.le32(8); o.le32(n); for (auto &c : P) { o.u8(b255(c.b)); o.u8(b255(c.g)); o.u8(b255(c.r)); o.u8(0); } end(); pal = false; g.rel = true; }
    bool done = g.rel; g.rel = false; if (r.chance(30)) { begin(1, 4); o.zero(r.below(30)); end(); }
    begin(3, 0); begin(4, 0); if (v3) { o.zero(256); layerinfo(); } else { size_t s = b.size(); o.le32(0); o.le16(5); o.str("layer"); layerinfo(); o.set32(s, b.size() - s); o.le32(8); } o.le16(1); o.le16(ch); for (int c = 0; c < ch; c++) chan(c, ch == 1 ? 0 : c + 1); end(); end();
    if (bank || pal) g.ends.push_back(b.size());
    if (bank) { begin(7, 2); if (!v3) { o.le32(6); } o.le16(1); begin(8, 0); if (v3) { o.zero(256); rect(); rect(); } else { size_t s = b.size(); o.le32(0); o.le16(5); o.str("alpha"); rect(); rect(); o.set32(s, b.size() - s); o.le32(8); } o.le16(1); o.le16(1); chan(3, 0); end(); end(); }
    if (pal) { begin(2, 8); if (!v3) o.le32(8); o.le32(n); for (auto &c : P) { o.u8(b255(c.b)); o.u8(b255(c.g)); o.u8(b255(c.r)); o.u8(0); } end(); }
    Frame f; px_frame(f, p, pal || done ? &P : NULL); g.frames = {f}; g.alpha = ch == 4 || bank; char s[80]; snprintf(s, 80, "psp v%d ch%d%s%s%s", ver, ch, bank ? " bank" : "", pal || done ? " pal" : "", rle ? " rle" : ""); g.name = s; return g;
}
inline FileGen gen_icns(Rng &r) {
    FileGen g; g.type = IL_ICNS; g.ext = "icns"; BW o(g.b); o.str("icns"); o.be32(0); static const int SZ[] = {16, 32, 48, 128}; static const char *C[] = {"is32", "il32", "ih32", "it32"}, *M[] = {"s8mk", "l8mk", "h8mk", "t8mk"}; int set = r.range(1, 15); if (r.chance(70)) set &= 7; if (!set) set = 1;
    for (int k = 0; k < 4; k++) if (set >> k & 1) { int w = SZ[k]; Px p = rnd_px(r, w, w, 4, 255); Bytes d; BW q(d); if (k == 3) q.zero(4); bool raw = k != 3 && r.chance(25); if (raw) { for (int i = 0; i < w * w; i++) { q.u8(0); for (int c = 0; c < 3; c++) q.u8(p.v[i * 4 + c]); } } else for (int c = 0; c < 3; c++) for (int y = 0; y < w; y++) runs(r, p, y, c, 1, 130, 3, [&](int n, int x, bool run) { if (run) { q.u8(n + 125); q.u8(p.at(x, y, c)); } else { while (n) { int m = std::min(n, 128); q.u8(m - 1); for (int i = 0; i < m; i++) q.u8(p.at(x++, y, c)); n -= m; } } });
        if (!raw && (int)d.size() == w * w * 4) { d.clear(); q.zero(0); for (int i = 0; i < w * w; i++) { q.u8(0); for (int c = 0; c < 3; c++) q.u8(p.v[i * 4 + c]); } }
        auto mask = [&] { o.str(M[k]); o.be32(8 + w * w); for (int i = 0; i < w * w; i++) o.u8(p.v[i * 4 + 3]); }; bool first = r.chance(30); if (r.chance(15)) { o.str("ICN#"); int z = r.below(30); o.be32(8 + z); o.zero(z); } if (first) mask(); o.str(C[k]); o.be32(8 + d.size()); o.raw(d.data(), d.size()); if (!first) mask(); Frame f; px_frame(f, p); g.frames.push_back(f); }
    o.bset32(4, g.b.size()); g.name = "icns"; return g;
}
inline FileGen gen_tpl(Rng &r) {
    FileGen g; g.type = IL_TPL; g.ext = "tpl"; BW o(g.b); int n = r.chance(70) ? 1 : r.range(2, 3); o.be32(0x0020AF30); o.be32(n); o.be32(12); size_t tab = g.b.size(); o.zero(8 * n); bool known = true; g.name = "tpl"; auto rgb565 = [](int v) { return RGBAd{(v >> 11) / 31., (v >> 5 & 63) / 63., (v & 31) / 31., 1}; }; auto rgb5a3 = [](int v) { return v & 0x8000 ? RGBAd{(v >> 10 & 31) / 31., (v >> 5 & 31) / 31., (v & 31) / 31., 1} : RGBAd{(v >> 8 & 15) / 15., (v >> 4 & 15) / 15., (v & 15) / 15., (v >> 12 & 7) / 7.}; };
    for (int i = 0; i < n; i++) { int w, h; rnd_size(r, w, h); static const int FM[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 14}; int fm = FM[r.below(11)]; int tw = 4, th = 4, ts = 32; if (fm == 0 || fm == 8 || fm == 14) tw = th = 8; else if (fm == 1 || fm == 2 || fm == 9) tw = 8; if (fm == 6) ts = 64; bool ci = fm >= 8 && fm <= 10; std::vector<RGBAd> pal; Frame f; f.size(w, h);
        if (ci) { int np = fm == 8 ? 16 : fm == 9 ? 256 : r.range(1, 500), pf = r.below(3); if (fm == 10) { np = r.chance(50) ? np : r.range(1, 6000); } o.set32(tab + 8 * i + 4, 0); size_t ph = g.b.size(); o.bset32(tab + 8 * i + 4, ph); o.be16(np); o.be16(0); o.be32(pf); o.be32(ph + 12); for (int k = 0; k < np; k++) { int v = r.below(65536); o.be16(v); pal.push_back(pf == 0 ? RGBAd{(v & 255) / 255., (v & 255) / 255., (v & 255) / 255., (v >> 8) / 255.} : pf == 1 ? rgb565(v) : rgb5a3(v)); } }
        size_t th0 = g.b.size(); o.bset32(tab + 8 * i, th0); o.be16(h); o.be16(w); o.be32(fm); o.be32(th0 + 36); o.be32(0); o.be32(0); o.be32(1); o.be32(1); o.be32(0); o.be32(0);
        for (int y = 0; y < h; y += th) for (int x = 0; x < w; x += tw) { Bytes t(ts); for (auto &c : t) c = r.below(256); if (fm == 10) for (int k = 0; k < 16; k++) { int v = r.below((int)pal.size()) | r.below(4) << 14; t[k * 2] = v >> 8; t[k * 2 + 1] = v; } o.raw(t.data(), ts); for (int j = 0; j < th && y + j < h; j++) for (int k = 0; k < tw && x + k < w; k++) { int q = j * tw + k; RGBAd &c = f.at(x + k, y + j); int v16 = tw == 4 ? t[q * 2] << 8 | t[q * 2 + 1] : 0, v4 = q & 1 ? t[q / 2] & 15 : t[q / 2] >> 4; switch (fm) { case 0: c.r = c.g = c.b = v4 / 15.; break; case 1: c.r = c.g = c.b = t[q] / 255.; break; case 4: c = rgb565(v16); break; case 5: c = rgb5a3(v16); break; case 8: c = pal[v4]; break; case 9: c = pal[t[q]]; break;
            case 2: c.r = c.g = c.b = (t[q] & 15) / 15.; c.a = (t[q] >> 4) / 15.; break; case 3: c.r = c.g = c.b = t[q * 2 + 1] / 255.; c.a = t[q * 2] / 255.; break; case 6: c = {t[q * 2 + 1] / 255., t[q * 2 + 32] / 255., t[q * 2 + 33] / 255., t[q * 2] / 255.}; break; case 10: c = pal[v16 & 0x3fff]; break;
            case 14: { const uint8_t *B = &t[(j / 4 * 2 + k / 4) * 8]; int a = B[0] << 8 | B[1], b = B[2] << 8 | B[3], s = B[4 + j % 4] >> (6 - k % 4 * 2) & 3; RGBAd A = rgb565(a), C = rgb565(b); auto mix = [&](double u) { return RGBAd{A.r + (C.r - A.r) * u, A.g + (C.g - A.g) * u, A.b + (C.b - A.b) * u, 1}; }; c = s == 0 ? A : s == 1 ? C : a > b ? mix(s == 2 ? 1 / 3. : 2 / 3.) : mix(.5); if (s == 3 && a <= b) c = {ANYV, ANYV, ANYV, 0}; break; } } } }
        g.frames.push_back(f); char s[30]; snprintf(s, 30, " f%d", fm); g.name += s; }
    if (!known) g.frames.clear(); g.tol = 4.1 / 255; return g;
}
inline FileGen gen_fits(Rng &r) {
    FileGen g; g.type = IL_FITS; g.ext = "fits"; int w, h, d = 1; rnd_size(r, w, h); int ax = r.pick({1, 2, 2, 2, 3}); if (ax == 1) h = 1; if (ax == 3) { d = r.range(1, 3); w = std::min(w, 20); h = std::min(h, 20); } int bp = r.pick({8, 8, -32, -64, 16, 32}); BW o(g.b); auto card = [&](const char *s) { char c[81]; snprintf(c, 81, "%-80s", s); o.raw(c, 80); }; char s[90]; auto kv = [&](const char *k, int v) { snprintf(s, 90, "%-8s= %20d / comment", k, v); card(s); };
    card("SIMPLE  =                    T / file conforms"); kv("BITPIX", bp); kv("NAXIS", ax); kv("NAXIS1", w); if (ax > 1) kv("NAXIS2", h); if (ax > 2) kv("NAXIS3", d); if (r.chance(40)) card("OBJECT  = 'M31     '"); if (r.chance(20)) for (int i = 0; i < 40; i++) card("COMMENT a line"); card("END"); while (g.b.size() % 2880) o.u8(' ');
    int mode = r.below(3); std::vector<double> v; double mx = 0; for (int i = 0; i < w * h * d; i++) { double q = bp == 8 ? (double)r.below(256) : mode == 0 ? r.below(1000) / 1000. : mode == 1 ? (double)r.below(100000) : r.below(1000) - 200.; if (bp < 0) { q = (float)q; if (q < 0) q = r.chance(50) ? 0 : q; } if (bp == 16) q = r.below(r.chance(50) ? 32768 : 300); if (bp == 32) q = r.below(r.chance(50) ? 0x7fffffff : 70000); v.push_back(q); mx = std::max(mx, q); }
    for (double q : v) { if (bp == 8) o.u8((int)q); else if (bp == 16) o.be16((int)q); else if (bp == 32) o.be32((uint32_t)q); else if (bp == -32) o.fbe((float)q); else { uint64_t u; memcpy(&u, &q, 8); o.be32(u >> 32); o.be32((uint32_t)u); } } if (r.chance(80)) while (g.b.size() % 2880) o.u8(0);
    { double M = bp == 8 ? 255 : bp == 16 ? 65535 : bp == 32 ? 4294967295. : mx > 0 ? mx : 1; for (int z = 0; z < d; z++) { Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double q = std::max(0., v[((size_t)z * h + h - 1 - y) * w + x] / M); f.at(x, y) = RGBAd{q, q, q, 1}; } if (z) g.slices.push_back(f); else g.frames.push_back(f); } }
    g.tol = 1e-5 + (bp == 8 ? 0.5 / 255 : 0); snprintf(s, 90, "fits bitpix%d naxis%d", bp, ax); g.name = s; return g;
}
inline FileGen gen_dicom(Rng &r) {
    FileGen g; g.type = IL_DICOM; g.ext = r.pick({"dcm", "dicom"}); int w, h; rnd_size(r, w, h); int ch = r.pick({1, 3}), bits = r.pick({8, 16, 8, 16, 32}); bool be = r.chance(25); Px p = rnd_px(r, w, h, ch, bits == 8 ? 255 : 65535); BW o(g.b); o.zero(128); o.str("DICM"); auto s16 = [&](int v) { if (be) o.be16(v); else o.le16(v); }; auto us = [&](int gr, int el, int v) { s16(gr); s16(el); o.str("US"); s16(2); s16(v); };
    if (be || r.chance(60)) { o.le16(2); o.le16(0x10); o.str("UI"); o.le16(20); o.raw(be ? "1.2.840.10008.1.2.2" : "1.2.840.10008.1.2.1", 20); } us(0x28, 2, ch); if (r.chance(50)) { s16(0x28); s16(4); o.str("CS"); const char *s = ch == 1 ? "MONOCHROME2 " : "RGB "; s16(strlen(s)); o.str(s); } if (r.chance(30)) { s16(0x28); s16(8); o.str("IS"); s16(2); o.str("1 "); } us(0x28, 0x10, h); us(0x28, 0x11, w); us(0x28, 0x100, bits); us(0x28, 0x101, bits); if (r.chance(50)) us(0x28, 0x102, bits - 1);
    s16(0x7FE0); s16(0x10); o.str("OW"); o.le16(0); if (be) o.be32(w * h * ch * bits / 8); else o.le32(w * h * ch * bits / 8); for (auto v : p.v) { if (bits == 8) o.u8(v); else if (bits == 32) { if (be) o.fbe(v / 65535.f); else o.fle(v / 65535.f); } else s16(v); } if (g.b.size() & 1) o.u8(0);
    if (bits == 8) { Frame f; px_frame(f, p); g.frames = {f}; } else { Frame f; f.size(w, h); for (size_t i = 0; i < f.px.size(); i++) { double q[3]; for (int c = 0; c < 3; c++) q[c] = p.v[i * ch + (ch == 3 ? c : 0)] / 65535.; f.px[i] = RGBAd{q[0], q[1], q[2], 1}; } g.frames = {f}; g.tol = 1e-5; } char s[60]; snprintf(s, 60, "dicom ch%d bits%d%s", ch, bits, be ? " be" : ""); g.name = s; return g;
}
inline void blp_pal(BW &o, std::vector<RGBAd> &pal) { for (auto &c : pal) { o.u8(b255(c.b)); o.u8(b255(c.g)); o.u8(b255(c.r)); o.u8(0); } }
inline FileGen gen_blp(Rng &r) {
    FileGen g; g.type = IL_BLP; g.ext = "blp"; int w = 1 << r.below(7), h = 1 << r.below(7); BW o(g.b); bool two = r.chance(60); int n = r.chance(60) ? ilog2(std::max(w, h)) + 1 : 1; if (!two) {
        bool jpg = r.chance(25), alpha = !jpg && r.chance(50); o.str("BLP1"); o.le32(jpg ? 0 : 1); o.le32(alpha ? 8 : 0); o.le32(w); o.le32(h); o.le32(alpha ? r.pick({3, 4}) : 5); o.le32(n > 1); size_t tab = g.b.size(); o.zero(128); char s[50]; snprintf(s, 50, "blp1%s%s", jpg ? " jpg" : "", alpha ? " alpha" : ""); g.name = s;
        if (jpg) { Px p = rnd_px(r, w, h, 3, 255); Bytes px, j; for (auto v : p.v) px.push_back(v); jpg_encode(j, px.data(), w, h, 3, 90, false, 0); size_t cut = std::min<size_t>(j.size() - 1, r.range(2, 600)); o.le32(cut); o.raw(j.data(), cut); o.set32(tab, g.b.size()); o.set32(tab + 64, j.size() - cut); o.raw(j.data() + cut, j.size() - cut); Bytes d; int W, H, C; jpg_decode(j, W, H, C, d); Frame f; f.size(w, h); for (size_t i = 0; i < f.px.size(); i++) f.px[i] = rgb8(d[i * 3 + 2], d[i * 3 + 1], d[i * 3]); g.frames = {f}; g.alpha = false; return g; }
        auto pal = rnd_pal(r, 256); blp_pal(o, pal); int W = w, H = h; for (int i = 0; i < n; i++) { Px p = rnd_px(r, W, H, 1, 255); o.set32(tab + 4 * i, g.b.size()); o.set32(tab + 64 + 4 * i, W * H * (alpha ? 2 : 1)); for (auto v : p.v) o.u8(v); Frame f; px_frame(f, p, &pal); if (alpha) for (auto &q : f.px) { int a = r.below(256); o.u8(a); q.a = a / 255.; } if (i == 0) g.frames = {f}; else g.subs.push_back({0, i, {f}}); W = std::max(1, W / 2); H = std::max(1, H / 2); } g.mipped = !alpha; g.alpha = alpha; return g; }
    bool dxt = r.chance(50); int ab, at = 0, kind = 0; if (dxt) { int k = r.below(3); ab = k == 0 ? r.below(2) : 8; at = k == 0 ? 0 : k == 1 ? 1 : 7; kind = k == 0 ? 1 : k == 1 ? 3 : 5; } else { ab = r.below(2); at = 8; }
    o.str("BLP2"); o.le32(1); o.u8(dxt ? 2 : 1); o.u8(ab); o.u8(at); o.u8(n > 1); o.le32(w); o.le32(h); size_t tab = g.b.size(); o.zero(128); auto pal = rnd_pal(r, 256); blp_pal(o, pal); int W = w, H = h; for (int i = 0; i < n; i++) { Frame f; o.set32(tab + 4 * i, g.b.size()); size_t at0 = g.b.size();
        if (dxt) { Bytes b = rnd_blocks(r, W, H, kind); o.raw(b.data(), b.size()); f = bc_decode(b.data(), W, H, kind); } else { Px p = rnd_px(r, W, H, 1, 255); for (auto v : p.v) o.u8(v); px_frame(f, p, &pal); if (ab == 8) for (auto &q : f.px) { int a = r.below(256); o.u8(a); q.a = a / 255.; } else if (ab == 1) { int acc = 0, nb = 0; for (auto &q : f.px) { int a = r.below(2); q.a = a; acc |= a << nb; if (++nb == 8) { o.u8(acc); acc = nb = 0; } } if (nb) o.u8(acc); } }
        o.set32(tab + 64 + 4 * i, g.b.size() - at0); if (i == 0) g.frames = {f}; else g.subs.push_back({0, i, {f}}); W = std::max(1, W / 2); H = std::max(1, H / 2); }
    g.mipped = true; if (dxt) g.tol = 4.2 / 255; g.alpha = dxt; char s[60]; snprintf(s, 60, "blp2 %s alpha%d/%d", dxt ? "dxt" : "pal", ab, at); g.name = s; return g;
}
inline FileGen gen_rot(Rng &r) {
    FileGen g; g.type = IL_ROT; g.ext = "rot"; int k = r.below(4); int w = 4 << r.below(5), h = 4 << r.below(5); int kind = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 3 : 5; BW o(g.b); int fm = k == 0 ? 1024 : k == 1 ? 1028 : k == 2 ? 1029 : 1030; o.str("FORM"); o.be32(0x14); o.str("HEAD"); o.le32(w); o.le32(h); o.le32(fm); o.le32(4); int n = r.chance(50) ? 1 : r.range(1, ilog2(std::min(w, h)) + 1); size_t m0 = g.b.size(); o.str("FORM"); o.be32(0); o.str("MIPS"); int W = w, H = h;
    for (int i = 0; i < n; i++) { Frame f; Bytes d; if (kind) { d = rnd_blocks(r, W, H, kind); f = bc_decode(d.data(), W, H, kind); } else { Px p = rnd_px(r, W, H, 4, 255); for (auto v : p.v) d.push_back(v); px_frame(f, p); } if (i) g.ends.push_back(g.b.size()); o.str("FORM"); o.be32(d.size() + 20); o.str("MLVL"); o.le32(i); o.le32(W); o.le32(H); o.le32(d.size()); o.raw(d.data(), d.size()); if (i == 0) g.frames = {f}; else g.subs.push_back({0, i, {f}}); W = std::max(1, W / 2); H = std::max(1, H / 2); }
    o.bset32(m0 + 4, g.b.size() - m0 - 8); g.anyflip = true; if (kind) g.tol = 4.2 / 255; char s[60]; snprintf(s, 60, "rot %d", fm); g.name = s; return g;
}
inline FileGen gen_texture(Rng &r) { FileGen g = gen_dds(r), d = g; g.type = IL_TEXTURE; g.ext = "texture"; g.sniff = false; g.b.assign(48, 0); for (auto &c : g.b) c = r.below(256); g.b.insert(g.b.end(), d.b.begin(), d.b.end()); g.name = "texture " + d.name; return g; }
// an ETC1 block of 8 bytes, which is valid
inline RGBAd etc1_texel(const uint8_t *b, int x, int y) {
    static const int T[8][2] = {{2, 8}, {5, 17}, {9, 29}, {13, 42}, {18, 60}, {24, 80}, {33, 106}, {47, 183}}; bool diff = b[3] & 2, flip = b[3] & 1, second = flip ? y > 1 : x > 1; int t = second ? b[3] >> 2 & 7 : b[3] >> 5, i = x * 4 + y, hi = (b[4] << 8 | b[5]) >> i & 1, lo = (b[6] << 8 | b[7]) >> i & 1, m = hi ? -T[t][lo] : T[t][lo]; double c[3];
    for (int k = 0; k < 3; k++) { int v; if (diff) { v = b[k] >> 3; if (second) v += (b[k] & 7) - (b[k] & 4 ? 8 : 0); v = v << 3 | v >> 2; } else { v = second ? b[k] & 15 : b[k] >> 4; v = v << 4 | v; } c[k] = std::min(255, std::max(0, v + m)) / 255.; } return RGBAd{c[0], c[1], c[2], 1};
}
inline FileGen gen_ktx(Rng &r) {
    FileGen g; g.type = IL_KTX; g.ext = "ktx"; int w, h; rnd_size(r, w, h); BW o(g.b); static const unsigned char ID[] = {0xAB, 'K', 'T', 'X', ' ', '1', '1', 0xBB, 13, 10, 0x1A, 10}; o.raw(ID, 12); o.le32(0x04030201); static const struct { int f, i, ch; const char *n; } FM[] = {{0x1907, 0x1907, 3, "rgb"}, {0x1908, 0x1908, 4, "rgba"}, {0x1909, 0x1909, 1, "lum"}, {0x190A, 0x190A, 2, "la"}, {0x80E0, 0x1907, 3, "bgr"}, {0x80E1, 0x1908, 4, "bgra"}}; int k = r.below(7); bool etc = k == 6; if (!etc && FM[k].f == 0x80E0 && 0) k = 0; int n = r.chance(50) ? 1 : r.range(1, ilog2(std::max(w, h)) + 1); const char *org = r.pick({"", "S=r,T=d", "S=r,T=u"});
    o.le32(etc ? 0 : 0x1401); o.le32(1); o.le32(etc ? 0 : FM[k].f); o.le32(etc ? 0x8D64 : FM[k].i); o.le32(etc ? 0x1907 : FM[k].i); o.le32(w); o.le32(h); o.le32(0); o.le32(0); o.le32(1); o.le32(n == 1 && !etc && r.chance(30) ? 0 : n); size_t kv = g.b.size(); o.le32(0); if (*org) { int len = 15 + strlen(org) + 1; o.le32(len); o.str("KTXorientation"); o.u8(0); o.str(org); o.u8(0); while (g.b.size() & 3) o.u8(0); o.set32(kv, g.b.size() - kv - 4); }
    int W = w, H = h; for (int i = 0; i < n; i++) { Frame f; if (etc) { int sz = ((W + 3) / 4) * ((H + 3) / 4) * 8; o.le32(sz); f.size(W, H); for (int by = 0; by < (H + 3) / 4; by++) for (int bx = 0; bx < (W + 3) / 4; bx++) { uint8_t B[8]; for (auto &v : B) v = r.below(256); if (B[3] & 2) for (int c = 0; c < 3; c++) while ((B[c] >> 3) + (B[c] & 7) - (B[c] & 4 ? 8 : 0) < 0 || (B[c] >> 3) + (B[c] & 7) - (B[c] & 4 ? 8 : 0) > 31) B[c] = r.below(256); o.raw(B, 8); for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) if (by * 4 + y < H && bx * 4 + x < W) f.at(bx * 4 + x, by * 4 + y) = etc1_texel(B, x, y); } (void)sz; } else { int ch = FM[k].ch, row = (W * ch + 3) / 4 * 4; Px p = rnd_px(r, W, H, ch, 255); o.le32(row * H); for (int y = 0; y < H; y++) { for (int x = 0; x < W; x++) for (int c = 0; c < ch; c++) o.u8(p.at(x, y, (k == 4 || k == 5) && c < 3 ? 2 - c : c)); o.zero(row - W * ch); } px_frame(f, p); } if (*org && org[6] == 'u') f = flipped(f); if (i == 0) g.frames = {f}; else g.subs.push_back({0, i, {f}}); while (g.b.size() & 3) o.u8(0); W = std::max(1, W / 2); H = std::max(1, H / 2); }
    g.mipped = true; if ((etc && n > 1) || k == 4 || k == 5) { g.frames.clear(); g.subs.clear(); g.mipped = false; } char s[60]; snprintf(s, 60, "ktx %s%s%s", etc ? "etc1" : FM[k].n, *org ? " " : "", org); g.name = s; return g;
}
inline FileGen gen_utx(Rng &r) {
    FileGen g; g.type = IL_UTX; g.ext = "utx"; BW o(g.b); int ver = r.range(61, 69); static const char *NM[] = {"None", "Palette", "Texture", "USize", "VSize", "Format", "Core", "Engine", "Class", "pal", "tex", "Package", "UBits"}; int nn = 13, ntex = r.range(1, 3); o.le32(0x9E2A83C1); o.le16(ver); o.le16(0); o.le32(1); size_t hd = g.b.size(); o.zero(24); if (ver < 68) { o.le32(0); o.le32(0); } else o.zero(16 + 12);
    auto ci = [](BW &b, int v) { int neg = v < 0; uint32_t u = neg ? -v : v; int c = u & 63; u >>= 6; b.u8(c | (neg ? 0x80 : 0) | (u ? 0x40 : 0)); while (u) { c = u & 127; u >>= 7; b.u8(c | (u ? 0x80 : 0)); } };
    struct Obj { Bytes d; bool pal; }; std::vector<Obj> obj; for (int i = 0; i < ntex; i++) { bool dxt = r.chance(30); auto pal = rnd_pal(r, dxt ? 1 : r.pick({256, 256, 17})); for (auto &c : pal) c.a = r.below(256) / 255.; int pi = obj.size(); if (!dxt) { Obj p; p.pal = true; BW b(p.d); ci(b, 0); ci(b, pal.size()); for (auto &c : pal) { b.u8(b255(c.r)); b.u8(b255(c.g)); b.u8(b255(c.b)); b.u8(b255(c.a)); } obj.push_back(p); }
        Obj t; t.pal = false; BW b(t.d); int w = 1 << r.below(7), h = 1 << r.below(7); if (!dxt) { ci(b, 1); b.u8(0x05); ci(b, pi + 1); } if (dxt) { ci(b, 5); b.u8(0x01); b.u8(3); } ci(b, 3); b.u8(0x22); b.le32(w); ci(b, 4); b.u8(0x22); b.le32(h); if (r.chance(30)) { ci(b, 12); b.u8(1); b.u8(7); } ci(b, 0); b.u8(1); b.le32(0); Frame f; if (dxt) { Bytes d = rnd_blocks(r, w, h, 1); ci(b, d.size()); b.raw(d.data(), d.size()); f = bc_decode(d.data(), w, h, 1); g.tol = 4.2 / 255; } else { Px p = rnd_px(r, w, h, 1, pal.size() - 1); ci(b, w * h); for (auto v : p.v) b.u8(v); px_frame(f, p, &pal); } b.le32(w); b.le32(h); b.u8(ilog2(w)); b.u8(ilog2(h)); obj.push_back(t); g.frames.push_back(f); }
    std::vector<size_t> at; for (auto &q : obj) { at.push_back(g.b.size()); o.raw(q.d.data(), q.d.size()); }
    o.set32(hd, nn); o.set32(hd + 4, g.b.size()); for (int i = 0; i < nn; i++) { if (ver >= 64) ci(o, strlen(NM[i]) + 1); o.str(NM[i]); o.u8(0); o.le32(0x70010); }
    o.set32(hd + 16, 2); o.set32(hd + 20, g.b.size()); for (int i = 0; i < 2; i++) { ci(o, 6); ci(o, 8); o.le32(0); ci(o, i ? 2 : 1); }
    o.set32(hd + 8, obj.size()); o.set32(hd + 12, g.b.size()); for (size_t i = 0; i < obj.size(); i++) { ci(o, obj[i].pal ? -1 : -2); ci(o, 0); o.le32(0); ci(o, obj[i].pal ? 9 : 10); o.le32(0x70004); ci(o, obj[i].d.size()); ci(o, at[i]); }
    char s[40]; snprintf(s, 40, "utx v%d", ver); g.name = s; return g;
}
inline FileGen gen_mp3(Rng &r) {
    FileGen g; g.type = IL_MP3; g.ext = "mp3"; bool png = r.chance(50); FileGen c = png ? gen_png(r) : gen_jpg(r); Bytes f; BW q(f); if (r.chance(50)) { q.str("TIT2"); q.be32(6); q.be16(0); q.u8(0); q.str("title"); } q.str("APIC"); Bytes a; BW w(a); w.u8(0); w.str(png ? "image/png" : "image/jpeg"); w.u8(0); w.u8(3); if (r.chance(50)) w.str("cover"); w.u8(0); w.raw(c.b.data(), c.b.size()); q.be32(a.size()); q.be16(0); q.raw(a.data(), a.size()); if (r.chance(40)) q.zero(r.below(50)); BW o(g.b); o.str("ID3"); o.u8(3); o.u8(0); o.u8(0); uint32_t n = f.size(); o.u8(n >> 21 & 127); o.u8(n >> 14 & 127); o.u8(n >> 7 & 127); o.u8(n & 127); o.raw(f.data(), f.size()); if (r.chance(60)) { o.u8(0xff); o.u8(0xfb); for (int i = 0; i < 100; i++) o.u8(r.below(256)); } Bytes b = g.b; std::string e = g.ext; g = c; g.b = b; g.type = IL_MP3; g.ext = e; g.name = "mp3 " + c.name; return g; }
inline FileGen gen_scitex(Rng &r) {
    FileGen g; g.type = IL_SCITEX; g.ext = "sct"; int w, h; rnd_size(r, w, h); int ch = r.pick({1, 3}); Px p = rnd_px(r, w, h, ch, 255); BW o(g.b); o.zero(80); o.str("CT"); pad_to(g.b, 1024); o.u8(r.below(2)); o.u8(ch); o.be16(ch == 3 ? 7 : 8); char s[40]; snprintf(s, 40, "+%.8fE+01", 1.25); std::string u = s; u.resize(14, ' '); o.raw(u.data(), 14); o.raw(u.data(), 14); snprintf(s, 40, "+%011d", h); o.raw(s, 12); snprintf(s, 40, "+%011d", w); o.raw(s, 12); pad_to(g.b, 2048);
    for (int y = 0; y < h; y++) for (int c = 0; c < ch; c++) { for (int x = 0; x < w; x++) o.u8(p.at(x, y, c)); if (w & 1) o.u8(0); } Frame f; px_frame(f, p); g.frames = {f}; snprintf(s, 40, "scitex ch%d", ch); g.name = s; return g; }
inline FileGen gen_iwi(Rng &r) {
    FileGen g; g.type = IL_IWI; g.ext = "iwi"; static const int FM[] = {1, 2, 3, 4, 0xB, 0xC, 0xD}; int fm = FM[r.below(7)], kind = fm == 0xB ? 1 : fm == 0xC ? 3 : fm == 0xD ? 5 : 0; int w = 1 << r.below(7), h = 1 << r.below(7); if (kind) { w = std::max(w, 4); h = std::max(h, 4); } bool nomip = r.chance(40); int n = nomip ? 1 : ilog2(std::min(w, h)) + 1; BW o(g.b); o.le32(r.chance(70) ? 0x06695749 : 0x05695749); o.u8(fm); o.u8(nomip ? 3 : 0); o.le16(w); o.le16(h); o.zero(18); std::vector<Bytes> lv; int W = w, H = h;
    for (int i = 0; i < n; i++) { Bytes d; BW q(d); Frame f; if (kind) { d = rnd_blocks(r, W, H, kind); f = bc_decode(d.data(), W, H, kind); } else if (fm == 3) { f.size(W, H); for (auto &c : f.px) { int v = r.below(65536); q.le16(v); c = RGBAd{(v >> 8 & 15) / 15., (v >> 4 & 15) / 15., (v & 15) / 15., (v >> 12) / 15.}; } } else if (fm == 4) { f.size(W, H); for (auto &c : f.px) { int v = r.below(256); q.u8(v); c = RGBAd{1, 1, 1, v / 255.}; } } else { Px p = rnd_px(r, W, H, fm == 1 ? 4 : 3, 255); px_frame(f, p); for (int j = 0; j < W * H; j++) { for (int c = 2; c >= 0; c--) q.u8(p.v[j * p.ch + c]); if (fm == 1) q.u8(p.v[j * 4 + 3]); } } lv.push_back(d); if (i == 0) g.frames = {f}; else g.subs.push_back({0, i, {f}}); W = std::max(1, W / 2); H = std::max(1, H / 2); }
    for (int i = n - 1; i >= 0; i--) o.raw(lv[i].data(), lv[i].size()); if (kind) g.tol = 4.2 / 255; g.mipped = true; if (fm == 4 || fm == 3) { g.frames.clear(); g.subs.clear(); g.mipped = false; } char s[50]; snprintf(s, 50, "iwi f%d%s", fm, nomip ? " nomip" : ""); g.name = s; return g;
}
inline FileGen gen_pic(Rng &r) { // Softimage
    FileGen g; g.type = IL_PIC; g.ext = "pic"; int w, h; rnd_size(r, w, h); bool alpha = r.chance(50); Px p = rnd_px(r, w, h, alpha ? 4 : 3, 255); BW o(g.b); o.be32(0x5380F634); o.fbe(3.71f); char c[80] = "comment"; o.raw(c, 80); o.str("PICT"); o.be16(w); o.be16(h); o.fbe(1); o.be16(3); o.be16(0); struct P { int c0, n, type, mask; }; std::vector<P> pk; if (r.chance(40)) { static const int M[] = {0x80, 0x40, 0x20}; for (int i = 0; i < 3; i++) pk.push_back({i, 1, (int)r.below(3), M[i]}); } else pk.push_back({0, 3, (int)r.below(3), 0xE0}); if (alpha) { if (pk.size() == 1 && r.chance(40)) pk[0] = {0, 4, (int)r.below(3), 0xF0}; else pk.push_back({3, 1, (int)r.below(3), 0x10}); }
    for (size_t i = 0; i < pk.size(); i++) { o.u8(i + 1 < pk.size()); o.u8(8); o.u8(pk[i].type); o.u8(pk[i].mask); }
    for (int y = 0; y < h; y++) for (auto &k : pk) { auto px = [&](int x) { for (int c = 0; c < k.n; c++) o.u8(p.at(x, y, k.c0 + c)); }; if (k.type == 0) { for (int x = 0; x < w; x++) px(x); } else runs(r, p, y, k.c0, k.n, k.type == 1 ? 255 : 600, k.type == 1 ? 1 : 2, [&](int n, int x, bool run) { if (k.type == 1) { o.u8(n); px(x); return; } if (!run) { while (n > 0) { int m = std::min(n, 128); o.u8(m - 1); while (m--) { px(x++); n--; } } return; } if (n > 128) { o.u8(128); o.be16(n); px(x); } else { o.u8(n + 127); px(x); } }); }
    Frame f; px_frame(f, p); g.frames = {f}; g.alpha = alpha; char s[60]; snprintf(s, 60, "pic packets%zu type%d%s", pk.size(), pk[0].type, alpha ? " alpha" : ""); g.name = s; return g;
}
inline FileGen gen_pix(Rng &r) { FileGen g; g.type = IL_PIX; g.ext = "pix"; g.sniff = false; int w, h; rnd_size(r, w, h); Px p = rnd_px(r, w, h, 3, 255); BW o(g.b); o.be16(w); o.be16(h); o.be16(0); o.be16(0); o.be16(24); for (int y = 0; y < h; y++) runs(r, p, y, 0, 3, 255, 1, [&](int n, int x, bool) { o.u8(n); o.u8(p.at(x, y, 2)); o.u8(p.at(x, y, 1)); o.u8(p.at(x, y, 0)); }); Frame f; px_frame(f, p); g.frames = {f}; g.name = "pix"; return g; }
inline FileGen gen_pxr(Rng &r) { FileGen g; g.type = IL_PXR; g.ext = "pxr"; g.sniff = false; int w, h; rnd_size(r, w, h); int ch = r.pick({1, 3, 4}); Px p = rnd_px(r, w, h, ch, 255); g.b.assign(1024, 0); for (int i = 0; i < 20; i++) g.b[r.below(400)] = r.below(256); BW o(g.b); o.set16(416, h); o.set16(418, w); g.b[424] = ch == 1 ? 8 : ch == 3 ? 14 : 15; for (auto v : p.v) o.u8(v); Frame f; px_frame(f, p); g.frames = {f}; char s[30]; snprintf(s, 30, "pxr ch%d", ch); g.name = s; return g; }
inline FileGen gen_wal(Rng &r) { FileGen g; g.type = IL_WAL; g.ext = "wal"; g.sniff = false; int w = 8 * r.range(1, 8), h = 8 * r.range(1, 8); auto pal = pal_of(Q2_PAL, 256); BW o(g.b); o.str("e1u1/test"); pad_to(g.b, 32); o.le32(w); o.le32(h); size_t t = g.b.size(); o.zero(16 + 32); for (int i = 0; i < 3; i++) o.le32(r.below(5)); for (int i = 0; i < 4; i++) { Px p = rnd_px(r, w >> i, h >> i, 1, 255); o.set32(t + 4 * i, g.b.size()); for (auto v : p.v) o.u8(v); Frame f; px_frame(f, p, &pal); if (i == 0) g.frames = {f}; else g.subs.push_back({0, i, {f}}); } g.mipped = true; g.alpha = false; g.name = "wal"; return g; }
inline FileGen gen_ftx(Rng &r) { FileGen g; g.type = IL_FTX; g.ext = "ftx"; g.sniff = false; int w, h; rnd_size(r, w, h); Px p = rnd_px(r, w, h, 4, 255); BW o(g.b); o.le32(w); o.le32(h); o.le32(r.below(2)); for (auto v : p.v) o.u8(v); Frame f; px_frame(f, p); g.frames = {f}; g.name = "ftx"; return g; }
inline FileGen gen_xpm(Rng &r) {
    FileGen g; g.type = IL_XPM; g.ext = "xpm"; int w, h; rnd_size(r, w, h); int cpp = r.range(1, 3), n = cpp == 1 ? r.range(1, 60) : r.range(1, 200); bool tr = r.chance(30); auto pal = rnd_pal(r, n); std::vector<std::string> key; static const char CH[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.+@#$%&*=-;>,')!~{]^/(_:<[}| "; for (int i = 0; i < n; i++) { std::string k; int v = i; for (int j = 0; j < cpp; j++) { k += CH[v % 90]; v /= 90; } key.push_back(k); } Px p = rnd_px(r, w, h, 1, n - 1); BW o(g.b); char s[100]; o.str("/* XPM */\nstatic char *image[] = {\n"); if (r.chance(40)) o.str("/* columns rows colors chars-per-pixel */\n"); snprintf(s, 100, "\"%d %d %d %d\",\n", w, h, n, cpp); o.str(s);
    for (int i = 0; i < n; i++) { if (tr && i == 0) { snprintf(s, 100, "\"%s c None\",\n", key[i].c_str()); pal[0] = RGBAd{0, 0, 0, 0}; } else { static const struct { const char *n; int r, g, b; } NC[] = {{"black", 0, 0, 0}, {"White", 255, 255, 255}, {"red", 255, 0, 0}, {"blue", 0, 0, 255}, {"yellow", 255, 255, 0}, {"Cyan", 0, 255, 255}}; char col[40]; int cr = b255(pal[i].r), cg = b255(pal[i].g), cb = b255(pal[i].b), cs = r.below(20); if (cs == 0) { cr &= 15; cg &= 15; cb &= 15; pal[i] = rgb8(cr * 17, cg * 17, cb * 17); snprintf(col, 40, "#%x%x%x", cr, cg, cb); } else if (cs == 1) { auto &q = NC[r.below(6)]; pal[i] = rgb8(q.r, q.g, q.b); snprintf(col, 40, "%s", q.n); } else if (cs == 2) { int e = r.below(16); snprintf(col, 40, "#%02X%X%02X%X%02X%X", cr, e, cg, 15 - e, cb, e); } else if (cs == 3) snprintf(col, 40, "#%02X%02X%02X%02x%02X%02X", cr, cr, cg, cg, cb, cb); else snprintf(col, 40, cs & 1 ? "#%02X%02X%02X" : "#%02x%02x%02x", cr, cg, cb);
        int kx = r.below(12); snprintf(s, 100, "\"%s %s%sc%c%s%s\",\n", key[i].c_str(), r.chance(20) ? "\t" : "", kx == 0 ? "m black " : kx == 1 ? "s background " : kx == 2 ? "m white\tg gray50 " : "", kx == 3 ? '\t' : ' ', col, kx == 4 ? " m black" : kx == 5 ? " s c1" : ""); } o.str(s); if (r.chance(2)) o.str(r.chance(50) ? "/* a comment\n that goes on\n to here */\n" : "  /* another */\n"); } if (r.chance(40)) o.str("/* pixels */\n"); for (int y = 0; y < h; y++) { o.u8('"'); for (int x = 0; x < w; x++) o.str(key[p.at(x, y, 0)].c_str()); o.str(y + 1 < h ? "\",\n" : "\"\n"); } o.str("};\n"); Frame f; px_frame(f, p, &pal); g.frames = {f}; if (cpp > 2) g.frames.clear(); snprintf(s, 100, "xpm cpp%d%s", cpp, tr ? " none" : ""); g.name = s; return g;
}
inline FileGen gen_vtf(Rng &r) {
    FileGen g; g.type = IL_VTF; g.ext = "vtf"; int w = 1 << r.below(6), h = 1 << r.below(6); int fm = r.pick({0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 14, 15, 16, 17, 19, 21, 24, 25, 0, 13, 15}), kind = fm == 13 ? 1 : fm == 14 ? 3 : fm == 15 ? 5 : 0; int minor = r.range(0, 3); bool mips = r.chance(50), cube = r.chance(15), low = r.chance(60); int n = mips ? ilog2(std::max(w, h)) + 1 : 1, frames = !cube && r.chance(25) ? r.range(2, 3) : 1; if (cube) h = w, n = mips ? ilog2(w) + 1 : 1; BW o(g.b); int hs = minor >= 3 ? 104 : minor == 2 ? 80 : 64; o.raw("VTF", 4); o.le32(7); o.le32(minor); o.le32(hs); o.le16(w); o.le16(h); o.le32(cube ? 0x4000 : 0); o.le16(frames); o.le16(cube ? 0xffff : 0); o.zero(4); for (int i = 0; i < 3; i++) o.fle(0.5f); o.zero(4); o.fle(1); o.le32(fm); o.u8(n); o.le32(low ? 13 : 0xffffffff); int lw = low ? std::min(w, 16) : 0, lh = low ? std::min(h, 16) : 0, ls = low ? (lw + 3) / 4 * ((lh + 3) / 4) * 8 : 0; o.u8(lw); o.u8(lh); if (minor >= 2) o.le16(1); pad_to(g.b, hs);
    if (minor >= 3) { int nr = low ? 2 : 1; o.set32(68, nr); size_t at = 80; if (low) { g.b[at] = 1; o.set32(at + 4, hs); at += 8; } g.b[at] = 0x30; o.set32(at + 4, hs + ls); } for (int i = 0; i < ls; i++) o.u8(r.below(256)); int faces = cube ? (minor < 5 ? 7 : 6) : 1; std::vector<std::vector<Frame>> lv(n); std::vector<Frame> fr;
    for (int i = n - 1; i >= 0; i--) { int W = std::max(1, w >> i), H = std::max(1, h >> i); for (int k = 0; k < frames; k++) for (int q = 0; q < faces; q++) { Frame f; f.size(W, H); if (kind) { Bytes d = rnd_blocks(r, W, H, kind); o.raw(d.data(), d.size()); f = bc_decode(d.data(), W, H, kind); } else for (auto &c : f.px) { int v[4]; for (int &z : v) z = r.below(256); c = rgb8(v[0], v[1], v[2], v[3]); switch (fm) { case 0: for (int z : {0, 1, 2, 3}) o.u8(v[z]); break; case 1: for (int z : {3, 2, 1, 0}) o.u8(v[z]); break; case 2: for (int z : {0, 1, 2}) o.u8(v[z]); c.a = 1; break; case 3: for (int z : {2, 1, 0}) o.u8(v[z]); c.a = 1; break; case 5: o.u8(v[0]); c = rgb8(v[0], v[0], v[0]); break; case 6: o.u8(v[0]); o.u8(v[3]); c = rgb8(v[0], v[0], v[0], v[3]); break; case 8: o.u8(v[3]); break; case 11: for (int z : {3, 0, 1, 2}) o.u8(v[z]); break; case 12: for (int z : {2, 1, 0, 3}) o.u8(v[z]); break; case 16: for (int z : {2, 1, 0, 3}) o.u8(v[z]); c.a = 1; break; case 25: { double d[4]; for (int z = 0; z < 4; z++) { int u = r.below(65536); o.le16(u); d[z] = u / 65535.; } c = RGBAd{d[0], d[1], d[2], d[3]}; break; } case 4: case 17: { int u = r.below(65536); o.le16(u); int a = u & 31, b = u >> 5 & 63, e = u >> 11; c = RGBAd{(fm == 4 ? a : e) * 8 / 255., b * 4 / 255., (fm == 4 ? e : a) * 8 / 255., 1}; break; } case 21: { int u = r.below(65536); o.le16(u); c = rgb8((u >> 10 & 31) * 8, (u >> 5 & 31) * 8, (u & 31) * 8, u & 0x8000 ? 255 : 0); break; } case 19: { int u = r.below(65536); o.le16(u); c = rgb8((u >> 8 & 15) * 17, (u >> 4 & 15) * 17, (u & 15) * 17, (u >> 12) * 17); break; } case 24: { double d[4]; for (int z = 0; z < 4; z++) { int e = r.below(15), m = e ? r.below(1024) : 0; o.le16(e << 10 | m); d[z] = e ? ldexp(1024 + m, e - 25) : 0; } c = RGBAd{d[0], d[1], d[2], d[3]}; break; } default: o.le16(r.below(65536)); } } if (k == 0 && q == 0) lv[i].push_back(f); if (i == 0 && q == 0) fr.push_back(f); } }
    bool known = !cube && (kind || fm <= 3 || fm == 5 || fm == 6 || fm == 12 || fm == 11 || fm == 1 || fm == 16 || fm == 25 || fm == 4 || fm == 17 || fm == 19 || fm == 21 || fm == 24); if (known) { g.frames = fr; g.alpha = fm != 16; if (kind) g.tol = 4.2 / 255; if (fm == 4 || fm == 17 || fm == 21) g.tol = 7.1 / 255; if (frames == 1) { for (int i = 1; i < n; i++) g.subs.push_back({0, i, {lv[i][0]}}); g.mipped = true; } } char s[70]; snprintf(s, 70, "vtf 7.%d f%d%s%s", minor, fm, cube ? " cube" : "", frames > 1 ? " anim" : ""); g.name = s; return g;
}
inline FileGen gen_dpx(Rng &r) {
    FileGen g; g.type = IL_DPX; g.ext = "dpx"; int w, h; rnd_size(r, w, h); int desc = r.pick({6, 50, 51}), bits = r.pick({8, 16, 10, 8, 32}); int ch = desc == 6 ? 1 : desc == 50 ? 3 : 4; if (bits == 10 && desc != 50) bits = 8; Px p = rnd_px(r, w, h, ch, bits == 16 || bits == 32 ? 65535 : bits == 10 ? 1023 : 255); g.b.assign(2048, 0); BW o(g.b); o.bset32(0, 0x53445058); o.bset32(4, 2048); memcpy(g.b.data() + 8, "V1.0", 4); auto s16 = [&](size_t a, int v) { g.b[a] = v >> 8; g.b[a + 1] = v; }; s16(768, 0); s16(770, 1); o.bset32(772, w); o.bset32(776, h); size_t e = 780; o.bset32(e, 0); g.b[e + 20] = desc; g.b[e + 21] = 2; g.b[e + 22] = 2; g.b[e + 23] = bits; s16(e + 24, bits == 10 ? 1 : 0); s16(e + 26, 0); o.bset32(e + 28, 2048); o.bset32(e + 32, 0); o.bset32(e + 36, 0);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { if (bits == 10) { o.be32((uint32_t)p.at(x, y, 0) << 22 | p.at(x, y, 1) << 12 | p.at(x, y, 2) << 2); continue; } for (int c = 0; c < ch; c++) { if (bits == 8) o.u8(p.at(x, y, c)); else if (bits == 32) o.fbe(p.at(x, y, c) / 65535.f); else o.be16(p.at(x, y, c)); } } o.bset32(16, g.b.size());
    double M = bits == 16 || bits == 32 ? 65535 : bits == 10 ? 1023 : 255; Frame f; f.size(w, h); for (size_t i = 0; i < f.px.size(); i++) { double q[4] = {0, 0, 0, 1}; for (int c = 0; c < 3; c++) q[c] = p.v[i * ch + (ch == 1 ? 0 : c)] / M; if (ch == 4) q[3] = p.v[i * ch + 3] / M; f.px[i] = RGBAd{q[0], q[1], q[2], q[3]}; } g.frames = {f}; if (bits == 16 || bits == 32) g.tol = 1e-5; if (bits == 10) g.tol = 1.1 / 65535; char s[60]; snprintf(s, 60, "dpx desc%d bits%d", desc, bits); g.name = s; return g;
}
inline FileGen gen_mng(Rng &r) {
    FileGen p = gen_png(r); FileGen g; g.type = IL_MNG; g.ext = "mng"; BW o(g.b); static const unsigned char S[] = {0x8A, 'M', 'N', 'G', 13, 10, 0x1A, 10}; o.raw(S, 8); Bytes c; BW q(c); q.str("MHDR"); q.be32(p.w()); q.be32(p.h()); q.be32(0); q.be32(1); q.be32(1); q.be32(0); q.be32(1); o.be32(28); o.raw(c.data(), c.size()); o.be32(crc32(0, c.data(), c.size())); o.raw(p.b.data() + 8, p.b.size() - 8); c.clear(); q.str("MEND"); o.be32(0); o.raw(c.data(), 4); o.be32(crc32(0, c.data(), 4)); g.name = "mng " + p.name; bool opaque = p.name.find("interlaced") == std::string::npos; for (auto &x : p.frames[0].px) opaque &= x.a == 1; if (opaque) { g.frames = p.frames; g.tol = 1.01 / 255; } return g; }
inline FileGen gen_raw(Rng &r) { FileGen g; g.type = IL_RAW; g.ext = "raw"; g.sniff = false; int w, h; rnd_size(r, w, h); int ch = r.pick({1, 3, 4}); Px p = rnd_px(r, w, h, ch, 255); BW o(g.b); o.le32(w); o.le32(h); o.le32(1); o.u8(ch); o.u8(1); for (auto v : p.v) o.u8(v); Frame f; px_frame(f, p); g.frames = {f}; char s[30]; snprintf(s, 30, "raw ch%d", ch); g.name = s; return g; }
static const FmtGen WILDGENS[] = {{"cut", gen_cut, 1}, {"doom", gen_doom, 1}, {"ilbm", gen_ilbm, 2}, {"iff", gen_iff, 1}, {"pcd", gen_pcd, 1}, {"mdl", gen_mdl, 1}, {"lif", gen_lif, 1}, {"psp", gen_psp, 2}, {"icns", gen_icns, 1}, {"tpl", gen_tpl, 2}, {"fits", gen_fits, 1}, {"dicom", gen_dicom, 1}, {"blp", gen_blp, 2}, {"rot", gen_rot, 1}, {"texture", gen_texture, 1}, {"ktx", gen_ktx, 1}, {"utx", gen_utx, 1}, {"mp3", gen_mp3, 1}, {"scitex", gen_scitex, 1}, {"iwi", gen_iwi, 1}, {"pic", gen_pic, 1}, {"pix", gen_pix, 1}, {"pxr", gen_pxr, 1}, {"wal", gen_wal, 1}, {"ftx", gen_ftx, 1}, {"xpm", gen_xpm, 1}, {"vtf", gen_vtf, 2}, {"dpx", gen_dpx, 1}, {"mng", gen_mng, 1}, {"raw", gen_raw, 1}};
inline FileGen gen_wild(Rng &r, const char *only = "") { int tot = 0; auto wt = [](const FmtGen &g) { return g.weight * 50 - (g.gen == gen_pcd ? 35 : 0); }; auto is = [&](const FmtGen &g) { return !*only || !strcmp(only, g.name); }; for (auto &g : WILDGENS) if (is(g)) tot += wt(g); if (!tot) vh_error("no generator %s", only); int k = r.below(tot); for (auto &g : WILDGENS) if (is(g) && (k -= wt(g)) < 0) { FileGen f = g.gen(r); f.sniff = false; for (ILenum t : {IL_BLP, IL_ICNS, IL_ILBM, IL_IWI, IL_KTX, IL_LIF, IL_MDL, IL_MP3, IL_PIC, IL_PSP, IL_SCITEX, IL_TPL, IL_VTF, IL_XPM}) f.sniff |= f.type == t; return f; } return FileGen(); }
// a file of any format
inline FileGen gen_any(Rng &r, const char *only = "") { if (*only) { for (auto &g : WILDGENS) if (!strcmp(g.name, only)) return gen_wild(r, only); return gen_file(r, only); } return r.chance(50) ? gen_wild(r) : gen_file(r); }
