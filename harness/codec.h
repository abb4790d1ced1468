// Independent encoders of image files, written from the format specifications (PNG, TIFF and JPEG through their reference
// libraries): gen_file() makes a random well-formed file of a format together with the picture it defines.
#pragma once
#include "img.h"
#include <zlib.h>
#include <png.h>
#include <jpeglib.h>
#include <tiffio.h>
#include <functional>

static const double ANYV = -12345.25; // a value that the file does not determine
struct Frame { int w = 0, h = 0; std::vector<RGBAd> px; RGBAd &at(int x, int y) { return px[(size_t)y * w + x]; } const RGBAd &at(int x, int y) const { return px[(size_t)y * w + x]; } void size(int W, int H) { w = W; h = H; px.assign((size_t)W * H, RGBAd{0, 0, 0, 1}); } };
struct FileGen {
    std::string name; ILenum type = 0; std::string ext; Bytes b;
    std::vector<Frame> frames;          // top row first; [0] is the base image, then the following frames
    double tol = 0.51 / 255;            // per channel
    bool alpha = true;                  // whether alpha is defined by the file
    bool rel = false;                   // tolerance relative to the brightest channel (HDR)
    bool sniff = true;                  // has a signature
    std::vector<Frame> slices;          // slices 1.. of a volume
    struct Sub { int face, mip; std::vector<Frame> slices; }; std::vector<Sub> subs; // cube faces and stored mipmap levels besides the base image
    bool mipped = false;                // subs lists all the levels
    std::vector<size_t> ends;           // where the file could also end, being complete
    int picnum = 2;                     // which picture of a PCD it describes
    bool anyflip = false;               // the layout leaves open which row is the first
    std::string extra_ext; Bytes extra; // companion file (palette of a CUT)
    int w() const { return frames.empty() ? 0 : frames[0].w; } int h() const { return frames.empty() ? 0 : frames[0].h; }
};
struct BW { Bytes &b; explicit BW(Bytes &x) : b(x) {}
    void u8(int v) { b.push_back((uint8_t)v); } void le16(int v) { u8(v); u8(v >> 8); } void le32(uint32_t v) { le16(v & 0xffff); le16(v >> 16); } void be16(int v) { u8(v >> 8); u8(v); } void be32(uint32_t v) { be16(v >> 16); be16(v & 0xffff); }
    void str(const char *s) { while (*s) u8(*s++); } void raw(const void *p, size_t n) { b.insert(b.end(), (const uint8_t *)p, (const uint8_t *)p + n); } void zero(size_t n) { b.insert(b.end(), n, 0); } void fle(float f) { uint32_t u; memcpy(&u, &f, 4); le32(u); } void fbe(float f) { uint32_t u; memcpy(&u, &f, 4); be32(u); }
    void set32(size_t at, uint32_t v) { for (int i = 0; i < 4; i++) b[at + i] = v >> (8 * i); } void set16(size_t at, int v) { b[at] = v; b[at + 1] = v >> 8; } void bset32(size_t at, uint32_t v) { for (int i = 0; i < 4; i++) b[at + i] = v >> (24 - 8 * i); } };

// ---- source pictures ----
struct Px { int w, h; std::vector<uint16_t> v; int ch; uint16_t &at(int x, int y, int c) { return v[((size_t)y * w + x) * ch + c]; } };
// values 0..maxv; contents with runs, noise, gradients, constants
inline Px rnd_px(Rng &r, int w, int h, int ch, int maxv) {
    Px p; p.w = w; p.h = h; p.ch = ch; p.v.resize((size_t)w * h * ch); int kind = r.below(6); std::vector<uint16_t> few; for (int i = 0; i < 4 * ch; i++) few.push_back(r.below(maxv + 1)); few[0] = maxv; int run = 0, sel = 0;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { if (run-- <= 0) { run = r.chance(50) ? 0 : r.below(9); if (r.chance(3)) run = r.below(400); sel = r.below(4); }
        for (int c = 0; c < ch; c++) { int v; switch (kind) { case 0: v = few[c]; break; case 1: v = (int)((int64_t)maxv * (x + y * (c + 1)) / (w + h * (c + 1))); break; case 2: v = r.below(maxv + 1); break; case 3: v = few[sel * ch + c]; break; case 4: v = r.chance(60) ? few[sel * ch + c] : (int)r.below(maxv + 1); break; default: v = r.chance(50) ? maxv : 0; } p.at(x, y, c) = v; } }
    return p;
}
inline void rnd_size(Rng &r, int &w, int &h, int mx = 40) { w = rnd_dim(r, mx); h = rnd_dim(r, mx); if (r.below(60) == 0) { w = r.pick({127, 128, 129, 130, 255, 256, 257, 300, 513}); h = r.range(1, 4); } else if (r.below(60) == 0) { h = r.pick({127, 128, 129, 255, 256, 257, 300}); w = r.range(1, 4); } }
inline RGBAd rgb8(int r, int g, int b, int a = 255) { return RGBAd{r / 255., g / 255., b / 255., a / 255.}; }
inline std::vector<RGBAd> rnd_pal(Rng &r, int n) { std::vector<RGBAd> p; for (int i = 0; i < n; i++) p.push_back(rgb8(r.below(256), r.below(256), r.below(256))); return p; }
inline int b255(double v) { return (int)(v * 255 + 0.5); }

// ---- BMP ----
inline FileGen gen_bmp(Rng &r) {
    FileGen g; g.type = IL_BMP; g.ext = "bmp"; int w, h; rnd_size(r, w, h); int kind = r.below(11); static const int BPP[] = {1, 4, 8, 24, 32, 16, 16, 8, 4, 24, 32}; int bpp = BPP[kind]; bool rle = kind == 7 || kind == 8; bool os2 = !rle && bpp != 16 && bpp != 32 && r.chance(20); bool top = !rle && !os2 && r.chance(25);
    bool bf = kind == 6 || kind == 10; uint32_t m[3] = {0x7C00, 0x3E0, 0x1F}; if (kind == 6) { if (r.chance(60)) { m[0] = 0xF800; m[1] = 0x7E0; m[2] = 0x1F; } } else if (kind == 10) { m[0] = 0xFF0000; m[1] = 0xFF00; m[2] = 0xFF; if (r.chance(50)) std::swap(m[0], m[2]); }
    Frame f; f.size(w, h); int ncol = bpp <= 8 ? 1 << bpp : 0; int used = ncol; if (ncol && !os2 && r.chance(40)) used = r.range(1, ncol); auto pal = rnd_pal(r, used); std::vector<uint8_t> idx;
    Bytes body; BW o(body);
    if (bpp <= 8) { Px p = rnd_px(r, w, h, 1, used - 1); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f.at(x, y) = pal[p.at(x, y, 0)];
        for (int yy = 0; yy < h; yy++) { int y = top ? yy : h - 1 - yy; size_t start = body.size();
            if (!rle) { int acc = 0, nb = 0; for (int x = 0; x < w; x++) { acc = acc << bpp | p.at(x, y, 0); nb += bpp; if (nb == 8) { o.u8(acc); acc = nb = 0; } } if (nb) o.u8(acc << (8 - nb)); while ((body.size() - start) & 3) o.u8(r.below(2) * 0xA5); }
            else { int x = 0; while (x < w) { int n = 1; if (bpp == 8) { while (x + n < w && n < 255 && p.at(x + n, y, 0) == p.at(x, y, 0)) n++; } else { while (x + n < w && n < 255 && p.at(x + n, y, 0) == p.at(x + (n & 1), y, 0)) n++; }
                if (n >= 3 || w - x < 3 || r.chance(30)) { o.u8(n); o.u8(bpp == 8 ? p.at(x, y, 0) : p.at(x, y, 0) << 4 | (n > 1 ? p.at(x + 1, y, 0) : 0)); x += n; }
                else { int k = std::min(w - x, r.range(3, 20)); o.u8(0); o.u8(k); if (bpp == 8) { for (int i = 0; i < k; i++) o.u8(p.at(x + i, y, 0)); if (k & 1) o.u8(0); } else { for (int i = 0; i < k; i += 2) o.u8(p.at(x + i, y, 0) << 4 | (i + 1 < k ? p.at(x + i + 1, y, 0) : 0)); if (((k + 1) / 2) & 1) o.u8(0); } x += k; } }
                if (yy == h - 1) { if (r.chance(30)) { o.u8(0); o.u8(0); } o.u8(0); o.u8(1); } else { o.u8(0); o.u8(0); } } }
    } else { bool big = bpp >= 24; Px p = rnd_px(r, w, h, 3, big ? 255 : 31); auto scale = [&](int c, int v) { if (big) return v / 255.; int bits = __builtin_popcount(m[c]); if (bits == 6) return v / 63.; return v / 31.; };
        if (!big && m[1] == 0x7E0) for (int i = 0; i < w * h; i++) p.v[i * 3 + 1] = r.below(64);
        for (int yy = 0; yy < h; yy++) { int y = top ? yy : h - 1 - yy; size_t start = body.size(); for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, y); q.r = scale(0, p.at(x, y, 0)); q.g = scale(1, p.at(x, y, 1)); q.b = scale(2, p.at(x, y, 2));
            if (bpp == 24 || (bpp == 32 && !bf)) { o.u8(p.at(x, y, 2)); o.u8(p.at(x, y, 1)); o.u8(p.at(x, y, 0)); if (bpp == 32) o.u8(r.chance(50) ? 0 : 255); } else { uint32_t v = 0; for (int c = 0; c < 3; c++) v |= (uint32_t)p.at(x, y, c) << __builtin_ctz(m[c]); if (bpp == 16) o.le16(v); else o.le32(v); } }
            while ((body.size() - start) & 3) o.u8(0); } }
    BW hd(g.b); hd.str("BM"); hd.le32(0); hd.le32(0); hd.le32(0); if (os2) { hd.le32(12); hd.le16(w); hd.le16(h); hd.le16(1); hd.le16(bpp); } else { hd.le32(40); hd.le32(w); hd.le32(top ? -h : h); hd.le16(1); hd.le16(bpp); hd.le32(rle ? (bpp == 8 ? 1 : 2) : bf ? 3 : 0); hd.le32(rle || r.chance(50) ? body.size() : 0); hd.le32(2835); hd.le32(2835); hd.le32(ncol && used != ncol ? used : 0); hd.le32(0); }
    if (bf) for (int c = 0; c < 3; c++) hd.le32(m[c]); for (int i = 0; i < used; i++) { hd.u8(b255(pal[i].b)); hd.u8(b255(pal[i].g)); hd.u8(b255(pal[i].r)); if (!os2) hd.u8(0); }
    if (r.chance(15)) hd.zero(r.range(1, 40)); hd.set32(10, g.b.size()); g.b.insert(g.b.end(), body.begin(), body.end()); hd.set32(2, g.b.size());
    if (bpp == 16) g.tol = 9. / 255; g.frames = {f}; g.alpha = false; char n[80]; snprintf(n, 80, "bmp bpp%d%s%s%s%s", bpp, rle ? " rle" : "", os2 ? " os2" : "", top ? " topdown" : "", bf ? m[0] == 0x7C00 ? " bf555" : m[0] == 0xF800 ? " bf565" : m[0] == 0xFF ? " bfrgb" : " bfbgr" : ""); g.name = n; return g;
}
// ---- TGA ----
inline FileGen gen_tga(Rng &r) {
    FileGen g; g.type = IL_TGA; g.ext = r.pick({"tga", "vda", "icb", "vst"}); int w, h; rnd_size(r, w, h); int it = r.pick({1, 2, 3}); bool rle = r.chance(50); int bpp = it == 2 ? r.pick({16, 24, 32}) : 8; int first = 0, n = 0, mbpp = it == 1 ? r.pick({24, 24, 32, 16}) : 0; bool top = r.chance(50); Frame f; f.size(w, h);
    if (it == 1) { n = r.range(1, 256); } auto pal = rnd_pal(r, n); int maxv = it == 1 ? n - 1 : bpp == 16 ? 31 : 255; int ch = it == 2 ? (bpp == 32 ? 4 : 3) : 1; Px p = rnd_px(r, w, h, ch, maxv); if (it == 1 && r.chance(20)) first = 0;
    if (it == 1) for (auto &c : pal) if (mbpp == 16) { c.r = r.below(32) / 31.; c.g = r.below(32) / 31.; c.b = r.below(32) / 31.; } else if (mbpp == 32) c.a = r.below(256) / 255.;
    if (mbpp == 16 || bpp == 16) g.tol = 8.6 / 255; int abits = bpp == 32 ? 8 : bpp == 16 ? 0 : 0;
    BW o(g.b); int idl = r.chance(40) ? r.range(1, 255) : 0; o.u8(idl); o.u8(it == 1); o.u8(it + (rle ? 8 : 0)); o.le16(first); o.le16(n); o.u8(mbpp); o.le16(0); o.le16(0); o.le16(w); o.le16(h); o.u8(bpp); o.u8((top ? 0x20 : 0) | abits); for (int i = 0; i < idl; i++) o.u8(r.below(256));
    for (auto &c : pal) if (mbpp == 16) o.le16((int)(c.r * 31 + .5) << 10 | (int)(c.g * 31 + .5) << 5 | (int)(c.b * 31 + .5)); else { o.u8(b255(c.b)); o.u8(b255(c.g)); o.u8(b255(c.r)); if (mbpp == 32) o.u8(b255(c.a)); }
    auto pix = [&](int x, int y) { if (it == 1 || it == 3) o.u8(p.at(x, y, 0)); else if (bpp == 16) o.le16(p.at(x, y, 0) << 10 | p.at(x, y, 1) << 5 | p.at(x, y, 2)); else { o.u8(p.at(x, y, 2)); o.u8(p.at(x, y, 1)); o.u8(p.at(x, y, 0)); if (bpp == 32) o.u8(p.at(x, y, 3)); } };
    auto same = [&](int x, int y, int x2) { for (int c = 0; c < ch; c++) if (p.at(x, y, c) != p.at(x2, y, c)) return false; return true; };
    for (int yy = 0; yy < h; yy++) { int y = top ? yy : h - 1 - yy; for (int x = 0; x < w;) { if (!rle) { pix(x++, y); continue; } int k = 1; while (x + k < w && k < 128 && same(x, y, x + k)) k++; if (k > 1 || r.chance(10)) { o.u8(0x80 | (k - 1)); pix(x, y); x += k; } else { int q = std::min(w - x, r.range(1, r.chance(10) ? 128 : 12)); o.u8(q - 1); while (q--) pix(x++, y); } } }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, y); if (it == 1) q = pal[p.at(x, y, 0)]; else if (it == 3) q.r = q.g = q.b = p.at(x, y, 0) / 255.; else { double M = bpp == 16 ? 31. : 255.; q.r = p.at(x, y, 0) / M; q.g = p.at(x, y, 1) / M; q.b = p.at(x, y, 2) / M; if (bpp == 32) q.a = p.at(x, y, 3) / 255.; } }
    if (r.chance(40)) { o.le32(0); o.le32(0); o.str("TRUEVISION-XFILE."); o.u8(0); } g.alpha = bpp == 32 || mbpp == 32 || it == 3; g.frames = {f}; g.sniff = true; char nm[80]; snprintf(nm, 80, "tga type%d bpp%d map%d%s%s%s", it + (rle ? 8 : 0), bpp, mbpp, top ? " top" : "", idl ? " id" : "", ""); g.name = nm; return g;
}
// ---- PNG (libpng) ----
inline void png_to_vec(png_structp p, png_bytep d, png_size_t n) { Bytes *b = (Bytes *)png_get_io_ptr(p); b->insert(b->end(), d, d + n); } inline void png_noflush(png_structp) {}
inline FileGen gen_png(Rng &r) {
    FileGen g; g.type = IL_PNG; g.ext = "png"; int w, h; rnd_size(r, w, h); int ct = r.pick({0, 2, 3, 4, 6}); int bd = ct == 0 ? r.pick({1, 2, 4, 8, 16}) : ct == 3 ? r.pick({1, 2, 4, 8}) : r.pick({8, 16}); int ch = ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4; bool inter = r.chance(35), trns = ct == 3 ? r.chance(40) : (ct == 0 || ct == 2) && r.chance(25); int n = ct == 3 ? r.range(1, 1 << bd) : 0, maxv = ct == 3 ? n - 1 : (1 << bd) - 1; auto pal = rnd_pal(r, n); Px p = rnd_px(r, w, h, ch, maxv); Frame f; f.size(w, h);
    png_structp P = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop I = png_create_info_struct(P); png_set_write_fn(P, &g.b, png_to_vec, png_noflush); png_set_IHDR(P, I, w, h, bd, ct, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    std::vector<png_color> pc(n ? n : 1); std::vector<png_byte> ta; png_color_16 tc; memset(&tc, 0, sizeof tc); if (n) { for (int i = 0; i < n; i++) { pc[i].red = b255(pal[i].r); pc[i].green = b255(pal[i].g); pc[i].blue = b255(pal[i].b); } png_set_PLTE(P, I, pc.data(), n); }
    if (trns && ct == 3) { int k = r.range(1, n); for (int i = 0; i < k; i++) { ta.push_back(r.pick({0, 255, 128, 77})); pal[i].a = ta[i] / 255.; } png_set_tRNS(P, I, ta.data(), k, NULL); } else if (trns) { int x = r.below(w), y = r.below(h); if (ct == 0) tc.gray = p.at(x, y, 0); else { tc.red = p.at(x, y, 0); tc.green = p.at(x, y, 1); tc.blue = p.at(x, y, 2); } png_set_tRNS(P, I, NULL, 0, &tc); }
    if (r.chance(20)) { png_text t; memset(&t, 0, sizeof t); t.compression = r.chance(50) ? PNG_TEXT_COMPRESSION_NONE : PNG_TEXT_COMPRESSION_zTXt; t.key = (char *)"Title"; t.text = (char *)"a title"; t.text_length = 7; png_set_text(P, I, &t, 1); }
    if (r.chance(30)) png_set_filter(P, 0, r.pick({PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH, PNG_ALL_FILTERS})); png_set_compression_level(P, r.below(10));
    png_write_info(P, I); std::vector<Bytes> rows(h); std::vector<png_bytep> rp(h); for (int y = 0; y < h; y++) { Bytes &b = rows[y]; BW o(b); int acc = 0, nb = 0; for (int x = 0; x < w; x++) for (int c = 0; c < ch; c++) { int v = p.at(x, y, c); if (bd == 16) o.be16(v); else { acc = acc << bd | v; nb += bd; if (nb == 8) { o.u8(acc); acc = nb = 0; } } } if (nb) o.u8(acc << (8 - nb)); rp[y] = b.data(); }
    png_write_image(P, rp.data()); png_write_end(P, I); png_destroy_write_struct(&P, &I);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, y); double M = (1 << bd) - 1; if (ct == 3) q = pal[p.at(x, y, 0)]; else if (ct == 0 || ct == 4) { q.r = q.g = q.b = p.at(x, y, 0) / M; if (ct == 4) q.a = p.at(x, y, 1) / M; if (trns && p.at(x, y, 0) == tc.gray) q.a = 0; } else { q.r = p.at(x, y, 0) / M; q.g = p.at(x, y, 1) / M; q.b = p.at(x, y, 2) / M; if (ct == 6) q.a = p.at(x, y, 3) / M; if (trns && p.at(x, y, 0) == tc.red && p.at(x, y, 1) == tc.green && p.at(x, y, 2) == tc.blue) q.a = 0; } }
    if (bd == 16) g.tol = 0.6 / 65535; g.frames = {f}; char nm[80]; snprintf(nm, 80, "png ct%d bd%d%s%s", ct, bd, inter ? " interlaced" : "", trns ? " trns" : ""); g.name = nm; return g;
}
// ---- TIFF (libtiff) ----
struct TMem { Bytes b; size_t pos = 0; };
inline tsize_t tm_rd(thandle_t h, tdata_t d, tsize_t n) { TMem *m = (TMem *)h; size_t k = m->pos < m->b.size() ? std::min((size_t)n, m->b.size() - m->pos) : 0; memcpy(d, m->b.data() + m->pos, k); m->pos += k; return k; }
inline tsize_t tm_wr(thandle_t h, tdata_t d, tsize_t n) { TMem *m = (TMem *)h; if (m->b.size() < m->pos + n) m->b.resize(m->pos + n); memcpy(m->b.data() + m->pos, d, n); m->pos += n; return n; }
inline toff_t tm_sk(thandle_t h, toff_t o, int w) { TMem *m = (TMem *)h; m->pos = w == SEEK_SET ? o : w == SEEK_CUR ? m->pos + o : m->b.size() + o; return m->pos; }
inline int tm_cl(thandle_t) { return 0; } inline toff_t tm_sz(thandle_t h) { return ((TMem *)h)->b.size(); } inline int tm_map(thandle_t, tdata_t *, toff_t *) { return 0; } inline void tm_un(thandle_t, tdata_t, toff_t) {}
inline void tif_quiet() { TIFFSetErrorHandler(NULL); TIFFSetWarningHandler(NULL); }
inline FileGen gen_tif(Rng &r) {
    FileGen g; g.type = IL_TIF; g.ext = r.pick({"tif", "tiff"}); int pages = r.chance(20) ? r.range(2, 3) : 1; TMem m; tif_quiet(); TIFF *t = TIFFClientOpen("m", r.chance(50) ? "wl" : "wb", &m, tm_rd, tm_wr, tm_sk, tm_cl, tm_sz, tm_map, tm_un); std::string nm = "tif";
    for (int pg = 0; pg < pages; pg++) { int w, h; rnd_size(r, w, h); int k = r.below(7); int ph = k == 0 ? PHOTOMETRIC_MINISBLACK : k == 1 ? PHOTOMETRIC_MINISWHITE : k == 2 ? PHOTOMETRIC_PALETTE : PHOTOMETRIC_RGB; int ch = k <= 2 ? 1 : k == 5 ? 4 : 3; int bits = k <= 1 ? r.pick({1, 8, 8, 16}) : k == 2 ? r.pick({4, 8, 8}) : r.pick({8, 8, 16}); int maxv = (1 << bits) - 1; bool planar = ch > 1 && bits == 8 && r.chance(25); bool tiled = r.chance(25) && !(ch == 1 && bits == 16); int comp = r.pick({COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_ADOBE_DEFLATE, COMPRESSION_NONE}); if (tiled && comp == COMPRESSION_NONE) comp = COMPRESSION_LZW; /* libtiff 4.5 itself misreads the others */ int orient = r.chance(25) ? ORIENTATION_BOTLEFT : ORIENTATION_TOPLEFT; bool alpha = ch == 4;
        Px p = rnd_px(r, w, h, ch, maxv); TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, h); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, bits); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, ch); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, ph); TIFFSetField(t, TIFFTAG_COMPRESSION, comp); TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG); TIFFSetField(t, TIFFTAG_ORIENTATION, orient); if (alpha) { uint16_t ex = EXTRASAMPLE_UNASSALPHA; TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &ex); }
        if (comp == COMPRESSION_LZW && bits >= 8 && r.chance(40)) TIFFSetField(t, TIFFTAG_PREDICTOR, 2); std::vector<uint16_t> cm[3]; if (ph == PHOTOMETRIC_PALETTE) { for (auto &c : cm) for (int i = 0; i <= maxv; i++) c.push_back(r.below(256) * 257); TIFFSetField(t, TIFFTAG_COLORMAP, cm[0].data(), cm[1].data(), cm[2].data()); }
        auto pack = [&](int x0, int y0, int W, int H, int c0, int nc) { Bytes b; BW o(b); for (int y = y0; y < y0 + H; y++) { int acc = 0, nb = 0; for (int x = x0; x < x0 + W; x++) for (int c = c0; c < c0 + nc; c++) { int v = x < w && y < h ? p.at(x, y, c) : 0; if (bits == 16) o.le16(v); else { acc = acc << bits | v; nb += bits; if (nb == 8) { o.u8(acc); acc = nb = 0; } } } if (nb) o.u8(acc << (8 - nb)); } return b; };
        if (tiled) { int tw = 16 * r.range(1, 3), th = 16 * r.range(1, 3); TIFFSetField(t, TIFFTAG_TILEWIDTH, tw); TIFFSetField(t, TIFFTAG_TILELENGTH, th); for (int c = 0; c < (planar ? ch : 1); c++) for (int y = 0; y < h; y += th) for (int x = 0; x < w; x += tw) { Bytes b = pack(x, y, tw, th, c, planar ? 1 : ch); TIFFWriteEncodedTile(t, TIFFComputeTile(t, x, y, 0, c), b.data(), b.size()); } }
        else { int rps = r.chance(30) ? h : r.range(1, h); TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps); for (int c = 0; c < (planar ? ch : 1); c++) for (int y = 0; y < h; y += rps) { Bytes b = pack(0, y, w, std::min(rps, h - y), c, planar ? 1 : ch); TIFFWriteEncodedStrip(t, TIFFComputeStrip(t, y, c), b.data(), b.size()); } }
        TIFFWriteDirectory(t); Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, orient == ORIENTATION_BOTLEFT ? h - 1 - y : y); double M = maxv; if (ph == PHOTOMETRIC_PALETTE) { int v = p.at(x, y, 0); q.r = cm[0][v] / 65535.; q.g = cm[1][v] / 65535.; q.b = cm[2][v] / 65535.; } else if (ch == 1) { q.r = q.g = q.b = ph == PHOTOMETRIC_MINISWHITE ? 1 - p.at(x, y, 0) / M : p.at(x, y, 0) / M; } else { q.r = p.at(x, y, 0) / M; q.g = p.at(x, y, 1) / M; q.b = p.at(x, y, 2) / M; if (ch == 4) q.a = p.at(x, y, 3) / M; } }
        g.frames.push_back(f); char b[90]; snprintf(b, 90, " [ph%d ch%d bits%d comp%d%s%s or%d]", ph, ch, bits, comp, planar ? " planar" : "", tiled ? " tiled" : "", orient); nm += b; }
    TIFFClose(t); g.b = m.b; g.name = nm; g.tol = 1.01 / 255; return g;
}
// ---- SGI ----
inline FileGen gen_sgi(Rng &r) {
    FileGen g; g.type = IL_SGI; int w, h; rnd_size(r, w, h); int ch = r.pick({1, 3, 4, 2}); if (ch == 2) ch = 3; g.ext = ch == 1 ? "bw" : ch == 3 ? "rgb" : "rgba"; if (r.chance(40)) g.ext = "sgi"; int bpc = r.pick({1, 1, 2}); bool rle = r.chance(50); int maxv = bpc == 1 ? 255 : 65535; Px p = rnd_px(r, w, h, ch, maxv); int dim = ch > 1 ? 3 : r.chance(50) ? 2 : 3;
    BW o(g.b); o.be16(474); o.u8(rle); o.u8(bpc); o.be16(dim); o.be16(w); o.be16(h); o.be16(ch); o.be32(0); o.be32(maxv); o.be32(0); o.str("test"); o.zero(76); o.be32(0); o.zero(404);
    auto put = [&](int v) { if (bpc == 1) o.u8(v); else o.be16(v); };
    if (!rle) { for (int c = 0; c < ch; c++) for (int y = h - 1; y >= 0; y--) for (int x = 0; x < w; x++) put(p.at(x, y, c)); }
    else { size_t tab = g.b.size(), n = (size_t)h * ch; o.zero(n * 8); for (int c = 0; c < ch; c++) for (int y = h - 1; y >= 0; y--) { size_t s = g.b.size(); for (int x = 0; x < w;) { int k = 1; while (x + k < w && k < 127 && p.at(x + k, y, c) == p.at(x, y, c)) k++; if (k > 2 || r.chance(10)) { put(k); put(p.at(x, y, c)); x += k; } else { int q = std::min(w - x, r.range(1, r.chance(10) ? 127 : 9)); put(0x80 | q); while (q--) put(p.at(x++, y, c)); } } put(0); size_t i = (size_t)c * h + (h - 1 - y); o.bset32(tab + i * 4, s); o.bset32(tab + n * 4 + i * 4, g.b.size() - s); } }
    Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, y); double M = maxv; if (ch == 1) q.r = q.g = q.b = p.at(x, y, 0) / M; else { q.r = p.at(x, y, 0) / M; q.g = p.at(x, y, 1) / M; q.b = p.at(x, y, 2) / M; if (ch == 4) q.a = p.at(x, y, 3) / M; } }
    if (bpc == 2) g.tol = 0.6 / 65535; g.frames = {f}; char nm[80]; snprintf(nm, 80, "sgi ch%d bpc%d dim%d%s", ch, bpc, dim, rle ? " rle" : ""); g.name = nm; return g;
}
// ---- PNM ----
inline FileGen gen_pnm(Rng &r) {
    FileGen g; g.type = IL_PNM; int w, h; rnd_size(r, w, h); int P = r.range(1, 6); int base = (P - 1) % 3; g.ext = base == 0 ? "pbm" : base == 1 ? "pgm" : "ppm"; if (r.chance(20)) g.ext = "pnm"; bool bin = P > 3; int ch = base == 2 ? 3 : 1; int maxv = base == 0 ? 1 : r.pick({255, 255, 1, 15, 100, 254, bin ? 65535 : 255, bin ? 1000 : 255}); Px p = rnd_px(r, w, h, ch, maxv);
    std::string s; char t[64]; snprintf(t, 64, "P%d", P); s = t; auto ws = [&] { if (r.chance(15)) return std::string("\n# a comment line\n"); return std::string(r.pick({"\n", " ", "\n", "  ", "\t"})); };
    s += r.chance(20) ? "\n# created by hand\n" : "\n"; snprintf(t, 64, "%d", w); s += t; s += r.chance(80) ? std::string(" ") : ws(); snprintf(t, 64, "%d", h); s += t; if (base) { s += r.chance(80) ? std::string("\n") : ws(); snprintf(t, 64, "%d", maxv); s += t; } s += "\n"; BW o(g.b); o.str(s.c_str());
    if (bin) { for (int y = 0; y < h; y++) { if (base == 0) { int acc = 0, nb = 0; for (int x = 0; x < w; x++) { acc = acc << 1 | p.at(x, y, 0); if (++nb == 8) { o.u8(acc); acc = nb = 0; } } if (nb) o.u8(acc << (8 - nb)); } else for (int x = 0; x < w; x++) for (int c = 0; c < ch; c++) { if (maxv > 255) o.be16(p.at(x, y, c)); else o.u8(p.at(x, y, c)); } } }
    else { int col = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < ch; c++) { snprintf(t, 64, "%d", p.at(x, y, c)); if (col + strlen(t) > 65) { o.u8('\n'); col = 0; } o.str(t); o.u8(r.chance(10) ? '\n' : ' '); if (g.b.back() == '\n') col = 0; else col += strlen(t) + 1; } o.u8('\n'); }
    Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, y); double M = maxv; if (base == 0) q.r = q.g = q.b = p.at(x, y, 0) ? 0 : 1; else if (ch == 1) q.r = q.g = q.b = p.at(x, y, 0) / M; else { q.r = p.at(x, y, 0) / M; q.g = p.at(x, y, 1) / M; q.b = p.at(x, y, 2) / M; } }
    g.tol = 1.01 / 255; g.frames = {f}; snprintf(t, 64, "pnm P%d maxval%d", P, maxv); g.name = t; return g;
}
// ---- PCX ----
inline void pcx_body(Rng &r, BW &o, int w, int h, int bpp, int planes, int bpl, const std::function<int(int, int, int)> &byteof) { for (int y = 0; y < h; y++) for (int pl = 0; pl < planes; pl++) for (int i = 0; i < bpl;) { int v = byteof(y, pl, i), k = 1; while (i + k < bpl && k < 63 && byteof(y, pl, i + k) == v) k++; if (k == 1 && v < 0xC0) { o.u8(v); i++; } else if (k == 1 || k > 1) { o.u8(0xC0 | k); o.u8(v); i += k; } } }
inline FileGen gen_pcx(Rng &r, bool dcx = false) {
    FileGen g; g.type = IL_PCX; g.ext = "pcx"; int w, h; rnd_size(r, w, h); int kind = r.below(dcx ? 3 : 4); int bpp = kind == 2 || kind == 0 ? 8 : 1, planes = kind == 0 ? 1 : kind == 2 ? 3 : kind == 1 ? 1 : 4; if (kind == 1 && 0) planes = 1; int maxv = bpp == 8 ? 255 : (1 << planes) - 1; Px p = rnd_px(r, w, h, kind == 2 ? 3 : 1, maxv); int bpl = (w * bpp + 7) / 8; if (bpl & 1) bpl++; if (r.chance(10)) bpl += 2 * r.range(1, 4); auto pal = rnd_pal(r, kind == 0 ? 256 : 16);
    if (kind == 1) { pal[0] = rgb8(0, 0, 0); pal[1] = rgb8(255, 255, 255); } int x0 = r.chance(10) ? r.range(1, 100) : 0, y0 = r.chance(10) ? r.range(1, 100) : 0; BW o(g.b); o.u8(10); o.u8(5); o.u8(1); o.u8(bpp); o.le16(x0); o.le16(y0); o.le16(x0 + w - 1); o.le16(y0 + h - 1); o.le16(72); o.le16(72); for (int i = 0; i < 16; i++) if (kind == 0) { o.zero(3); } else { o.u8(b255(pal[i].r)); o.u8(b255(pal[i].g)); o.u8(b255(pal[i].b)); } o.u8(0); o.u8(planes); o.le16(bpl); o.le16(1); o.zero(58);
    pcx_body(r, o, w, h, bpp, planes, bpl, [&](int y, int pl, int i) { if (bpp == 8) return i < w ? (int)p.at(i, y, kind == 2 ? pl : 0) : 0; int v = 0; for (int b = 0; b < 8; b++) { int x = i * 8 + b; if (x < w && (p.at(x, y, 0) >> pl & 1)) v |= 0x80 >> b; } return v; });
    if (kind == 0) { o.u8(12); for (auto &c : pal) { o.u8(b255(c.r)); o.u8(b255(c.g)); o.u8(b255(c.b)); } }
    Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f.at(x, y) = kind == 2 ? rgb8(p.at(x, y, 0), p.at(x, y, 1), p.at(x, y, 2)) : pal[p.at(x, y, 0)]; g.frames = {f}; char nm[80]; snprintf(nm, 80, "pcx bpp%d planes%d%s", bpp, planes, x0 || y0 ? " offset" : ""); g.name = nm; return g;
}
inline FileGen gen_dcx(Rng &r) { FileGen g; g.type = IL_DCX; g.ext = "dcx"; int n = r.range(1, 4); BW o(g.b); o.le32(987654321); size_t tab = g.b.size(); bool full = r.chance(50); o.zero((full ? 1024 : n + 1) * 4); g.name = "dcx"; for (int i = 0; i < n; i++) { FileGen p = gen_pcx(r, true); o.set32(tab + 4 * i, g.b.size()); o.raw(p.b.data(), p.b.size()); g.frames.push_back(p.frames[0]); g.name += " [" + p.name + "]"; } return g; }
// ---- PSD ----
inline int pb_nop; // every how many packets a packet that does nothing is put in
inline void packbits(Bytes &out, const uint8_t *p, int n) { for (int i = 0, c = 0; i < n;) { if (pb_nop && ++c % pb_nop == 0) out.push_back(0x80); int k = 1; while (i + k < n && k < 128 && p[i + k] == p[i]) k++; if (k >= 3) { out.push_back(257 - k); out.push_back(p[i]); i += k; } else { int q = 1; while (i + q < n && q < 128 && !(i + q + 2 < n && p[i + q] == p[i + q + 1] && p[i + q] == p[i + q + 2])) q++; out.push_back(q - 1); out.insert(out.end(), p + i, p + i + q); i += q; } } }
inline FileGen gen_psd(Rng &r) {
    FileGen g; g.type = IL_PSD; g.ext = r.pick({"psd", "pdd"}); int w, h; rnd_size(r, w, h); int mode = r.pick({1, 3, 3, 2, 4}); int ch = mode == 3 ? r.pick({3, 4}) : mode == 4 ? r.pick({4, 4, 5}) : mode == 1 ? r.pick({1, 1, 2}) : 1; int bits = mode == 2 ? 8 : r.pick({8, 8, 16}); bool rle = r.chance(50); if (bits == 16 && mode == 1 && 0) bits = 8; int maxv = (1 << bits) - 1; Px p = rnd_px(r, w, h, ch, maxv); auto pal = rnd_pal(r, 256);
    BW o(g.b); o.str("8BPS"); o.be16(1); o.zero(6); o.be16(ch); o.be32(h); o.be32(w); o.be16(bits); o.be16(mode); if (mode == 2) { o.be32(768); for (int c = 0; c < 3; c++) for (auto &q : pal) o.u8(b255(c == 0 ? q.r : c == 1 ? q.g : q.b)); } else o.be32(0);
    if (r.chance(40)) { Bytes rs; BW q(rs); q.str("8BIM"); q.be16(1005); q.be16(0); q.be32(16); q.be32(72 << 16); q.be16(1); q.be16(1); q.be32(72 << 16); q.be16(1); q.be16(1); o.be32(rs.size()); o.raw(rs.data(), rs.size()); } else o.be32(0); o.be32(0); o.be16(rle);
    int nop = r.chance(20) ? r.range(1, 5) : 0; std::vector<Bytes> rows; for (int c = 0; c < ch; c++) for (int y = 0; y < h; y++) { Bytes b; BW q(b); for (int x = 0; x < w; x++) if (bits == 8) q.u8(p.at(x, y, c)); else q.be16(p.at(x, y, c)); if (rle) { Bytes e; pb_nop = nop; packbits(e, b.data(), b.size()); pb_nop = 0; b = e; } rows.push_back(b); }
    if (rle) for (auto &b : rows) o.be16(b.size()); for (auto &b : rows) o.raw(b.data(), b.size());
    Frame f; f.size(w, h); double M = maxv; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, y); if (mode == 2) q = pal[p.at(x, y, 0)]; else if (mode == 1) q.r = q.g = q.b = p.at(x, y, 0) / M; else if (mode == 4) { double k = p.at(x, y, 3) / M; q.r = p.at(x, y, 0) / M * k; q.g = p.at(x, y, 1) / M * k; q.b = p.at(x, y, 2) / M * k; if (ch == 5) q.a = p.at(x, y, 4) / M; } else { q.r = p.at(x, y, 0) / M; q.g = p.at(x, y, 1) / M; q.b = p.at(x, y, 2) / M; if (ch == 4) q.a = p.at(x, y, 3) / M; } }
    if (bits == 16) g.tol = 0.6 / 65535; if (mode == 4) g.tol = 0.55 / maxv + 1e-7; g.frames = {f}; char nm[80]; snprintf(nm, 80, "psd mode%d ch%d bits%d%s", mode, ch, bits, rle ? " rle" : ""); g.name = nm; return g;
}
// ---- Radiance HDR ----
inline void rgbe_of(float R, float G, float B, uint8_t o[4]) { float v = std::max(R, std::max(G, B)); if (v < 1e-32f) { o[0] = o[1] = o[2] = o[3] = 0; return; } int e; float s = frexpf(v, &e) * 256.f / v; o[0] = (uint8_t)(R * s); o[1] = (uint8_t)(G * s); o[2] = (uint8_t)(B * s); o[3] = (uint8_t)(e + 128); }
inline RGBAd rgbe_to(const uint8_t *p) { RGBAd q = {0, 0, 0, 1}; if (!p[3]) return q; double f = ldexp(1.0, p[3] - 136); q.r = p[0] * f; q.g = p[1] * f; q.b = p[2] * f; return q; }
inline FileGen gen_hdr(Rng &r) {
    FileGen g; g.type = IL_HDR; g.ext = "hdr"; int w, h; rnd_size(r, w, h); bool rle = w >= 8 && r.chance(60), old = !rle && r.chance(60); if (old && r.chance(8)) w = r.pick({256, 257, 258, 259, 300, 520, 700}), h = r.range(1, 3); if (old && r.below(80) == 0) w = r.range(65536, 66000), h = 1; std::vector<uint8_t> d((size_t)w * h * 4); int kind = r.below(3); uint8_t few[4][4]; for (auto &q : few) { q[0] = 128 + r.below(128); q[1] = r.below(256); q[2] = r.below(256); q[3] = r.range(120, 136); }
    for (int i = 0; i < w * h; i++) { uint8_t *q = &d[i * 4]; if (kind == 0) { q[0] = 128 + r.below(128); q[1] = r.below(256); q[2] = r.below(256); q[3] = r.range(118, 138); } else memcpy(q, few[kind == 1 ? (i / 5) % 4 : r.below(4)], 4); if (r.chance(3)) memset(q, 0, 4); if (old && i && (w > 60000 ? r.below(100000) : w > 100 ? r.below(300) : r.chance(60))) memcpy(q, q - 4, 4); if (!rle) { if (q[0] == 1 && q[1] == 1 && q[2] == 1) q[0] = 200; if (q[0] == 2 && q[1] == 2) q[0] = 200; } }
    BW o(g.b); o.str("#?RADIANCE\n"); if (r.chance(50)) o.str("# made by a test\n"); if (r.chance(30)) o.str("SOFTWARE=test\n"); o.str("FORMAT=32-bit_rle_rgbe\n\n"); char t[64]; snprintf(t, 64, "-Y %d +X %d\n", h, w); o.str(t);
    for (int y = 0; y < h; y++) { if (!rle && !old) { o.raw(&d[(size_t)y * w * 4], w * 4); continue; }
        if (old) { for (int x = 0; x < w;) { const uint8_t *q = &d[((size_t)y * w + x) * 4]; o.raw(q, 4); x++; int n = 0; while (x + n < w && !memcmp(q, q + (n + 1) * 4, 4)) n++; if (!n || r.chance(20)) continue; if (r.chance(10)) n = r.range(1, n); x += n; for (; n; n >>= 8) { o.u8(1); o.u8(1); o.u8(1); o.u8(n & 255); } } continue; } o.u8(2); o.u8(2); o.be16(w); for (int c = 0; c < 4; c++) for (int x = 0; x < w;) { auto at = [&](int i) { return d[((size_t)y * w + i) * 4 + c]; }; int k = 1; while (x + k < w && k < 127 && at(x + k) == at(x)) k++; if (k > 2) { o.u8(128 + k); o.u8(at(x)); x += k; } else { int n = std::min(w - x, r.range(1, r.chance(10) ? 128 : 9)); o.u8(n); while (n--) o.u8(at(x++)); } } }
    Frame f; f.size(w, h); for (int i = 0; i < w * h; i++) f.px[i] = rgbe_to(&d[i * 4]); g.frames = {f}; g.rel = true; g.tol = 1. / 128; g.name = rle ? "hdr rle" : old ? "hdr old rle" : "hdr flat"; return g;
}
// ---- DDS, uncompressed ----
// Block decoders, from the S3TC/BCn specifications; out: 16 pixels
inline void bc_colour(const uint8_t *b, RGBAd out[16], bool dxt1) {
    int c0 = b[0] | b[1] << 8, c1 = b[2] | b[3] << 8; auto ex = [](int c) { return RGBAd{(c >> 11) / 31., (c >> 5 & 63) / 63., (c & 31) / 31., 1}; }; auto mix = [](const RGBAd &a, const RGBAd &b, double t) { return RGBAd{a.r * (1 - t) + b.r * t, a.g * (1 - t) + b.g * t, a.b * (1 - t) + b.b * t, 1}; };
    RGBAd p[4] = {ex(c0), ex(c1)}; if (!dxt1 || c0 > c1) { p[2] = mix(p[0], p[1], 1 / 3.); p[3] = mix(p[0], p[1], 2 / 3.); } else { p[2] = mix(p[0], p[1], .5); p[3] = RGBAd{0, 0, 0, 0}; }
    uint32_t m = b[4] | b[5] << 8 | b[6] << 16 | (uint32_t)b[7] << 24; for (int i = 0; i < 16; i++) out[i] = p[m >> (2 * i) & 3];
}
inline void bc_alpha(const uint8_t *b, double out[16]) { double a0 = b[0] / 255., a1 = b[1] / 255., p[8] = {a0, a1}; if (b[0] > b[1]) for (int i = 1; i < 7; i++) p[i + 1] = (a0 * (7 - i) + a1 * i) / 7; else { for (int i = 1; i < 5; i++) p[i + 1] = (a0 * (5 - i) + a1 * i) / 5; p[6] = 0; p[7] = 1; } uint64_t m = 0; for (int i = 0; i < 6; i++) m |= (uint64_t)b[2 + i] << (8 * i); for (int i = 0; i < 16; i++) out[i] = p[m >> (3 * i) & 7]; }
// one image in blocks; kind 1..5: DXT1..DXT5, 6: ATI1N, 7: RXGB, 8: 3Dc (a normal; y before x, z of unit length)
inline Frame bc_decode(const uint8_t *b, int w, int h, int kind) {
    Frame f; f.size(w, h); for (int y = 0; y < h; y += 4) for (int x = 0; x < w; x += 4) { RGBAd c[16]; double a[16]; if (kind == 1) { bc_colour(b, c, true); b += 8; } else if (kind == 6) { bc_alpha(b, a); for (int i = 0; i < 16; i++) c[i] = RGBAd{a[i], a[i], a[i], 1}; b += 8; } else if (kind == 8) { double Y[16]; bc_alpha(b, Y); bc_alpha(b + 8, a); for (int i = 0; i < 16; i++) { double X = a[i] * 255 - 127.5, W = Y[i] * 255 - 127.5, t = 127.5 * 127.5 - X * X - W * W; c[i] = RGBAd{a[i], Y[i], t > 10000 ? (127.5 + sqrt(t)) / 255 : t < -2000 ? .5 : ANYV, 1}; a[i] = 1; } b += 16; }
        else { bc_colour(b + 8, c, false); if (kind <= 3) for (int i = 0; i < 16; i++) a[i] = (b[i / 2] >> (4 * (i & 1)) & 15) / 15.; else bc_alpha(b, a); b += 16;
            for (int i = 0; i < 16; i++) { if (kind == 7) { c[i].r = a[i]; continue; } c[i].a = a[i]; if ((kind == 2 || kind == 4) && a[i] > 0) { c[i].r = std::min(1., c[i].r / a[i]); c[i].g = std::min(1., c[i].g / a[i]); c[i].b = std::min(1., c[i].b / a[i]); } } }
        for (int i = 0; i < 16; i++) if (x + i % 4 < w && y + i / 4 < h) f.at(x + i % 4, y + i / 4) = c[i]; }
    return f;
}
inline size_t bc_size(int w, int h, int kind) { return (size_t)((w + 3) / 4) * ((h + 3) / 4) * (kind == 1 || kind == 6 ? 8 : 16); }
inline Bytes rnd_blocks(Rng &r, int w, int h, int kind) { Bytes b(bc_size(w, h, kind)); int bs = kind == 1 || kind == 6 ? 8 : 16; for (size_t o = 0; o < b.size(); o += bs) { for (int i = 0; i < bs; i++) b[o + i] = r.below(256); if (kind == 2) for (int i = 0; i < 8; i++) b[o + i] |= 0x88; if (kind == 4) { b[o] = 128 + r.below(128); b[o + 1] = r.range(128, b[o]); if (b[o] == b[o + 1]) for (int i = 2; i < 8; i++) b[o + i] = 0; } if (r.chance(10)) memset(&b[o + bs - 8], r.chance(50) ? 0 : 255, 4); } return b; }
inline double half_d(uint16_t h) { int e = h >> 10 & 31, m = h & 1023; double v = e == 0 ? m / 1024. / 16384 : (1 + m / 1024.) * pow(2., e - 15); return h & 0x8000 ? -v : v; }
// ---- DDS ----
inline FileGen gen_dds(Rng &r) {
    FileGen g; g.type = IL_DDS; g.ext = "dds"; int w, h; rnd_size(r, w, h); struct M { int bits; uint32_t m[4]; bool lum; const char *n; int bc; uint32_t cc; int fl, fch; };
    static const M ms[] = {{24, {0xFF0000, 0xFF00, 0xFF, 0}, false, "r8g8b8"}, {32, {0xFF0000, 0xFF00, 0xFF, 0xFF000000}, false, "a8r8g8b8"}, {32, {0xFF, 0xFF00, 0xFF0000, 0xFF000000}, false, "a8b8g8r8"}, {32, {0xFF0000, 0xFF00, 0xFF, 0}, false, "x8r8g8b8"}, {16, {0xF800, 0x7E0, 0x1F, 0}, false, "r5g6b5"}, {16, {0x7C00, 0x3E0, 0x1F, 0x8000}, false, "a1r5g5b5"}, {16, {0xF00, 0xF0, 0xF, 0xF000}, false, "a4r4g4b4"}, {8, {0xE0, 0x1C, 3, 0}, false, "r3g3b2"}, {8, {0xFF, 0, 0, 0}, true, "l8"}, {16, {0xFF, 0, 0, 0xFF00}, true, "a8l8"}, {8, {0xF, 0, 0, 0xF0}, true, "a4l4"}, {16, {0xFFFF, 0, 0, 0}, true, "l16"},
        {0, {}, false, "dxt1", 1, 0x31545844}, {0, {}, false, "dxt1", 1, 0x31545844}, {0, {}, false, "dxt2", 2, 0x32545844}, {0, {}, false, "dxt3", 3, 0x33545844}, {0, {}, false, "dxt4", 4, 0x34545844}, {0, {}, false, "dxt5", 5, 0x35545844}, {0, {}, false, "dxt5", 5, 0x35545844}, {0, {}, false, "ati1n", 6, 0x31495441}, {0, {}, false, "rxgb", 7, 0x42475852},
        {64, {}, false, "a16b16g16r16", 0, 36, 1, 4}, {16, {}, false, "r16f", 0, 111, 2, 1}, {32, {}, false, "g16r16f", 0, 112, 2, 2}, {64, {}, false, "a16b16g16r16f", 0, 113, 2, 4}, {32, {}, false, "r32f", 0, 114, 3, 1}, {64, {}, false, "g32r32f", 0, 115, 3, 2}, {128, {}, false, "a32b32g32r32f", 0, 116, 3, 4}, {32, {}, false, "dx10 rgba", 0, 0x30315844, 4, 28}, {32, {}, false, "dx10 bgra", 0, 0x30315844, 4, 87}, {32, {}, false, "dx10 bgra srgb", 0, 0x30315844, 4, 91}, {0, {}, false, "ati2", 8, 0x32495441}, {32, {0x3FF, 0xFFC00, 0x3FF00000, 0xC0000000}, false, "a2b10g10r10"}, {32, {0x3FF00000, 0xFFC00, 0x3FF, 0xC0000000}, false, "a2r10g10b10"}};
    const M &m = ms[r.below(sizeof ms / sizeof *ms)]; bool dx10 = m.fl == 4, mips = !dx10 && r.chance(30), vol = !dx10 && r.chance(12); int cube = !vol && !dx10 && r.chance(15) ? (r.chance(60) ? 63 : r.range(1, 63)) : 0; if (cube) h = w; int dep = 1; if (vol) { dep = r.range(2, 5); w = std::min(w, 24); h = std::min(h, 24); }
    int levels = 1; if (mips) { int k = std::max(dep, std::max(w, h)); while (k > 1) { k /= 2; levels++; } if (r.chance(25)) levels = r.range(1, levels); } if (levels == 1) mips = false;
    BW o(g.b); o.str("DDS "); o.le32(124); bool lin = m.bc || m.fl; int lsz = m.bc ? (int)bc_size(w, h, m.bc) : lin ? w * h * m.bits / 8 : (w * m.bits + 7) / 8; if (r.chance(15)) lsz = 0; o.le32(0x1007 | (r.chance(15) ? 0 : lin ? 0x80000 : 8) | (mips ? 0x20000 : 0) | (vol ? 0x800000 : 0)); o.le32(h); o.le32(w); o.le32(lsz); o.le32(vol ? dep : 0); o.le32(mips ? levels : r.below(2)); o.zero(44); o.le32(32);
    o.le32(m.cc ? 4 : (m.lum ? 0x20000 : 0x40) | (m.m[3] ? 1 : 0)); o.le32(m.cc); o.le32(m.cc ? 0 : m.bits); for (int k = 0; k < 4; k++) o.le32(m.m[k]); o.le32(0x1000 | (mips ? 0x400008 : 0) | (cube || vol ? 8 : 0)); o.le32(cube ? 0x200 | cube << 10 : vol ? 0x200000 : 0); o.le32(0); o.le32(0); o.le32(0); if (dx10) { o.le32(m.fch); o.le32(3); o.le32(0); o.le32(1); o.le32(0); }
    int nf = 0; for (int face = 0; face < 6; face++) { if (cube ? !(cube >> face & 1) : face > 0) continue; for (int l = 0; l < levels; l++) { int W = std::max(1, w >> l), H = std::max(1, h >> l), D = std::max(1, dep >> l); std::vector<Frame> sl; for (int z = 0; z < D; z++) { Frame fr; fr.size(W, H);
        if (m.bc) { Bytes b = rnd_blocks(r, W, H, m.bc); fr = bc_decode(b.data(), W, H, m.bc); o.raw(b.data(), b.size()); }
        else if (m.fl == 2 || m.fl == 3) for (auto &q : fr.px) { double c[4] = {1, 1, 1, 1}; for (int k = 0; k < m.fch; k++) if (m.fl == 2) { uint16_t v = r.chance(10) ? r.below(4) : r.below(0x7c00) | (r.chance(20) ? 0x8000 : 0); o.le16(v); c[k] = half_d(v); } else { float v = r.chance(50) ? r.below(1001) / 1000.f : (r.below(2001) - 1000) * 3.7f; o.fle(v); c[k] = v; } q = RGBAd{c[0], c[1], c[2], c[3]}; }
        else if (m.fl == 1 || (m.lum && m.m[0] == 0xFFFF)) for (auto &q : fr.px) { double c[4] = {0, 0, 0, 1}; int n = m.fl == 1 ? 4 : 1; for (int k = 0; k < n; k++) { int v = r.below(65536); o.le16(v); c[k] = v / 65535.; } if (n == 1) c[1] = c[2] = c[0]; q = RGBAd{c[0], c[1], c[2], c[3]}; }
        else { Px p = rnd_px(r, W, H, 4, 255); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = 0; double c[4] = {0, 0, 0, 1}; if (dx10) { for (int k = 0; k < 4; k++) c[k] = p.at(x, y, k) / 255.; for (int k = 0; k < 4; k++) o.u8(p.at(x, y, m.fch >= 87 && k < 3 ? 2 - k : k)); fr.at(x, y) = RGBAd{c[0], c[1], c[2], c[3]}; continue; } for (int k = 0; k < 4; k++) if (m.m[k]) { int b = __builtin_popcount(m.m[k]); uint32_t q = b > 8 ? r.below(1 << b) : p.at(x, y, k) >> (8 - b); v |= q << __builtin_ctz(m.m[k]); c[k] = q / (double)((1 << b) - 1); } if (m.lum) c[1] = c[2] = c[0]; if (m.m[1] == 0xFFC00) std::swap(c[0], c[2]); /* as D3DX writes them, with the masks of red and blue exchanged */ fr.at(x, y) = RGBAd{c[0], c[1], c[2], c[3]}; for (int k = 0; k < m.bits; k += 8) o.u8(v >> k); } }
        sl.push_back(fr); }
        if (nf == 0 && l == 0) { g.frames = {sl[0]}; g.slices.assign(sl.begin() + 1, sl.end()); } else g.subs.push_back({nf, l, sl}); } nf++; }
    g.mipped = true; if (m.bc) g.tol = (m.bc == 2 || m.bc == 4 ? 5.01 : m.bc == 8 ? 4.01 : m.bc == 6 ? 1.51 : 2.01) / 255; else if (m.fl == 2 || m.fl == 3) g.tol = 1e-6; else if (m.fl == 1 || m.m[0] == 0xFFFF) g.tol = 1e-9; else if (m.m[1] == 0xFFC00) g.tol = 1.01 / 1023; else if (m.bits == 16 && !m.lum) g.tol = 1.01 / 255;
    g.name = std::string("dds ") + m.n + (vol ? " volume" : "") + (mips ? " mips" : "") + (cube == 63 ? " cube" : cube ? " partial cube" : ""); return g;
}
// ---- WBMP ----
inline FileGen gen_wbmp(Rng &r) { FileGen g; g.type = IL_WBMP; g.ext = "wbmp"; g.sniff = false; int w, h; rnd_size(r, w, h); if (r.below(60) == 0) { w = r.range(16380, 16390); h = r.range(1, 2); if (r.chance(50)) std::swap(w, h); } Px p = rnd_px(r, w, h, 1, 1); BW o(g.b); o.u8(0); o.u8(0); auto mb = [&](int v) { if (v > 16383) o.u8(0x80 | v >> 14); if (v > 127) o.u8(0x80 | (v >> 7 & 127)); o.u8(v & 127); }; mb(w); mb(h); Frame f; f.size(w, h); for (int y = 0; y < h; y++) { int acc = 0, nb = 0; for (int x = 0; x < w; x++) { acc = acc << 1 | p.at(x, y, 0); f.at(x, y) = rgb8(p.at(x, y, 0) * 255, p.at(x, y, 0) * 255, p.at(x, y, 0) * 255); if (++nb == 8) { o.u8(acc); acc = nb = 0; } } if (nb) o.u8(acc << (8 - nb)); } g.frames = {f}; g.name = "wbmp"; return g; }
// ---- GIF ----
inline void gif_lzw(BW &o, const std::vector<uint8_t> &px, int mincode, Rng &r) {
    Bytes out; uint32_t acc = 0; int nb = 0; auto emit = [&](int code, int bits) { acc |= (uint32_t)code << nb; nb += bits; while (nb >= 8) { out.push_back(acc); acc >>= 8; nb -= 8; } }; int clear = 1 << mincode, eoi = clear + 1, bits = mincode + 1, next = clear + 2; std::map<std::pair<int, int>, int> dict; emit(clear, bits); int cur = -1; bool early = r.chance(15);
    for (uint8_t v : px) { if (cur < 0) { cur = v; continue; } auto it = dict.find({cur, v}); if (it != dict.end()) { cur = it->second; continue; } emit(cur, bits); if (next < 4096) { dict[{cur, v}] = next++; if (next - 1 == (1 << bits) && bits < 12) bits++; } else { emit(clear, bits); dict.clear(); bits = mincode + 1; next = clear + 2; } if (early && r.below(200) == 0) { emit(v, bits); if (next < 4096) { next++; if (next - 1 == (1 << bits) && bits < 12) bits++; } emit(clear, bits); dict.clear(); bits = mincode + 1; next = clear + 2; cur = -1; continue; } cur = v; }
    if (cur >= 0) { emit(cur, bits); if (next < 4096) { next++; if (next - 1 == (1 << bits) && bits < 12) bits++; } } emit(eoi, bits); if (nb) out.push_back(acc); o.u8(mincode); for (size_t i = 0; i < out.size();) { int n = std::min<size_t>(255, out.size() - i); o.u8(n); o.raw(&out[i], n); i += n; } o.u8(0);
}
inline FileGen gen_gif(Rng &r) {
    FileGen g; g.type = IL_GIF; g.ext = "gif"; int w, h; rnd_size(r, w, h); int gb = r.range(1, 8); auto gp = rnd_pal(r, 1 << gb); bool anim = r.chance(35); int n = anim ? r.range(2, 4) : 1; bool g89 = true; std::string nm = "gif"; BW o(g.b); o.str(n > 1 || r.chance(70) ? "GIF89a" : (g89 = false, "GIF87a")); o.le16(w); o.le16(h); o.u8(0x80 | (gb - 1) << 4 | (gb - 1)); o.u8(0); o.u8(0); for (auto &c : gp) { o.u8(b255(c.r)); o.u8(b255(c.g)); o.u8(b255(c.b)); }
    if (anim && r.chance(50)) { o.u8(0x21); o.u8(0xFF); o.u8(11); o.str("NETSCAPE2.0"); o.u8(3); o.u8(1); o.le16(0); o.u8(0); } if (g89 && r.chance(20)) { o.u8(0x21); o.u8(0xFE); o.u8(5); o.str("hello"); o.u8(0); }
    Frame canvas; for (int i = 0; i < n; i++) { bool local = r.chance(30), inter = r.chance(30); int lb = local ? r.range(1, 8) : gb; auto pal = local ? rnd_pal(r, 1 << lb) : gp; int tr = g89 && r.chance(25) ? (int)r.below(1 << lb) : -1; int disp = n > 1 ? (i == 0 ? r.pick({0, 1}) : r.pick({0, 1, 1, 3})) : 1; int X = 0, Y = 0, W = w, H = h; if (i > 0 && r.chance(40)) { X = r.below(w); Y = r.below(h); W = r.range(1, w - X); H = r.range(1, h - Y); } if (tr < 0 && r.chance(50)) disp = 0; if (g89 && (tr >= 0 || disp)) { o.u8(0x21); o.u8(0xF9); o.u8(4); o.u8((tr >= 0 ? 1 : 0) | disp << 2); o.le16(r.below(100)); o.u8(tr >= 0 ? tr : 0); o.u8(0); }
        Px p = rnd_px(r, W, H, 1, (1 << lb) - 1); o.u8(0x2C); o.le16(X); o.le16(Y); o.le16(W); o.le16(H); o.u8((local ? 0x80 | (lb - 1) : 0) | (inter ? 0x40 : 0)); if (local) for (auto &c : pal) { o.u8(b255(c.r)); o.u8(b255(c.g)); o.u8(b255(c.b)); } std::vector<uint8_t> px; if (!inter) { for (auto v : p.v) px.push_back(v); } else { static const int s[] = {0, 4, 2, 1}, d[] = {8, 8, 4, 2}; for (int k = 0; k < 4; k++) for (int y = s[k]; y < H; y += d[k]) for (int x = 0; x < W; x++) px.push_back(p.at(x, y, 0)); } gif_lzw(o, px, std::max(2, lb), r);
        if (i == 0) canvas.size(w, h); Frame before = canvas; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int v = p.at(x, y, 0); if (v == tr && i > 0) continue; RGBAd &q = canvas.at(X + x, Y + y); q = pal[v]; if (v == tr) q.a = 0; } g.frames.push_back(canvas); if (disp == 3 && n > 1) { canvas = before; } char b[60]; snprintf(b, 60, " [%dbit%s%s%s%s]", lb, W < w || H < h ? " part" : "", local ? " local" : "", inter ? " interlaced" : "", tr >= 0 ? " transparent" : ""); nm += b; }
    o.u8(0x3B); g.name = nm; return g;
}
// ---- ICO / CUR ----
inline FileGen gen_ico(Rng &r) {
    FileGen g; g.type = IL_ICO; g.sniff = false; bool cur = r.chance(30); g.ext = cur ? "cur" : "ico"; int n = r.range(1, 3); BW o(g.b); o.le16(0); o.le16(cur ? 2 : 1); o.le16(n); size_t dir = g.b.size(); o.zero(16 * n); std::string nm = cur ? "cur" : "ico";
    for (int i = 0; i < n; i++) { if (r.chance(20)) { FileGen q = gen_png(r); if (q.w() <= 256 && q.h() <= 256) { size_t st = g.b.size(), d = dir + 16 * i; o.raw(q.b.data(), q.b.size()); g.b[d] = q.w(); g.b[d + 1] = q.h(); o.set16(d + 4, cur ? 0 : 1); o.set16(d + 6, cur ? 0 : 32); o.set32(d + 8, q.b.size()); o.set32(d + 12, st); g.frames.push_back(q.frames[0]); g.tol = 1.01 / 255; nm += " [" + q.name + "]"; continue; } }
        int w = r.pick({1, 8, 16, 31, 32, 33, 48}), h = r.pick({1, 8, 16, 32, 17}); int bpp = r.pick({1, 4, 8, 24, 32}); int nc = bpp <= 8 ? 1 << bpp : 0; auto pal = rnd_pal(r, nc); Px p = rnd_px(r, w, h, bpp <= 8 ? 1 : 4, bpp <= 8 ? nc - 1 : 255), mk = rnd_px(r, w, h, 1, 1); size_t st = g.b.size(); o.le32(40); o.le32(w); o.le32(h * 2); o.le16(1); o.le16(bpp); o.le32(0); o.le32(0); o.le32(0); o.le32(0); o.le32(0); o.le32(0); for (auto &c : pal) { o.u8(b255(c.b)); o.u8(b255(c.g)); o.u8(b255(c.r)); o.u8(0); }
        Frame f; f.size(w, h); for (int y = h - 1; y >= 0; y--) { size_t s = g.b.size(); int acc = 0, nb = 0; for (int x = 0; x < w; x++) { RGBAd &q = f.at(x, y); if (bpp <= 8) { acc = acc << bpp | p.at(x, y, 0); nb += bpp; if (nb == 8) { o.u8(acc); acc = nb = 0; } q = pal[p.at(x, y, 0)]; } else { o.u8(p.at(x, y, 2)); o.u8(p.at(x, y, 1)); o.u8(p.at(x, y, 0)); if (bpp == 32) o.u8(p.at(x, y, 3)); q = rgb8(p.at(x, y, 0), p.at(x, y, 1), p.at(x, y, 2)); if (bpp == 32) q.a = p.at(x, y, 3) / 255.; } if (bpp != 32) q.a = mk.at(x, y, 0) ? 0 : 1; } if (nb) o.u8(acc << (8 - nb)); while ((g.b.size() - s) & 3) o.u8(0); }
        for (int y = h - 1; y >= 0; y--) { size_t s = g.b.size(); int acc = 0, nb = 0; for (int x = 0; x < w; x++) { acc = acc << 1 | (bpp == 32 ? 0 : mk.at(x, y, 0)); if (++nb == 8) { o.u8(acc); acc = nb = 0; } } if (nb) o.u8(acc << (8 - nb)); while ((g.b.size() - s) & 3) o.u8(0); }
        size_t d = dir + 16 * i; g.b[d] = w; g.b[d + 1] = h; g.b[d + 2] = bpp < 8 ? nc : 0; o.set16(d + 4, cur ? 0 : 1); o.set16(d + 6, cur ? 0 : bpp); o.set32(d + 8, g.b.size() - st); o.set32(d + 12, st); g.frames.push_back(f); char b[40]; snprintf(b, 40, " [%dx%d bpp%d]", w, h, bpp); nm += b; }
    g.name = nm; return g;
}
// ---- Sun raster ----
inline FileGen gen_sun(Rng &r) {
    FileGen g; g.type = IL_SUN; g.ext = r.pick({"sun", "ras", "rs"}); int w, h; rnd_size(r, w, h); int d = r.pick({1, 8, 8, 24, 32}); int ty = r.pick({0, 1, 2, d >= 24 ? 3 : 1}); bool map = d == 8 && r.chance(60); int nc = map ? r.range(1, 256) : 0; auto pal = rnd_pal(r, nc); int ch = d >= 24 ? 3 : 1, maxv = d == 1 ? 1 : map ? nc - 1 : 255; Px p = rnd_px(r, w, h, ch, maxv); Bytes raw; BW q(raw);
    for (int y = 0; y < h; y++) { size_t s = raw.size(); int acc = 0, nb = 0; for (int x = 0; x < w; x++) { if (d == 1) { acc = acc << 1 | p.at(x, y, 0); if (++nb == 8) { q.u8(acc); acc = nb = 0; } } else if (d == 8) q.u8(p.at(x, y, 0)); else { if (d == 32) q.u8(0); if (ty == 3) { q.u8(p.at(x, y, 0)); q.u8(p.at(x, y, 1)); q.u8(p.at(x, y, 2)); } else { q.u8(p.at(x, y, 2)); q.u8(p.at(x, y, 1)); q.u8(p.at(x, y, 0)); } } } if (nb) q.u8(acc << (8 - nb)); if ((raw.size() - s) & 1) q.u8(0); }
    Bytes body = raw; if (ty == 2) { body.clear(); for (size_t i = 0; i < raw.size();) { size_t k = 1; while (i + k < raw.size() && k < 256 && raw[i + k] == raw[i]) k++; if (k > 2 || (raw[i] == 0x80 && k > 1)) { body.push_back(0x80); body.push_back(k - 1); body.push_back(raw[i]); } else { k = 1; body.push_back(raw[i]); if (raw[i] == 0x80) body.push_back(0); } i += k; } }
    BW o(g.b); o.be32(0x59a66a95); o.be32(w); o.be32(h); o.be32(d); o.be32(ty == 0 && r.chance(50) ? 0 : body.size()); o.be32(ty); o.be32(map ? 1 : 0); o.be32(nc * 3); for (int c = 0; c < 3; c++) for (auto &e : pal) o.u8(b255(c == 0 ? e.r : c == 1 ? e.g : e.b)); o.raw(body.data(), body.size());
    Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { RGBAd &e = f.at(x, y); int v = p.at(x, y, 0); if (d == 1) e = v ? rgb8(0, 0, 0) : rgb8(255, 255, 255); else if (map) e = pal[v]; else if (d == 8) e = rgb8(v, v, v); else e = rgb8(v, p.at(x, y, 1), p.at(x, y, 2)); } g.alpha = d != 32; g.frames = {f}; char nm[64]; snprintf(nm, 64, "sun depth%d type%d%s", d, ty, map ? " map" : ""); g.name = nm; return g;
}
// ---- JPEG (libjpeg) ----
inline void jpg_encode(Bytes &out, const uint8_t *px, int w, int h, int ch, int q, bool prog, int samp) { jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char *mem = NULL; unsigned long n = 0; jpeg_mem_dest(&c, &mem, &n); c.image_width = w; c.image_height = h; c.input_components = ch; c.in_color_space = ch == 1 ? JCS_GRAYSCALE : JCS_RGB; jpeg_set_defaults(&c); jpeg_set_quality(&c, q, TRUE); if (prog) jpeg_simple_progression(&c); if (ch == 3) { c.comp_info[0].h_samp_factor = samp & 1 ? 2 : 1; c.comp_info[0].v_samp_factor = samp & 2 ? 2 : 1; } jpeg_start_compress(&c, TRUE); for (int y = 0; y < h; y++) { JSAMPROW row = (JSAMPROW)(px + (size_t)y * w * ch); jpeg_write_scanlines(&c, &row, 1); } jpeg_finish_compress(&c); out.assign(mem, mem + n); free(mem); jpeg_destroy_compress(&c); }
inline bool jpg_decode(const Bytes &b, int &w, int &h, int &ch, Bytes &px) { jpeg_decompress_struct d; jpeg_error_mgr e; d.err = jpeg_std_error(&e); jpeg_create_decompress(&d); jpeg_mem_src(&d, (unsigned char *)b.data(), b.size()); if (jpeg_read_header(&d, TRUE) != 1) { jpeg_destroy_decompress(&d); return false; } d.do_block_smoothing = d.do_fancy_upsampling = TRUE; jpeg_start_decompress(&d); w = d.output_width; h = d.output_height; ch = d.output_components; px.resize((size_t)w * h * ch); while ((int)d.output_scanline < h) { JSAMPROW row = &px[(size_t)d.output_scanline * w * ch]; jpeg_read_scanlines(&d, &row, 1); } jpeg_finish_decompress(&d); jpeg_destroy_decompress(&d); return true; }
inline FileGen gen_jpg(Rng &r) { FileGen g; g.type = IL_JPG; g.ext = r.pick({"jpg", "jpeg", "jpe"}); int w, h; rnd_size(r, w, h); int ch = r.pick({1, 3, 3}); Px p = rnd_px(r, w, h, ch, 255); Bytes px; for (auto v : p.v) px.push_back(v); bool prog = r.chance(30); int q = r.range(30, 100), s = r.below(4); jpg_encode(g.b, px.data(), w, h, ch, q, prog, s); Bytes d; int W, H, C; jpg_decode(g.b, W, H, C, d); Frame f; f.size(w, h); for (int i = 0; i < w * h; i++) f.px[i] = C == 1 ? rgb8(d[i], d[i], d[i]) : rgb8(d[i * 3], d[i * 3 + 1], d[i * 3 + 2]); g.frames = {f}; g.tol = 6.1 / 255; char nm[64]; snprintf(nm, 64, "jpg ch%d q%d%s samp%d", ch, q, prog ? " progressive" : "", s); g.name = nm; return g; }
