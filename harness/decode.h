// Independent decoders of image files, written from the format specifications; strict about what writers have to get right.
#pragma once
#include "codec.h"
#include <stdarg.h>
struct Decoded { int w = 0, h = 0, ch = 0; bool idx = false; std::vector<Frame> sl; std::map<std::string, std::string> text; int bits = 8; const Frame &f() const { return sl[0]; } };
struct BadFile { std::string why; };
__attribute__((format(printf, 1, 2))) static void badf(const char *fmt, ...) { char s[300]; va_list a; va_start(a, fmt); vsnprintf(s, 300, fmt, a); va_end(a); throw BadFile{s}; }
struct BR { const Bytes &b; size_t p = 0; explicit BR(const Bytes &x, size_t at = 0) : b(x), p(at) {}
    void need(size_t n) { if (p + n > b.size() || p + n < p) badf("the file ends at %zu, %zu more bytes are needed at %zu", b.size(), n, p); }
    int u8() { need(1); return b[p++]; } int le16() { need(2); p += 2; return b[p - 2] | b[p - 1] << 8; } uint32_t le32() { need(4); p += 4; return b[p - 4] | b[p - 3] << 8 | b[p - 2] << 16 | (uint32_t)b[p - 1] << 24; } int be16() { need(2); p += 2; return b[p - 1] | b[p - 2] << 8; } uint32_t be32() { need(4); p += 4; return b[p - 1] | b[p - 2] << 8 | b[p - 3] << 16 | (uint32_t)b[p - 4] << 24; }
    void skip(size_t n) { need(n); p += n; } bool is(const char *s, size_t n) { need(n); p += n; return !memcmp(&b[p - n], s, n); } size_t left() const { return b.size() - p; } };
inline Decoded dec_bmp(const Bytes &b) {
    BR r(b); Decoded d; if (!r.is("BM", 2)) badf("no BM"); uint32_t fs = r.le32(); if (fs != b.size()) badf("file size %u in the header, is %zu", fs, b.size()); if (r.le32()) badf("reserved words used"); uint32_t off = r.le32(); if (r.le32() != 40) badf("header size"); d.w = r.le32(); d.h = r.le32(); if (d.w <= 0 || d.h <= 0) badf("size %dx%d", d.w, d.h); if (r.le16() != 1) badf("planes"); int bpp = r.le16(); uint32_t comp = r.le32(), isz = r.le32(); r.skip(8); uint32_t used = r.le32(), imp = r.le32();
    if (bpp != 8 && bpp != 24 && bpp != 32) badf("%d bits", bpp); if (comp) badf("compression %u", comp); if (bpp != 8 && off != 54 + used * 4) badf("data at %u", off); if (imp > used) badf("%u important colours of %u", imp, used); size_t row = ((size_t)d.w * bpp + 31) / 32 * 4; if (isz && isz != row * d.h) badf("image size %u, rows have %zu bytes", isz, row * d.h); std::vector<RGBAd> pal; if (bpp == 8) { int n = used ? used : 256; if (n > 256 || off < 54 + 4u * n) badf("%d colours, data at %u", n, off); for (int i = 0; i < n; i++) { int B = r.u8(), G = r.u8(), R = r.u8(); r.u8(); pal.push_back(rgb8(R, G, B)); } d.idx = true; }
    if (off + row * d.h != b.size()) badf("data of %zu bytes at %u, the file has %zu", row * d.h, off, b.size()); Frame f; f.size(d.w, d.h); for (int y = 0; y < d.h; y++) { const uint8_t *q = &b[off + row * y]; for (int x = 0; x < d.w; x++) { RGBAd &o = f.at(x, d.h - 1 - y); if (bpp == 8) { if (q[x] >= pal.size()) badf("index %d of %zu", q[x], pal.size()); o = pal[q[x]]; } else { const uint8_t *s = q + x * bpp / 8; o = rgb8(s[2], s[1], s[0], bpp == 32 ? s[3] : 255); } } } d.ch = bpp == 32 ? 4 : 3; d.sl = {f}; return d;
}
inline Decoded dec_tga(const Bytes &b) {
    BR r(b); Decoded d; int idl = r.u8(), cm = r.u8(), type = r.u8(), cms = r.le16(), cmn = r.le16(), cmb = r.u8(); r.skip(4); d.w = r.le16(); d.h = r.le16(); int bpp = r.u8(), desc = r.u8(); { r.need(idl); d.text["id"] = std::string((const char *)&b[r.p], idl); r.p += idl; } int base = type & 7; if (base < 1 || base > 3 || type > 11 || (type & 0xF4)) badf("type %d", type); if (d.w <= 0 || d.h <= 0) badf("size"); if (desc & 0xC0) badf("interleaving"); if (cm > 1 || (base == 1) != (cm == 1)) badf("type %d, map %d", type, cm);
    std::vector<RGBAd> pal; if (cm) { if (cmb != 24 && cmb != 32) badf("map of %d bits", cmb); if (cms) badf("first map entry"); for (int i = 0; i < cmn; i++) { int B = r.u8(), G = r.u8(), R = r.u8(), A = cmb == 32 ? r.u8() : 255; pal.push_back(rgb8(R, G, B, A)); } } else if (cmn) badf("%d map entries without a map", cmn); if (base == 2 ? bpp != 24 && bpp != 32 : bpp != 8) badf("type %d with %d bits", type, bpp); if ((desc & 15) != (bpp == 32 ? 8 : 0)) badf("%d alpha bits with %d bits", desc & 15, bpp); int n = bpp / 8; size_t tot = (size_t)d.w * d.h; std::vector<uint8_t> px;
    if (type < 8) { r.need(tot * n); px.assign(b.begin() + r.p, b.begin() + r.p + tot * n); r.p += tot * n; } else { size_t k = 0; while (k < tot) { int c = r.u8(), m = (c & 127) + 1; if (k % d.w + m > (size_t)d.w) badf("a packet of %d pixels at column %zu of %d", m, k % d.w, d.w); r.need(c & 128 ? n : n * m); for (int i = 0; i < m; i++) { px.insert(px.end(), b.begin() + r.p, b.begin() + r.p + n); if (!(c & 128)) r.p += n; } if (c & 128) r.p += n; k += m; } }
    Frame f; f.size(d.w, d.h); for (int y = 0; y < d.h; y++) for (int x = 0; x < d.w; x++) { const uint8_t *s = &px[((size_t)y * d.w + x) * n]; RGBAd &o = f.at(desc & 16 ? d.w - 1 - x : x, desc & 32 ? y : d.h - 1 - y); if (base == 1) { if (s[0] >= pal.size()) badf("index %d of %zu", s[0], pal.size()); o = pal[s[0]]; } else if (base == 3) o = rgb8(s[0], s[0], s[0]); else o = rgb8(s[2], s[1], s[0], n == 4 ? s[3] : 255); } d.idx = base == 1; d.ch = base == 3 ? 1 : base == 1 ? 3 : n; d.sl = {f}; size_t end = r.p;
    if (b.size() >= end + 26 && !memcmp(&b[b.size() - 18], "TRUEVISION-XFILE.\0", 18)) { BR q(b, b.size() - 26); uint32_t ext = q.le32(), dev = q.le32(); if (ext) { if (ext < end || ext + 495 > b.size() - 26) badf("extension area at %u, the pixels end at %zu, the file at %zu", ext, end, b.size()); BR e(b, ext); if (e.le16() != 495) badf("extension area size"); auto str = [&](size_t at, size_t n) { const char *s = (const char *)&b[ext + at]; if (s[n - 1]) badf("an unterminated string in the extension area"); return std::string(s); }; d.text["author"] = str(2, 41); for (int i = 0; i < 4; i++) if (b[ext + 43 + 81 * i + 80]) badf("an unterminated comment line"); for (int i = 0; i < 4; i++) d.text["comment"] += (const char *)&b[ext + 43 + 81 * i]; str(426, 41); int mon = b[ext + 367] | b[ext + 368] << 8, day = b[ext + 369] | b[ext + 370] << 8, hr = b[ext + 373] | b[ext + 374] << 8; if (mon > 12 || day > 31 || hr > 23) badf("time stamp %d/%d %d:00", mon, day, hr); BR o(b, ext + 482); for (int i = 0; i < 3; i++) { uint32_t v = o.le32(); if (v && v >= b.size()) badf("table at %u", v); } int at = b[ext + 494]; if (at > 4) badf("attributes type %d", at); if (ext + 495 != b.size() - 26) badf("%zu bytes between the extension area and the footer", b.size() - 26 - ext - 495); if (ext != end) badf("%zu bytes between the pixels and the extension area", ext - end); } if (dev && dev >= b.size()) badf("developer area at %u", dev); } else if (b.size() != end) badf("%zu bytes follow the pixels", b.size() - end);
    return d;
}
inline Decoded dec_png(const Bytes &b) {
    BR r(b); Decoded d; if (!r.is("\x89PNG\r\n\x1a\n", 8)) badf("signature"); int ct = -1, il = 0, nth = 0; Bytes z; std::vector<RGBAd> pal; bool end = false, idat = false, idatend = false; std::vector<uint8_t> trns; bool hastr = false;
    while (!end) { uint32_t n = r.be32(); r.need((size_t)n + 8); std::string t((const char *)&b[r.p], 4); uint32_t crc = crc32(crc32(0, NULL, 0), &b[r.p], n + 4); BR c(b, r.p + 4); r.p += 4 + n; if (r.be32() != crc) badf("CRC of %s", t.c_str()); if (!nth++ && t != "IHDR") badf("%s comes first", t.c_str()); if (idat && t != "IDAT") idatend = true;
        if (t == "IHDR") { if (n != 13 || nth > 1) badf("IHDR"); d.w = c.be32(); d.h = c.be32(); d.bits = c.u8(); ct = c.u8(); if (c.u8() || c.u8()) badf("compression or filter method"); il = c.u8(); if (il > 1) badf("interlace"); if (d.w <= 0 || d.h <= 0) badf("size"); bool ok = ct == 0 ? d.bits == 1 || d.bits == 2 || d.bits == 4 || d.bits == 8 || d.bits == 16 : ct == 3 ? d.bits == 1 || d.bits == 2 || d.bits == 4 || d.bits == 8 : (ct == 2 || ct == 4 || ct == 6) && (d.bits == 8 || d.bits == 16); if (!ok) badf("colour type %d with %d bits", ct, d.bits); }
        else if (t == "PLTE") { if (idat || pal.size() || n % 3 || !n || n > 768 || ct == 0 || ct == 4) badf("PLTE"); if (ct == 3 && n / 3 > (1u << d.bits)) badf("PLTE of %u colours", n / 3); for (uint32_t i = 0; i < n / 3; i++) { int R = c.u8(), G = c.u8(), B = c.u8(); pal.push_back(rgb8(R, G, B)); } }
        else if (t == "tRNS") { hastr = true; if (idat || (ct == 3 && (pal.empty() || n > pal.size())) || ct == 4 || ct == 6) badf("tRNS"); for (uint32_t i = 0; i < n; i++) { int a = c.u8(); trns.push_back(a); if (ct == 3) pal[i].a = a / 255.; } }
        else if (t == "IDAT") { if (idatend) badf("IDAT not in a row"); idat = true; z.insert(z.end(), b.begin() + c.p, b.begin() + c.p + n); } else if (t == "IEND") { if (n) badf("IEND"); end = true; }
        else if (t == "tEXt" || t == "zTXt") { size_t k = 0; while (k < n && b[c.p + k]) k++; if (k < 1 || k > 79 || k == n) badf("keyword of %s", t.c_str()); if (t == "tEXt") d.text[std::string((const char *)&b[c.p], k)] = std::string((const char *)&b[c.p + k + 1], n - k - 1); }
        else if (!(t[0] & 32)) badf("unknown critical chunk %s", t.c_str()); }
    if (r.left()) badf("%zu bytes after IEND", r.left()); if (!idat) badf("no IDAT"); if (ct == 3 && pal.empty()) badf("no PLTE"); int nc = ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4; size_t bpp = std::max(1, nc * d.bits / 8), tot = 0; struct P { int x0, y0, dx, dy, w, h; }; std::vector<P> ps; if (!il) ps.push_back({0, 0, 1, 1, d.w, d.h}); else { static const int a[7][4] = {{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}}; for (auto &q : a) { int w = (d.w - q[0] + q[2] - 1) / q[2], h = (d.h - q[1] + q[3] - 1) / q[3]; if (w > 0 && h > 0) ps.push_back({q[0], q[1], q[2], q[3], w, h}); } }
    for (auto &q : ps) tot += (((size_t)q.w * nc * d.bits + 7) / 8 + 1) * q.h; std::vector<uint8_t> raw(tot + 1); z_stream zs; memset(&zs, 0, sizeof zs); inflateInit(&zs); zs.next_in = z.data(); zs.avail_in = z.size(); zs.next_out = raw.data(); zs.avail_out = raw.size(); int rc = inflate(&zs, Z_FINISH); size_t got = zs.total_out, in = zs.total_in; inflateEnd(&zs); if (rc != Z_STREAM_END || got != tot || in != z.size()) badf("inflating gives %d, %zu of %zu bytes", rc, got, tot);
    Frame f; f.size(d.w, d.h); size_t at = 0; for (auto &q : ps) { size_t rb = ((size_t)q.w * nc * d.bits + 7) / 8; std::vector<uint8_t> prev(rb), cur(rb); for (int y = 0; y < q.h; y++) { int ft = raw[at++]; if (ft > 4) badf("filter %d", ft); for (size_t i = 0; i < rb; i++) { int a = i >= bpp ? cur[i - bpp] : 0, up = prev[i], ul = i >= bpp ? prev[i - bpp] : 0, v = raw[at + i]; switch (ft) { case 1: v += a; break; case 2: v += up; break; case 3: v += (a + up) / 2; break; case 4: { int p = a + up - ul, pa = abs(p - a), pb = abs(p - up), pc = abs(p - ul); v += pa <= pb && pa <= pc ? a : pb <= pc ? up : ul; } } cur[i] = v; } at += rb; prev = cur;
            for (int x = 0; x < q.w; x++) { int v[4]; for (int c = 0; c < nc; c++) { if (d.bits == 8) v[c] = cur[x * nc + c]; else if (d.bits == 16) v[c] = cur[(x * nc + c) * 2] << 8 | cur[(x * nc + c) * 2 + 1]; else v[c] = cur[x * d.bits / 8] >> (8 - d.bits - x * d.bits % 8) & ((1 << d.bits) - 1); } double m = (1 << d.bits) - 1; RGBAd &o = f.at(q.x0 + x * q.dx, q.y0 + y * q.dy); if (ct == 3) { if (v[0] >= (int)pal.size()) badf("index %d of %zu", v[0], pal.size()); o = pal[v[0]]; } else if (nc <= 2) o = RGBAd{v[0] / m, v[0] / m, v[0] / m, nc == 2 ? v[1] / m : 1}; else o = RGBAd{v[0] / m, v[1] / m, v[2] / m, nc == 4 ? v[3] / m : 1}; } } }
    d.idx = ct == 3; d.ch = ct == 3 ? (hastr ? 4 : 3) : nc; d.sl = {f}; return d;
}
inline Decoded dec_tif(const Bytes &b) {
    Decoded d; BR r(b); r.need(8); bool be; if (b[0] == 'I' && b[1] == 'I') be = false; else if (b[0] == 'M' && b[1] == 'M') be = true; else badf("byte order"); r.p = 2; auto g16 = [&] { return be ? r.be16() : r.le16(); }; auto g32 = [&] { return be ? r.be32() : r.le32(); }; if (g16() != 42) badf("42"); uint32_t ifd = g32(); if (ifd < 8 || ifd >= b.size() || (ifd & 1)) badf("directory at %u", ifd); r.p = ifd; int n = g16(), last = 0; if (!n) badf("empty directory"); std::map<int, std::vector<double>> t; std::map<int, std::string> st;
    for (int i = 0; i < n; i++) { r.p = ifd + 2 + 12 * i; int tag = g16(), ty = g16(); uint32_t cnt = g32(); if (tag <= last) badf("tag %d after %d", tag, last); last = tag; static const int sz[13] = {0, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8}; if (ty < 1 || ty > 12) badf("type %d", ty); size_t by = (size_t)sz[ty] * cnt; if (by > 4) { uint32_t o = g32(); if (o & 1) badf("value of tag %d at odd %u", tag, o); r.p = o; } r.need(by); if (ty == 2) { if (!cnt || b[r.p + cnt - 1]) badf("string of tag %d is not terminated", tag); st[tag] = std::string((const char *)&b[r.p], strnlen((const char *)&b[r.p], cnt)); continue; } std::vector<double> v; for (uint32_t k = 0; k < cnt; k++) v.push_back(sz[ty] == 1 ? r.u8() : sz[ty] == 2 ? g16() : sz[ty] == 4 ? g32() : (r.skip(8), 0)); t[tag] = v; }
    r.p = ifd + 2 + 12 * n; if (g32()) badf("a second directory"); auto one = [&](int tag, double def) { auto i = t.find(tag); if (i == t.end()) { if (def < 0) badf("tag %d is missing", tag); return def; } if (i->second.empty()) badf("tag %d is empty", tag); return i->second[0]; }; d.w = one(256, -1); d.h = one(257, -1); int spp = one(277, 1), comp = one(259, -1), phot = one(262, -1), rps = std::min<double>(one(278, 4294967295.), d.h), sf = one(339, 1), pl = one(284, 1); auto bps = t[258]; if ((int)bps.size() != spp) badf("%zu sample sizes for %d samples", bps.size(), spp); for (double v : bps) if (v != bps[0]) badf("mixed samples"); d.bits = bps[0]; if (t.count(339)) { if ((int)t[339].size() != spp) badf("%zu sample formats", t[339].size()); for (double v : t[339]) if (v != sf) badf("mixed formats"); } if (one(274, 1) != 1) badf("orientation"); if (pl != 1) badf("planar"); if (d.w <= 0 || d.h <= 0 || rps <= 0) badf("sizes");
    if (phot != 1 && phot != 2) badf("photometric %d", phot); int base = phot == 2 ? 3 : 1, extra = spp - base; if (extra < 0 || extra > 1) badf("%d samples", spp); if (extra != (int)t[338].size()) badf("%d extra samples, %zu described", extra, t[338].size()); if (extra && t[338][0] != 2) badf("the extra sample is of kind %g", t[338][0]); size_t rb = (size_t)d.w * spp * d.bits / 8; int ns = (d.h + rps - 1) / rps; auto so = t[273], sc = t[279]; if ((int)so.size() != ns || (int)sc.size() != ns) badf("%zu strips, %d are needed", so.size(), ns); if (d.bits % 8 || d.bits > 64) badf("%d bits", d.bits); if (comp != 1 && comp != 5) badf("compression %d", comp); if (one(317, 1) != 1) badf("predictor");
    std::vector<uint8_t> px; for (int s = 0; s < ns; s++) { size_t want = rb * std::min(rps, d.h - s * rps), o = so[s], c = sc[s]; if (o + c > b.size() || o < 8) badf("strip %d at %zu of %zu bytes", s, o, c); if (comp == 1) { if (c != want) badf("strip %d has %zu bytes instead of %zu", s, c, want); px.insert(px.end(), b.begin() + o, b.begin() + o + c); continue; }
        std::vector<std::vector<uint8_t>> tab; auto reset = [&] { tab.resize(258); for (int i = 0; i < 256; i++) tab[i] = {(uint8_t)i}; }; reset(); size_t bit = 0, start = px.size(); int w = 9, prev = -1; bool fin = false; while (!fin) { if (bit + w > c * 8) badf("strip %d ends without an end code", s); int code = 0; for (int i = 0; i < w; i++, bit++) code = code << 1 | (b[o + bit / 8] >> (7 - bit % 8) & 1); if (bit == (size_t)w && code != 256) badf("strip %d starts with code %d", s, code); if (code == 257) fin = true; else if (code == 256) { reset(); w = 9; prev = -1; } else { std::vector<uint8_t> e; if (prev < 0) { if (code > 255) badf("code %d after a clear code", code); e = tab[code]; } else { if (code < (int)tab.size()) e = tab[code]; else if (code == (int)tab.size()) { e = tab[prev]; e.push_back(tab[prev][0]); } else badf("code %d of %zu", code, tab.size()); std::vector<uint8_t> q = tab[prev]; q.push_back(e[0]); tab.push_back(q); } px.insert(px.end(), e.begin(), e.end()); prev = code; if (tab.size() > 4096) badf("too many codes"); w = tab.size() + 1 >= 2048 + 0u ? 12 : tab.size() + 1 >= 1024 ? 11 : tab.size() + 1 >= 512 ? 10 : 9; } } if (px.size() - start != want) badf("strip %d holds %zu bytes instead of %zu", s, px.size() - start, want); }
    Frame f; f.size(d.w, d.h); int by = d.bits / 8; double mx = pow(2., d.bits) - 1; for (int y = 0; y < d.h; y++) for (int x = 0; x < d.w; x++) { double v[5]; for (int k = 0; k < spp; k++) { uint8_t q[8]; for (int i = 0; i < by; i++) q[i] = px[((size_t)y * d.w + x) * spp * by + k * by + (be ? by - 1 - i : i)]; if (sf == 3) { if (by == 4) { float z; memcpy(&z, q, 4); v[k] = z; } else if (by == 8) { double z; memcpy(&z, q, 8); v[k] = z; } else badf("floats of %d bits", d.bits); } else { uint64_t z = 0; memcpy(&z, q, by); v[k] = z / mx; } } f.at(x, y) = base == 1 ? RGBAd{v[0], v[0], v[0], extra ? v[1] : 1} : RGBAd{v[0], v[1], v[2], extra ? v[3] : 1}; }
    d.text["float"] = sf == 3 ? "1" : "0"; d.text["document"] = st[269]; d.text["author"] = st[315]; d.text["host"] = st[316]; d.text["description"] = st[270]; if (st.count(306)) { const std::string &q = st[306]; if (q.size() != 19 || q[4] != ':' || q[10] != ' ' || q[13] != ':') badf("date '%s'", q.c_str()); } d.ch = spp; d.sl = {f}; return d;
}
inline Decoded dec_sgi(const Bytes &b) {
    BR r(b); Decoded d; if (r.be16() != 474) badf("magic"); int st = r.u8(), bpc = r.u8(), dim = r.be16(); d.w = r.be16(); d.h = r.be16(); d.ch = r.be16(); if (st > 1 || (bpc != 1 && bpc != 2) || dim < 1 || dim > 3) badf("storage %d bytes %d dimension %d", st, bpc, dim); if (dim == 1 && d.h != 1) badf("dimension 1"); if (dim < 3 && d.ch != 1) badf("dimension %d with %d channels", dim, d.ch); if (!d.w || !d.h || d.ch < 1 || d.ch > 4) badf("%dx%d %d channels", d.w, d.h, d.ch); r.p = 24; r.skip(80); if (b[103]) badf("name not terminated"); if (r.be32()) badf("colour map"); r.p = 512; r.need(0); if (b.size() < 512) badf("short header");
    std::vector<int> v((size_t)d.w * d.h * d.ch); if (!st) { for (auto &q : v) q = bpc == 1 ? r.u8() : r.be16(); if (r.left()) badf("%zu bytes more", r.left()); }
    else { int n = d.h * d.ch; std::vector<uint32_t> o(n), l(n); for (auto &q : o) q = r.be32(); for (auto &q : l) q = r.be32(); size_t end = r.p; for (int i = 0; i < n; i++) { if (o[i] < r.p || (size_t)o[i] + l[i] > b.size()) badf("row %d at %u of %u bytes", i, o[i], l[i]); Bytes part(b.begin() + o[i], b.begin() + o[i] + l[i]); BR q(part); int x = 0; for (;;) { int c = bpc == 1 ? q.u8() : q.be16(), k = c & 127; if (!k) break; if (x + k > d.w) badf("row %d is longer than %d", i, d.w); if (c & 128) for (; k; k--) v[(size_t)i * d.w + x++] = bpc == 1 ? q.u8() : q.be16(); else { int p = bpc == 1 ? q.u8() : q.be16(); for (; k; k--) v[(size_t)i * d.w + x++] = p; } } if (x != d.w) badf("row %d has %d of %d pixels", i, x, d.w); if (q.left()) badf("row %d has %zu more bytes", i, q.left()); end = std::max(end, (size_t)o[i] + l[i]); } if (end != b.size()) badf("%zu bytes more", b.size() - end); }
    Frame f; f.size(d.w, d.h); double m = bpc == 1 ? 255 : 65535; for (int y = 0; y < d.h; y++) for (int x = 0; x < d.w; x++) { double c[4]; for (int k = 0; k < d.ch; k++) c[k] = v[((size_t)k * d.h + y) * d.w + x] / m; f.at(x, d.h - 1 - y) = d.ch < 3 ? RGBAd{c[0], c[0], c[0], d.ch == 2 ? c[1] : 1} : RGBAd{c[0], c[1], c[2], d.ch == 4 ? c[3] : 1}; } d.bits = bpc * 8; d.sl = {f}; return d;
}
inline Decoded dec_pcx(const Bytes &b) {
    BR r(b); Decoded d; if (r.u8() != 10) badf("manufacturer"); if (r.u8() != 5) badf("version"); if (r.u8() != 1) badf("encoding"); if (r.u8() != 8) badf("bits"); int x0 = r.le16(), y0 = r.le16(), x1 = r.le16(), y1 = r.le16(); d.w = x1 - x0 + 1; d.h = y1 - y0 + 1; r.p = 64; if (r.u8()) badf("reserved"); int pl = r.u8(), bpl = r.le16(); r.p = 128; if (d.w <= 0 || d.h <= 0 || bpl < d.w || (bpl & 1)) badf("width %d, %d bytes in a line", d.w, bpl); if (pl != 1 && pl != 3 && pl != 4) badf("%d planes", pl);
    std::vector<uint8_t> px; size_t tot = (size_t)bpl * pl * d.h; while (px.size() < tot) { int c = r.u8(), n = 1; if ((c & 192) == 192) { n = c & 63; c = r.u8(); if (!n) badf("an empty run"); } if (px.size() % bpl + n > (size_t)bpl) badf("a run crosses the end of a line"); px.insert(px.end(), n, c); } std::vector<RGBAd> pal; if (pl == 1) { if (r.u8() != 12) badf("no palette mark"); for (int i = 0; i < 256; i++) { int R = r.u8(), G = r.u8(), B = r.u8(); pal.push_back(rgb8(R, G, B)); } d.idx = true; } if (r.left()) badf("%zu bytes more", r.left());
    Frame f; f.size(d.w, d.h); for (int y = 0; y < d.h; y++) for (int x = 0; x < d.w; x++) { auto c = [&](int k) { return px[((size_t)y * pl + k) * bpl + x]; }; f.at(x, y) = pl == 1 ? pal[c(0)] : rgb8(c(0), c(1), c(2), pl == 4 ? c(3) : 255); } d.ch = pl == 1 ? 3 : pl; d.sl = {f}; return d;
}
inline Decoded dec_pnm(const Bytes &b) {
    BR r(b); Decoded d; if (r.u8() != 'P') badf("P"); int t = r.u8() - '0'; if (t < 1 || t > 6) badf("P%d", t); size_t line = 2, maxline = 0; auto ws = [](int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }; auto get = [&] { int c = r.u8(); if (c == '\n') line = 0; else maxline = std::max(maxline, ++line); return c; }; auto num = [&] { int c; do { c = get(); if (c == '#') while (get() != '\n') {} } while (ws(c) || c == '#'); if (c < '0' || c > '9') badf("character %d where a number should be", c); long v = 0; while (c >= '0' && c <= '9') { v = v * 10 + c - '0'; if (v > 99999999) badf("number"); if (!r.left()) return v; c = get(); } if (!ws(c)) badf("character %d after a number", c); return v; };
    d.w = num(); d.h = num(); int mx = t == 1 || t == 4 ? 1 : num(); if (d.w <= 0 || d.h <= 0 || mx < 1 || mx > 65535) badf("%dx%d maximum %d", d.w, d.h, mx); d.ch = t == 3 || t == 6 ? 3 : 1; d.bits = t == 1 || t == 4 ? 1 : mx > 255 ? 16 : 8; Frame f; f.size(d.w, d.h); for (int y = 0; y < d.h; y++) { int acc = 0; for (int x = 0; x < d.w; x++) { double c[3]; for (int k = 0; k < d.ch; k++) { int v; if (t < 4) { v = num(); } else if (t == 4) { if (x % 8 == 0) acc = r.u8(); v = acc >> (7 - x % 8) & 1; } else v = mx > 255 ? r.be16() : r.u8(); if (v > mx) badf("value %d of %d", v, mx); c[k] = d.bits == 1 ? 1 - v : v / (double)mx; } f.at(x, y) = d.ch == 1 ? RGBAd{c[0], c[0], c[0], 1} : RGBAd{c[0], c[1], c[2], 1}; } }
    if (t < 4) { while (r.left()) if (!ws(r.u8())) badf("characters after the pixels"); if (maxline > 70) badf("a line of %zu characters", maxline); } else if (r.left()) badf("%zu bytes more", r.left()); d.text["kind"] = std::string(1, '0' + t); d.sl = {f}; return d;
}
inline Decoded dec_psd(const Bytes &b) {
    BR r(b); Decoded d; if (!r.is("8BPS", 4)) badf("signature"); if (r.be16() != 1) badf("version"); for (int i = 0; i < 6; i++) if (r.u8()) badf("reserved"); d.ch = r.be16(); d.h = r.be32(); d.w = r.be32(); d.bits = r.be16(); int mode = r.be16(); if (d.w <= 0 || d.h <= 0 || d.w > 30000 || d.h > 30000) badf("size"); if (d.bits != 8 && d.bits != 16) badf("%d bits", d.bits); uint32_t n = r.be32(); std::vector<RGBAd> pal; if (mode == 2) { if (n != 768 || d.ch != 1 || d.bits != 8) badf("indexed: %u bytes, %d channels", n, d.ch); for (int i = 0; i < 256; i++) pal.push_back(rgb8(b.at(r.p + i), b.at(r.p + 256 + i), b.at(r.p + 512 + i))); r.skip(768); d.idx = true; } else { if (n) badf("colour data"); if (mode != 1 && mode != 3) badf("mode %d", mode); if (d.ch < (mode == 3 ? 3 : 1) || d.ch > 4) badf("mode %d with %d channels", mode, d.ch); }
    r.skip(r.be32()); r.skip(r.be32()); if (r.be16()) badf("compressed"); Frame f; f.size(d.w, d.h); double m = d.bits == 8 ? 255 : 65535; std::vector<double> v((size_t)d.w * d.h * d.ch); for (auto &q : v) q = d.bits == 8 ? r.u8() : r.be16(); if (r.left()) badf("%zu bytes more", r.left()); for (int y = 0; y < d.h; y++) for (int x = 0; x < d.w; x++) { auto c = [&](int k) { return v[((size_t)k * d.h + y) * d.w + x] / m; }; f.at(x, y) = mode == 2 ? pal[(int)(c(0) * 255 + .5)] : mode == 1 ? RGBAd{c(0), c(0), c(0), d.ch > 1 ? c(1) : 1} : RGBAd{c(0), c(1), c(2), d.ch > 3 ? c(3) : 1}; } if (mode == 2) d.ch = 3; d.sl = {f}; return d;
}
inline Decoded dec_hdr(const Bytes &b) {
    BR r(b); Decoded d; auto line = [&] { std::string s; int c; while ((c = r.u8()) != '\n') s += (char)c; return s; }; std::string s = line(); if (s != "#?RADIANCE" && s != "#?RGBE") badf("first line '%s'", s.c_str()); bool fmt = false; while (!(s = line()).empty()) { if (s == "FORMAT=32-bit_rle_rgbe") fmt = true; else if (s[0] != '#' && s.find('=') == std::string::npos) badf("header line '%s'", s.c_str()); } if (!fmt) badf("no FORMAT"); s = line(); int n = 0; if (sscanf(s.c_str(), "-Y %d +X %d%n", &d.h, &d.w, &n) != 2 || n != (int)s.size() || d.w <= 0 || d.h <= 0) badf("resolution '%s'", s.c_str());
    Frame f; f.size(d.w, d.h); for (int y = 0; y < d.h; y++) { std::vector<uint8_t> row((size_t)d.w * 4); r.need(4); bool rle = d.w >= 8 && d.w < 32768 && b[r.p] == 2 && b[r.p + 1] == 2 && b[r.p + 2] < 128; if (!rle) { for (auto &q : row) q = r.u8(); for (int x = 0; x < d.w; x++) if (row[x * 4] == 1 && row[x * 4 + 1] == 1 && row[x * 4 + 2] == 1) badf("an old run mark"); } else { r.p += 2; int w = r.be16(); if (w != d.w) badf("row of %d", w); for (int c = 0; c < 4; c++) for (int x = 0; x < w;) { int k = r.u8(); if (k > 128) { k -= 128; if (x + k > w) badf("a run beyond the row"); int v = r.u8(); while (k--) row[4 * x++ + c] = v; } else { if (!k) badf("an empty run"); if (x + k > w) badf("bytes beyond the row"); while (k--) row[4 * x++ + c] = r.u8(); } } }
        for (int x = 0; x < d.w; x++) { const uint8_t *q = &row[x * 4]; double e = q[3] ? ldexp(1., q[3] - 136) : 0; f.at(x, y) = RGBAd{q[0] * e, q[1] * e, q[2] * e, 1}; } } if (r.left()) badf("%zu bytes more", r.left()); d.ch = 3; d.sl = {f}; return d;
}
inline Decoded dec_wbmp(const Bytes &b) { BR r(b); Decoded d; if (r.u8() || r.u8()) badf("type"); auto mb = [&] { uint32_t v = 0; for (int i = 0; i < 5; i++) { int c = r.u8(); if (!i && c == 128) badf("a padded number"); v = v << 7 | (c & 127); if (!(c & 128)) return v; } badf("number"); return v; }; d.w = mb(); d.h = mb(); if (d.w <= 0 || d.h <= 0) badf("size"); Frame f; f.size(d.w, d.h); for (int y = 0; y < d.h; y++) { int acc = 0; for (int x = 0; x < d.w; x++) { if (x % 8 == 0) acc = r.u8(); double v = acc >> (7 - x % 8) & 1; f.at(x, y) = RGBAd{v, v, v, 1}; } } if (r.left()) badf("%zu bytes more", r.left()); d.bits = 1; d.ch = 1; d.sl = {f}; return d; }
inline double rawsample(const uint8_t *p, int bpc) { uint64_t v = 0; memcpy(&v, p, bpc); return v / (pow(2., bpc * 8) - 1); }
inline Decoded dec_raw(const Bytes &b) { BR r(b); Decoded d; d.w = r.le32(); d.h = r.le32(); int dep = r.le32(); d.ch = r.u8(); int bpc = r.u8(); d.bits = bpc * 8; if (d.w <= 0 || d.h <= 0 || dep <= 0 || d.ch < 1 || d.ch > 4 || (bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8)) badf("header %dx%dx%d %d %d", d.w, d.h, dep, d.ch, bpc); if (b.size() != 14 + (size_t)d.w * d.h * dep * d.ch * bpc) badf("%zu bytes", b.size()); return d; } // the samples are compared as bits
struct JErr { jpeg_error_mgr m; jmp_buf jb; char msg[JMSG_LENGTH_MAX]; };
struct JpegInfo { bool progressive = false; std::vector<std::vector<int>> q; bool jfif = false; };
// the reference decoder, plus a walk over the markers
inline Decoded dec_jpg(const Bytes &b, JpegInfo *ji = NULL) {
    Decoded d; { BR r(b); if (r.be16() != 0xFFD8) badf("no SOI"); bool end = false; while (!end) { if (r.u8() != 255) badf("no marker at %zu", r.p - 1); int m = r.u8(); while (m == 255) m = r.u8(); if (m == 0xD9) { end = true; break; } size_t at = r.p; int n = r.be16(); if (n < 2) badf("marker %x", m); r.need(n - 2); if (m == 0xE0 && n >= 16 && !memcmp(&b[r.p], "JFIF\0", 5) && ji) ji->jfif = true; if (m == 0xC2 && ji) ji->progressive = true; if (m == 0xDB && ji) { BR q(b, r.p); while (q.p < at + n) { int pq = q.u8(); std::vector<int> t(64); for (int &v : t) v = pq >> 4 ? q.be16() : q.u8(); if (ji->q.size() <= (size_t)(pq & 15)) ji->q.resize((pq & 15) + 1); ji->q[pq & 15] = t; } } r.p = at + n; if (m == 0xDA) { for (;;) { int c = r.u8(); if (c != 255) continue; int k = r.u8(); if (k == 0 || (k >= 0xD0 && k <= 0xD7)) continue; r.p -= 2; break; } } } if (r.left()) badf("%zu bytes after EOI", r.left()); }
    jpeg_decompress_struct ci; JErr je; ci.err = jpeg_std_error(&je.m); je.m.error_exit = [](j_common_ptr c) { JErr *e = (JErr *)c->err; c->err->format_message(c, e->msg); longjmp(e->jb, 1); }; je.m.emit_message = [](j_common_ptr c, int l) { if (l < 0) c->err->num_warnings++; }; static Frame f; if (setjmp(je.jb)) { jpeg_destroy_decompress(&ci); badf("libjpeg: %s", je.msg); } jpeg_create_decompress(&ci); jpeg_mem_src(&ci, (unsigned char *)b.data(), b.size()); jpeg_read_header(&ci, TRUE); jpeg_start_decompress(&ci); d.w = ci.output_width; d.h = ci.output_height; d.ch = ci.output_components; f.size(d.w, d.h); static std::vector<uint8_t> row; row.resize((size_t)d.w * d.ch); while (ci.output_scanline < ci.output_height) { int y = ci.output_scanline; uint8_t *p = row.data(); jpeg_read_scanlines(&ci, &p, 1); for (int x = 0; x < d.w; x++) f.at(x, y) = d.ch == 1 ? rgb8(p[x], p[x], p[x]) : rgb8(p[x * d.ch], p[x * d.ch + 1], p[x * d.ch + 2]); } jpeg_finish_decompress(&ci); int warn = je.m.num_warnings; jpeg_destroy_decompress(&ci); if (warn) badf("libjpeg warns"); d.sl = {f}; return d;
}
// C source: #defines and arrays of bytes
inline Decoded dec_c(const Bytes &b, const std::string &name, ILenum &fmt, std::vector<uint8_t> &px, std::vector<uint8_t> &pal, ILenum &paltype) {
    std::string s(b.begin(), b.end()); auto def = [&](const char *n, bool must = true) -> long { size_t p = s.find(std::string("#define ") + n + " "); if (p == std::string::npos) { if (must) badf("no %s", n); return -1; } return strtol(s.c_str() + p + 8 + strlen(n), NULL, 0); }; auto arr = [&](const std::string &n, std::vector<uint8_t> &o) { std::string h = "ILubyte " + n + "[] = {"; size_t p = s.find(h); if (p == std::string::npos) badf("no array %s", n.c_str()); const char *q = s.c_str() + p + h.size(); o.clear(); for (;;) { char *e; long v = strtol(q, &e, 10); if (e == q) break; if (v < 0 || v > 255) badf("element %ld", v); o.push_back(v); q = e; while (isspace((unsigned char)*q)) q++; if (*q == ',') q++; else break; } while (isspace((unsigned char)*q)) q++; if (strncmp(q, "};", 2)) badf("array %s does not end well", n.c_str()); };
    Decoded d; d.w = def("IMAGE_WIDTH"); d.h = def("IMAGE_HEIGHT"); int dep = def("IMAGE_DEPTH"), bpp = def("IMAGE_BPP"); fmt = def("IMAGE_FORMAT"); if (def("IMAGE_TYPE") != IL_UNSIGNED_BYTE && def("IMAGE_TYPE") != IL_BYTE) badf("type %lx", def("IMAGE_TYPE")); arr(name, px); if (px.size() != (size_t)d.w * d.h * dep * bpp || nch(fmt) != bpp) badf("%zu bytes for %dx%dx%d of %d", px.size(), d.w, d.h, dep, bpp); pal.clear(); paltype = IL_PAL_NONE; long n = def("IMAGE_PALSIZE", false); if (n > 0) { paltype = def("IMAGE_PALTYPE"); arr(name + "Pal", pal); if ((long)pal.size() != n) badf("palette of %zu bytes instead of %ld", pal.size(), n); } d.ch = bpp; d.text["depth"] = std::to_string(dep); return d;
}
