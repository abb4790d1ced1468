// C05: what is written is valid to decoders written from the specifications
#include "save.h"
#include <unistd.h>
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static std::map<std::string, int> xx;
static Frame bitframe(const uint8_t *p, int w, int h, ILenum fmt, ILenum type) { Img q; q.w = w; q.h = h; q.fmt = fmt; q.type = type; q.origin = IL_ORIGIN_UPPER_LEFT; q.data.assign(p, p + q.size()); Frame f; f.size(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f.at(x, y) = q.rgba(x, y); return f; }
void vh_case(Rng &r, uint64_t) {
    clear_errors(); static ILuint id = 0; if (!id) id = ilGenImage(); ilBindImage(id); const SaveDef &s = pick_save(r, vh_arg("fmt", "bmp,tga,png,tif,sgi,pcx,ppm,pgm,pbm,psd,raw,hdr,jpg,wbmp,vtf,chead")); SaveSet set = rnd_set(r); set.apply(); Img m = save_img(r, s); std::string key = s.n; bool chead = s.t == IL_CHEAD; auto K = [&](const char *k) { static std::string t; t = std::string(k) + "-" + key; return t.c_str(); };
    vh_context("save %s as %s%s", m.str().c_str(), s.n, set.text().c_str()); put(m); FileModel fm = file_model(s, m, set); std::string nm = std::string(vh_tmpdir()) + "/f." + s.ext; Bytes b; bool named = chead || s.t == IL_PNM || r.chance(30), ok; unlink(nm.c_str());
    if (named) { ok = ilSave(s.t, nm.c_str()); if (ok && !read_file(nm, b)) vh_fail("no-file", "saving as %s reports success without a file", s.n); unlink(nm.c_str()); } else { ILuint n = ilSaveL(s.t, NULL, 0); ok = n > 0; if (ok) { b.resize(n); ILuint k = ilSaveL(s.t, b.data(), n); if (!k || k > n) vh_fail(K("size"), "%s: the size is %u, %u bytes are written (%s)", m.str().c_str(), n, k, ilerr(ilGetError())); b.resize(k); } }
    ILenum er = ilGetError(); vh_distinct(vh_mix(m.hash(), s.t * 16 + set.rle + set.inter * 2 + set.comp * 4)); if (!fm.fmt) { if (ok) vh_fail(K("accepted"), "%s is saved as %s", m.str().c_str(), s.n); if (er == IL_NO_ERROR) vh_fail(K("silent"), "%s: no error", m.str().c_str()); vh_count("refused"); return; }
    if (!ok) vh_fail(K("failed"), "%s is not saved as %s: %s", m.str().c_str(), s.n, ilerr(er)); if (er != IL_NO_ERROR) vh_fail(K("spurious-error"), "%s: %s", m.str().c_str(), ilerr(er)); vh_input(b.data(), b.size()); vh_phase("decode");
    try { Decoded d; JpegInfo ji; ILenum cf = 0, pt = 0; std::vector<uint8_t> px, pal; std::string e; int nz = fm.only_first ? 1 : m.d;
        auto meta = [&](const char *k, ILenum en, size_t max) { auto i = set.str.find(en); std::string want = i == set.str.end() ? "" : i->second.substr(0, max); if (d.text[k] != want) vh_fail(K("text"), "the %s is '%s', should be '%s'", k, d.text[k].c_str(), want.c_str()); if (!want.empty()) vh_count("texts"); };
        auto shape = [&](int ch, int bits, bool idx) { if (d.ch != ch || d.bits != bits || d.idx != idx) vh_fail(K("shape"), "%s is saved as %s with %d channels of %d bits%s", m.str().c_str(), s.n, d.ch, d.bits, d.idx ? " (indexed)" : ""); };
        int bits = tsz(fm.type) * 8; bool idx = fm.fmt == IL_COLOUR_INDEX;
        if (key == "bmp") { d = dec_bmp(b); shape(nch(fm.fmt) == 4 ? 4 : 3, 8, idx); }
        else if (key == "tga") { d = dec_tga(b); shape(idx ? 3 : nch(fm.fmt), 8, idx); if ((b[2] & 8) != (set.rle ? 8 : 0)) vh_fail("rle-tga", "type %d with compression %s", b[2], set.rle ? "on" : "off"); meta("id", IL_TGA_ID_STRING, 254); meta("author", IL_TGA_AUTHNAME_STRING, 40); meta("comment", IL_TGA_AUTHCOMMENT_STRING, 80); }
        else if (key == "png") { d = dec_png(b); if (idx) { if (!d.idx || d.bits != 8) vh_fail("shape-png", "an indexed image of %d bits", d.bits); } else shape(nch(fm.fmt), bits, false); if ((b[28] == 1) != set.inter) vh_fail("interlace-png", "interlacing is %d", b[28]); for (auto p : {std::make_pair("Author", IL_PNG_AUTHNAME_STRING), std::make_pair("Description", IL_PNG_DESCRIPTION_STRING), std::make_pair("Title", IL_PNG_TITLE_STRING)}) meta(p.first, p.second, 9999); }
        else if (key == "tif") { d = dec_tif(b); shape(nch(fm.fmt), bits, false); if ((d.text["float"] == "1") != isflt(fm.type)) vh_fail("float-tif", "%s: floats %s", m.str().c_str(), d.text["float"].c_str()); meta("document", IL_TIF_DOCUMENTNAME_STRING, 9999); meta("author", IL_TIF_AUTHNAME_STRING, 9999); meta("host", IL_TIF_HOSTCOMPUTER_STRING, 9999); meta("description", IL_TIF_DESCRIPTION_STRING, 9999); }
        else if (key == "sgi") { d = dec_sgi(b); shape(nch(fm.fmt), bits, false); if (b[2] != (set.rle && bits == 8)) vh_fail("rle-sgi", "storage %d with compression %s", b[2], set.rle ? "on" : "off"); }
        else if (key == "pcx") { d = dec_pcx(b); shape(idx || fm.fmt == IL_LUMINANCE ? 3 : nch(fm.fmt), 8, idx || fm.fmt == IL_LUMINANCE); }
        else if (s.t == IL_PNM) { d = dec_pnm(b); int kind = (key == "pbm" ? 1 : key == "pgm" ? 2 : 3) + (set.comp ? 3 : 0); if (d.text["kind"] != std::to_string(kind)) vh_fail("kind-pnm", "%s is P%s instead of P%d", nm.c_str(), d.text["kind"].c_str(), kind); if (key == "pbm") { if (!iscol(m.fmt) && tsz(m.type) == 1) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { double l = m.rgba(x, uly(m, y)).r; if ((l > 127.5 / 255) != (d.f().at(x, y).r > .5)) vh_fail("bit-pbm", "pixel (%d,%d) with grey %.4g becomes %g", x, y, l, d.f().at(x, y).r); } for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { double v[4]; expchan(m.rgba(x, uly(m, y)), m.fmt, IL_LUMINANCE, v); if (fabs(v[0] - .5) > 0.01 && (v[0] > .5) != (d.f().at(x, y).r > .5)) vh_fail("bit-pbm", "pixel (%d,%d) with brightness %.4g becomes %g", x, y, v[0], d.f().at(x, y).r); } vh_count("pictures"); vh_count("as_pbm"); return; } else shape(nch(fm.fmt), bits, false); }
        else if (key == "psd") { d = dec_psd(b); shape(idx ? 3 : nch(fm.fmt), bits, idx); }
        else if (key == "hdr") { d = dec_hdr(b); if (issigned(m.type)) { vh_count("as_hdr"); return; } Img q = m; for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { RGBAd c = m.rgba(x, uly(m, y)), g = d.f().at(x, y); if (m.fmt == IL_ALPHA) c = RGBAd{0, 0, 0, 1}; double a[3] = {c.r, c.g, c.b}, v[3] = {g.r, g.g, g.b}, mx = std::max(a[0], std::max(a[1], a[2])); for (int k = 0; k < 3; k++) if (!(fabs(a[k] - v[k]) <= mx / 127.9 + 1e-7)) vh_fail("wrong-hdr", "channel %d of pixel (%d,%d) is %.6g, should be %.6g (brightest %.6g)", k, x, y, v[k], a[k], mx); } if (m.w >= 8 && m.w < 32768 && false) {} vh_count("pictures"); vh_count("as_hdr"); return; }
        else if (key == "jpg") { d = dec_jpg(b, &ji); if (d.w != m.w || d.h != m.h) vh_fail("size-jpg", "%s is %dx%d", m.str().c_str(), d.w, d.h); shape(nch(fm.fmt), 8, false); if (ji.progressive != set.prog) vh_fail("progressive-jpg", "progressive %d instead of %d", ji.progressive, set.prog); if (!ji.jfif) vh_fail("jfif-jpg", "no JFIF marker"); Img q = m; bool flat = true; for (size_t i = 0; i < (size_t)m.w * m.h; i++) if (memcmp(&m.data[i * m.bpp()], &m.data[0], m.bpp())) flat = false; if (flat && set.quality >= 90) { e = modeldiff(m, fm, d.f(), 0, 4 / 255.); if (!e.empty()) vh_fail("wrong-jpg", "%s", e.c_str()); vh_count("flat_jpg"); } vh_count("pictures"); vh_count("as_jpg"); return; }
        else if (key == "wbmp") { d = dec_wbmp(b); if (d.w != m.w || d.h != m.h) vh_fail("size-wbmp", "%s is %dx%d", m.str().c_str(), d.w, d.h); std::map<std::vector<double>, int> cols; auto col = [&](int x, int y, int z = 0) { RGBAd c = m.rgba(x, uly(m, y), z); auto cl = [](double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }; return std::vector<double>{cl(c.r), cl(c.g), cl(c.b)}; }; std::set<std::vector<double>> all; for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { all.insert(col(x, y, z)); if (!z) cols[col(x, y)]++; } if (all.size() <= 2 && m.fmt != IL_ALPHA && !issigned(m.type)) { auto l = [&](const std::vector<double> &c) { return islum(m.fmt) ? c[0] : c[0] * LUMW[0] + c[1] * LUMW[1] + c[2] * LUMW[2]; }; auto a = cols.begin()->first, z = cols.rbegin()->first; double la = l(a), lz = l(z), th = cols.size() == 1 ? .5 : (la + lz) / 2; bool far = cols.size() == 1 ? fabs(la - .5) > .02 : fabs(la - lz) > .05; if (cols.size() == 2) { bool cell = true; for (int k = 0; k < 3; k++) if (fabs(a[k] - z[k]) >= 8.01 / 255) cell = false; if (cell) far = false; } if (far) { for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if ((d.f().at(x, y).r > .5) != (l(col(x, y)) > th)) vh_fail("wrong-wbmp", "pixel (%d,%d) of brightness %.4g (of %zu colours: %.4g %.4g %.4g / %.4g %.4g %.4g) becomes %g", x, y, l(col(x, y)), cols.size(), a[0], a[1], a[2], z[0], z[1], z[2], d.f().at(x, y).r); vh_count("two_colours"); } } vh_count("pictures"); vh_count("as_wbmp"); return; }
        else if (key == "raw") { d = dec_raw(b); shape(nch(fm.fmt), bits, false); if ((int)(b[8] | b[9] << 8) != m.d) badf("depth"); size_t pl = (size_t)m.w * m.h * nch(fm.fmt) * tsz(fm.type); if (d.w != m.w || d.h != m.h) badf("%dx%d", d.w, d.h); for (int z = 0; z < m.d; z++) d.sl.push_back(bitframe(&b[14 + z * pl], m.w, m.h, fm.fmt, fm.type)); }
        else if (key == "vtf") { if (b.size() < 80 || memcmp(&b[0], "VTF", 4)) badf("signature"); BR q(b, 4); int v0 = q.le32(), v1 = q.le32(), hs = q.le32(); d.w = q.le16(); d.h = q.le16(); if (v0 != 7 || v1 > 4 || hs != 80) badf("version %d.%d header %d", v0, v1, hs); q.p = 24; int fr = q.le16(); q.p = 52; int hf = q.le32(), mips = q.u8(); uint32_t lf = q.le32(); int lw = q.u8(), lh = q.u8(), dep = q.le16(); if (fr != 1 || mips != 1 || lf != 0xffffffffu || lw || lh || dep > 1) badf("frames %d mipmaps %d low format %x %dx%d depth %d", fr, mips, lf, lw, lh, dep); ILenum want = hf == 0 ? IL_RGBA : hf == 2 ? IL_RGB : hf == 3 ? IL_BGR : hf == 5 ? IL_LUMINANCE : hf == 6 ? IL_LUMINANCE_ALPHA : hf == 8 ? IL_ALPHA : hf == 12 ? IL_BGRA : hf == 25 ? IL_RGBA : 0; if (want != fm.fmt || (hf == 25) != (fm.type == IL_UNSIGNED_SHORT)) vh_fail("shape-vtf", "%s is saved with format %d", m.str().c_str(), hf); if (d.w != m.w || d.h != m.h || b.size() != 80 + (size_t)m.w * m.h * nch(want) * tsz(fm.type)) badf("%zu bytes for %dx%d", b.size(), d.w, d.h); d.sl.push_back(bitframe(&b[80], m.w, m.h, want, fm.type)); }
        else { d = dec_c(b, "IL_IMAGE", cf, px, pal, pt); if (cf != fm.fmt || d.text["depth"] != std::to_string(m.d) || d.w != m.w || d.h != m.h) vh_fail("shape-chead", "%s is saved as %dx%dx%s of format %x", m.str().c_str(), d.w, d.h, d.text["depth"].c_str(), cf); if (pal != std::vector<uint8_t>(m.pal.begin(), m.pal.end()) || pt != m.palType) vh_fail("palette-chead", "%s: palette of %zu bytes, type %x", m.str().c_str(), pal.size(), pt); size_t pl = (size_t)m.w * m.h * nch(cf); for (int z = 0; z < m.d; z++) { if (idx) { Img q = m; q.origin = IL_ORIGIN_UPPER_LEFT; q.data.assign(&px[z * pl], &px[z * pl] + pl); q.d = 1; Frame f; f.size(m.w, m.h); for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) f.at(x, y) = q.rgba(x, y); d.sl.push_back(f); } else d.sl.push_back(bitframe(&px[z * pl], m.w, m.h, cf, IL_UNSIGNED_BYTE)); } }
        for (int z = 0; z < nz; z++) { e = modeldiff(m, fm, d.sl.at(z), z); if (!e.empty()) vh_fail(K("wrong"), "%s", e.c_str()); } vh_count("pictures"); vh_count(("as_" + key).c_str()); if (exact_model(m, fm)) vh_count("exact");
    } catch (const BadFile &q) { vh_fail(K("invalid"), "%s saved as %s is not a valid file: %s", m.str().c_str(), s.n, q.why.c_str()); }
    vh_sample("%s as %s%s", m.str().c_str(), s.n, set.text().c_str());
}
