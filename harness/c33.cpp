// C33: images made and edited directly hold exactly what was given
#include "ops.h"
#include "ilu.h"
void vh_setup() { ilu_setup(); }
static Img now; static ILuint flags; static std::string trace; static int nsub[4]; // the model of the working image
static const ILenum NUMS[] = {IL_NUM_IMAGES, IL_NUM_FACES, IL_NUM_MIPMAPS, IL_NUM_LAYERS};
static void ask(ILenum what, const char *n, long want) { ILint a = ilGetInteger(what), b = -77; ilGetIntegerv(what, &b); if (a != want || b != want) vh_fail((std::string("query-") + n).c_str(), "%s reads %d (%d through the pointer) for %s, should be %ld; trace:%s", n, a, b, now.str().c_str(), want, trace.c_str()); vh_count("queries"); }
static void queries() {
    int b = now.bpp(), t = tsz(now.type); ask(IL_IMAGE_WIDTH, "width", now.w); ask(IL_IMAGE_HEIGHT, "height", now.h); ask(IL_IMAGE_DEPTH, "depth", now.d); ask(IL_IMAGE_BPP, "bytes-per-pixel", b); ask(IL_IMAGE_BITS_PER_PIXEL, "bits-per-pixel", b * 8); ask(IL_IMAGE_BPC, "bytes-per-channel", t); ask(IL_IMAGE_CHANNELS, "channels", nch(now.fmt)); ask(IL_IMAGE_FORMAT, "format", now.fmt); ask(IL_IMAGE_TYPE, "type", now.type); ask(IL_IMAGE_ORIGIN, "origin", now.origin);
    ask(IL_IMAGE_SIZE_OF_DATA, "size", (long)b * now.w * now.h * now.d); ask(IL_IMAGE_PLANESIZE, "plane-size", (long)b * now.w * now.h); ask(IL_IMAGE_DURATION, "duration", (int)now.dur); ask(IL_IMAGE_OFFX, "offset-x", (int)now.offx); ask(IL_IMAGE_OFFY, "offset-y", (int)now.offy); ask(IL_IMAGE_CUBEFLAGS, "cube-flags", (int)flags);
    int p = palbpp(now.palType); ask(IL_PALETTE_TYPE, "palette-type", now.palType); ask(IL_PALETTE_NUM_COLS, "colours", p ? now.pal.size() / p : 0); ask(IL_PALETTE_BPP, "palette-bytes", p); for (int i = 0; i < 4; i++) ask(NUMS[i], "sub-images", nsub[i]);
}
static bool clearpix(const uint8_t *p, const Img &g, const RGBAd &c) { double v[4]; clearchan(c, g.fmt, v); for (int k = 0; k < nch(g.fmt); k++) { double q = normval(p + k * tsz(g.type), g.type), tol = isflt(g.type) ? (g.type == IL_HALF ? 2e-3 : 1e-5) : 1.6 / tmax(g.type) + 2e-7; if (islum(g.fmt) && k == 0) tol = std::max(tol, 1.6 / 255); if (fabs(q - v[k]) > tol) return false; } return true; }
static void plain(Img &m) { m.origin = IL_ORIGIN_LOWER_LEFT; m.palType = IL_PAL_NONE; m.pal.clear(); m.dur = m.offx = m.offy = 0; }
void vh_case(Rng &r, uint64_t) {
    ilu_begin(r); trace.clear(); ImgOpt o; o.maxw = o.maxh = 12; o.maxd = 3; now = rnd_img(r, o); put(now); now.dur = ilGetInteger(IL_IMAGE_DURATION); now.offx = now.offy = 0; flags = 0; memset(nsub, 0, sizeof nsub); uint64_t sig = now.hash(); int n = r.range(1, 12);
    auto subs = [&] { memset(nsub, 0, sizeof nsub); };
    for (int i = 0; i < n; i++) {
        int op = r.below(16); if (op == 15 && r.chance(60)) op = 14; bool bad = r.chance(20); char b[160]; clear_errors(); bool refused = false, ok = true; vh_phase("op%d", op); sig = vh_mix(sig, op);
        switch (op) {
        case 0: case 1: case 2: { // made anew
            bool surf = op == 2; Img m = rnd_img(r, o); bool null = r.chance(30), zero = r.chance(20); ILubyte c = nch(m.fmt); ILenum f = m.fmt, t = m.type; ILuint w = m.w, h = m.h, d = m.d; if (zero) { if (m.w == 1) w = 0; if (m.h == 1) h = 0; if (m.d == 1) d = 0; }
            if (bad) switch (r.below(5)) { case 0: c = (c + r.range(1, 4)) % 5; if (c == nch(m.fmt)) c = 0; break; case 1: t = r.pick<ILenum>({0, 0x1399, 0x140B + 7}); break; case 2: w = 0x10000; h = 0x10000; break; case 3: w = 0x7fffffff; d = 5; break; default: c = 5; }
            snprintf(b, 160, " %s(%u,%u,%u,%u,%x,%x%s)", surf ? "surface" : "tex", w, h, d, c, f, t, null ? ",NULL" : ""); trace += b; ok = surf ? ilTexImageSurface(w, h, d, c, f, t, null || bad ? NULL : m.data.data()) : ilTexImage(w, h, d, c, f, t, null || bad ? NULL : m.data.data()); if (bad) { refused = true; break; }
            ILenum keep = now.origin; ILuint fl = flags; if (null) std::fill(m.data.begin(), m.data.end(), 0); plain(m); flags = 0; if (surf) { m.origin = keep; flags = fl; } else subs(); now = m; vh_count("made"); break; }
        case 3: { if (bad) { trace += " set(NULL)"; ok = ilSetData(NULL); refused = true; break; } Bytes x(now.data.size()); for (auto &v : x) v = r.u32(); if (isflt(now.type)) for (size_t k = 0; k < x.size(); k += tsz(now.type)) putnorm(&x[k], now.type, r.unit()); if (now.fmt == IL_COLOUR_INDEX) x = now.data, std::reverse(x.begin(), x.end()); if (now.fmt == IL_COLOUR_INDEX && tsz(now.type) > 1) break; ok = ilSetData(x.data()); now.data = x; trace += " set"; vh_count("data_set"); break; }
        case 4: { ILenum f = bad ? r.pick<ILenum>({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, 0x1234, 0}) : now.fmt == IL_RGB ? IL_BGR : now.fmt == IL_BGR ? IL_RGB : now.fmt == IL_RGBA ? IL_BGRA : now.fmt == IL_BGRA ? IL_RGBA : now.fmt; bool can = nch(f) == nch(now.fmt) && f != IL_ALPHA && (f == IL_RGB || f == IL_RGBA || f == IL_BGR || f == IL_BGRA || f == IL_LUMINANCE || f == IL_LUMINANCE_ALPHA || f == IL_COLOUR_INDEX);
            if (f == IL_COLOUR_INDEX && now.fmt != IL_COLOUR_INDEX) break; ilRegisterFormat(f); snprintf(b, 160, " format(%x)", f); trace += b; if (can) now.fmt = f; else { refused = true; ok = false; } vh_count("registered"); break; }
        case 5: { static const ILenum T[] = {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE}; ILenum t = bad ? r.pick<ILenum>({0x1399, 0, IL_RGB}) : T[r.below(8)]; if (now.fmt == IL_COLOUR_INDEX && t != now.type) break; bool can = !bad && tsz(t) == tsz(now.type); ilRegisterType(t); snprintf(b, 160, " type(%x)", t); trace += b; if (can) now.type = t; else { refused = true; ok = false; } vh_count("registered"); break; }
        case 6: { ILenum g = bad ? r.pick<ILenum>({0, 0x0600, 0x0603}) : r.chance(50) ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT; ilRegisterOrigin(g); snprintf(b, 160, " origin(%x)", g); trace += b; if (bad) { refused = true; ok = false; } else now.origin = g; vh_count("registered"); break; }
        case 7: { ILenum p = r.pick(PALTYPES); if (!palbpp(p)) break; int k = now.fmt == IL_COLOUR_INDEX ? 256 : r.range(1, 256); Bytes q((size_t)k * palbpp(p)); for (auto &v : q) v = r.u32(); snprintf(b, 160, " pal(%x,%d)", p, k); trace += b; if (bad) { int m = r.below(4); ilRegisterPal(m == 0 ? NULL : q.data(), m == 1 ? 0 : m == 2 ? (ILuint)q.size() - 1 : (ILuint)q.size(), m == 3 ? r.pick<ILenum>({IL_PAL_NONE, 0x77}) : p); refused = true; ok = false; break; } Bytes c(q); ilRegisterPal(c.data(), (ILuint)c.size(), p); for (auto &v : c) v = 0; now.pal = q; now.palType = p; vh_count("palettes"); break; }
        case 8: { ILuint v = r.chance(50) ? r.below(1000) : r.u32(); int k = r.below(5); snprintf(b, 160, " attr%d(%u)", k, v); trace += b; switch (k) { case 0: ok = ilSetDuration(v); now.dur = v; break; case 1: ilSetInteger(IL_IMAGE_DURATION, v); now.dur = v; break; case 2: ilSetInteger(IL_IMAGE_OFFX, v); now.offx = v; break; case 3: ilSetInteger(IL_IMAGE_OFFY, v); now.offy = v; break; default: ilSetInteger(IL_IMAGE_CUBEFLAGS, v); flags = v; } vh_count("attributes"); break; }
        case 9: { RGBAd c; for (double *p : {&c.r, &c.g, &c.b, &c.a}) *p = r.chance(20) ? r.below(2) : r.below(256) / 255.; if (r.chance(20)) c.g = c.b = c.r; float over = r.chance(20) ? 2.5f : 0; ilClearColour(c.r == 1 ? c.r + over : c.r, c.g, c.b, c.a == 0 ? c.a - over : c.a); snprintf(b, 160, " clear(%.3f,%.3f,%.3f,%.3f)", c.r, c.g, c.b, c.a); trace += b; ok = ilClearImage(); if (!ok) break; Img g = grab("clear");
            if (now.fmt == IL_COLOUR_INDEX) { Img w = now; w.data.assign(w.data.size(), 0); w.palType = IL_PAL_RGBA32; w.pal.clear(); for (double v : {c.r, c.g, c.b, c.a}) w.pal.push_back((uint8_t)(v * 255 + 1e-4)); for (int k = 0; k < 4 && g.pal.size() == 4; k++) if (abs(w.pal[k] - g.pal[k]) <= 1) w.pal[k] = g.pal[k]; now = w; }
            else { Img w = now; for (int z = 0; z < g.d; z++) for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) { if (g.data.size() != w.data.size()) break; if (!clearpix(g.px(x, y, z), g, c)) vh_fail("clear", "pixel (%d,%d,%d) of %s is not the clear colour (%g %g %g %g); trace:%s", x, y, z, g.str().c_str(), c.r, c.g, c.b, c.a, trace.c_str()); memcpy(&w.data[(size_t)(((size_t)z * w.h + y) * w.w + x) * w.bpp()], g.px(x, y, z), w.bpp()); } now = w; } ilClearColour(0, 0, 0, 0); vh_count("cleared"); break; }
        case 10: { // raw bytes, rows from the top
            std::string f = std::string(vh_tmpdir()) + "/raw.bin"; unlink(f.c_str()); bool over = r.chance(30), exists = r.chance(40); if (exists) write_file(f, Bytes(r.below(5000), 'x')); if (over) ilEnable(IL_FILE_OVERWRITE); else ilDisable(IL_FILE_OVERWRITE); snprintf(b, 160, " savedata(%d%d)", exists, over); trace += b; Bytes was; read_file(f, was); ok = ilSaveData(f.c_str()); ilDisable(IL_FILE_OVERWRITE); Bytes q; read_file(f, q); if (exists && !over) { refused = true; if (q != was) vh_fail("replaced", "ilSaveData replaces a file while overwriting is off; trace:%s", trace.c_str()); unlink(f.c_str()); break; }
            if (!ok) break; Bytes want; size_t row = (size_t)now.w * now.bpp(); for (int z = 0; z < now.d; z++) for (int y = 0; y < now.h; y++) { const uint8_t *p = &now.data[(size_t)z * row * now.h + (size_t)(now.origin == IL_ORIGIN_UPPER_LEFT ? y : now.h - 1 - y) * row]; want.insert(want.end(), p, p + row); } if (q != want) vh_fail("raw-bytes", "ilSaveData of %s writes %zu bytes, which are not its %zu; trace:%s", now.str().c_str(), q.size(), want.size(), trace.c_str()); vh_count("raw_saved");
            if (now.type == IL_UNSIGNED_BYTE && (now.fmt == IL_LUMINANCE || now.fmt == IL_RGB || now.fmt == IL_RGBA)) { trace += " loaddata"; if (!ilLoadData(f.c_str(), now.w, now.h, now.d, now.bpp())) vh_fail("raw-load", "ilLoadData fails: 0x%x; trace:%s", ilGetError(), trace.c_str()); plain(now); now.data = want; now.origin = IL_ORIGIN_UPPER_LEFT; flags = 0; subs(); vh_count("raw_loaded"); } unlink(f.c_str()); break; }
        case 11: { int k = r.below(3), c = r.range(0, 3); snprintf(b, 160, " num%d(%d)", k, c); trace += b; ok = k == 0 ? ilRegisterNumImages(c) : k == 1 ? ilRegisterNumFaces(c) : ilRegisterMipNum(c); nsub[k] = c; vh_count("chains"); break; }
        case 12: case 13: { // colour profiles
            int ia = r.below(4), ic = r.below(4); std::string dir = vh_tmpdir(), f = icc_file(dir, ia), g = icc_file(dir, ic); bool nul = r.chance(10), nulo = r.chance(10); snprintf(b, 160, " profile(%d,%d%s%s)", ia, ic, nul ? ",NULL in" : "", nulo ? ",NULL out" : ""); trace += b; int t = 0; bool sixteen = now.type == IL_SHORT || now.type == IL_UNSIGNED_SHORT; if (now.type == IL_BYTE || now.type == IL_UNSIGNED_BYTE || sixteen) switch (now.fmt) { case IL_LUMINANCE: t = sixteen ? TYPE_GRAY_16 : TYPE_GRAY_8; break; case IL_RGB: t = sixteen ? TYPE_RGB_16 : TYPE_RGB_8; break; case IL_BGR: t = sixteen ? TYPE_BGR_16 : TYPE_BGR_8; break; case IL_RGBA: t = sixteen ? TYPE_RGBA_16 : TYPE_RGBA_8; break; case IL_BGRA: t = sixteen ? TYPE_BGRA_16 : TYPE_BGRA_8; break; }
            bool can = t && !nul && !nulo && ia != 3 && ic != 3 && (now.fmt == IL_LUMINANCE) == (ia == 1) && (now.fmt == IL_LUMINANCE) == (ic == 1); ok = ilApplyProfile(nul ? NULL : (ILstring)f.c_str(), nulo ? NULL : (ILstring)g.c_str()); if (!can) { refused = true; break; } if (!ok) break;
            cmsHPROFILE a = cmsOpenProfileFromFile(f.c_str(), "r"), c = cmsOpenProfileFromFile(g.c_str(), "r"); cmsHTRANSFORM x = a && c ? cmsCreateTransform(a, t, c, t, INTENT_PERCEPTUAL, 0) : NULL; if (!x) vh_error("no transform"); Bytes w(now.data); cmsDoTransform(x, now.data.data(), w.data(), now.w * now.h * now.d); cmsDeleteTransform(x); cmsCloseProfile(a); cmsCloseProfile(c); now.data = w; vh_count("profiles"); break; }
        case 14: { trace += " read"; queries(); break; }
        case 15: { trace += " default"; ok = ilDefaultImage(); now.w = now.h = 64; now.d = 1; now.fmt = IL_BGR; now.type = IL_UNSIGNED_BYTE; plain(now); flags = 0; subs(); now.data.resize(now.size()); for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) { uint8_t *q = &now.data[(y * 64 + x) * 3]; bool on = (x / 8 + y / 8) & 1; q[0] = on ? 18 : 0; q[1] = on ? 246 : 0; q[2] = on ? 243 : 0; } vh_count("default_images"); break; }
        }
        ILenum e = ilGetError(); if (refused) { if (ok) vh_fail("accepted", "the last call should fail; trace:%s", trace.c_str()); if (e == IL_NO_ERROR) vh_fail("silent", "the last call fails without an error; trace:%s", trace.c_str()); vh_count("refused"); } else { if (!ok) vh_fail("refused", "the last call fails: %s; trace:%s", ilerr(e), trace.c_str()); if (e != IL_NO_ERROR) vh_fail("spurious-error", "the last call raises %s; trace:%s", ilerr(e), trace.c_str()); } clear_errors();
        // an indexed image made anew is given the palette it needs
        Img g = grab("step"); if (!g.same(now)) vh_fail("contents", "%s; trace:%s", imgdiff(g, now).c_str(), trace.c_str()); if (now.palType != IL_PAL_NONE && memcmp(ilGetPalette(), now.pal.data(), now.pal.size())) vh_fail("palette", "ilGetPalette does not give the palette; trace:%s", trace.c_str()); vh_count("steps"); sig = vh_mix(sig, now.hash());
        if (now.fmt == IL_COLOUR_INDEX && now.palType == IL_PAL_NONE) { Bytes q(1024); for (auto &v : q) v = r.u32(); ilRegisterPal(q.data(), 1024, IL_PAL_RGBA32); now.pal = q; now.palType = IL_PAL_RGBA32; }
    }
    queries(); std::string wf = wellformed(ilGetCurImage()); if (!wf.empty()) vh_fail("malformed", "%s; trace:%s", wf.c_str(), trace.c_str()); ilu_end("the calls"); vh_count("cases"); vh_distinct(sig); vh_sample("%s", trace.c_str());
}
