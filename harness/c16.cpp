// C16: the same image saves the same way to every sink, within the given buffer
#include "save.h"
#include "tree.h"
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
void vh_setup() { signal(SIGXFSZ, SIG_IGN); vmem_install(); ilInit(); iluInit(); }
// a buffer of n bytes inside one that shows whether anything else is written
static ILuint save_into(ILenum t, size_t n, Bytes &out, std::string &bad) { Bytes b(n + 128, 0xa5); ILuint k = ilSaveL(t, b.data() + 64, (ILuint)n); for (size_t i = 0; i < b.size(); i++) if ((i < 64 || i >= 64 + n) && b[i] != 0xa5) bad = "a byte outside the buffer is written (offset " + std::to_string((long)i - 64) + " of a buffer of " + std::to_string(n) + ")"; out.assign(b.begin() + 64, b.begin() + 64 + n); return k; }
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vio_off(); vio_reset(); clear_errors(); const SaveDef &s = pick_save(r, vh_arg("fmt", "")); SaveSet set = rnd_set(r); set.apply(); std::string key = s.n; auto K = [&](const char *k) { static std::string t; t = std::string(k) + "-" + key; return t.c_str(); };
    ILuint id = ilGenImage(); ilBindImage(id); Img m = save_img(r, s); if (r.chance(10)) { m = Img(); m.w = r.range(1, 300); m.h = r.range(1, 200); m.fmt = r.pick({IL_RGB, IL_RGBA, IL_LUMINANCE}); m.data.resize(m.size()); for (auto &b : m.data) b = r.chance(50) ? 7 : r.u32(); } put(m); if (r.chance(20)) { iluBuildMipmaps(); ilBindImage(id); } if (r.chance(10)) { ilRegisterNumImages(1); ilBindImage(id); } clear_errors();
    Node before = snap(ilGetCurImage()); vh_context("%s as %s%s", nodestr(before).substr(0, 200).c_str(), s.n, set.text().c_str()); vh_distinct(vh_mix(nodehash(before), s.t * 16 + set.rle + set.inter * 2 + set.comp * 4 + set.prog * 8));
    auto unchanged = [&](const char *how) { if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != id) vh_fail("binding", "saving to %s binds another image", how); std::string d = nodediff(before, snap(ilGetCurImage())); if (!d.empty()) vh_fail(K("changed"), "saving to %s changes the image: %s", how, d.c_str()); };
    Bytes prefix(r.chance(60) ? r.range(1, 300) : 0), old(r.chance(50) ? r.below(60000) : 0); for (auto &b : prefix) b = r.u32(); for (auto &b : old) b = r.u32(); std::string dir = vh_tmpdir();
    // every sink: the same bytes (the time in TGA and TIFF files may pass a second in between)
    Saved ref; std::string diff; for (int attempt = 0; attempt < 3; attempt++) { diff.clear(); bool have = false; int first = 0; for (int k = 0; k < SINKS; k++) { if (!sink_for(s, k)) continue; vh_phase("sink-%d", k); Saved o = save_by(s, k, dir, prefix, old); if (!o.bad.empty()) vh_fail(K("sink"), "saving to %s: %s", SINKNAME[k], o.bad.c_str()); if (!o.ok && o.err == IL_NO_ERROR) vh_fail(K("silent"), "saving to %s fails without an error", SINKNAME[k]); if (o.ok && o.err != IL_NO_ERROR) vh_fail(K("spurious"), "saving to %s succeeds and leaves %s", SINKNAME[k], ilerr(o.err)); unchanged(SINKNAME[k]); if (!have) { ref = o; first = k; have = true; continue; } if (o.ok != ref.ok) { vh_fail(K("result"), "saving to %s %s (%s), to %s %s (%s)", SINKNAME[first], ref.ok ? "succeeds" : "fails", ilerr(ref.err), SINKNAME[k], o.ok ? "succeeds" : "fails", ilerr(o.err)); } if (o.ok && o.b != ref.b) { size_t i = 0; while (i < o.b.size() && i < ref.b.size() && o.b[i] == ref.b[i]) i++; char t[300]; snprintf(t, 300, "%zu bytes from %s and %zu from %s differ at %zu", ref.b.size(), SINKNAME[first], o.b.size(), SINKNAME[k], i); diff = t; break; } vh_count("sinks"); } if (diff.empty() || (s.t != IL_TGA && s.t != IL_TIF)) break; }
    if (!diff.empty()) vh_fail(K("differs"), "%s", diff.c_str()); vh_count(ref.ok ? ("as_" + key).c_str() : "refused");
    if (ref.ok && ref.b.empty()) vh_fail(K("empty"), "saving succeeds without writing a byte"); vh_input(ref.b.data(), ref.b.size());
    // buffers that are too small, or just large enough
    if (sink_for(s, SINK_MEM)) { ILuint need = ilSaveL(s.t, NULL, 0); clear_errors(); if (ref.ok != (need > 0)) vh_fail(K("query"), "the size asked for is %u although saving %s", need, ref.ok ? "succeeds" : "fails"); for (int i = 0; i < 4; i++) { size_t n = ref.ok ? (i == 0 ? ref.b.size() - 1 : i == 1 ? r.below(std::min<size_t>(ref.b.size(), 200)) : r.below(ref.b.size())) : r.below(2000); vh_phase("small buffer"); Bytes out; std::string bad; ILuint k = save_into(s.t, n, out, bad); ILenum e = ilGetError(); if (!bad.empty()) vh_fail(K("overrun"), "%s", bad.c_str()); if (k) vh_fail(K("short"), "saving %zu bytes to a buffer of %zu reports %u", ref.b.size(), n, k); if (e == IL_NO_ERROR) vh_fail(K("short-silent"), "saving %zu bytes to a buffer of %zu fails without an error", ref.b.size(), n); clear_errors(); vh_count("small_buffers"); }
        unchanged("a small buffer"); if (ref.ok) { Bytes out; std::string bad; size_t n = ref.b.size() + r.below(3); ILuint k = save_into(s.t, n, out, bad); if (!bad.empty()) vh_fail(K("overrun"), "%s", bad.c_str()); if (k != ref.b.size()) vh_fail(K("returned"), "saving to a buffer of %zu returns %u, the file has %zu bytes", n, k, ref.b.size()); }
        if (r.chance(20)) { char c; if (ilSaveL(s.t, NULL, 5) || ilGetError() != IL_INVALID_PARAM) vh_fail("null", "saving to no buffer of 5 bytes does not fail with INVALID_PARAM"); (void)c; if (ilSaveF(s.t, NULL) || ilGetError() != IL_INVALID_PARAM) vh_fail("null-handle", "saving to no handle does not fail with INVALID_PARAM"); if (ilSave(s.t, NULL) || ilGetError() == IL_NO_ERROR || ilSaveImage(NULL) || ilGetError() == IL_NO_ERROR) vh_fail("null-name", "saving to no name does not fail with an error"); clear_errors(); vh_count("null"); } }
    // an existing file
    { vh_phase("existing file"); std::string nm = dir + "/e." + s.ext; Bytes had(r.below(3000)), now; for (auto &b : had) b = r.u32(); write_file(nm, had); bool over = r.chance(50), ext = r.chance(50), viamode = r.chance(50), set_at = true; if (viamode) { ilEnable(IL_FILE_OVERWRITE); set_at = true; } if (over) ilEnable(IL_FILE_OVERWRITE); else ilDisable(IL_FILE_OVERWRITE); (void)set_at; bool ok = ext ? ilSaveImage(nm.c_str()) : ilSave(s.t, nm.c_str()); ILenum e = ilGetError(); ilDisable(IL_FILE_OVERWRITE); clear_errors(); if (!read_file(nm, now)) vh_fail(K("lost"), "the existing file is gone"); unlink(nm.c_str()); if (!over) { if (ok) vh_fail(K("overwrote"), "an existing file is overwritten"); if (now != had) vh_fail(K("overwrote"), "an existing file changes although saving fails"); if (ref.ok && e != IL_FILE_ALREADY_EXISTS) vh_fail(K("exists-error"), "an existing file is refused with %s", ilerr(e)); vh_count("kept_files"); } else { if (ok != ref.ok) vh_fail(K("overwrite"), "overwriting %s (%s)", ok ? "succeeds" : "fails", ilerr(e)); if (ok && now.size() != ref.b.size()) vh_fail(K("overwrite-size"), "overwriting %zu bytes leaves %zu, should be %zu", had.size(), now.size(), ref.b.size()); vh_count("overwritten"); } unchanged("an existing file"); }
    // saves that cannot be completed
    if (ref.ok) for (int i = 0; i < 3; i++) { int k = r.below(6); std::string nm = dir + "/i." + s.ext; bool ok, whole = false; Bytes got; const char *how = ""; clear_errors(); vh_phase("incomplete-%d", k); unlink(nm.c_str()); switch (k) {
        case 0: { how = "a file in no directory"; ok = ilSave(s.t, (dir + "/none/i." + s.ext).c_str()); break; }
        case 1: { how = "a full disk"; struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = r.chance(40) ? 0 : r.below(ref.b.size()); setrlimit(RLIMIT_FSIZE, &l); ok = ilSave(s.t, nm.c_str()); setrlimit(RLIMIT_FSIZE, &o); break; }
        case 2: { if (!sink_for(s, SINK_HANDLE)) continue; how = "a handle open for reading"; write_file(nm, prefix); FILE *f = fopen(nm.c_str(), "rb"); ok = ilSaveF(s.t, f); fclose(f); break; }
        case 3: { if (!sink_for(s, SINK_CBHANDLE)) continue; how = "a full device"; vio_reset(); vio_on(); VFile *f = vhandle(prefix, (long)prefix.size()); f->wr = true; f->limit = (long)prefix.size() + r.below(ref.b.size()); ok = ilSaveF(s.t, f); vio_off(); whole = !f->failed; if (!vmisuse.empty()) vh_fail(K("misuse"), "%s", vmisuse.c_str()); break; }
        case 4: { if (!sink_for(s, SINK_CBNAME)) continue; how = "callbacks that fail"; vio_reset(); vio_on(); vio_fail = 0; vio_sticky = r.chance(50); long n = 0; { vio_fail = 1 << 28; ilSave(s.t, (std::string("x.") + s.ext).c_str()); n = vio_ops; vio_reset(); } vio_fail = r.below(n + 2); clear_errors(); ok = ilSave(s.t, (std::string("x.") + s.ext).c_str()); whole = !vio_hit; got = vdisk[std::string("x.") + s.ext]; if (vio_hit && ok && got.size() == ref.b.size() && s.t != IL_TGA && s.t != IL_TIF && got == ref.b) whole = true; vio_off(); for (auto *f : vfiles) if (f->closes != 1) vh_fail(K("open"), "a file stays open after a failure"); if (!vmisuse.empty()) vh_fail(K("misuse"), "%s", vmisuse.c_str()); vio_sticky = true; break; }
        default: { if (!sink_for(s, SINK_CBHANDLE)) continue; how = "a handle that fails"; vio_reset(); vio_on(); VFile *f = vhandle(prefix, (long)prefix.size()); f->wr = true; vio_sticky = r.chance(50); vio_fail = r.below(r.chance(50) ? 12 : 200); ok = ilSaveF(s.t, f); vio_off(); whole = !vio_hit || (f->b.size() == prefix.size() + ref.b.size() && std::equal(ref.b.begin(), ref.b.end(), f->b.begin() + prefix.size())); vio_sticky = true; if (f->closes) vh_fail(K("closed"), "the handle given is closed"); break; } }
        ILenum e = ilGetError(); bool hit = vio_hit; long at = vio_fail; vio_reset(); unlink(nm.c_str()); if (!whole && ok) vh_fail((std::string("incomplete-") + std::to_string(k) + "-" + key).c_str(), "saving to %s succeeds (operation %ld)", how, at); if (whole && !ok && !hit) vh_fail(K("incomplete-refused"), "saving to %s fails although nothing is missing (%s)", how, ilerr(e)); if (!ok && e == IL_NO_ERROR) vh_fail((std::string("incomplete-silent-") + std::to_string(k) + "-" + key).c_str(), "saving to %s fails without an error", how); clear_errors(); unchanged(how); if (!whole) vh_count("incomplete"); }
    ilBindImage(0); ilDeleteImage(id); vio_reset(); vh_sample("%s as %s%s: %zu bytes", m.str().c_str(), s.n, set.text().c_str(), ref.b.size());
}
