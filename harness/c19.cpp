// C19: type detection is correct and leaves the source untouched
#include "io.h"
#include "wild.h"
#include <unistd.h>
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static const struct { const char *ext; ILenum t; } EXTS[] = {{"tga", IL_TGA}, {"vda", IL_TGA}, {"icb", IL_TGA}, {"vst", IL_TGA}, {"jpg", IL_JPG}, {"jpe", IL_JPG}, {"jpeg", IL_JPG}, {"jif", IL_JPG}, {"jfif", IL_JPG}, {"jp2", IL_JP2}, {"jpx", IL_JP2}, {"j2k", IL_JP2}, {"j2c", IL_JP2}, {"dds", IL_DDS}, {"png", IL_PNG}, {"bmp", IL_BMP}, {"dib", IL_BMP}, {"gif", IL_GIF}, {"blp", IL_BLP}, {"cut", IL_CUT}, {"dcx", IL_DCX}, {"ct", IL_SCITEX}, {"dcm", IL_DICOM}, {"dicom", IL_DICOM}, {"dpx", IL_DPX}, {"exr", IL_EXR}, {"fits", IL_FITS}, {"ftx", IL_FTX}, {"hdr", IL_HDR}, {"iff", IL_IFF}, {"ilbm", IL_ILBM}, {"lbm", IL_ILBM}, {"ham", IL_ILBM}, {"ico", IL_ICO}, {"cur", IL_ICO}, {"icns", IL_ICNS}, {"iwi", IL_IWI}, {"jng", IL_JNG}, {"ktx", IL_KTX}, {"lif", IL_LIF}, {"mdl", IL_MDL}, {"mng", IL_MNG}, {"mp3", IL_MP3}, {"pcd", IL_PCD}, {"pcx", IL_PCX}, {"pic", IL_PIC}, {"pix", IL_PIX}, {"pbm", IL_PNM}, {"pgm", IL_PNM}, {"pnm", IL_PNM}, {"ppm", IL_PNM}, {"psd", IL_PSD}, {"pdd", IL_PSD}, {"psp", IL_PSP}, {"pxr", IL_PXR}, {"rot", IL_ROT}, {"sgi", IL_SGI}, {"bw", IL_SGI}, {"rgb", IL_SGI}, {"rgba", IL_SGI}, {"sun", IL_SUN}, {"ras", IL_SUN}, {"rs", IL_SUN}, {"texture", IL_TEXTURE}, {"tif", IL_TIF}, {"tiff", IL_TIF}, {"tpl", IL_TPL}, {"utx", IL_UTX}, {"vtf", IL_VTF}, {"wal", IL_WAL}, {"wbmp", IL_WBMP}, {"wdp", IL_WDP}, {"hdp", IL_WDP}, {"xpm", IL_XPM}};
static const ILenum VTYPES[] = {IL_TGA, IL_JPG, IL_DCX, IL_DDS, IL_PNG, IL_BMP, IL_BLP, IL_DICOM, IL_GIF, IL_HDR, IL_ICNS, IL_IWI, IL_ILBM, IL_KTX, IL_LIF, IL_MDL, IL_MP3, IL_PCX, IL_PIC, IL_PNM, IL_PSD, IL_PSP, IL_SCITEX, IL_SGI, IL_SUN, IL_TIF, IL_TPL, IL_VTF, IL_XPM};
static const char *extof(ILenum t) { switch (t) { case IL_SCITEX: return "ct"; case IL_PNM: return "pnm"; } for (auto &e : EXTS) if (e.t == t) return e.ext; return "?"; }
static std::string rcase(Rng &r, std::string s) { int m = r.below(4); for (char &c : s) if (m == 1 || (m == 2 && r.chance(50))) c = toupper(c); return s; }
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vio_off(); vio_reset(); clear_errors();
    if (r.chance(10)) { // names
        auto &e = EXTS[r.below(sizeof EXTS / sizeof *EXTS)]; static const char *pre[] = {"a.", "x/y.", "some dir/b.c.", "/abs/", "../up.png.", "."}; std::string p = r.pick(pre); if (p[p.size() - 1] == '/') p += "n."; std::string n = p + rcase(r, e.ext); ILenum t = ilTypeFromExt(n.c_str()); if (t != e.t) vh_fail("extension", "ilTypeFromExt(%s) gives %x instead of %x", n.c_str(), t, e.t);
        std::string j; int k = r.range(1, 8); for (int i = 0; i < k; i++) j += "qzxkvj0918"[r.below(10)]; bool known = false; for (auto &q : EXTS) known |= j == q.ext; if (!known && ilTypeFromExt(("a." + j).c_str()) != IL_TYPE_UNKNOWN) vh_fail("unknown-extension", "ilTypeFromExt(a.%s) gives a type", j.c_str()); std::string bare = e.ext; if (ilTypeFromExt(bare.c_str()) != IL_TYPE_UNKNOWN) vh_fail("no-extension", "ilTypeFromExt(%s), a name without extension, gives a type", e.ext);
        if (ilGetError() != IL_NO_ERROR) vh_fail("extension-error", "ilTypeFromExt leaves an error"); if (ilTypeFromExt("") != IL_TYPE_UNKNOWN || ilGetError() != IL_INVALID_PARAM || ilTypeFromExt(NULL) != IL_TYPE_UNKNOWN || ilGetError() != IL_INVALID_PARAM) vh_fail("extension-null", "ilTypeFromExt of no name does not fail with INVALID_PARAM"); vh_count("names"); vh_distinct(vh_hash(n.data(), n.size())); return;
    }
    FileGen g; Bytes b; std::string what, mut; int kind = r.below(10); bool text = false; if (kind < 8) { g = gen_any(r, vh_arg("fmt", "")); b = g.b; if (kind >= 5) mut = mutate(r, b); what = g.name; } else { int n = r.chance(30) ? r.below(20) : r.below(3000), m = r.below(4); b.resize(n); g.type = IL_TYPE_UNKNOWN; int c = (uint8_t)"\x00\xff\xaa" "a"[r.below(4)]; for (auto &x : b) x = m == 0 ? r.u32() : m == 1 ? (uint8_t)c : (uint8_t)"the quick\nozy"[r.below(13)]; text = m >= 2 && n > 0; if (m == 1 && c == 'a') text = n > 0; what = text ? "text" : m == 1 ? "constant bytes" : "random bytes"; g.name = what; }
    std::string fam = what.substr(0, what.find(' ')); bool whole = kind < 5, expect = whole && g.sniff; vh_context("%s%s, %zu bytes", what.c_str(), mut.c_str(), b.size()); vh_input(b.data(), b.size());
    ILuint id = ilGenImage(); ilBindImage(id); ImgOpt o; put(rnd_img(r, o)); if (r.chance(30)) ilRegisterNumImages(1); clear_errors(); Node ref = snap(ilGetCurImage()); ILenum probe = ilGenImage(); ilDeleteImage(probe);
    auto untouched = [&](const char *how) { if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != id) vh_fail("binding", "%s changes which image is bound", how); std::string d = nodediff(ref, snap(ilGetCurImage())); if (!d.empty()) vh_fail("image", "%s of %s%s changes the bound image: %s", how, what.c_str(), mut.c_str(), d.c_str()); };
    // detection from memory is the reference for the other sources
    vh_phase("determine-memory"); ILenum t0; { Bytes c(b); t0 = ilDetermineTypeL(c.data(), (ILuint)c.size()); } if (ilGetError() != IL_NO_ERROR) vh_fail("error", "detecting the type of %s%s raises an error", what.c_str(), mut.c_str()); untouched("detection from memory"); if (expect && t0 != g.type) vh_fail(("type-" + fam).c_str(), "%s (%zu bytes) is detected as %x instead of %x", what.c_str(), b.size(), t0, g.type); if (text && t0 != IL_TYPE_UNKNOWN && t0 != IL_TGA  // (a TGA has no signature)
        ) vh_fail("text", "text of %zu bytes is detected as %x", b.size(), t0); vh_count(expect ? "detected" : t0 == IL_TYPE_UNKNOWN ? "unknown" : "guessed");
    Bytes padded(r.chance(60) ? r.range(1, 1000) : 0); for (auto &x : padded) x = r.u32(); long off = padded.size(); padded.insert(padded.end(), b.begin(), b.end()); std::string nm = std::string(vh_tmpdir()) + "/t."; auto same = [&](const char *how, ILenum t) { untouched(how); if (t != t0) vh_fail((std::string("source-") + how + "-" + fam).c_str(), "%s%s (%zu bytes): detected as %x from %s, as %x from memory", what.c_str(), mut.c_str(), b.size(), t, how, t0); vh_count((std::string("via_") + how).c_str()); };
    auto pos = [&](const char *how, long p) { if (p != off) vh_fail((std::string("position-") + how).c_str(), "%s%s: %s moves the handle from %ld to %ld", what.c_str(), mut.c_str(), how, off, p); };
    { vh_phase("determine-handle"); std::string n = nm + "bin"; write_file(n, padded); FILE *f = fopen(n.c_str(), "rb"); fseek(f, off, SEEK_SET); ILenum t = ilDetermineTypeF(f); long p = ftell(f); fclose(f); unlink(n.c_str()); same("handle", t); pos("detection", p); }
    if (r.chance(50)) { vh_phase("determine-callback"); vio_on(); VFile *f = vhandle(padded, off); vread_garbage = r.chance(30); ILenum t = ilDetermineTypeF(f); vio_off(); if (!vmisuse.empty() || f->closes) vh_fail("callbacks", "detection: %s", vmisuse.c_str()); same("callback", t); pos("detection", f->pos); }
    if (r.chance(50)) { vh_phase("determine-name"); std::string n = nm + r.pick(std::vector<std::string>{"bin", "png", "tga", "x"}); write_file(n, b); ILenum t = ilDetermineType(n.c_str()); unlink(n.c_str()); same("name", t); if (ilGetError() != IL_NO_ERROR) vh_fail("error", "detecting the type of a file raises an error"); }
    if (r.chance(10)) { vh_phase("determine-missing"); ILenum t = ilDetermineType((nm + "missing").c_str()); if (t != IL_TYPE_UNKNOWN || ilGetError() != IL_COULD_NOT_OPEN_FILE) vh_fail("missing", "the type of a missing file is %x", t); clear_errors(); }
    // validation
    for (int i = 0; i < 5; i++) {
        ILenum t = i == 0 && kind < 8 ? g.type : r.pick(VTYPES); bool known = false; for (ILenum v : VTYPES) known |= v == t; if (!known) continue; const char *x = extof(t); vh_phase("valid-%s", x); clear_errors(); bool v0; { Bytes c(b); v0 = ilIsValidL(t, c.data(), (ILuint)c.size()); } untouched("validation"); if (expect && t == g.type && !v0) vh_fail(("valid-" + fam).c_str(), "%s is not a valid %s", what.c_str(), x); if (text && v0 && t != IL_TGA) vh_fail((std::string("valid-text-") + x).c_str(), "text of %zu bytes is a valid %s", b.size(), x); if (whole && v0 && t != g.type && expect && t != IL_TGA) vh_fail((std::string("valid-other-") + fam).c_str(), "%s is a valid %s", what.c_str(), x);
        auto eq = [&](const char *how, bool v) { untouched(how); if (v != v0) vh_fail((std::string("valid-source-") + x).c_str(), "%s%s (%zu bytes): validated as %s from %s: %d, from memory: %d", what.c_str(), mut.c_str(), b.size(), x, how, v, v0); };
        int s = r.below(3); if (s == 0) { std::string n = nm + "bin"; write_file(n, padded); FILE *f = fopen(n.c_str(), "rb"); fseek(f, off, SEEK_SET); bool v = ilIsValidF(t, f); long p = ftell(f); fclose(f); unlink(n.c_str()); eq("handle", v); pos("validation", p); } else if (s == 1) { vio_on(); VFile *f = vhandle(padded, off); vread_garbage = r.chance(30); bool v = ilIsValidF(t, f); vio_off(); if (!vmisuse.empty() || f->closes) vh_fail("callbacks", "validation: %s", vmisuse.c_str()); eq("callback", v); pos("validation", f->pos); } else { std::string n = nm + rcase(r, x); write_file(n, b); bool v = ilIsValid(t, n.c_str()); unlink(n.c_str()); eq("name", v); }
        vh_count(v0 ? "valid" : "invalid"); }
    vio_reset(); ilBindImage(0); ilDeleteImage(id); vh_distinct(vh_hash(b.data(), b.size())); vh_sample("%s%s, %zu bytes: type %x", what.c_str(), mut.c_str(), b.size(), t0);
}
