// C11: error queue faithful and bounded
#include "vh.h"
#include <deque>
#include <unistd.h>
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
typedef std::function<void()> Op;
struct EOp { const char *name; Op f; ILenum err; };
static std::vector<EOp> bad, good;
static std::string existing;
static void prep() {
    if (!bad.empty()) return;
    existing = std::string(vh_tmpdir()) + "/exists.bmp"; FILE *f = fopen(existing.c_str(), "wb"); fputs("x", f); fclose(f);
    bad.push_back({"ilEnable(bad)", [] { ilEnable(0xBAD0); }, IL_INVALID_ENUM});
    bad.push_back({"ilDisable(bad)", [] { ilDisable(0xBAD0); }, IL_INVALID_ENUM});
    bad.push_back({"ilIsEnabled(bad)", [] { ilIsEnabled(0xBAD0); }, IL_INVALID_ENUM});
    bad.push_back({"ilGetInteger(bad)", [] { ilGetInteger(0xBAD0); }, IL_INVALID_ENUM});
    bad.push_back({"ilGetString(bad)", [] { ilGetString(0xBAD0); }, IL_INVALID_ENUM});
    bad.push_back({"ilSetInteger(bad mode)", [] { ilSetInteger(0xBAD0, 1); }, IL_INVALID_ENUM});
    bad.push_back({"ilSetInteger(bad value)", [] { ilSetInteger(IL_JPG_QUALITY, 1000); }, IL_INVALID_PARAM});
    bad.push_back({"ilOriginFunc(bad)", [] { ilOriginFunc(0xBAD0); }, IL_INVALID_PARAM});
    bad.push_back({"ilFormatFunc(bad)", [] { ilFormatFunc(0xBAD0); }, IL_INVALID_PARAM});
    bad.push_back({"ilTypeFunc(bad)", [] { ilTypeFunc(0xBAD0); }, IL_INVALID_PARAM});
    bad.push_back({"ilCompressFunc(bad)", [] { ilCompressFunc(0xBAD0); }, IL_INVALID_PARAM});
    bad.push_back({"ilHint(bad)", [] { ilHint(0xBAD0, IL_DONT_CARE); }, IL_INVALID_ENUM});
    bad.push_back({"ilPopAttrib(underflow)", [] { ilPopAttrib(); }, IL_STACK_UNDERFLOW});
    bad.push_back({"ilSetString(NULL)", [] { ilSetString(IL_TGA_ID_STRING, NULL); }, IL_INVALID_PARAM});
    bad.push_back({"ilSetString(bad)", [] { ilSetString(0xBAD0, "x"); }, IL_INVALID_ENUM});
    bad.push_back({"ilLoadImage(missing)", [] { ilLoadImage("/nonexistent/none.bmp"); }, IL_COULD_NOT_OPEN_FILE});
    bad.push_back({"ilActiveImage(999)", [] { ilActiveImage(999); }, IL_ILLEGAL_OPERATION});
    bad.push_back({"ilActiveMipmap(999)", [] { ilActiveMipmap(999); }, IL_ILLEGAL_OPERATION});
    bad.push_back({"ilSave(existing)", [] { ilDisable(IL_FILE_OVERWRITE); ilSave(IL_BMP, existing.c_str()); }, IL_FILE_ALREADY_EXISTS});
    bad.push_back({"iluImageParameter(bad)", [] { iluImageParameter(0xBAD0, 0); }, ILU_INVALID_ENUM});
    bad.push_back({"iluSetLanguage(bad)", [] { iluSetLanguage(0xBAD0); }, IL_INVALID_ENUM});
    bad.push_back({"ilTypeFromExt(NULL)", [] { ilTypeFromExt(NULL); }, IL_INVALID_PARAM});
    bad.push_back({"ilGetIntegerv(NULL)", [] { ilGetIntegerv(IL_IMAGE_WIDTH, NULL); }, IL_INVALID_PARAM});
    bad.push_back({"ilCopyPixels(NULL)", [] { ilCopyPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, NULL); }, IL_INVALID_PARAM});
    bad.push_back({"iluScale/illegal crop", [] { iluCrop(0, 0, 0, 60000, 60000, 1); }, ILU_ILLEGAL_OPERATION});
    good.push_back({"ilEnable", [] { ilEnable(IL_ORIGIN_SET); ilDisable(IL_ORIGIN_SET); }, 0});
    good.push_back({"ilGetInteger", [] { ilGetInteger(IL_IMAGE_WIDTH); ilGetInteger(IL_JPG_QUALITY); ilGetInteger(IL_CUR_IMAGE); }, 0});
    good.push_back({"ilSetInteger", [] { ilSetInteger(IL_JPG_QUALITY, 50); ilSetInteger(IL_IMAGE_CUBEFLAGS, 0); ilSetInteger(IL_IMAGE_OFFX, 3); }, 0});
    good.push_back({"ilGenImages", [] { ILuint i = ilGenImage(); ilDeleteImage(i); }, 0});
    good.push_back({"ilTexImage", [] { ILubyte d[12] = {0}; ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, d); }, 0});
    good.push_back({"convert", [] { ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE); ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE); }, 0});
    good.push_back({"save+load", [] { static ILubyte b[65536]; ILenum t[] = {IL_BMP, IL_TGA, IL_PNG, IL_JPG, IL_PNM, IL_SGI, IL_PCX, IL_TIF}; static int k = 0; ILenum T = t[k++ % 8]; ILuint n = ilSaveL(T, b, sizeof b); if (n) ilLoadL(T, b, n); }, 0});
    good.push_back({"push/pop", [] { ilPushAttrib(IL_ALL_ATTRIB_BITS); ilPopAttrib(); }, 0});
    good.push_back({"push/pop some", [] { ilPushAttrib(IL_ORIGIN_BIT); ilPopAttrib(); }, 0});
    good.push_back({"filter", [] { iluFlipImage(); iluMirror(); iluNegative(); }, 0});
    good.push_back({"detect", [] { static const char h[] = "GIF89a\1\0\1\0"; ilDetermineTypeL(h, 10); }, 0});
    good.push_back({"errorstring", [] { iluErrorString(IL_INVALID_ENUM); }, 0});
    good.push_back({"hint", [] { ilHint(IL_MEM_SPEED_HINT, IL_FASTEST); }, 0});
}
static void fresh() {
    while (ilGetError() != IL_NO_ERROR) {}
    ILuint id = ilGenImage(); ilBindImage(id);
    ILubyte d[12]; for (int i = 0; i < 12; i++) d[i] = i * 20;
    ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, d);
    if (ilGetError() != IL_NO_ERROR) vh_fail("setup-error", "creating a 2x2 image left an error pending");
}
void vh_case(Rng &r, uint64_t idx) {
    prep();
    fresh();
    std::deque<ILenum> model;
    int n = r.chance(30) ? r.range(30, 120) : r.range(1, 40);
    uint64_t h = 0; std::string trace; size_t maxdepth = 0;
    int pbad = r.pick({10, 40, 70, 95}), pget = r.pick({5, 20, 40});
    for (int i = 0; i < n; i++) {
        if (r.chance(pget)) {
            ILenum e = ilGetError(), want = IL_NO_ERROR;
            if (!model.empty()) { want = model.back(); model.pop_back(); }
            trace += " get"; h = vh_mix(h, 1);
            vh_count("error_queries");
            if (e != want) vh_fail("queue-order", "query %d returned 0x%x, the model says 0x%x; trace:%s", i, e, want, trace.c_str());
        } else if (r.chance(pbad)) {
            EOp &o = bad[r.below(bad.size())]; vh_phase("%s", o.name);
            trace += std::string(" ") + o.name; h = vh_mix(h, vh_hash(o.name, strlen(o.name)));
            o.f(); model.push_back(o.err); if (model.size() > 32) { model.pop_front(); vh_count("overflows"); }
            vh_count("errors_raised");
        } else {
            EOp &o = good[r.below(good.size())]; vh_phase("%s", o.name); trace += std::string(" ") + o.name; h = vh_mix(h, vh_hash(o.name, strlen(o.name)));
            o.f(); vh_count("successful_ops");
        }
        if (model.size() > maxdepth) maxdepth = model.size();
    }
    // drain
    while (true) {
        ILenum e = ilGetError(), want = IL_NO_ERROR;
        if (!model.empty()) { want = model.back(); model.pop_back(); }
        vh_count("error_queries");
        if (e != want) vh_fail("queue-drain", "draining returned 0x%x, the model says 0x%x (%zu left); trace:%s", e, want, model.size(), trace.c_str());
        if (e == IL_NO_ERROR) break;
    }
    for (int k = 0; k < 3; k++) if (ilGetError() != IL_NO_ERROR) vh_fail("queue-empty", "an empty queue returned an error");
    // strings for every code in every language
    ILenum lang = r.pick<ILenum>({ILU_ENGLISH, ILU_ARABIC, ILU_DUTCH, ILU_JAPANESE, ILU_SPANISH, ILU_GERMAN, ILU_FRENCH, ILU_ITALIAN});
    if (!iluSetLanguage(lang)) vh_fail("language", "language %x refused", lang);
    std::set<std::string> seen;
    for (ILenum c = IL_INVALID_ENUM; c <= IL_FILE_READ_ERROR; c++) { const char *s = iluErrorString(c); if (!s || !*s) vh_fail("error-string", "no string for 0x%x in language %x", c, lang); if (!seen.insert(s).second && lang == ILU_ENGLISH) vh_fail("error-string-dup", "two codes share the string %s", s); }
    for (ILenum c = IL_LIB_GIF_ERROR; c <= IL_LIB_EXR_ERROR; c++) { const char *s = iluErrorString(c); if (!s || !*s) vh_fail("error-string", "no string for 0x%x", c); if (!seen.insert(s).second && lang == ILU_ENGLISH) vh_fail("error-string-dup", "two codes share the string %s", s); }
    ILenum rest[] = {IL_NO_ERROR, IL_UNKNOWN_ERROR};
    for (ILenum c : rest) { const char *s = iluErrorString(c); if (!s || !*s) vh_fail("error-string", "no string for 0x%x", c); if (!seen.insert(s).second && lang == ILU_ENGLISH) vh_fail("error-string-dup", "two codes share the string %s", s); }
    iluSetLanguage(ILU_ENGLISH);
    { static const struct { ILenum c; const char *sub; } exp[] = {{IL_NO_ERROR, "no error"}, {IL_INVALID_ENUM, "invalid enum"}, {IL_OUT_OF_MEMORY, "memory"}, {IL_STACK_OVERFLOW, "overflow"}, {IL_STACK_UNDERFLOW, "underflow"}, {IL_FILE_READ_ERROR, "read"}, {IL_LIB_PNG_ERROR, "png"}, {IL_LIB_EXR_ERROR, "exr"}, {IL_LIB_GIF_ERROR, "gif"}, {IL_COULD_NOT_OPEN_FILE, "open"}, {IL_BAD_DIMENSIONS, "dimension"}, {IL_UNKNOWN_ERROR, "unknown"}};
      for (auto &e : exp) if (!strstr(iluErrorString(e.c), e.sub)) vh_fail("error-string-text", "0x%x is described as '%s'", e.c, iluErrorString(e.c)); }
    if (ilGetError() != IL_NO_ERROR) vh_fail("spurious", "error string queries raised an error");
    ILuint id = ilGetInteger(IL_CUR_IMAGE); ilDeleteImage(id);
    while (ilGetError() != IL_NO_ERROR) {}
    if (maxdepth > 1) vh_distinct(h);
    vh_count("sequences"); if (maxdepth > 31) vh_count("sequences_that_overflowed");
    vh_sample("%d ops, max pending %zu:%s", n, maxdepth, trace.substr(0, 300).c_str());
}
