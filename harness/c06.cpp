// C06: well-formed files decode to the image their specification defines
#include "wild.h"
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; clear_errors(); bool wild = atoi(vh_arg("wild", "0")); FileGen g; do g = wild ? gen_wild(r, vh_arg("fmt", "")) : gen_file(r, vh_arg("fmt", "")); while (g.frames.empty()); vh_context("%s %dx%d", g.name.c_str(), g.w(), g.h()); vh_phase("load"); vh_input(g.b.data(), g.b.size());
    ilSetInteger(IL_PCD_PICNUM, g.picnum); ILuint id = ilGenImage(); ilBindImage(id); std::string fam = g.name.substr(0, g.name.find(' ')); vh_count(("files_" + fam).c_str());
    std::string key = g.name; if (fam == "tpl") key = fam; if (fam == "tif" || fam == "dcx" || fam == "gif" || fam == "ico" || fam == "cur") { size_t j = key.find("]"); if (j != std::string::npos) key.resize(j); if (fam != "tif") key = fam; } for (char &c : key) if (!isalnum(c)) c = '-'; key = key.substr(0, 40);
    if (!load_mem(g.type, g.b)) vh_fail(("refused-" + key).c_str(), "%s %dx%d (%zu bytes) does not load: %s", g.name.c_str(), g.w(), g.h(), g.b.size(), ilerr(ilGetError()));
    std::string wf = wellformed(ilGetCurImage()); if (!wf.empty()) vh_fail(("malformed-" + fam).c_str(), "%s: %s", g.name.c_str(), wf.c_str());
    Img m = grab("load"); std::string ek; std::string d = filediff(id, g, ek); if (!d.empty()) vh_fail((ek + "-" + key).c_str(), "%s %dx%d: %s", g.name.c_str(), g.w(), g.h(), d.c_str());
    int n = ilGetInteger(IL_NUM_IMAGES) + 1; if (g.frames.size() > 1 || n > 1) { if (n != (int)g.frames.size()) vh_fail(("frames-" + key).c_str(), "%s has %d frames instead of %zu", g.name.c_str(), n, g.frames.size()); for (int i = 1; i < n; i++) { ilBindImage(id); if (!ilActiveImage(i)) vh_fail("frame", "frame %d cannot be selected", i); Img q = grab("frame"); std::string d = framediff(q, g.frames[i], g.tol, g.alpha, g.rel); if (!d.empty() && g.anyflip && framediff(q, g.frames[i], g.tol, g.alpha, g.rel, 0, true).empty()) d.clear(); if (!d.empty()) vh_fail(("frame-" + key).c_str(), "frame %d of %s: %s", i, g.name.c_str(), d.c_str()); vh_count("further_frames"); } }
    ILenum e = ilGetError(); if (e != IL_NO_ERROR) vh_fail(("error-" + fam).c_str(), "%s loads but leaves error %s", g.name.c_str(), ilerr(e));
    ilBindImage(0); ilDeleteImage(id); vh_count("files"); vh_count("pixels", (uint64_t)m.w * m.h); vh_distinct(vh_hash(g.b.data(), g.b.size())); vh_sample("%s %dx%d, %zu bytes -> %s", g.name.c_str(), g.w(), g.h(), g.b.size(), m.str().c_str());
}
