// C10: copies and clones
#include "img.h"
#include "tree.h"
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static std::string T;
static Node single(Node n) { n.next.clear(); n.faces.clear(); n.mips.clear(); n.layers.clear(); return n; }
static Node snapname(ILuint n) { ilBindImage(n); return snap(ilGetCurImage()); }
static void same(const Node &a, const Node &b, const char *key, const char *what) { std::string d = nodediff(a, b); if (!d.empty()) vh_fail(key, "%s: %s; original %s;%s", what, d.c_str(), nodestr(b).c_str(), T.c_str()); vh_count("comparisons"); }
void vh_case(Rng &r, uint64_t) {
    ilShutDown(); clear_errors(); ilInit(); T.clear(); vmem.fail_after = -1; ILuint a = ilGenImage(), b = 0, other = ilGenImage();
    ilBindImage(other); { Img m = rnd_img(r); put(m); } Node on = snapname(other);
    ilBindImage(a); rnd_tree(r, r.range(0, 3)); Node an = snapname(a); bool shared = r.chance(20); if (shared) ilSetDuration(5), an = snapname(a);
    int how = r.below(3); ILuint c0;
    if (how == 0) { ilBindImage(a); b = ilCloneCurImage(); c0 = ilGetInteger(IL_CUR_IMAGE); if (!b || b == a || b == other || !ilIsImage(b)) vh_fail("clone-name", "ilCloneCurImage returned %u", b); if (c0 != a) vh_fail("clone-bound", "cloning changed the bound name from %u to %u", a, c0); T = " clone"; }
    else { b = ilGenImage(); ilBindImage(b); if (r.chance(60)) rnd_tree(r, r.range(0, 3)); if (!ilCopyImage(a)) vh_fail("copy-failed", "ilCopyImage failed with 0x%x", ilGetError()); c0 = ilGetInteger(IL_CUR_IMAGE); if (c0 != b) vh_fail("clone-bound", "copying changed the bound name from %u to %u", b, c0); T = " copy"; vh_count("copies"); }
    if (ilGetError() != IL_NO_ERROR) vh_fail("spurious-error", "a successful%s raised an error", T.c_str());
    { std::string w = (ilBindImage(b), wellformed(ilGetCurImage())); if (!w.empty()) vh_fail("malformed", "the%s is malformed: %s", T.c_str(), w.c_str()); }
    same(snapname(b), single(an), "copy-differs", "the copy differs"); same(snapname(a), an, "original-changed", "the original changed"); same(snapname(other), on, "other-changed", "an unrelated image changed");
    // later changes to either side
    int n = r.range(1, 5); bool alive[2] = {true, true}; Node st[2] = {an, single(an)}; ILuint nm[2] = {a, b};
    for (int i = 0; i < n; i++) { int s = r.below(2); if (!alive[s]) s = 1 - s; if (!alive[s]) break; ilBindImage(nm[s]); std::string w = tree_edit(r); T += s ? " B:" : " A:"; T += w; if (r.chance(20) && nm[s]) { ilDeleteImage(nm[s]); alive[s] = false; T += " delete"; } clear_errors();
        for (int k = 0; k < 2; k++) if (alive[k]) { Node now = snapname(nm[k]); if (k == s) st[k] = now; else same(now, st[k], "not-independent", k ? "changing the original changed the copy" : "changing the copy changed the original"); } vh_count("mutations"); }
    // copying short of memory leaves the source and the target usable
    if (r.chance(20) && alive[0]) { ILuint c = ilGenImage(); ilBindImage(c); put(rnd_img(r)); vmem.fail_after = r.below(12); vmem_sticky = true; bool ok = ilCopyImage(a); vmem.fail_after = -1; vh_count("short_of_memory"); if (ilGetError() == IL_NO_ERROR && !ok) vh_fail("silent", "ilCopyImage failed without an error"); clear_errors(); Node cn = snapname(c); ilBindImage(c); std::string w = wellformed(ilGetCurImage()); if (!w.empty()) vh_fail("malformed", "after a copy short of memory: %s", w.c_str()); if (ok) same(cn, single(st[0]), "copy-differs", "the copy differs (short of memory)"); same(snapname(a), st[0], "original-changed", "the original changed by a copy short of memory"); }
    same(snapname(other), on, "other-changed", "an unrelated image changed");
    if (!ilCopyImage(a) && alive[0]) vh_fail("copy-failed", "ilCopyImage failed"); clear_errors(); ILuint cur = ilGetInteger(IL_CUR_IMAGE); if (ilCopyImage(99999)) vh_fail("copy-unknown", "copied from an unknown name"); if (ilGetError() == IL_NO_ERROR) vh_fail("copy-unknown", "no error for an unknown name"); if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != cur) vh_fail("clone-bound", "a failed copy changed the bound name");
    vh_count("cases"); if (!an.next.empty() || !an.faces.empty() || !an.mips.empty() || !an.layers.empty()) vh_count("trees"); vh_distinct(nodehash(an)); vh_sample("%s: %s", T.c_str(), nodestr(an).c_str());
}
