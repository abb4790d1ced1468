// C27: registered load and save handlers are consulted for exactly their extension
#include "img.h"
#include <sys/stat.h>
#include <unistd.h>
static std::string calls; static ILenum hcode[8]; static int ncalls; static bool hput;
template <int I> static ILenum ILAPIENTRY lh(ILconst_string f) { ncalls++; calls += "L" + std::to_string(I) + ":" + f + ";"; if (hput && !hcode[I]) { uint8_t p[3] = {(uint8_t)(I + 1), 2, 3}; ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, p); } return hcode[I]; }
template <int I> static ILenum ILAPIENTRY sh(ILconst_string f) { ncalls++; calls += "S" + std::to_string(I) + ":" + f + ";"; return hcode[I]; }
static std::set<std::string> left; // removed at the start of the next case when one fails
static IL_LOADPROC LH[8] = {lh<0>, lh<1>, lh<2>, lh<3>, lh<4>, lh<5>, lh<6>, lh<7>}; static IL_SAVEPROC SH[8] = {sh<0>, sh<1>, sh<2>, sh<3>, sh<4>, sh<5>, sh<6>, sh<7>};
static std::string lower(std::string s) { for (char &c : s) c = tolower(c); return s; }
static std::string rcase(Rng &r, std::string s) { int m = r.below(4); for (char &c : s) if (m == 1 || (m == 2 && r.chance(50))) c = toupper(c); return s; }
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; for (auto &x : left) { while (ilRemoveLoad(x.c_str())) {} while (ilRemoveSave(x.c_str())) {} } clear_errors(); ilEnable(IL_FILE_OVERWRITE); std::map<std::string, int> L, S; std::string trace; static const char *exts[] = {"xyz", "xy", "xyzz", "foo", "x", "q1", "tga", "png", "bmp", "pal", "sgi", "h", "long_extension", "zy"}; std::string dir = std::string(vh_tmpdir()) + "/d" + std::to_string(r.below(1000)) + ".xyz"; mkdir(dir.c_str(), 0755);
    static const std::set<std::string> saves = {"tga", "png", "bmp", "pal", "sgi", "h"}; // have a writer of their own
    ILuint id = ilGenImage(); ilBindImage(id); Img base = rnd_img(r, ImgOpt()); base.fmt = IL_RGB; base.type = IL_UNSIGNED_BYTE; base.w = r.range(1, 5); base.h = r.range(1, 5); base.d = 1; base.palType = IL_PAL_NONE; base.pal.clear(); base.data.resize(base.size()); put(base);
    int n = vh_thorough ? 60 : 40, called = 0; uint64_t hsh = 3; for (int i = 0; i < n; i++) {
        std::string e = r.pick(exts), E = rcase(r, e); int k = r.below(8); clear_errors(); calls.clear(); ncalls = 0; int op = r.below(11); char b[300]; hsh = vh_mix(hsh, op * 100 + vh_hash(E.data(), E.size())); for (auto &c : hcode) c = r.pick({(ILenum)IL_NO_ERROR, (ILenum)IL_NO_ERROR, (ILenum)IL_INVALID_FILE_HEADER, (ILenum)IL_FORMAT_NOT_SUPPORTED, (ILenum)IL_OUT_OF_MEMORY});
        auto tr = [&](const char *what, const std::string &a) { snprintf(b, 300, " %s(%s)", what, a.c_str()); trace += b; if (trace.size() > 1500) trace = "..." + trace.substr(trace.size() - 1200); vh_context("%s", trace.c_str()); vh_phase("%s", what); };
        if (op == 0 || op == 1) { bool ld = op == 0; tr(ld ? "regload" : "regsave", E); ILboolean ok = ld ? ilRegisterLoad(E.c_str(), LH[k]) : ilRegisterSave(E.c_str(), SH[k]); auto &M = ld ? L : S; if (!ok) vh_fail("register", "registering %s fails;%s", E.c_str(), trace.c_str()); M.insert({e, k}); left.insert(E); left.insert(e); vh_count("registrations"); }
        else if (op == 2 && r.chance(50)) { bool ld = r.chance(50); tr(ld ? "remload" : "remsave", E); ILboolean ok = ld ? ilRemoveLoad(E.c_str()) : ilRemoveSave(E.c_str()); auto &M = ld ? L : S; bool had = M.erase(e); if (!!ok != had) vh_fail("remove", "removing the %s handler of %s gives %d, %s registered;%s", ld ? "load" : "save", E.c_str(), ok, had ? "one was" : "none was", trace.c_str()); vh_count("removals"); }
        else {
            bool ld = op < 8, noext = r.chance(12), typed = r.chance(12); std::string nm = dir + (noext ? "/noextension" : std::string(r.chance(30) ? "/a.foo." : "/pic.") + E), e2 = noext ? "" : e; auto &M = ld ? L : S; tr(ld ? "load" : "save", nm.substr(dir.size()) + (typed ? " typed" : "")); hput = r.chance(50); bool via = r.chance(50);
            int exp = !typed && M.count(e2) && (ld || !saves.count(e2)) ? M[e2] : -1; Img before = grab("before"); bool exists = false; if (ld && (exists = r.chance(40))) { unlink(nm.c_str()); std::map<std::string, int> keepS = S; if (!ilSave(IL_TGA, nm.c_str())) vh_fail("save-typed", "ilSave(IL_TGA, %s) fails;%s", nm.c_str(), trace.c_str()); if (ncalls) vh_fail("typed-called", "saving with an explicit type calls %s;%s", calls.c_str(), trace.c_str()); } else unlink(nm.c_str());
            ILboolean ok = ld ? typed ? ilLoad(IL_TGA, nm.c_str()) : via ? ilLoadImage(nm.c_str()) : ilLoad(IL_TYPE_UNKNOWN, nm.c_str()) : typed ? ilSave(IL_TGA, nm.c_str()) : via ? ilSaveImage(nm.c_str()) : ilSave(IL_TYPE_UNKNOWN, nm.c_str());
            std::string want = exp >= 0 ? std::string(ld ? "L" : "S") + std::to_string(exp) + ":" + nm + ";" : ""; if (calls != want) vh_fail(ld ? "load-calls" : "save-calls", "%s of %s makes the calls \"%s\" instead of \"%s\";%s", ld ? "loading" : "saving", nm.c_str(), calls.c_str(), want.c_str(), trace.c_str());
            std::vector<ILenum> es; for (int q = 0; q < 40; q++) { ILenum x = ilGetError(); if (x == IL_NO_ERROR) break; es.push_back(x); }
            if (exp >= 0) { called++; ILenum c = hcode[exp]; if (c == IL_NO_ERROR) { if (!ok) vh_fail("result", "the handler of %s succeeds but the call fails;%s", nm.c_str(), trace.c_str()); if (!es.empty()) vh_fail("error", "the handler of %s succeeds but error %x is raised;%s", nm.c_str(), es[0], trace.c_str()); if (ld) { Img a = grab("after"); if (hput ? a.w != 1 || a.data != Bytes{(uint8_t)(exp + 1), 2, 3} : !a.same(before)) vh_fail("image", "the image is not the one the handler of %s left;%s", nm.c_str(), trace.c_str()); } }
                else { bool in = false; for (ILenum x : es) in |= x == c; if (!in) vh_fail("code", "the handler of %s returned %x, which is not raised;%s", nm.c_str(), c, trace.c_str()); if (ok && !(ld && exists)) vh_fail("result", "the handler of %s fails but the call succeeds;%s", nm.c_str(), trace.c_str()); } }
            else if (typed || noext || (ld && (e2 == "tga" || !strchr("pb", e2[0]))) ) { if (ld && ok != (exists ? IL_TRUE : IL_FALSE) && (typed || e2 == "tga")) vh_fail("builtin", "loading %s (%s) gives %d without a handler;%s", nm.c_str(), exists ? "exists" : "missing", ok, trace.c_str()); }
            if (exp < 0 && !ld && !typed && !saves.count(e2) && ok) vh_fail("unknown-save", "saving %s succeeds without a writer;%s", nm.c_str(), trace.c_str());
            put(base); clear_errors(); unlink(nm.c_str()); vh_count(ld ? "loads" : "saves");
        }
    }
    for (auto &x : L) if (!ilRemoveLoad(x.first.c_str())) vh_fail("remove", "the load handler of %s cannot be removed", x.first.c_str()); for (auto &x : S) if (!ilRemoveSave(x.first.c_str())) vh_fail("remove", "the save handler of %s cannot be removed", x.first.c_str());
    ilBindImage(0); ilDeleteImage(id); left.clear(); rmdir(dir.c_str()); vh_count("handler_calls", called); vh_distinct(hsh); vh_sample("%d operations, %d handler calls:%s", n, called, trace.substr(0, 200).c_str());
}
