// C17: failing memory, failing reads and writes, files that end early
#include "ops.h"
void vh_setup() { vmem_install(); ilInit(); iluInit(); }
static std::string base_key(const Op &o) { std::string key = o.name.substr(0, o.name.find_first_of(" 0123456789")); if (o.name.substr(0, 5) == "load ") key = "load-" + o.name.substr(5, o.name.find(' ', 5) - 5); if (o.fam == F_SAVE) { key = o.name.substr(0, o.name.find(" to ")); std::replace(key.begin(), key.end(), ' ', '-'); } return key; }
struct Res { std::string out; bool ok = true, anyfail = false, err = false; std::vector<Node> img; std::vector<std::string> bad; long allocs = 0, failed = 0; };
static std::string strip(const std::string &s) { std::string o; size_t i = 0; while (i < s.size()) { size_t e = s.find(';', i); if (e == std::string::npos) e = s.size(); std::string t = s.substr(i, e - i); if (t.compare(0, 4, "err ")) o += t + ";"; i = e + 1; } return o; }
// the operation on a world of its own; the images before it in pre
static Res perform(uint64_t wseed, const Settings &set, const Op &op, long k, bool sticky, std::vector<Node> *pre, bool look) {
    Res q; reset_settings(); srand(1); World w; { Rng r(wseed); w = world_new(r); } set.apply(); clear_errors(); ILuint start = ilGetInteger(IL_CUR_IMAGE); if (pre) { pre->clear(); for (int i = 0; i < SLOTS; i++) { ilBindImage(w.slot[i]); pre->push_back(snap(ilGetCurImage())); } ilBindImage(start); }
    Out u; long a0 = vmem.allocs, f0 = vmem.failed; vmem.fail_after = k; vmem_sticky = sticky; try { op.run(w, u); } catch (CaseAbort &) { vmem.fail_after = -1; vio_off(); throw; } vmem.fail_after = -1; vmem_sticky = true; vio_off(); q.allocs = vmem.allocs - a0; q.failed = vmem.failed - f0; size_t n = u.s.size(); u.errors(); q.err = u.s.size() > n || u.s.find(";err ") != std::string::npos; q.ok = u.ok; q.out = strip(u.s); vio_reset();
    if (look) for (int i = 0; i < SLOTS; i++) { if (!ilIsImage(w.slot[i])) { q.bad.push_back("an image is gone"); q.img.push_back(Node()); continue; } ilBindImage(w.slot[i]); int c = 0; std::string s = wellformed(ilGetCurImage(), 0, &c); if (!s.empty()) { q.bad.push_back("image " + std::to_string(i) + (start == w.slot[i] ? ", the bound one, " : " ") + s); q.img.push_back(Node()); continue; } q.img.push_back(snap(ilGetCurImage())); }
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) == 0) q.bad.push_back("no image"); for (int i = 0; i < 20; i++) ilPopAttrib(); world_free(w); reset_settings(); return q;
}
static int slotof(uint64_t wseed) { World w; Rng r(wseed); w = world_new(r); ILuint c = ilGetInteger(IL_CUR_IMAGE); int k = -1; for (int i = 0; i < SLOTS; i++) if (w.slot[i] == c) k = i; world_free(w); return k; }
static void memory(Rng &r) {
    int fams = F_LOAD | F_SAVE | F_CONV | F_IMG | F_ILU | F_DXT | F_PAL | F_QUERY; if (const char *f = vh_arg("fams", NULL)) fams = atoi(f); Op op; do op = rnd_op(r, fams); while (op.nofault || op.sets); Settings set = rnd_settings(r, r.chance(50) ? 0 : r.range(1, 3)); if (r.chance(30)) { SaveSet t = rnd_set(r); set.v.push_back({"texts", [t] { t.apply(); }}); } uint64_t wseed = r.next(); std::string key = base_key(op);
    vh_phase("%s", key.c_str()); vh_context("settings:%s; %s", set.str().c_str(), op.name.c_str()); if (op.in.size()) vh_input(op.in.data(), op.in.size());
    reset_settings(); int bound = slotof(wseed); std::vector<Node> pre; Res ref = perform(wseed, set, op, -1, true, &pre, true); vh_count(("op_" + key).c_str()); uint64_t h = vh_hash(op.name.data(), op.name.size(), wseed);
    int tries = ref.allocs <= 4 ? (int)ref.allocs : 5; for (int t = 0; t < tries; t++) { long k = ref.allocs <= 4 ? t : t == 0 ? ref.allocs - 1 - r.below(2) : r.chance(50) ? r.below(std::min<long>(ref.allocs, 8)) : r.below(ref.allocs); bool sticky = r.chance(50);
        vh_context("settings:%s; %s, allocation %ld of %ld fails%s", set.str().c_str(), op.name.c_str(), k, ref.allocs, sticky ? " and later ones" : ""); vh_phase("%s", key.c_str()); Res x = perform(wseed, set, op, k, sticky, NULL, true); auto say = [&](const char *kk, const std::string &d) { vh_fail((std::string(kk) + "-" + key).c_str(), "%s (allocation %ld of %ld fails%s); %s; settings:%s", d.c_str(), k, ref.allocs, sticky ? " and later ones" : "", op.name.c_str(), set.str().c_str()); };
        if (!x.failed) say("harness", "no allocation failed"); if (!x.bad.empty()) say("malformed", x.bad[0]); vh_count("alloc_faults"); vh_distinct(vh_mix(h, k * 2 + sticky));
        for (int i = 0; i < SLOTS; i++) if (i != bound) { std::string d = nodediff(pre[i], x.img[i]); if (!d.empty()) say("others", "image " + std::to_string(i) + ", which is not the bound one, changes: " + d); }
        bool same = x.out == ref.out; std::string d; if (same && x.ok) { for (int i = 0; i < SLOTS && same; i++) { d = nodediff(ref.img[i], x.img[i]); if (!d.empty()) same = false; } }
        if (same && x.ok) { vh_count("completed"); continue; } // without what it lacked
        vh_count("reported"); if (!x.err) say("silent", x.ok ? "another result (" + x.out.substr(0, 150) + " for " + ref.out.substr(0, 150) + ") without an error" : "failure without an error"); bool told = op.name.find("register p") && op.name.find("register format") && op.name.find("setpixels") && op.name.find("dxt") && op.name.find("create") && op.name.find("colours") && op.name.find("copypixels"); // functions that return whether they succeeded
        if (told && x.out == ref.out && x.ok) say("wrong", "success is reported, and the result differs: " + d);
        if ((op.fam == F_SAVE || op.fam == F_QUERY)) { std::string e = nodediff(pre[bound], x.img[bound]); if (!e.empty() && nodediff(pre[bound], ref.img[bound]).empty()) say("changed", "the image changes: " + e); }
        if (key == "save-hdr" && x.ok) { vh_count("completed_differently"); continue; } // run-length coding is left out when there is no memory for it
        if (told && x.ok && op.fam != F_QUERY && x.out.find("=0;") == std::string::npos) say("succeeds", "success is reported with another result (" + x.out.substr(0, 150) + " for " + ref.out.substr(0, 150) + ")"); }
    // everything still works
    vh_phase("again-%s", key.c_str()); Res z = perform(wseed, set, op, -1, true, NULL, true); bool same = z.out == ref.out && z.bad.empty(); for (int i = 0; i < SLOTS && same; i++) same = nodediff(ref.img[i], z.img[i]).empty(); if (!same) vh_fail(("again-" + key).c_str(), "after the failures the operation gives %s, before %s; %s", z.out.substr(0, 150).c_str(), ref.out.substr(0, 150).c_str(), op.name.c_str());
}
// ---- reading ----
static bool load_via(int how, ILenum t, const Bytes &b, const std::string &ext, long fail, bool sticky, bool *hit) {
    bool ok; *hit = false; switch (how) {
    case 0: { Bytes c(b); return ilLoadL(t, c.data(), (ILuint)c.size()); }
    case 1: { std::string n = std::string(vh_tmpdir()) + "/c." + ext; write_file(n, b); ok = ilLoad(t, n.c_str()); unlink(n.c_str()); return ok; }
    case 2: { std::string n = std::string(vh_tmpdir()) + "/c." + ext; write_file(n, b); FILE *f = fopen(n.c_str(), "rb"); ok = ilLoadF(t, f); fclose(f); unlink(n.c_str()); return ok; }
    default: vio_reset(); vio_on(); vio_fail = fail; vio_sticky = sticky; VFile *f = NULL; std::string n = "d/x." + ext; if (how == 3) { vdisk[n] = b; ok = ilLoad(t, n.c_str()); } else { f = vhandle(b); ok = ilLoadF(t, f); } *hit = vio_hit; vio_off();
        if (how == 3) for (auto *g : vfiles) if (g->closes != 1) vh_fail(("open-" + ext).c_str(), "a file is closed %d times", g->closes); if (f && f->closes) vh_fail(("closed-" + ext).c_str(), "the handle given is closed"); if (!vmisuse.empty()) vh_fail(("misuse-" + ext).c_str(), "%s", vmisuse.c_str()); return ok; }
}
// only digits and blanks are missing, and the last number stands there in part
static bool tail_digits(const Bytes &b, size_t c) { if (!c || !isdigit(b[c - 1])) return false; size_t i = c; while (i < b.size() && isdigit(b[i])) i++; while (i < b.size() && isspace(b[i])) i++; return i == b.size(); }
static const char *HOW[] = {"memory", "a name", "a handle", "a name through callbacks", "a handle through callbacks"};
static void reading(Rng &r, bool cut) {
    FileGen g; do g = gen_any(r, vh_arg("fmt", "")); while (g.b.size() > 150000); std::string key = g.name.substr(0, g.name.find(' ')); ILuint id = ilGenImage(); ilBindImage(id); clear_errors(); bool hit; vh_phase("%s", key.c_str()); vh_context("%s %dx%d", g.name.c_str(), g.w(), g.h()); vh_input(g.b.data(), g.b.size());
    auto fresh = [&] { clear_errors(); ilBindImage(id); if (!ilTexImage(3, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) vh_error("teximage"); memset(ilGetData(), 9, 18); };
    fresh(); if (!load_via(0, g.type, g.b, g.ext, -1, true, &hit)) { vh_count("unloadable"); ilBindImage(0); ilDeleteImage(id); return; } ilBindImage(id); Node ref = snap(ilGetCurImage()); uint64_t h = nodehash(ref);
    int how0 = r.below(cut ? 5 : 2) + (cut ? 0 : 3); size_t full = g.b.size(); long ops = 0; if (!cut) { fresh(); vio_sticky = true; load_via(how0, g.type, g.b, g.ext, 1 << 28, true, &hit); ops = vio_ops; vio_reset(); }
    bool every = cut ? full < 120 : ops < 40; int n = cut ? every ? (int)full : 40 : every ? (int)ops : 30; 
    for (int i = 0; i < n; i++) {
        int how = how0; Bytes b(g.b); size_t c = full; long k = -1; bool sticky = r.chance(50); if (cut) { c = every ? i : i < 10 ? full - 1 - i : r.chance(30) ? r.below(std::min<size_t>(full, 200)) : r.below(full); b.resize(c); } else k = every ? i : r.chance(40) ? r.below(std::min<long>(ops, 30)) : r.below(ops);
        fresh(); vh_context("%s %dx%d, %s %ld of %ld from %s%s", g.name.c_str(), g.w(), g.h(), cut ? "cut to" : "operation", cut ? (long)c : k, cut ? (long)full : ops, HOW[how], sticky && !cut ? ", and later ones" : ""); bool ok = load_via(how, g.type, b, g.ext, k, sticky, &hit); ILenum e = ilGetError(); vio_reset(); vh_count(cut ? "cuts" : "read_faults"); vh_distinct(vh_mix(h, cut ? c : (1u << 30) + k * 2 + sticky));
        auto say = [&](const char *kk, const std::string &d) { vh_fail((std::string(cut ? "cut-" : "read-") + kk + "-" + key).c_str(), "%s (%s %ld of %ld from %s%s); %s %dx%d", d.c_str(), cut ? "cut to" : "operation", cut ? (long)c : k, cut ? (long)full : ops, HOW[how], sticky && !cut ? ", and later ones fail" : "", g.name.c_str(), g.w(), g.h()); };
        if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != id && ok) say("binding", "another image is bound"); ilBindImage(id); int cn = 0; std::string s = wellformed(ilGetCurImage(), 0, &cn); if (!s.empty()) say("malformed", s);
        if (!ok) { if (e == IL_NO_ERROR) say("silent", "failure without an error"); vh_count("load_refused"); continue; }
        Node now = snap(ilGetCurImage());
        // what cannot be told from a complete file: a last number that lost digits, a PCX file without its palette; libtiff shows indices as grey when it cannot read the colour map
        auto grey = [&](const Img &want, Img &got) { if (cut && key == "tif" && g.name.find("ph3") != std::string::npos && want.fmt != IL_LUMINANCE && got.fmt == IL_LUMINANCE && want.w == got.w && want.h == got.h) { got = want; vh_count("ambiguous"); } }; grey(ref.img, now.img); for (size_t j = 0; j < ref.next.size() && j < now.next.size(); j++) grey(ref.next[j].img, now.next[j].img);
        std::string d = nodediff(ref, now);
        if (!d.empty() && cut && key == "pnm" && (g.name.find("P2") != std::string::npos || g.name.find("P3") != std::string::npos) && tail_digits(g.b, c)) { vh_count("ambiguous"); continue; }
        if (!d.empty() && cut && (key == "pcx" || key == "dcx") && c + 769 == full) { vh_count("ambiguous"); continue; }
        if (!d.empty() && cut && std::count(g.ends.begin(), g.ends.end(), c)) { vh_count("ambiguous"); continue; }
        if (!d.empty()) say("succeeds", "the load succeeds and gives another image: " + d); vh_count("load_complete");
    }
    fresh(); if (!load_via(how0, g.type, g.b, g.ext, -1, true, &hit)) vh_fail(("again-" + key).c_str(), "after the failures the file does not load; %s", g.name.c_str()); ilBindImage(id); std::string d = nodediff(ref, snap(ilGetCurImage())); if (!d.empty()) vh_fail(("again-" + key).c_str(), "after the failures the file gives %s; %s", d.c_str(), g.name.c_str()); vio_reset(); ilBindImage(0); ilDeleteImage(id); vh_count(("in_" + key).c_str());
}
static void headerless(Rng &r) {
    int w = r.range(1, 12), h = r.range(1, 12), d = r.chance(20) ? 3 : 1, bp = r.pick<int>({1, 3, 4}); size_t full = (size_t)w * h * d * bp; Bytes b(full); for (auto &x : b) x = r.u32(); ILuint id = ilGenImage(); ilBindImage(id); vh_phase("headerless"); for (int i = 0; i < 12; i++) { size_t c = i == 0 ? full : i < 4 ? full - 1 - r.below(std::min<size_t>(full, 4)) : r.below(full); int src = r.below(3); Bytes x(b.begin(), b.begin() + c); clear_errors(); bool ok; vh_context("%dx%dx%d of %d, %zu of %zu bytes", w, h, d, bp, c, full); if (src == 0) ok = ilLoadDataL(x.data(), (ILuint)c, w, h, d, bp); else { std::string n = std::string(vh_tmpdir()) + "/r.bin"; write_file(n, x); if (src == 1) ok = ilLoadData(n.c_str(), w, h, d, bp); else { FILE *f = fopen(n.c_str(), "rb"); ok = ilLoadDataF(f, w, h, d, bp); fclose(f); } unlink(n.c_str()); } ILenum e = ilGetError(); vh_count("headerless");
        if (ok != (c == full)) vh_fail("headerless", "%zu of %zu bytes: %s (%s)", c, full, ok ? "the load succeeds" : "the load fails", ilerr(e)); if (!ok && e == IL_NO_ERROR) vh_fail("headerless-silent", "failure without an error"); ilBindImage(id); if (ok && (!ilGetData() || memcmp(ilGetData(), b.data(), full))) vh_fail("headerless-data", "the bytes differ"); vh_distinct(vh_hash(x.data(), c, w * 31 + h + bp)); }
    ilBindImage(0); ilDeleteImage(id);
}
static void palettes(Rng &r) {
    std::string ext; Bytes b; do b = rnd_palette_file(r, ext); while (b.empty()); ILuint id = ilGenImage(); ilBindImage(id); std::string n = std::string(vh_tmpdir()) + "/q." + ext; vh_phase("palette-%s", ext.c_str()); vh_input(b.data(), b.size()); auto fresh = [&] { clear_errors(); ilBindImage(id); ilTexImage(2, 2, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL); Bytes p(12, 5); ilRegisterPal(p.data(), 12, IL_PAL_RGB24); memset(ilGetData(), 1, 4); clear_errors(); };
    fresh(); write_file(n, b); bool ok = ilLoadPal(n.c_str()); Node ref; if (ok) ref = snap(ilGetCurImage());
    bool plain = ext != "pal"; if (!plain) { plain = true; for (auto x : b) plain &= x < 127; } // other bytes end a word early
    if (ok && plain) for (int i = 0; i < 12; i++) { size_t c = i < 3 ? b.size() - 1 - std::min<size_t>(i, b.size() - 1) : r.below(b.size()); Bytes x(b.begin(), b.begin() + c); write_file(n, x); fresh(); vh_context(".%s of %zu bytes cut to %zu", ext.c_str(), b.size(), c); bool k = ilLoadPal(n.c_str()); ILenum e = ilGetError(); vh_count("palettes"); if (!k && e == IL_NO_ERROR) vh_fail(("palette-silent-" + ext).c_str(), "failure without an error, cut to %zu of %zu", c, b.size()); int cn; std::string s = wellformed(ilGetCurImage(), 0, &cn); if (!s.empty()) vh_fail(("palette-malformed-" + ext).c_str(), "%s; cut to %zu of %zu", s.c_str(), c, b.size()); if (k && ((ext == "pal" && c && isdigit(b[c - 1]) && (tail_digits(b, c) || isdigit(b[c]))) || (ext == "col" && c == 768))) { vh_count("ambiguous"); continue; } if (k) { std::string d = nodediff(ref, snap(ilGetCurImage())); if (!d.empty()) vh_fail(("palette-succeeds-" + ext).c_str(), "a palette file cut to %zu of %zu bytes gives another palette: %s", c, b.size(), d.c_str()); } }
    unlink(n.c_str()); ilBindImage(0); ilDeleteImage(id);
}
// ---- writing: the device refuses everything after a byte ----
static void writing(Rng &r) {
    const SaveDef &s = pick_save(r, vh_arg("fmt", "")); if (!sink_for(s, SINK_CBHANDLE)) return; SaveSet set = rnd_set(r); set.apply(); ILuint id = ilGenImage(); ilBindImage(id); put(save_img(r, s)); clear_errors(); Node before = snap(ilGetCurImage()); std::string key = s.n; vh_phase("write-%s", key.c_str()); vh_context("%s as %s%s", nodestr(before).substr(0, 200).c_str(), s.n, set.text().c_str());
    Saved ref = save_by(s, SINK_CBHANDLE, vh_tmpdir()); uint64_t h = nodehash(before); if (ref.ok) { size_t full = ref.b.size(); int n = full <= 64 ? (int)full : 30; for (int i = 0; i < n; i++) { size_t c = full <= 64 ? i : i < 6 ? full - 1 - i : i < 16 ? r.below(std::min<size_t>(full, 150)) : r.below(full); vio_reset(); vio_on(); VFile *f = vhandle(Bytes()); f->wr = true; f->limit = (long)c; clear_errors(); vh_context("%s as %s%s, %zu of %zu bytes", nodestr(before).substr(0, 200).c_str(), s.n, set.text().c_str(), c, full); ILuint k = ilSaveF(s.t, f); ILenum e = ilGetError(); vio_off(); vh_count("write_limits"); vh_distinct(vh_mix(h, c + 7)); bool failed = f->failed; if (f->closes) vh_fail(("write-closed-" + key).c_str(), "the handle given is closed"); vio_reset(); if (k && failed) vh_fail(("write-succeeds-" + key).c_str(), "a device that holds %zu of %zu bytes: saving reports %u", c, full, k); if (!k && e == IL_NO_ERROR) vh_fail(("write-silent-" + key).c_str(), "failure without an error"); if (!failed) vh_count("write_unlimited"); std::string d = nodediff(before, snap(ilGetCurImage())); if (!d.empty()) vh_fail(("write-changed-" + key).c_str(), "a failing save changes the image: %s", d.c_str()); }
        Saved again = save_by(s, SINK_CBHANDLE, vh_tmpdir()); vio_reset(); if (!again.ok || again.b != ref.b) vh_fail(("write-again-" + key).c_str(), "after the failures the image saves differently"); vh_count(("out_" + key).c_str()); }
    vio_reset(); ilBindImage(0); ilDeleteImage(id);
}
void vh_case(Rng &r, uint64_t) {
    vmem.fail_after = -1; vmem_sticky = true; vio_off(); vio_reset(); vio_sticky = true; clear_errors(); reset_settings(); const char *m = vh_arg("mode", ""); int k = *m ? atoi(m) : r.pick<int>({0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5});
    switch (k) { case 0: memory(r); break; case 1: reading(r, true); break; case 2: reading(r, false); break; case 3: writing(r); break; case 4: headerless(r); break; default: palettes(r); } reset_settings(); vh_sample("%d", k);
}
