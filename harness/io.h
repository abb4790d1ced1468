// A file system of its own behind the reading and writing callbacks, which records and checks how it is used.
#pragma once
#include "file.h"
struct VFile { Bytes b; long pos = 0; bool open = false, wr = false; int closes = 0, reads = 0, writes = 0; long limit = -1; std::string name; bool failed = false; };
static std::vector<VFile *> vfiles; static std::map<std::string, Bytes> vdisk; static std::string vmisuse; static long vio_fail = -1; static long vio_ops = 0, vio_opens = 0; static bool vio_sticky = true, vio_hit = false; static bool vread_garbage = false;
inline void vmis(const char *s) { if (vmisuse.empty()) vmisuse = s; }
inline VFile *vget(ILHANDLE h) { for (auto *f : vfiles) if (f == h) { if (!f->open) vmis("a closed handle is used"); return f; } vmis("an unknown handle is used"); return NULL; }
// true when this operation is to fail
inline bool vio() { vio_ops++; if (vio_fail < 0) return false; if (vio_ops - 1 == vio_fail || (vio_sticky && vio_ops - 1 > vio_fail)) { vio_hit = true; return true; } return false; }
inline ILHANDLE ILAPIENTRY vOpenR(ILconst_string n) { auto i = vdisk.find(n); if (i == vdisk.end()) return NULL; if (vio()) return NULL; VFile *f = new VFile(); f->b = i->second; f->open = true; f->name = n; vfiles.push_back(f); vio_opens++; return f; }
inline void ILAPIENTRY vCloseR(ILHANDLE h) { VFile *f = vget(h); if (!f) return; f->closes++; f->open = false; if (f->wr) vmis("a handle opened for writing is closed by the reading callback"); }
inline ILboolean ILAPIENTRY vEof(ILHANDLE h) { VFile *f = vget(h); return !f || f->pos >= (long)f->b.size(); }
inline ILint ILAPIENTRY vGetc(ILHANDLE h) { VFile *f = vget(h); if (!f) return -1; f->reads++; if (vio()) return -1; if (f->pos >= (long)f->b.size()) return -1; return f->b[f->pos++]; }
inline ILint ILAPIENTRY vRead(void *p, ILuint s, ILuint n, ILHANDLE h) { VFile *f = vget(h); if (!f) return 0; f->reads++; if (!s || !n || vio()) return 0; size_t av = f->pos >= (long)f->b.size() ? 0 : f->b.size() - f->pos; size_t k = std::min<size_t>(n, av / s), by = k * s; if (by) memcpy(p, f->b.data() + f->pos, by); if (k < n) { size_t rest = std::min<size_t>(av - by, s * (size_t)n - by); if (rest && !vread_garbage) memcpy((uint8_t *)p + by, f->b.data() + f->pos + by, rest); f->pos += rest; } f->pos += by; return (ILint)k; }
inline ILint ILAPIENTRY vSeek(ILHANDLE h, ILint o, ILint m) { VFile *f = vget(h); if (!f) return -1; if (vio()) return -1; long b = m == IL_SEEK_SET ? 0 : m == IL_SEEK_CUR ? f->pos : (long)f->b.size(); if (b + o < 0) return -1; f->pos = b + o; return 0; }
inline ILint ILAPIENTRY vTell(ILHANDLE h) { VFile *f = vget(h); return f ? (ILint)f->pos : -1; }
inline ILHANDLE ILAPIENTRY vOpenW(ILconst_string n) { if (vio()) return NULL; VFile *f = new VFile(); f->open = f->wr = true; f->name = n; vfiles.push_back(f); vio_opens++; return f; }
inline void ILAPIENTRY vCloseW(ILHANDLE h) { VFile *f = vget(h); if (!f) return; f->closes++; f->open = false; if (!f->wr) vmis("a handle opened for reading is closed by the writing callback"); vdisk[f->name] = f->b; }
inline bool vput(VFile *f, const void *p, size_t n) { if (f->limit >= 0 && f->pos + (long)n > f->limit) { f->failed = true; return false; } if (f->pos + n > f->b.size()) f->b.resize(f->pos + n); if (n) memcpy(f->b.data() + f->pos, p, n); f->pos += n; return true; }
inline ILint ILAPIENTRY vPutc(ILubyte c, ILHANDLE h) { VFile *f = vget(h); if (!f) return -1; f->writes++; if (vio() || !vput(f, &c, 1)) return -1; return c; }
inline ILint ILAPIENTRY vWrite(const void *p, ILuint s, ILuint n, ILHANDLE h) { VFile *f = vget(h); if (!f) return 0; f->writes++; if (!s || !n || vio()) return 0; size_t k = n; if (f->limit >= 0 && s) { size_t room = f->pos >= f->limit ? 0 : f->limit - f->pos; if (room / s < n) { k = room / s; f->failed = true; } } vput(f, p, k * s); return (ILint)k; }
inline void vio_reset() { for (auto *f : vfiles) delete f; vfiles.clear(); vmisuse.clear(); vio_fail = -1; vio_ops = vio_opens = 0; vio_hit = false; vdisk.clear(); vread_garbage = false; }
inline void vio_on() { ilSetRead(vOpenR, vCloseR, vEof, vGetc, vRead, vSeek, vTell); ilSetWrite(vOpenW, vCloseW, vPutc, vSeek, vTell, vWrite); }
inline void vio_off() { ilResetRead(); ilResetWrite(); }
inline VFile *vhandle(const Bytes &b, long pos = 0) { VFile *f = new VFile(); f->b = b; f->pos = pos; f->open = true; vfiles.push_back(f); return f; }
// cut short, or a few bytes changed
inline std::string mutate(Rng &r, Bytes &b) {
    std::string s; if (b.empty()) return s; char t[60]; int k = r.below(3); if (k != 1) { size_t n = r.chance(20) ? r.below(20) : r.chance(30) ? b.size() - 1 - r.below(std::min<size_t>(b.size(), 8)) : r.below(b.size()); if (n < b.size()) b.resize(n); snprintf(t, 60, " cut to %zu", b.size()); s += t; }
    if (k && b.size()) { int m = r.range(1, 3); for (int i = 0; i < m; i++) { size_t p = r.chance(60) ? r.below(std::min<size_t>(b.size(), 64)) : r.below(b.size()); b[p] = r.chance(30) ? r.pick({0, 1, 255, 128, 127}) : r.chance(50) ? b[p] ^ (1 << r.below(8)) : r.u32(); snprintf(t, 60, " [%zu]=%02x", p, b[p]); s += t; } } return s;
}
inline void write_file(const std::string &n, const Bytes &b) { FILE *f = fopen(n.c_str(), "wb"); if (!f) vh_error("cannot write %s", n.c_str()); if (b.size() && fwrite(b.data(), 1, b.size(), f) != b.size()) vh_error("cannot write %s", n.c_str()); fclose(f); }
inline bool read_file(const std::string &n, Bytes &b) { FILE *f = fopen(n.c_str(), "rb"); if (!f) return false; b.clear(); uint8_t t[65536]; size_t k; while ((k = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k); fclose(f); return true; }
