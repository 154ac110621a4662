// Files: descriptors and file services over a modelled file system
#include "lsx.h"
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/interface.tcc"
#include "fs.h"
using namespace LightSpeed;
#ifndef NS
#define NS 3
#endif
static IFileIOServices& svc() { return IFileIOServices::getIOServices(); }
static bool same(const byte* a, const byte* b, int n) { unsigned d = 0; for (int i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
struct Img { byte d[MX]; int n; };
static void content(Img& m, int l, const char* nm) { m.n = l; for (int i = 0; i < l; i++) m.d[i] = lsx_range(0, 255, nm); }
static void isFile(const char* p, const Img& m, const char* what) { int i = look(p); CHECK(i >= 0, what); Node& n = node[name[i].node]; CHECK(n.size == m.n && same(n.data, m.d, m.n), what); }
// every operation of an opened file, against a plain array
extern "C" void h_desc() {
  fsReset(); Img m; content(m, pick(2, "length") ? 5 : 0, "data"); mkfile("f", m.d, m.n); int n0 = name[0].node;
  unsigned mode = 1 + pick(3, "mode"); bool rd = mode & 1, wr = mode & 2, seq = mode != 3 && pick(2, "seq"); OpenFlags::Type fl = 0; bool app = false; if (mode == 2 && seq) { if (pick(2, "append")) { fl |= OpenFlags::append; app = true; } else if (pick(2, "truncate")) { fl |= OpenFlags::truncate; m.n = 0; } }
  { PInOutStream s; PRndFileHandle r; IInOutStream* is = 0; IRndFileHandle* ir = 0;
    if (seq) { s = svc().openSeqFile(ConstStrW(L"f"), (IFileIOServices::FileOpenMode)mode, fl); is = s.get(); ir = is->getIfcPtr<IRndFileHandle>(); }
    else { r = svc().openRndFile(ConstStrW(L"f"), (IFileIOServices::FileOpenMode)mode, fl); ir = r.get(); is = ir->getIfcPtr<IInOutStream>(); }
    CHECK(is && ir, "both interfaces of a file"); int pos = 0; bool closed = false; faults = 1; intr = 1; shorts = 1;
    for (int k = 0; k < NS; k++) {
      unsigned op = pick(9, "op"); byte t[8]; int f0 = failed;
      try {
        if (op == 0) { if (!rd) lsx_stop_path(); int c = 1 + pick(2, "n") * 3; int l = m.n - pos; if (l < 0) l = 0; if (l > c) l = c; natural x = is->read(t, c); CHECK(failed == f0, "failure of read not reported"); CHECK(x <= (natural)l && (x > 0 || l == 0), "count of bytes read"); CHECK(same(t, m.d + pos, x), "bytes read"); pos += x; }
        else if (op == 1) { if (!wr || closed) lsx_stop_path(); int c = 1 + pick(2, "n") * 3; byte w[4]; for (int i = 0; i < c; i++) w[i] = lsx_range(0, 255, "out"); natural x = is->write(w, c); CHECK(failed == f0, "failure of write not reported"); CHECK(x >= 1 && x <= (natural)c, "count of bytes written"); if (app) pos = m.n; while (m.n < pos) m.d[m.n++] = 0; memcpy(m.d + pos, w, x); pos += x; if (pos > m.n) m.n = pos; }
        else if (op == 2) { if (!rd) lsx_stop_path(); int c = 1 + pick(2, "n") * 3, o = pick(4, "at") * 2; int l = m.n - o; if (l < 0) l = 0; if (l > c) l = c; natural x = ir->read(t, c, o); CHECK(failed == f0, "failure of read at a position not reported"); CHECK(x <= (natural)l && (x > 0 || l == 0) && same(t, m.d + o, x), "bytes read at a position"); }
        else if (op == 3) { if (!wr || closed || app) lsx_stop_path(); int c = 1 + pick(2, "n") * 3, o = pick(4, "at") * 2; byte w[4]; for (int i = 0; i < c; i++) w[i] = lsx_range(0, 255, "out"); natural x = ir->write(w, c, o); CHECK(failed == f0, "failure of write at a position not reported"); CHECK(x >= 1 && x <= (natural)c, "count of bytes written at a position"); while (m.n < o) m.d[m.n++] = 0; memcpy(m.d + o, w, x); if (o + (int)x > m.n) m.n = o + x; }
        else if (op == 4) { if (!wr || closed) lsx_stop_path(); int z = pick(3, "size") * 4; ir->setSize(z); CHECK(failed == f0, "failure to set the size not reported"); while (m.n < z) m.d[m.n++] = 0; m.n = z; }
        else if (op == 5) { if (closed && !rd) lsx_stop_path(); CHECK(ir->size() == (lnatural)m.n, "size of the file"); CHECK(failed == f0, "failure to get the size not reported"); }
        else if (op == 6) { if (!rd) lsx_stop_path(); int c = 1 + pick(2, "n") * 3; int l = m.n - pos; if (l < 0) l = 0; if (l > c) l = c; natural x = is->peek(t, c); CHECK(failed == f0, "failure of peek not reported"); CHECK(x <= (natural)l && (x > 0 || l == 0) && same(t, m.d + pos, x), "bytes seen"); }
        else if (op == 7) { if (!closed) { bool a = is->canRead(); CHECK(a == (rd && pos < m.n) && failed == f0, "possible to read"); } CHECK(is->canWrite() == (wr && !closed), "possible to write"); }
        else if (pick(2, "close")) { if (closed || !wr) lsx_stop_path(); is->closeOutput(); closed = true; CHECK(failed == f0, "failure of closing not reported"); }
        else { if (closed || !wr) lsx_stop_path(); is->flush(); CHECK(failed == f0, "failure of flush not reported"); CHECK(node[n0].dsize == m.n && same(node[n0].disk, m.d, m.n), "flushed data are not on the disk"); }
      } catch (FileIOError& e) { CHECK(failed == f0 + 1 && e.getErrNo() == lastErr, "exception without a failure"); if (op == 8) lsx_stop_path(); lsx_reach("failure"); }
      CHECK(node[n0].size == m.n && same(node[n0].data, m.d, m.n), "contents of the file");
    }
    faults = 0; }
  CHECK(openFds() == 0, "descriptor left open"); CHECK(closed2 == 0, "descriptor closed twice"); lsx_reach("done");
}
static void isDurable(const char* p, const char* what) { int i = look(p); CHECK(i >= 0, what); Node& n = node[name[i].node]; CHECK(n.size == n.dsize && same(n.data, n.disk, n.size), what); }
static bool equal(const char* p, const Img& m) { int i = look(p); if (i < 0) return false; Node& n = node[name[i].node]; return n.size == m.n && same(n.data, m.d, m.n); }
// a file opened with commitOnClose replaces its target in one step, or not at all
extern "C" void h_commit() {
  fsReset(); Img old, nw; content(old, 3, "old"); bool exists = pick(2, "exists"); if (exists) mkfile("f", old.d, old.n);
  bool stale = pick(2, "stale"); if (stale) mkfile("f.new", (const byte*)"xyzuvw", 6);
  bool rnd = pick(2, "rnd"); int c1 = 2, c2 = pick(2, "two") * 2; content(nw, c1 + c2, "new"); unsigned mode = pick(3, "mode"); bool nf = mode == 0; OpenFlags::Type fl = OpenFlags::commitOnClose; if (nf) fl |= OpenFlags::newFile; else if (mode == 1) fl |= OpenFlags::create | OpenFlags::truncate; else fl |= OpenFlags::create; if (pick(2, "deleteOnClose")) fl |= OpenFlags::deleteOnClose;
  unsigned how = pick(4, "how"); faults = pick(2, "fault"); intr = shorts = !faults && pick(2, "shorts"); if (!faults && !shorts) crashAt = (int)pick(7, "crash") - 1; bool complete = false, reported = false, closed = false, refused = false;
  try {
    PInOutStream s; PRndFileHandle r; IInOutStream* is;
    try { if (rnd) { r = svc().openRndFile(ConstStrW(L"f"), IFileIOServices::fileOpenWrite, fl); is = r->getIfcPtr<IInOutStream>(); } else { s = svc().openSeqFile(ConstStrW(L"f"), IFileIOServices::fileOpenWrite, fl); is = s.get(); } }
    catch (FileOpenError& e) { refused = true; CHECK(failed ? e.getErrNo() == lastErr : stale && nf && e.getErrNo() == EEXIST, "opening refused"); }
    if (!refused) {
      CHECK(!(stale && nf), "temporary file of someone else was opened"); CHECK(is->canWrite() && !is->canRead(), "access mode of the file");
      if (exists) isFile("f", old, "target changed before the file was closed"); else CHECK(look("f") < 0, "target exists before the file was closed");
      try { natural x = rnd && pick(2, "at") ? r->write(nw.d, 1, 0) + (is->getIfcPtr<IRndFileHandle>()->setSize(0), 0) : 0; (void)x; CHECK(is->writeAll(nw.d, c1) == (natural)c1, "bytes written"); if (c2) is->writeAll(nw.d + c1, c2); complete = true; } catch (FileIOError& e) { CHECK(failed == 1, "write failed"); throw; }
      if (exists) isFile("f", old, "target changed before the file was closed"); else CHECK(look("f") < 0, "target exists before the file was closed");
      if (how == 1) throw 7;
      if (how >= 2) { try { is->closeOutput(); closed = true; } catch (FileIOException& e) { reported = true; CHECK(failed == 1, "closing failed"); } CHECK(closed == !failed, "failure of the commit not reported"); if (closed) CHECK(!is->canWrite(), "possible to write after the commit"); if (closed && crashAt < 0 && !dead) { isFile("f", nw, "file is not committed"); if (how == 3) { is->closeOutput(); isFile("f", nw, "file is not committed"); } } if (reported && how == 2) throw 8; }
    }
  } catch (int) {} catch (FileIOError&) {}
  int f0 = failed; faults = 0;
  bool n = equal("f", nw), o = exists ? equal("f", old) : look("f") < 0;
  CHECK(n || o, "target is neither the old nor the new file"); if (n && look("f") >= 0 && !o) { CHECK(complete, "incomplete file was committed"); isDurable("f", "committed data are not on the disk"); lsx_reach("committed"); }
  bool good = complete && !refused && how != 1 && !f0 && !dead && crashAt < 0; if (good) { CHECK(n, "file was not committed"); CHECK(look("f.new") < 0, "temporary file left"); }
  if (how == 1 || refused) CHECK(o, "target changed"); CHECK(openFds() == 0, "descriptor left open"); CHECK(closed2 == 0, "descriptor closed twice"); lsx_reach("done");
}
// copying and moving never lose data
extern "C" void h_copy() {
  fsReset(); Img a, b; content(a, pick(2, "length") ? 5 : 0, "a"); content(b, 7, "b"); nd(DIRN); put("d", 0); bool missing = pick(6, "source") == 0; if (!missing) mkfile("a", a.d, a.n);
  unsigned tg = pick(5, "target"); // 0 none, 1 other file, 2 the same path, 3 symlink to the source, 4 another device
  const char* t = "d/b"; ConstStrW wt(L"d/b"); if (tg == 1) mkfile(t, b.d, b.n); else if (tg == 2) { t = "a"; wt = ConstStrW(L"a"); } else if (tg == 3) { int l = nd(LNK); strcpy(node[l].to, "a"); put(t, l); } else if (tg == 4) { t = "d:b"; wt = ConstStrW(L"d:b"); if (pick(2, "there")) { int k = mkfile(t, b.d, b.n); node[k].dev = 1; } }
  bool there = look(t) >= 0, ov = pick(2, "overwrite"), move = pick(2, "move"); bool b0 = tg == 1 || (tg == 4 && there);
  faults = pick(2, "fault"); if (!faults) { if (pick(2, "shorts")) { shorts = 2; intr = 1; } else if (move) crashAt = (int)pick(6, "crash") - 1; }
  bool ok = false; try { if (move) svc().move(ConstStrW(L"a"), wt, ov); else svc().copy(ConstStrW(L"a"), wt, ov); ok = true; } catch (FileIOException&) {}
  faults = 0; bool crash = crashAt >= 0 || dead;
  if (missing) { CHECK(!ok || tg == 2, "missing file was copied"); if (b0) isFile(t, b, "target changed"); lsx_stop_path(); }
  CHECK(equal("a", a) || (move && equal(t, a)), "data lost"); if (!move) isFile("a", a, "source changed by copying");
  if (!crash) {
    if (ok) { CHECK(!failed, "failure not reported"); if (tg != 3) isFile(t, a, "contents of the target"); if (move && tg != 2) CHECK(look("a") < 0, "source left after moving"); if (move) CHECK(tg == 2 || !there || ov, "existing target was overwritten"); else if (tg != 2) CHECK(!there || ov, "existing target was overwritten"); lsx_reach("copied"); }
    else { isFile("a", a, "source changed by a failure"); CHECK(failed || tg == 2 || tg == 3 || (there && !ov), "copying refused"); if (there && !ov && b0) isFile(t, b, "target changed"); }
  }
  CHECK(openFds() == 0, "descriptor left open"); CHECK(closed2 == 0, "descriptor closed twice"); lsx_reach("done");
}
static void dir(const char* p) { put(p, nd(DIRN)); }
static void lnk(const char* p, const char* to) { int l = nd(LNK); strcpy(node[l].to, to); put(p, l); }
static int nameEq(ConstStrW w, const char* a) { natural l = strlen(a); if (w.length() != l) return 0; for (natural i = 0; i < l; i++) if (w[i] != (wchar_t)(byte)a[i]) return 0; return 1; }
// removing a folder removes what is in it and nothing else
extern "C" void h_rmtree() {
  fsReset(); nseen = 0; Img a; content(a, 2, "data"); dir("d"); dir("out"); mkfile("out/keep", a.d, a.n); mkfile("dx", a.d, a.n);
  unsigned w = pick(32, "what"); if (w & 1) mkfile("d/f", a.d, a.n); if (w & 2) lnk("d/l", pick(2, "dangling") ? "nowhere" : "out"); if (w & 4) { dir("d/s"); if (w & 8) mkfile("d/s/g", a.d, a.n); } if (w & 16) mkfile("d/.h", a.d, a.n);
  bool rec = pick(2, "recursive"); unknownType = pick(2, "unknown type"); faults = pick(2, "fault"); bool slash = pick(2, "slash"), viaLink = false; int n0 = nname;
  bool ok = false; try { svc().removeFolder(slash ? ConstStrW(L"d/") : ConstStrW(L"d"), rec); ok = true; } catch (FileIOException&) {}
  faults = 0; isFile("out/keep", a, "file out of the folder"); isFile("dx", a, "file out of the folder"); CHECK(look("out") >= 0, "folder out of the folder");
  if (ok) { CHECK(look("d") < 0, "folder was not removed"); for (int i = 0; i < nname; i++) CHECK(!under("d", name[i].name), "something left of the folder"); CHECK(rec || w == 0 || w == 8, "folder with contents was removed"); lsx_reach("removed"); }
  else { CHECK(failed || (!rec && (w & 0x17)), "removing refused"); if (!rec) CHECK(nname == n0, "something was removed"); }
  lsx_reach("done");
}
static void join(char* b, const char* n) { b += strlen(b); *b++ = '/'; strcpy(b, n); }
// listing a folder
extern "C" void h_list() {
  fsReset(); nseen = 0; Img a; content(a, 3, "data"); bool wide = pick(2, "wide name"); const char* D = wide ? "\xC4\x8D\xC5\x99" : "dd"; char b[40]; const char* nm[6] = {"f", "sub", "l", "q", ".h", "ld"}; unsigned w = pick(64, "what"); dir("e"); mkfile("t", a.d, a.n);
  put(D, nd(DIRN)); for (int i = 0; i < 6; i++) if (w >> i & 1) { strcpy(b, D); join(b, nm[i]); if (i == 1) dir(b); else if (i == 2) lnk(b, "t"); else if (i == 3) lnk(b, "nowhere"); else if (i == 5) lnk(b, "e"); else mkfile(b, a.d, a.n); }
  unknownType = pick(2, "unknown type"); unsigned form = pick(3, "form"); ConstStrW P = wide ? form == 1 ? ConstStrW(L"\u010d\u0159/") : ConstStrW(L"\u010d\u0159") : form == 1 ? ConstStrW(L"dd/") : ConstStrW(L"dd");
  faults = pick(2, "fault"); bool rew = form == 2; unsigned got = 0; bool ok = false;
  try { char bn[60]; strcpy(bn, D); join(bn, "f"); PFolderIterator it = svc().openFolder(P); if (rew) { it->getNext(); it->rewind(); }
    while (it->getNext()) {
      int k = -1; for (int i = 0; i < 6; i++) if (nameEq(it->entryName, nm[i])) k = i; CHECK(k >= 0 && (w >> k & 1), "entry which does not exist"); CHECK(!(got >> k & 1), "entry listed twice"); got |= 1u << k;
      String full = it->getFullPath(); ConstStrW fp = full; CHECK(fp.head(P.length()) == P && nameEq(fp.tail(strlen(nm[k])), nm[k]) && fp.length() > P.length() + strlen(nm[k]) - (form == 1), "full path of an entry");
      for (natural i = P.length(); i + strlen(nm[k]) < fp.length(); i++) CHECK(fp[i] == '/' || (fp[i] == '.' && form == 1), "full path of an entry"); CHECK(it->link == (k == 2 || k == 3 || k == 5), "link flag of an entry"); CHECK(it->hidden == (k == 4), "hidden flag of an entry");
      if (!failed) { CHECK(it->type == (k == 1 || k == 5 ? IFolderIterator::directory : k == 3 ? IFolderIterator::unknown : IFolderIterator::file), "type of an entry"); if (k == 0 || k == 2) { lnatural z = it->getSize(); if (!failed) CHECK(z == 3, "size of an entry"); TimeStamp ts = it->getModifiedTime(); if (!failed) { int nn = resolve(k == 0 ? bn : "t"); CHECK(ts == TimeStamp::fromUnix(1000 + nn, 250), "time of an entry"); } } if (!unknownType && k == 4) CHECK(it->getAllowedOpenMode() == IFileIOServices::fileOpenReadWrite, "access of an entry"); }
    }
    ok = true; CHECK(got == w || failed, "entry is missing"); lsx_reach("listed"); } catch (ErrNoException&) { CHECK(failed, "listing failed"); }
  CHECK(ok || failed, "listing failed"); lsx_reach("done");
}
// creating folders
extern "C" void h_mkdir() {
  fsReset(); unsigned have = pick(4, "have"); static const char* P[3] = {"a", "a/b", "a/b/c"}; for (unsigned i = 0; i < have; i++) dir(P[i]); if (have == 0 && pick(2, "file")) mkfile("a", (const byte*)"x", 1);
  bool par = pick(2, "parents"); unsigned how = pick(3, "how"); faults = pick(2, "fault"); bool ok = false; bool blocked = look("a") >= 0 && node[name[look("a")].node].kind == REG; if (how == 2 && have == 3) lsx_stop_path();
  try { if (how == 2) { PInOutStream s = svc().openSeqFile(ConstStrW(L"a/b/c"), IFileIOServices::fileOpenWrite, OpenFlags::create | (par ? OpenFlags::createFolder : 0)); s->write("x", 1); } else svc().createFolder(how ? ConstStrW(L"a/b/c/") : ConstStrW(L"a/b/c"), par); ok = true; } catch (FileIOException&) {} 
  faults = 0; if (ok) { int i = look("a/b/c"); CHECK(i >= 0 && node[name[i].node].kind == (how == 2 ? REG : DIRN), "folder was not created"); CHECK(parentOk("a/b/c") && parentOk("a/b"), "parents of the folder"); CHECK(par || (have == 2 ) , "folder created without parents"); CHECK(!blocked, "folder in a file"); lsx_reach("created"); }
  else { CHECK(failed || blocked || (!par && have != 2), "creating refused"); if (!par) CHECK(nname == (int)have + blocked || how == 2, "something was created"); }
  CHECK(openFds() == 0, "descriptor left open"); lsx_reach("done");
}
// pipes: what was peeked is read later, once and in order
extern "C" void h_pipe() {
  fsReset(); Img m; content(m, pick(2, "length") ? 6 : 0, "data"); int n0 = mkfile("p", m.d, m.n); int fd = open("p", O_RDWR); CHECK(fd >= FD0, "model"); unsigned mode = 1 + pick(3, "mode"); bool rd = mode & 1, wr = mode & 2; node[n0].size = rd ? m.n : 0; byte acc[MX]; int na = 0;
  { PInOutStream s = svc().openSeqFile(&fd, sizeof(fd), (IFileIOServices::FileOpenMode)mode); int pos = 0, tot = m.n; bool closed = false, eof = false; faults = 1; intr = 1; shorts = 2;
    for (int k = 0; k < NS; k++) { unsigned op = pick(6, "op"); byte t[8]; int f0 = failed;
      try {
        if (op == 0) { int c = 1 + pick(3, "n") * 2; natural x = s->read(t, c); CHECK(failed == f0, "failure of read not reported"); if (!rd) CHECK(x == 0, "read of a pipe open for writing"); else { CHECK(x <= (natural)c && x <= (natural)(tot - pos) && (x > 0 || pos == tot), "count of bytes read"); CHECK(same(t, m.d + pos, x), "bytes read"); pos += x; if (!x) eof = true; } }
        else if (op == 1) { int c = 1 + pick(3, "n") * 2; natural x = s->peek(t, c); CHECK(failed == f0, "failure of peek not reported"); if (!rd) CHECK(x == 0, "peek"); else { CHECK(x <= (natural)c && x <= (natural)(tot - pos) && (x > 0 || pos == tot), "count of bytes seen"); CHECK(same(t, m.d + pos, x), "bytes seen"); if (!x) eof = true; } }
        else if (op == 2) { bool r = s->canRead(); CHECK(failed == f0, "failure not reported"); CHECK(r == (rd && pos < tot), "possible to read"); if (!r) eof = true; }
        else if (op == 3) { natural x = s->dataReady(); CHECK(x <= (natural)(tot - pos) || eof || !rd, "bytes ready"); CHECK(s->canWrite() == (wr && !closed), "possible to write"); }
        else if (op == 4) { if (!wr || rd) lsx_stop_path(); if (closed) lsx_stop_path(); byte w[3]; int c = 1 + pick(2, "n") * 2; for (int i = 0; i < c; i++) w[i] = lsx_range(0, 255, "out"); natural x = s->write(w, c); CHECK(failed == f0 && x > 0 && x <= (natural)c, "count of bytes written"); memcpy(acc + na, w, x); na += x; }
        else { if (!wr || closed) lsx_stop_path(); s->closeOutput(); closed = true; CHECK(failed == f0, "failure of closing not reported"); CHECK(rd || eof || openFds() == 0, "written pipe is not closed"); }
      } catch (FileIOError& e) { CHECK(failed == f0 + 1 && e.getErrNo() == lastErr, "exception without a failure"); if (op == 5) lsx_stop_path(); lsx_reach("failure"); }
    }
    faults = 0; if (wr && !rd) CHECK(node[n0].size == na && same(node[n0].data, acc, na), "bytes written"); }
  CHECK(openFds() == 0 && closed2 == 0, "descriptor left open or closed twice"); lsx_reach("done");
}
static int hndCalls[12]; static bool pathOk(ConstStrW p) { return p == ConstStrW(L"abcd"); }
struct Hnd : IFileIOHandler { virtual PInOutStream openSeqFile(ConstStrW p, FileOpenMode m, OpenFlags::Type f) { hndCalls[0] += pathOk(p) && m == fileOpenRead && f == 5; return nil; } virtual PRndFileHandle openRndFile(ConstStrW p, FileOpenMode m, OpenFlags::Type f) { hndCalls[1] += pathOk(p) && m == fileOpenWrite && f == 6; return nil; } virtual bool canOpenFile(ConstStrW p, FileOpenMode m) const { hndCalls[2] += pathOk(p) && m == fileOpenWrite; return true; } virtual PFolderIterator openFolder(ConstStrW p) { hndCalls[3] += pathOk(p); return nil; } virtual PFolderIterator getFileInfo(ConstStrW p) { return nil; } virtual void createFolder(ConstStrW p, bool b) { hndCalls[4] += pathOk(p) && b; } virtual void removeFolder(ConstStrW p, bool b) { hndCalls[5] += pathOk(p) && b; } virtual void copy(ConstStrW a, ConstStrW b, bool c) { hndCalls[6] += pathOk(a) && b == ConstStrW(L"abce") && c; } virtual void move(ConstStrW a, ConstStrW b, bool c) { hndCalls[7] += pathOk(a) && b == ConstStrW(L"abce") && c; } virtual void link(ConstStrW a, ConstStrW b, bool c) { hndCalls[8] += pathOk(a) && b == ConstStrW(L"abce") && c; } virtual void remove(ConstStrW p) { hndCalls[9] += pathOk(p); } virtual PMappedFile mapFile(ConstStrW p, FileOpenMode m) { hndCalls[10] += pathOk(p) && m == fileOpenRead; return nil; } };
// every operation with a path of a handler goes to the handler only
extern "C" void h_delegate() {
  fsReset(); mkfile("abcd", (const byte*)"x", 1); mkfile("z", (const byte*)"y", 1); svc().setHandler(ConstStrW(L"abc"), new Hnd); for (int i = 0; i < 12; i++) hndCalls[i] = 0; ConstStrW p(L"abcd"), q(L"abce"); unsigned op = pick(14, "op"); int c0 = calls; bool thrown = false;
  try {
    if (op == 0) CHECK(svc().openSeqFile(p, IFileIOServices::fileOpenRead, 5) == nil, "result of the handler"); else if (op == 1) CHECK(svc().openRndFile(p, IFileIOServices::fileOpenWrite, 6) == nil, "result of the handler"); else if (op == 2) CHECK(svc().canOpenFile(p, IFileIOServices::fileOpenWrite), "result of the handler"); else if (op == 3) svc().openFolder(p); else if (op == 4) svc().createFolder(p, true); else if (op == 5) svc().removeFolder(p, true); else if (op == 6) svc().copy(p, q, true); else if (op == 7) svc().move(p, q, true); else if (op == 8) svc().link(p, q, true); else if (op == 9) svc().remove(p); else if (op == 10) svc().mapFile(p, IFileIOServices::fileOpenRead);
    else if (op == 11) { if (pick(2, "dir")) svc().copy(p, ConstStrW(L"z2"), true); else svc().copy(ConstStrW(L"z"), p, true); } else if (op == 12) { if (pick(2, "dir")) svc().move(p, ConstStrW(L"z2"), true); else svc().move(ConstStrW(L"z"), p, true); } else { if (pick(2, "dir")) svc().link(p, ConstStrW(L"z2"), true); else svc().link(ConstStrW(L"z"), p, true); }
  } catch (Exception&) { thrown = true; }
  CHECK(thrown == (op > 10), "operation between two file systems"); for (unsigned i = 0; i < 11; i++) CHECK(hndCalls[i] == (i == op), "operation was not given to the handler"); CHECK(calls == c0, "system called for a path of the handler"); CHECK(nname == 2, "files changed"); lsx_reach("done");
}
// files mapped into memory
extern "C" void h_map() {
  fsReset(); Img m; content(m, pick(2, "length") ? 6 : 0, "data"); int n0 = mkfile("f", m.d, m.n); unsigned mode = pick(2, "mode") ? 3 : 1; bool cow = pick(2, "cow"), partial = m.n && pick(2, "part"); faults = pick(2, "fault"); bool ok = false;
  try { PMappedFile f = svc().mapFile(ConstStrW(L"f"), (IFileIOServices::FileOpenMode)mode);
    { IMappedFile::MappedRegion r = partial ? f->map(2, 3, (IFileIOServices::FileOpenMode)mode, cow) : f->map((IFileIOServices::FileOpenMode)mode, cow); ok = true; f = nil; int o = partial ? 2 : 0, l = partial ? 3 : m.n;
      CHECK(r.size == (natural)l && r.offset == (lnatural)o && (l == 0 || same((const byte*)r.address, m.d + o, l)), "mapped area"); CHECK(maps == (l > 0), "count of mapped areas"); if (l) { CHECK(mapNode == n0 && mapProt == (mode == 3 ? PROT_READ | PROT_WRITE : PROT_READ) && (mapFlags & (MAP_SHARED | MAP_PRIVATE)) == (cow ? MAP_PRIVATE : MAP_SHARED), "how the file is mapped"); { IMappedFile::MappedRegion r2 = r; } CHECK(maps == 1, "area unmapped while it is used"); if (mode == 3 && !cow) { byte z = lsx_range(0, 255, "z"); *(byte*)r.address = z; r.sync(); CHECK(node[n0].disk[o] == z, "synchronized area"); lsx_reach("written"); } } }
    CHECK(maps == 0, "area was not unmapped"); } catch (FileMsgException&) { CHECK(failed == 1, "mapping refused"); }
  CHECK(maps == 0 && openFds() == 0 && closed2 == 0, "area or descriptor left open"); CHECK(ok || failed, "mapping refused"); lsx_reach("done");
}
// handlers of path prefixes: the longest registered prefix decides
extern "C" void h_handlers() {
  fsReset(); static const wchar_t* P[4] = {L"a", L"ab", L"ac", L"abc"}; Hnd* h = new Hnd[6]; IFileIOHandler* reg[4] = {0, 0, 0, 0}; int used = 0;
  for (int s = 0; s < NS; s++) { unsigned k = pick(4, "prefix"); IFileIOHandler* n = pick(4, "remove") ? (IFileIOHandler*)&h[used++] : 0; if (!n && !reg[k]) lsx_stop_path(); IFileIOHandler* old = svc().setHandler(ConstStrW(P[k]), n); CHECK(old == reg[k], "previous handler"); reg[k] = n; }
  static const wchar_t* T[6] = {L"a", L"abcd", L"abd", L"ac", L"b", L""}; static const int best[6][4] = {{0, -1, -1, -1}, {3, 1, 0, -1}, {1, 0, -1, -1}, {2, 0, -1, -1}, {-1, -1, -1, -1}, {-1, -1, -1, -1}};
  for (int t = 0; t < 6; t++) { IFileIOHandler* e = 0; for (int i = 0; i < 4 && !e; i++) if (best[t][i] >= 0) e = reg[best[t][i]]; CHECK(svc().findHandler(ConstStrW(T[t])) == e, "handler of a path"); }
  lsx_reach("done");
}
// flags of opening, links, searching, temporary files
extern "C" void h_misc() {
  fsReset(); Img a, b; content(a, 3, "a"); content(b, 2, "b"); unsigned k = pick(8, "case"); bool there = pick(2, "there"), x1 = pick(2, "x1"), x2 = pick(2, "x2"); faults = k < 5 ? pick(2, "fault") : 0;
  if (k == 0) { if (there) mkfile("f", a.d, a.n); bool ok = false; unsigned fl = pick(2, "newFile") ? OpenFlags::create | OpenFlags::newFile : x1 ? OpenFlags::create : 0; bool tr = !(fl & OpenFlags::newFile) && x2; if (tr) fl |= OpenFlags::truncate; if (pick(2, "through")) fl |= OpenFlags::writeThrough; try { PInOutStream s = svc().openSeqFile(ConstStrW(L"f"), IFileIOServices::fileOpenWrite, fl); ok = true; } catch (FileOpenError& e) { CHECK(failed || e.getErrNo() == ((fl & OpenFlags::newFile) ? EEXIST : ENOENT), "reason of refusal"); }
    int f0 = failed; faults = 0; if (ok) { CHECK((fl & OpenFlags::newFile) ? !there : there || (fl & OpenFlags::create), "file was opened"); if (!there || tr) { int i = look("f"); CHECK(i >= 0 && node[name[i].node].size == 0, "new file is not empty"); } else isFile("f", a, "contents of the opened file"); } else CHECK(f0 || ((fl & OpenFlags::newFile) ? there : !there && !(fl & OpenFlags::create)), "file was not opened"); }
  else if (k == 1) { mkfile("f", a.d, a.n); bool ok = false; try { PInOutStream s = svc().openSeqFile(ConstStrW(L"f"), x1 ? IFileIOServices::fileOpenRead : IFileIOServices::fileOpenWrite, x2 ? OpenFlags::deleteOnClose : 0); ok = true; PInOutStream t = s; s = nil; isFile("f", a, "file deleted before it was closed"); faults = 0; } catch (FileOpenError&) {} faults = 0; CHECK((look("f") < 0) == (ok && x2), "file deleted on close"); CHECK(ok || failed, "file was not opened"); }
  else if (k == 2) { mkfile("t", a.d, a.n); if (there) mkfile("l", b.d, b.n); bool ok = false; try { svc().link(ConstStrW(L"l"), ConstStrW(L"t"), x1); ok = true; } catch (FileIOException&) {} faults = 0; isFile("t", a, "target of a link"); if (ok) { int i = look("l"); CHECK(i >= 0 && node[name[i].node].kind == LNK && strcmp(node[name[i].node].to, "t") == 0, "link"); CHECK(!there || x1, "existing file was overwritten"); } else { CHECK(failed || (there && !x1), "link refused"); if (there && !x1) isFile("l", b, "existing file was changed"); } }
  else if (k == 3) { mkfile("f", a.d, a.n); if (there) mkfile("g", b.d, b.n); bool ok = false; try { svc().remove(there ? ConstStrW(L"g") : ConstStrW(L"h")); ok = true; } catch (FileIOException&) {} isFile("f", a, "other file"); CHECK(!ok || (there && look("g") < 0), "removed file"); CHECK(ok || failed || !there, "removing refused"); }
  else if (k == 4) { dir("/tmp"); String fn; bool ok = false; try { PTemporaryFile t = svc().createTempFile(ConstStrW(L"tmp"), true); ok = true; faults = 0; fn = t->getFilename(); CHECK(fn.length() > 5, "name of a temporary file"); CHECK(t->getStream()->writeAll(a.d, a.n) == (natural)a.n, "temporary file"); PTemporaryFile t2 = svc().createTempFile(ConstStrW(L"tmp"), true); CHECK(!(t2->getFilename() == fn), "two temporary files share a name"); if (x1) { t->close(); int i = look(String::getUtf8(fn).c_str()); CHECK(i >= 0, "temporary file vanished"); isFile(name[i].name, a, "contents of a temporary file"); } if (x2) t->detach(); } catch (FileIOException&) { CHECK(failed, "temporary file"); } faults = 0; if (ok) CHECK((look(String::getUtf8(fn).c_str()) >= 0) == x2, "temporary file removed"); }
  else if (k == 5) { mkfile("f", a.d, a.n); node[0].ro = x1; if (x2) node[0].dev = 64; ConstStrW n = there ? ConstStrW(L"f") : ConstStrW(L"g"); CHECK(svc().canOpenFile(n, IFileIOServices::fileAccessible) == there && svc().canOpenFile(n, IFileIOServices::fileOpenRead) == there && svc().canOpenFile(n, IFileIOServices::fileOpenWrite) == (there && !x1) && svc().canOpenFile(n, IFileIOServices::fileOpenReadWrite) == (there && !x1) && svc().canOpenFile(n, IFileIOServices::fileExecutable) == (there && x2), "what can be done with a file"); }
  else if (k == 6) { dir("a"); dir("b"); dir("c"); int m = pick(8, "where"); static const char* F[3] = {"a/x", "b/x", "c/x"}; for (int i = 0; i < 3; i++) if (m >> i & 1) mkfile(F[i], a.d, a.n); int pos = 1 + pick(3, "position"); String r = svc().findFile(ConstStrW(L"x"), x1 ? ConstStrW(L"a:b/:c") : ConstStrW(L"a/:b:c/"), pos); const char* e = "x"; int q = 0; for (int i = 0; i < 3; i++) if (m >> i & 1) if (++q == pos) e = F[i]; CHECK(nameEq(r, e), "file found in the path"); }
  else if (there && x1 && x2 && pick(2, "root")) { cwdRoot = true; mkfile("/f", a.d, a.n); PFolderIterator i = svc().getFileInfo(ConstStrW(L"f")); CHECK(nameEq(i->getFullPath(), "/f") && nameEq(i->entryName, "f") && i->getModifiedTime() == TimeStamp::fromUnix(1000, 250), "file in the root"); }
  else { mkfile("/cwd/f", a.d, a.n); dir("/cwd/d"); node[0].ro = x2; PFolderIterator i = svc().getFileInfo(there ? x1 ? ConstStrW(L"/cwd/f") : ConstStrW(L"f") : x1 ? ConstStrW(L"/cwd/d") : ConstStrW(L"d")); CHECK(nameEq(i->getFullPath(), there ? "/cwd/f" : "/cwd/d") && nameEq(i->entryName, there ? "f" : "d") && nameEq(i->source, "/cwd"), "name of a file"); CHECK(i->type == (there ? IFolderIterator::file : IFolderIterator::directory) && !i->getNext(), "type of a file"); if (there) CHECK(i->getSize() == 3, "size of a file"); if (!there) lsx_stop_path();
    /* relative names are not known to the model */ if (x1) CHECK(i->getAllowedOpenMode() == (x2 ? IFileIOServices::fileOpenRead : IFileIOServices::fileOpenReadWrite), "access of a file"); bool t = false; try { svc().getFileInfo(ConstStrW(L"/nothing")); } catch (FileIOError&) { t = true; } CHECK(t, "information of a missing file"); }
  CHECK(openFds() == 0 && closed2 == 0, "descriptor left open or closed twice"); lsx_reach("done");
}
#if FSMX > 260
// more data in a pipe than the look-ahead buffer holds
extern "C" void h_pipebig() {
  static const unsigned short L[8] = {1, 100, 127, 128, 129, 255, 256, 260}, C[4] = {1, 64, 127, 250}; static byte d[260], t[260]; fsReset(); int tot = L[pick(8, "length")], pos = 0; for (int i = 0; i < tot; i++) d[i] = i * 31 + i / 128; int n0 = mkfile("p", d, 1); node[n0].size = tot; memcpy(node[n0].data, d, tot); int fd = open("p", O_RDWR); 
  { PInOutStream s = svc().openSeqFile(&fd, sizeof(fd), IFileIOServices::fileOpenRead); shorts = 1;
    for (int k = 0; k < 4; k++) { unsigned op = pick(3, "op"); int c = op == 2 ? 0 : C[pick(4, "count")]; natural x = 0; if (op == 2) { CHECK(s->canRead() == (pos < tot), "possible to read"); CHECK(s->dataReady() <= (natural)(tot - pos), "bytes ready"); continue; }
      x = op ? s->peek(t, c) : s->read(t, c); CHECK(x <= (natural)c && x <= (natural)(tot - pos) && (x > 0 || pos == tot), "count of bytes"); CHECK(memcmp(t, d + pos, x) == 0, "bytes read"); if (!op) pos += x; }
    while (pos < tot) { natural x = s->read(t, 260); CHECK(x > 0 && x <= (natural)(tot - pos) && memcmp(t, d + pos, x) == 0, "bytes read to the end"); pos += x; } CHECK(s->read(t, 4) == 0 && !s->canRead(), "end of the pipe"); }
  CHECK(openFds() == 0 && closed2 == 0, "descriptor left open or closed twice"); lsx_reach("done");
}
#endif
// sizes and positions over 2 GB
extern "C" void h_big() {
  fsReset(); mkfile("f", (const byte*)"x", 1); unsigned op = pick(8, "op"); lnatural off = lsx_sym(63, "offset"), len = lsx_sym(64, "length"); lsx_assume(off < (1ul << 62) && len > 0 && len < (1ul << 62)); byte t[4];
  if (op == 7) { lnatural tot = lsx_sym(64, "size"); lsx_assume(tot < (3ul << 31)); bigTotal = tot; bigPos = 0; big = true; shorts = 1; svc().copy(ConstStrW(L"f"), ConstStrW(L"g"), true); CHECK(bigPos == tot, "copy is not complete"); lsx_reach("done"); return; }
  PRndFileHandle r = svc().openRndFile(ConstStrW(L"f"), IFileIOServices::fileOpenReadWrite, 0); IInOutStream* s = r->getIfcPtr<IInOutStream>(); big = true; bigPos = off; bigTotal = len;
  if (op == 0) { natural x = r->read(t, len, off); CHECK(x == bigRet && bigOff == off && bigLen == len, "large read at a position"); }
  else if (op == 1) { natural x = r->write(t, len, off); CHECK(x == bigRet && bigOff == off && bigLen == len, "large write at a position"); }
  else if (op == 2) { natural x = s->read(t, len); CHECK(x == bigRet && bigLen == len, "large read"); }
  else if (op == 3) { natural x = s->write(t, len); CHECK(x == bigRet && bigLen == len, "large write"); }
  else if (op == 4) { r->setSize(off); CHECK(bigTotal == off && r->size() == off, "large size"); }
  else if (op == 5) { CHECK(r->size() == len, "large size"); CHECK(s->canRead() == (off < len), "possible to read"); }
  else { natural x = s->peek(t, 4); CHECK(x == bigRet && bigOff == off && x <= 4, "peek at a large position"); }
  lsx_reach("done");
}
