// Buffered streams and files in memory: bytes arrive intact, in order, none twice, none lost
#include "lsx.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/streams/memfile.tcc"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/exceptions/iterator.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
enum { MAXB = 64 };
static int flushes;                         // of the other buffer
// the device behind a buffer: gives and takes as much as it likes
struct Dev {
  byte in[MAXB]; int nin, pos; byte out[MAXB]; int nout; byte acc[MAXB]; int nacc; bool full; int flushed, closed, reads; bool chk, other; int failR, failW;
  Dev() : nin(0), pos(0), nout(0), nacc(0), full(true), flushed(0), closed(0), reads(0), chk(false), other(false), failR(-1), failW(-1) {}
  int part(int n) { return full || n <= 1 ? n : 1 + pick(2, "part") * (n - 1); }
  natural rd(void* b, natural n) { CHECK(n > 0 && n < 1000, "size of a read"); if (chk) CHECK(nout == nacc, "read from the device while written data wait in the buffer"); if (other) CHECK(flushes > 0, "read from the device before the connected buffer was flushed"); reads++; if (failR == 0) { failR--; throw 1; } if (failR > 0) failR--; int l = nin - pos; if (l > (int)n) l = n; l = part(l); memcpy(b, in + pos, l); pos += l; return l; }
  natural pk(void* b, natural n) { int l = nin - pos; if (l > (int)n) l = n; memcpy(b, in + pos, l); return l; }
  natural wr(const void* b, natural n) { CHECK(n > 0 && n < 1000 && !closed, "size of a write"); if (failW == 0) { failW--; throw 1; } if (failW > 0) failW--; int l = part(n); CHECK(nout + l <= MAXB, "too much data"); memcpy(out + nout, b, l); nout += l; return l; }
};
struct Both : IInOutStream { Dev* d; Both(Dev* d) : d(d) {} virtual natural read(void* b, natural n) { return d->rd(b, n); } virtual natural write(const void* b, natural n) { return d->wr(b, n); } virtual natural peek(void* b, natural n) const { return d->pk(b, n); } virtual bool canRead() const { return d->pos < d->nin; } virtual bool canWrite() const { return !d->closed; } virtual void flush() { d->flushed++; } virtual natural dataReady() const { return pick(2, "ready"); } virtual void closeOutput() { d->closed++; } };
struct In : IInputStream { Dev* d; In(Dev* d) : d(d) {} virtual natural read(void* b, natural n) { return d->rd(b, n); } virtual natural peek(void* b, natural n) const { return d->pk(b, n); } virtual bool canRead() const { return d->pos < d->nin; } virtual natural dataReady() const { return pick(2, "ready"); } };
struct Out : IOutputStream { Dev* d; Out(Dev* d) : d(d) {} virtual natural write(const void* b, natural n) { return d->wr(b, n); } virtual bool canWrite() const { return !d->closed; } virtual void flush() { d->flushed++; } virtual void closeOutput() { d->closed++; } };
struct Other : IBufferFlush { virtual void flush() { flushes++; } };
#ifndef BS
#define BS 4
#endif
#ifndef NS
#define NS 3
#endif
#ifndef NIN
#define NIN 6
#endif
typedef IOBuffer<BS> Buf;
static bool same(const byte* a, const byte* b, int n) { unsigned d = 0; for (int i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
// what is to be read next: q[0..nq) given back, then the rest of the device
struct Model { byte q[MAXB]; int nq; };
#ifndef OPS
#define OPS 10
#endif
extern "C" void h_iobuf() {
  Dev* d = new Dev; d->nin = pick(2, "length") ? NIN : 2; for (int i = 0; i < d->nin; i++) d->in[i] = lsx_range(0, 255, "in"); d->full = pick(2, "full"); flushes = 0; Other o; unsigned kind = pick(3, "kind");
  { Buf* b = kind == 0 ? new Buf(static_cast<IInOutStream*>(new Both(d))) : kind == 1 ? new Buf(static_cast<IInputStream*>(new In(d))) : new Buf(static_cast<IOutputStream*>(new Out(d)));
    PInOutStream keep(b);
    bool cin = kind != 2, cout = kind != 1; d->chk = kind == 0; if (kind == 0 && pick(2, "reserve")) b->reserveWrite(1 + pick(2, "space")); if (pick(2, "connected")) { b->setAutoflush(&o); d->other = true; CHECK(b->getAutoflush() == &o, "connected buffer"); }
    byte q[MAXB]; int nq = d->nin; if (!cin) nq = 0; memcpy(q, d->in, nq); bool justRead = false, closed = false; byte last = 0;
    for (int s = 0; s < NS; s++) {
      natural il = b->getInputLength(); CHECK(il <= (natural)nq && il <= BS, "count of buffered bytes"); { ConstBin x = b->getInputBuffer(); CHECK(x.length() == il && same(x.data(), q, il), "contents of the buffer"); }
      CHECK((integer)b->getOutputLength() == d->nacc - d->nout, "count of bytes waiting to be written"); CHECK(b->getOutputAvailable() <= BS - il - b->getOutputLength() && b->getOutputAvailable() == b->getWriteSpace(), "space left in the buffer"); CHECK(same(d->out, d->acc, d->nout), "bytes written to the device"); CHECK(b->canWrite() == (cout && !closed), "possible to write");
      unsigned op = pick(OPS, "op"); bool jr = false; flushes = 0; byte t[MAXB]; int before = d->reads;
      if (op == 0) { if (!cin) lsx_stop_path(); int n = 1 + pick(3, "n") * 2; natural r = b->read(t, n); CHECK(r <= (natural)n && r <= (natural)nq && (r > 0 || nq == 0), "count of bytes read"); CHECK(same(t, q, r), "bytes read"); if (r) last = q[r - 1]; nq -= r; memmove(q, q + r, nq); jr = r > 0; }
      else if (op == 1) { if (!cout || closed) lsx_stop_path(); int n = 1 + pick(3, "n") * 2; byte w[8]; for (int i = 0; i < n; i++) w[i] = lsx_range(0, 255, "out"); memcpy(d->acc + d->nacc, w, n); d->nacc += n; d->chk = false; natural r = b->write(w, n); d->nacc -= n - r; d->chk = kind == 0; CHECK(r > 0 && r <= (natural)n, "count of bytes written"); }
      else if (op == 2) { int n = 1 + pick(3, "n") * 2; natural r = b->peek(t, n); CHECK(r <= (natural)n && r <= (natural)nq && (r > 0 || nq == 0), "count of bytes seen"); CHECK(same(t, q, r), "bytes seen"); }
      else if (op == 3) { if (!cout) lsx_stop_path(); int f = d->flushed; b->flush(); CHECK(d->nout == d->nacc && d->flushed == f + 1, "flush left data in the buffer"); }
      else if (op == 4) { int n = 1 + pick(2, "n"); byte w[2] = {byte(lsx_range(0, 255, "back")), byte(lsx_range(0, 255, "back"))}; bool done = true; try { b->putBack(ConstBin(w, n)); } catch (WriteIteratorNoSpace&) { done = false; } if (justRead && n == 1) CHECK(done, "a byte just read cannot be put back"); if (done) { memmove(q + n, q, nq); memcpy(q, w, n); nq += n; } }
      else if (op == 5) { natural r = b->fetch(); CHECK(b->getInputLength() == il + r && (r > 0 || il == BS || d->pos == d->nin || !cin), "count of bytes fetched"); }
      else if (op == 6) { byte w[2] = {1, 2}; if (il) { int k = pick(3, "seq"); w[0] = q[k % il]; w[1] = q[(k + 1) % il]; } natural r = b->lookup(ConstBin(w, 1)); if (il) CHECK(r < il, "place of a byte in the buffer"); else CHECK(r == naturalNull, "place of a byte in an empty buffer"); }
      else if (op == 7) { int n = 1 + pick(3, "n"); b->discardInput(n); natural r = il < (natural)n ? il : n; CHECK(b->getInputLength() == il - r, "count of bytes discarded"); nq -= r; memmove(q, q + r, nq); }
      else if (op == 8) { int l = d->nacc - d->nout, n = 1 + pick(2, "n"); b->discardOutput(n); d->nacc -= l < n ? l : n; }
      else { bool c = b->canRead(); CHECK(c == (nq > 0), "possible to read"); if (cin) { natural r = b->dataReady(); natural z = b->getInputLength(); if (z) CHECK(r == z, "bytes ready"); CHECK(b->peek(t, 0) == z, "bytes in the buffer"); } }
      if (d->reads > before && d->chk) CHECK(d->nout == d->nacc || op == 1 || op == 8, "data left in the buffer before a read");
      justRead = jr; }
    if (cout && pick(2, "close")) { b->closeOutput(); CHECK(d->nout == d->nacc && d->closed == 1 && !b->canWrite(), "closeOutput() left data in the buffer"); if (cin && nq) { byte t[1]; CHECK(b->read(t, 1) == 1 && t[0] == q[0], "bytes read after the output was closed"); } } }
  CHECK(d->nout == d->nacc && same(d->out, d->acc, d->nout), "a destroyed buffer has lost data"); delete d; lsx_reach("done");
}
// search in a buffer which is filled part by part
extern "C" void h_lookup() {
  Dev* d = new Dev; d->nin = BS + 1; for (int i = 0; i < d->nin; i++) d->in[i] = lsx_range(0, 255, "in"); d->full = false; byte t[8]; { Buf* b = new Buf(static_cast<IInputStream*>(new In(d))); PInputStream keep(b); int n = pick(4, "n"), skip = pick(2, "skip"); byte w[3]; for (int i = 0; i < n; i++) w[i] = lsx_range(0, 255, "seq"); const byte* q = d->in; b->fetch(); if (skip) { b->read(t, 1); q++; }
    natural fc = naturalNull; for (int s = 0; s < 3; s++) { natural il = b->getInputLength(); natural r = b->lookup(ConstBin(w, n), fc); int e = -1; for (int i = (int)il - n; i >= 0; i--) if (same(q + i, w, n)) e = i; if (n == 0) { CHECK(r == 0, "place of nothing"); break; } CHECK(e < 0 ? r == naturalNull : r == (natural)e, "place of the sequence in the buffer"); if (e >= 0) break; fc = b->fetch(); if (fc == 0) break; } }
  delete d; lsx_reach("done");
}
// a device which fails: nothing read is lost
extern "C" void h_iobuf_fail() {
  Dev* d = new Dev; d->nin = NIN; for (int i = 0; i < d->nin; i++) d->in[i] = lsx_range(0, 255, "in"); d->full = pick(2, "full"); d->failR = pick(3, "fails"); { Buf* b = new Buf(static_cast<IInOutStream*>(new Both(d))); PInOutStream keep(b); byte q[MAXB]; int nq = d->nin; memcpy(q, d->in, nq);
    for (int s = 0; s < NS; s++) { unsigned op = pick(4, "op"); byte t[MAXB]; try { if (op == 0) { natural r = b->read(t, 1 + pick(2, "n") * 2); CHECK(r <= (natural)nq && same(t, q, r), "bytes read"); nq -= r; memmove(q, q + r, nq); } else if (op == 1) { byte w[2] = {byte(lsx_range(0, 255, "out")), byte(lsx_range(0, 255, "out"))}; int n = 1 + pick(2, "n"); memcpy(d->acc + d->nacc, w, n); d->nacc += n; natural r = b->write(w, n); d->nacc -= n - r; } else if (op == 2) { b->fetch(); } else { natural r = b->peek(t, 3); CHECK(r <= (natural)nq && same(t, q, r), "bytes seen"); } } catch (int) { CHECK(op != 1, "a write reads from the device"); }
      ConstBin x = b->getInputBuffer(); CHECK(x.length() <= (natural)nq && same(x.data(), q, x.length()), "contents of the buffer"); } }
  CHECK(d->nout == d->nacc && same(d->out, d->acc, d->nout), "a destroyed buffer has lost data"); delete d; lsx_reach("done");
}
// the iterators over a buffered stream
extern "C" void h_seqfile() {
  Dev* d = new Dev; d->nin = pick(NIN, "length"); for (int i = 0; i < d->nin; i++) d->in[i] = lsx_range(0, 255, "in"); d->full = pick(2, "full"); bool buffered = pick(2, "buffered"); int pos = 0;
  if (pick(2, "write") == 0) { SeqFileInput* f = buffered ? new SeqFileInBuff<BS>(static_cast<IInputStream*>(new In(d))) : new SeqFileInput(static_cast<IInputStream*>(new In(d)));
    for (int s = 0; s < NS; s++) { CHECK(f->hasItems() == (pos < d->nin), "hasItems() of a stream"); unsigned op = pick(5, "op"); bool end = false; byte t[MAXB]; natural r = 0; int n = 1 + pick(3, "n") * 2;
      try { if (op == 0) { t[0] = f->getNext(); r = 1; } else if (op == 1) { t[0] = f->peek(); CHECK(t[0] == d->in[pos], "byte seen"); } else if (op == 2) { r = f->blockRead(t, n, true); CHECK(r == (natural)n, "count of bytes read"); } else if (op == 3) { r = f->blockRead(t, n, false); CHECK(r > 0 && r <= (natural)n, "count of bytes read"); } else { r = f->getStream()->readAll(t, n); int l = d->nin - pos; CHECK((int)r == (l < n ? l : n), "count of bytes read"); } } catch (IteratorNoMoreItems&) { end = true; }
      if (end) { CHECK(op != 4 && (op == 2 ? n > d->nin - pos : pos == d->nin), "end of the stream"); if (op == 2) break; } else CHECK(op == 4 || pos + (op == 1) <= d->nin, "end of the stream"); CHECK(same(t, d->in + pos, r), "bytes read"); pos += r; }
    delete f; }
  else { SeqFileOutput* f = buffered ? new SeqFileOutBuff<BS>(static_cast<IOutputStream*>(new Out(d))) : new SeqFileOutput(static_cast<IOutputStream*>(new Out(d)));
    for (int s = 0; s < NS; s++) { CHECK(f->hasItems(), "hasItems() of a stream"); unsigned op = pick(4, "op"); byte w[8]; int n = 1 + pick(3, "n") * 2; for (int i = 0; i < n; i++) w[i] = lsx_range(0, 255, "out"); if (op == 0) { f->write(w[0]); d->acc[d->nacc++] = w[0]; } else if (op == 1) { CHECK(f->blockWrite(w, n, true) == (natural)n, "count of bytes written"); memcpy(d->acc + d->nacc, w, n); d->nacc += n; } else if (op == 2) { natural r = f->blockWrite(w, n, false); CHECK(r > 0 && r <= (natural)n, "count of bytes written"); memcpy(d->acc + d->nacc, w, r); d->nacc += r; } else { f->flush(); CHECK(d->nout == d->nacc, "flush left data"); } }
    if (pick(2, "close")) { f->closeOutput(); CHECK(!f->hasItems(), "hasItems() of a closed stream"); } delete f; }
  CHECK(d->nout == d->nacc && same(d->out, d->acc, d->nout), "bytes written"); delete d; lsx_reach("done");
}
// a file in memory against an array
extern "C" void h_memfile() {
  MemFile<>* m = new MemFile<>; PInOutStream keep(m); byte a[MAXB]; int n = 0, pos = 0; bool app = false; byte gap[MAXB] = {}; CHECK(!m->isAppendMode(), "append mode of a new file");
  for (int s = 0; s < NS; s++) {
    CHECK(m->size() == (lnatural)n && m->empty() == (n == 0) && m->getBuffer().length() == (natural)n, "size of the file"); for (int i = 0; i < n; i++) if (!gap[i]) CHECK(m->getBuffer()[i] == a[i], "contents of the file"); CHECK(m->canRead() == (pos < n), "possible to read");
    unsigned op = pick(8, "op"); byte w[4]; int k = 1 + pick(3, "n"); for (int i = 0; i < k; i++) w[i] = lsx_range(0, 255, "data"); byte t[MAXB];
    if (op == 0) { if (app) lsx_stop_path(); CHECK(m->write(w, k) == (natural)k, "count of bytes written"); for (int i = n; i < pos; i++) gap[i] = 1; for (int i = 0; i < k; i++) { a[pos + i] = w[i]; gap[pos + i] = 0; } pos += k; if (pos > n) n = pos; }
    else if (op == 1) { natural r = m->read(t, k); int l = n > pos ? n - pos : 0; if (l > k) l = k; CHECK((int)r == l, "count of bytes read"); for (int i = 0; i < l; i++) if (!gap[pos + i]) CHECK(t[i] == a[pos + i], "bytes read"); pos += l; }
    else if (op == 2) { natural r = m->peek(t, k); int l = n > pos ? n - pos : 0; if (l > k) l = k; CHECK((int)r == l, "count of bytes seen"); for (int i = 0; i < l; i++) if (!gap[pos + i]) CHECK(t[i] == a[pos + i], "bytes seen"); }
    else if (op == 3) { int at = pick(n + 2, "offset"); CHECK(m->write(w, k, at) == (natural)k, "count of bytes written"); for (int i = n; i < at; i++) gap[i] = 1; for (int i = 0; i < k; i++) { a[at + i] = w[i]; gap[at + i] = 0; } if (at + k > n) n = at + k; }
    else if (op == 4) { int at = pick(n + 2, "offset"); natural r = m->read(t, k, at); int l = n > at ? n - at : 0; if (l > k) l = k; CHECK((int)r == l, "count of bytes read"); for (int i = 0; i < l; i++) if (!gap[at + i]) CHECK(t[i] == a[at + i], "bytes read"); }
    else if (op == 5) { int z = pick(n + 2, "size"); for (int i = n; i < z; i++) gap[i] = 1; m->setSize(z); n = z; }
    else if (op == 6) { pos = pick(n + 2, "position"); m->setPos(pos); }
    else { if (pick(2, "clear")) { m->clear(); n = pos = 0; } else { app = !app; m->setAppendMode(app); CHECK(m->isAppendMode() == app, "append mode"); if (app) { CHECK(m->write(w, k) == (natural)k, "count of bytes written"); for (int i = 0; i < k; i++) { a[n + i] = w[i]; gap[n + i] = 0; } n += k; pos += k; } } } }
  CHECK(m->canWrite(), "possible to write"); static_cast<IInOutStream*>(m)->closeOutput(); CHECK(!m->canWrite(), "possible to write to a closed file"); lsx_reach("done");
}
// a constant text as a file, and a part of a file as a stream
extern "C" void h_memstr() {
  char x[4]; int n = pick(5, "length"); for (int i = 0; i < n; i++) x[i] = lsx_range(0, 255, "text"); MemFileStr* m = new MemFileStr(ConstStrA(x, n)); PInputStream keep(m); int pos = 0; RndFileReader* r = 0; PInputStream keep2; if (pick(2, "part")) { pos = pick(n + 2, "offset"); r = new RndFileReader(m, pos); keep2 = r; }
  IInputStream* st = r ? static_cast<IInputStream*>(r) : m;
  CHECK(m->size() == (lnatural)n && m->empty() == (n == 0) && !m->canWrite() && m->write("x", 1, 0) == 0, "a constant file");
  for (int s = 0; s < NS; s++) { CHECK(st->canRead() == (pos < n), "possible to read"); char t[8]; unsigned op = pick(4, "op"); int k = 1 + pick(5, "n"); int l = n > pos ? n - pos : 0; if (l > k) l = k;
    if (op == 0) { natural g = st->read(t, k); CHECK((int)g == l && same((byte*)t, (byte*)x + pos, l), "bytes read"); pos += l; if (r) CHECK(r->getOffset() == (lnatural)pos, "offset"); }
    else if (op == 1) { natural g = st->peek(t, k); CHECK((int)g == l && same((byte*)t, (byte*)x + pos, l), "bytes seen"); }
    else if (op == 2) { int at = pick(n + 2, "at"); natural g = m->read(t, k, at); int z = n > at ? n - at : 0; if (z > k) z = k; CHECK((int)g == z && same((byte*)t, (byte*)x + at, z), "bytes read"); }
    else { pos = pick(n + 2, "position"); if (r) r->setOffset(pos); else m->setPos(pos); } }
  lsx_reach("done");
}
extern "C" void h_rndwrite() {
  MemFile<>* f = new MemFile<>; PRndFileHandle kf(f); int at = pick(3, "at"); f->setSize(pick(4, "size")); natural z = f->size(); { RndFileWriter w(f, at); PInOutStream none; byte d[3]; int k = 1 + pick(3, "k"); for (int i = 0; i < k; i++) d[i] = lsx_range(0, 255, "data"); CHECK(w.write(d, k) == (natural)k && w.getOffset() == (lnatural)(at + k) && w.write(d, 1) == 1, "bytes written"); CHECK(f->size() == (z > (natural)(at + k + 1) ? z : at + k + 1), "size of the file"); for (int i = 0; i < k; i++) CHECK(f->getBuffer()[at + i] == d[i], "bytes written"); CHECK(f->getBuffer()[at + k] == d[0], "bytes written"); w.closeOutput(); bool no = false; try { w.write(d, 1); } catch (WriteIteratorNoSpace&) { no = true; } CHECK(no, "write to a closed stream"); }
  lsx_reach("done");
}
