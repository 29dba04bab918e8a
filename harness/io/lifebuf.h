#pragma once
struct Buf {
  string s; size_t o = 0;
  void d(double v) { s.append((char *)&v, 8); } void l(long v) { s.append((char *)&v, 8); } void t(const string & v) { l(v.size()); s += v; }
  double gd() { double v = 0; if(o + 8 <= s.size()) memcpy(&v, &s[o], 8); o += 8; return v; } long gl() { long v = 0; if(o + 8 <= s.size()) memcpy(&v, &s[o], 8); o += 8; return v; } string gt() { size_t n = gl(); string r = s.substr(std::min(o, s.size()), n); o += n; return r; }
  void raw(const void * p, size_t n) { s.append((char *)p, n); } void graw(void * p, size_t n) { if(o + n <= s.size()) memcpy(p, &s[o], n); o += n; }
};
static void put(Buf & b, const Life & L) {
  b.l(L.n); b.l(L.sep); b.t(L.in); b.t(L.out); b.l(L.first); b.l(L.read); b.l(L.last); b.l(L.every); b.d(L.initial_dt); b.l(L.salt); b.l(L.writes.size());
  for(auto & w : L.writes) { b.t(w.prefix); b.l(w.iter); b.d(w.time); b.d(w.dt); b.l(w.of.size()); for(auto & r : w.of) { b.l(r.size()); b.raw(r.data(), r.size() * sizeof(IB)); } }
}
static Life getlife(Buf & b) {
  Life L; L.n = b.gl(); L.sep = b.gl(); L.in = b.gt(); L.out = b.gt(); L.first = b.gl(); L.read = b.gl(); L.last = b.gl(); L.every = b.gl(); L.initial_dt = b.gd(); L.salt = b.gl(); L.writes.resize(b.gl());
  for(auto & w : L.writes) { w.prefix = b.gt(); w.iter = b.gl(); w.time = b.gd(); w.dt = b.gd(); w.of.resize(b.gl()); for(auto & r : w.of) { r.resize(b.gl()); b.graw(r.data(), r.size() * sizeof(IB)); } }
  return L;
}
static void put(Buf & b, const LRes & r) { b.d(r.time); b.d(r.dt); b.l(r.total); b.l(r.local); b.l(r.done); b.l(r.b.size()); b.raw(r.b.data(), r.b.size() * sizeof(IB)); }
static LRes getres(Buf & b) { LRes r; r.time = b.gd(); r.dt = b.gd(); r.total = b.gl(); r.local = b.gl(); r.done = b.gl(); r.b.resize(std::max(0l, std::min(100000l, b.gl()))); b.graw(r.b.data(), r.b.size() * sizeof(IB)); return r; }
