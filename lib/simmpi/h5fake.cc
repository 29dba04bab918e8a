// A small hierarchical store with HDF5's calling interface. File placeholders
// exist on disk (so access(), remove(), opendir() of the code under test work);
// their content names the in-memory tree. Collective creation: every rank of the
// job may "create" an object once; a second creation by one rank fails, as in HDF5.
#include "h5fake.h"
#include "hdf5.h"
#include "sim.h"
#include <cstdio>
#include <cstring>
#include <sstream>
#include <unistd.h>
namespace h5 {
std::map<long, std::shared_ptr<File>> store;
static long next_id = 1;
struct Space { std::vector<hsize_t> dims; bool scalar = false; int sel = 1; hsize_t off = 0, cnt = 0; /*sel: 0 none 1 all 2 slab*/ };
struct H { char kind = 0; std::shared_ptr<Obj> o; std::shared_ptr<File> f; Space s; bool mpio = false; MPI_Comm comm = 0; bool rdonly = false; std::string path; };
static std::vector<std::unique_ptr<H>> hs;
static const hid_t BASE = 100000;
static hid_t add(H h) { hs.push_back(std::make_unique<H>(std::move(h))); return BASE + (hid_t)hs.size() - 1; }
static H * get(hid_t i, char k = 0) {
  i -= BASE;
  if(i < 0 || i >= (hid_t)hs.size() || !hs[i]) return nullptr;
  if(k && hs[i]->kind != k) return nullptr;
  return hs[i].get();
}
static int closeh(hid_t i) { if(!get(i)) return -1; hs[i - BASE].reset(); return 0; }
int open_handles() { int n = 0; for(auto & h : hs) if(h && (h->kind == 'f')) ++n; return n; }
void reset() { store.clear(); hs.clear(); }
static long placeholder(const std::string & fn) {
  FILE * f = fopen(fn.c_str(), "r");
  if(!f) return -1;
  long id = -1;
  if(fscanf(f, "FAKEH5 %ld", &id) != 1) id = -1;
  fclose(f);
  return id;
}
std::shared_ptr<Obj> load(const std::string & fn) {
  long id = placeholder(fn);
  auto it = store.find(id);
  return it == store.end() ? nullptr : it->second->root;
}
static std::shared_ptr<File> mk(const std::string & fn) {
  FILE * f = fopen(fn.c_str(), "w");
  if(!f) return nullptr;
  long id = next_id++;
  fprintf(f, "FAKEH5 %ld\n", id);
  fclose(f);
  auto p = std::make_shared<File>();
  p->root = std::make_shared<Obj>();
  store[id] = p;
  return p;
}
long crash_at = -1, changes = 0;
std::string crash_file;
static void change() { if(changes++ == crash_at) { freeze(crash_file); _exit(77); } }
static void put(FILE * f, const Obj & o) {
  auto u = [&](unsigned long long v) { fwrite(&v, 8, 1, f); };
  u(o.kind); u(o.type); u(o.scalar); u(o.dims.size()); for(auto d : o.dims) u(d);
  u(o.data.size()); fwrite(o.data.data(), 1, o.data.size(), f);
  for(auto m : {&o.child, &o.attr}) { u(m->size()); for(auto & c : *m) { u(c.first.size()); fwrite(c.first.data(), 1, c.first.size(), f); put(f, *c.second); } }
}
static std::shared_ptr<Obj> take(FILE * f) {
  auto u = [&] { unsigned long long v = 0; if(fread(&v, 8, 1, f) != 1) v = 0; return v; };
  auto o = std::make_shared<Obj>();
  o->kind = (char)u(); o->type = (long)u(); o->scalar = u(); o->dims.resize(u()); for(auto & d : o->dims) d = u();
  o->data.resize(u()); if(o->data.size() && fread(o->data.data(), 1, o->data.size(), f) != o->data.size()) o->data.clear();
  for(auto m : {&o->child, &o->attr}) for(auto n = u(); n; --n) { std::string k(u(), 0); if(fread(&k[0], 1, k.size(), f) != k.size()) break; (*m)[k] = take(f); }
  return o;
}
void freeze(const std::string & path) {
  FILE * f = fopen(path.c_str(), "wb");
  if(!f) return;
  unsigned long long n[2] = {(unsigned long long)next_id, store.size()};
  fwrite(n, 16, 1, f);
  for(auto & s : store) { unsigned long long id = s.first; fwrite(&id, 8, 1, f); put(f, *s.second->root); }
  fclose(f);
}
void thaw(const std::string & path) {
  reset();
  FILE * f = fopen(path.c_str(), "rb");
  if(!f) return;
  unsigned long long n[2] = {1, 0}, id;
  if(fread(n, 16, 1, f) != 1) n[1] = 0;
  next_id = n[0];
  for(; n[1]; --n[1]) { if(fread(&id, 8, 1, f) != 1) break; auto p = std::make_shared<File>(); p->root = take(f); store[id] = p; }
  fclose(f);
}
// what was in a file when it was opened was created by everybody
static void settle(Obj & o) { for(int i = 0; i < 64; ++i) o.creators.insert(i); for(auto m : {&o.child, &o.attr}) for(auto & c : *m) settle(*c.second); }
void save(const std::string & fn, std::shared_ptr<Obj> root) { auto f = mk(fn); if(f) f->root = root; }
static size_t tsize(hid_t t) { switch(t) { case 200: return 1; case 201: case 202: case 205: return 4; case 203: case 204: case 206: return 8; } return 0; }
template<class T> static std::shared_ptr<Obj> mkd(const std::vector<T> & v, long t) {
  auto o = std::make_shared<Obj>();
  o->kind = 'd'; o->type = t; o->dims = {v.size()};
  o->data.assign((const char *)v.data(), (const char *)(v.data() + v.size()));
  return o;
}
std::shared_ptr<Obj> dset_d(const std::vector<double> & v) { return mkd(v, H5T_NATIVE_DOUBLE); }
std::shared_ptr<Obj> dset_l(const std::vector<long> & v) { return mkd(v, H5T_NATIVE_LONG); }
std::shared_ptr<Obj> dset_i(const std::vector<int> & v) { return mkd(v, H5T_NATIVE_INT); }
static double getd(hid_t t, const char * p) {
  switch(t) {
    case 200: return *p;
    case 201: { int32_t v; memcpy(&v, p, 4); return v; }
    case 202: { uint32_t v; memcpy(&v, p, 4); return v; }
    case 203: { int64_t v; memcpy(&v, p, 8); return (double)v; }
    case 204: { uint64_t v; memcpy(&v, p, 8); return (double)v; }
    case 205: { float v; memcpy(&v, p, 4); return v; }
    default: { double v; memcpy(&v, p, 8); return v; }
  }
}
static void putd(hid_t t, char * p, double d) {
  switch(t) {
    case 200: *p = (char)d; break;
    case 201: { int32_t v = (int32_t)d; memcpy(p, &v, 4); break; }
    case 202: { uint32_t v = (uint32_t)d; memcpy(p, &v, 4); break; }
    case 203: { int64_t v = (int64_t)d; memcpy(p, &v, 8); break; }
    case 204: { uint64_t v = (uint64_t)d; memcpy(p, &v, 8); break; }
    case 205: { float v = (float)d; memcpy(p, &v, 4); break; }
    default: memcpy(p, &d, 8);
  }
}
static void conv(hid_t st, const char * s, hid_t dt, char * d, size_t n) {
  if(st == dt) { memcpy(d, s, n * tsize(st)); return; }
  for(size_t i = 0; i < n; ++i) putd(dt, d + i * tsize(dt), getd(st, s + i * tsize(st)));
}
std::vector<double> as_d(const std::shared_ptr<Obj> & o) {
  std::vector<double> v;
  if(!o) return v;
  size_t e = tsize(o->type);
  for(size_t i = 0; e && i < o->data.size() / e; ++i) v.push_back(getd(o->type, o->data.data() + i * e));
  return v;
}
std::vector<long> as_l(const std::shared_ptr<Obj> & o) {
  std::vector<long> v;
  for(double d : as_d(o)) v.push_back((long)d);
  return v;
}
static std::shared_ptr<Obj> walk(H * h, const char * name, std::shared_ptr<Obj> * parent = nullptr, std::string * last = nullptr) {
  std::shared_ptr<Obj> o = name[0] == '/' ? h->f->root : h->o;
  for(const char * a = name; *a;) {
    const char * b = a;
    while(*b && *b != '/') ++b;
    const char * e = b;
    while(*b == '/') ++b;
    if(e > a) {
      if(!o) return nullptr;
      std::string part(a, e);
      if(parent && !*b) { *parent = o; *last = part; }
      auto it = o->child.find(part);
      o = it == o->child.end() ? nullptr : it->second;
    }
    a = b;
  }
  return o;
}
} // namespace h5
using namespace h5;
static hid_t fopen_common(const char * fn, bool create, unsigned flags, hid_t fapl) {
  H * pl = get(fapl, 'p');
  bool par = pl && pl->mpio;
  MPI_Comm c = par ? pl->comm : 0;
  int rank = 0;
  if(par) MPI_Comm_rank(c, &rank);
  std::shared_ptr<File> f;
  if(par) MPI_Barrier(c);
  if(create) {
    if(rank == 0) f = mk(fn);
    if(par) MPI_Barrier(c);
  }
  if(!f) {
    long id = placeholder(fn);
    auto it = store.find(id);
    if(it != store.end()) f = it->second;
  }
  if(par) MPI_Barrier(c);
  if(!f) return -1;
  if(!create && rank == 0) settle(*f->root);
  if(par) MPI_Barrier(c);
  H h;
  h.kind = 'f'; h.f = f; h.o = f->root; h.mpio = par; h.comm = c; h.rdonly = !create && !(flags & H5F_ACC_RDWR);
  return add(h);
}
static hid_t create_obj(hid_t loc, const char * name, char kind, hid_t type, Space * sp, bool attr) {
  H * h = get(loc);
  if(!h || (h->kind != 'f' && h->kind != 'g' && h->kind != 'd')) return -1;
  if(h->rdonly) return -1;
  change();
  std::shared_ptr<Obj> o, parent;
  std::string last;
  if(attr) { auto it = h->o->attr.find(name); if(it != h->o->attr.end()) o = it->second; }
  else o = walk(h, name, &parent, &last);
  int me = sim::cur_rank();
  if(o) {
    if(o->creators.count(me) || o->kind != kind) return -1;
    if(sp && (o->dims != sp->dims || o->type != type)) return -1;
  }
  else {
    if(!attr && !parent) return -1;
    o = std::make_shared<Obj>();
    o->kind = kind;
    o->type = type;
    if(sp) {
      o->dims = sp->dims;
      o->scalar = sp->scalar;
      size_t n = 1;
      for(auto d : sp->dims) n *= d;
      o->data.assign(n * tsize(type), 0);
    }
    if(attr) h->o->attr[name] = o;
    else parent->child[last] = o;
    // objects that existed before this job step count as created by everybody
  }
  o->creators.insert(me);
  H r;
  r.kind = attr ? 'a' : kind;
  r.o = o; r.f = h->f; r.rdonly = h->rdonly; r.mpio = h->mpio; r.comm = h->comm;
  return add(r);
}
static hid_t open_obj(hid_t loc, const char * name, char kind) {
  H * h = get(loc);
  if(!h || (h->kind != 'f' && h->kind != 'g')) return -1;
  auto o = walk(h, name);
  if(!o || o->kind != kind) return -1;
  H r;
  r.kind = kind; r.o = o; r.f = h->f; r.rdonly = h->rdonly;
  return add(r);
}
extern "C" {
herr_t H5open(void) { return 0; }
herr_t H5close(void) { return 0; }
hid_t H5Pcreate(hid_t) { H h; h.kind = 'p'; return add(h); }
herr_t H5Pclose(hid_t i) { return closeh(i); }
herr_t H5Pset_fapl_mpio(hid_t p, MPI_Comm c, MPI_Info) { H * h = get(p, 'p'); if(!h) return -1; h->mpio = true; h->comm = c; return 0; }
herr_t H5Pset_dxpl_mpio(hid_t p, H5FD_mpio_xfer_t) { return get(p, 'p') ? 0 : -1; }
herr_t H5Pset_all_coll_metadata_ops(hid_t, hbool_t) { return 0; }
herr_t H5Pset_coll_metadata_write(hid_t, hbool_t) { return 0; }
hid_t H5Fcreate(const char * n, unsigned f, hid_t, hid_t a) { return fopen_common(n, true, f, a); }
hid_t H5Fopen(const char * n, unsigned f, hid_t a) { return fopen_common(n, false, f, a); }
herr_t H5Fclose(hid_t i) {
  H * h = get(i, 'f');
  if(!h) return -1;
  bool par = h->mpio; MPI_Comm c = h->comm;
  closeh(i);
  if(par) MPI_Barrier(c);
  return 0;
}
herr_t H5Fflush(hid_t i, int) { return get(i) ? 0 : -1; }
htri_t H5Fis_hdf5(const char * n) { return load(n) ? 1 : 0; }
hid_t H5Gcreate(hid_t l, const char * n, hid_t, hid_t, hid_t) { return create_obj(l, n, 'g', 0, nullptr, false); }
hid_t H5Gopen(hid_t l, const char * n, hid_t) { return open_obj(l, n, 'g'); }
herr_t H5Gclose(hid_t i) { return closeh(i); }
htri_t H5Lexists(hid_t l, const char * n, hid_t) { H * h = get(l); if(!h || !h->o) return -1; return walk(h, n) ? 1 : 0; }
herr_t H5Ldelete(hid_t l, const char * n, hid_t) {
  H * h = get(l); if(!h) return -1;
  std::shared_ptr<Obj> p; std::string last;
  walk(h, n, &p, &last);
  if(!p) return -1;
  p->child.erase(last);
  return 0;
}
herr_t H5Gget_objinfo(hid_t l, const char * n, hbool_t, H5G_stat_t * s) {
  H * h = get(l);
  if(!h || !h->o || !walk(h, n)) return -1;
  if(s) memset(s, 0, sizeof *s);
  return 0;
}
hid_t H5Dcreate(hid_t l, const char * n, hid_t t, hid_t sp, hid_t, hid_t, hid_t) {
  H * s = get(sp, 's');
  if(!s || !tsize(t)) return -1;
  Space q = s->s;
  return create_obj(l, n, 'd', t, &q, false);
}
hid_t H5Dopen(hid_t l, const char * n, hid_t) { return open_obj(l, n, 'd'); }
herr_t H5Dclose(hid_t i) { return get(i, 'd') ? closeh(i) : -1; }
hid_t H5Dget_space(hid_t d) {
  H * h = get(d, 'd');
  if(!h) return -1;
  H r; r.kind = 's'; r.s.dims.assign(h->o->dims.begin(), h->o->dims.end()); r.s.scalar = h->o->scalar;
  return add(r);
}
static hsize_t npts(const Space & s) { hsize_t n = 1; for(auto d : s.dims) n *= d; return n; }
static bool range(const Space & s, hsize_t & o, hsize_t & n) {
  if(s.sel == 0) { o = n = 0; return true; }
  if(s.sel == 1) { o = 0; n = npts(s); return true; }
  o = s.off; n = s.cnt;
  return o + n <= npts(s);
}
static herr_t xfer(hid_t d, hid_t t, hid_t ms, hid_t fs, void * out, const void * in) {
  H * h = get(d, 'd');
  if(!h || !tsize(t)) return -1;
  if(in && h->rdonly) return -1;
  if(in) change();
  Space F, M;
  F.dims.assign(h->o->dims.begin(), h->o->dims.end());
  if(fs != H5S_ALL) { H * s = get(fs, 's'); if(!s) return -1; F = s->s; if(npts(F) != h->o->data.size() / tsize(h->o->type)) return -1; }
  if(ms != H5S_ALL) { H * s = get(ms, 's'); if(!s) return -1; M = s->s; }
  else M = F;
  hsize_t fo, fn, mo, mn;
  if(!range(F, fo, fn) || !range(M, mo, mn) || fn != mn) return -1;
  if(fn == 0) return 0;
  char * p = h->o->data.data() + fo * tsize(h->o->type);
  if(in) conv(t, (const char *)in + mo * tsize(t), h->o->type, p, fn);
  else conv(h->o->type, p, t, (char *)out + mo * tsize(t), fn);
  return 0;
}
herr_t H5Dwrite(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t, const void * b) { return xfer(d, t, ms, fs, nullptr, b); }
herr_t H5Dread(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t, void * b) { return xfer(d, t, ms, fs, b, nullptr); }
hid_t H5Acreate(hid_t l, const char * n, hid_t t, hid_t sp, hid_t, hid_t) {
  H * s = get(sp, 's');
  if(!s || !tsize(t)) return -1;
  Space q = s->s;
  return create_obj(l, n, 'a', t, &q, true);
}
hid_t H5Aopen(hid_t l, const char * n, hid_t) {
  H * h = get(l);
  if(!h || !h->o) return -1;
  auto it = h->o->attr.find(n);
  if(it == h->o->attr.end()) return -1;
  H r; r.kind = 'a'; r.o = it->second; r.f = h->f; r.rdonly = h->rdonly;
  return add(r);
}
htri_t H5Aexists(hid_t l, const char * n) { H * h = get(l); if(!h || !h->o) return -1; return h->o->attr.count(n) ? 1 : 0; }
herr_t H5Adelete(hid_t l, const char * n) { H * h = get(l); if(!h || !h->o) return -1; return h->o->attr.erase(n) ? 0 : -1; }
herr_t H5Aclose(hid_t i) { return get(i, 'a') ? closeh(i) : -1; }
herr_t H5Awrite(hid_t a, hid_t t, const void * b) {
  H * h = get(a, 'a');
  if(!h || !tsize(t) || h->rdonly) return -1;
  change();
  conv(t, (const char *)b, h->o->type, h->o->data.data(), h->o->data.size() / tsize(h->o->type));
  return 0;
}
herr_t H5Aread(hid_t a, hid_t t, void * b) {
  H * h = get(a, 'a');
  if(!h || !tsize(t)) return -1;
  conv(h->o->type, h->o->data.data(), t, (char *)b, h->o->data.size() / tsize(h->o->type));
  return 0;
}
hid_t H5Screate(H5S_class_t c) { H h; h.kind = 's'; if(c == H5S_SCALAR) h.s.scalar = true; else h.s.dims = {0}; return add(h); }
hid_t H5Screate_simple(int n, const hsize_t * d, const hsize_t *) { H h; h.kind = 's'; h.s.dims.assign(d, d + n); return add(h); }
herr_t H5Sclose(hid_t i) { return get(i, 's') ? closeh(i) : -1; }
int H5Sget_simple_extent_ndims(hid_t i) { H * h = get(i, 's'); return h ? (int)h->s.dims.size() : -1; }
int H5Sget_simple_extent_dims(hid_t i, hsize_t * d, hsize_t * m) {
  H * h = get(i, 's');
  if(!h) return -1;
  for(size_t k = 0; k < h->s.dims.size(); ++k) { if(d) d[k] = h->s.dims[k]; if(m) m[k] = h->s.dims[k]; }
  return (int)h->s.dims.size();
}
hssize_t H5Sget_simple_extent_npoints(hid_t i) { H * h = get(i, 's'); return h ? (hssize_t)npts(h->s) : -1; }
hssize_t H5Sget_select_npoints(hid_t i) { H * h = get(i, 's'); hsize_t o, n; if(!h) return -1; range(h->s, o, n); return (hssize_t)n; }
herr_t H5Sselect_hyperslab(hid_t i, H5S_seloper_t, const hsize_t * s, const hsize_t * st, const hsize_t * c, const hsize_t * b) {
  H * h = get(i, 's');
  if(!h || h->s.dims.size() != 1 || (st && *st != 1) || !s || !c) return -1;
  h->s.sel = 2; h->s.off = *s; h->s.cnt = *c * (b ? *b : 1);
  return 0;
}
herr_t H5Sselect_none(hid_t i) { H * h = get(i, 's'); if(!h) return -1; h->s.sel = 0; return 0; }
herr_t H5Sselect_all(hid_t i) { H * h = get(i, 's'); if(!h) return -1; h->s.sel = 1; return 0; }
herr_t H5Eset_auto(hid_t, H5E_auto2_t, void *) { return 0; }
}
