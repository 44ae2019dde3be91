// Stand-in for libnetcdf (C56, C57): files live in memory; dimensions, variables, attributes and hyperslabs as documented by
// Unidata (row-major, default fill values, at most one unlimited dimension, which comes first, counts and starts checked).
#pragma once
#include <netcdf.h>
#include <map>
#include <string>
#include <vector>
#include <cstring>
namespace nc {
struct Att { bool text; std::string s; double v; };
struct Var { std::string name; int type; std::vector<int> dims; std::map<std::string, Att> atts; std::vector<double> data; int writes = 0; };
struct Dim { std::string name; size_t len; bool unlimited; };
struct File { std::vector<Dim> dims; std::vector<Var> vars; std::map<std::string, Att> atts; bool writable = false, define = false; };
static std::map<std::string, File>& files() { static std::map<std::string, File> f; return f; }
static std::map<int, std::string>& open_() { static std::map<int, std::string> o; return o; }
static int next = 3;
static File* get(int id) { auto i = open_().find(id); return i == open_().end() ? 0 : &files()[i->second]; }
static Var* var(int id, int v) { File* f = get(id); return f && v >= 0 && v < (int) f->vars.size() ? &f->vars[v] : 0; }
static double fill(const Var& v) { auto i = v.atts.find("_FillValue"); if (i != v.atts.end() && !i->second.text) return i->second.v; return v.type == NC_DOUBLE ? NC_FILL_DOUBLE : NC_FILL_FLOAT; }
static size_t total(const File& f, const Var& v) { size_t n = 1; for (int d : v.dims) n *= f.dims[d].len; return n; }
static void fit(const File& f, Var& v) { size_t n = total(f, v); double x = fill(v); while (v.data.size() < n) v.data.push_back(x); }
static int def(File& f, const std::string& name, int type, const std::vector<int>& dims) { Var v; v.name = name; v.type = type; v.dims = dims; f.vars.push_back(v); fit(f, f.vars.back()); return f.vars.size() - 1; }
static int dim(File& f, const std::string& name, size_t len) { Dim d; d.name = name; d.len = len; d.unlimited = len == 0; f.dims.push_back(d); return f.dims.size() - 1; }
static Var* find(File& f, const std::string& name) { for (auto& v : f.vars) if (v.name == name) return &v; return 0; }
static int finddim(File& f, const std::string& name) { for (size_t i = 0; i < f.dims.size(); i++) if (f.dims[i].name == name) return i; return -1; }
static void att(Var& v, const char* n, double x) { Att a; a.text = false; a.v = x; v.atts[n] = a; }
template<class T> static int slab(int id, int vid, const size_t* start, const size_t* count, T* p, bool put) {
    File* f = get(id); Var* v = var(id, vid); if (!f) return NC_EBADID; if (!v) return NC_ENOTVAR; int n = v->dims.size(); if (put) { if (!f->writable) return NC_EPERM; if (f->define) return NC_EINDEFINE; }
    for (int d = 0; d < n; d++) { Dim& D = f->dims[v->dims[d]]; if (put && D.unlimited && start[d] + count[d] > D.len) { D.len = start[d] + count[d]; for (auto& w : f->vars) fit(*f, w); } if (start[d] > D.len || (start[d] == D.len && count[d])) return NC_EINVALCOORDS; if (start[d] + count[d] > D.len) return NC_EEDGE; }
    fit(*f, *v); std::vector<size_t> i(n, 0); size_t k = 0; for (int d = 0; d < n; d++) if (!count[d]) return NC_NOERR;
    for (;;) { size_t at = 0; for (int d = 0; d < n; d++) at = at * f->dims[v->dims[d]].len + start[d] + i[d]; if (put) v->data[at] = p[k]; else p[k] = v->data[at]; k++; int d = n - 1; for (; d >= 0; d--) { if (++i[d] < count[d]) break; i[d] = 0; } if (d < 0) break; }
    if (put) v->writes++; return NC_NOERR;
}
template<class T> static int whole(int id, int vid, T* p, bool put) { File* f = get(id); Var* v = var(id, vid); if (!f) return NC_EBADID; if (!v) return NC_ENOTVAR; std::vector<size_t> s(v->dims.size() + 1, 0), c(v->dims.size() + 1, 0); for (size_t d = 0; d < v->dims.size(); d++) c[d] = f->dims[v->dims[d]].len; return slab(id, vid, &s[0], &c[0], p, put); }
static std::map<std::string, Att>* atts(int id, int v) { if (v == NC_GLOBAL) { File* f = get(id); return f ? &f->atts : 0; } Var* w = var(id, v); return w ? &w->atts : 0; }
}
extern "C" {
int nc_open(const char* path, int mode, int* id) { auto i = nc::files().find(path); if (i == nc::files().end()) return 2; *id = nc::next++; nc::open_()[*id] = path; i->second.writable = mode & NC_WRITE; i->second.define = false; return NC_NOERR; }
int nc_create(const char* path, int, int* id) { nc::files()[path] = nc::File(); *id = nc::next++; nc::open_()[*id] = path; nc::files()[path].writable = nc::files()[path].define = true; return NC_NOERR; }
int nc_close(int id) { if (!nc::get(id)) return NC_EBADID; nc::open_().erase(id); return NC_NOERR; }
int ncredef(int id) { nc::File* f = nc::get(id); if (!f || !f->writable || f->define) return -1; f->define = true; return 0; }
int ncendef(int id) { nc::File* f = nc::get(id); if (!f || !f->define) return -1; f->define = false; return 0; }
int nc_def_dim(int id, const char* name, size_t len, int* d) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; if (!f->define) return NC_ENOTINDEFINE; if (nc::finddim(*f, name) >= 0) return NC_ENAMEINUSE; *d = nc::dim(*f, name, len); return NC_NOERR; }
int nc_def_var(int id, const char* name, nc_type t, int n, const int* dims, int* v) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; if (!f->define) return NC_ENOTINDEFINE; if (nc::find(*f, name)) return NC_ENAMEINUSE; for (int i = 0; i < n; i++) if (dims[i] < 0 || dims[i] >= (int) f->dims.size()) return NC_EBADDIM; *v = nc::def(*f, name, t, std::vector<int>(dims, dims + n)); return NC_NOERR; }
int nc_inq_dimid(int id, const char* name, int* d) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; int i = nc::finddim(*f, name); if (i < 0) return NC_EBADDIM; *d = i; return NC_NOERR; }
int nc_inq_dimlen(int id, int d, size_t* len) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; if (d < 0 || d >= (int) f->dims.size()) return NC_EBADDIM; *len = f->dims[d].len; return NC_NOERR; }
int nc_inq_dimname(int id, int d, char* name) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; if (d < 0 || d >= (int) f->dims.size()) return NC_EBADDIM; strcpy(name, f->dims[d].name.c_str()); return NC_NOERR; }
int nc_inq_nvars(int id, int* n) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; *n = f->vars.size(); return NC_NOERR; }
int nc_inq_varids(int id, int* n, int* v) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; *n = f->vars.size(); for (int i = 0; i < *n; i++) v[i] = i; return NC_NOERR; }
int nc_inq_varid(int id, const char* name, int* v) { nc::File* f = nc::get(id); if (!f) return NC_EBADID; nc::Var* w = nc::find(*f, name); if (!w) return NC_ENOTVAR; *v = w - &f->vars[0]; return NC_NOERR; }
int nc_inq_varname(int id, int v, char* name) { nc::Var* w = nc::var(id, v); if (!w) return NC_ENOTVAR; strcpy(name, w->name.c_str()); return NC_NOERR; }
int nc_inq_varndims(int id, int v, int* n) { nc::Var* w = nc::var(id, v); if (!w) return NC_ENOTVAR; *n = w->dims.size(); return NC_NOERR; }
int nc_inq_vardimid(int id, int v, int* d) { nc::Var* w = nc::var(id, v); if (!w) return NC_ENOTVAR; for (size_t i = 0; i < w->dims.size(); i++) d[i] = w->dims[i]; return NC_NOERR; }
int nc_inq_attid(int id, int v, const char* name, int* a) { auto m = nc::atts(id, v); if (!m) return NC_ENOTVAR; if (!m->count(name)) return NC_ENOTATT; *a = 0; return NC_NOERR; }
int nc_inq_attlen(int id, int v, const char* name, size_t* n) { auto m = nc::atts(id, v); if (!m) return NC_ENOTVAR; auto i = m->find(name); if (i == m->end()) return NC_ENOTATT; *n = i->second.text ? i->second.s.size() : 1; return NC_NOERR; }
int nc_get_att_text(int id, int v, const char* name, char* p) { auto m = nc::atts(id, v); if (!m) return NC_ENOTVAR; auto i = m->find(name); if (i == m->end()) return NC_ENOTATT; if (!i->second.text) return NC_ECHAR; for (size_t k = 0; k < i->second.s.size(); k++) p[k] = i->second.s[k]; return NC_NOERR; }
int nc_get_att_float(int id, int v, const char* name, float* p) { auto m = nc::atts(id, v); if (!m) return NC_ENOTVAR; auto i = m->find(name); if (i == m->end()) return NC_ENOTATT; if (i->second.text) return NC_ECHAR; *p = i->second.v; return NC_NOERR; }
int nc_put_att_text(int id, int v, const char* name, size_t n, const char* p) { auto m = nc::atts(id, v); if (!m) return NC_ENOTVAR; nc::Att a; a.text = true; a.s = std::string(p, n); a.v = 0; (*m)[name] = a; return NC_NOERR; }
int nc_put_att(int id, int v, const char* name, nc_type t, size_t n, const void* p) { auto m = nc::atts(id, v); if (!m) return NC_ENOTVAR; if (t != NC_FLOAT || n != 1) return NC_EBADTYPE; nc::Att a; a.text = false; a.v = *(const float*) p; (*m)[name] = a; return NC_NOERR; }
int nc_get_vara_float(int id, int v, const size_t* s, const size_t* c, float* p) { return nc::slab(id, v, s, c, p, false); }
int nc_get_var_float(int id, int v, float* p) { return nc::whole(id, v, p, false); }
int nc_get_var_double(int id, int v, double* p) { return nc::whole(id, v, p, false); }
int nc_get_var_int(int id, int v, int* p) { return nc::whole(id, v, p, false); }
int nc_put_vara_float(int id, int v, const size_t* s, const size_t* c, const float* p) { return nc::slab(id, v, s, c, (float*) p, true); }
int nc_put_vara_double(int id, int v, const size_t* s, const size_t* c, const double* p) { return nc::slab(id, v, s, c, (double*) p, true); }
int nc_put_vara_int(int id, int v, const size_t* s, const size_t* c, const int* p) { return nc::slab(id, v, s, c, (int*) p, true); }
int nc_put_var_float(int id, int v, const float* p) { return nc::whole(id, v, (float*) p, true); }
int nc_put_var_double(int id, int v, const double* p) { return nc::whole(id, v, (double*) p, true); }
}
