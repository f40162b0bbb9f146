// Stand-in for the legacy NetCDF C++ interface (netcdf-cxx 4.2 "netcdfcpp.h"), which is not installed here: the part
// that meteosatlib uses, as documented, on the NetCDF C library that is installed.
#ifndef VF_NETCDFCPP_H
#define VF_NETCDFCPP_H
#include <netcdf.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <climits>
#include <iostream>
#include <string>
#include <vector>
typedef signed char ncbyte;
typedef const char* NcToken;
typedef unsigned int NcBool;
enum NcType { ncNoType = NC_NAT, ncByte = NC_BYTE, ncChar = NC_CHAR, ncShort = NC_SHORT, ncInt = NC_INT, ncLong = NC_INT, ncFloat = NC_FLOAT, ncDouble = NC_DOUBLE };
static const int ncBad = -1;
class NcError {
public:
    enum Behavior { silent_nonfatal = 0, silent_fatal = 1, verbose_nonfatal = 2, verbose_fatal = 3 };
    NcError(Behavior b = verbose_fatal) { old = opts(); oerr = err(); opts() = b; err() = 0; }
    virtual ~NcError() { opts() = old; err() = oerr; }
    int get_err() { return err(); }
    const char* get_errmsg() { return nc_strerror(err()); }
    static int set_err(int e) { err() = e; if (e != NC_NOERR) { if (opts() & verbose_nonfatal) fprintf(stderr, "%s\n", nc_strerror(e)); if (opts() & silent_fatal) exit(NC_FATAL_CODE); } return e; }
private:
    enum { NC_FATAL_CODE = 1 };
    static int& opts() { static int o = verbose_fatal; return o; }
    static int& err() { static int e = 0; return e; }
    int old, oerr;
};
class NcFile; class NcVar;
class NcDim {
public:
    NcToken name() const { return nm; }
    long size() const { size_t n = 0; if (is_valid()) NcError::set_err(nc_inq_dimlen(nc, did, &n)); return n; }
    NcBool is_valid() const { return did != ncBad; }
    NcBool is_unlimited() const { int u = -1; return is_valid() && nc_inq_unlimdim(nc, &u) == NC_NOERR && u == did; }
    int id() const { return did; }
private:
    friend class NcFile;
    NcDim(int nc, int did) : nc(nc), did(did) { if (NcError::set_err(nc_inq_dimname(nc, did, nm)) != NC_NOERR) this->did = ncBad; }
    NcDim(int nc, const char* name, size_t size) : nc(nc) { snprintf(nm, sizeof nm, "%s", name); if (NcError::set_err(nc_def_dim(nc, name, size, &did)) != NC_NOERR) did = ncBad; }
    int nc, did; char nm[NC_MAX_NAME + 1] = "";
};
class NcAtt {
public:
    NcToken name() const { return nm.c_str(); }
    NcType type() const { nc_type t = NC_NAT; if (is_valid()) NcError::set_err(nc_inq_atttype(nc, vid, nm.c_str(), &t)); return (NcType)t; }
    long num_vals() const { size_t n = 0; if (is_valid()) NcError::set_err(nc_inq_attlen(nc, vid, nm.c_str(), &n)); return n; }
    NcBool is_valid() const { int i; return nc != ncBad && nc_inq_attid(nc, vid, nm.c_str(), &i) == NC_NOERR; }
    ncbyte as_ncbyte(long n) const { return num<ncbyte>(n, -128, 127, NC_FILL_BYTE); }
    char as_char(long n) const { return num<char>(n, CHAR_MIN, CHAR_MAX, NC_FILL_CHAR); }
    short as_short(long n) const { return num<short>(n, SHRT_MIN, SHRT_MAX, NC_FILL_SHORT); }
    int as_int(long n) const { return num<int>(n, INT_MIN, INT_MAX, NC_FILL_INT); }
    long as_long(long n) const { return num<int>(n, INT_MIN, INT_MAX, NC_FILL_INT); }
    float as_float(long n) const { return (float)dbl(n); }
    double as_double(long n) const { return dbl(n); }
    char* as_string(long n) const { // the caller's, from new[]
        std::string s; size_t len = num_vals(); if (type() == ncChar) { std::vector<char> b(len + 1); if (len) NcError::set_err(nc_get_att_text(nc, vid, nm.c_str(), b.data())); s.assign(b.data(), len); s = n < (long)len ? std::string(s.c_str() + std::min<size_t>(n, strlen(s.c_str()))) : ""; }
        else { char b[64]; snprintf(b, sizeof b, "%g", dbl(n)); s = b; }
        char* r = new char[s.size() + 1]; memcpy(r, s.c_str(), s.size() + 1); return r;
    }
private:
    friend class NcFile; friend class NcVar;
    NcAtt(int nc, int vid, const char* name) : nc(nc), vid(vid), nm(name) {}
    double dbl(long n) const { size_t len = num_vals(); if (n < 0 || n >= (long)len) return NC_FILL_DOUBLE; if (type() == ncChar) { std::vector<char> b(len + 1); nc_get_att_text(nc, vid, nm.c_str(), b.data()); return b[n]; } std::vector<double> b(len); NcError::set_err(nc_get_att_double(nc, vid, nm.c_str(), b.data())); return b[n]; }
    template<typename T> T num(long n, double lo, double hi, T bad) const { double v = dbl(n); return v >= lo && v <= hi ? (T)v : bad; }
    int nc, vid; std::string nm;
};
class NcVar {
public:
    NcToken name() const { return nm; }
    NcType type() const { nc_type t = NC_NAT; NcError::set_err(nc_inq_vartype(nc, vid, &t)); return (NcType)t; }
    NcBool is_valid() const { return vid != ncBad; }
    int num_dims() const { int n = 0; if (is_valid()) NcError::set_err(nc_inq_varndims(nc, vid, &n)); return n; }
    NcDim* get_dim(int n) const;
    int num_atts() const { int n = 0; NcError::set_err(nc_inq_varnatts(nc, vid, &n)); return n; }
    NcAtt* get_att(NcToken name) const { NcAtt* a = new NcAtt(nc, vid, name); if (!a->is_valid()) { delete a; NcError::set_err(NC_ENOTATT); return 0; } return a; }
    NcBool add_att(NcToken n, const char* v);
    NcBool add_att(NcToken n, char v); NcBool add_att(NcToken n, ncbyte v); NcBool add_att(NcToken n, short v); NcBool add_att(NcToken n, int v); NcBool add_att(NcToken n, long v); NcBool add_att(NcToken n, float v); NcBool add_att(NcToken n, double v);
#define VF_NC_IO(T, S) \
    NcBool put(const T* v, long e0 = 0, long e1 = 0, long e2 = 0, long e3 = 0, long e4 = 0); \
    NcBool get(T* v, long e0 = 0, long e1 = 0, long e2 = 0, long e3 = 0, long e4 = 0) const;
    VF_NC_IO(ncbyte, schar) VF_NC_IO(char, text) VF_NC_IO(short, short) VF_NC_IO(int, int) VF_NC_IO(long, long) VF_NC_IO(float, float) VF_NC_IO(double, double)
#undef VF_NC_IO
private:
    friend class NcFile;
    NcVar(NcFile* f, int nc, int vid) : f(f), nc(nc), vid(vid) { nm[0] = 0; if (vid != NC_GLOBAL) nc_inq_varname(nc, vid, nm); }
    bool edges(const long* e, size_t* start, size_t* count) const { for (int i = 0; i < 5; ++i) { start[i] = 0; count[i] = e[i]; } for (int i = 0; i < 5; ++i) { if (!e[i]) break; if (num_dims() < i) return false; } return true; }
    NcFile* f; int nc, vid; char nm[NC_MAX_NAME + 1];
};
class NcFile {
public:
    enum FileMode { ReadOnly, Write, Replace, New };
    enum FillMode { Fill = NC_FILL, NoFill = NC_NOFILL, Bad };
    NcFile(const char* path, FileMode mode = ReadOnly, size_t* = 0, size_t = 0) : nc(ncBad), def(false), glob(nullptr) {
        NcError nce(NcError::silent_nonfatal); int s = 0;
        switch (mode) { case ReadOnly: s = nc_open(path, NC_NOWRITE, &nc); break; case Write: s = nc_open(path, NC_WRITE, &nc); break; case Replace: s = nc_create(path, NC_CLOBBER, &nc); def = true; break; case New: s = nc_create(path, NC_NOCLOBBER, &nc); def = true; }
        if (s != NC_NOERR) { nc = ncBad; def = false; return; }
        int nd = 0, nv = 0; if (!def) { nc_inq_ndims(nc, &nd); nc_inq_nvars(nc, &nv); for (int i = 0; i < nd; ++i) dims.push_back(new NcDim(nc, i)); for (int i = 0; i < nv; ++i) vars.push_back(new NcVar(this, nc, i)); }
        glob = new NcVar(this, nc, NC_GLOBAL);
    }
    virtual ~NcFile() { close(); }
    NcFile(const NcFile&) = delete;
    NcBool is_valid() const { return nc != ncBad; }
    int id() const { return nc; }
    int num_dims() const { return dims.size(); }
    int num_vars() const { return vars.size(); }
    NcVar* get_var(int i) const { return is_valid() && i >= 0 && i < num_vars() ? vars[i] : 0; }
    NcVar* get_var(NcToken n) const { int v; return is_valid() && NcError::set_err(nc_inq_varid(nc, n, &v)) == NC_NOERR ? vars[v] : 0; }
    NcDim* get_dim(int i) const { return is_valid() && i >= 0 && i < num_dims() ? dims[i] : 0; }
    NcDim* get_dim(NcToken n) const { int d; return is_valid() && NcError::set_err(nc_inq_dimid(nc, n, &d)) == NC_NOERR ? dims[d] : 0; }
    NcAtt* get_att(NcToken n) const { return is_valid() ? glob->get_att(n) : 0; }
    template<typename T> NcBool add_att(NcToken n, T v) { return is_valid() && glob->add_att(n, v); }
    NcDim* add_dim(NcToken n, long size) { if (!is_valid() || !define_mode()) return 0; dims.push_back(new NcDim(nc, n, size)); return dims.back(); }
    NcDim* add_dim(NcToken n) { return add_dim(n, NC_UNLIMITED); }
    NcVar* add_var(NcToken n, NcType t, const NcDim* d0 = 0, const NcDim* d1 = 0, const NcDim* d2 = 0, const NcDim* d3 = 0, const NcDim* d4 = 0) {
        if (!is_valid() || !define_mode()) return 0; const NcDim* d[5] = { d0, d1, d2, d3, d4 }; int ids[5], nd = 0; for (int i = 0; i < 5 && d[i]; ++i) ids[nd++] = d[i]->id();
        int v; if (NcError::set_err(nc_def_var(nc, n, t, nd, ids, &v)) != NC_NOERR) return 0; vars.push_back(new NcVar(this, nc, v)); return vars.back();
    }
    NcBool set_fill(FillMode m) { int p; return is_valid() && NcError::set_err(nc_set_fill(nc, m, &p)) == NC_NOERR; }
    NcBool define_mode() { if (!is_valid()) return 0; if (def) return 1; if (NcError::set_err(nc_redef(nc)) != NC_NOERR) return 0; def = true; return 1; }
    NcBool data_mode() { if (!is_valid()) return 0; if (!def) return 1; if (NcError::set_err(nc_enddef(nc)) != NC_NOERR) return 0; def = false; return 1; }
    NcBool sync() { if (!data_mode()) return 0; return NcError::set_err(nc_sync(nc)) == NC_NOERR; }
    NcBool close() { if (nc == ncBad) return 0; for (auto d : dims) delete d; for (auto v : vars) delete v; dims.clear(); vars.clear(); delete glob; glob = nullptr; int o = nc; nc = ncBad; return NcError::set_err(nc_close(o)) == NC_NOERR; }
private:
    int nc; bool def; std::vector<NcDim*> dims; std::vector<NcVar*> vars; NcVar* glob;
};
inline NcDim* NcVar::get_dim(int i) const { int ids[NC_MAX_VAR_DIMS]; if (!is_valid() || i < 0 || i >= num_dims() || NcError::set_err(nc_inq_vardimid(nc, vid, ids)) != NC_NOERR) return 0; return f->get_dim(ids[i]); }
inline NcBool NcVar::add_att(NcToken n, const char* v) { return f->define_mode() && NcError::set_err(nc_put_att_text(nc, vid, n, strlen(v), v)) == NC_NOERR; }
#define VF_NC_ATT(T, S, X) inline NcBool NcVar::add_att(NcToken n, T v) { return f->define_mode() && NcError::set_err(nc_put_att_##S(nc, vid, n, X, 1, &v)) == NC_NOERR; }
inline NcBool NcVar::add_att(NcToken n, char v) { return f->define_mode() && NcError::set_err(nc_put_att_text(nc, vid, n, 1, &v)) == NC_NOERR; }
VF_NC_ATT(ncbyte, schar, NC_BYTE) VF_NC_ATT(short, short, NC_SHORT) VF_NC_ATT(int, int, NC_INT) VF_NC_ATT(long, long, NC_INT) VF_NC_ATT(float, float, NC_FLOAT) VF_NC_ATT(double, double, NC_DOUBLE)
#undef VF_NC_ATT
#define VF_NC_IO(T, S) \
    inline NcBool NcVar::put(const T* v, long e0, long e1, long e2, long e3, long e4) { long e[5] = { e0, e1, e2, e3, e4 }; size_t st[5], c[5]; return f->data_mode() && edges(e, st, c) && NcError::set_err(nc_put_vara_##S(nc, vid, st, c, v)) == NC_NOERR; } \
    inline NcBool NcVar::get(T* v, long e0, long e1, long e2, long e3, long e4) const { long e[5] = { e0, e1, e2, e3, e4 }; size_t st[5], c[5]; return f->data_mode() && edges(e, st, c) && NcError::set_err(nc_get_vara_##S(nc, vid, st, c, v)) == NC_NOERR; }
VF_NC_IO(ncbyte, schar) VF_NC_IO(char, text) VF_NC_IO(short, short) VF_NC_IO(int, int) VF_NC_IO(long, long) VF_NC_IO(float, float) VF_NC_IO(double, double)
#undef VF_NC_IO
#endif
