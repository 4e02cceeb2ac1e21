// Fields, descriptors and search criteria of standard files, shared by the harnesses.
#pragma once
#include "sim.h"
#include <algorithm>
#include <cmath>
extern "C" {
#include "rmn/fnom.h"
#include "rmn/fstd98.h"
#include "rmn/fst_missing.h"
}
// ------------------------------------------------------------------ the Fortran entry points
// g_ftn set: every call below goes through the Fortran entry point (arguments by address, strings without an end and
// their lengths at the end of the list), as most programs that use the library do.
typedef const int64_t L8;
extern "C" {
int32_t F_fstouv_(const int32_t*, const char*, L8) asm("fstouv_"); int32_t F_fstfrm_(int32_t*) asm("fstfrm_"); int32_t F_fstckp_(int32_t*) asm("fstckp_"); int32_t F_fsteff_(int32_t*) asm("fsteff_");
int32_t F_fstecr_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, char*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, L8, L8, L8, L8) asm("fstecr_");
int32_t F_fstecr_h_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, char*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, L8, L8, L8, L8) asm("fstecr_h_");
int32_t F_fstecr_b_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, char*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, L8, L8, L8, L8) asm("fstecr_b_");
int32_t F_fstecr_s_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, char*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, L8, L8, L8, L8, L8) asm("fstecr_s_");
int32_t F_fstinf_(int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, L8, L8, L8) asm("fstinf_");
int32_t F_fstinfx_(int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, L8, L8, L8) asm("fstinfx_");
int32_t F_fstinl_(int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, int32_t*, int32_t*, int32_t*, L8, L8, L8) asm("fstinl_");
int32_t F_fstlir_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, L8, L8, L8) asm("fstlir_");
int32_t F_fstlir_h_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, L8, L8, L8) asm("fstlir_h_");
int32_t F_fstlir_b_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, L8, L8, L8) asm("fstlir_b_");
int32_t F_fstlir_s_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, L8, L8, L8, L8) asm("fstlir_s_");
int32_t F_fstlirx_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, L8, L8, L8) asm("fstlirx_");
int32_t F_fstlic_(void*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, char*, L8, L8, L8, L8) asm("fstlic_");
int32_t F_fstlis_(void*, int32_t*, int32_t*, int32_t*, int32_t*) asm("fstlis_"); int32_t F_fstluk_(void*, int32_t*, int32_t*, int32_t*, int32_t*) asm("fstluk_"); int32_t F_fstsui_(int32_t*, int32_t*, int32_t*, int32_t*) asm("fstsui_");
int32_t F_fstnbr_(int32_t*) asm("fstnbr_"); int32_t F_fstnbrv_(int32_t*) asm("fstnbrv_"); int32_t F_fstrwd_(int32_t*) asm("fstrwd_"); int32_t F_fstskp_(int32_t*, int32_t*) asm("fstskp_"); int32_t F_fsteof_(int32_t*) asm("fsteof_"); int32_t F_fstweo_(int32_t*, int32_t*) asm("fstweo_"); int32_t F_fstapp_(int32_t*, char*, L8) asm("fstapp_");
int32_t F_fstmsq_(int32_t*, int32_t*, int32_t*, int32_t*, char*, int32_t*, L8) asm("fstmsq_"); int32_t F_fst_data_length_(int*) asm("fst_data_length_"); int32_t F_fstlnk_(int32_t*, int32_t*) asm("fstlnk_"); int32_t F_fstunl_() asm("fstunl_");
int32_t F_fstopc_(char*, char*, int32_t*, L8, L8) asm("fstopc_"); int32_t F_fstopi_(char*, int32_t*, int32_t*, L8) asm("fstopi_"); int32_t F_fstopl_(char*, int32_t*, int32_t*, L8) asm("fstopl_"); int32_t F_fstvoi_(int32_t*, char*, L8) asm("fstvoi_"); int32_t F_fstcheck_(char*, L8) asm("fstcheck_");
int32_t F_fst_edit_dir_plus_(int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, char*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, L8, L8, L8, L8) asm("fst_edit_dir_plus_");
int32_t F_fstprm_(int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, char*, char*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, L8, L8, L8, L8) asm("fstprm_");
int32_t F_ip1_all_(float*, int32_t*) asm("ip1_all_"); int32_t F_ip2_all_(float*, int32_t*) asm("ip2_all_"); int32_t F_ip3_all_(float*, int32_t*) asm("ip3_all_"); int32_t F_ip1_val_(float*, int32_t*) asm("ip1_val_"); int32_t F_ip2_val_(float*, int32_t*) asm("ip2_val_"); int32_t F_ip3_val_(float*, int32_t*) asm("ip3_val_");
int c_ip1_all(const float, const int); int c_ip2_all(const float, const int); int c_ip3_all(const float, const int); int c_ip1_val(const float, const int); int c_ip2_val(const float, const int); int c_ip3_val(const float, const int);
int c_xdflnk(int*, int); int c_xdfunl(int*, int);
}
static bool g_ftn; static int g_len = 4;   // g_len: element size announced for the next transfer
struct FStr {   // a Fortran character variable: no end mark, other characters follow it
    char b[96]; int n; FStr(const char* s, int full) { memset(b, 'Q', sizeof b); n = (int)strlen(s); if (n > full) n = full; memcpy(b, s, n); if (full && hsh_(s) % 2) { while (n < full) b[n++] = ' '; } }
    static unsigned hsh_(const char* s) { unsigned h = 7; while (*s) h = h * 31 + (unsigned char)*s++; return h >> 3; }
    operator char*() { return b; }
};
static int x_datalen(int n) { g_len = g_ftn ? n : 4; if (g_ftn) { if (n == 8) return F_fst_data_length_(&n); n = 4; return F_fst_data_length_(&n); } return c_fst_data_length(n); }
static int x_ouv(int u, char* o) { if (!g_ftn) return c_fstouv(u, o); FStr s(o, 0); s.n = (int)strlen(o); memcpy(s.b, o, s.n); return F_fstouv_(&u, s, s.n); }
static int x_frm(int u) { return g_ftn ? F_fstfrm_(&u) : c_fstfrm(u); }
static int x_ckp(int u) { return g_ftn ? F_fstckp_(&u) : c_fstckp(u); }
static int x_eff(int h) { return g_ftn ? F_fsteff_(&h) : c_fsteff(h); }
static int x_ecr(void* b, void* w, int npak, int u, int date, int deet, int npas, int ni, int nj, int nk, int ip1, int ip2, int ip3, char* tv, char* nv, char* et, char* gt, int g1, int g2, int g3, int g4, int dt, int rw) {
    if (!g_ftn) return c_fstecr(b, w, npak, u, date, deet, npas, ni, nj, nk, ip1, ip2, ip3, tv, nv, et, gt, g1, g2, g3, g4, dt, rw);
    FStr t(tv, 2), n(nv, 4), e(et, 12), g(gt, 1);
    if (dt == 7) return F_fstecr_s_(b, (int32_t*)w, &npak, &u, &date, &deet, &npas, &ni, &nj, &nk, &ip1, &ip2, &ip3, t, n, e, g, &g1, &g2, &g3, &g4, &dt, &rw, ni * nk, t.n, n.n, e.n, g.n);
    auto fn = g_len == 2 ? F_fstecr_h_ : g_len == 1 ? F_fstecr_b_ : F_fstecr_; g_len = 4;
    return fn(b, (int32_t*)w, &npak, &u, &date, &deet, &npas, &ni, &nj, &nk, &ip1, &ip2, &ip3, t, n, e, g, &g1, &g2, &g3, &g4, &dt, &rw, t.n, n.n, e.n, g.n);
}
static int x_inf(int u, int* ni, int* nj, int* nk, int dv, char* et, int a, int b, int c, char* tv, char* nv) {
    if (!g_ftn) return c_fstinf(u, ni, nj, nk, dv, et, a, b, c, tv, nv); FStr t(tv, 2), n(nv, 4), e(et, 12); return F_fstinf_(&u, ni, nj, nk, &dv, e, &a, &b, &c, t, n, e.n, t.n, n.n);
}
static int x_infx(int h, int u, int* ni, int* nj, int* nk, int dv, char* et, int a, int b, int c, char* tv, char* nv) {
    if (!g_ftn) return c_fstinfx(h, u, ni, nj, nk, dv, et, a, b, c, tv, nv); FStr t(tv, 2), n(nv, 4), e(et, 12); return F_fstinfx_(&h, &u, ni, nj, nk, &dv, e, &a, &b, &c, t, n, e.n, t.n, n.n);
}
static int x_inl(int u, int* ni, int* nj, int* nk, int dv, char* et, int a, int b, int c, char* tv, char* nv, int* l, int* q, int nmax) {
    if (!g_ftn) return c_fstinl(u, ni, nj, nk, dv, et, a, b, c, tv, nv, l, q, nmax); FStr t(tv, 2), n(nv, 4), e(et, 12); return F_fstinl_(&u, ni, nj, nk, &dv, e, &a, &b, &c, t, n, l, q, &nmax, e.n, t.n, n.n);
}
static int x_lirx(void* f, int h, bool useh, int u, int* ni, int* nj, int* nk, int dv, char* et, int a, int b, int c, char* tv, char* nv) {
    if (!g_ftn) return useh ? c_fstlirx(f, h, u, ni, nj, nk, dv, et, a, b, c, tv, nv) : c_fstlir(f, u, ni, nj, nk, dv, et, a, b, c, tv, nv);
    FStr t(tv, 2), n(nv, 4), e(et, 12); int len = g_len; g_len = 4;
    if (useh) { if (len < 4) F_fst_data_length_(&len); return F_fstlirx_(f, &h, &u, ni, nj, nk, &dv, e, &a, &b, &c, t, n, e.n, t.n, n.n); }
    auto fn = len == 2 ? F_fstlir_h_ : len == 1 ? F_fstlir_b_ : F_fstlir_; return fn(f, &u, ni, nj, nk, &dv, e, &a, &b, &c, t, n, e.n, t.n, n.n);
}
static int x_lir(void* f, int u, int* ni, int* nj, int* nk, int dv, char* et, int a, int b, int c, char* tv, char* nv) { return x_lirx(f, 0, false, u, ni, nj, nk, dv, et, a, b, c, tv, nv); }
static int x_lirs(void* f, int lng, int u, int* ni, int* nj, int* nk, int dv, char* et, int a, int b, int c, char* tv, char* nv) {
    if (!g_ftn) return c_fstlir(f, u, ni, nj, nk, dv, et, a, b, c, tv, nv); FStr t(tv, 2), n(nv, 4), e(et, 12); return F_fstlir_s_(f, &u, ni, nj, nk, &dv, e, &a, &b, &c, t, n, lng, e.n, t.n, n.n);
}
static void x_uselen() { if (g_ftn && g_len < 4) F_fst_data_length_(&g_len); g_len = 4; }
static int x_lic(void* f, int u, int ni, int nj, int nk, int dv, char* et, int a, int b, int c, char* tv, char* nv, int g1, int g2, int g3, int g4, char* gt) {
    x_uselen(); if (!g_ftn) return c_fstlic(f, u, ni, nj, nk, dv, et, a, b, c, tv, nv, g1, g2, g3, g4, gt);
    FStr t(tv, 2), n(nv, 4), e(et, 12), g(gt, 1); return F_fstlic_(f, &u, &ni, &nj, &nk, &dv, e, &a, &b, &c, t, n, &g1, &g2, &g3, &g4, g, e.n, t.n, n.n, g.n);
}
static int x_lis(void* f, int u, int* ni, int* nj, int* nk) { x_uselen(); return g_ftn ? F_fstlis_(f, &u, ni, nj, nk) : c_fstlis(f, u, ni, nj, nk); }
static int x_luk(void* f, int h, int* ni, int* nj, int* nk) { x_uselen(); return g_ftn ? F_fstluk_(f, &h, ni, nj, nk) : c_fstluk((uint32_t*)f, h, ni, nj, nk); }
static int x_sui(int u, int* ni, int* nj, int* nk) { return g_ftn ? F_fstsui_(&u, ni, nj, nk) : c_fstsui(u, ni, nj, nk); }
static int x_nbr(int u) { return g_ftn ? F_fstnbr_(&u) : c_fstnbr(u); }
static int x_nbrv(int u) { return g_ftn ? F_fstnbrv_(&u) : c_fstnbrv(u); }
static int x_rwd(int u) { return g_ftn ? F_fstrwd_(&u) : c_fstrwd(u); }
static int x_skp(int u, int n) { return g_ftn ? F_fstskp_(&u, &n) : c_fstskp(u, n); }
static int x_eof(int u) { return g_ftn ? F_fsteof_(&u) : c_fsteof(u); }
static int x_weo(int u, int l) { return g_ftn ? F_fstweo_(&u, &l) : c_fstweo(u, l); }
static int x_app(int u, char* o) { return g_ftn ? F_fstapp_(&u, o, 1) : c_fstapp(u, o); }
static int x_lnk(int* l, int n) { return g_ftn ? F_fstlnk_(l, &n) : c_xdflnk(l, n); }
static int x_unl(int* l, int n) { return g_ftn ? F_fstunl_() : c_xdfunl(l, n); }
static int x_edit(int h, int date, int deet, int npas, int ni, int nj, int nk, int a, int b, int c, char* tv, char* nv, char* et, char* gt, int g1, int g2, int g3, int g4, int dt) {
    if (!g_ftn) return c_fst_edit_dir_plus(h, date, deet, npas, ni, nj, nk, a, b, c, tv, nv, et, gt, g1, g2, g3, g4, dt);
    FStr t(tv, 2), n(nv, 4), e(et, 12), g(gt, 1); return F_fst_edit_dir_plus_(&h, &date, &deet, &npas, &ni, &nj, &nk, &a, &b, &c, t, n, e, g, &g1, &g2, &g3, &g4, &dt, t.n, n.n, e.n, g.n);
}
static int x_prm(int h, int* date, int* deet, int* npas, int* ni, int* nj, int* nk, int* nb, int* dt, int* a, int* b, int* c, char* tv, char* nv, char* et, char* gt, int* g1, int* g2, int* g3, int* g4, int* swa, int* lng, int* dltf, int* ubc, int* x1, int* x2, int* x3) {
    if (!g_ftn) return c_fstprm(h, date, deet, npas, ni, nj, nk, nb, dt, a, b, c, tv, nv, et, gt, g1, g2, g3, g4, swa, lng, dltf, ubc, x1, x2, x3);
    return F_fstprm_(&h, date, deet, npas, ni, nj, nk, nb, dt, a, b, c, tv, nv, et, gt, g1, g2, g3, g4, swa, lng, dltf, ubc, x1, x2, x3, 2, 4, 12, 1);
}
static int x_msq(int u, int* a, int* b, int* c, char* et, int get) { return g_ftn ? F_fstmsq_(&u, a, b, c, et, &get, 12) : c_fstmsq(u, a, b, c, et, get); }
static int x_ip(int which, bool all, float lev, int kind) {
    if (g_ftn) { auto f = all ? (which == 1 ? F_ip1_all_ : which == 2 ? F_ip2_all_ : F_ip3_all_) : (which == 1 ? F_ip1_val_ : which == 2 ? F_ip2_val_ : F_ip3_val_); return f(&lev, &kind); }
    auto f = all ? (which == 1 ? c_ip1_all : which == 2 ? c_ip2_all : c_ip3_all) : (which == 1 ? c_ip1_val : which == 2 ? c_ip2_val : c_ip3_val); return f(lev, kind);
}
static void x_opt(const char* name, const char* val, int kind) {   // kind 0: character, 1: integer, 2: logical
    int set = 0, v = atoi(val); FStr n(name, 0), w(val, 0); n.n = (int)strlen(name); memcpy(n.b, name, n.n); w.n = (int)strlen(val); memcpy(w.b, val, w.n);
    if (kind == 0) { if (g_ftn) F_fstopc_(n, w, &set, n.n, w.n); else c_fstopc((char*)name, (char*)val, 0); }
    else if (kind == 1) { if (g_ftn) F_fstopi_(n, &v, &set, n.n); else c_fstopi(name, v, 0); }
    else { if (g_ftn) F_fstopl_(n, &v, &set, n.n); else c_fstopl((char*)name, v, 0); }
}
static int x_voi(int u, const char* o) { FStr s(o, 0); s.n = (int)strlen(o); memcpy(s.b, o, s.n); return g_ftn ? F_fstvoi_(&u, s, s.n) : c_fstvoi(u, (char*)o); }
static int x_check(const char* path) { FStr s(path, 0); s.n = (int)strlen(path); memcpy(s.b, path, s.n); return g_ftn ? F_fstcheck_(s, s.n) : c_fstcheck(path); }
#define c_fstouv x_ouv
#define c_fstfrm x_frm
#define c_fstckp x_ckp
#define c_fsteff x_eff
#define c_fstecr x_ecr
#define c_fstinf x_inf
#define c_fstinfx x_infx
#define c_fstinl x_inl
#define c_fstlir x_lir
#define c_fstluk x_luk
#define c_fstsui x_sui
#define c_fstnbr x_nbr
#define c_fstnbrv x_nbrv
#define c_fstrwd x_rwd
#define c_fstskp x_skp
#define c_fsteof x_eof
#define c_fstweo x_weo
#define c_fstapp x_app
#define c_xdflnk x_lnk
#define c_xdfunl x_unl
#define c_fst_edit_dir_plus x_edit
#define c_fstprm x_prm
#define c_fst_data_length x_datalen
// ------------------------------------------------------------------ fields
// kinds of field contents; the stored data type follows from the documented rules of fstecr
enum { D_RAW, D_RAW1, D_U32, D_S32, D_F32, D_R32, D_RN, D_U16C, D_F16C, D_F32C, D_F64, D_SHORT, D_BYTE, D_STR, D_F16, D_R16C, D_CPLX, D_SSHORT,
    D_BYTEN, D_SBYTE, D_SHORTN, D_SSHORTN, D_SHORTC, D_BYTEC, D_CHR, D_RAWC, D_CPLXC, D_S32C, D_STRC, D_F24, D_F32N,
    // with markers of missing values
    M_F32, M_R32, M_RN, M_F16, M_F16C, M_R16C, M_F32C, M_F64, M_U32, M_S32, M_U16C, M_SHORT, M_SSHORT, M_BYTE, M_SBYTE, M_RAW1, M_STR, M_CPLX, M_F64C, D_NK };
// base kind of the values, data type given to fstecr, data type stored (without the compression bit), bytes of an element
static const struct KindDef { int base, datyp, stored, size; } k_def[D_NK] = {
    { D_RAW, 0, 0, 4 }, { D_RAW1, 1, 0, 4 }, { D_U32, 2, 2, 4 }, { D_S32, 4, 4, 4 }, { D_F32, 5, 5, 4 }, { D_R32, 1, 5, 4 }, { D_RN, 1, 1, 4 }, { D_U16C, 130, 2, 4 }, { D_F16C, 134, 6, 4 }, { D_F32C, 133, 5, 4 }, { D_F64, 5, 5, 8 }, { D_SHORT, 2, 2, 2 }, { D_BYTE, 2, 2, 1 }, { D_STR, 7, 7, 1 }, { D_F16, 6, 6, 4 }, { D_R16C, 129, 1, 4 }, { D_CPLX, 8, 8, 8 }, { D_SSHORT, 4, 4, 2 },
    { D_BYTE, 2, 2, 1 }, { D_SBYTE, 4, 4, 1 }, { D_SHORT, 2, 2, 2 }, { D_SSHORT, 4, 4, 2 }, { D_SHORT, 130, 2, 2 }, { D_BYTE, 130, 2, 1 }, { D_CHR, 3, 3, 1 }, { D_SHORT, 128, 0, 2 }, { D_CPLX, 136, 8, 8 }, { D_S32, 132, 4, 4 }, { D_STR, 135, 7, 1 }, { D_F16, 6, 1, 4 }, { D_F32, 6, 5, 4 },
    { D_F32, 69, 5, 4 }, { D_R32, 65, 5, 4 }, { D_RN, 65, 1, 4 }, { D_F16, 70, 6, 4 }, { D_F16C, 198, 6, 4 }, { D_R16C, 193, 1, 4 }, { D_F32C, 197, 5, 4 }, { D_F64, 69, 5, 8 }, { D_U32, 66, 2, 4 }, { D_S32, 68, 4, 4 }, { D_U16C, 194, 2, 4 }, { D_SHORT, 66, 2, 2 }, { D_SSHORT, 68, 4, 2 }, { D_BYTE, 66, 2, 1 }, { D_SBYTE, 68, 4, 1 }, { D_F32, 65, 0, 4 }, { D_STR, 71, 7, 1 }, { D_CPLX, 72, 8, 8 }, { D_F64, 197, 5, 8 } };
static inline int k_dt(int kind) { return k_def[kind].datyp; }
static uint64_t hsh(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; z *= 0xd6e8feb86659fd93ull; return z ^ z >> 29; }
static int k_nbits(int kind, long tag) {
    uint64_t h = hsh(tag, 77);
    switch (kind) {
        case D_U32: case M_U32: return 1 + h % 32; case D_S32: case M_S32: return 2 + h % 31; case D_S32C: return 2 + h % 15;
        case D_RN: return 8 + h % 17; case M_RN: return 10 + h % 15; case D_U16C: case M_U16C: return 1 + h % 16; case D_F16C: case D_F16: case D_R16C: case M_F16C: case M_F16: case M_R16C: return 12 + h % 5;
        case D_F24: return 17 + h % 8; case D_F32N: return 32; case D_RAWC: return 16; case D_SHORTN: return 1 + h % 15; case D_SSHORTN: return 2 + h % 14; case D_BYTEN: return 1 + h % 7; case D_SHORTC: return 1 + h % 16; case D_BYTEC: return 1 + h % 8;
        case M_SHORT: return 3 + h % 14; case M_SSHORT: return 3 + h % 14; case M_BYTE: return 3 + h % 6; case M_SBYTE: return 3 + h % 6; case D_SBYTE: return 2 + h % 7;
        case D_F64: case M_F64: case M_F64C: return 64; case D_SHORT: case D_SSHORT: return 16; case D_BYTE: case D_STR: case D_STRC: case M_STR: case D_CHR: return 8; default: return 32;
    }
}
static int k_size(int kind) { return k_def[kind].size; }
// what stands for a missing value, and whether the feature is on (cfg "miss": 0 off, 1 usual markers, 2 others)
static int g_miss;
static double miss_real() { return g_miss == 2 ? -999.0 : -1.0E+38; }
static int64_t miss_int(int base) { bool o = g_miss == 2; switch (base) { case D_U32: case D_U16C: return o ? 5 : 0xFFFFFFFFll; case D_S32: return o ? -2 : -0x80000000ll; case D_SHORT: return o ? 3 : 0xFFFF; case D_SSHORT: return o ? -1 : -32768; case D_BYTE: return o ? 2 : 0xFF; case D_SBYTE: return o ? 1 : -128; } return 0; }
static void miss_on() {
    if (g_miss == 1) ForceMissingValueUsage(1);
    if (g_miss == 2) { float f = (float)miss_real(); double d = miss_real(); int i = (int)miss_int(D_S32); unsigned u = (unsigned)miss_int(D_U32); short s = (short)miss_int(D_SSHORT); unsigned short us = (unsigned short)miss_int(D_SHORT); signed char b = (signed char)miss_int(D_SBYTE); unsigned char ub = (unsigned char)miss_int(D_BYTE); set_missing_value_flags(&f, &i, &u, &d, &s, &us, &b, &ub); }
}
static bool takes_missing(int kind) { return kind >= M_F32 && kind != M_STR && kind != M_CPLX && g_miss; }
// field made of ordinary values and, if its kind allows it, markers; marks: where
static std::vector<uint8_t> field(int kind, long tag, long ni, long nj, long nk, std::vector<bool>* marks = nullptr) {
    long n = ni * nj * nk; int nb = k_nbits(kind, tag), base = k_def[kind].base; std::vector<uint8_t> b(n * k_size(kind) + 16, 0); if (marks) marks->assign(n, false);
    bool smooth = hsh(tag, 5) % 2, lim = takes_missing(kind); static const int rates[] = { 0, 1, 8, 50, 3 }; uint64_t w = hsh(tag, 6); long rate = !lim ? 0 : rates[w % 5], flat = lim && w / 8 % 5 == 0 ? 1 + w / 64 % 4 : 0;   // 1-3: constant, 4: small differences
    for (long i = 0; i < n; i++) {
        uint64_t h = hsh(tag, i + 100); long x = i % ni, y = i / ni; if (flat && flat < 4) h = hsh(tag, 99); bool mk = rate && (rate == 1 || hsh(tag, i + 7777) % rate == 0); if (rate > 1 && w / 4096 % 4 == 0) mk = i < 1 + n / rate; if (marks) (*marks)[i] = mk;
        // integers leave room for the value that stands for the missing ones, and keep away from the marker
        int64_t v; auto u = [&]() { int64_t m = (1ll << nb) - (lim ? 1 : 0); v = smooth && nb > 5 ? (x * 3 + y * 5 + tag) % m : (int64_t)(h % (uint64_t)m); if (smooth && nb > 5 && tag / 2 % 2) v = m - 1 - v; if (lim && v == miss_int(base)) v = v ? v - 1 : 1; if (mk) v = miss_int(base); return v; };
        auto sg = [&]() { int64_t m = 1ll << (nb - 1); v = (int64_t)(h % (uint64_t)(2 * m)) - m; if (lim && v == m - 1) v = m - 2; if (lim && v == miss_int(base)) v = v == m - 2 ? v - 1 : v + 1; if (lim && flat == 2 && v > 0) v = -v; if (lim && v == miss_int(base)) v--; if (lim && v < -m) v = 0; if (mk) v = miss_int(base); return v; };
        switch (base) {
            case D_RAW: case D_RAW1: ((uint32_t*)b.data())[i] = (uint32_t)h; break;
            case D_U32: case D_U16C: ((uint32_t*)b.data())[i] = (uint32_t)u(); break;
            case D_S32: ((int32_t*)b.data())[i] = (int32_t)sg(); break;
            case D_SHORT: ((uint16_t*)b.data())[i] = (uint16_t)u(); break;
            case D_SSHORT: ((int16_t*)b.data())[i] = (int16_t)sg(); break;
            case D_BYTE: b[i] = (uint8_t)u(); break;
            case D_SBYTE: ((int8_t*)b.data())[i] = (int8_t)sg(); break;
            case D_STR: case D_CHR: b[i] = 'A' + h % 26; break;
            case D_F64: { double* d = (double*)b.data() + i; *d = ((double)(int64_t)h) * 1e-7 + 0.125; if (flat == 2) *d = -fabs(*d); if (flat == 3) *d = 0; if (flat == 4) *d = 1e6 + (double)(h % 4) * 1e-9; if (mk) *d = miss_real(); break; }
            case D_CPLX: ((float*)b.data())[2 * i] = (float)(int32_t)h * 0.5f; ((float*)b.data())[2 * i + 1] = (float)(int32_t)(h >> 32) * 0.25f; break;
            default: { float* f = (float*)b.data() + i; *f = smooth && !flat ? (float)(250.0 + 30.0 * sin(0.1 * x + tag) + 10.0 * cos(0.2 * y)) : (float)(int32_t)h * 1e-5f; if (flat == 2) *f = -fabsf(*f); if (flat == 3) *f = 0; if (flat == 4) *f = 1e6f + (float)(h % 4) * 0.0625f; if (mk) *f = (float)miss_real(); break; }
        }
    }
    return b;
}
static bool has_marks(int kind, long tag, long n) { if (!takes_missing(kind) || kind == M_RAW1) return false; std::vector<bool> m; field(kind, tag, n, 1, 1, &m); for (bool x : m) if (x) return true; return false; }
static bool exact(int kind) { int k = k_def[kind].base; return !(k == D_RN || k == D_F16C || k == D_F16 || k == D_R16C); }
static bool same_field(int kind, long tag, long ni, long nj, long nk, const uint8_t* got, std::string& why) {
    long n = ni * nj * nk; std::vector<bool> mk; auto b = field(kind, tag, ni, nj, nk, &mk); char m[240];
    if (exact(kind)) {
        long len = n * k_size(kind); if (!memcmp(b.data(), got, len)) return true;
        long i = 0; while (b[i] == got[i]) i++; long v = i / k_size(kind);
        snprintf(m, 240, "value %ld of %ld differs (0x%02x, expected 0x%02x at byte %ld; data kind %d, %d bits%s)", v, n, got[i], b[i], i, kind, k_nbits(kind, tag), mk[v] ? "; it was missing when written" : takes_missing(kind) ? "; markers of missing values in use" : ""); why = m; return false;
    }
    const float* e = (const float*)b.data(); const float* g = (const float*)got; float lo = 0, hi = 0; bool any = false, anymk = false;
    for (long i = 0; i < n; i++) { if (mk[i]) { anymk = true; continue; } lo = any ? std::min(lo, e[i]) : e[i]; hi = any ? std::max(hi, e[i]) : e[i]; any = true; }
    int nb = k_nbits(kind, tag); double top = hi, range = (double)hi - lo; if (anymk) { double p = range * 0.01; if (range < 1e-3 * std::max(fabs(hi), fabs(lo))) p = std::max(1.0, fabs(hi)); range += p; top += p; }
    double tol = range * 4 / pow(2.0, nb) + std::max(fabs(top), (double)fabs(lo)) * 1e-6;
    for (long i = 0; i < n; i++) {
        if (mk[i]) { if (g[i] != e[i]) { snprintf(m, 240, "value %ld of %ld is %g, it was missing (%g) when written (data kind %d, %d bits)", i, n, g[i], e[i], kind, nb); why = m; return false; } continue; }
        if (!(fabs((double)g[i] - e[i]) <= tol)) { snprintf(m, 240, "value %ld of %ld is %g, expected %g within %g (data kind %d, %d bits%s)", i, n, g[i], e[i], tol, kind, nb, anymk ? "; other values are missing" : ""); why = m; return false; }
    }
    return true;
}

// ------------------------------------------------------------------ descriptors
struct Meta { int32_t date, deet, npas, ni, nj, nk, nbits, datyp, ip1, ip2, ip3, ig1, ig2, ig3, ig4, dltf, datev; char tv[4], nv[8], et[16], gt[4]; };
static int stick(long t) { return (int)(t / 8 * 10 + t % 8); }      // date stamps count 5 second units
static long ticks(int st) { return (long)st / 10 * 8 + st % 10; }
static int stamp(long hours) { return stick(hours * 720); }
// names: small domains so that keys collide
static std::string padto(std::string s, size_t n) { s.resize(n, ' '); return s; }
static const char* tvs[] = { "P", "A", "P@", "XX" };
static const char* nvs[] = { "TT", "UU", "GZ", "P0", "HUAB", "Z" };
static const char* ets[] = { "OPERATION", "EXP1", "LONGETIKET12", "ABCDEFGHIJ", "E" };
static const char* gts[] = { "G", "Z", "N", "X", "!" };
// a date such that date + deet*npas falls on a whole hour
struct Key { int tv, nv, et; int ip1, ip2, ip3; };
// 41394464 and 39895888 code 500 hPa in the new style, 39945888 codes 1000 hPa
static const int ip1s[] = { 0, 500, 1000, 93423264, 12345, 28, 41394464, 39895888, 39945888 };
static Key mkkey(long k) { uint64_t h = hsh(k, 1); return { (int)(h % 4), (int)((h >> 8) % 6), (int)((h >> 16) % 5), ip1s[(h >> 24) % 9], (int)((h >> 32) % 4) * 6, (int)((h >> 40) % 3) }; }
static Meta mkmeta(int kind, long tag, const Key& k, int shape) {
    Meta m; memset(&m, 0, sizeof m); uint64_t h = hsh(tag, 2), g = hsh(tag, 3);
    static const int deets[] = { 0, 3600, 1800, 900, 7200, 65536 * 225, 225, 45, 75, 3600 }; m.deet = deets[h % 10]; m.npas = (int)((h >> 8) % 5) * (m.deet && m.deet < 3600 ? 3600 / m.deet : 1);
    if ((g >> 40) % 40 == 0) { m.deet = 3600 * 16; m.npas = 1024 * 75; }   // the product exceeds 32 bits
    m.date = stamp(24 * 365 * 20 + (long)((h >> 16) % 2000) * 6);
    switch (shape) { case 0: m.ni = 1 + (h >> 32) % 12; m.nj = 1 + (h >> 36) % 5; m.nk = 1; break; case 1: m.ni = 16 + (h >> 32) % 30; m.nj = 16 + (h >> 40) % 20; m.nk = 1; break;
        case 2: m.ni = 10; m.nj = 6; m.nk = 1; break; case 3: m.ni = 1 + (h >> 32) % 200; m.nj = 1 + (h >> 42) % 40; m.nk = 1 + (h >> 50) % 3; break; default: m.ni = 2; m.nj = 1; m.nk = 1; }
    bool comp = k_dt(kind) > 128 && k_dt(kind) != 128; if (comp) { m.nk = 1; if (m.ni < 16) m.ni += 16; if (m.nj < 16) m.nj += 16; }
    if (kind == D_CHR) m.nk = 1; m.nbits = k_nbits(kind, tag); m.datyp = k_def[kind].stored; if (has_marks(kind, tag, (long)m.ni * m.nj * m.nk)) m.datyp |= 64;
    m.ip1 = k.ip1; m.ip2 = k.ip2; m.ip3 = k.ip3; m.ig1 = g & 0xffffff; m.ig2 = (g >> 24) & 0xffffff; m.ig3 = kind | (int)((g >> 48) & 0xffff) << 6; m.ig4 = (int)tag;
    snprintf(m.tv, 4, "%s", padto(tvs[k.tv], 2).c_str()); snprintf(m.nv, 8, "%s", padto(nvs[k.nv], 4).c_str()); snprintf(m.et, 16, "%s", padto(ets[k.et], 12).c_str()); snprintf(m.gt, 4, "%s", gts[(h >> 56) % 5]);
    m.datev = stick(ticks(m.date) + (long)m.deet * m.npas / 5);
    return m;
}
static int get_prm(int h, Meta& m) {
    memset(&m, 0, sizeof m); strcpy(m.tv, "  "); strcpy(m.nv, "    "); strcpy(m.et, "            "); strcpy(m.gt, " ");
    int swa, lng, ubc, x2, x3, dv = 0;
    int e = c_fstprm(h, &m.date, &m.deet, &m.npas, &m.ni, &m.nj, &m.nk, &m.nbits, &m.datyp, &m.ip1, &m.ip2, &m.ip3, m.tv, m.nv, m.et, m.gt, &m.ig1, &m.ig2, &m.ig3, &m.ig4, &swa, &lng, &m.dltf, &ubc, &dv, &x2, &x3);
    m.datev = dv; return e;
}
static std::string diff(const Meta& e, const Meta& g) {
    char b[200];
#define D(f) if (e.f != g.f) { snprintf(b, 200, #f " is %d, expected %d", g.f, e.f); return b; }
    D(date) D(deet) D(npas) D(ni) D(nj) D(nk) D(nbits) D(ip1) D(ip2) D(ip3) D(ig1) D(ig2) D(ig3) D(ig4) D(datev)
    if ((e.datyp & 127) != (g.datyp & 127)) { snprintf(b, 200, "datyp is %d, expected %d", g.datyp, e.datyp); return b; }
    if (g.dltf) return "deletion flag set";
#define S(f) if (strcmp(e.f, g.f)) { snprintf(b, 200, #f " is [%s], expected [%s]", g.f, e.f); return b; }
    S(tv) S(nv) S(et) S(gt)
    return "";
}
static void datalen(int kind) { int b = k_def[kind].base; if (b == D_SHORT || b == D_SSHORT) c_fst_data_length(2); else if (b == D_BYTE || b == D_SBYTE) c_fst_data_length(1); else if (b == D_F64) c_fst_data_length(8); }
static int rec_kind(const Meta& m) { int k = m.ig3 & 63; return k >= D_NK ? 0 : k; }

// mode of an ip: 0 as given, 1 level set by ipN_all (every coding of the level), 2 by ipN_val (new coding only); more: a second level
struct Crit { int datev; std::string et; int ip1, ip2, ip3; std::string tv, nv; int mode[3] = { 0, 0, 0 }, more[3] = { -1, -1, -1 }; int mask[3] = { 0, 0, 0 }; std::string met; };   // mask, met: fstmsq
static Crit mkcrit(long a, long k, int datev) {
    Key q = mkkey(k); uint64_t h = hsh(a, 9); Crit c;
    c.datev = h % 4 == 0 && datev > 0 ? datev : -1; c.et = (h >> 4) % 2 ? ets[q.et] : ((h >> 5) % 2 ? " " : "            ");
    c.ip1 = (h >> 8) % 2 ? q.ip1 : -1; c.ip2 = (h >> 12) % 2 ? q.ip2 : -1; c.ip3 = (h >> 16) % 3 == 0 ? q.ip3 : -1;
    c.tv = (h >> 20) % 2 ? tvs[q.tv] : " "; c.nv = (h >> 24) % 3 ? nvs[q.nv] : " ";
    return c;
}
// the level in hPa that an ip codes, and whether in the new style; -1: none of those used here
static int ip_level(int ip, bool& nw) {
    nw = ip > 32767; if (!nw) return ip <= 1000 ? ip : -1;
    return ip == 41394464 || ip == 39895888 ? 500 : ip == 39945888 ? 1000 : -1;
}
static bool ip_ok(int want, int got, int mode, int more, int mask) {
    if (mode == 0) return want == -1 || ((want ^ got) & ~mask & 0xfffffff) == 0;
    bool nw; int l = ip_level(got, nw); if (mode == 2 && !nw) return false; return l >= 0 && (l == want || l == more);
}
static bool matches(const Crit& c, const Meta& m) {
    if (c.datev != -1 && (c.datev / 10) != (m.datev / 10)) return false;
    std::string e = padto(c.et, 12); if (e.substr(0, 10) != "          ") for (int i = 0; i < 12; i++) if (e[i] != m.et[i] && (c.met.empty() || c.met[i] != '*')) return false;
    if (!ip_ok(c.ip1, m.ip1, c.mode[0], c.more[0], c.mask[0]) || !ip_ok(c.ip2, m.ip2, c.mode[1], c.more[1], c.mask[1]) || !ip_ok(c.ip3, m.ip3, c.mode[2], c.more[2], c.mask[2])) return false;
    if (padto(c.tv, 2) != "  " && padto(c.tv, 2) != m.tv) return false; if (padto(c.nv, 4) != "    " && padto(c.nv, 4) != m.nv) return false;
    return true;
}
