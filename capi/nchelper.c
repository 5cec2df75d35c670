// nchelper: the NetCDF and HDF5 C libraries behind a line protocol on
// stdin/stdout, used as an independent oracle and file producer. libnetcdf's
// header is not installed, so the few prototypes needed are declared here.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <hdf5.h>

typedef int nc_type;
typedef struct { size_t len; void *p; } nc_vlen_t;
#define NC_GLOBAL -1
extern const char *nc_strerror(int);
extern int nc_create(const char *, int, int *);
extern int nc_open(const char *, int, int *);
extern int nc_close(int);
extern int nc_enddef(int);
extern int nc_set_fill(int, int, int *);
extern int nc_def_grp(int, const char *, int *);
extern int nc_def_dim(int, const char *, size_t, int *);
extern int nc_def_var(int, const char *, nc_type, int, const int *, int *);
extern int nc_def_var_deflate(int, int, int, int, int);
extern int nc_def_var_fletcher32(int, int, int);
extern int nc_def_var_chunking(int, int, int, const size_t *);
extern int nc_def_var_fill(int, int, int, const void *);
extern int nc_def_var_endian(int, int, int);
extern int nc_put_att(int, int, const char *, nc_type, size_t, const void *);
extern int nc_put_vara(int, int, const size_t *, const size_t *, const void *);
extern int nc_put_var(int, int, const void *);
extern int nc_get_var(int, int, void *);
extern int nc_get_att(int, int, const char *, void *);
extern int nc_inq_format(int, int *);
extern int nc_inq_grps(int, int *, int *);
extern int nc_inq_grpname(int, char *);
extern int nc_inq_grpname_len(int, size_t *);
extern int nc_inq_dimids(int, int *, int *, int);
extern int nc_inq_unlimdims(int, int *, int *);
extern int nc_inq_unlimdim(int, int *);
extern int nc_inq_dim(int, int, char *, size_t *);
extern int nc_inq_varids(int, int *, int *);
extern int nc_inq_var(int, int, char *, nc_type *, int *, int *, int *);
extern int nc_inq_natts(int, int *);
extern int nc_inq_nvars(int, int *);
extern int nc_inq_ndims(int, int *);
extern int nc_inq_attname(int, int, int, char *);
extern int nc_inq_att(int, int, const char *, nc_type *, size_t *);
extern int nc_inq_typeids(int, int *, int *);
extern int nc_inq_user_type(int, nc_type, char *, size_t *, nc_type *, size_t *, int *);
extern int nc_def_compound(int, size_t, const char *, nc_type *);
extern int nc_insert_compound(int, nc_type, const char *, size_t, nc_type);
extern int nc_insert_array_compound(int, nc_type, const char *, size_t, nc_type, int, const int *);
extern int nc_inq_compound_field(int, nc_type, int, char *, size_t *, nc_type *, int *, int *);
extern int nc_def_enum(int, nc_type, const char *, nc_type *);
extern int nc_insert_enum(int, nc_type, const char *, const void *);
extern int nc_inq_enum_member(int, nc_type, int, char *, void *);
extern int nc_def_opaque(int, size_t, const char *, nc_type *);
extern int nc_def_vlen(int, const char *, nc_type, nc_type *);
enum { NC_BYTE = 1, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE, NC_UBYTE, NC_USHORT, NC_UINT, NC_INT64, NC_UINT64, NC_STRING, NC_VLEN, NC_OPAQUE, NC_ENUM, NC_COMPOUND };

// ---- tokens ----
static char *line; static size_t linecap; static char *tokp;
static int getline_(void) { ssize_t n = getline(&line, &linecap, stdin); if (n < 0) return 0; if (n && line[n-1] == '\n') line[n-1] = 0; tokp = line; return 1; }
static char *tok(void) { while (*tokp == ' ') tokp++; char *s = tokp; while (*tokp && *tokp != ' ') tokp++; if (*tokp) *tokp++ = 0; return s; }
static long long num(void) { return strtoll(tok(), 0, 10); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
// decodes a hex token; "-" is empty; result NUL-terminated
static char *unhex(size_t *n) { char *s = tok(); size_t l = 0; if (strcmp(s, "-")) l = strlen(s) / 2; char *r = malloc(l + 1); for (size_t i = 0; i < l; i++) r[i] = hexv(s[2*i]) * 16 + hexv(s[2*i+1]); r[l] = 0; if (n) *n = l; return r; }
static void puthex(const void *p, size_t n) { static const char d[] = "0123456789abcdef"; if (!n) { putchar('-'); return; } const unsigned char *b = p; for (size_t i = 0; i < n; i++) { putchar(d[b[i] >> 4]); putchar(d[b[i] & 15]); } }
static void puthexs(const char *s) { puthex(s, strlen(s)); }

static int sizes[] = {0, 1, 1, 2, 4, 4, 8, 1, 2, 4, 8, 8, sizeof(char *)};
static int failed;
static char emsg[400];
#define CK(e) do { int r_ = (e); if (r_) { if (!failed) { failed = 1; snprintf(emsg, sizeof emsg, "%s: %s (%d)", #e, nc_strerror(r_), r_); } return; } } while (0)
#define CKH(e) do { if ((e) < 0) { if (!failed) { failed = 1; snprintf(emsg, sizeof emsg, "%s failed", #e); } return; } } while (0)

// ---- values by nc type ----
static size_t tsize(int nc, nc_type t) { if (t <= NC_STRING) return sizes[t]; size_t s = 0; nc_inq_user_type(nc, t, 0, &s, 0, 0, 0); int cl; nc_inq_user_type(nc, t, 0, 0, 0, 0, &cl); if (cl == NC_VLEN) return sizeof(nc_vlen_t); return s; }

static void print_values(int nc, nc_type t, const char *mem, size_t n) {
	if (t < NC_STRING) { putchar(' '); puthex(mem, n * sizes[t]); return; }
	if (t == NC_STRING) { for (size_t i = 0; i < n; i++) { char *s = ((char **)mem)[i]; putchar(' '); if (!s) printf("NULL"); else puthexs(s); } return; }
	int cl; size_t sz, nf; nc_type base;
	nc_inq_user_type(nc, t, 0, &sz, &base, &nf, &cl);
	for (size_t i = 0; i < n; i++) {
		const char *p = mem + i * tsize(nc, t);
		if (cl == NC_VLEN) { const nc_vlen_t *v = (const void *)p; printf(" %zu", v->len); if (v->len) print_values(nc, base, v->p, v->len); else printf(" -"); }
		else if (cl == NC_OPAQUE) { putchar(' '); puthex(p, sz); }
		else if (cl == NC_ENUM) { putchar(' '); puthex(p, sizes[base]); }
		else for (size_t f = 0; f < nf; f++) {
			size_t off; nc_type ft; int nd, ds[32]; size_t cnt = 1;
			nc_inq_compound_field(nc, t, f, 0, &off, &ft, &nd, ds);
			for (int d = 0; d < nd; d++) cnt *= ds[d];
			print_values(nc, ft, p + off, cnt);
		}
	}
}
static void parse_values(int nc, nc_type t, char *mem, size_t n) {
	if (t < NC_STRING) { size_t l; char *b = unhex(&l); if (l != n * sizes[t]) { failed = 1; snprintf(emsg, sizeof emsg, "value length %zu for %zu of type %d", l, n, t); } else memcpy(mem, b, l); free(b); return; }
	if (t == NC_STRING) { for (size_t i = 0; i < n; i++) ((char **)mem)[i] = unhex(0); return; }
	int cl; size_t sz, nf; nc_type base;
	nc_inq_user_type(nc, t, 0, &sz, &base, &nf, &cl);
	for (size_t i = 0; i < n && !failed; i++) {
		char *p = mem + i * tsize(nc, t);
		if (cl == NC_VLEN) { nc_vlen_t *v = (void *)p; v->len = num(); v->p = calloc(v->len + 1, tsize(nc, base)); if (v->len) parse_values(nc, base, v->p, v->len); else tok(); }
		else if (cl == NC_OPAQUE) { size_t l; char *b = unhex(&l); memcpy(p, b, l < sz ? l : sz); free(b); }
		else if (cl == NC_ENUM) { size_t l; char *b = unhex(&l); memcpy(p, b, sizes[base]); free(b); }
		else for (size_t f = 0; f < nf; f++) {
			size_t off; nc_type ft; int nd, ds[32]; size_t cnt = 1;
			nc_inq_compound_field(nc, t, f, 0, &off, &ft, &nd, ds);
			for (int d = 0; d < nd; d++) cnt *= ds[d];
			parse_values(nc, ft, p + off, cnt);
		}
	}
}

// ---- dump through libnetcdf ----
static int classic; // format of the file being dumped
static void dump_att(int g, int v, int i) {
	char name[1025]; nc_type t; size_t len;
	CK(nc_inq_attname(g, v, i, name));
	CK(nc_inq_att(g, v, name, &t, &len));
	printf("att "); puthexs(name); printf(" %d %zu", t, len);
	char *mem = calloc(len + 1, tsize(g, t) + 16);
	if (len) { int r = nc_get_att(g, v, name, mem); if (r) { printf(" ERR\n"); CK(r); } print_values(g, t, mem, len); }
	printf("\n"); free(mem);
}
static void dump_group(int g) {
	int n = 0;
	char name[1025];
	if (classic) {
		CK(nc_inq_ndims(g, &n)); int u = -1; nc_inq_unlimdim(g, &u);
		for (int i = 0; i < n; i++) { size_t len; CK(nc_inq_dim(g, i, name, &len)); printf("dim %d ", i); puthexs(name); printf(" %zu %d\n", len, i == u); }
	} else {
		static int ids[70000], un[70000]; int nu = 0; CK(nc_inq_dimids(g, &n, ids, 0)); CK(nc_inq_unlimdims(g, &nu, un));
		for (int i = 0; i < n; i++) { size_t len; int u = 0; CK(nc_inq_dim(g, ids[i], name, &len)); for (int k = 0; k < nu; k++) u |= un[k] == ids[i]; printf("dim %d ", ids[i]); puthexs(name); printf(" %zu %d\n", len, u); }
		int nt = 0; static int tids[70000]; CK(nc_inq_typeids(g, &nt, tids));
		for (int i = 0; i < nt; i++) {
			size_t sz, nf; nc_type base; int cl; CK(nc_inq_user_type(g, tids[i], name, &sz, &base, &nf, &cl));
			printf("type %d ", tids[i]); puthexs(name); printf(" %zu %d %zu %d", sz, base, nf, cl);
			if (cl == NC_ENUM) for (size_t k = 0; k < nf; k++) { long long val = 0; CK(nc_inq_enum_member(g, tids[i], k, name, &val)); putchar(' '); puthexs(name); putchar(' '); puthex(&val, sizes[base]); }
			if (cl == NC_COMPOUND) for (size_t k = 0; k < nf; k++) { size_t off; nc_type ft; int nd, ds[32]; CK(nc_inq_compound_field(g, tids[i], k, name, &off, &ft, &nd, ds)); putchar(' '); puthexs(name); printf(" %zu %d %d", off, ft, nd); for (int d = 0; d < nd; d++) printf(" %d", ds[d]); }
			printf("\n");
		}
	}
	int na = 0; CK(nc_inq_natts(g, &na));
	for (int i = 0; i < na; i++) dump_att(g, NC_GLOBAL, i);
	int nv = 0; CK(nc_inq_nvars(g, &nv));
	for (int v = 0; v < nv && !failed; v++) {
		static int dims[1024]; nc_type t; int nd, nat; CK(nc_inq_var(g, v, name, &t, &nd, dims, &nat));
		printf("var "); puthexs(name); printf(" %d %d", t, nd);
		size_t total = 1;
		for (int d = 0; d < nd; d++) { size_t len; CK(nc_inq_dim(g, dims[d], name, &len)); total *= len; printf(" %d ", dims[d]); puthexs(name); printf(" %zu", len); }
		printf(" =");
		char *mem = calloc(total + 1, tsize(g, t) + 16);
		if (total) { int r = nc_get_var(g, v, mem); if (r) { printf(" ERR\n"); CK(r); } print_values(g, t, mem, total); }
		printf("\n"); free(mem);
		for (int i = 0; i < nat; i++) dump_att(g, v, i);
	}
	if (!classic) {
		int ng = 0; CK(nc_inq_grps(g, &ng, 0)); int *ids = calloc(ng + 1, sizeof *ids); CK(nc_inq_grps(g, &ng, ids));
		for (int i = 0; i < ng && !failed; i++) { CK(nc_inq_grpname(ids[i], name)); printf("group "); puthexs(name); printf("\n"); dump_group(ids[i]); printf("endgroup\n"); }
		free(ids);
	}
}
static int nc_dumping = -1;
static void nc_dump(void) {
	char *path = tok(); int nc, fmt;
	CK(nc_open(path, 0, &nc)); nc_dumping = nc;
	CK(nc_inq_format(nc, &fmt)); classic = fmt == 1 || fmt == 2 || fmt == 5;
	printf("format %d\n", fmt);
	dump_group(nc);
	if (!failed) { nc_close(nc); nc_dumping = -1; }
}

// ---- create through libnetcdf ----
static int root, ids[65536];
static void nc_new(void) { char *p = tok(); int mode = num(); CK(nc_create(p, mode, &root)); ids[0] = root; int old; if (num()) CK(nc_set_fill(root, 0x100, &old)); }
static void nc_grp(void) { int slot = num(), par = num(); char *nm = unhex(0); CK(nc_def_grp(ids[par], nm, &ids[slot])); free(nm); }
static void nc_dim(void) { int slot = num(), par = num(); char *nm = unhex(0); CK(nc_def_dim(ids[par], nm, num(), &ids[slot])); free(nm); }
static nc_type ty(void) { char *s = tok(); if (*s == '@') return ids[atoi(s + 1)]; return atoi(s); }
static void nc_var(void) { int slot = num(), par = num(); char *nm = unhex(0); nc_type t = ty(); int nd = num(), d[64]; for (int i = 0; i < nd; i++) d[i] = ids[num()]; CK(nc_def_var(ids[par], nm, t, nd, d, &ids[slot])); free(nm); }
static void nc_chunk(void) { int g = num(), v = num(), st = num(), n = num(); size_t c[64]; for (int i = 0; i < n; i++) c[i] = num(); CK(nc_def_var_chunking(ids[g], ids[v], st, c)); }
static void nc_defl(void) { int g = num(), v = num(), sh = num(), de = num(), lv = num(); CK(nc_def_var_deflate(ids[g], ids[v], sh, de, lv)); }
static void nc_flet(void) { int g = num(), v = num(); CK(nc_def_var_fletcher32(ids[g], ids[v], 1)); }
static void nc_endi(void) { int g = num(), v = num(); CK(nc_def_var_endian(ids[g], ids[v], num())); }
static void nc_fill(void) { int g = num(), v = num(), no = num(); nc_type t = ty(); if (no) { CK(nc_def_var_fill(ids[g], ids[v], 1, 0)); return; } char *mem = calloc(1, tsize(ids[g], t) + 16); parse_values(ids[g], t, mem, 1); CK(nc_def_var_fill(ids[g], ids[v], 0, mem)); free(mem); }
static void nc_att(void) { int g = num(), v = num(); char *nm = unhex(0); nc_type t = ty(); size_t n = num(); char *mem = calloc(n + 1, tsize(ids[g], t) + 16); if (n) parse_values(ids[g], t, mem, n); if (!failed) CK(nc_put_att(ids[g], v < 0 ? NC_GLOBAL : ids[v], nm, t, n, mem)); free(mem); free(nm); }
static void nc_put(void) { int g = num(), v = num(); nc_type t = ty(); int nd = num(); size_t st[64], ct[64], n = 1; for (int i = 0; i < nd; i++) st[i] = num(); for (int i = 0; i < nd; i++) { ct[i] = num(); n *= ct[i]; } char *mem = calloc(n + 1, tsize(ids[g], t) + 16); parse_values(ids[g], t, mem, n); if (!failed) { if (nd) CK(nc_put_vara(ids[g], ids[v], st, ct, mem)); else CK(nc_put_var(ids[g], ids[v], mem)); } free(mem); }
static void nc_typ(void) {
	int slot = num(), g = num(); char *kind = tok(); char *nm = unhex(0); nc_type t;
	if (!strcmp(kind, "opaque")) { CK(nc_def_opaque(ids[g], num(), nm, &t)); }
	else if (!strcmp(kind, "vlen")) { nc_type b = ty(); CK(nc_def_vlen(ids[g], nm, b, &t)); }
	else if (!strcmp(kind, "enum")) { nc_type b = ty(); int n = num(); CK(nc_def_enum(ids[g], b, nm, &t)); for (int i = 0; i < n; i++) { char *mn = unhex(0); char *mv = unhex(0); CK(nc_insert_enum(ids[g], t, mn, mv)); free(mn); free(mv); } }
	else { // compound: size nfields (name offset type nd dims..)
		size_t sz = num(); int n = num(); CK(nc_def_compound(ids[g], sz, nm, &t));
		for (int i = 0; i < n; i++) { char *fn = unhex(0); size_t off = num(); nc_type ft = ty(); int nd = num(), ds[32]; for (int d = 0; d < nd; d++) ds[d] = num(); if (nd) CK(nc_insert_array_compound(ids[g], t, fn, off, ft, nd, ds)); else CK(nc_insert_compound(ids[g], t, fn, off, ft)); free(fn); }
	}
	ids[slot] = t;
	free(nm);
}

// ---- create through libhdf5 ----
static hid_t hids[65536]; static hid_t hfapl = -1;
// HNEW path libverlow(0..2) libverhigh(0..2) trackorder userblock
static H5F_libver_t lv(int i) { return i == 0 ? H5F_LIBVER_EARLIEST : i == 1 ? H5F_LIBVER_V18 : H5F_LIBVER_LATEST; }
// HPHASE maxc mind for links, maxc mind for attributes, of objects created from here on (-1: default)
static int hph[4] = {-1, -1, -1, -1};
static void hphase_reset(void) { for (int i = 0; i < 4; i++) hph[i] = -1; }
static void h_phase(void) { for (int i = 0; i < 4; i++) hph[i] = num(); }
static void hphase_set(hid_t cp, int grp) { if (grp && hph[0] >= 0) H5Pset_link_phase_change(cp, hph[0], hph[1]); if (hph[2] >= 0) H5Pset_attr_phase_change(cp, hph[2], hph[3]); }
static void h_new(void) {
	char *p = tok(); int lo = num(), hi = num(), order = num(); long long ub = num();
	hfapl = H5Pcreate(H5P_FILE_ACCESS); CKH(H5Pset_libver_bounds(hfapl, lv(lo), lv(hi)));
	hid_t cp = H5Pcreate(H5P_FILE_CREATE); if (order) CKH(H5Pset_link_creation_order(cp, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED));
	if (order) CKH(H5Pset_attr_creation_order(cp, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED));
	if (ub) CKH(H5Pset_userblock(cp, ub));
	int ik = num(), sik = num(), slk = num(); if (ik) CKH(H5Pset_istore_k(cp, ik)); if (sik || slk) CKH(H5Pset_sym_k(cp, sik, slk));
	hphase_reset();
	CKH(hids[0] = H5Fcreate(p, H5F_ACC_TRUNC, cp, hfapl)); H5Pclose(cp);
}
// HGRP slot parent name order
static void h_grp(void) { int s = num(), par = num(); char *nm = unhex(0); int order = num(); hid_t cp = H5Pcreate(H5P_GROUP_CREATE); if (order) { H5Pset_link_creation_order(cp, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED); H5Pset_attr_creation_order(cp, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED); } hphase_set(cp, 1); CKH(hids[s] = H5Gcreate2(hids[par], nm, H5P_DEFAULT, cp, H5P_DEFAULT)); H5Pclose(cp); free(nm); }
// types: as h_type prints them (i<size>[le|be|b] u f s<size>[t|n|p] vs o<size> e(..) c(..) v(..) a(..)), and @slot
static const char *hp;
static char *hname(void) { size_t n = 0; char *r = malloc(strlen(hp) / 2 + 1); if (*hp == '-') hp++; while (strchr("0123456789abcdef", *hp) && *hp) { r[n++] = hexv(hp[0]) * 16 + hexv(hp[1]); hp += 2; } r[n] = 0; return r; }
static hid_t htype_(void) {
	char c = *hp++; hid_t t = -1, b; int size;
	if (c == 'v' && *hp == 's') { hp++; t = H5Tcopy(H5T_C_S1); H5Tset_size(t, H5T_VARIABLE); return t; }
	if (strchr("iufso@", c)) size = strtol(hp, (char **)&hp, 10);
	switch (c) {
	case '@': return H5Tcopy(hids[size]);
	case 'i': case 'u': t = H5Tcopy(c == 'i' ? (size == 1 ? H5T_STD_I8LE : size == 2 ? H5T_STD_I16LE : size == 4 ? H5T_STD_I32LE : H5T_STD_I64LE) : (size == 1 ? H5T_STD_U8LE : size == 2 ? H5T_STD_U16LE : size == 4 ? H5T_STD_U32LE : H5T_STD_U64LE)); goto order;
	case 'f': t = H5Tcopy(size == 4 ? H5T_IEEE_F32LE : H5T_IEEE_F64LE);
	order: if (hp[0] == 'b') { H5Tset_order(t, H5T_ORDER_BE); hp++; if (*hp == 'e') hp++; } else if (hp[0] == 'l' && hp[1] == 'e') hp += 2; return t;
	case 's': t = H5Tcopy(H5T_C_S1); H5Tset_size(t, size); if (*hp == 'u') { hp++; H5Tset_cset(t, H5T_CSET_UTF8); } if (*hp == 'n') { H5Tset_strpad(t, H5T_STR_NULLPAD); hp++; } else if (*hp == 'p') { H5Tset_strpad(t, H5T_STR_SPACEPAD); hp++; } else { H5Tset_strpad(t, H5T_STR_NULLTERM); if (*hp == 't') hp++; } return t;
	case 'o': t = H5Tcreate(H5T_OPAQUE, size); H5Tset_tag(t, ""); return t;
	case 'v': hp++; b = htype_(); if (b < 0) return b; hp++; t = H5Tvlen_create(b); H5Tclose(b); return t;
	case 'a': { hsize_t d[32]; int n = 0; hp++; do { d[n++] = strtol(hp, (char **)&hp, 10); } while (*hp++ == ','); b = htype_(); if (b < 0) return b; hp++; t = H5Tarray_create2(b, n, d); H5Tclose(b); return t; }
	case 'e': hp++; b = htype_(); if (b < 0) return b; t = H5Tenum_create(b); { size_t sz = H5Tget_size(b); int be = H5Tget_order(b) == H5T_ORDER_BE; while (*hp == ';') { hp++; char *nm = hname(); hp++; char *v = hname(); char w[16]; for (size_t k = 0; k < sz; k++) w[k] = v[be ? sz - 1 - k : k]; if (H5Tenum_insert(t, nm, w) < 0) return -1; free(nm); free(v); } hp++; } H5Tclose(b); return t;
	case 'c': hp++; size = strtol(hp, (char **)&hp, 10); t = H5Tcreate(H5T_COMPOUND, size); while (*hp == ';') { hp++; char *nm = hname(); hp++; size_t off = strtol(hp, (char **)&hp, 10); hp++; b = htype_(); if (b < 0 || H5Tinsert(t, nm, off, b) < 0) return -1; H5Tclose(b); free(nm); } hp++; return t;
	}
	return -1;
}
static hid_t htype(const char *s) { hp = s; return htype_(); }
static hid_t hmem(hid_t ft) { return H5Tget_native_type(ft, H5T_DIR_ASCEND); } // values are given in native form
// n values of native type t, the inverse of h_values
static void h_parse(hid_t t, char *p, size_t n) {
	H5T_class_t c = H5Tget_class(t); size_t sz = H5Tget_size(t);
	if (c == H5T_STRING && H5Tis_variable_str(t) > 0) { for (size_t i = 0; i < n; i++) ((char **)p)[i] = unhex(0); return; }
	if (c == H5T_COMPOUND) { int k = H5Tget_nmembers(t); for (size_t i = 0; i < n; i++) for (int m = 0; m < k; m++) { hid_t f = H5Tget_member_type(t, m); h_parse(f, p + i * sz + H5Tget_member_offset(t, m), 1); H5Tclose(f); } return; }
	if (c == H5T_VLEN) { hid_t b = H5Tget_super(t); for (size_t i = 0; i < n; i++) { hvl_t *v = (void *)(p + i * sz); v->len = num(); v->p = calloc(v->len + 1, H5Tget_size(b) + 1); if (v->len) h_parse(b, v->p, v->len); } H5Tclose(b); return; }
	if (c == H5T_ARRAY) { hid_t b = H5Tget_super(t); hsize_t d[32]; int k = H5Tget_array_dims2(t, d); size_t e = 1; for (int i = 0; i < k; i++) e *= d[i]; h_parse(b, p, n * e); H5Tclose(b); return; }
	size_t l; char *b = unhex(&l);
	if (l != n * sz) { if (!failed) { failed = 1; snprintf(emsg, sizeof emsg, "h_parse: %zu bytes, want %zu", l, n * sz); } } else memcpy(p, b, l);
	free(b);
}
static char *hvals(hid_t m, size_t n) { char *b = calloc(n + 1, H5Tget_size(m) + 16); if (n) h_parse(m, b, n); return b; }
// HTYP slot parent name type: a named type
static void h_typ(void) { int s = num(), par = num(); char *nm = unhex(0); hid_t t = htype(tok()); CKH(t); CKH(H5Tcommit2(hids[par], nm, t, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)); hids[s] = t; free(nm); }
// HLNK kind(h|s|x) parent name target: h target is a slot, s a path in hex, x a path in a file that need not exist
static void h_lnk(void) { char *k = tok(); int par = num(); char *nm = unhex(0); if (*k == 'h') { int o = num(); CKH(H5Lcreate_hard(hids[o], ".", hids[par], nm, H5P_DEFAULT, H5P_DEFAULT)); } else { char *tg = unhex(0); if (*k == 's') CKH(H5Lcreate_soft(tg, hids[par], nm, H5P_DEFAULT, H5P_DEFAULT)); else CKH(H5Lcreate_external("nosuchfile.nc", tg, hids[par], nm, H5P_DEFAULT, H5P_DEFAULT)); free(tg); } free(nm); }
// HDS slot parent name type layout(0 compact 1 contiguous 2 chunked) rank(-1: null dataspace) dims.. maxdims.. [chunk dims if chunked] nfilters (d<lvl>|s|f ..) fill(0 none-set,1 value,2 undefined) [hex] filltime(0 ifset 1 alloc 2 never) alloctime(0 default 1 early 2 late 3 incr)
static void h_ds(void) {
	int s = num(), par = num(); char *nm = unhex(0); hid_t t = htype(tok()); CKH(t); int lay = num(), rank = num(); hsize_t d[32], mx[32], c[32];
	for (int i = 0; i < rank; i++) d[i] = num(); for (int i = 0; i < rank; i++) { long long x = num(); mx[i] = x < 0 ? H5S_UNLIMITED : (hsize_t)x; }
	hid_t cp = H5Pcreate(H5P_DATASET_CREATE);
	H5Pset_attr_creation_order(cp, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED); hphase_set(cp, 0);
	if (lay == 2) { for (int i = 0; i < rank; i++) c[i] = num(); CKH(H5Pset_chunk(cp, rank, c)); } else CKH(H5Pset_layout(cp, lay == 0 ? H5D_COMPACT : H5D_CONTIGUOUS));
	int nf = num(); for (int i = 0; i < nf; i++) { char *f = tok(); if (*f == 'd') CKH(H5Pset_deflate(cp, atoi(f + 1))); else if (*f == 's') CKH(H5Pset_shuffle(cp)); else CKH(H5Pset_fletcher32(cp)); }
	int fm = num(); if (fm == 1) { hid_t m = hmem(t); char *b = hvals(m, 1); if (!failed) CKH(H5Pset_fill_value(cp, m, b)); free(b); H5Tclose(m); } else if (fm == 2) CKH(H5Pset_fill_value(cp, t, 0));
	int ft = num(); H5Pset_fill_time(cp, ft == 0 ? H5D_FILL_TIME_IFSET : ft == 1 ? H5D_FILL_TIME_ALLOC : H5D_FILL_TIME_NEVER);
	int at = num(); if (at) H5Pset_alloc_time(cp, at == 1 ? H5D_ALLOC_TIME_EARLY : at == 2 ? H5D_ALLOC_TIME_LATE : H5D_ALLOC_TIME_INCR);
	hid_t sp = rank > 0 ? H5Screate_simple(rank, d, mx) : H5Screate(rank ? H5S_NULL : H5S_SCALAR);
	CKH(hids[s] = H5Dcreate2(hids[par], nm, t, sp, H5P_DEFAULT, cp, H5P_DEFAULT)); H5Sclose(sp); H5Pclose(cp); H5Tclose(t); free(nm);
}
// HWR slot rank start.. count.. values
static void h_wr(void) {
	int s = num(), rank = num(); hsize_t st[32], ct[32]; size_t n = 1; for (int i = 0; i < rank; i++) st[i] = num(); for (int i = 0; i < rank; i++) { ct[i] = num(); n *= ct[i]; }
	hid_t ft = H5Dget_type(hids[s]), m = hmem(ft), sp = H5Dget_space(hids[s]), ms; char *b = hvals(m, n); if (failed) return;
	if (rank) { CKH(H5Sselect_hyperslab(sp, H5S_SELECT_SET, st, 0, ct, 0)); ms = H5Screate_simple(rank, ct, 0); } else ms = H5Screate(H5S_SCALAR);
	CKH(H5Dwrite(hids[s], m, ms, sp, H5P_DEFAULT, b)); free(b); H5Sclose(ms); H5Sclose(sp); H5Tclose(m); H5Tclose(ft);
}
// HRND slot rank start.. count.. seed: writes bytes of a random sequence
static void h_rnd(void) {
	int s = num(), rank = num(); hsize_t st[32], ct[32]; size_t n = 1; for (int i = 0; i < rank; i++) st[i] = num(); for (int i = 0; i < rank; i++) { ct[i] = num(); n *= ct[i]; }
	unsigned long long x = 2 * num() + 1; hid_t t = H5Dget_type(hids[s]), sp = H5Dget_space(hids[s]), ms = H5Screate_simple(rank, ct, 0); n *= H5Tget_size(t); char *b = malloc(n + 1);
	for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = x >> 56; }
	CKH(H5Sselect_hyperslab(sp, H5S_SELECT_SET, st, 0, ct, 0)); CKH(H5Dwrite(hids[s], t, ms, sp, H5P_DEFAULT, b)); free(b); H5Sclose(ms); H5Sclose(sp); H5Tclose(t);
}
static void h_ext(void) { int s = num(), rank = num(); hsize_t d[32]; for (int i = 0; i < rank; i++) d[i] = num(); CKH(H5Dset_extent(hids[s], d)); }
// HATT obj name type rank dims.. values
static void h_att(void) {
	int o = num(); char *nm = unhex(0); hid_t t = htype(tok()); CKH(t); int rank = num(); hsize_t d[32]; size_t n = 1; for (int i = 0; i < rank; i++) { d[i] = num(); n *= d[i]; }
	if (rank < 0) n = 0;
	hid_t sp = rank > 0 ? H5Screate_simple(rank, d, 0) : H5Screate(rank ? H5S_NULL : H5S_SCALAR), m = hmem(t), a; char *b = hvals(m, n); if (failed) return;
	CKH(a = H5Acreate2(hids[o], nm, t, sp, H5P_DEFAULT, H5P_DEFAULT)); if (n) CKH(H5Awrite(a, m, b)); H5Aclose(a); H5Sclose(sp); H5Tclose(m); H5Tclose(t); free(b); free(nm);
}
static int h_isopen;
static void h_close(void) { // closes everything of the file
	h_isopen = 0;
	ssize_t n; hid_t list[4096]; hid_t f = hids[0];
	while ((n = H5Fget_obj_ids(f, H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_DATATYPE | H5F_OBJ_ATTR, 4096, list)) > 0) {
		int closed = 0; for (ssize_t i = 0; i < n; i++) closed += H5Oclose(list[i]) >= 0;
		if (!closed) { CKH(-1); break; }
	}
	CKH(H5Fclose(f)); H5Pclose(hfapl);
}
// HDEL parent name: unlink, leaves holes
static void h_del(void) { int par = num(); char *nm = unhex(0); CKH(H5Ldelete(hids[par], nm, H5P_DEFAULT)); free(nm); }
static void h_adel(void) { int o = num(); char *nm = unhex(0); CKH(H5Adelete(hids[o], nm)); free(nm); }

// ---- read all through libhdf5 (walks everything, to see whether it is accepted) ----
static int hcount; static herr_t hvisit(hid_t o, const char *name, const H5O_info_t *info, void *u) {
	hcount++;
	hid_t x = H5Oopen(o, name, H5P_DEFAULT); if (x < 0) return -1;
	hsize_t i; for (i = 0; i < info->num_attrs; i++) { hid_t a = H5Aopen_by_idx(x, ".", H5_INDEX_NAME, H5_ITER_INC, i, H5P_DEFAULT, H5P_DEFAULT); if (a < 0) return -1; hid_t t = H5Aget_type(a), s = H5Aget_space(a); if (t < 0 || s < 0) return -1; hssize_t n = H5Sget_simple_extent_npoints(s); char *b = calloc(n + 1, H5Tget_size(t) + 16); if (n > 0 && H5Aread(a, t, b) < 0) return -1; free(b); H5Tclose(t); H5Sclose(s); H5Aclose(a); }
	if (info->type == H5O_TYPE_DATASET) { hid_t t = H5Dget_type(x), s = H5Dget_space(x); if (t < 0 || s < 0) return -1; hssize_t n = H5Sget_simple_extent_npoints(s); char *b = calloc(n + 1, H5Tget_size(t) + 16); if (n > 0 && H5Dread(x, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0) return -1; free(b); H5Tclose(t); H5Sclose(s); }
	H5Oclose(x); return 0;
}
static void h_walk(void) { hid_t f; CKH(f = H5Fopen(tok(), H5F_ACC_RDONLY, H5P_DEFAULT)); hcount = 0; herr_t r = H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, hvisit, 0); H5Fclose(f); CKH(r); printf("objects %d\n", hcount); }

// ---- dump through libhdf5: types as they are, values in native form ----
// type: i4 u4 f4 (+b if big-endian) s<size>t|n|p vs o<size> r<size> e(<base>;name=hex;..) c(<size>;name@off:type;..) v(type) a(d,d;type); names in hex
static void h_type(hid_t t) {
	H5T_class_t c = H5Tget_class(t); size_t sz = H5Tget_size(t);
	switch (c) {
	case H5T_INTEGER: printf("%c%zu%s", H5Tget_sign(t) == H5T_SGN_NONE ? 'u' : 'i', sz, H5Tget_order(t) == H5T_ORDER_BE ? "b" : ""); break;
	case H5T_FLOAT: printf("f%zu%s", sz, H5Tget_order(t) == H5T_ORDER_BE ? "b" : ""); break;
	case H5T_STRING: if (H5Tis_variable_str(t) > 0) printf("vs"); else { H5T_str_t p = H5Tget_strpad(t); printf("s%zu%c", sz, p == H5T_STR_NULLTERM ? 't' : p == H5T_STR_NULLPAD ? 'n' : 'p'); } break;
	case H5T_OPAQUE: printf("o%zu", sz); break;
	case H5T_REFERENCE: printf("r%zu", sz); break;
	case H5T_ENUM: { hid_t b = H5Tget_super(t); int n = H5Tget_nmembers(t); printf("e("); h_type(b); for (int i = 0; i < n; i++) { char *nm = H5Tget_member_name(t, i); char v[16] = {0}, w[16]; H5Tget_member_value(t, i, v); int be = H5Tget_order(b) == H5T_ORDER_BE; for (size_t k = 0; k < sz; k++) w[k] = v[be ? sz - 1 - k : k]; putchar(';'); puthexs(nm); putchar('='); puthex(w, sz); H5free_memory(nm); } putchar(')'); H5Tclose(b); break; }
	case H5T_COMPOUND: { int n = H5Tget_nmembers(t); printf("c(%zu", sz); for (int i = 0; i < n; i++) { char *nm = H5Tget_member_name(t, i); hid_t m = H5Tget_member_type(t, i); putchar(';'); puthexs(nm); printf("@%zu:", H5Tget_member_offset(t, i)); h_type(m); H5Tclose(m); H5free_memory(nm); } putchar(')'); break; }
	case H5T_VLEN: { hid_t b = H5Tget_super(t); printf("v("); h_type(b); putchar(')'); H5Tclose(b); break; }
	case H5T_ARRAY: { hid_t b = H5Tget_super(t); hsize_t d[32]; int n = H5Tget_array_dims2(t, d); printf("a("); for (int i = 0; i < n; i++) printf("%s%llu", i ? "," : "", (unsigned long long)d[i]); putchar(';'); h_type(b); putchar(')'); H5Tclose(b); break; }
	default: printf("x%d", (int)c);
	}
}
// n values of native type t: numbers, enums, opaques, references and fixed strings as one token of all bytes
static void h_values(hid_t t, const char *p, size_t n) {
	H5T_class_t c = H5Tget_class(t); size_t sz = H5Tget_size(t);
	if (c == H5T_STRING && H5Tis_variable_str(t) > 0) { for (size_t i = 0; i < n; i++) { char *s = ((char **)p)[i]; putchar(' '); if (s) puthexs(s); else printf("NULL"); } return; }
	if (c == H5T_COMPOUND) { int k = H5Tget_nmembers(t); for (size_t i = 0; i < n; i++) for (int m = 0; m < k; m++) { hid_t f = H5Tget_member_type(t, m); h_values(f, p + i * sz + H5Tget_member_offset(t, m), 1); H5Tclose(f); } return; }
	if (c == H5T_VLEN) { hid_t b = H5Tget_super(t); for (size_t i = 0; i < n; i++) { const hvl_t *v = (const void *)(p + i * sz); printf(" %zu", v->len); if (v->len) h_values(b, v->p, v->len); } H5Tclose(b); return; }
	if (c == H5T_ARRAY) { hid_t b = H5Tget_super(t); hsize_t d[32]; int k = H5Tget_array_dims2(t, d); size_t e = 1; for (int i = 0; i < k; i++) e *= d[i]; h_values(b, p, n * e); H5Tclose(b); return; }
	putchar(' '); puthex(p, n * sz);
}
static hid_t h_native(hid_t t) { // H5Tget_native_type changes neither names nor order of members
	return H5Tget_native_type(t, H5T_DIR_ASCEND);
}
static void h_space(hid_t s) { H5S_class_t c = H5Sget_simple_extent_type(s); if (c == H5S_NULL) { printf(" -1"); return; } hsize_t d[32], mx[32]; int n = H5Sget_simple_extent_dims(s, d, mx); printf(" %d", n); for (int i = 0; i < n; i++) printf(" %llu", (unsigned long long)d[i]); }
static herr_t h_datt(hid_t o, const char *name, const H5A_info_t *i, void *u) {
	hid_t a = H5Aopen(o, name, H5P_DEFAULT); if (a < 0) return -1; hid_t t = H5Aget_type(a), s = H5Aget_space(a);
	printf("att "); puthexs(name); putchar(' '); h_type(t); h_space(s); printf(" =");
	hssize_t n = H5Sget_simple_extent_npoints(s); hid_t m = h_native(t); char *b = calloc(n + 1, H5Tget_size(m) + 16);
	if (n > 0) { if (H5Aread(a, m, b) < 0) return -1; h_values(m, b, n); }
	printf("\n"); free(b); H5Tclose(m); H5Tclose(t); H5Sclose(s); H5Aclose(a); return 0;
}
static herr_t h_dlink(hid_t g, const char *name, const H5L_info_t *i, void *u) {
	if (i->type != H5L_TYPE_HARD) { printf("link "); puthexs(name); printf(" %d\n", (int)i->type); return 0; }
	hid_t o = H5Oopen(g, name, H5P_DEFAULT); if (o < 0) return -1; H5I_type_t k = H5Iget_type(o); herr_t r = 0; hsize_t idx = 0;
	if (k == H5I_GROUP) { printf("group "); puthexs(name); printf("\n"); idx = 0; r = H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, &idx, h_datt, 0); if (r >= 0) r = H5Literate(o, H5_INDEX_NAME, H5_ITER_INC, 0, h_dlink, u); printf("endgroup\n"); }
	else if (k == H5I_DATATYPE) { printf("typ "); puthexs(name); putchar(' '); h_type(o); printf("\n"); }
	else if (k == H5I_DATASET) {
		hid_t t = H5Dget_type(o), s = H5Dget_space(o); printf("ds "); puthexs(name); putchar(' '); h_type(t); h_space(s); printf(" =");
		hssize_t n = H5Sget_simple_extent_npoints(s); hid_t m = h_native(t); char *b = calloc(n + 1, H5Tget_size(m) + 16);
		if (n > 0) { if (H5Dread(o, m, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0) { printf("\n"); return -1; } h_values(m, b, n); }
		printf("\n"); free(b); H5Tclose(m); H5Tclose(t); H5Sclose(s);
		idx = 0; r = H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, &idx, h_datt, 0);
	}
	H5Oclose(o); return r;
}
static void h_dump(void) {
	hid_t f, g; CKH(f = H5Fopen(tok(), H5F_ACC_RDONLY, H5P_DEFAULT)); g = H5Gopen2(f, "/", H5P_DEFAULT); hsize_t idx = 0;
	herr_t r = H5Aiterate2(g, H5_INDEX_NAME, H5_ITER_INC, &idx, h_datt, 0); if (r >= 0) r = H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, 0, h_dlink, 0);
	H5Gclose(g); H5Fclose(f); CKH(r);
}

// HCHUNKS file: where the chunks are that have a Fletcher-32 checksum
static herr_t h_chunks1(hid_t o, const char *name, const H5O_info_t *info, void *u) {
	if (info->type != H5O_TYPE_DATASET) return 0;
	hid_t x = H5Oopen(o, name, H5P_DEFAULT); if (x < 0) return -1;
	hid_t cp = H5Dget_create_plist(x); herr_t r = 0;
	if (H5Pget_layout(cp) == H5D_CHUNKED) {
		int has = 0; for (int i = 0; i < H5Pget_nfilters(cp); i++) { unsigned fl, cfg; size_t n = 0; if (H5Pget_filter2(cp, i, &fl, &n, 0, 0, 0, &cfg) == H5Z_FILTER_FLETCHER32) has = 1; }
		hid_t sp = H5Dget_space(x); hsize_t n = 0; if (has) r = H5Dget_num_chunks(x, sp, &n);
		for (hsize_t i = 0; r >= 0 && i < n; i++) { hsize_t off[32], size; unsigned mask; haddr_t a; r = H5Dget_chunk_info(x, sp, i, off, &mask, &a, &size); if (r >= 0 && !mask && a != HADDR_UNDEF) printf("chunk %llu %llu\n", (unsigned long long)a, (unsigned long long)size); }
		H5Sclose(sp);
	}
	H5Pclose(cp); H5Oclose(x); return r;
}
static void h_chunks(void) { hid_t f; CKH(f = H5Fopen(tok(), H5F_ACC_RDONLY, H5P_DEFAULT)); herr_t r = H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, h_chunks1, 0); H5Fclose(f); CKH(r); }

static struct { const char *n; void (*f)(void); } cmds[] = {
	{"DUMP", nc_dump}, {"NEW", nc_new}, {"GRP", nc_grp}, {"DIM", nc_dim}, {"VAR", nc_var}, {"CHUNK", nc_chunk}, {"DEFLATE", nc_defl}, {"FLETCHER", nc_flet}, {"ENDIAN", nc_endi}, {"FILL", nc_fill}, {"ATT", nc_att}, {"PUT", nc_put}, {"TYPE", nc_typ},
	{"HNEW", h_new}, {"HGRP", h_grp}, {"HDS", h_ds}, {"HWR", h_wr}, {"HRND", h_rnd}, {"HEXT", h_ext}, {"HATT", h_att}, {"HCLOSE", h_close}, {"HWALK", h_walk}, {"HDEL", h_del}, {"HTYP", h_typ}, {"HLNK", h_lnk}, {"HPHASE", h_phase}, {"HADEL", h_adel}, {"HDUMP", h_dump}, {"HCHUNKS", h_chunks}, {0, 0}};

// A request is any number of commands and then END; the reply is the output and then OK or ERR.
int main(void) {
	H5Eset_auto2(H5E_DEFAULT, 0, 0);
	setvbuf(stdout, 0, _IOFBF, 1 << 20);
	int open_nc = 0;
	while (getline_()) {
		char *c = tok();
		if (!strcmp(c, "END")) {
			if (open_nc) { int r = nc_close(root); if (r && !failed) { failed = 1; snprintf(emsg, sizeof emsg, "nc_close: %s", nc_strerror(r)); } open_nc = 0; }
			if (nc_dumping >= 0) { nc_close(nc_dumping); nc_dumping = -1; }
			if (h_isopen) h_close(); // left open after a failure
			if (failed) printf("\nERR %s\n", emsg); else printf("OK\n"); // it may have failed in the middle of a line
			fflush(stdout); failed = 0; continue;
		}
		if (failed) continue;
		if (!strcmp(c, "ENDDEF")) { int r = nc_enddef(root); if (r) { failed = 1; snprintf(emsg, sizeof emsg, "enddef: %s", nc_strerror(r)); } continue; }
		int i; for (i = 0; cmds[i].n; i++) if (!strcmp(c, cmds[i].n)) break;
		if (!cmds[i].n) { failed = 1; snprintf(emsg, sizeof emsg, "unknown command %s", c); continue; }
		cmds[i].f();
		if (!strcmp(c, "NEW") && !failed) open_nc = 1;
		if (!strcmp(c, "HNEW") && !failed) h_isopen = 1;
	}
	return 0;
}
