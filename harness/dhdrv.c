/* Script interpreter over the hash table of util/dhash.h. Reads commands on stdin, writes one JSON event per call to argv[1].
   Keys and values are objects of the driver: every insertion makes a new key object (its number is "o") and a value
   whose bytes are derived from its number "i"; both numbers are reported back by whatever the table hands out. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdbool.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <grp.h>
#include <ctype.h>
#include "evfs/util/dhash.h"

static int in_api; static long mcount, mfail_at; static int mfailed; static long bytes_live;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void *bk_p[64]; static size_t bk_n[64];
static int deny(void) { if(!in_api || !mfail_at) return 0; if(++mcount == mfail_at) { mfailed = 1; return 1; } return 0; }
static void note(void *p, size_t n) { if(!in_api || !p) return; for(int i = 0; i < 64; i++) if(!bk_p[i]) { bk_p[i] = p; bk_n[i] = n; bytes_live += n; return; } }
static void forget(void *p) { if(!p) return; for(int i = 0; i < 64; i++) if(bk_p[i] == p) { bytes_live -= bk_n[i]; bk_p[i] = NULL; return; } }
void *__wrap_malloc(size_t n) { if(deny()) return NULL; void *p = __real_malloc(n); note(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if(deny()) return NULL; void *p = __real_calloc(a, b); note(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if(deny()) return NULL; if(in_api) forget(q); void *p = __real_realloc(q, n); note(p, n); return p; }
void __wrap_free(void *p) { forget(p); __real_free(p); }

static FILE *out; static long ncalls; static char cb[1 << 20]; static size_t cbn;
static void ev(const char *op) { fprintf(out, "{\"op\":\"%s\"", op); }
static void ki(const char *k, long v) { fprintf(out, ",\"%s\":%ld", k, v); }
static void ks(const char *k, const char *v) { fprintf(out, ",\"%s\":\"%s\"", k, v); }

/* objects */
typedef struct Obj { long o; size_t n; int used; char d[]; } Obj;
#define MAXO 200000
static Obj *O[MAXO]; static long nO;
static size_t vsize; static int kind;             /* 0 string, 1 string without case, 2 integer, 3 all collide, 4 three hash values */
static uintptr_t iv[MAXO];
static dhKey newkey(const char *hex, long *o) {
  dhKey k; if(nO >= MAXO) exit(97);
  if(kind == 2) { k.data = (void *)(uintptr_t)strtoul(hex, NULL, 10); k.length = sizeof(uint32_t); *o = nO; iv[nO] = (uintptr_t)k.data; O[nO++] = NULL; return k; }
  size_t n = strlen(hex) / 2; Obj *x = __real_malloc(sizeof(Obj) + n); x->n = n; x->o = nO; x->used = 1;
  for(size_t i = 0; i < n; i++) { unsigned b; sscanf(hex + 2 * i, "%2x", &b); x->d[i] = (char)b; }
  O[nO++] = x; *o = x->o; k.data = x->d; k.length = n; return k;
}
static long objof(dhKey k) { if(kind == 2) return -1; for(long i = nO; i--;) if(O[i] && O[i]->d == k.data) return O[i]->n == k.length ? i : -3; return -2; }
static void drop(long o) { if(o >= 0 && O[o]) { __real_free(O[o]); O[o] = NULL; } }
static void fill(unsigned char *v, long i) { for(size_t j = 0; j < vsize; j++) v[j] = (unsigned char)((i >> (8 * (j % 3))) + 31 * (j / 3) + 1); }
static long val(const unsigned char *v) { if(vsize < 3) { return vsize ? (long)(unsigned char)(v[0] - 1) | (vsize > 1 ? (long)(unsigned char)(v[1] - 1) << 8 : 0) : 0; }
  long i = (long)(unsigned char)(v[0] - 1) | (long)(unsigned char)(v[1] - 1) << 8 | (long)(unsigned char)(v[2] - 1) << 16; unsigned char w[512]; fill(w, i); return memcmp(w, v, vsize) ? -1 : i; }
static char low[4096];
static const char *name(const void *d, size_t n) { char *p = low; if(kind == 2) { sprintf(low, "%lu", (unsigned long)(uintptr_t)d); return low; }
  for(size_t i = 0; i < n && p < low + 4000; i++) p += sprintf(p, "%02x", kind == 1 ? tolower(((unsigned char *)d)[i]) : ((unsigned char *)d)[i]); *p = 0; return low; }
static void cbadd(const char *fmt, const char *k, long a, long b, long c) { if(cbn) cb[cbn++] = ','; cbn += snprintf(cb + cbn, sizeof cb - cbn - 2, fmt, k, a, b, c); if(cbn > sizeof cb - 8192) exit(97); }

/* callbacks */
static int replace_mode, grow_allow, nkilled;   /* 0 none, 1 yes, 2 refuse odd new values */
static long killed[MAXO]; static void *want_ctx; static int ctx_bad;
static void on_destroy(dhKey k, void *v, void *ctx) { if(ctx != want_ctx) ctx_bad = 1; long o = objof(k); cbadd("{\"cb\":\"destroy\",\"k\":\"%s\",\"o\":%ld,\"i\":%ld}", name(k.data, k.length), o, val(v), 0); if(o >= 0) killed[nkilled++] = o; }
static bool on_replace(dhKey k, void *ov, void *nv, void *ctx) { if(ctx != want_ctx) ctx_bad = 1; long i = val(nv); bool y = replace_mode == 1 || i % 2 == 0; cbadd("{\"cb\":\"replace\",\"k\":\"%s\",\"i\":%ld,\"n\":%ld,\"yes\":%ld}", name(k.data, k.length), val(ov), i, y); return y; }
static bool on_grow(size_t n, void *ctx) { if(ctx != want_ctx) ctx_bad = 1; bool y = grow_allow > 0; if(grow_allow > 0) grow_allow--; cbadd("{\"cb\":\"grow\",\"k\":\"%s\",\"n\":%ld,\"yes\":%ld}", "", (long)n, y, 0); return y; }
static dhIKey h_const(dhKey k) { return 77; }
static dhIKey h_three(dhKey k) { return dh_gen_hash_string(k) % 3; }
static bool eq_nocase(dhKey a, dhKey b, void *ctx) { if(ctx != want_ctx) ctx_bad = 1; return a.length == b.length && !strncasecmp(a.data, b.data, a.length); }
static bool eq_str(dhKey a, dhKey b, void *ctx) { if(ctx != want_ctx) ctx_bad = 1; return dh_equal_hash_keys_string(a, b, ctx); }
static bool eq_int(dhKey a, dhKey b, void *ctx) { if(ctx != want_ctx) ctx_bad = 1; return dh_equal_hash_keys_int(a, b, ctx); }
static long seen_stop, seen_n;
static void item(dhKey k, void *v) { if(seen_n++) fputc(',', out); fprintf(out, "{\"k\":\"%s\",\"o\":%ld,\"i\":%ld}", name(k.data, k.length), objof(k), val(v)); }
static bool on_visit(dhKey k, void *v, void *ctx) { if(ctx != want_ctx) ctx_bad = 1; in_api = 0; item(k, v); in_api = 1; return seen_n != seen_stop; }

static dhash H; static int live, is_static; static unsigned char *ext, *ext0; static size_t ext_n;
static int guards(void) { if(!ext0) return 0; for(int i = 0; i < 64; i++) if(ext0[i] != 0xC3 || ext0[64 + ext_n + i] != 0xC3) return 1; return 0; }
static void tail(void) { fprintf(out, ",\"calls\":[%.*s]", (int)cbn, cb); ki("num", live ? dh_num_items(&H) : 0); ki("cap", live ? dh_cur_capacity(&H) : 0); ki("bytes", bytes_live); ki("mf", mfailed); ki("bad", guards() || ctx_bad); fprintf(out, "}\n"); fflush(out);
  for(int i = 0; i < nkilled; i++) drop(killed[i]); nkilled = 0; cbn = 0; mfail_at = 0; mfailed = 0; }
static void shut(void) { if(live) { in_api = 1; dh_free(&H); in_api = 0; } live = 0; cbn = 0; nkilled = 0; for(long i = 0; i < nO; i++) drop(i); nO = 0; __real_free(ext0); ext0 = ext = NULL; bytes_live = 0; memset(bk_p, 0, sizeof bk_p); }
static void on_sig(int s) { fprintf(out, "{\"op\":\"HANG\"}\n"); fflush(out); _exit(0); }
#define API(x) do { in_api = 1; mcount = 0; x; in_api = 0; } while(0)
static char *tok(void) { char *t = strtok(NULL, " \n"); return t ? t : ""; }
static long num(void) { return atol(tok()); }

int main(int argc, char **argv) {
  int ofd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC, 0644); if(ofd < 0) return 99; out = fdopen(ofd, "w");
  int uid = atoi(argv[3]); if(uid && getuid() == 0) { if(setgroups(0, NULL)) {} if(setgid(uid)) {} if(setuid(uid)) return 95; }
  signal(SIGALRM, on_sig); long watchdog = argc > 4 ? atol(argv[4]) : 20; char *line = NULL; size_t cap = 0; int r; long stop_no = 0;
  while(getline(&line, &cap, stdin) > 0) {
    char *c = strtok(line, " \n"); if(!c || *c == '#') continue;
    alarm(watchdog);
    if(!strcmp(c, "reset")) { shut(); ctx_bad = 0; stop_no = 0; ev(c); fprintf(out, "}\n"); }
    else if(!strcmp(c, "init")) { ev(c); fprintf(out, "}\n"); }
    else if(!strcmp(c, "new")) {    /* new kind buckets vsize max_storage ext replace grow */
      kind = num(); long b = num(); vsize = num(); size_t ms = num(); int ex = num(); replace_mode = num(); int grow = num();
      dhConfig cf; memset(&cf, 0, sizeof cf); cf.init_buckets = b; cf.value_size = vsize; cf.max_storage = ms; cf.destroy_item = on_destroy;
      cf.gen_hash = kind == 0 ? dh_gen_hash_string : kind == 1 ? dh_gen_hash_string_no_case : kind == 2 ? dh_gen_hash_int : kind == 3 ? h_const : h_three;
      cf.is_equal = kind == 1 ? eq_nocase : kind == 2 ? eq_int : eq_str; if(replace_mode) cf.replace_item = on_replace; if(grow >= 0) { cf.grow_hash = on_grow; grow_allow = grow; }
      if(ex) { ext_n = ms; ext0 = __real_malloc(ms + 128); memset(ext0, 0xC3, ms + 128); ext = ext0 + 64; cf.ext_storage = ext; }
      want_ctx = &want_ctx; is_static = ex; memset(&H, 0x5A, sizeof H); API(r = dh_init(&H, &cf, want_ctx)); live = r;
      ev(c); ki("ret", r); ki("static", ex); ki("lim", ex ? 0 : ms); ki("b", b); ki("grow", grow); ki("fit", (long)(ms / (sizeof(dhKey) + 8 + (vsize + 7) / 8 * 8))); ki("rep", replace_mode); tail(); }
    else if(!strcmp(c, "mfail")) { mfail_at = num(); }
    else if(!live) continue;
    else if(!strcmp(c, "ins")) { char *kx = tok(); long i = num(), o; dhKey k = newkey(kx, &o); const char *nm = name(k.data, k.length); ev(c); ks("k", nm); ki("i", i); ki("o", kind == 2 ? -1 : o);
      unsigned char *v = malloc(vsize + 1); fill(v, i); v[vsize] = 0x77; API(r = dh_insert(&H, k, v)); ki("ret", r); ki("over", v[vsize] != 0x77); free(v); tail(); if(!r) drop(o); }
    else if(!strcmp(c, "rem") || !strcmp(c, "take") || !strcmp(c, "look")) { long o; dhKey k = newkey(tok(), &o); unsigned char *v = malloc(vsize + 1); memset(v, 0xEE, vsize); v[vsize] = 0x77; long so = -1;
      ev(c); ks("k", name(k.data, k.length));
      if(kind != 2 && *c == 't') { dhIter it; dhKey q; void *w; dh_iter_init(&H, &it); while(dh_iter_next(&it, &q, &w)) if((kind == 1 ? eq_nocase : eq_str)(q, k, want_ctx)) so = objof(q); }
      API(r = *c == 'l' ? dh_lookup(&H, k, v) : dh_remove(&H, k, *c == 't' ? v : NULL)); ki("ret", r);
      int un = 1; for(size_t j = 0; j < vsize; j++) if(v[j] != 0xEE) un = 0;
      ki("i", r ? (*c == 'r' ? -2 : val(v)) : un ? -2 : -1); ki("over", v[vsize] != 0x77); free(v); drop(o); tail(); if(r && *c == 't') drop(so); }
    else if(!strcmp(c, "exists")) { long o; dhKey k = newkey(tok(), &o); ev(c); ks("k", name(k.data, k.length)); API(r = dh_exists(&H, k)); ki("ret", r); drop(o); tail(); }
    else if(!strcmp(c, "peek")) { long o; dhKey k = newkey(tok(), &o); void *v = (void *)1; ev(c); ks("k", name(k.data, k.length)); API(r = dh_lookup_in_place(&H, k, &v)); ki("ret", r); ki("i", r ? val(v) : v == NULL ? -2 : -1); drop(o); tail(); }
    else if(!strcmp(c, "poke")) { long o; dhKey k = newkey(tok(), &o); long i = num(); void *v; ev(c); ks("k", name(k.data, k.length)); API(r = dh_lookup_in_place(&H, k, &v)); if(r) fill(v, i); ki("ret", r); ki("i", i); drop(o); tail(); }
    else if(!strcmp(c, "iter")) { dhIter it; dhKey q; void *w; dh_iter_init(&H, &it); seen_n = 0; ev(c); fprintf(out, ",\"items\":["); while(dh_iter_next(&it, &q, &w)) item(q, w); r = dh_iter_next(&it, &q, &w) || dh_iter_next(&it, &q, &w); fputc(']', out); ki("again", r); tail(); }
    else if(!strcmp(c, "each")) { seen_stop = num(); seen_n = 0; ev(c); ki("stop", seen_stop); fprintf(out, ",\"items\":["); API(dh_foreach(&H, on_visit, want_ctx)); fputc(']', out); tail(); }
    else if(!strcmp(c, "reserve")) { long n = num(); ev(c); ki("n", n); API(r = dh_reserve_capacity(&H, n)); ki("ret", r); tail(); }
    else if(!strcmp(c, "growok")) { grow_allow = num(); ev(c); ki("n", grow_allow); tail(); }
    else if(!strcmp(c, "churn")) {  /* churn n keep first: n times remove the oldest of the last "keep" keys and insert a new one; integer keys */
      long n = num(), keep = num(), first = num(), ok = 0; ev(c); ki("n", n); ki("keep", keep); ki("first", first); unsigned char *v = malloc(vsize + 1);
      for(long i = 0; i < n; i++) { dhKey k = {(void *)(uintptr_t)(first + i), 4}; dhKey q = {(void *)(uintptr_t)(first + i - keep), 4}; size_t z = cbn; int a, b; if(i >= keep) { API(a = dh_remove(&H, q, NULL)); } else a = 1; cbn = z; fill(v, (first + i) % 1000); API(b = dh_insert(&H, k, v)); cbn = z; ok += a && b; }
      free(v); ki("ok", ok); tail(); }
    else if(!strcmp(c, "bulk")) {   /* bulk n first: insert n integer keys */
      long n = num(), first = num(), ok = 0; ev(c); ki("n", n); ki("first", first); unsigned char *v = malloc(vsize + 1);
      for(long i = 0; i < n; i++) { dhKey k = {(void *)(uintptr_t)(first + i), 4}; size_t z = cbn; int b; fill(v, (first + i) % 1000); API(b = dh_insert(&H, k, v)); cbn = z; ok += b; }
      free(v); ki("ok", ok); tail(); }
    else if(!strcmp(c, "checksum")) { /* every key of first..first+n-1 looked up */ long n = num(), first = num(), ok = 0; ev(c); ki("n", n); ki("first", first); unsigned char *v = malloc(vsize + 1);
      for(long i = 0; i < n; i++) { dhKey k = {(void *)(uintptr_t)(first + i), 4}; API(r = dh_lookup(&H, k, v)); if(r && val(v) == (first + i) % 1000) ok++; } free(v); ki("ok", ok); tail(); }
    else if(!strcmp(c, "free")) { ev(c); API(dh_free(&H)); live = 0; tail(); }
    else { fprintf(stderr, "unknown command %s\n", c); return 97; }
    alarm(0);
  }
  shut(); fprintf(out, "{\"op\":\"end\"}\n"); fflush(out); _exit(0);
}
