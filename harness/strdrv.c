/* Script interpreter over util/range_strings.h and bsd/string.h. Every buffer is a heap block of exactly the size in
   question, so that AddressSanitizer sees any access outside it. One JSON event per call: arguments, result, the bytes
   and the start of the free part afterwards. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <grp.h>
#include "evfs/util/range_strings.h"
#include "evfs/bsd/string.h"
static FILE *out; static char *buf; static size_t nbuf; static AppendRange R; static int nullbuf;
static void ev(const char *op) { fprintf(out, "{\"op\":\"%s\"", op); }
static void ki(const char *k, long v) { fprintf(out, ",\"%s\":%ld", k, v); }
static void kb(const char *k, const char *p, size_t n) { fprintf(out, ",\"%s\":[", k); for(size_t i = 0; i < n; i++) fprintf(out, "%s%d", i ? "," : "", (unsigned char)p[i]); fprintf(out, "]"); }
static void on_sig(int s) { fprintf(out, "{\"op\":\"HANG\"}\n"); fflush(out); _exit(0); }
static char *tok(void) { char *t = strtok(NULL, " \n"); return t ? t : ""; }
static long num(void) { return atol(tok()); }
/* xHEX -> heap block of the bytes, with a NUL if term */
static char *hexblk(const char *h, int term, size_t *n) { if(*h == 'x') h++; *n = strlen(h) / 2; char *p = malloc(*n + term); for(size_t i = 0; i < *n; i++) { unsigned b; sscanf(h + 2 * i, "%2x", &b); p[i] = (char)b; } if(term) p[*n] = 0; return p; }
static int vf(AppendRange *r, const char *fmt, ...) { va_list a; va_start(a, fmt); int x = range_cat_vfmt(r, fmt, a); va_end(a); return x; }
static void after(long r) { ki("r", r); kb("b", buf, nullbuf ? 0 : nbuf); ki("st", nullbuf ? 0 : R.start - buf); if(R.end != (nullbuf ? NULL : buf + nbuf)) ki("moved", 1); fprintf(out, "}\n"); }
int main(int argc, char **argv) {
  int ofd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC, 0644); if(ofd < 0) return 99; out = fdopen(ofd, "w");
  int uid = atoi(argv[3]); if(uid && getuid() == 0) { if(setgroups(0, NULL)) {} if(setgid(uid)) {} if(setuid(uid)) return 95; }
  signal(SIGALRM, on_sig); long watchdog = argc > 4 ? atol(argv[4]) : 20; char *line = NULL; size_t cap = 0;
  while(getline(&line, &cap, stdin) > 0) {
    char *c = strtok(line, " \n"); if(!c || *c == '#') continue; size_t n, m; char *t, *u;
    alarm(watchdog);
    #define IS(x) (!strcmp(c, x))
    if(IS("reset") || IS("init")) { free(buf); buf = NULL; nbuf = 0; ev(c); fprintf(out, "}\n"); }
    else if(IS("new")) { free(buf); buf = hexblk(tok(), 0, &nbuf); nullbuf = 0; range_init(&R, buf, nbuf); ev(c); after(0); }
    else if(IS("null")) { free(buf); buf = NULL; nbuf = 0; nullbuf = 1; R.start = R.end = NULL; ev("new"); after(0); }
    else if(IS("cats") || IS("catsn") || IS("fmt") || IS("vfmt") || IS("fmt2")) { t = hexblk(tok(), 1, &n); long r; ev(IS("fmt2") ? "fmt" : c); fflush(out);
      r = IS("cats") ? range_cat_str(&R, t) : IS("catsn") ? range_cat_str_no_nul(&R, t) : IS("fmt") ? range_cat_fmt(&R, "%s", t) : IS("fmt2") ? range_cat_fmt(&R, "%c%s", t[0], n ? t + 1 : t) : vf(&R, "%s", t);
      kb("t", t, n); free(t); after(r); }
    else if(IS("catr") || IS("catrn")) { t = hexblk(tok(), 0, &n); StringRange s = {t, t + n}; ev(c); fflush(out); long r = IS("catr") ? range_cat_range(&R, &s) : range_cat_range_no_nul(&R, &s); kb("t", t, n); if(s.start != t || s.end != t + n) ki("moved", 1); free(t); after(r); }
    else if(IS("catc") || IS("catcn")) { int ch = num(); ev(c); fflush(out); long r = IS("catc") ? range_cat_char(&R, ch) : range_cat_char_no_nul(&R, ch); ki("c", ch); after(r); }
    else if(IS("uint") || IS("int")) { char *d = tok(); ev(c); fflush(out); long r = IS("uint") ? range_cat_uint(&R, strtoul(d, NULL, 10)) : range_cat_int(&R, atoi(d)); kb("t", d, strlen(d)); long long v = atoll(d); if(v > -2147483647 && v < 2147483647) ki("n", v); after(r); }
    else if(IS("copy")) { int tr = num(); t = hexblk(tok(), 1, &n); ev(c); fflush(out); long r = range_copy_str(&R, t, tr); kb("t", t, n); ki("trunc", tr); free(t); after(r); }
    else if(IS("term")) { ev(c); fflush(out); range_terminate(&R); after(0); }
    else if(IS("setlen")) { long k = num(); ev(c); fflush(out); range_set_len((StringRange *)&R, k); ki("c", k); after(0); }
    else if(IS("pad")) { int ch = num(); ev(c); fflush(out); long r = range_pad_right((StringRange *)&R, ch); ki("c", ch); after(r); }
    else if(IS("len")) { ev(c); fflush(out); long r = range_strlen((StringRange *)&R); after(r); }
    else if(IS("strlcpy") || IS("strxcpy") || IS("strlcat")) { size_t sz = num(); char *h = tok(); size_t L = strlen(h) / 2; t = hexblk(h, !(IS("strxcpy") && sz && L + 1 >= sz), &n); if(sz > nbuf) sz = nbuf; ev(c); fflush(out);
      long r = IS("strlcpy") ? strlcpy(buf, t, sz) : IS("strxcpy") ? strxcpy(buf, t, sz) : strlcat(buf, t, sz); kb("t", t, n); ki("size", sz); free(t); after(r); }
    else if(IS("ltrim") || IS("rtrim") || IS("trim")) { t = hexblk(tok(), 0, &n); StringRange s = {t, t + n}; ev(c); fflush(out); if(IS("ltrim")) range_ltrim(&s); else if(IS("rtrim")) range_rtrim(&s); else range_trim(&s);
      kb("t", t, n); fprintf(out, ",\"r\":[%ld,%ld]}\n", (long)(s.start - t), (long)(s.end - t)); free(t); }
    else if(IS("eq")) { t = hexblk(tok(), 0, &n); u = hexblk(tok(), 1, &m); StringRange s = {t, t + n}; ev(c); fflush(out); int r = range_eq(&s, u); kb("t", t, n); kb("u", u, m); ki("r", r); fprintf(out, "}\n"); free(t); free(u); }
    else if(IS("eqr")) { t = hexblk(tok(), 0, &n); u = hexblk(tok(), 0, &m); StringRange s = {t, t + n}, q = {u, u + m}; ev(c); fflush(out); int r = range_eq_range(&s, &q); kb("t", t, n); kb("u", u, m); ki("r", r); fprintf(out, "}\n"); free(t); free(u); }
    else if(IS("isint")) { t = hexblk(tok(), 0, &n); StringRange s = {t, t + n}; ev(c); fflush(out); int r = range_is_int(&s); kb("t", t, n); ki("r", r); fprintf(out, "}\n"); free(t); }
    else if(IS("puts")) { t = hexblk(tok(), 0, &n); StringRange s = {t, t + n}; char *o = NULL; size_t on = 0; ev(c); fflush(out); FILE *f = open_memstream(&o, &on), *so = stdout; range_fputs(&s, f); fputc(0, f); stdout = f; range_puts(&s); stdout = so; fclose(f);
      size_t k = strlen(o); kb("t", t, n); kb("r", o, k == (on - 1) / 2 && (k == 0 || !memcmp(o, o + k + 1, k)) ? k : on); fprintf(out, "}\n"); free(o); free(t); }
    else if(IS("tok") || IS("tokl")) { int lim = IS("tokl"); size_t k = lim ? num() : 0; int tm = lim ? num() : 1; t = hexblk(tok(), tm, &n); u = hexblk(tok(), 1, &m); size_t left = k; ev(c); fflush(out); StringRange s = {NULL, NULL};
      kb("t", t, n); kb("u", u, m); ki("n", lim ? (long)k : (long)n); fprintf(out, ",\"r\":["); fflush(out); int j = 0; for(bool b = lim ? range_token_limit(t, u, &s, &left) : range_token(t, u, &s); b && j < 500; j++) {
        fprintf(out, "%s[%ld,%ld]", j ? "," : "", (long)(s.start - t), (long)(s.end - t)); b = lim ? range_token_limit(NULL, u, &s, &left) : range_token(NULL, u, &s); }
      fprintf(out, "]}\n"); free(t); free(u); }
    else { fprintf(stderr, "unknown command %s\n", c); return 97; }
    fflush(out); alarm(0);
  }
  fprintf(out, "{\"op\":\"end\"}\n"); fflush(out); _exit(0);
}
