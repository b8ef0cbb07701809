#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
/* Script interpreter over the public EVFS API. Reads commands on stdin, writes one JSON event per call to argv[1].
   argv[2] = scratch directory (chdir'ed to), argv[3] = uid to switch to (0: stay). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <grp.h>
#include "evfs.h"
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/util/glob.h"
#ifdef WITH_FAT
#include <ctype.h>
#define DIR FF_DIR
#include "ff.h"
#undef DIR
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
#endif
#include "memvfs.h"

/* ---------- allocation accounting and failure (linked with --wrap) ---------- */
int in_api; long live_allocs; long malloc_fail_at, malloc_count; int malloc_failed;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define MAXLIVE 65536
static void *s_live[MAXLIVE];
static void live_add(void *p) { if(!p) return; size_t h = ((uintptr_t)p >> 4) % MAXLIVE; for(size_t i = 0; i < MAXLIVE; i++) { size_t k = (h + i) % MAXLIVE; if(!s_live[k] || s_live[k] == (void *)1) { s_live[k] = p; live_allocs++; return; } } }
static void live_del(void *p) { if(!p) return; size_t h = ((uintptr_t)p >> 4) % MAXLIVE; for(size_t i = 0; i < MAXLIVE; i++) { size_t k = (h + i) % MAXLIVE; if(!s_live[k]) return; if(s_live[k] == p) { s_live[k] = (void *)1; live_allocs--; return; } } }
static int deny(void) { if(!in_api || !malloc_fail_at) return 0; if(++malloc_count == malloc_fail_at) { malloc_failed = 1; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if(deny()) return NULL; void *p = __real_malloc(n); if(in_api) live_add(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { if(deny()) return NULL; void *p = __real_calloc(a, b); if(in_api) live_add(p); return p; }
void *__wrap_realloc(void *q, size_t n) { if(in_api && deny()) return NULL; void *p = __real_realloc(q, n); if(in_api && p) { live_del(q); live_add(p); } return p; }
void __wrap_free(void *p) { live_del(p); __real_free(p); }

/* ---------- output ---------- */
static FILE *out; static char scratch[512]; static size_t scratch_len; static int want_b;
static int first;
static void ev(const char *op) { fprintf(out, "{\"op\":\"%s\"", op); }
static void ki(const char *k, long v) { fprintf(out, ",\"%s\":%ld", k, v); }
static void ks(const char *k, const char *v) { fprintf(out, ",\"%s\":\"%s\"", k, v); }
static void seq(const unsigned char *d, size_t n) { fputc('[', out); for(size_t i = 0; i < n; i++) fprintf(out, i ? ",%u" : "%u", d[i]); fputc(']', out); }
static void kb(const char *k, const void *d, size_t n) { fprintf(out, ",\"%s\":", k); seq(d, n); }
/* path with the scratch prefix removed */
static void kp(const char *k, const char *p) { if(scratch_len && !strncmp(p, scratch, scratch_len) && (p[scratch_len] == '/' || !p[scratch_len])) { p += scratch_len; if(!*p) p = "/"; } kb(k, p, strlen(p)); }
#ifdef WITH_CONC
static void conc_stamp(void); static int par;
#endif
static void cls(long r) { ki("ret", r); ks("cls", r < 0 ? "err" : r == EVFS_DONE ? "done" : "ok"); }
/* a modification time: none, about now, anything else */
static int mtclass(time_t t) { time_t n = time(NULL); return t == 0 ? 0 : t >= n - 86400 && t <= n + 86400 ? 1 : 2; }
static void fin(void) {
  if(want_b) { fprintf(out, ",\"b\":[%s]", mem_log_len ? mem_log : ""); }
  mem_log_len = 0;
  if(mem_fault_kind) ki("fh", mem_fault_hits);
#ifdef WITH_CONC
  conc_stamp();
#endif
  fprintf(out, "}\n"); fflush(out);
}

/* ---------- arguments ---------- */
static char *tok(void) { char *t = strtok(NULL, " \n"); if(!t) { fprintf(stderr, "missing arg\n"); exit(97); } return t; }
static long num(void) { return strtol(tok(), NULL, 10); }
static unsigned char *hexarg(size_t *len) {           /* x<hex>; '@' prefix = scratch; 'N' = NULL */
  char *t = tok(); if(*t == 'N') { if(len) *len = 0; return NULL; }
  size_t pre = 0; if(*t == '@') { pre = scratch_len; }
  t++; size_t n = strlen(t) / 2; unsigned char *d = malloc(pre + n + 1); memcpy(d, scratch, pre);
  for(size_t i = 0; i < n; i++) { unsigned v; sscanf(t + 2*i, "%2x", &v); d[pre + i] = v; }
  d[pre + n] = 0; if(len) *len = pre + n; return d;
}
#define STR() ((char *)hexarg(NULL))
static const char *vfsname(void) { char *t = tok(); return !strcmp(t, "-") ? NULL : t; }

#define NH 64
static EvfsFile *H[NH]; static EvfsDir *D[NH];
#define API(x) do { in_api = 1; x; in_api = 0; } while(0)

/* ---------- trace shim report sink ---------- */
static long n_reports; static char last_report[256];
static int report(const char *buf, void *ctx) { (void)ctx; int s = in_api; in_api = 0; static int aux; if(strstr(buf, "path_root_component")) aux = 1; if(strchr(buf, '\n')) { if(!aux) n_reports++; aux = 0; } snprintf(last_report, sizeof last_report, "%s", buf); in_api = s; return 0; }

/* ---------- resources (tar/romfs images in memory) ---------- */
#define NR 16
static unsigned char *R[NR]; static int nR;

/* ---------- tree dumps ---------- */
static void segs(const char *p) { fputc('[', out); int n = 0; while(*p) { p += strspn(p, "/"); size_t l = strcspn(p, "/"); if(!l) break; if(n++) fputc(',', out); seq((const unsigned char *)p, l); p += l; } fputc(']', out); }
static void entry(const char *rel, int dir, const unsigned char *d, size_t n) { fprintf(out, first ? "{\"p\":" : ",{\"p\":"); first = 0; segs(rel); fprintf(out, ",\"d\":%s,\"c\":", dir ? "true" : "false"); seq(d, n); fputc('}', out); }
static void walk(const char *base, const char *rel) {
  char p[1400]; snprintf(p, sizeof p, "%s%s", base, rel);
  DIR *dp = opendir(p); if(!dp) return; struct dirent *e;
  while((e = readdir(dp))) {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char r[1300]; snprintf(r, sizeof r, "%s/%s", rel, e->d_name); snprintf(p, sizeof p, "%s%s", base, r);
    struct stat s; if(lstat(p, &s)) continue;
    if(S_ISDIR(s.st_mode)) { entry(r, 1, NULL, 0); walk(base, r); }
    else { FILE *f = fopen(p, "rb"); unsigned char *b = malloc(s.st_size + 1); size_t n = f ? fread(b, 1, s.st_size, f) : 0; if(f) fclose(f); entry(r, 0, b, n); free(b); }
  }
  closedir(dp);
}
static void rmtree(const char *p) {          /* only ever called on the scratch directory's children */
  DIR *dp = opendir(p); if(!dp) return; struct dirent *e;
  while((e = readdir(dp))) {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char q[1400]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); struct stat s; if(lstat(q, &s)) continue;
    if(S_ISDIR(s.st_mode)) { rmtree(q); rmdir(q); } else unlink(q);
  }
  closedir(dp);
}
static void memdump(MemInst *m) { fprintf(out, ",\"tree\":["); first = 1; if(m) for(int i = 0; i < MEM_NODES; i++) if(m->n[i].used == 1) entry(m->n[i].path, m->n[i].dir, m->n[i].data, m->n[i].len); fputc(']', out); }

#ifdef WITH_FAT
/* ---------- FAT volumes: which image is on which drive, and its tree as FatFs itself shows it ---------- */
static char fat_img[FF_VOLUMES][24];
static long fat_cs[FF_VOLUMES], fat_tot[FF_VOLUMES];
static void fatwalk(int drv, const char *rel) {
  char p[1400]; FF_DIR d; FILINFO i; snprintf(p, sizeof p, "%d:/%s", drv, rel);
  if(f_opendir(&d, p) != FR_OK) return;
  while(f_readdir(&d, &i) == FR_OK && i.fname[0]) {
    char r[1300]; snprintf(r, sizeof r, "%s/%s", rel, i.fname);
    if(i.fattrib & AM_DIR) { entry(r, 1, NULL, 0); if(strlen(r) < 1000) fatwalk(drv, r); }
    else { FIL f; UINT n = 0; unsigned char *b = malloc(i.fsize + 1); snprintf(p, sizeof p, "%d:/%s", drv, r); if(f_open(&f, p, FA_READ) == FR_OK) { f_read(&f, b, i.fsize, &n); f_close(&f); } entry(r, 0, b, n); free(b); }
  }
  f_closedir(&d);
}
static int fat_vol(const char *img) { for(int i = 0; i < FF_VOLUMES; i++) if(fat_img[i][0] && !strcmp(fat_img[i], img)) return i; return -1; }
static void fatdump(int drv) { fprintf(out, ",\"tree\":["); first = 1; fatwalk(drv, ""); fputc(']', out); }
#endif

static void reset_all(void) {
  mem_fault_kind = MK_NONE; malloc_fail_at = 0;
  for(int i = 0; i < NH; i++) { if(H[i]) { API(evfs_file_close(H[i])); H[i] = NULL; } if(D[i]) { API(evfs_dir_close(D[i])); D[i] = NULL; } }
#ifdef WITH_FAT
  for(int i = 0; i < FF_VOLUMES; i++) if(fat_img[i][0]) { API(fatfs_unmount_image(i)); fat_img[i][0] = 0; }
  f_chdrive("0:");
#endif
  unsigned z = 0; if(evfs_find_vfs("stdio")) { evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &z, "stdio"); evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &z, "stdio"); }
  API(evfs_unregister_all());
  for(int i = 0; i < nR; i++) free(R[i]); nR = 0;
  mem_wipe_all(); want_b = 0;
  if(scratch_len) { rmtree(scratch); if(chdir(scratch)) exit(98); }
}

static long nfds(void) { DIR *d = opendir("/proc/self/fd"); long n = 0; if(!d) return 0; while(readdir(d)) n++; closedir(d); return n; }
static long nfd0;

/* a file system that offers nothing it does not have to */
static int bare_open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) { (void)vfs; (void)path; (void)fh; (void)flags; return EVFS_ERR_NO_FILE; }
static int bare_stat(Evfs *vfs, const char *path, EvfsInfo *info) { (void)vfs; (void)path; (void)info; return EVFS_ERR_NO_FILE; }
static Evfs *bare_new(const char *name) { static Evfs b[4]; static char nm[4][16]; static int i; i = (i + 1) % 4; memset(&b[i], 0, sizeof b[i]); snprintf(nm[i], 16, "%s", name); b[i].vfs_name = nm[i]; b[i].vfs_file_size = sizeof(EvfsFile); b[i].vfs_dir_size = sizeof(EvfsDir); b[i].m_open = bare_open; b[i].m_stat = bare_stat; return &b[i]; }

static void on_sig(int s) { (void)s; static const char m[] = "{\"op\":\"HANG\"}\n"; if(write(fileno(out), m, sizeof m - 1) < 0) {} _exit(96); }

static void do_open(const char *op, const char *v, const char *p, int fl, int h) {
  EvfsFile *f = (EvfsFile *)0x10; int r; int rawnull = 0; long before = live_allocs;
  API(r = evfs_open_ex(p, &f, fl, v)); rawnull = f == NULL;
  H[h] = r == EVFS_OK ? f : NULL;
  ev(op); ki("h", h); ks("v", v ? v : "-"); kp("p", p ? p : ""); ki("fl", fl); cls(r); ki("null", rawnull); ki("leak", live_allocs - before); fin();
}

/* "crash" support: the API call is abandoned by longjmp from the base file system */
#define GUARD(stmt) do { if(mem_fault_kind == MK_CRASH) { mem_crash_armed = 1; if(setjmp(mem_crash_jmp)) { in_api = 0; mem_crash_armed = 0; crashed = 1; } else { stmt; } mem_crash_armed = 0; } else { stmt; } } while(0)
static volatile int crashed, dead;

static volatile long r; static void *volatile vp;

static long watchdog; static int skip;
#ifdef WITH_CONC
static int conc_line(char *line);
static void conc_go(void);
#endif

/* one command */
static int run_line(char *line) {
#ifdef WITH_CONC
    if(conc_line(line)) return 0;
#endif
    char *c = strtok(line, " \n"); if(!c || *c == '#') return 0;
    alarm(watchdog); if(crashed) dead = 1; crashed = 0;
    if(dead && strcmp(c, "reset") && strcmp(c, "abandon")) return 0;   // the process has stopped
    if(skip && strcmp(c, "reset")) return 0;
    skip = 0;
    dead = 0;
    if(!strcmp(c, "init")) { API(evfs_init()); ev(c); fin(); }
    else if(!strcmp(c, "reset")) { reset_all(); nfd0 = nfds(); ev(c); ki("live", live_allocs); fin(); live_allocs = 0; memset(s_live, 0, sizeof s_live); }
    else if(!strcmp(c, "blog")) { mem_log_on = want_b = num(); mem_log_len = 0; }
    else if(!strcmp(c, "note")) { char *k = tok(); ev("note"); ks("k", k); ki("n", num()); fin(); }
    else if(!strcmp(c, "raw")) { fputs(tok(), out); fputc('\n', out); fflush(out); }   /* literal event (constants for the spec) */
    /* --- registration --- */
    else if(!strcmp(c, "reg_mem")) { char *v = tok(); int d = num(); API(r = mem_register(v, d)); ev("reg"); ks("k", "mem"); ks("v", v); ki("d", d); cls(r); fin(); }
    else if(!strcmp(c, "reg_stdio")) { int d = num(); API(r = evfs_register_stdio(d)); ev("reg"); ks("k", "stdio"); ks("v", "stdio"); ki("d", d); cls(r); fin(); }
    else if(!strcmp(c, "reg_jail")) { char *v = tok(); char *b = tok(); char *root = STR(); int d = num(); long be = live_allocs; API(r = evfs_register_jail(v, b, root, d)); ev("reg"); ks("k", "jail"); ks("v", v); ks("base", b); kp("root", root); ki("d", d); cls(r); ki("leak", live_allocs - be); fin(); free(root); }
    else if(!strcmp(c, "reg_trace")) { char *v = tok(); char *b = tok(); int d = num(); long be = live_allocs; API(r = evfs_register_trace(v, b, report, NULL, d)); ev("reg"); ks("k", "trace"); ks("v", v); ks("base", b); ki("d", d); cls(r); ki("leak", live_allocs - be); fin(); }
    else if(!strcmp(c, "reg_rotate")) { char *v = tok(); char *b = tok(); RotateConfig cfg; memset(&cfg, 0, sizeof cfg); cfg.max_chunks = num(); cfg.chunk_size = num(); int d = num(); long be = live_allocs; API(r = evfs_register_rotate(v, b, &cfg, d)); ev("reg"); ks("k", "rotate"); ks("v", v); ks("base", b); ki("mc", cfg.max_chunks); ki("cs", cfg.chunk_size); ki("d", d); cls(r); ki("leak", live_allocs - be); fin(); }
    else if(!strcmp(c, "rotcfg")) { const char *v = vfsname(); RotateConfig cfg; memset(&cfg, 0, sizeof cfg); cfg.max_chunks = num(); cfg.chunk_size = num(); API(r = evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &cfg, v)); ev(c); ks("v", v ? v : "-"); ki("mc", cfg.max_chunks); ki("cs", cfg.chunk_size); cls(r); fin(); }
    else if(!strcmp(c, "reg_img")) { /* kind name basevfs path default : tar/romfs on an image file of another VFS */
      char *k = tok(); char *v = tok(); char *b = tok(); char *p = STR(); int d = num(); EvfsFile *f = NULL; long be = live_allocs;
      API(r = evfs_open_ex(p, &f, EVFS_READ, b));
      if(r == EVFS_OK) { if(!strcmp(k, "tar")) API(r = evfs_register_tar_fs(v, f, d)); else API(r = evfs_register_romfs(v, f, d)); if(r != EVFS_OK) API(evfs_file_close(f)); }
      ev("reg"); ks("k", k); ks("v", v); ks("base", b); ki("d", d); cls(r); ki("leak", live_allocs - be); fin(); free(p); }
    else if(!strcmp(c, "reg_rsrc")) { char *k = tok(); char *v = tok(); size_t n; unsigned char *d = hexarg(&n); int df = num(); unsigned char *e = malloc(n ? n : 1); memcpy(e, d, n); free(d); R[nR++] = e; long be = live_allocs;
      if(!strcmp(k, "tar")) API(r = evfs_register_tar_rsrc_fs(v, e, n, df)); else API(r = evfs_register_rsrc_romfs(v, e, n, df));
      ev("reg"); ks("k", k); ks("v", v); ki("d", df); cls(r); ki("leak", live_allocs - be); fin(); }
    else if(!strcmp(c, "unreg")) { char *v = tok(); Evfs *x = evfs_find_vfs(v); MemInst *m = mem_find(v); if(!x && m) x = &m->vfs; API(r = evfs_unregister(x)); ev(c); ks("v", v); ki("isnull", x == NULL); cls(r); fin(); }
    else if(!strcmp(c, "need")) { char *v = tok(); skip = !evfs_find_vfs(v); }   /* the rest of the script is about v */
    else if(!strcmp(c, "unregif")) { char *v = tok(); Evfs *x = evfs_find_vfs(v); if(x) { API(r = evfs_unregister(x)); ev("unreg"); ks("v", v); ki("isnull", 0); cls(r); fin(); } }
    else if(!strcmp(c, "unregall")) { API(evfs_unregister_all()); ev(c); fin(); }
    else if(!strcmp(c, "findvfs")) { char *v = tok(); Evfs *x; API(x = evfs_find_vfs(v)); ev(c); ks("v", v); 
#ifdef WITH_CONC
      if(par) ks("found", x ? v : ""); else   /* another thread may be unregistering it */
#endif
      ks("found", x ? evfs_vfs_name(x) : ""); fin(); }
    else if(!strcmp(c, "dfltname")) { const char *n; API(n = evfs_default_vfs_name()); ev(c); ks("name", n ? n : "?"); fin(); }
    /* --- base content set up behind the library's back --- */
    else if(!strcmp(c, "mput")) { char *v = tok(); char *p = STR(); int dir = num(); size_t n; unsigned char *d = hexarg(&n); mem_put(mem_find(v), p, dir, d, n); ev("put"); ks("v", v); kp("p", p); ki("dir", dir); kb("c", d, n); fin(); free(p); free(d); }
    else if(!strcmp(c, "memmax")) { mem_max_file = num(); }
    else if(!strcmp(c, "membuf")) { char *v = tok(); MemInst *m = mem_find(v); m->buffered = num(); ev("note"); ks("k", c); ki("n", m->buffered); fin(); }
    else if(!strcmp(c, "hput")) { char *p = STR(); int dir = num(); size_t n; unsigned char *d = hexarg(&n); if(dir) { if(mkdir(p, 0755)) {} } else { FILE *f = fopen(p, "wb"); if(f) { fwrite(d, 1, n, f); fclose(f); } } ev("put"); ks("v", "stdio"); kp("p", p); ki("dir", dir); kb("c", d, n); fin(); free(p); free(d); }
    else if(!strcmp(c, "hget")) { char *p = STR(); FILE *f = fopen(p, "rb"); long n = -1; unsigned char *d = NULL; if(f) { fseek(f, 0, SEEK_END); n = ftell(f); rewind(f); d = malloc(n + 1); if(fread(d, 1, n, f)) {} fclose(f); } ev(c); kp("p", p); ki("n", n); kb("c", d, n > 0 ? n : 0); fin(); free(p); free(d); }
    else if(!strcmp(c, "dump")) { char *v = tok(); ev(c); ks("v", v); if(!strcmp(v, "stdio")) { fprintf(out, ",\"tree\":["); first = 1; walk(scratch, ""); fputc(']', out); }
#ifdef WITH_FAT
      else if(fat_vol(v) >= 0) fatdump(fat_vol(v));
#endif
      else { memdump(mem_find(v)); } fin(); }
    else if(!strcmp(c, "mstat")) { char *v = tok(); MemInst *m = mem_find(v); ev(c); ks("v", v); if(!strcmp(v, "stdio")) { ki("of", nfds() - nfd0); ki("od", 0); } else { ki("of", m ? m->open_files : 0); ki("od", m ? m->open_dirs : 0); } ki("live", live_allocs); fin(); }
    else if(!strcmp(c, "reg_bared")) { char *v = tok(); int d = num(); API(r = evfs_register(bare_new(v), d)); ev("reg"); ks("k", "bare"); ks("v", v); ki("d", d); cls(r); fin(); }
    else if(!strcmp(c, "reg_bare")) { char *v = tok(); API(r = evfs_register(bare_new(v), 0)); ev("reg"); ks("k", "bare"); ks("v", v); cls(r); fin(); }
    /* --- faults --- */
    else if(!strcmp(c, "fault")) { mem_fault_at = num(); mem_fault_count = num(); mem_fault_kind = num(); mem_fault_mask = num(); mem_ops = 0; mem_fault_hits = 0; ev(c); ki("at", mem_fault_at); ki("n", mem_fault_count); ki("kind", mem_fault_kind); fin(); }
    else if(!strcmp(c, "nofault")) { long k = mem_ops; mem_fault_kind = MK_NONE; ev(c); ki("ops", k); ki("hits", mem_fault_hits); fin(); }
    else if(!strcmp(c, "mfail")) { malloc_fail_at = num(); malloc_count = 0; malloc_failed = 0; ev(c); ki("at", malloc_fail_at); fin(); }
    else if(!strcmp(c, "nomfail")) { malloc_fail_at = 0; ev(c); ki("count", malloc_count); ki("hit", malloc_failed); fin(); }
    else if(!strcmp(c, "abandon")) { /* after a crash: forget all library objects, keep base contents */
      mem_fault_kind = MK_NONE; memset(H, 0, sizeof H); memset(D, 0, sizeof D); API(evfs_unregister_all()); for(int i = 0; i < 4; i++) {} ev(c); fin(); }
    /* --- files --- */
    else if(!strcmp(c, "open")) { int h = num(); const char *v = vfsname(); char *p = STR(); int fl = num(); GUARD(do_open("open", v, p, fl, h)); if(crashed) { ev("open"); ki("h", h); ks("v", v ? v : "-"); kp("p", p ? p : ""); ki("fl", fl); ki("ret", 0); ks("cls", "crash"); fin(); } free(p); }
    else if(!strcmp(c, "close")) { int h = num(); GUARD(API(r = evfs_file_close(H[h]))); H[h] = NULL; ev(c); ki("h", h); if(crashed) { ki("ret", 0); ks("cls", "crash"); } else cls(r); fin(); }
    else if(!strcmp(c, "read")) { int h = num(); long n = num(); unsigned char *b = malloc(n ? n : 1); memset(b, 0xEE, n ? n : 1); r = 0; GUARD(API(r = evfs_file_read(H[h], b, n))); ev(c); ki("h", h); ki("n", n); ki("ret", r); ks("cls", crashed ? "crash" : r < 0 ? "err" : "ok"); kb("c", b, r > 0 && r <= n && !crashed ? r : 0); fin(); free(b); }
    else if(!strcmp(c, "write")) { int h = num(); size_t n; unsigned char *b0 = hexarg(&n); unsigned char *b = malloc(n ? n : 1); memcpy(b, b0, n); free(b0); r = 0; GUARD(API(r = evfs_file_write(H[h], b, n))); ev(c); ki("h", h); kb("c", b, n); ki("ret", r); ks("cls", crashed ? "crash" : r < 0 ? "err" : "ok"); fin(); free(b); }
    else if(!strcmp(c, "trunc")) { int h = num(); long n = num(); GUARD(API(r = evfs_file_truncate(H[h], n))); ev(c); ki("h", h); ki("n", n); if(crashed) { ki("ret", 0); ks("cls", "crash"); } else cls(r); fin(); }
    else if(!strcmp(c, "sync")) { int h = num(); GUARD(API(r = evfs_file_sync(H[h]))); ev(c); ki("h", h); if(crashed) { ki("ret", 0); ks("cls", "crash"); } else cls(r); fin(); }
    else if(!strcmp(c, "size")) { int h = num(); r = 0; GUARD(API(r = evfs_file_size(H[h]))); ev(c); ki("h", h); ki("ret", r); ks("cls", crashed ? "crash" : "ok"); fin(); }
    else if(!strcmp(c, "seek")) { int h = num(); long o = num(); int org = num(); GUARD(API(r = evfs_file_seek(H[h], o, org))); ev(c); ki("h", h); ki("o", o); ki("org", org); if(crashed) { ki("ret", 0); ks("cls", "crash"); } else cls(r); fin(); }
    else if(!strcmp(c, "tell")) { int h = num(); API(r = evfs_file_tell(H[h])); ev(c); ki("h", h); ki("ret", r); fin(); }
    else if(!strcmp(c, "eof")) { int h = num(); API(r = evfs_file_eof(H[h])); ev(c); ki("h", h); ki("ret", r != 0); fin(); }
    else if(!strcmp(c, "puts")) { int h = num(); char *s = STR(); API(r = evfs_file_puts(H[h], s)); ev("write"); ki("h", h); kb("c", s, strlen(s)); ki("ret", r); ks("cls", r < 0 ? "err" : "ok"); fin(); free(s); }
    else if(!strcmp(c, "printf")) { int h = num(); char *s = STR(); int n = num(); char *want = NULL; if(asprintf(&want, "<%s|%d|%5.3d%%>", s, n, n) < 0) abort(); API(r = evfs_file_printf(H[h], "<%s|%d|%5.3d%%>", s, n, n)); ev("write"); ki("h", h); kb("c", want, strlen(want)); ki("ret", r); ks("cls", r < 0 ? "err" : "ok"); fin(); free(s); free(want); }
    else if(!strcmp(c, "trim")) { int h = num(); evfs_off_t n = num(); GUARD(API(r = evfs_file_ctrl(H[h], EVFS_CMD_SET_ROTATE_TRIM, &n))); ev(c); ki("h", h); ki("n", n); ki("ret", crashed ? 0 : r); ks("cls", crashed ? "crash" : r < 0 ? "err" : "ok"); fin(); }
    else if(!strcmp(c, "rsrc")) { int h = num(); long n = num(); uint8_t *a = NULL; if(n < 0 && H[h]) n = evfs_file_size(H[h]); if(n < 0) n = 0; API(r = evfs_file_ctrl(H[h], EVFS_CMD_GET_RSRC_ADDR, &a)); ev(c); ki("h", h); ki("n", n); cls(r); kb("c", a, r == EVFS_OK && a ? n : 0); fin(); }
    else if(!strcmp(c, "fctl")) { int h = num(); int cmd = num(); API(r = evfs_file_ctrl(H[h], cmd, NULL)); ev(c); ki("h", h); ki("cmd", cmd); cls(r); fin(); }
    /* --- names --- */
    else if(!strcmp(c, "stat")) { const char *v = vfsname(); char *p = STR(); EvfsInfo i; memset(&i, 0x5A, sizeof i); API(r = evfs_stat_ex(p, &i, v)); ev(c); ks("v", v ? v : "-"); kp("p", p); cls(r); ki("size", r == EVFS_OK ? i.size : -1); ki("type", r == EVFS_OK ? i.type : -1); if(r == EVFS_OK) { ki("mt", mtclass(i.mtime)); ki("named", i.name != NULL); } fin(); free(p); }
    else if(!strcmp(c, "exf")) { const char *v = vfsname(); char *p = STR(); API(r = evfs_existing_file_ex(p, v)); ev(c); ks("v", v ? v : "-"); kp("p", p); ki("ret", r != 0); fin(); free(p); }
    else if(!strcmp(c, "exd")) { const char *v = vfsname(); char *p = STR(); API(r = evfs_existing_dir_ex(p, v)); ev(c); ks("v", v ? v : "-"); kp("p", p); ki("ret", r != 0); fin(); free(p); }
    else if(!strcmp(c, "del")) { const char *v = vfsname(); char *p = STR(); GUARD(API(r = evfs_delete_ex(p, v))); ev(c); ks("v", v ? v : "-"); kp("p", p); if(crashed) { ki("ret", 0); ks("cls", "crash"); } else cls(r); fin(); free(p); }
    else if(!strcmp(c, "ren")) { const char *v = vfsname(); char *p = STR(); char *q = STR(); GUARD(API(r = evfs_rename_ex(p, q, v))); ev(c); ks("v", v ? v : "-"); kp("p", p); kp("q", q); if(crashed) { ki("ret", 0); ks("cls", "crash"); } else cls(r); fin(); free(p); free(q); }
    else if(!strcmp(c, "mkdir")) { const char *v = vfsname(); char *p = STR(); API(r = evfs_make_dir_ex(p, v)); ev(c); ks("v", v ? v : "-"); kp("p", p); cls(r); fin(); free(p); }
    else if(!strcmp(c, "mkpath")) { const char *v = vfsname(); char *p = STR(); long be = live_allocs; API(r = evfs_make_path_ex(p, v)); ev(c); ks("v", v ? v : "-"); kp("p", p); cls(r); ki("leak", live_allocs - be); fin(); free(p); }
    else if(!strcmp(c, "mkpathr")) { /* range form: the directory part of the given path */
      const char *v = vfsname(); char *p = STR(); StringRange h; evfs_path_dirname_ex(p, &h, v); char *q = strndup(h.start, range_size(&h)); long be = live_allocs; API(r = evfs_make_path_range_ex(&h, v)); ev("mkpath"); ks("v", v ? v : "-"); kp("p", q); cls(r); ki("leak", live_allocs - be); fin(); free(p); free(q); }
    else if(!strcmp(c, "getcwd")) { const char *v = vfsname(); long n = num(); long pad = scratch_len && v && !strcmp(v, "stdio") ? (long)scratch_len : 0; char *b = malloc(n + pad + 1); memset(b, 0x7F, n + pad + 1); StringRange g; range_init(&g, b, n + pad); API(r = evfs_get_cur_dir_ex(&g, v)); ev(c); ks("v", v ? v : "-"); ki("n", n); cls(r); char *e = memchr(b, 0, n + pad); char *t = strndup(b, n + pad); kp("p", r == EVFS_OK ? t : ""); ki("term", e != NULL); ki("guard", b[n + pad] == 0x7F); fin(); free(t); free(b); }
    else if(!strcmp(c, "setcwd")) { const char *v = vfsname(); char *p = STR(); API(r = evfs_set_cur_dir_ex(p, v)); ev(c); ks("v", v ? v : "-"); kp("p", p); cls(r); fin(); free(p); }
    else if(!strcmp(c, "vctl")) { const char *v = vfsname(); int cmd = num(); unsigned val = num(), in = val; API(r = evfs_vfs_ctrl_ex(cmd, &val, v)); ev(c); ks("v", v ? v : "-"); ki("cmd", cmd); ki("val", in); cls(r); if(cmd == EVFS_CMD_GET_STAT_FIELDS || cmd == EVFS_CMD_GET_DIR_FIELDS) ki("out", val); fin(); }
    /* --- directories --- */
    else if(!strcmp(c, "opend")) { int d = num(); const char *v = vfsname(); char *p = STR(); EvfsDir *x = (EvfsDir *)0x10; long be = live_allocs; API(r = evfs_open_dir_ex(p, &x, v)); D[d] = r == EVFS_OK ? x : NULL; ev(c); ki("d", d); ks("v", v ? v : "-"); kp("p", p); cls(r); ki("null", x == NULL); ki("leak", live_allocs - be); fin(); free(p); }
    else if(!strcmp(c, "rdd") || !strcmp(c, "find")) { int d = num(); char *pat = !strcmp(c, "find") ? STR() : NULL; EvfsInfo i; memset(&i, 0x5A, sizeof i); if(pat) API(r = evfs_dir_find(D[d], pat, &i)); else API(r = evfs_dir_read(D[d], &i)); ev(c); ki("d", d); if(pat) kb("pat", pat, strlen(pat)); cls(r); if(r == EVFS_OK) { kb("name", i.name, strlen(i.name)); ki("type", i.type); ki("size", i.size); ki("mt", mtclass(i.mtime)); } else { kb("name", "", 0); ki("type", -1); ki("size", -1); } fin(); free(pat); }
    else if(!strcmp(c, "rwd")) { int d = num(); API(r = evfs_dir_rewind(D[d])); ev(c); ki("d", d); cls(r); fin(); }
    else if(!strcmp(c, "closed")) { int d = num(); API(r = evfs_dir_close(D[d])); D[d] = NULL; ev(c); ki("d", d); cls(r); fin(); }
    /* --- paths: output ranges sit between guard bytes; ip = the output buffer is the input buffer --- */
    else if(!strcmp(c, "norm") || !strcmp(c, "abs")) { const char *v = vfsname(); char *p = STR(); long cap = num(); int ip = num(); size_t pl = strlen(p);
      char *b = malloc(cap + 64); memset(b, 0x7F, cap + 64); char *o = b + 32; if(ip) memcpy(o, p, pl + 1);   /* ip only used when the path fits */
      StringRange g; range_init(&g, o, cap); const char *in = ip ? o : p; int n = !strcmp(c, "norm");
      API(r = n ? evfs_path_normalize_ex(in, &g, v) : evfs_path_absolute_ex(in, &g, v));
      int gd = 1; for(int i = 0; i < 32; i++) if(b[i] != 0x7F || o[cap + i] != 0x7F) gd = 0;
      char *e = memchr(o, 0, cap);
      ev(c); ks("v", v ? v : "-"); kb("p", p, pl); ki("cap", cap); ki("ip", ip); cls(r); kb("out", o, r == EVFS_OK ? (e ? e - o : cap) : 0); ki("term", e != NULL); ki("guard", gd); fin(); free(b); free(p); }
    else if(!strcmp(c, "join")) { const char *v = vfsname(); char *p = STR(); char *q = STR(); long cap = num(); int rng = num();
      char *b = malloc(cap + 64); memset(b, 0x7F, cap + 64); char *o = b + 32; StringRange g, hr, tr; range_init(&g, o, cap); range_init(&hr, p, strlen(p) + (rng == 2)); range_init(&tr, q, strlen(q) + (rng == 2));
      API(r = rng ? evfs_path_join_ex(&hr, &tr, &g, v) : evfs_path_join_str_ex(p, q, &g, v));
      int gd = 1; for(int i = 0; i < 32; i++) if(b[i] != 0x7F || o[cap + i] != 0x7F) gd = 0;
      char *e = memchr(o, 0, cap);
      ev(c); ks("v", v ? v : "-"); kb("p", p, strlen(p)); kb("q", q, strlen(q)); ki("cap", cap); cls(r); kb("out", o, r == EVFS_OK ? (e ? e - o : cap) : 0); ki("term", e != NULL); ki("guard", gd); fin(); free(b); free(p); free(q); }
    else if(!strcmp(c, "split")) { const char *v = vfsname(); char *p = STR(); StringRange g; long o; size_t pl = strlen(p); (void)o;
      ev(c); ks("v", v ? v : "-"); kb("p", p, pl);
      memset(&g, 0, sizeof g); API(r = evfs_path_basename(p, &g)); ki("rb", r); ki("bo", g.start - p); kb("base", g.start, range_size(&g));
      memset(&g, 0, sizeof g); API(r = evfs_path_dirname_ex(p, &g, v)); ki("rd", r); ki("do", g.start - p); kb("dir", g.start, range_size(&g));
      memset(&g, 0, sizeof g); API(r = evfs_path_extname(p, &g)); ki("rx", r); kb("ext", g.start, range_size(&g));
      API(r = evfs_path_is_absolute_ex(p, v)); ki("abs", r != 0);
      memset(&g, 0, sizeof g); API(r = evfs_path_root_component_ex(p, &g, v)); ki("rabs", r != 0); kb("root", g.start, range_size(&g));
      Evfs *x = evfs_find_vfs(v ? v : evfs_default_vfs_name()); fprintf(out, ",\"scan\":["); int n = 0;
      API(r = evfs_vfs_scan_path(x, p, &g)); while(r == EVFS_OK) { if(n++) fputc(',', out); seq((const unsigned char *)g.start, range_size(&g)); API(r = evfs_vfs_scan_path(x, NULL, &g)); }
      fputc(']', out); fin(); free(p); }
    else if(!strcmp(c, "mcwd")) { char *v = tok(); char *p = STR(); MemInst *m = mem_find(v); snprintf(m->cwd, sizeof m->cwd, "%s", p); ev(c); ks("v", v); kb("p", p, strlen(p)); fin(); free(p); }
    else if(!strcmp(c, "reg_memd")) { char *v = tok(); int d = num(); API(r = mem_register(v, d)); mem_find(v)->vfs.m_path_root_component = mem_drive_root; ev("reg"); ks("k", "memd"); ks("v", v); ki("d", d); cls(r); fin(); }
    /* --- other --- */
    else if(!strcmp(c, "copy")) { const char *v = vfsname(); char *p = STR(); int h = num(); long n = num(); char *b = n > 0 ? malloc(n) : NULL; long be = live_allocs; API(r = evfs_copy_to_file_ex(p, H[h], b, n > 0 ? n : -n, v)); ev(c); ks("v", v ? v : "-"); kp("p", p); ki("h", h); ki("n", n); cls(r); ki("leak", live_allocs - be); fin(); free(b); free(p); }
    else if(!strcmp(c, "reports")) { ev(c); ki("n", n_reports); fin(); n_reports = 0; }
    else if(!strcmp(c, "glob")) { char *pat = STR(); char *s = STR(); bool g; API(g = glob_match(pat, s, EVFS_PATH_SEPS)); ev(c); kb("pat", pat, strlen(pat)); kb("s", s, strlen(s)); ki("ret", g); fin(); free(pat); free(s); }
    else if(!strcmp(c, "nullarg")) { /* every call with a missing pointer argument must answer with an error */
      EvfsFile *f; EvfsDir *d; EvfsInfo i; StringRange g; char cc[8]; int ok = 0, n = 0; const char *v = vfsname(); (void)f; (void)d;
#define CK(x) do { n++; API(r = (x)); if(r < 0) ok++; else { ev("nullcall"); ks("call", #x); fin(); } } while(0)
      CK(evfs_open_ex(NULL, &f, EVFS_READ, v)); CK(evfs_open_ex("/a", NULL, EVFS_READ, v)); CK(evfs_stat_ex(NULL, &i, v)); CK(evfs_stat_ex("/a", NULL, v));
      CK(evfs_delete_ex(NULL, v)); CK(evfs_rename_ex(NULL, "/a", v)); CK(evfs_rename_ex("/a", NULL, v)); CK(evfs_make_dir_ex(NULL, v)); CK(evfs_make_path_ex(NULL, v)); CK(evfs_make_path_range_ex(NULL, v));
      CK(evfs_open_dir_ex(NULL, &d, v)); CK(evfs_open_dir_ex("/", NULL, v)); CK(evfs_get_cur_dir_ex(NULL, v)); CK(evfs_set_cur_dir_ex(NULL, v)); CK(evfs_copy_to_file_ex(NULL, (EvfsFile *)cc, NULL, 0, v)); CK(evfs_copy_to_file_ex("/a", NULL, NULL, 0, v));
      CK(evfs_file_close(NULL)); CK(evfs_file_read(NULL, cc, 1)); CK(evfs_file_write(NULL, cc, 1)); CK(evfs_file_truncate(NULL, 0)); CK(evfs_file_sync(NULL)); CK(evfs_file_seek(NULL, 0, EVFS_SEEK_TO)); CK(evfs_file_ctrl(NULL, 1, NULL));
      CK(evfs_file_size(NULL)); CK(evfs_file_tell(NULL)); CK(evfs_file_printf(NULL, "x%d", 1)); CK(evfs_file_puts(NULL, "x"));
      CK(evfs_dir_close(NULL)); CK(evfs_dir_read(NULL, &i)); CK(evfs_dir_rewind(NULL)); CK(evfs_dir_find(NULL, "*", &i)); 
      CK(evfs_register(NULL, false)); CK(evfs_unregister(NULL)); CK(evfs_register_jail(NULL, "m", "/", 0)); CK(evfs_register_jail("zz", NULL, "/", 0)); CK(evfs_register_trace(NULL, "m", report, NULL, 0)); CK(evfs_register_trace("zz", NULL, report, NULL, 0));
      CK(evfs_path_normalize_ex(NULL, &g, v)); CK(evfs_path_normalize_ex("/a", NULL, v)); CK(evfs_path_absolute_ex(NULL, &g, v)); CK(evfs_path_absolute_ex("/a", NULL, v)); CK(evfs_path_basename(NULL, &g)); CK(evfs_path_basename("/a", NULL)); CK(evfs_path_extname(NULL, &g)); CK(evfs_path_extname("a", NULL)); CK(evfs_path_dirname_ex(NULL, &g, v)); CK(evfs_path_dirname_ex("a", NULL, v));
      CK(evfs_path_join_str_ex(NULL, "a", &g, v)); CK(evfs_path_join_str_ex("a", NULL, &g, v)); CK(evfs_path_join_str_ex("a", "a", NULL, v)); CK(evfs_path_join_ex(NULL, &g, &g, v)); CK(evfs_path_join_ex(&g, NULL, &g, v));
      ev(c); ki("n", n); ki("ok", ok); fin(); }
    else if(!strcmp(c, "nullfh")) { int h = num(); int ok = 0, n = 0; char cc[4]; CK(evfs_file_read(H[h], NULL, 1)); CK(evfs_file_write(H[h], NULL, 1)); int d = num(); CK(evfs_dir_read(D[d], NULL)); (void)cc; ev(c); ki("h", h); ki("n", n); ki("ok", ok); fin(); }
#ifdef WITH_FAT
    else if(!strcmp(c, "fatmk")) { char *im = tok(); int d = num(); char *p = STR(); long n = num(); long be = live_allocs; API(r = fatfs_make_image(p, d, n)); ev(c); ks("img", im); ki("vol", d); ki("n", n); cls(r); ki("leak", live_allocs - be); fin(); free(p); }
    else if(!strcmp(c, "fatmnt")) { char *im = tok(); int d = num(); char *p = STR(); API(r = fatfs_mount_image(p, d)); long cs = 0, tot = 0; DWORD nf = 0; FATFS *fs = NULL; char dr[4] = { '0' + d, ':', 0 };
      if(r == EVFS_OK) { snprintf(fat_img[d], sizeof fat_img[d], "%s", im); if(f_getfree(dr, &nf, &fs) == FR_OK) { cs = fs->csize * 512L; tot = (long)(fs->n_fatent - 2) * cs; } fat_cs[d] = cs; fat_tot[d] = tot; }
      ev(c); ks("img", im); ki("vol", d); cls(r); ki("cs", cs); ki("tot", tot); fin(); free(p); }
    else if(!strcmp(c, "fatumnt")) { int d = num(); API(fatfs_unmount_image(d)); fat_img[d][0] = 0; ev(c); ki("vol", d); fin(); }
    else if(!strcmp(c, "fatreg")) { char *v = tok(); int d = num(); int df = num(); long be = live_allocs; API(r = evfs_register_fatfs(v, d, df)); ev("reg"); ks("k", "fat"); ks("v", v); ki("vol", d); ks("img", fat_img[d]); ki("cs", fat_img[d][0] ? fat_cs[d] : 0); ki("tot", fat_img[d][0] ? fat_tot[d] : 0); ki("d", df); cls(r); ki("leak", live_allocs - be); fin(); }
#endif
#ifdef WITH_CONC
    else if(!strcmp(c, "go")) conc_go();
#endif
    else { fprintf(stderr, "unknown command %s\n", c); return 97; }
    alarm(0);
    return 0;
}
#ifdef WITH_CONC
#include "conc.h"
#endif

int main(int argc, char **argv) {
  if(argc < 4) return 99;
  int ofd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC, 0644); if(ofd < 0) return 99; out = fdopen(ofd, "w");
  strcpy(scratch, argv[2]); scratch_len = strlen(scratch); if(scratch_len && chdir(scratch)) return 98;
  int uid = atoi(argv[3]);
  if(uid && getuid() == 0) { if(setgroups(0, NULL)) {} if(setgid(uid)) {} if(setuid(uid)) return 95; }
  signal(SIGALRM, on_sig); signal(SIGPIPE, SIG_IGN);
  watchdog = argc > 4 ? atol(argv[4]) : 20;
  char *line = NULL; size_t cap = 0;
  while(getline(&line, &cap, stdin) > 0) { int rc = run_line(line); if(rc) return rc; }
  in_api = 0; mem_fault_kind = MK_NONE;
  fprintf(out, "{\"op\":\"end\"}\n"); fflush(out);
  _exit(0);
}
