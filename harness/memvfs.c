#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include "memvfs.h"

char *mem_log; size_t mem_log_len; int mem_log_on; static size_t mem_log_cap;
long mem_ops; int mem_fault_kind; long mem_fault_at, mem_fault_count; unsigned mem_fault_mask; int mem_fault_hits;
jmp_buf mem_crash_jmp; int mem_crash_armed;
void (*mem_hook)(unsigned cls, const char *path);

#define MAX_INST 4
size_t mem_max_file = 65536;
static MemInst *s_inst[MAX_INST];

static void *xalloc(void *p, size_t n) { int s = in_api; in_api = 0; p = realloc(p, n); in_api = s; if(!p) abort(); return p; }
static void xfree(void *p) { int s = in_api; in_api = 0; free(p); in_api = s; }

static void lput(const char *s) {
  size_t l = strlen(s);
  if(mem_log_len + l + 1 > mem_log_cap) { mem_log_cap = (mem_log_len + l + 1) * 2; mem_log = xalloc(mem_log, mem_log_cap); }
  memcpy(mem_log + mem_log_len, s, l + 1); mem_log_len += l;
}
static void lchars(const char *p) {
  char b[16]; lput("[");
  for(const unsigned char *c = (const unsigned char *)p; *c; c++) { snprintf(b, sizeof b, "%s%u", c == (const unsigned char *)p ? "" : ",", *c); lput(b); }
  lput("]");
}

/* Enter an operation: record it, decide whether it fails. Returns fault kind. */
static int enter(MemInst *m, unsigned cls, const char *fn, const char *p, const char *q) {
  if(mem_hook) mem_hook(cls, p);
  if(mem_log_on) {
    if(mem_log_len) lput(",");
    lput("{\"f\":\""); lput(fn); lput("\",\"m\":\""); lput(m->name); lput("\"");
    if(p) { lput(",\"p\":"); lchars(p); }
    if(q) { lput(",\"q\":"); lchars(q); }
    lput("}");
  }
  if(mem_fault_kind != MK_NONE && (cls & mem_fault_mask)) {
    long k = ++mem_ops;
    if(k >= mem_fault_at && k < mem_fault_at + mem_fault_count) {
      mem_fault_hits++;
      if(mem_fault_kind == MK_CRASH) { if(mem_crash_armed) longjmp(mem_crash_jmp, 1); }
      return mem_fault_kind;
    }
  }
  return MK_NONE;
}
#define FAULT(m, cls, fn, p, q) do { int k_ = enter(m, cls, fn, p, q); \
  if(k_ == MK_IO || k_ == MK_SHORT) return EVFS_ERR_IO; if(k_ == MK_FULL) return EVFS_ERR_FS_FULL; } while(0)

/* Lexical resolution against the cwd. Result "/a/b" or "/" */
static int resolve(MemInst *m, const char *path, char out[520]) {
  char segs[64][130]; int n = 0;
  for(int pass = 0; pass < 2; pass++) {
    const char *s = pass ? path : m->cwd;
    if(!pass && (*path == '/' || *path == '\\')) continue;
    while(*s) {
      s += strspn(s, "/\\"); size_t l = strcspn(s, "/\\");
      if(l == 0) break;
      if(l == 1 && s[0] == '.') { }
      else if(l == 2 && s[0] == '.' && s[1] == '.') { if(n) n--; }
      else { if(l > 129 || n >= 64) return EVFS_ERR_TOO_LONG; memcpy(segs[n], s, l); segs[n][l] = 0; n++; }
      s += l;
    }
  }
  char *o = out; *o = 0;
  if(n == 0) { strcpy(out, "/"); return 0; }
  for(int i = 0; i < n; i++) { if((size_t)(o - out) + strlen(segs[i]) + 2 > 500) return EVFS_ERR_TOO_LONG; *o++ = '/'; strcpy(o, segs[i]); o += strlen(o); }
  return 0;
}
static int lookup(MemInst *m, const char *full) {
  for(int i = 0; i < MEM_NODES; i++) if(m->n[i].used == 1 && !strcmp(m->n[i].path, full)) return i;
  return -1;
}
/* 0 if the parent is an existing directory */
static int parent_err(MemInst *m, const char *full) {
  char p[520]; strcpy(p, full); char *s = strrchr(p, '/');
  if(s == p) return 0;
  *s = 0; int i = lookup(m, p);
  return (i >= 0 && m->n[i].dir) ? 0 : EVFS_ERR_NO_PATH;
}
static int newnode(MemInst *m, const char *full, int dir) {
  for(int i = 0; i < MEM_NODES; i++) if(!m->n[i].used) {
    memset(&m->n[i], 0, sizeof m->n[i]); m->n[i].used = 1; m->n[i].dir = dir; strcpy(m->n[i].path, full); return i; }
  return -1;
}
static void unlink_node(MemInst *m, int i) {
  m->n[i].used = 2; if(!m->n[i].links) { xfree(m->n[i].data); memset(&m->n[i], 0, sizeof m->n[i]); }
}
static void reserve(MemNode *n, size_t len) { if(len > n->cap) { n->data = xalloc(n->data, len * 2); n->cap = len * 2; } }
static void setlen(MemNode *n, size_t len) { reserve(n, len); if(len > n->len) memset(n->data + n->len, 0, len - n->len); n->len = len; }

typedef struct MemFile { EvfsFile base; MemInst *m; int node; long pos; int rd, wr, ap; unsigned char *pb; long po, pn; } MemFile;
typedef struct MemDir { EvfsDir base; MemInst *m; char path[520]; int pos; char name[520]; } MemDir;
#define F MemFile *f = (MemFile *)fh; MemInst *m = f->m; MemNode *n = &m->n[f->node]; (void)n

/* buffered instances keep written data in the handle until it is synced, closed or used otherwise, as C streams do */
static void flushp(MemFile *f) {
  if(!f->pn) return;
  MemNode *n = &f->m->n[f->node];
  if((size_t)(f->po + f->pn) > n->len) setlen(n, f->po + f->pn);
  memcpy(n->data + f->po, f->pb, f->pn); f->pn = 0;
}
static int mf_ctrl(EvfsFile *fh, int cmd, void *arg) { F; (void)arg; (void)cmd; FAULT(m, MF_CTRL, "fctrl", NULL, NULL); return EVFS_ERR_NO_SUPPORT; }
static int mf_close(EvfsFile *fh) {
  F; int k = enter(m, MF_CLOSE, "close", NULL, NULL);   /* a failing close still releases, as fclose() does */
  if(f->node < 0) abort();
  flushp(f); xfree(f->pb); f->pb = NULL;
  n->links--; m->open_files--; if(n->used == 2 && !n->links) { xfree(n->data); memset(n, 0, sizeof *n); }
  f->node = -1; f->base.methods = NULL;
  return k ? EVFS_ERR_IO : EVFS_OK;
}
static ptrdiff_t mf_read(EvfsFile *fh, void *buf, size_t size) {
  F; int k = enter(m, MF_READ, "read", NULL, NULL);
  if(k == MK_IO || k == MK_FULL) return EVFS_ERR_IO;
  if(!f->rd) return EVFS_ERR;
  flushp(f);
  size_t left = (size_t)f->pos < n->len ? n->len - f->pos : 0;
  size_t c = size < left ? size : left;
  if(k == MK_SHORT) c /= 2;
  if(c) memcpy(buf, n->data + f->pos, c); f->pos += c; return c;
}
static ptrdiff_t mf_write(EvfsFile *fh, const void *buf, size_t size) {
  F; int k = enter(m, MF_WRITE, "write", NULL, NULL);
  if(k == MK_IO) return EVFS_ERR_IO;
  if(k == MK_FULL) return EVFS_ERR_FS_FULL;
  if(!f->wr) return EVFS_ERR;
  if(m->ro) return EVFS_ERR_DISABLED;
  if(f->ap && size) f->pos = n->len;
  if(k == MK_SHORT) size /= 2;
  if(f->pos + size > mem_max_file) return EVFS_ERR_FS_FULL;
  if(size && m->buffered && !f->ap) {
    if(f->pn && f->pos != f->po + f->pn) flushp(f);
    if(!f->pn) f->po = f->pos;
    f->pb = xalloc(f->pb, f->pn + size); memcpy(f->pb + f->pn, buf, size); f->pn += size; f->pos += size; return size;
  }
  if(size) { if((size_t)f->pos + size > n->len) setlen(n, f->pos + size); memcpy(n->data + f->pos, buf, size); f->pos += size; }
  return size;
}
static int mf_trunc(EvfsFile *fh, evfs_off_t size) {
  F; FAULT(m, MF_TRUNC, "trunc", NULL, NULL);
  if(!f->wr || size < 0 || (size_t)size > mem_max_file) return EVFS_ERR_BAD_ARG;
  if(m->ro) return EVFS_ERR_DISABLED;
  flushp(f); setlen(n, size); return EVFS_OK;
}
static int mf_sync(EvfsFile *fh) { F; FAULT(m, MF_SYNC, "sync", NULL, NULL); flushp(f); return EVFS_OK; }
static evfs_off_t mf_size(EvfsFile *fh) { F; enter(m, MF_SIZE, "size", NULL, NULL); flushp(f); return n->len; }
static int mf_seek(EvfsFile *fh, evfs_off_t off, EvfsSeekDir org) {
  F; FAULT(m, MF_SEEK, "seek", NULL, NULL);
  if(org == EVFS_SEEK_REV) flushp(f);
  long p = org == EVFS_SEEK_REL ? f->pos + off : org == EVFS_SEEK_REV ? (long)n->len - off : off;
  f->pos = p < 0 ? 0 : p; return EVFS_OK;
}
static evfs_off_t mf_tell(EvfsFile *fh) { F; enter(m, MF_TELL, "tell", NULL, NULL); return f->pos; }
static bool mf_eof(EvfsFile *fh) { F; enter(m, MF_EOF, "eof", NULL, NULL); flushp(f); return f->pos >= (long)n->len; }
static const EvfsFileMethods s_fm = { mf_ctrl, mf_close, mf_read, mf_write, mf_trunc, mf_sync, mf_size, mf_seek, mf_tell, mf_eof };

static int md_close(EvfsDir *dh) { MemDir *d = (MemDir *)dh; MemInst *m = d->m; int k = enter(m, MF_DCLOSE, "dclose", NULL, NULL); m->open_dirs--; d->base.methods = NULL; return k ? EVFS_ERR_IO : EVFS_OK; }
static int md_read(EvfsDir *dh, EvfsInfo *info) {
  MemDir *d = (MemDir *)dh; MemInst *m = d->m;
  FAULT(m, MF_DREAD, "dread", NULL, NULL);
  memset(info, 0, sizeof *info);
  if(d->pos < 2 && m->nodots) d->pos = 2;
  if(d->pos < 2) { strcpy(d->name, d->pos ? ".." : "."); d->pos++; info->name = d->name; info->type = EVFS_FILE_DIR; return EVFS_OK; }
  size_t l = strcmp(d->path, "/") ? strlen(d->path) : 0;
  for(int i = d->pos - 2; i < MEM_NODES; i++) {
    MemNode *n = &m->n[i];
    if(n->used == 1 && !strncmp(n->path, d->path, l) && n->path[l] == '/' && !strchr(n->path + l + 1, '/') && n->path[l+1]) {
      strcpy(d->name, n->path + l + 1); info->name = d->name; info->size = n->dir ? 0 : n->len; if(n->dir) info->type = EVFS_FILE_DIR;
      d->pos = i + 3; return EVFS_OK; }
  }
  d->pos = MEM_NODES + 2; return EVFS_DONE;
}
static int md_rewind(EvfsDir *dh) { MemDir *d = (MemDir *)dh; MemInst *m = d->m; FAULT(m, MF_DREWIND, "drewind", NULL, NULL); d->pos = 0; return EVFS_OK; }
static const EvfsDirMethods s_dm = { md_close, md_read, md_rewind };

#define M MemInst *m = (MemInst *)vfs->fs_data; char full[520]; int rc
static int m_open(Evfs *vfs, const char *path, EvfsFile *fh, int fl) {
  M; MemFile *f = (MemFile *)fh; memset(f, 0, sizeof *f);
  FAULT(m, MF_OPEN, "open", path, NULL);
  if((rc = resolve(m, path, full)) != 0) return rc;
  char mode = (fl & EVFS_APPEND) ? 'a' : ((fl & (EVFS_OVERWRITE | EVFS_NO_EXIST)) || ((fl & EVFS_WRITE) && !(fl & EVFS_READ))) ? 'w' : 'r';
  int plus = (fl & EVFS_RDWR) == EVFS_RDWR;
  if(m->ro && (mode != 'r' || plus || (fl & EVFS_OPEN_OR_NEW))) return EVFS_ERR_DISABLED;
  int i = lookup(m, full);
  if(!strcmp(full, "/") || (i >= 0 && m->n[i].dir)) return EVFS_ERR_IS_DIR;
  if(i < 0) {
    if((rc = parent_err(m, full)) != 0) return rc;
    if(mode == 'r' && !(fl & EVFS_OPEN_OR_NEW)) return EVFS_ERR_NO_FILE;
    if((i = newnode(m, full, 0)) < 0) return EVFS_ERR_FS_FULL;
  } else {
    if(fl & EVFS_NO_EXIST) return EVFS_ERR_EXISTS;
    if(mode == 'w') setlen(&m->n[i], 0);
  }
  f->base.methods = &s_fm; f->m = m; f->node = i; f->rd = mode == 'r' || plus; f->wr = mode != 'r' || plus; f->ap = mode == 'a';
  if(f->ap) f->pos = m->n[i].len;
  m->n[i].links++; m->open_files++;
  return EVFS_OK;
}
static int m_stat(Evfs *vfs, const char *path, EvfsInfo *info) {
  M; FAULT(m, MF_STAT, "stat", path, NULL); memset(info, 0, sizeof *info);
  if((rc = resolve(m, path, full)) != 0) return rc;
  if(!strcmp(full, "/")) { info->type = EVFS_FILE_DIR; return EVFS_OK; }
  int i = lookup(m, full);
  if(i < 0) return parent_err(m, full) ? EVFS_ERR_NO_PATH : EVFS_ERR_NO_FILE;
  if(m->n[i].dir) info->type = EVFS_FILE_DIR; else info->size = m->n[i].len;
  return EVFS_OK;
}
static int has_child(MemInst *m, const char *full) {
  size_t l = strlen(full);
  for(int i = 0; i < MEM_NODES; i++) if(m->n[i].used == 1 && !strncmp(m->n[i].path, full, l) && m->n[i].path[l] == '/') return 1;
  return 0;
}
static int m_delete(Evfs *vfs, const char *path) {
  M; FAULT(m, MF_DELETE, "delete", path, NULL); if(m->ro) return EVFS_ERR_DISABLED;
  if((rc = resolve(m, path, full)) != 0) return rc;
  if(!strcmp(full, "/")) return EVFS_ERR;
  int i = lookup(m, full);
  if(i < 0) return parent_err(m, full) ? EVFS_ERR_NO_PATH : EVFS_ERR_NO_FILE;
  if(m->n[i].dir && has_child(m, full)) return EVFS_ERR_NOT_EMPTY;
  unlink_node(m, i); return EVFS_OK;
}
static int m_rename(Evfs *vfs, const char *a, const char *b) {
  M; char nf[520]; FAULT(m, MF_RENAME, "rename", a, b); if(m->ro) return EVFS_ERR_DISABLED;
  if((rc = resolve(m, a, full)) != 0 || (rc = resolve(m, b, nf)) != 0) return rc;
  int i = lookup(m, full), j = lookup(m, nf);
  if(i < 0) return EVFS_ERR_NO_FILE;
  if(!strcmp(nf, "/")) return EVFS_ERR_EXISTS;
  if(i == j) return EVFS_OK;
  size_t l = strlen(full);
  if(!strncmp(nf, full, l) && nf[l] == '/') return EVFS_ERR_BAD_ARG;
  if((rc = parent_err(m, nf)) != 0) return rc;
  if(j >= 0) { if(m->n[j].dir || m->n[i].dir) return EVFS_ERR_EXISTS; unlink_node(m, j); }
  for(int k = 0; k < MEM_NODES; k++) { MemNode *n = &m->n[k];
    if(n->used == 1 && !strncmp(n->path, full, l) && (n->path[l] == '/' || !n->path[l])) {
      char t[1040]; snprintf(t, sizeof t, "%s%s", nf, n->path + l); t[510] = 0; strcpy(n->path, t); } }
  return EVFS_OK;
}
static int m_mkdir(Evfs *vfs, const char *path) {
  M; FAULT(m, MF_MKDIR, "mkdir", path, NULL); if(m->ro) return EVFS_ERR_DISABLED;
  if((rc = resolve(m, path, full)) != 0) return rc;
  if(!strcmp(full, "/") || lookup(m, full) >= 0) return EVFS_ERR_EXISTS;
  if((rc = parent_err(m, full)) != 0) return rc;
  return newnode(m, full, 1) < 0 ? EVFS_ERR_FS_FULL : EVFS_OK;
}
static int m_opendir(Evfs *vfs, const char *path, EvfsDir *dh) {
  M; MemDir *d = (MemDir *)dh; memset(d, 0, sizeof *d); FAULT(m, MF_OPENDIR, "opendir", path, NULL);
  if((rc = resolve(m, path, full)) != 0) return rc;
  if(strcmp(full, "/")) { int i = lookup(m, full); if(i < 0) return EVFS_ERR_NO_FILE; if(!m->n[i].dir) return EVFS_ERR_NO_PATH; }
  d->base.methods = &s_dm; d->m = m; strcpy(d->path, full); m->open_dirs++; return EVFS_OK;
}
static int m_getcwd(Evfs *vfs, StringRange *r) {
  MemInst *m = (MemInst *)vfs->fs_data; FAULT(m, MF_GETCWD, "getcwd", NULL, NULL);
  size_t l = strlen(m->cwd); if((size_t)range_size(r) < l + 1) return EVFS_ERR_OVERFLOW;
  memcpy((char *)r->start, m->cwd, l + 1); return EVFS_OK;
}
static int m_setcwd(Evfs *vfs, const char *path) {
  M; FAULT(m, MF_SETCWD, "setcwd", path, NULL);
  if((rc = resolve(m, path, full)) != 0) return rc;
  if(strcmp(full, "/")) { int i = lookup(m, full); if(i < 0) return EVFS_ERR_NO_FILE; if(!m->n[i].dir) return EVFS_ERR_NO_PATH; }
  strcpy(m->cwd, full); return EVFS_OK;
}
static int m_ctrl(Evfs *vfs, int cmd, void *arg) {
  MemInst *m = (MemInst *)vfs->fs_data; enter(m, MF_CTRL, "vctrl", NULL, NULL);
  switch(cmd) {
  case EVFS_CMD_UNREGISTER: return EVFS_OK;
  case EVFS_CMD_SET_READONLY: m->ro = *(unsigned *)arg != 0; return EVFS_OK;
  case EVFS_CMD_SET_NO_DIR_DOTS: m->nodots = *(unsigned *)arg != 0; return EVFS_OK;
  case EVFS_CMD_GET_STAT_FIELDS: *(unsigned *)arg = EVFS_INFO_SIZE | EVFS_INFO_TYPE; return EVFS_OK;
  case EVFS_CMD_GET_DIR_FIELDS: *(unsigned *)arg = EVFS_INFO_NAME | EVFS_INFO_SIZE | EVFS_INFO_TYPE; return EVFS_OK;
  default: return EVFS_ERR_NO_SUPPORT;
  }
}
/* DOS style roots ("C:/", "0:"), as the FAT driver reports them */
bool mem_drive_root(Evfs *vfs, const char *path, StringRange *root) {
  (void)vfs; const char *pos = path; unsigned char c = *pos;
  if(((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && pos[1] == ':') pos += 2;
  size_t n = strspn(pos, "/\\"); range_init(root, (char *)path, (pos - path) + n); return n > 0;
}
static void fill(MemInst *m) {
  memset(&m->vfs, 0, sizeof m->vfs);
  m->vfs.vfs_name = m->name; m->vfs.vfs_file_size = sizeof(MemFile); m->vfs.vfs_dir_size = sizeof(MemDir); m->vfs.fs_data = m;
  m->vfs.m_open = m_open; m->vfs.m_stat = m_stat; m->vfs.m_delete = m_delete; m->vfs.m_rename = m_rename; m->vfs.m_make_dir = m_mkdir;
  m->vfs.m_open_dir = m_opendir; m->vfs.m_get_cur_dir = m_getcwd; m->vfs.m_set_cur_dir = m_setcwd; m->vfs.m_vfs_ctrl = m_ctrl;
}
MemInst *mem_find(const char *name) { for(int i = 0; i < MAX_INST; i++) if(s_inst[i] && !strcmp(s_inst[i]->name, name)) return s_inst[i]; return NULL; }
int mem_register(const char *name, bool dflt) {
  MemInst *m = mem_find(name);
  if(!m) {
    int i; for(i = 0; i < MAX_INST && s_inst[i]; i++); if(i == MAX_INST) abort();
    m = s_inst[i] = xalloc(NULL, sizeof *m); memset(m, 0, sizeof *m); snprintf(m->name, sizeof m->name, "%s", name); strcpy(m->cwd, "/");
  }
  if(evfs_find_vfs(name) != &m->vfs) fill(m);
  return evfs_register(&m->vfs, dflt);
}
int mem_put(MemInst *m, const char *path, int dir, const void *data, size_t len) {
  char full[520]; int rc; if((rc = resolve(m, path, full)) != 0) return rc;
  int i = lookup(m, full); if(i < 0) i = newnode(m, full, dir); if(i < 0) return -1;
  m->n[i].len = 0; setlen(&m->n[i], len); if(len) memcpy(m->n[i].data, data, len); return 0;
}
void mem_wipe_all(void) {
  for(int k = 0; k < MAX_INST; k++) if(s_inst[k]) {
    for(int i = 0; i < MEM_NODES; i++) xfree(s_inst[k]->n[i].data);
    xfree(s_inst[k]); s_inst[k] = NULL; }
  mem_max_file = 65536;
  mem_fault_kind = MK_NONE; mem_log_len = 0; mem_log_on = 0; mem_fault_hits = 0; mem_ops = 0;
}
