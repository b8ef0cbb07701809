/* Memory backed base file system with call recording, fault and crash injection. */
#ifndef MEMVFS_H
#define MEMVFS_H
#include <stddef.h>
#include <setjmp.h>
#include "evfs.h"

enum { MF_OPEN=1, MF_STAT=2, MF_DELETE=4, MF_RENAME=8, MF_MKDIR=16, MF_OPENDIR=32, MF_READ=64,
       MF_WRITE=128, MF_TRUNC=256, MF_SYNC=512, MF_SEEK=1024, MF_CLOSE=2048, MF_DREAD=4096,
       MF_DREWIND=8192, MF_GETCWD=16384, MF_SETCWD=32768, MF_SIZE=65536, MF_TELL=131072, MF_EOF=262144,
       MF_DCLOSE=524288, MF_CTRL=1048576 };
enum { MK_NONE, MK_IO, MK_SHORT, MK_FULL, MK_CRASH };

typedef struct MemNode { int used, dir, links; char path[520]; unsigned char *data; size_t len, cap; } MemNode;
#define MEM_NODES 512
typedef struct MemInst {
  Evfs vfs; char name[32]; MemNode n[MEM_NODES]; char cwd[520];
  unsigned ro, nodots, buffered; int open_files, open_dirs;
} MemInst;

extern char *mem_log; extern size_t mem_log_len; extern int mem_log_on;
extern long mem_ops;                 /* matching operations since the fault was armed */
extern int mem_fault_kind; extern long mem_fault_at, mem_fault_count; extern unsigned mem_fault_mask;
extern size_t mem_max_file;
extern int mem_fault_hits;
extern jmp_buf mem_crash_jmp; extern int mem_crash_armed;
extern void (*mem_hook)(unsigned cls, const char *path);  /* called inside every operation */

MemInst *mem_find(const char *name);
int  mem_register(const char *name, bool dflt);
void mem_wipe_all(void);
bool mem_drive_root(Evfs *vfs, const char *path, StringRange *root);
int  mem_put(MemInst *m, const char *path, int dir, const void *data, size_t len);
/* allocation accounting (see evdrv.c) */
extern int in_api;
#endif
