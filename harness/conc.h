/* Controlled concurrency: several threads run their own commands, one at a time, and the baton passes only at
   chosen points: any basic block of the library (-fsanitize-coverage=trace-pc), lock operations, base operations.
     @k <command>     queue a command for thread k
     go f t0 s:t s:t  run them: start with thread t0, at global step s hand over to thread t
     go c t t t ...   the same with one choice at every coarse point (call start/end, lock, unlock, base operation) */
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#define MAXT 4
#define MAXQ 64
static struct CT { pthread_t t; sem_t go; char *q[MAXQ]; int nq, pos, state; pthread_mutex_t *wait; long steps, inv;
  int in_api; char *log; size_t log_len, log_cap; } T[MAXT];
enum { READY, BLOCKED, DONE };
static int cur, nt, coarse; static sem_t all_done; static long steps, stamp, ncoarse;
static struct { long at; int to; } plan[4096]; static int nplan, pplan;

static void conc_stamp(void) { if(par) { stamp++; ki("th", cur); ki("inv", T[cur].inv); ki("rt", stamp); } }
static int conc_line(char *line) {
  if(line[0] != '@') return 0;
  int k = line[1] - '0'; if(k < 0 || k >= MAXT || T[k].nq == MAXQ) exit(97);
  T[k].q[T[k].nq++] = strdup(line + 3); return 1;
}
static void stuck(void) { static const char m[] = "{\"op\":\"HANG\",\"why\":\"deadlock\"}\n"; fflush(out); if(write(fileno(out), m, sizeof m - 1) < 0) {} _exit(96); }
static void hand(int to) {           /* give the baton to another thread and wait to get it back */
  int me = cur; if(to == me) return;
  T[me].in_api = in_api; T[me].log_len = mem_log_len;
  if(T[me].log_cap < mem_log_len + 1) T[me].log = __real_realloc(T[me].log, T[me].log_cap = mem_log_len + 512);
  if(mem_log_len) memcpy(T[me].log, mem_log, mem_log_len + 1);
  cur = to; sem_post(&T[to].go);
  if(T[me].state == DONE) return;
  while(sem_wait(&T[me].go)) {}
  in_api = T[me].in_api; mem_log_len = T[me].log_len; if(mem_log_len) memcpy(mem_log, T[me].log, mem_log_len + 1);
}
static int other(void) { for(int i = 1; i < nt; i++) { int k = (cur + i) % nt; if(T[k].state == READY) return k; } return -1; }
static void fine_point(void) {
  if(!par || !in_api) return;
  steps++; T[cur].steps++;
  if(coarse) return;
  if(pplan < nplan && steps >= plan[pplan].at) { int to = plan[pplan++].to; if(to < nt && T[to].state == READY) hand(to); }
}
static void coarse_point(void) {
  if(!par) return;
  ncoarse++;
  if(!coarse) { fine_point(); return; }
  if(pplan < nplan) { int to = plan[pplan++].to; if(to < nt && T[to].state == READY) hand(to); }
}
void __sanitizer_cov_trace_pc(void) { fine_point(); }
static void base_point(unsigned c, const char *p) { (void)c; (void)p; if(par && in_api) coarse_point(); }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  coarse_point();
  for(;;) {
    int e = pthread_mutex_trylock(m);
    if(e != EBUSY) return e;
    if(!par) stuck();
    T[cur].state = BLOCKED; T[cur].wait = m;
    int k = other(); if(k < 0) stuck();
    hand(k);
  }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int e = __real_pthread_mutex_unlock(m);
  for(int i = 0; i < nt; i++) if(T[i].state == BLOCKED && T[i].wait == m) T[i].state = READY;
  coarse_point(); return e;
}
static void *worker(void *a) {
  int me = (int)(long)a; while(sem_wait(&T[me].go)) {}
  in_api = 0; mem_log_len = 0;
  for(; T[me].pos < T[me].nq; T[me].pos++) {
    if(coarse) coarse_point();
    T[me].inv = stamp; char *l = strdup(T[me].q[T[me].pos]); if(run_line(l)) exit(97);
    free(l); if(coarse) coarse_point();
  }
  T[me].state = DONE; int k = other();
  if(k >= 0) hand(k);
  else { for(int i = 0; i < nt; i++) if(T[i].state != DONE) stuck(); sem_post(&all_done); }
  return NULL;
}
static void conc_go(void) {
  char *mode = tok(), *t; coarse = *mode == 'c'; nplan = pplan = 0; steps = ncoarse = stamp = 0; int start = 0;
  if(!coarse) start = num();
  while((t = strtok(NULL, " \n"))) { if(nplan == 4096) exit(97); if(coarse) plan[nplan++].to = atoi(t); else { plan[nplan].at = strtol(t, &t, 10); plan[nplan++].to = atoi(t + 1); } }
  for(nt = 0; nt < MAXT && T[nt].nq; nt++) {}
  if(!nt || start >= nt) exit(97);
  sem_init(&all_done, 0, 0);
  for(int i = 0; i < nt; i++) { T[i].pos = 0; T[i].state = READY; T[i].steps = 0; T[i].log_len = 0; T[i].in_api = 0; sem_init(&T[i].go, 0, 0); if(pthread_create(&T[i].t, NULL, worker, (void *)(long)i)) exit(97); }
  mem_hook = base_point; par = 1; cur = start; sem_post(&T[start].go);
  while(sem_wait(&all_done)) {}
  par = 0; mem_hook = NULL; in_api = 0; mem_log_len = 0;
  for(int i = 0; i < nt; i++) pthread_join(T[i].t, NULL);
  ev("par"); ki("steps", steps); ki("coarse", ncoarse); fprintf(out, ",\"st\":["); for(int i = 0; i < nt; i++) { fprintf(out, i ? ",%ld" : "%ld", T[i].steps); for(int j = 0; j < T[i].nq; j++) free(T[i].q[j]); T[i].nq = 0; } fputc(']', out); fin();
}
