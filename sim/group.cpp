// Several simulated processes at the same time on one disk.  Each is a process forked from the
// simulator; the one that holds the turn runs, all others wait.  The turn passes only at
// sim_group_yield(), i.e. at disk events and at the borders of calls, as the policy decides.
#include "rt.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdio>
#define EXP extern "C" __attribute__((visibility("default")))

static uint64_t rnd(SimGroup* q) { q->rng += 0x9E3779B97F4A7C15ull; uint64_t z = q->rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int alive(SimGroup* q) { int n = 0; for (int i = 0; i < q->n; i++) n += !q->done[i]; return n; }
static int nth_alive(SimGroup* q, int k) { for (int i = 0; i < q->n; i++) if (!q->done[i] && k-- == 0) return i; return -1; }
static int best(SimGroup* q) { int b = -1; for (int i = 0; i < q->n; i++) if (!q->done[i] && (b < 0 || q->prio[i] > q->prio[b])) b = i; return b; }
static void give(SimGroup* q, int p) {
  if (q->nsw < SIM_MAXPSW) q->sw[q->nsw++] = SimPSwitch{q->ev, p};
  __atomic_store_n(&q->turn, p, __ATOMIC_SEQ_CST); syscall(SYS_futex, &q->turn, FUTEX_WAKE, 1 << 20, nullptr, nullptr, 0);
}
static void await(SimGroup* q, int me) {
  for (;;) { int t = __atomic_load_n(&q->turn, __ATOMIC_SEQ_CST); if (t == me) return; syscall(SYS_futex, &q->turn, FUTEX_WAIT, t, nullptr, nullptr, 0); }
}
// the files that are watched, as of this event
static void sample(SimShared* s) {
  SimGroup* q = s->grp;
  for (int w = 0; w < q->nwatch; w++) {
    int d = sim_disk_find(s, q->watch[w]); int i = d < 0 ? -1 : s->dir[d].inode; uint32_t v = d < 0 ? 0 : s->ino[i].ver;
    if (i == q->wino[w] && v == q->wver[w]) continue;
    q->wino[w] = i; q->wver[w] = v;
    if (q->nsample >= SIM_MAXSAMPLE || (i >= 0 && q->nsnap >= SIM_MAXSNAP)) { q->lost++; continue; }
    int k = -1; if (i >= 0) { k = q->nsnap++; q->snapsize[k] = s->ino[i].size; memcpy(q->snapdata + (size_t)k * SIM_INODE_CAP, g.data + (size_t)i * SIM_INODE_CAP, s->ino[i].size); }
    q->sample[q->nsample++] = SimSample{q->ev, w, k};
  }
}
static int choose(SimGroup* q, int me) {       // me < 0: the holder ended
  int n = alive(q); if (!n) return -1;
  if (q->policy == PP_EXPLICIT) { int p = -1; while (q->iexp < q->nexp && q->exp[q->iexp].ev <= q->ev) { const SimPSwitch& x = q->exp[q->iexp++]; if (x.p >= 0 && x.p < q->n && !q->done[x.p]) p = x.p; } return p >= 0 ? p : me >= 0 ? me : nth_alive(q, 0); }
  if (q->policy == PP_PCT) { if (q->npts && q->pts[0] <= q->ev) { for (int i = 1; i < q->npts; i++) q->pts[i - 1] = q->pts[i]; q->npts--; if (me >= 0) q->prio[me] = --q->low; } return best(q); }
  if (me < 0) return nth_alive(q, (int)(rnd(q) % n));
  if (q->policy == PP_RR) { if (q->ev % q->quantum) return me; for (int k = 1; k <= q->n; k++) if (!q->done[(me + k) % q->n]) return (me + k) % q->n; }
  return rnd(q) % (uint64_t)q->gap ? me : nth_alive(q, (int)(rnd(q) % n));
}
EXP void sim_group_yield() {
  SimShared* s = g.shm; SimGroup* q = s ? s->grp : nullptr; if (!q) return;
  int e = errno;           // a successful call leaves errno alone
  q->ev++; sample(s);
  if (q->ev > SIM_PEVENTS) { strcpy(s->vclass, "livelock"); snprintf(s->msg, SIM_MSGCAP, "the processes do not finish within %d disk events", SIM_PEVENTS); sim_die(END_STEPCAP); }
  // a process that waits for another one must not keep the turn for ever
  static int held = 0; int p = choose(q, s->me); if (p == s->me && ++held > 20000 && alive(q) > 1) { if (q->policy == PP_PCT) q->prio[s->me] = --q->low; do p = (p + 1) % q->n; while (q->done[p]); }
  if (p == s->me) return;
  held = 0; give(q, p); await(q, s->me); errno = e;
}
EXP void sim_group_start(SimShared* s) { await(s->grp, s->me); }
EXP void sim_group_first(SimGroup* q) { int p = choose(q, -1); give(q, p); }
EXP void sim_group_exit(SimShared* s) {
  SimGroup* q = s->grp; q->done[s->me] = 1;
  q->ev++; sample(s);
  int p = q->turn == s->me ? choose(q, -1) : -1;
  if (p >= 0) give(q, p);
}
