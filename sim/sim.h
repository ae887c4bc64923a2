// Interface between the simulator runtime (libsim.so) and the harness (simrun).
// libsim.so owns every source of nondeterminism of the code under test:
// threads (GOMP_*, pthread_*), memory (malloc/new), disk (open/read/...),
// clock, pid, random numbers and standard output.
#pragma once
#include <cstddef>
#include <cstdint>

#define SIM_MAXT 68
#define SIM_MAXINODES 48
#define SIM_INODE_CAP (3u << 20)
#define SIM_NAMELEN 96
#define SIM_MAXFAULTS 12
#define SIM_MAXSWITCH 20000
#define SIM_MAXOBS 12000
#define SIM_MAXTRACE 8192
#define SIM_OUTCAP (1024 * 1024)
#define SIM_MSGCAP 4096
#define SIM_MAXRACE 8
#define SIM_MAXOPS 64

enum SimSys {           // classes of intercepted system-level events that can fail
  SYS_OPEN = 0, SYS_CREATE, SYS_READ, SYS_WRITE, SYS_SEEK, SYS_STAT, SYS_CLOSE,
  SYS_RENAME, SYS_UNLINK, SYS_TRUNC, SYS_SYNC, SYS_ALLOC, SYS_NKINDS
};
enum SimAction { ACT_ERR = 0, ACT_SHORT, ACT_SHORT_ERR, ACT_KILL_BEFORE, ACT_KILL_AFTER, ACT_KILL_TORN };

struct SimFault {
  int op;               // operation index or -1
  int kind;             // SimSys or -1 (any disk event)
  int nth;              // fires at the nth (0-based) matching event
  int action;           // SimAction
  int err;              // errno
  int sticky;           // 1: also at every later matching event of that operation
  int arg;              // ACT_SHORT*: percentage of the bytes that are transferred
  char path[40];        // substring of the file name, "" = any
  int seen;             // counters
  int fired;
};

enum SimPolicy { POL_SERIAL = 0, POL_RANDOM, POL_PCT, POL_RR, POL_EXPLICIT, POL_SYNC };

struct SimSwitch { uint64_t step; int32_t tid; int32_t forced; };

struct SimKnobs {
  int maxthreads;       // omp_get_max_threads
  int team;             // actual team size (<= maxthreads)
  int policy;
  uint64_t sched_seed;
  int gap;              // mean yield points between decisions
  int pct_d;
  int pct_k;
  int rr_q;
  int rtsched;          // schedule(runtime) kind
  int blksize;          // st_blksize
  int64_t capacity;     // bytes on the disk, -1 = unlimited
  uint64_t fill;        // pattern seed of fresh/freed heap memory
  int heapshift;        // layout shift of the arena
  int64_t clock0;
  int pid;
  uint64_t rnd;         // values of the system's random sources
  int env;              // environment variant
  int out_fail_at;      // standard output fails after that many bytes (-1 never)
  int out_fail_len;     // ... for so many bytes (-1 forever)
  int out_sync_fail;    // flush fails
  int64_t memlimit;     // largest single allocation
  int stackfill;        // pattern byte of fresh stacks
};

struct SimDirent { char name[SIM_NAMELEN]; int inode; int used; };
struct SimInode { int used; int nlink; int nopen; uint32_t size; int mode; uint32_t ver; };
struct SimDisk { SimDirent dir[SIM_MAXINODES]; SimInode ino[SIM_MAXINODES]; uint32_t vctr; };   // shared by the processes of a run

struct SimObs { int op; int field; int rows; int cols; uint64_t hash; };
struct SimTrace { int16_t op; int8_t kind; int8_t file; };
struct SimRace { uint64_t pc1, pc2; int t1, t2, w1, w2; };

enum SimEnd { END_NONE = 0, END_DONE, END_KILLED, END_DEADLOCK, END_STEPCAP, END_VIOLATION, END_INTERNAL };

#define SIM_MAXASITE 2048
struct SimASite { short op; int idx; };
// Processes that run at the same time: one of them holds the turn, which changes only at disk
// events and at the borders of calls.
#define SIM_MAXPROC 6
#define SIM_MAXWATCH 6
#define SIM_MAXSAMPLE 400
#define SIM_MAXSNAP 64
#define SIM_MAXPSW 4000
#define SIM_PEVENTS 300000
enum SimPPolicy { PP_RANDOM = 0, PP_PCT, PP_RR, PP_EXPLICIT };
struct SimPSwitch { int ev, p; };
struct SimSample { int ev, file, snap; };          // from event ev on, file has these contents (-1: absent)
struct SimGroup {
  int n; int turn;                                 // futex
  int done[SIM_MAXPROC], prio[SIM_MAXPROC], low; int npts, pts[32];
  int ev, policy, gap, quantum; uint64_t rng;
  int nexp, iexp; SimPSwitch exp[SIM_MAXPSW];
  int nsw; SimPSwitch sw[SIM_MAXPSW];
  int nwatch; char watch[SIM_MAXWATCH][SIM_NAMELEN]; int wino[SIM_MAXWATCH]; uint32_t wver[SIM_MAXWATCH];
  int nsample; SimSample sample[SIM_MAXSAMPLE]; int nsnap; uint32_t snapsize[SIM_MAXSNAP]; int lost;
  unsigned char* snapdata;
};
struct SimShared {
  SimDirent* dir; SimInode* ino; SimDisk* dk;      // the disk
  SimGroup* grp; int me;                           // concurrent processes, or null
  // configuration of the current life
  SimKnobs k;
  int nfaults;
  SimFault faults[SIM_MAXFAULTS];
  int nexp;                        // explicit schedule
  SimSwitch exp[SIM_MAXSWITCH];
  // outcome of the current life
  int end;
  int cur_op;                      // operation in progress (-1: none)
  int op_done[SIM_MAXOPS];         // status+1 of finished operations
  int opb[SIM_MAXOPS], ope[SIM_MAXOPS];   // with concurrent processes: events at the borders of the call
  int opened[SIM_MAXINODES];       // open files of this process
  char msg[SIM_MSGCAP];            // violation text
  char vclass[64];
  uint64_t steps, nswitch, accesses, syscalls, allocs, simtime_us, regions;
  uint64_t sched_hash;
  int nsw; SimSwitch sw[SIM_MAXSWITCH];
  int nobs; SimObs obs[SIM_MAXOBS];
  int ntrace; SimTrace trace[SIM_MAXTRACE];
  int allocs_op[SIM_MAXOPS];
  int nasite; SimASite asite[SIM_MAXASITE];   // first allocation of every call site and size, per operation
  char tnames[64][40]; int ntnames;
  int nrace; SimRace race[SIM_MAXRACE];
  int nmem; char mem[8][160];
  int fired[SYS_NKINDS]; int fired_act[8];
  int outfail_fired;
  int fds_open;
  int cli_rc;                      // exit status of a command-line life
  uint64_t out_total;              // bytes that reached standard output
  int outlen; char out[SIM_OUTCAP];
  int outop[SIM_MAXOPS];           // output offset at the start of each operation
  unsigned char probes[64];
};

extern "C" {
void sim_init(SimShared* shm, unsigned char* inode_data);  // before forking lives
void sim_set_repo(const void* anyaddr);                    // address inside the library under test
void sim_life_begin();                                     // in the life
void sim_life_end();
void sim_op_begin(int op);                                 // the real library is called between these
void sim_op_end();
void sim_arm(int on);                                      // faults armed
void sim_assign(int on);                                   // user assigns data: library memory, no faults
// Runs the functions as caller threads under the scheduler
void sim_parallel_calls(int n, void (*fn)(void*), void** arg);
void sim_violation(const char* cls, const char* msg);      // record and end the life
int sim_open_fds();
void sim_heap_check();                                     // redzones of all live blocks
// Disk access for the harness (no faults)
int sim_disk_find(SimShared*, const char* name);
int sim_disk_put(SimShared*, unsigned char* data, const char* name, const void* p, size_t n);
void sim_disk_unlink(SimShared*, const char* name);
void sim_disk_reap(SimShared*);                            // a process died: drop its open files
void sim_disk_move(SimShared*, const char* from, const char* to);
// concurrent processes
void sim_group_start(SimShared*);                          // in the process: wait for the first turn
void sim_group_yield();                                    // the turn may pass to another process
void sim_group_first(SimGroup*);                           // in the supervisor
void sim_group_exit(SimShared*);                           // in the supervisor: the process ended
void sim_stack_scrub();
}
