/* simrt: the simulated operating system linked into every guest.
 *
 * One plan (written by the orchestrator into shared memory) decides every
 * outcome a guest can observe from outside its own code: bytes and results of
 * reads and writes, file system contents, random numbers, clocks, addresses of
 * heap and stack, allocation failures, which thread runs when, and where the
 * process is killed.  src/plan.rs in /verif/dst mirrors this layout.
 */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

#define SIM_MAGIC 0x53494d5254303031ull /* "SIMRT001" */

#define OFF_DATA   0x0010000ull
#define LEN_DATA   0x1000000ull /* 16 MB of plan data */
#define OFF_OUT    (OFF_DATA + LEN_DATA)
#define LEN_OUT    0x1000000ull
#define OFF_ERR    (OFF_OUT + LEN_OUT)
#define LEN_ERR    0x1000000ull
#define OFF_REP    (OFF_ERR + LEN_ERR)
#define LEN_REP    0x2000000ull
#define OFF_LOG    (OFF_REP + LEN_REP)
#define LEN_LOG    0x0100000ull
#define OFF_COV    (OFF_LOG + LEN_LOG)
#define LEN_COV    0x0010000ull /* one byte per instrumented edge, saturating */
#define SHM_SIZE   (OFF_COV + LEN_COV)

/* outcome of one read or write call: low 8 bits kind, rest argument */
enum { KIND_PIPE, KIND_TERMINAL, KIND_FILE, KIND_DEVICE, KIND_SOCKET, N_KINDS };
enum { OC_FULL = 0, OC_SHORT = 1, OC_EINTR = 2, OC_ERR = 3, OC_STALL = 4, OC_ZERO = 5 };

struct sim_stream {
    uint64_t off, len;            /* content (inputs only) */
    uint64_t sched_off, n_sched;  /* u64 outcomes, one per call; then OC_FULL */
    uint64_t limit;               /* byte offset from which every call fails; ~0 never */
    uint64_t limit_errno;
};

struct sim_file {
    uint64_t path_off, path_len;
    uint64_t stat_size;           /* what fstat says */
    uint64_t open_errno;          /* 0: opens */
    uint64_t open_eintr;          /* that many EINTR before */
    uint64_t from_io;             /* there from that I/O call on; earlier entries of that path are gone then */
    struct sim_stream s;
};

#define MAX_FILES 4
#define MAX_FORB 16
#define N_CTR 32
#define MAX_ASKED 16

enum { ST_NONE = 0, ST_RUNNING = 1, ST_EXIT = 2, ST_STEPLIMIT = 3, ST_DEADLOCK = 4, ST_KILLED = 5, ST_HARNESS = 6 };

enum { /* counters of faults and events that really happened */
    C_READ_SHORT, C_READ_EINTR, C_READ_ERR, C_READ_STALL,
    C_WRITE_SHORT, C_WRITE_EINTR, C_WRITE_ERR, C_WRITE_LIMIT, C_WRITE_ZERO, C_WRITE_STALL,
    C_EWRITE_SHORT, C_EWRITE_EINTR, C_EWRITE_ERR, C_EWRITE_LIMIT,
    C_OPEN_ERR, C_OPEN_EINTR, C_ALLOC_FAIL, C_KILL, C_PREEMPT, C_BLOCK, C_SWITCH,
    C_THREADS, C_RANDOM, C_CLOCK, C_READS, C_WRITES, C_FUTEX_WAIT, C_TIMEOUT, C_STAT_LIE, C_READ_MB_SPLIT, C_ATOMICS, C_JUMP
};

struct sim_shm {
    uint64_t magic;
    /* ---- plan ---- */
    uint64_t entropy, heap_base, heap_size, heap_limit, stack_base, stack_size;
    uint64_t realtime_ns, monotonic_ns, ns_per_step;
    uint64_t jump_at, jump_every, jump_real, jump_mono; /* at the jump_at-th reading of a clock, and at every jump_every-th one afterwards, they jump */
    uint64_t step_limit, crash_step, crash_io;
    uint64_t pid;
    uint64_t n_alloc_fail, alloc_fail[16], alloc_fail_from;
    uint64_t argc, args_off, envc, env_off;     /* NUL separated strings */
    uint64_t cwd_off, host_off;
    uint64_t n_files;
    struct sim_file files[MAX_FILES];
    struct sim_stream in, out, err;
    uint64_t preempt_off, n_preempt;            /* pairs (u64 step, u64 pick), ascending */
    uint64_t picks_off, n_picks;                /* u64, used when the running thread stops */
    uint64_t yields_off, n_yields;              /* u64, at the end of every I/O call, wake-up and thread creation: 0 go on, else which other thread */
    uint64_t sites_off, n_sites;                /* quadruples (block, from, every, pick): preempted at executions of a basic block, counted while there are several threads */
    uint64_t atoms_off, n_atoms;                /* pairs (u64 count, u64 pick), ascending: preempted before or after an atomic access, counted while there are several threads */
    uint64_t ncpu;
    uint64_t kinds;                             /* what the three standard streams (one byte each) and the files are, KIND_* */
    uint64_t meta;                              /* owners, times, numbers, permissions */
    uint64_t exe_off;                           /* where the program lies */
    uint64_t user_off, user_len;
    uint64_t trace;                             /* 1: write the event log */
    uint64_t decoy;                             /* 1: every other path exists too; files[n_files] says what is read there */
    /* ---- results ---- */
    uint64_t state, exit_code;
    uint64_t steps, allocs, ios, switches;
    uint64_t evhash, schedhash;
    uint64_t out_len, err_len, rep_len, log_len;
    uint64_t n_forb;
    char forb[MAX_FORB][96];
    uint64_t ctr[N_CTR];
    uint64_t max_heap, n_guards, stall_ns, allocs_at_read;
    uint64_t n_asked;
    char asked[MAX_ASKED][48];                  /* names of environment variables that were looked up */
    char harness_msg[128];
};
#endif
