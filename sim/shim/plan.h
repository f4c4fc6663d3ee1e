/* Shared between the simulator (src/shim.rs; same layout there) and the interposition library. */
#include <stdint.h>
#define SIM_MAGIC 0x4a53545f53494d31ULL
#define NPAT 64
#define NLOG 8192

/* Decisions for one byte stream: everything the environment may do to it. */
struct stream_plan {
    uint32_t chunk_n;          /* 0: no splitting */
    uint32_t chunks[NPAT];     /* cycled; maximum bytes for the i-th successful call, 0 = no limit */
    uint32_t eintr_n;
    uint32_t eintr_at[NPAT];   /* call indices that are interrupted */
    int64_t  err_at;           /* byte offset from which calls fail, -1 = never */
    int32_t  err_no;           /* errno; 0 = the call reports no progress (returns 0) */
    uint32_t err_count;        /* how many calls fail; 0xffffffff = all from then on */
    int64_t  eof_at;           /* reads only: offset at which the stream ends early, -1 = never */
};

struct plan {
    uint64_t magic;
    uint64_t mode;             /* 0 = command, 1 = build step, 2 = python script */
    uint64_t hash_seed;
    struct stream_plan s[3];   /* 0 input, 1 output, 2 diagnostics */
    uint64_t in_dev, in_ino;   /* identity of the input file */
    int32_t  open_errno;       /* opening the input fails with this */
    uint32_t open_eintr;       /* opens of the input interrupted this many times */
    int64_t  malloc_fail_at;   /* allocation index, -1 = never */
    uint32_t malloc_fail_count;
    int32_t  kill_sig;         /* 0 = never */
    int64_t  kill_at;          /* I/O event index */
    uint32_t kill_when;        /* 0 before, 1 after, 2 part-way (writes: after half the bytes) */
    uint32_t pad0;
    int64_t  kill_at_malloc;   /* allocation index, -1 = never */
    int64_t  clk_base_ns, clk_step_ns;
    uint32_t clk_jump_n, pad1;
    uint32_t clk_jump_at[NPAT];
    int64_t  clk_jump[NPAT];
    uint64_t heap_seed;        /* 0 = leave the heap alone */
    uint64_t dir_seed;         /* 0 = leave directory order alone */
    uint64_t max_events;
    uint64_t env_seed;         /* 0 = unset environment variables stay unset */
    uint64_t tty;              /* bit per descriptor: it answers that it is a terminal */
    uint64_t in_kind;          /* 0 regular file; 1 pipe: no size, no seeking, read once; 2 regular, but in_size is reported as its size */
    int64_t  in_size;

    /* ---- results ---- */
    uint64_t armed;
    uint64_t events;           /* I/O events so far */
    uint64_t mallocs;
    uint64_t off[3], calls[3];
    uint64_t eintr_fired[3], short_fired[3], err_fired[3], zero_ret[3];
    uint64_t eof_fired, open_err_fired, open_eintr_fired, malloc_fail_fired, kill_fired;
    uint64_t getrandom_calls, clock_calls, clock_jumps, timer_waits, dir_shuffles;
    uint64_t in_eof_seen;      /* a read on the input returned 0 */
    uint64_t out_before_eof;   /* bytes offered to the output before that */
    uint64_t reads_after_eof;
    uint64_t fs_effects;       /* creations, writes to files, removals, renames... */
    uint64_t proc_effects;     /* forks, execs, sockets */
    char     effect[256];      /* the first of them */
    uint64_t hang;
    uint64_t env_reads, tty_asked;
    uint64_t stats_asked;      /* questions about the input's kind and size */
    uint64_t seeks;
    uint64_t in_max;           /* highest position of the input delivered */
    uint64_t refused;          /* destructive calls outside the scratch tree, not carried out */
    int64_t  clk_elapsed;      /* simulated time from the first to the last reading, with waits */
    uint64_t log_hash;
    uint64_t nlog;
    struct { uint8_t op, stream; int16_t err; int32_t req; int32_t ret; } log[NLOG];
};
