/* Stands in for the programs that the scripts start (it is installed under
 * their names, first on PATH). Every start and end of one is a numbered event at which the whole
 * simulated machine may be killed; the real programs do the work. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "plan.h"

struct ctl { uint64_t events; int64_t kill_at; uint64_t killed, find_seed, finds, refused; };
static struct ctl *C;
static const char *root;

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static void die_all(void) {
    C->killed++;
    kill(0, SIGKILL);
    for (;;) pause();
}
static void point(void) { if ((int64_t)C->events++ == C->kill_at) die_all(); }
static int next_is_kill(void) { return (int64_t)C->events == C->kill_at; }

static int spawn(const char *bin, char **argv) {
    pid_t p = fork();
    if (p == 0) { execv(bin, argv); _exit(127); }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    return st;
}
static int status(int st) { return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
static int cmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }

static int do_find(int argc, char **argv) {
    char sep = '\n';
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-print0")) sep = 0;
        if (!strncmp(argv[i], "-exec", 5) || !strncmp(argv[i], "-ok", 3) || !strcmp(argv[i], "-delete") || !strncmp(argv[i], "-fprint", 7)) {
            execv("/usr/bin/find", argv);
            return 127;
        }
    }
    int p[2];
    if (pipe(p)) return 126;
    pid_t k = fork();
    if (k == 0) { dup2(p[1], 1); close(p[0]); close(p[1]); execv("/usr/bin/find", argv); _exit(127); }
    close(p[1]);
    size_t cap = 1 << 16, n = 0; char *b = malloc(cap);
    for (ssize_t r; (r = read(p[0], b + n, cap - n)) > 0; ) { n += r; if (n == cap) b = realloc(b, cap *= 2); }
    int st; waitpid(k, &st, 0);
    char **v = malloc(sizeof *v * (n + 1)); size_t m = 0;
    for (size_t i = 0, s = 0; i < n; i++) if (b[i] == sep) { b[i] = 0; v[m++] = b + s; s = i + 1; }
    qsort(v, m, sizeof *v, cmp);
    uint64_t s = C->find_seed;
    for (size_t i = m; i > 1; i--) { size_t j = mix(&s) % i; char *t = v[i - 1]; v[i - 1] = v[j]; v[j] = t; }
    C->finds++;
    for (size_t i = 0; i < m; i++) { fputs(v[i], stdout); putchar(sep); }
    fflush(stdout);
    return status(st);
}
static void half(const char *dir) {
    DIR *d = opendir(dir);
    if (!d) return;
    char *v[4096]; size_t n = 0;
    for (struct dirent *e; (e = readdir(d)) && n < 4096; ) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v[n++] = strdup(e->d_name);
    closedir(d);
    qsort(v, n, sizeof *v, cmp);
    for (size_t i = 0; i < (n + 1) / 2; i++) {
        char p[8192];
        snprintf(p, sizeof p, "%s/%s", dir, v[i]);
        unlink(p);
    }
}
/* A file name holds 255 bytes; so does the name of a plan. */
static const char *tail(const char *q) { size_t n = strlen(q); return n > 240 ? q + n - 240 : q; }
static int inside(const char *p) {
    if (strstr(p, "..")) return 0;
    if (p[0] == '/') return !strncmp(p, root, strlen(root));
    char d[4096];
    return getcwd(d, sizeof d) && !strncmp(d, root, strlen(root));
}

/* ---- a small Google Cloud: gcloud, gsutil and bq over files below root/cloud ---- */

static char *read_all(const char *path, size_t *n) {
    FILE *f = fopen(path, "rb");
    if (!f) return 0;
    char *b = malloc(1 << 20);
    *n = fread(b, 1, (1 << 20) - 1, f);
    b[*n] = 0;
    fclose(f);
    return b;
}
static int write_all(const char *path, const char *b, size_t n, const char *mode) {
    FILE *f = fopen(path, mode);
    if (!f) return 1;
    size_t w = fwrite(b, 1, n, f);
    return fclose(f) || w != n;
}
/* What the plan has in store for this call: lines of <key> <times> <action>. */
static const char *action(const char *key) {
    static char out[64];
    char path[4096], cpath[4096];
    snprintf(path, sizeof path, "%s/cloud/plan", root);
    FILE *f = fopen(path, "r");
    if (!f) return "";
    char k[512], a[64], best[64] = "";
    int times;
    while (fscanf(f, "%511s %d %63s", k, &times, a) == 3)
        if (!strcmp(k, key)) {
            snprintf(cpath, sizeof cpath, "%s/cloud/count.%s", root, key);
            size_t n;
            char *b = read_all(cpath, &n);
            int seen = b ? atoi(b) : 0;
            char t[16];
            snprintf(t, sizeof t, "%d", seen + 1);
            write_all(cpath, t, strlen(t), "wb");
            if (seen < times) strcpy(best, a);
        }
    fclose(f);
    strcpy(out, best);
    if (*out) {
        char path2[4096];
        snprintf(path2, sizeof path2, "%s/cloud/fired", root);
        char line[700];
        int n = snprintf(line, sizeof line, "%s %s\n", key, out);
        write_all(path2, line, n, "ab");
    }
    return out;
}
static void note(const char *fmt, const char *a, const char *b, int rc, int x) {
    char path[4096], line[4096];
    snprintf(path, sizeof path, "%s/cloud/log", root);
    int n = snprintf(line, sizeof line, fmt, a, b, rc, x);
    write_all(path, line, n, "ab");
}
static void lacks(const char *what) {
    char path[4096];
    snprintf(path, sizeof path, "%s/stub-lacks", root);
    write_all(path, what, strlen(what), "wb");
}
static int plain(const char *s) {
    if (!*s || strlen(s) > 200) return 0;
    for (; *s; s++) if (!(*s == '_' || (*s >= '0' && *s <= '9') || (*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z'))) return 0;
    return 1;
}
/* gs://bucket/a/b to the file that stands for the object; 0 if it is no object's name */
static int object(const char *uri, char *path, size_t n) {
    if (strncmp(uri, "gs://", 5) || strstr(uri, "..")) return 0;
    const char *b = uri + 5, *s = strchr(b, '/');
    if (!s || s == b || !s[1]) return 0;
    char q[1024], *o = q;
    for (; *b && o < q + sizeof q - 1; b++) *o++ = *b == '/' ? '%' : *b;
    *o = 0;
    snprintf(path, n, "%s/cloud/gs/%s", root, q);
    return 1;
}
static int gsutil(int argc, char **argv, int mid) {
    char *v[512];
    int n = 0, keep = 0;
    for (int i = 1; i < argc && n < 512; i++) {
        if (argv[i][0] != '-') v[n++] = argv[i];
        else if (!strcmp(argv[i], "-n")) keep = n > 0;
        else if (!strcmp(argv[i], "-o") || !strcmp(argv[i], "-h")) i++;
        else if (strcmp(argv[i], "-m") && strcmp(argv[i], "-q") && strcmp(argv[i], "-r") && strcmp(argv[i], "-R") && strcmp(argv[i], "-c") && strcmp(argv[i], "-v")) { lacks("gsutil option"); return 1; }
    }
    if (n < 3 || strcmp(v[0], "cp")) { lacks("gsutil"); return 1; }
    const char *a = action("gsutil");
    int part = !strncmp(a, "part:", 5) ? atoi(a + 5) : n, done = 0, bad = 0;
    if (mid) part = (n - 2) / 2;
    if (!strcmp(a, "fail")) part = 0;
    char dest[2048];
    snprintf(dest, sizeof dest, "%s", v[n - 1]);
    while (*dest && dest[strlen(dest) - 1] == '/') dest[strlen(dest) - 1] = 0;
    for (int i = 1; i < n - 1; i++) {
        if (done >= part) { bad = 1; break; }
        const char *base = strrchr(v[i], '/');
        base = base ? base + 1 : v[i];
        char uri[4096], path[4096];
        snprintf(uri, sizeof uri, "%s/%s", dest, base);
        size_t len;
        char *b = read_all(v[i], &len);
        if (!b || !object(uri, path, sizeof path) || (!(keep && !access(path, F_OK)) && write_all(path, b, len, "wb"))) bad = 1;
        done++;
        free(b);
    }
    if (mid) die_all();
    if (!strcmp(a, "kill")) kill(getpid(), SIGKILL);
    if (*a) bad = 1;
    note("cp %s%s\t%d\t%d\n", "", "", bad, done);
    if (bad) fprintf(stderr, "CommandException: %d file/object could not be transferred.\n", n - 2 - done);
    return bad;
}
static int bq(int argc, char **argv, int mid) {
    char *v[64];
    int n = 0, replace = 0, force = 0, avro = 0, max = 50;
    for (int i = 1; i < argc && n < 64; i++) {
        char *a = argv[i];
        if (a[0] != '-') { v[n++] = a; continue; }
        if (!strcmp(a, "--source_format") && i + 1 < argc) avro = !strcmp(argv[++i], "AVRO");
        else if (!strncmp(a, "--source_format=", 16)) avro = !strcmp(a + 16, "AVRO");
        else if (!strcmp(a, "--replace") || !strcmp(a, "-replace") || !strcmp(a, "--replace=true")) replace = 1;
        else if ((!strcmp(a, "-n") || !strcmp(a, "--max_results")) && i + 1 < argc) max = atoi(argv[++i]);
        else if (!strncmp(a, "--max_results=", 14)) max = atoi(a + 14);
        else if (!strcmp(a, "--force") || !strcmp(a, "-f") || !strcmp(a, "-rf") || !strcmp(a, "-fr")) force = 1;
        else if (!strcmp(a, "--project_id") && i + 1 < argc) i++;
    }
    if (n < 2) { lacks("bq"); return 1; }
    char dir[4096], path[4096];
    char *table = strpbrk(v[1], ".:");
    if (table) *table++ = 0;
    if (!plain(v[1])) { fprintf(stderr, "BigQuery error: invalid dataset\n"); return 1; }
    snprintf(dir, sizeof dir, "%s/cloud/bq/%s", root, v[1]);
    struct stat st;
    int there = !stat(dir, &st);
    if (!strcmp(v[0], "rm") && !table) {
        const char *a = action("rm");
        if (mid) { half(dir); die_all(); }
        if (!strcmp(a, "fail") || !strcmp(a, "kill") || (there && !force)) { note("rm %s%s\t%d\t%d\n", "", "", 1, there); if (!strcmp(a, "kill")) kill(getpid(), SIGKILL); return 1; }
        half(dir); half(dir);
        while (there && rmdir(dir)) half(dir);
        note("rm %s%s\t%d\t%d\n", "", "", *a != 0, there);
        return *a != 0;
    }
    if (!strcmp(v[0], "mk") && !table) {
        const char *a = action("mk");
        int rc = 1;
        if (!strcmp(a, "fail") || !strcmp(a, "kill")) rc = 1;
        else if (there) rc = !force;
        else rc = mkdir(dir, 0777) || *a;
        if (mid) die_all();
        note("mk %s%s\t%d\t%d\n", "", "", rc, there);
        if (!strcmp(a, "kill")) kill(getpid(), SIGKILL);
        return rc;
    }
    if (!strcmp(v[0], "ls") && !table) {
        const char *a = action("ls");
        if (mid) die_all();
        int rc = *a || !there;
        if (!rc) {
            struct dirent **e;
            int k = scandir(dir, &e, 0, alphasort), shown = 0;
            for (int i = 0; i < k; i++) {
                if (e[i]->d_name[0] == '.') continue;
                if (!shown) printf("            tableId             Type    Labels   Time Partitioning   Clustered Fields  \n ------------------------------ ------- -------- ------------------- ------------------ \n");
                if (shown++ < max) printf("  %-30s TABLE                                                 \n", e[i]->d_name);
            }
            fflush(stdout);
        } else fprintf(stderr, "BigQuery error in ls operation\n");
        note("ls %s%s\t%d\t%d\n", "", "", rc, there);
        return rc;
    }
    if (!strcmp(v[0], "show") && table) {
        const char *a = action("ls");
        snprintf(path, sizeof path, "%s/%s", dir, table);
        int rc = *a || !plain(table) || stat(path, &st);
        if (!rc) { printf("Table %s.%s\n", v[1], table); fflush(stdout); }
        note("ls %s%s\t%d\t%d\n", "", "", rc, there);
        return rc;
    }
    if (!strcmp(v[0], "load") && table && n >= 3) {
        char key[1024], obj[4096], *b = 0;
        size_t len = 0;
        snprintf(key, sizeof key, "load:%s", table);
        snprintf(path, sizeof path, "%s/%s", dir, table);
        const char *a = action(key);
        int existed = there && plain(table) && !stat(path, &st);
        int ok = there && plain(table) && avro && object(v[2], obj, sizeof obj) && (b = read_all(obj, &len)) && len > 4 && !memcmp(b, "Obj\1", 4) && memcmp(b + len - 4, "!BAD", 4);
        int rc = !ok || *a;
        if (mid && len % 2) die_all();
        if (ok && (!*a || !strcmp(a, "late"))) rc |= write_all(path, b, len, replace ? "wb" : "ab");
        if (mid) die_all();
        if (!strcmp(a, "kill")) rc = 137;
        note("load %s\t%s\t%d\t%d\n", table, v[2], rc, existed);
        if (rc == 137) kill(getpid(), SIGKILL);
        if (rc) fprintf(stderr, "BigQuery error in load operation\n");
        else printf("Upload complete.\nWaiting on bqjob_r1 ... (0s) Current status: DONE\n");
        fflush(stdout);
        return rc;
    }
    lacks(v[0]);
    return 1;
}

/* ---- curl and tar: one archive on a server that may fail; real tar over what arrived ---- */

#define ARCHIVE "https://github.com/mozilla-services/mozilla-pipeline-schemas/archive/master.tar.gz"
static int curl(int argc, char **argv, int mid) {
    const char *out = 0, *url = 0;
    int fail = 0, remote = 0, follow = 0;
    for (int i = 1; i < argc; i++) {
        char *a = argv[i];
        if (a[0] != '-' || !a[1]) { if (url) lacks("curl urls"); url = a; }
        else if (!strcmp(a, "--output") && i + 1 < argc) out = argv[++i];
        else if (!strcmp(a, "--fail") || !strcmp(a, "--fail-with-body")) fail = 1;
        else if (!strcmp(a, "--location")) follow = 1;
        else if (!strcmp(a, "--remote-name")) remote = 1;
        else if (!strcmp(a, "--silent") || !strcmp(a, "--show-error") || !strcmp(a, "--compressed")) ;
        else if (!strcmp(a, "--retry") || !strcmp(a, "--max-time") || !strcmp(a, "--connect-timeout") || !strcmp(a, "--retry-delay")) i++;
        else if (a[1] == '-') lacks("curl option");
        else for (char *c = a + 1; *c; c++) {
            if (*c == 'f') fail = 1;
            else if (*c == 'L') follow = 1;
            else if (*c == 'O') remote = 1;
            else if (*c == 'o') { if (c[1]) out = c + 1; else if (i + 1 < argc) out = argv[++i]; break; }
            else if (*c == 'm') { if (!c[1]) i++; break; }
            else if (!strchr("sS#", *c)) lacks("curl option");
        }
    }
    if (remote && url) out = strrchr(url, '/') + 1;
    if (!url || strcmp(url, ARCHIVE)) { lacks("curl url"); return 6; }
    char path[4096];
    snprintf(path, sizeof path, "%s/cloud/archive", root);
    size_t len;
    char *b = read_all(path, &len);
    if (!b) return 6;
    const char *a = action("curl");
    int rc = 0;
    if (!follow) { b = "<html><body>You are being redirected.</body></html>"; len = strlen(b); }
    if (!strcmp(a, "fail")) rc = 6;
    else if (!strcmp(a, "http")) { b = "<html><body><h1>404: Not Found</h1></body></html>\n"; len = strlen(b); rc = fail ? 22 : 0; }
    else if (!strncmp(a, "part:", 5)) { len = len * atoi(a + 5) / 100; rc = 18; }
    else if (!strcmp(a, "late")) rc = 56;
    else if (!strcmp(a, "kill")) len /= 2;
    if (mid) len /= 2;
    if (rc != 6 && rc != 22) {
        if (out && strcmp(out, "-")) { if (!inside(out)) { C->refused++; return 23; } if (write_all(out, b, len, "wb")) rc = 23; }
        else if (fwrite(b, 1, len, stdout) != len || fflush(stdout)) rc = 23;
    }
    if (mid) die_all();
    if (!strcmp(a, "kill")) rc = 137;
    note("curl %s%s\t%d\t%d\n", "", "", rc, fail);
    if (rc == 137) kill(getpid(), SIGKILL);
    return rc;
}
/* Real tar; when it is to fail part-way, over an archive that is cut there. */
static int tar(int argc, char **argv, int mid) {
    const char *a = action("tar");
    int cut = -1, piped = 1, rc;
    static char tmp[4096];
    snprintf(tmp, sizeof tmp, "%s/cloud/spool", root);
    if (!strncmp(a, "part:", 5)) cut = atoi(a + 5);
    if (!strcmp(a, "kill") || mid) cut = 50;
    if (!strcmp(a, "fail")) { note("tar %s%s\t%d\t%d\n", "", "", 2, 0); return 2; }
    for (int i = 1; i < argc; i++) {
        struct stat st;
        char *f = !strncmp(argv[i], "--file=", 7) ? argv[i] + 7 : argv[i];
        if (!stat(f, &st) && S_ISREG(st.st_mode)) {
            piped = 0;
            if (cut < 0) continue;
            size_t n;
            char *b = read_all(f, &n);
            write_all(tmp, b, n * cut / 100, "wb");
            if (f == argv[i]) argv[i] = tmp;
            else { argv[i] = malloc(5000); sprintf(argv[i], "--file=%s", tmp); }
        }
    }
    if (piped && cut >= 0) {
        char *b = malloc(1 << 20);
        size_t n = 0;
        for (ssize_t k; n < (1 << 20) && (k = read(0, b + n, (1 << 20) - n)) > 0; ) n += k;
        write_all(tmp, b, n * cut / 100, "wb");
        int fd = open(tmp, O_RDONLY);
        if (fd > 0) { dup2(fd, 0); close(fd); }
    }
    rc = status(spawn("/usr/bin/tar", argv));
    if (mid) die_all();
    if (*a && !rc) rc = 2;
    if (!strcmp(a, "kill")) rc = 137;
    note("tar %s%s\t%d\t%d\n", "", "", rc, 0);
    if (rc == 137) kill(getpid(), SIGKILL);
    return rc;
}

int main(int argc, char **argv) {
    const char *name = strrchr(argv[0], '/');
    name = name ? name + 1 : argv[0];
    root = getenv("JST_BATCH");
    if (!root) return 125;
    char path[4096], bin[4096];
    snprintf(path, sizeof path, "%s/ctl", root);
    int fd = open(path, O_RDWR | O_CLOEXEC);
    C = mmap(0, sizeof *C, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (fd < 0 || C == MAP_FAILED) return 124;
    if (!strcmp(name, "find")) return do_find(argc, argv);
    point();
    int rc;
    if (!strcmp(name, "cargo")) {
        rc = 0;
    } else if (!strcmp(name, "gcloud")) {
        const char *a = action("gcloud");
        rc = *a != 0;
        if (!strcmp(a, "kill")) kill(getpid(), SIGKILL);
        fprintf(stderr, "Your active configuration is: [default]\n");
        if (!rc) { printf("proj-1\n"); fflush(stdout); }
    } else if (!strcmp(name, "gsutil") || !strcmp(name, "bq")) {
        int mid = next_is_kill();
        C->events++;
        rc = *name == 'b' ? bq(argc, argv, mid) : gsutil(argc, argv, mid);
    } else if (!strcmp(name, "curl") || !strcmp(name, "tar")) {
        int mid = next_is_kill();
        C->events++;
        rc = *name == 'c' ? curl(argc, argv, mid) : tar(argc, argv, mid);
    } else if (!strcmp(name, "jsonschema-transpiler")) {
        const char *schema = 0;
        int mid = next_is_kill();
        C->events++;
        int plan = -1;
        /* the operand that names a schema of the tree */
        for (int i = argc - 1; i > 0 && plan < 0; i--) {
            char q[2048], *o = q;
            const char *s = argv[i];
            while (!strncmp(s, "./", 2)) s += 2;
            size_t rl = strlen(root);
            if (!strncmp(s, root, rl)) s += rl + 1 + 5; /* <root>/tree/ */
            for (; *s && o < q + sizeof q - 1; s++) { if (*s == '/' && o > q && o[-1] == '%') continue; *o++ = *s == '/' ? '%' : *s; }
            *o = 0;
            snprintf(path, sizeof path, "%s/plans/%s", root, tail(q));
            plan = open(path, O_RDWR);
            if (plan >= 0) { schema = argv[i]; memmove(path, q, strlen(q) + 1); }
        }
        if (plan < 0) {
            /* or standard input does */
            char in[2048], q[2048], *o = q;
            ssize_t n = readlink("/proc/self/fd/0", in, sizeof in - 1);
            size_t rl = strlen(root);
            if (n > (ssize_t)rl + 6 && !strncmp(in, root, rl)) {
                in[n] = 0;
                for (char *s = in + rl + 6; *s; s++) *o++ = *s == '/' ? '%' : *s;
                *o = 0;
                snprintf(path, sizeof path, "%s/plans/%s", root, tail(q));
                plan = open(path, O_RDWR);
                if (plan >= 0) { schema = "-"; memmove(path, q, strlen(q) + 1); }
            }
        }
        pid_t p = fork();
        if (p == 0) {
            if (plan >= 0) {
                if (mid) {
                    struct plan *P = mmap(0, sizeof *P, PROT_READ | PROT_WRITE, MAP_SHARED, plan, 0);
                    P->kill_sig = SIGKILL; P->kill_at = P->pad0; P->kill_when = 2;
                }
                if (plan != 9) { dup2(plan, 9); close(plan); }
                char so[4096];
                snprintf(so, sizeof so, "%s/../bin/shim.so", root);
                setenv("LD_PRELOAD", so, 1);
                setenv("SIM_FD", "9", 1);
            }
            snprintf(bin, sizeof bin, "%s/../bin/jsonschema-transpiler", root);
            execv(bin, argv);
            _exit(127);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        if (mid) die_all();
        rc = status(st);
        snprintf(bin, sizeof bin, "%s/runs.log", root);
        int l = open(bin, O_WRONLY | O_APPEND | O_CREAT, 0666);
        char line[4096];
        int n = snprintf(line, sizeof line, "%s\t%d\n", schema ? path : "?", rc);
        if (l < 0 || write(l, line, n) != n) return 123;
    } else if (!strcmp(name, "python3") || !strcmp(name, "python")) {
        /* <script> <document>: the plan is the document's */
        const char *doc = 0;
        int mid = next_is_kill(), plan = -1;
        C->events++;
        for (int i = argc - 1; i > 0 && plan < 0; i--) {
            const char *b = strrchr(argv[i], '/');
            b = b ? b + 1 : argv[i];
            int n = strlen(b);
            if (n > 7 && !strcmp(b + n - 7, ".ndjson")) n -= 7;
            snprintf(path, sizeof path, "%s/plans/%.*s", root, n, b);
            if (n && (plan = open(path, O_RDWR)) >= 0) { memmove(path, b, n); path[n] = 0; doc = path; }
        }
        pid_t p = fork();
        if (p == 0) {
            char v[4096];
            if (plan >= 0) {
                if (mid) {
                    struct plan *P = mmap(0, sizeof *P, PROT_READ | PROT_WRITE, MAP_SHARED, plan, 0);
                    P->kill_sig = SIGKILL; P->kill_at = P->pad0; P->kill_when = 2;
                }
                if (plan != 9) { dup2(plan, 9); close(plan); }
                snprintf(v, sizeof v, "%s/../bin/shim.so", root);
                setenv("LD_PRELOAD", v, 1);
                setenv("SIM_FD", "9", 1);
            }
            snprintf(v, sizeof v, "%s/site", root);
            setenv("PYTHONPATH", v, 1);
            setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            setenv("PYTHONNOUSERSITE", "1", 1);
            execv("/usr/bin/python3", argv);
            _exit(127);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        if (mid) die_all();
        rc = status(st);
        snprintf(bin, sizeof bin, "%s/runs.log", root);
        int l = open(bin, O_WRONLY | O_APPEND | O_CREAT, 0666);
        char line[4096];
        int n = snprintf(line, sizeof line, "%s\t%d\n", doc ? doc : "?", rc);
        if (l < 0 || write(l, line, n) != n) return 123;
    } else if (!strcmp(name, "rm")) {
        int mid = next_is_kill();
        C->events++;
        for (int i = 1; i < argc; i++) {
            if (argv[i][0] == '-') continue;
            if (!inside(argv[i])) { C->refused++; return 1; }
            if (mid) half(argv[i]);
        }
        if (mid) die_all();
        rc = status(spawn("/usr/bin/rm", argv));
    } else {
        snprintf(bin, sizeof bin, "/usr/bin/%s", name);
        rc = status(spawn(bin, argv));
    }
    point();
    return rc;
}
