/*
 * Script-driven harness around the real microshell sources.
 *
 * It plays the integrator: supplies the I/O callbacks, the descriptor, the
 * virtual files and their callbacks, calls the public API as a script tells
 * it to, and writes down every interaction across the public interface, in
 * the order in which it happened, as one JSON event per line.  It contains no
 * knowledge of what the shell should do: the TLA+ specification judges the
 * recorded traces.
 *
 * usage: harness SCRIPTS OUT     (many scripts in one file; each one runs in
 *                                 its own process, so a crash is an event)
 */
#include "inc/ush.h"
#include "inc/ush_internal.h"     /* for commands with a process callback of their own */

#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <wchar.h>

#ifdef H_COVERAGE               /* tools/coverage.sh */
void __gcov_dump(void);
#define _exit(c) (__gcov_dump(), _Exit(c))
#endif

#define MAX_INST   20
#define CHUNK      (16u << 20)
#define MAX_FILES  1024
#define MAX_NODES  1024
#define MAX_GRP    1024
#define NOPROG     60000
#define MAX_OUT    (3u << 20)
#define MAX_SNAP   8

/* ------------------------------------------------------------- recording */

struct rec { volatile size_t len; volatile int open_w; /* bytes in the open event */ char data[]; };
static struct rec *g_rec[MAX_INST];
static volatile int *g_done;

struct node_slot { int used; struct ush_node_object *obj; char *path; };

struct snap;                    /* the shell's memory as it was at some time */

struct inst {
        int id, live, down;     /* down: deinitialised */
        struct ush_object *obj;
        struct ush_descriptor *desc;
        struct ush_io_interface *io;
        size_t isz, osz;

        unsigned char *fifo; size_t fifo_len, fifo_pos;
        char *wpat; size_t wpat_len, wpat_pos;
        char *rpat; size_t rpat_len, rpat_pos;

        int ops, polled, in_service, cb_depth;
        int last_wx;            /* char of a just recorded refused write, or -1 */
        int last_poll, last_idle;
        unsigned noprog;
        size_t written, total;

        const struct ush_file_descriptor *running;      /* of the latest exec or process callback */
        unsigned shared;        /* what it left in the shared processing fields */
        struct ush_file_descriptor *file[MAX_FILES];  /* by fid: master copy */
        struct { struct ush_file_descriptor *list; int *fid; size_t n; } grp[MAX_GRP];
        unsigned char *content[MAX_FILES]; size_t content_len[MAX_FILES];
        struct node_slot node[MAX_NODES];
        struct node_slot cmd[MAX_NODES];
        struct snap *snap[MAX_SNAP];
};
static struct inst g_inst[MAX_INST];
static struct inst *cur;
static int g_turned;             /* a script that puts saved memory back */

static void put(struct inst *in, const char *s, size_t n)
{
        struct rec *r = g_rec[in->id];
        if (r->len + n + 256 > CHUNK - sizeof(struct rec)) {
                const char *b = r->open_w ? "]}\n{\"e\":\"bad\",\"why\":\"runaway-trace\"}\n" : "{\"e\":\"bad\",\"why\":\"runaway-trace\"}\n";
                while (r->len && r->data[r->len - 1] != '\n') { if (r->data[r->len - 1] == '{') { r->len--; b = "{\"e\":\"bad\",\"why\":\"runaway-trace\"}\n"; break; } r->len--; }
                memcpy(r->data + r->len, b, strlen(b)); r->len += strlen(b);
                r->open_w = 0; *g_done = 1; _exit(0);
        }
        memcpy(r->data + r->len, s, n);
        r->len += n;
}

static void putf(struct inst *in, const char *fmt, ...)
{
        char b[512]; va_list ap; va_start(ap, fmt);
        int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        put(in, b, (size_t)n);
}

static void put_bytes(struct inst *in, const unsigned char *p, size_t n)
{
        put(in, "[", 1);
        for (size_t i = 0; i < n; i++) putf(in, i ? ",%u" : "%u", p[i]);
        put(in, "]", 1);
}

static void put_str(struct inst *in, const char *s) { put_bytes(in, (const unsigned char*)s, strlen(s)); }

static void close_w(struct inst *in)
{
        struct rec *r = g_rec[in->id];
        if (r->open_w) { put(in, "]}\n", 3); r->open_w = 0; }
        in->last_wx = -1;
        in->last_poll = in->last_idle = 0;
}

static void ev(struct inst *in) { close_w(in); in->noprog = 0; }

static void finish(int code)
{
        for (int i = 0; i < MAX_INST; i++) if (g_rec[i]->open_w) close_w(&g_inst[i]);
        *g_done = 1;
        _exit(code);
}

static void bad(struct inst *in, const char *why)
{
        close_w(in);
        putf(in, "{\"e\":\"bad\",\"why\":\"%s\"}\n", why);
        finish(0);
}

void h_assert_fail(const char *file, int line)
{
        (void)file; (void)line;
        bad(cur, "assert");
}

/* ---------------------------------------------- the shell allocates nothing
 * The allocator reports who calls it while the library (and none of the
 * application's callbacks) is running. */
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static volatile int g_inlib, g_alloc;

static void on_malloc(const volatile void *p, size_t n) { (void)p; (void)n; if (g_inlib) g_alloc = 1; }
static void on_free(const volatile void *p) { if (g_inlib && p) g_alloc = 1; }

static void lib_left(void) { g_inlib = 0; if (g_alloc) bad(cur, "memory-allocated"); }

/* from the application into the library, and back */
#define LIB(call)  do { int lib_ = g_inlib; g_inlib = 1; call; lib_left(); g_inlib = lib_; } while (0)
/* from the library into the application; leave with APP_END */
#define APP        int app_ = g_inlib; g_inlib = 0
#define APP_END    g_inlib = app_

/* ------------------------------------------------------------ script text */

struct line { char **w; int n; };
struct block { int kind, fid, inst, first, last, used; };
enum { K_EXEC, K_GET, K_SET, K_HOOK, K_PROC };

static struct line *g_line; static int g_nline;
static struct block g_block[4096]; static int g_nblock;

static unsigned char *unhex(const char *s, size_t *n)
{
        /* x<hex>; always a fresh exact-size, zero-ended copy */
        if (s[0] != 'x') { fprintf(stderr, "bad string %s\n", s); _exit(3); }
        size_t l = strlen(s + 1) / 2;
        unsigned char *p = malloc(l + 1);
        for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 1 + 2 * i, "%2x", &v); p[i] = (unsigned char)v; }
        p[l] = 0;
        if (n) *n = l;
        return p;
}

static char *ustr(const char *s) { return (char*)unhex(s, NULL); }

/* ------------------------------------------------------------ application data
 * What the application hands over to be read must stay as it is, and what it
 * hands over for the time of a call only must not be used any later. */
struct keep { const void *p; void *copy; size_t n; };
static struct keep *g_keep; static size_t g_nkeep;

static void *keep(const void *p, size_t n)
{
        if ((g_nkeep & (g_nkeep - 1)) == 0) g_keep = realloc(g_keep, sizeof *g_keep * (g_nkeep ? g_nkeep * 2 : 1));
        g_keep[g_nkeep].p = p; g_keep[g_nkeep].n = n;
        g_keep[g_nkeep].copy = malloc(n ? n : 1);
        memcpy(g_keep[g_nkeep].copy, p, n);
        g_nkeep++;
        return (void*)p;
}

static void check_kept(void)
{
        for (size_t i = 0; i < g_nkeep; i++)
                if (memcmp(g_keep[i].p, g_keep[i].copy, g_keep[i].n)) bad(cur, "application-data-modified");
}

static char *kstr(const char *s) { char *p = ustr(s); return keep(p, strlen(p) + 1); }

static void done_with(char *p, const char *hex)         /* end of a call that only borrowed a string */
{
        char *q = ustr(hex);
        if (strcmp(p, q)) bad(cur, "argument-modified");
        free(q);
        memset(p, '#', strlen(p));
        free(p);
}

/* ---------------------------------------------------------------- helpers */

static struct inst *owner(struct ush_object *self)
{
        for (int i = 0; i < MAX_INST; i++)
                if (g_inst[i].live && g_inst[i].obj == self) return &g_inst[i];
        bad(cur, "foreign-object");
        return NULL;
}

static int builtin_index(const struct ush_file_descriptor *f)
{
#if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
        if (f >= g_ush_buildin_commands && f < g_ush_buildin_commands + g_ush_buildin_commands_num)
                return (int)(f - g_ush_buildin_commands);
#else
        (void)f;
#endif
        return -1;
}

/* identity of a descriptor: fid > 0, -(i+1) for the i-th builtin, 0 for none */
static int file_id(struct inst *in, const struct ush_file_descriptor *f)
{
        if (f == NULL) return 0;
        for (int g = 0; g < MAX_GRP; g++)
                for (size_t i = 0; i < in->grp[g].n; i++)
                        if (&in->grp[g].list[i] == f) return in->grp[g].fid[i];
        int b = builtin_index(f);
        if (b >= 0) return -(b + 1);
        return 9999;
}

static int node_id(struct inst *in, const struct ush_node_object *n)
{
        if (n == NULL) return 0;
        for (int i = 1; i < MAX_NODES; i++) if (in->node[i].obj == n) return i;
        return 9999;
}

static void exec_lines(struct inst *in, int first, int last);

static int run_block(struct inst *in, int kind, int fid)
{
        for (int i = 0; i < g_nblock; i++) {
                struct block *b = &g_block[i];
                if (b->used || b->kind != kind || b->fid != fid || b->inst != in->id) continue;
                b->used = 1;
                in->cb_depth++;
                exec_lines(in, b->first, b->last);
                in->cb_depth--;
                return 1;
        }
        return 0;
}

/* -------------------------------------------------------------- callbacks */

static int io_read_(struct ush_object *self, char *ch)
{
        struct inst *in = owner(self);
        if (in != cur || !in->in_service) bad(cur, "io-outside-service");
        in->ops++;
        if (in->rpat_pos < in->rpat_len && in->rpat[in->rpat_pos++] == '0') { in->polled = 1; return 0; }
        if (in->fifo_pos >= in->fifo_len) { in->polled = 1; return 0; }
        unsigned char c = in->fifo[in->fifo_pos++];
        ev(in);
        putf(in, "{\"e\":\"r\",\"c\":%u}\n", c);
        *ch = (char)c;
        return 1;
}

static int io_read(struct ush_object *self, char *ch)
{
        APP; int r = io_read_(self, ch); APP_END;
        return r;
}

static int io_write_(struct ush_object *self, char ch)
{
        struct inst *in = owner(self);
        if (in != cur || !in->in_service) bad(cur, "io-outside-service");
        in->ops++;
        unsigned char c = (unsigned char)ch;
        if (in->wpat_pos < in->wpat_len && in->wpat[in->wpat_pos++] == '0') {
                if (in->last_wx != (int)c) {
                        close_w(in);
                        putf(in, "{\"e\":\"wx\",\"c\":%u}\n", c);
                        in->last_wx = c;
                }
                return 0;
        }
        struct rec *r = g_rec[in->id];
        in->noprog = 0;
        in->last_wx = -1;
        in->last_poll = in->last_idle = 0;
        if (r->open_w >= 2048) { put(in, "]}\n", 3); r->open_w = 0; }
        putf(in, r->open_w ? ",%u" : "{\"e\":\"w\",\"d\":[%u", c);
        r->open_w++;
        in->written++;
        if (++in->total > MAX_OUT) bad(in, "runaway-output");
        return 1;
}

static int io_write(struct ush_object *self, char ch)
{
        APP; int r = io_write_(self, ch); APP_END;
        return r;
}

static void put_args(struct inst *in, int argc, char *argv[])
{
        put(in, "\"a\":[", 5);
        for (int i = 0; i < argc; i++) { if (i) put(in, ",", 1); put_str(in, argv[i]); }
        put(in, "]}\n", 3);
        if (argv[argc] != NULL) bad(in, "argv-not-terminated");
}

static void cb_hook_(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
{
        struct inst *in = owner(self);
        if (in != cur) bad(cur, "foreign-callback");
        ev(in);
        putf(in, "{\"e\":\"hook\",\"f\":%d,", file_id(in, file));
        put_args(in, argc, argv);
        run_block(in, K_HOOK, 0);
        ev(in); putf(in, "{\"e\":\"ret\"}\n");
}

static void cb_hook(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
{
        APP; cb_hook_(self, file, argc, argv); APP_END;
}

static void cb_exec_(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
{
        struct inst *in = owner(self);
        if (in != cur) bad(cur, "foreign-callback");
        int id = file_id(in, file);
        ev(in);
        putf(in, "{\"e\":\"exec\",\"f\":%d,", id);
        put_args(in, argc, argv);
        in->running = file;
        run_block(in, K_EXEC, id);
        /* the vector and its strings are the handler's to modify */
        for (int i = 0; i < argc; i++) { memset(argv[i], 'Z', strlen(argv[i])); argv[i] = NULL; }
        ev(in); putf(in, "{\"e\":\"ret\"}\n");
}

static void cb_exec(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
{
        APP; cb_exec_(self, file, argc, argv); APP_END;
}

/* the fields of the shell object that a command which goes on can use for itself */
#ifdef SHARED_FIELDS
static uint8_t shared_at[64];
static void shared_set(struct inst *in)
{
        unsigned n = ++in->shared;
        in->obj->process_index = n * 7u + 1; in->obj->process_index_item = n * 13u + 5; in->obj->process_stage = (int)(n * 3u + 2);
        in->obj->process_data = &shared_at[n % 64]; in->obj->process_data_size = n * 5u + 3;
}
static void shared_check(struct inst *in)
{
        unsigned n = in->shared;
        if (in->obj->process_index != n * 7u + 1 || in->obj->process_index_item != n * 13u + 5 || in->obj->process_stage != (int)(n * 3u + 2) ||
            in->obj->process_data != &shared_at[n % 64] || in->obj->process_data_size != n * 5u + 3) bad(in, "shared-fields");
}
#else
#define shared_set(in)   ((void)0)
#define shared_check(in) ((void)0)
#endif

static void cb_proc_(struct ush_object *self, struct ush_file_descriptor const *file)
{
        struct inst *in = owner(self);
        if (in != cur) bad(cur, "foreign-callback");
        int id = file_id(in, file);
        if (in->ops++) bad(in, "several-operations-in-one-call");
        ev(in);
        putf(in, "{\"e\":\"proc\",\"f\":%d}\n", id);
        in->running = file;
        shared_check(in);
        if (!run_block(in, K_PROC, id)) {       /* nothing planned: end it */
                ev(in); putf(in, "{\"e\":\"print\",\"d\":[]}\n");
                ush_print(self, "");
        }
        shared_set(in);
        ev(in); putf(in, "{\"e\":\"ret\"}\n");
}

static void cb_proc(struct ush_object *self, struct ush_file_descriptor const *file)
{
        APP; cb_proc_(self, file); APP_END;
}

static size_t cb_get_(struct ush_object *self, struct ush_file_descriptor const *file, uint8_t **data)
{
        struct inst *in = owner(self);
        if (in != cur) bad(cur, "foreign-callback");
        int id = file_id(in, file);
        ev(in);
        putf(in, "{\"e\":\"get\",\"f\":%d}\n", id);
        run_block(in, K_GET, id);
        ev(in);
        size_t n = 0; unsigned char *p = NULL;
        if (id > 0 && id < MAX_FILES) { n = in->content_len[id]; p = in->content[id]; }
        unsigned char *copy = malloc(n ? n : 1);
        if (n) memcpy(copy, p, n);
        putf(in, "{\"e\":\"getr\",\"d\":"); put_bytes(in, copy, n); put(in, "}\n", 2);
        keep(copy, n);
        *data = copy;
        return n;
}

static size_t cb_get(struct ush_object *self, struct ush_file_descriptor const *file, uint8_t **data)
{
        APP; size_t r = cb_get_(self, file, data); APP_END;
        return r;
}

static void cb_set_(struct ush_object *self, struct ush_file_descriptor const *file, uint8_t *data, size_t size)
{
        struct inst *in = owner(self);
        if (in != cur) bad(cur, "foreign-callback");
        int id = file_id(in, file);
        ev(in);
        putf(in, "{\"e\":\"set\",\"f\":%d,\"d\":", id); put_bytes(in, data, size); put(in, "}\n", 2);
        if (id > 0 && id < MAX_FILES) {
                in->content[id] = malloc(size ? size : 1);
                if (size) memcpy(in->content[id], data, size);
                in->content_len[id] = size;
        }
        run_block(in, K_SET, id);
        memset(data, 0xA5, size);
        ev(in); putf(in, "{\"e\":\"ret\"}\n");
}

static void cb_set(struct ush_object *self, struct ush_file_descriptor const *file, uint8_t *data, size_t size)
{
        APP; cb_set_(self, file, data, size); APP_END;
}

/* -------------------------------------------------------------- main loop */

static int service(struct inst *in)
{
        cur = in;
        in->ops = 0; in->polled = 0; in->in_service = 1;
        bool busy; LIB(busy = ush_service(in->obj));
        in->in_service = 0;
        if (in->ops > 1) bad(in, "several-io-operations-in-one-call");
        if (in->polled) {
                if (busy) bad(in, "busy-without-input");
                if (!in->last_poll) { close_w(in); putf(in, "{\"e\":\"poll\"}\n"); }
                in->last_poll = 1;
        } else if (!busy) {
                /* told the integrator that there is nothing to do, without asking for input */
                if (!in->last_idle) { close_w(in); putf(in, "{\"e\":\"idle\"}\n"); }
                in->last_idle = 1;
        }
        if (in->ops) in->noprog = 0;
        if (++in->noprog > NOPROG) bad(in, "no-progress");
        return in->polled;
}

static void run_idle(struct inst *in)
{
        for (;;) {
                int polled = service(in);
                if (polled && in->fifo_pos >= in->fifo_len && in->rpat_pos >= in->rpat_len) break;
        }
}

static void put_files(struct inst *in, int g)
{
        put(in, "\"f\":[", 5);
        for (size_t i = 0; i < in->grp[g].n; i++) {
                struct ush_file_descriptor *f = &in->grp[g].list[i];
                if (i) put(in, ",", 1);
                putf(in, "{\"id\":%d,\"n\":", in->grp[g].fid[i]); put_str(in, f->name);
                putf(in, ",\"hd\":%d,\"d\":", f->description ? 1 : 0); put_str(in, f->description ? f->description : "");
                putf(in, ",\"hh\":%d,\"h\":", f->help ? 1 : 0); put_str(in, f->help ? f->help : "");
                putf(in, ",\"x\":%d,\"g\":%d,\"s\":%d,\"p\":%d,\"k\":\"app\"}", f->exec ? 1 : 0, f->get_data ? 1 : 0, f->set_data ? 1 : 0, f->process ? 1 : 0);
        }
        put(in, "]", 1);
}

/* what memory holds that nobody has initialised: zeroes, or something else */
static unsigned g_seed;
static int fill(void)
{
        g_seed = g_seed * 1103515245u + 12345u;
        return (g_seed >> 16) & 1 ? 0xA5 : 0;
}

static struct ush_node_object *slot(struct node_slot *t, int id)
{
        if (t[id].obj == NULL) {                /* memory the application never initialised */
                t[id].obj = malloc(sizeof(struct ush_node_object));
                memset(t[id].obj, fill(), sizeof(struct ush_node_object));
        }
        if (!t[id].used) t[id].used = 1;
        return t[id].obj;
}

static void release(struct inst *in, struct node_slot *t)       /* the application uses the memory for something else */
{
        memset(t->obj, 0xA5, sizeof(struct ush_node_object));
        if (!g_turned) free(t->obj);               /* may be put back otherwise */
        t->obj = NULL; t->path = NULL; t->used = 0;
}

/* what of the shell the application can save, and put back later: the memory it gave to it */
struct snap {
        struct ush_object obj;
        unsigned char *ibuf, *obuf;
        struct node_slot slot[2][MAX_NODES];
        struct ush_node_object mem[2][MAX_NODES];
        const struct ush_file_descriptor *running;
        unsigned shared;
        unsigned char *content[MAX_FILES]; size_t content_len[MAX_FILES];
};

static void save(struct inst *in, int k)
{
        struct snap *p = malloc(sizeof *p);
        p->obj = *in->obj;
        p->ibuf = malloc(in->isz); memcpy(p->ibuf, in->desc->input_buffer, in->isz);
        p->obuf = malloc(in->osz); memcpy(p->obuf, in->desc->output_buffer, in->osz);
        memcpy(p->slot[0], in->node, sizeof in->node);
        memcpy(p->slot[1], in->cmd, sizeof in->cmd);
        for (int t = 0; t < 2; t++)
                for (int i = 0; i < MAX_NODES; i++)
                        if (p->slot[t][i].obj) p->mem[t][i] = *p->slot[t][i].obj;
        p->running = in->running; p->shared = in->shared;
        memcpy(p->content, in->content, sizeof in->content);
        memcpy(p->content_len, in->content_len, sizeof in->content_len);
        in->snap[k] = p;
}

static void restore(struct inst *in, int k)
{
        struct snap *p = in->snap[k];
        struct node_slot *now[2] = { in->node, in->cmd };
        for (int t = 0; t < 2; t++)
                for (int i = 0; i < MAX_NODES; i++) {
                        if (now[t][i].obj && now[t][i].obj != p->slot[t][i].obj)
                                memset(now[t][i].obj, 0xA5, sizeof(struct ush_node_object));
                        now[t][i] = p->slot[t][i];
                        if (now[t][i].obj) *now[t][i].obj = p->mem[t][i];
                }
        *in->obj = p->obj;
        memcpy(in->desc->input_buffer, p->ibuf, in->isz);
        memcpy(in->desc->output_buffer, p->obuf, in->osz);
        in->running = p->running; in->shared = p->shared;
        memcpy(in->content, p->content, sizeof in->content);
        memcpy(in->content_len, p->content_len, sizeof in->content_len);
        in->down = 0;
}

/* what the application must not do; a history that was turned back may ask for it */
static int against_contract(struct inst *in, struct line *l)
{
        const char *k = l->w[0];
        char **a = l->w + 1;
        if (in->down) return !strchr("@iwrc", k[0]) && strcmp(k, "RI") && strcmp(k, "RT");
        if (strcmp(k, "RI") == 0) return 1;
        if (strcmp(k, "g") == 0 || strcmp(k, "s") == 0 || strcmp(k, "W") == 0) {       /* nothing to serve without a root */
                for (int i = 0; i < MAX_NODES; i++)
                        if (in->node[i].obj && in->node[i].path && strcmp(in->node[i].path, "/") == 0) return 0;
                return 1;
        }
        if (strcmp(k, "M") == 0) return in->node[atoi(a[0])].path != NULL;
        if (strcmp(k, "A") == 0) return in->cmd[atoi(a[0])].used == 2;
        return 0;
}

static int all_zero(const void *p, size_t n)
{
        const unsigned char *b = p;
        for (size_t i = 0; i < n; i++) if (b[i]) return 0;
        return 1;
}

static void do_init(struct inst *in)
{
        in->down = 0;
        ev(in);
        putf(in, "{\"e\":\"init\",\"v\":%d,\"i\":%zu,\"o\":%zu,\"p\":%zu,\"h\":", VCFG, in->isz, in->osz, in->desc->path_max_length);
        put_str(in, in->desc->hostname);
        putf(in, ",\"k\":%d}\n", in->desc->exec ? 1 : 0);
        LIB(ush_init(in->obj, in->desc));
}

static void exec_line(struct inst *in, struct line *l)
{
        const char *k = l->w[0];
        char **a = l->w + 1;
#define IS(s) (strcmp(k, s) == 0)
        if (g_turned && against_contract(in, l)) return;
        if (IS("SV")) {                         /* keep the memory of the shell */
                if (in->down || in->in_service) return;
                save(in, atoi(a[0]));
                ev(in); putf(in, "{\"e\":\"save\",\"k\":%d}\n", atoi(a[0]));
        } else if (IS("RT")) {                  /* put it back as it was then */
                if (in->in_service || in->snap[atoi(a[0])] == NULL) return;
                restore(in, atoi(a[0]));
                ev(in); putf(in, "{\"e\":\"restore\",\"k\":%d}\n", atoi(a[0]));
        } else if (IS("@")) {                          /* act on another instance, also from inside a callback */
                struct inst *save = cur;
                struct line sub = *l;
                sub.w += 2; sub.n -= 2;
                cur = &g_inst[atoi(a[0])];
                if (!cur->down) exec_line(cur, &sub);
                cur = save;
        } else if (IS("i")) {
                size_t n; unsigned char *p = unhex(a[0], &n);
                in->fifo = realloc(in->fifo, in->fifo_len + n + 1);
                memcpy(in->fifo + in->fifo_len, p, n); in->fifo_len += n;
        } else if (IS("w")) {
                in->wpat = strdup(a[0]); in->wpat_len = strlen(a[0]); in->wpat_pos = 0;
        } else if (IS("rp")) {
                in->rpat = strdup(a[0]); in->rpat_len = strlen(a[0]); in->rpat_pos = 0;
        } else if (IS("g")) {
                run_idle(in);
        } else if (IS("s")) {
                int n = atoi(a[0]); while (n-- > 0) service(in);
        } else if (IS("W")) {
                size_t target = in->written + (size_t)atoi(a[0]);
                while (in->written < target) {
                        int polled = service(in);
                        if (polled && in->fifo_pos >= in->fifo_len && in->rpat_pos >= in->rpat_len) break;
                }
        } else if (IS("M")) {
                int nid = atoi(a[0]); char *path = ustr(a[1]); int g = atoi(a[2]);
                struct ush_node_object *n = slot(in->node, nid);
                int r; LIB(r = (int)ush_node_mount(in->obj, path, n, in->grp[g].n ? in->grp[g].list : NULL, in->grp[g].n));
                ev(in);
                putf(in, "{\"e\":\"mount\",\"n\":%d,\"p\":", nid); put_str(in, path); put(in, ",", 1);
                put_files(in, g); putf(in, ",\"r\":%d}\n", r);
                if (r) done_with(path, a[1]);
                else in->node[nid].path = keep(path, strlen(path) + 1);
        } else if (IS("U")) {
                char *path = ustr(a[0]);
                int r; LIB(r = (int)ush_node_unmount(in->obj, path));
                ev(in);
                putf(in, "{\"e\":\"umount\",\"p\":"); put_str(in, path); putf(in, ",\"r\":%d}\n", r);
                for (int i = 1; r == 0 && i < MAX_NODES; i++)   /* the application may reuse the node's memory */
                        if (in->node[i].path && strcmp(in->node[i].path, path) == 0 && strcmp(path, "/")) release(in, &in->node[i]);
                done_with(path, a[0]);
        } else if (IS("A")) {
                int cid = atoi(a[0]); int g = atoi(a[1]);
                struct ush_node_object *n = slot(in->cmd, cid);
                int r; LIB(r = (int)ush_commands_add(in->obj, n, in->grp[g].list, in->grp[g].n));
                ev(in);
                if (r == 0) in->cmd[cid].used = 2;
                putf(in, "{\"e\":\"cadd\",\"n\":%d,", cid); put_files(in, g); putf(in, ",\"r\":%d}\n", r);
        } else if (IS("R")) {
                int cid = atoi(a[0]);
                struct ush_node_object *n = slot(in->cmd, cid);
                int r; LIB(r = (int)ush_commands_remove(in->obj, n));
                ev(in);
                putf(in, "{\"e\":\"crem\",\"n\":%d,\"r\":%d}\n", cid, r);
                if (r == 0) release(in, &in->cmd[cid]);
        } else if (IS("D")) {
                char *path = ustr(a[0]);
                int r; LIB(r = (int)ush_node_set_current_dir(in->obj, path));
                ev(in);
                putf(in, "{\"e\":\"cd\",\"p\":"); put_str(in, path); putf(in, ",\"r\":%d}\n", r);
                done_with(path, a[0]);
        } else if (IS("?")) {
                char *name = ustr(a[0]);
                struct ush_file_descriptor const *f; LIB(f = ush_file_find_by_name(in->obj, name));
                int r = file_id(in, f);
                ev(in);
                putf(in, "{\"e\":\"find\",\"p\":"); put_str(in, name); putf(in, ",\"r\":%d}\n", r);
                done_with(name, a[0]);
        } else if (IS("n") || IS("np")) {
                char *path = ustr(a[0]);
                struct ush_node_object *o;
                LIB(o = IS("n") ? ush_node_get_by_path(in->obj, path) : ush_node_get_parent_by_path(in->obj, path));
                int r = node_id(in, o);
                ev(in);
                putf(in, "{\"e\":\"%s\",\"p\":", IS("n") ? "node" : "pnode"); put_str(in, path); putf(in, ",\"r\":%d}\n", r);
                done_with(path, a[0]);
        } else if (IS("ab")) {
                char *path = ustr(a[0]);
                char *out = malloc(in->desc->path_max_length);
                LIB(ush_node_get_absolute_path(in->obj, path, out));
                ev(in);
                putf(in, "{\"e\":\"abs\",\"p\":"); put_str(in, path); putf(in, ",\"r\":"); put_str(in, out); put(in, "}\n", 2);
                free(out);
                done_with(path, a[0]);
        } else if (IS("P") || IS("N")) {
                char *t = kstr(a[0]);
                ev(in);
                putf(in, "{\"e\":\"%s\",\"d\":", IS("P") ? "print" : "pnnl"); put_str(in, t); put(in, "}\n", 2);
                if (IS("P")) LIB(ush_print(in->obj, t)); else LIB(ush_print_no_newline(in->obj, t));
        } else if (IS("PO") || IS("NO") || IS("FL")) {
                /* text placed by the application in the working output buffer */
                char *t = ustr(a[0]);
                size_t n = strlen(t); if (n > in->osz - 1) n = in->osz - 1;
                memcpy(in->desc->output_buffer, t, n); in->desc->output_buffer[n] = 0;
                ev(in);
                putf(in, "{\"e\":\"%s\",\"d\":", IS("PO") ? "printo" : IS("NO") ? "pnnlo" : "flush");
                put_str(in, in->desc->output_buffer); put(in, "}\n", 2);
                if (IS("PO")) LIB(ush_print(in->obj, in->desc->output_buffer));
                else if (IS("NO")) LIB(ush_print_no_newline(in->obj, in->desc->output_buffer));
                else LIB(ush_flush(in->obj));
        } else if (IS("FB")) {
                ev(in);
                putf(in, "{\"e\":\"flushb\"}\n");
                LIB(ush_flush(in->obj));
        } else if (IS("F")) {
                int kind = atoi(a[0]); char *t = ustr(a[1]); size_t n = strlen(t);
                ev(in);
                putf(in, "{\"e\":\"printf\",\"d\":");
                if (kind == 3) { char b[16]; snprintf(b, sizeof b, "%d", (int)n); put_str(in, b); }
                else put_str(in, t);
                put(in, "}\n", 2);
                if (kind == 1 && strchr(t, '%') == NULL) LIB(ush_printf(in->obj, t));
                else if (kind == 2) { int h = (int)(n / 2); LIB(ush_printf(in->obj, "%.*s%s", h, t, t + h)); }
                else if (kind == 3) LIB(ush_printf(in->obj, "%d", (int)n));
                else LIB(ush_printf(in->obj, "%s", t));
                done_with(t, a[1]);
        } else if (IS("FE")) {                  /* formatting fails after the text */
                char *t = ustr(a[0]);
                ev(in);
                putf(in, "{\"e\":\"printfe\",\"d\":"); put_str(in, t); put(in, "}\n", 2);
                LIB(ush_printf(in->obj, "%s%lc", t, (wint_t)0x12345678));
                done_with(t, a[0]);
        } else if (IS("PS")) {                  /* go on in the process callback */
                ev(in); putf(in, "{\"e\":\"ps\"}\n");
                shared_set(in);
                LIB(ush_process_start(in->obj, in->running));
        } else if (IS("PW") || IS("PB")) {      /* write, and then go on in the process callback */
                size_t n; unsigned char *t = IS("PW") ? (unsigned char*)kstr(a[0]) : unhex(a[0], &n);
                if (IS("PW")) n = strlen((char*)t);
                else keep(t, n);
                ev(in);
                putf(in, "{\"e\":\"pw\",\"d\":"); put_bytes(in, t, n); put(in, "}\n", 2);
                if (IS("PW")) LIB(ush_write_pointer(in->obj, (char*)t, USH_STATE_PROCESS_SERVICE));
                else LIB(ush_write_pointer_bin(in->obj, t, n, USH_STATE_PROCESS_FINISH));
        } else if (IS("ST")) {
                ev(in); putf(in, "{\"e\":\"status\",\"c\":%d}\n", atoi(a[0]));
                LIB(ush_print_status(in->obj, (ush_status_t)atoi(a[0])));
        } else if (IS("RS")) {
                ev(in); putf(in, "{\"e\":\"reset\"}\n");
                LIB(ush_reset(in->obj));
        } else if (IS("DI")) {
                LIB(ush_deinit(in->obj));
                in->down = 1;
                ev(in);
                putf(in, "{\"e\":\"deinit\",\"o\":%d,\"z\":[", all_zero(in->obj, sizeof *in->obj));
                int first = 1;
                for (int i = 0; i < MAX_NODES; i++)
                        if (in->node[i].obj && all_zero(in->node[i].obj, sizeof(struct ush_node_object))) {
                                putf(in, first ? "%d" : ",%d", i); first = 0;
                        }
                put(in, "]}\n", 3);
                for (int i = 0; i < MAX_NODES; i++) {
                        if (in->node[i].path && in->node[i].obj) release(in, &in->node[i]);
                        if (in->cmd[i].obj) release(in, &in->cmd[i]);
                }
        } else if (IS("RI")) {
                if (in->down) memset(in->obj, fill(), sizeof *in->obj);
                do_init(in);
        } else if (IS("c")) {                   /* new content of a file */
                int fid = atoi(a[0]);
                in->content[fid] = unhex(a[1], &in->content_len[fid]);
        } else {
                fprintf(stderr, "unknown op %s\n", k); _exit(3);
        }
}

static void exec_lines(struct inst *in, int first, int last)
{
        for (int i = first; i < last; i++) {
                struct line *l = &g_line[i];
                if (l->n == 0) continue;
                if (strcmp(l->w[0], "{") == 0) {      /* skip over the block */
                        while (strcmp(g_line[i].n ? g_line[i].w[0] : "", "}") != 0) i++;
                        continue;
                }
                struct inst *save = cur;
                cur = in;
                exec_line(in, l);
                cur = save;
        }
}

static void setup_line(struct line *l)
{
        char **a = l->w + 1;
        if (strcmp(l->w[0], "I") == 0) {
                int id = atoi(a[0]);
                struct inst *in = &g_inst[id];
                in->id = id; in->live = 1; in->last_wx = -1;
                in->isz = (size_t)atol(a[1]); in->osz = (size_t)atol(a[2]);
                in->obj = malloc(sizeof *in->obj); memset(in->obj, fill(), sizeof *in->obj);
                in->io = malloc(sizeof *in->io); in->io->read = io_read; in->io->write = io_write;
                in->desc = calloc(1, sizeof *in->desc);
                in->desc->io = in->io;
                in->desc->input_buffer = malloc(in->isz); memset(in->desc->input_buffer, fill(), in->isz);
                in->desc->input_buffer_size = in->isz;
                in->desc->output_buffer = malloc(in->osz); memset(in->desc->output_buffer, fill(), in->osz);
                in->desc->output_buffer_size = in->osz;
                in->desc->path_max_length = (size_t)atol(a[3]);
                in->desc->hostname = ustr(a[4]);
                in->desc->exec = atoi(a[5]) ? cb_hook : NULL;
                keep(in->io, sizeof *in->io); keep(in->desc, sizeof *in->desc); keep(in->desc->hostname, strlen(in->desc->hostname) + 1);
                cur = in;
                do_init(in);
        } else if (strcmp(l->w[0], "fd") == 0) {
                int fid = atoi(a[0]);
                if (g_turned && cur->file[fid]) return;         /* there already */
                struct ush_file_descriptor *f = calloc(1, sizeof *f);
                f->name = kstr(a[1]);
                f->description = a[2][0] == '-' ? NULL : kstr(a[2]);
                f->help = a[3][0] == '-' ? NULL : kstr(a[3]);
                if (strchr(a[4], 'x')) f->exec = cb_exec;
                if (strchr(a[4], 'p')) f->process = cb_proc;
                if (strchr(a[4], 'g')) f->get_data = cb_get;
                if (strchr(a[4], 's')) f->set_data = cb_set;
                cur->file[fid] = f;
                cur->content[fid] = unhex(a[5], &cur->content_len[fid]);
        } else if (strcmp(l->w[0], "gl") == 0) {
                int g = atoi(a[0]); int n = l->n - 2;
                if (g_turned && cur->grp[g].list) return;
                cur->grp[g].n = (size_t)n;
                cur->grp[g].list = malloc(sizeof(struct ush_file_descriptor) * (size_t)(n ? n : 1));
                cur->grp[g].fid = malloc(sizeof(int) * (size_t)(n ? n : 1));
                for (int i = 0; i < n; i++) {
                        cur->grp[g].fid[i] = atoi(a[1 + i]);
                        memcpy(&cur->grp[g].list[i], cur->file[atoi(a[1 + i])], sizeof(struct ush_file_descriptor));
                }
                keep(cur->grp[g].list, sizeof(struct ush_file_descriptor) * (size_t)n);
        } else {
                fprintf(stderr, "unknown setup %s\n", l->w[0]); _exit(3);
        }
}

static void run_script(void)
{
        /* collect the callback blocks first */
        int who = 0;
        for (int i = 0; i < g_nline; i++) {
                struct line *l = &g_line[i];
                if (!l->n) continue;
                if (strcmp(l->w[0], "S") == 0 || strcmp(l->w[0], "I") == 0) who = atoi(l->w[1]);
                if (strcmp(l->w[0], "SV") == 0) g_turned = 1;
                if (strcmp(l->w[0], "{") != 0) continue;
                struct block *b = &g_block[g_nblock++];
                const char *k = l->w[1];
                b->kind = !strcmp(k, "exec") ? K_EXEC : !strcmp(k, "get") ? K_GET : !strcmp(k, "set") ? K_SET : !strcmp(k, "proc") ? K_PROC : K_HOOK;
                b->fid = l->n > 2 ? atoi(l->w[2]) : 0;
                b->inst = who; b->used = 0; b->first = i + 1;
                while (strcmp(g_line[i].n ? g_line[i].w[0] : "", "}") != 0) i++;
                b->last = i;
        }
        for (int i = 0; i < g_nline; i++) {
                struct line *l = &g_line[i];
                if (!l->n) continue;
                const char *k = l->w[0];
                if (!strcmp(k, "I") || !strcmp(k, "fd") || !strcmp(k, "gl")) setup_line(l);
                else if (!strcmp(k, "S")) cur = &g_inst[atoi(l->w[1])];
                else if (!strcmp(k, "{")) { while (strcmp(g_line[i].n ? g_line[i].w[0] : "", "}") != 0) i++; }
                else { exec_line(cur, l); if (g_nkeep < 200 || i % 16 == 0) check_kept(); }
        }
        check_kept();
        for (int i = 0; i < MAX_INST; i++) if (g_inst[i].live) close_w(&g_inst[i]);
        finish(0);
}

static void split(char *s, struct line *l)
{
        size_t n = 1;
        for (char *t = s; *t; t++) n += *t == ' ';
        l->w = malloc(sizeof(char*) * (n + 1)); l->n = 0;
        for (char *t = strtok(s, " "); t; t = strtok(NULL, " ")) l->w[l->n++] = t;
}

int main(int argc, char *argv[])
{
        if (argc != 3) return 2;
        if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
        FILE *f = fopen(argv[1], "r"), *o = fopen(argv[2], "w");
        if (!f || !o) return 2;
        for (int i = 0; i < MAX_INST; i++)
                g_rec[i] = mmap(NULL, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        g_done = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        char *buf = NULL; size_t cap = 0; ssize_t len;
        g_line = calloc(20000, sizeof *g_line);
        char name[128] = "";
        int more = 1, hangs = 0, stop = 0;
        while (more && !stop) {
                len = getline(&buf, &cap, f);
                more = len >= 0;
                if (more && len > 0 && buf[len - 1] == '\n') buf[--len] = 0;
                if (!more || buf[0] == 'T') {
                        if (g_nline) {
                                for (int i = 0; i < MAX_INST; i++) { g_rec[i]->len = 0; g_rec[i]->open_w = 0; }
                                *g_done = 0;
                                fflush(o);
                                pid_t pid = fork();
                                if (pid < 0) return 2;
                                if (pid == 0) {
                                        struct rlimit rl = { 5, 6 };
                                        setrlimit(RLIMIT_CPU, &rl);
                                        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
                                        run_script();
                                }
                                int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
                                if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 7)) return 4;
                                const char *why = NULL;
                                if (!*g_done) {
                                        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) why = "hang";
                                        else why = "crash";
                                        /* enough has been seen when the shell keeps dying */
                                        if ((why[0] == 'h' ? (hangs += 10) : ++hangs) > 30) { more = 0; stop = 1; }
                                }
                                for (int i = 0; i < MAX_INST; i++) {
                                        if (g_rec[i]->len == 0) continue;
                                        if (why && !g_rec[i]->open_w)           /* drop an event broken off by a crash */
                                                while (g_rec[i]->len && g_rec[i]->data[g_rec[i]->len - 1] != '\n') g_rec[i]->len--;
                                        fprintf(o, "{\"e\":\"begin\",\"t\":\"%s\",\"s\":%d}\n", name, i);
                                        fwrite(g_rec[i]->data, 1, g_rec[i]->len, o);
                                        if (why) {
                                                if (g_rec[i]->open_w) fprintf(o, "]}\n");
                                                fprintf(o, "{\"e\":\"bad\",\"why\":\"%s\"}\n", why);
                                        }
                                        fprintf(o, "{\"e\":\"end\"}\n");
                                }
                                for (int i = 0; i < g_nline; i++) { if (g_line[i].n) free(g_line[i].w[0]); free(g_line[i].w); }
                                g_nline = 0;
                        }
                        if (more) {
                                snprintf(name, sizeof name, "%s", buf + 2);
                                g_seed = 2166136261u;
                                for (char *c = name; *c; c++) g_seed = (g_seed ^ (unsigned char)*c) * 16777619u;
                        }
                        continue;
                }
                if (g_nline >= 20000) return 5;
                if (len == 0) continue;
                split(strdup(buf), &g_line[g_nline++]);
        }
        free(buf);
        fclose(o);
        return 0;
}
