/* small driver shared by the demonstrations */
#include "inc/ush.h"
#include "inc/ush_node.h"
#include "inc/ush_commands.h"
#include "inc/ush_file.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct ush_file_descriptor F;
static const char *g_in; static size_t g_inn, g_inp;
static char g_out[1 << 20]; static size_t g_outn;
static char g_log[65536];                       /* calls of user callbacks */
static int (*g_read_hook)(void), (*g_write_hook)(void);   /* 0: not ready */
static int t_read(struct ush_object *o, char *c) { if (g_read_hook && !g_read_hook()) return 0; if (g_inp >= g_inn) return 0; *c = g_in[g_inp++]; return 1; }
static int t_write(struct ush_object *o, char c) { if (g_write_hook && !g_write_hook()) return 0; if (g_outn + 1 < sizeof g_out) g_out[g_outn++] = c; return 1; }
static const struct ush_io_interface g_io = {t_read, t_write};
static char g_ib[512], g_ob[128];
static struct ush_descriptor g_desc = {.io = &g_io, .input_buffer = g_ib, .input_buffer_size = sizeof g_ib, .output_buffer = g_ob, .output_buffer_size = sizeof g_ob, .path_max_length = 64, .hostname = "h"};
static struct ush_object S;
static void run_n(const char *in, size_t n) {
    g_in = in; g_inn = n; g_inp = 0; g_outn = 0;
    long idle = 0;
    for (long i = 0; i < 5000000; i++) {
        if (ush_service(&S)) idle = 0; else idle++;
        if (g_inp >= g_inn && idle > 40) { g_out[g_outn] = 0; return; }
    }
    fprintf(stderr, "shell hangs\n"); exit(3);
}
static const char *run(const char *in) { run_n(in, strlen(in)); return g_out; }
static int has(const char *needle) { return strstr(g_out, needle) != NULL; }
static int times(const char *needle) { int n = 0; for (const char *p = g_out; (p = strstr(p, needle)); p++) n++; return n; }
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "broken: %s\noutput: %s\nlog: %s\n", #c, g_out, g_log); exit(1); } } while (0)
static void x_log(struct ush_object *o, F const *f, int argc, char *argv[]) {
    strcat(g_log, f ? f->name : "generic"); for (int i = 0; i < argc; i++) { strcat(g_log, "|"); strcat(g_log, argv[i]); } strcat(g_log, ";");
    if (argv[argc]) strcat(g_log, "NOT NULL");
}
static size_t g_datan; static unsigned char g_data[200000];
static size_t x_get(struct ush_object *o, F const *f, uint8_t **d) { *d = g_data; return g_datan; }
static size_t x_name(struct ush_object *o, F const *f, uint8_t **d) { *d = (uint8_t *)f->name; return strlen(f->name); }
static void x_set(struct ush_object *o, F const *f, uint8_t *d, size_t n) { memcpy(g_data, d, n); g_datan = n; }
static struct ush_node_object N[400];
static void boot(void) { ush_init(&S, &g_desc); }
