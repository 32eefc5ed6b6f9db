/* A scripted tracker that speaks the protocol by itself (no part of the library is used).
 *   argv / TRK_SCRIPT: steps separated by ';', scripts of successive launches separated by '|' (TRK_COUNT
 *   TRK_HELLO: the text of the hello message; TRK_LEGACY: initialize is a request of its own.  TRK_COUNT
 *   names a file that counts the launches; the last script is repeated).  TRK_DELAY: ms before every answer.  TRK_LOG: file that receives
 *   "L <launch>" and one line "<type>\t<image>" for every message read. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
extern char** environ;
static int in = 0, out = 1, logfd = -1, stubborn = 0, launch = 0;
static void hex(FILE* f, const char* s, size_t n) { if (!n) fputc('-', f); for (size_t i = 0; i < n; i++) fprintf(f, "%02x", (unsigned char) s[i]); }
static void report(const char* path, char** argv) {
    char tmp[4200], link[64], buf[4200]; snprintf(tmp, sizeof tmp, "%s.tmp", path);
    FILE* f = fopen(tmp, "we"); if (!f) return;
    for (int i = 0; argv[i]; i++) { fprintf(f, "arg "); hex(f, argv[i], strlen(argv[i])); fputc('\n', f); }
    for (char** e = environ; *e; e++) { fprintf(f, "env "); hex(f, *e, strlen(*e)); fputc('\n', f); }
    if (getcwd(buf, sizeof buf)) { fprintf(f, "cwd "); hex(f, buf, strlen(buf)); fputc('\n', f); }
    for (int fd = 0; fd < 256; fd++) {
        if (fd == fileno(f) || fd == logfd) continue;
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(link, buf, sizeof buf - 1); if (n < 0) continue; buf[n] = 0;
        fprintf(f, "fd %d %s %d\n", fd, buf, fcntl(fd, F_GETFL) & O_ACCMODE);
    }
    fclose(f); rename(tmp, path);
}
static void put(const char* s, size_t n) { while (n) { ssize_t k = write(out, s, n); if (k < 0) { if (errno == EINTR) continue; if (!stubborn) _exit(0); pause(); } s += k; n -= k; } }
static void puts_(const char* s) { put(s, strlen(s)); }
static char* line; static size_t cap, len; static char rb[65536]; static ssize_t rn, rp;
static int recv_line(void) {                     /* 0 at the end of the stream */
    len = 0;
    for (;;) {
        if (rp == rn) { rn = read(in, rb, sizeof rb); rp = 0; if (rn < 0 && errno == EINTR) { rn = 0; continue; } if (rn <= 0) { rn = 0; return 0; } }
        if (len + 2 > cap) { cap = cap ? cap * 2 : 4096; line = realloc(line, cap); }
        char c = rb[rp++];
        if (c == '\n') { line[len] = 0; return 1; }
        line[len++] = c;
    }
}
static const char* kind(void) { return !strncmp(line, "@@TRAX:", 7) ? line + 7 : ""; }
static void note(void) { if (logfd >= 0) { char b[5000]; int n = snprintf(b, sizeof b, "%.4500s\n", line); if (n > (int) sizeof b - 1) n = sizeof b - 1; if (write(logfd, b, n)) {} } }
static void gone(void) { if (stubborn) for (;;) pause(); _exit(0); }
/* replies by frame: lines "<name>[@<launch>] <action>" of TRK_PLAN where name is the end of the image path, or "=<part of the request>" */
static char* plan(int nth) {
    const char* p = getenv("TRK_PLAN"); if (!p) return NULL;
    FILE* f = fopen(p, "re"); if (!f) return NULL;
    char* l = NULL; size_t n = 0; static char buf[100000];
    while (getline(&l, &n, f) > 0) {
        l[strcspn(l, "\n")] = 0;
        char* sp = strchr(l, ' '); if (!sp) continue; *sp = 0;
        int want = -1; char* at = strchr(l, '@'); if (at) { *at = 0; want = atoi(at + 1); }
        char key[300]; snprintf(key, sizeof key, *l == '=' ? "%s" : "/%s\"", *l == '=' ? l + 1 : l);
        if ((want < 0 || want == launch) && strstr(line, key)) { snprintf(buf, sizeof buf, "%s", sp + 1); fclose(f); free(l); return buf; }
    }
    fclose(f); free(l); return NULL;
}
static void run(char** argv, char* script);
static void dial(void) {
    struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(atoi(getenv("TRAX_SOCKET"))); sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    in = out = socket(AF_INET, SOCK_STREAM, 0); if (connect(in, (struct sockaddr*) &sa, sizeof sa)) { if (stubborn) pause(); _exit(90); }
}
static void step(char** argv, char* s) {
    char* a = strchr(s, ':'); if (a) *a++ = 0;
    if (!strcmp(s, "hello")) { puts_("@@TRAX:hello "); puts_(a && *a ? a : getenv("TRK_HELLO") ? getenv("TRK_HELLO") : "\"trax.version=4\" \"trax.name=Script\" \"trax.image=path;memory\" \"trax.region=rectangle;polygon\" \"trax.channels=color\""); puts_(" \n"); }
    else if (!strcmp(s, "state")) { puts_("@@TRAX:state \""); puts_(a && *a ? a : "1,2,3,4"); puts_("\" \n"); }
    else if (!strcmp(s, "say")) { puts_("@@TRAX:"); puts_(a); puts_(" \n"); }
    else if (!strcmp(s, "text")) { puts_(a); }
    else if (!strcmp(s, "line")) { puts_(a); puts_("\n"); }
    else if (!strcmp(s, "err")) { if (write(2, a, strlen(a))) {} if (write(2, "\n", 1)) {} }
    else if (!strcmp(s, "recv")) { if (!recv_line()) gone(); note(); if (!strncmp(kind(), "quit", 4)) gone(); }
    else if (!strcmp(s, "ask")) { do { if (!recv_line()) gone(); note(); if (!strncmp(kind(), "quit", 4)) gone(); } while (strncmp(kind(), "frame", 5)); }
    else if (!strcmp(s, "connect")) { if (getenv("TRAX_SOCKET") && *getenv("TRAX_SOCKET")) { if (atoi(a) < 0) for (;;) pause(); usleep(atoi(a) * 1000); dial(); } }
    else if (!strcmp(s, "answer")) {             /* answer[:n] n requests (default: until the end) */
        int n = a ? atoi(a) : -1;
        while (n) {
            if (!recv_line()) gone();
            note();
            if (!strncmp(kind(), "quit", 4)) gone();
            if (!strncmp(kind(), "frame", 5) || (getenv("TRK_LEGACY") && !strncmp(kind(), "initialize", 10))) { if (n > 0) n--; if (getenv("TRK_DELAY")) usleep(atoi(getenv("TRK_DELAY")) * 1000); char* p = plan(0); if (p) { char* c = strdup(p); run(argv, c); free(c); } else puts_("@@TRAX:state \"1,2,3,4\" \n"); }
        }
    }
    else if (!strcmp(s, "sleep")) usleep(atoi(a) * 1000);
    else if (!strcmp(s, "hang")) for (;;) pause();
    else if (!strcmp(s, "spin")) for (;;) usleep(20000);
    else if (!strcmp(s, "exit")) _exit(a ? atoi(a) : 0);
    else if (!strcmp(s, "sig")) { signal(atoi(a), SIG_DFL); kill(getpid(), atoi(a)); }
    else if (!strcmp(s, "stop")) kill(getpid(), SIGSTOP);
    else if (!strcmp(s, "stubborn")) { stubborn = 1; signal(SIGTERM, SIG_IGN); signal(SIGINT, SIG_IGN); signal(SIGHUP, SIG_IGN); signal(SIGPIPE, SIG_IGN); }
    else if (!strcmp(s, "closeout")) { close(out); for (int i = 3; i < 64; i++) if (i != logfd && i != in) close(i); }
    else if (!strcmp(s, "closein")) { close(in); for (int i = 3; i < 64; i++) if (i != logfd && i != out) close(i); }
    else if (!strcmp(s, "closeerr")) { close(2); }
    else if (!strcmp(s, "flood")) { char b[4096]; memset(b, 'x', sizeof b); if (!a) memset(b + 4000, '\n', 1); for (;;) put(b, sizeof b); }
    else if (!strcmp(s, "flooderr")) { char b[4096]; memset(b, 'e', sizeof b); b[4095] = '\n'; for (;;) if (write(2, b, sizeof b) < 0) break; }
    else if (!strcmp(s, "noise")) { int n = atoi(a); while (n--) { puts_("noise noise noise noise noise\n"); if (write(2, "err err err\n", 12)) {} } }
    else if (!strcmp(s, "drip")) { const char* m = "@@TRAX:state \"1,2,3,4\" \n"; for (; *m; m++) { put(m, 1); usleep(atoi(a) * 1000); } }
    else if (!strcmp(s, "report")) report(a, argv);
    else if (!strcmp(s, "unplug")) { signal(SIGPIPE, SIG_IGN); close(in); close(out); for (int i = 3; i < 64; i++) if (i != logfd) close(i); }
    else if (*s) { fprintf(stderr, "unknown step %s\n", s); _exit(99); }
}
static void run(char** argv, char* script) {
    char* s = script;
    while (s && *s) { char* e = strchr(s, ';'); if (e) *e++ = 0; step(argv, s); s = e; }
}
int main(int argc, char** argv) {
    const char* e;
    if ((e = getenv("TRK_LOG"))) { logfd = open(e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); logfd = fcntl(logfd, F_DUPFD_CLOEXEC, 150); }
    if ((e = getenv("TRK_COUNT"))) {
        int fd = open(e, O_RDWR | O_CREAT | O_CLOEXEC, 0644); char b[16] = {0}; flock(fd, LOCK_EX);
        if (read(fd, b, 15) > 0) launch = atoi(b);
        lseek(fd, 0, SEEK_SET); snprintf(b, sizeof b, "%d\n", launch + 1); if (write(fd, b, strlen(b))) {} close(fd);
    }
    if (logfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "L %d %d\n", launch, (int) getpid()); if (write(logfd, b, n)) {} }
    if ((e = getenv("TRK_REPORT"))) report(e, argv);
    const char* sc = getenv("TRK_SCRIPT"); if (!sc) sc = "hello;answer";
    char* all = strdup(sc); char* p = all; int k = launch;
    while (k > 0 && strchr(p, '|')) { p = strchr(p, '|') + 1; k--; }
    p[strcspn(p, "|")] = 0;
    if ((e = getenv("TRAX_SOCKET")) && *e) {
        if (getenv("TRK_NOCONNECT")) for (;;) pause();
        if (!strstr(p, "connect:")) dial();
    } else {
        if ((e = getenv("TRAX_IN")) && *e) in = atoi(e);
        if ((e = getenv("TRAX_OUT")) && *e) out = atoi(e);
    }
    run(argv, p);
    return 0;
}
