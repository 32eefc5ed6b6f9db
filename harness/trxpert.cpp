// trxproc with a layer between the library and the operating system: single calls can be delayed, and
// everything that is done to processes and descriptors is recorded.
//   PERT    "<call>@<role>:<n>:<ms>;..."  the n-th such call of that role (m main, w watchdog, l other, * any) is preceded by a pause
//   PERT_TRACE  file that receives the record
#include <atomic>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <errno.h>
#define W(R, N, ...) extern "C" R __real_##N(__VA_ARGS__); extern "C" R __wrap_##N(__VA_ARGS__)
namespace pert {
enum { LOCK, UNLOCK, READ, WRITE, SEND, RECV, SELECT, POLL, ACCEPT, CLOSE, KILL, WAITPID, SPAWN, PIPE, KINDS };
static const char* name[] = {"lock", "unlock", "read", "write", "send", "recv", "select", "poll", "accept", "close", "kill", "waitpid", "spawn", "pipe"};
struct Delay { int kind; char role; long n; int ms; };
static std::vector<Delay> delays; static std::atomic<long> count[KINDS][4]; static std::atomic<int> created{0};
static FILE* trace = nullptr; static bool armed = false; static long lines = 0;
static thread_local int me = -1; static thread_local bool inside = false;
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*); extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
static pthread_mutex_t order = PTHREAD_MUTEX_INITIALIZER;
static char role() { return me == 0 ? 'm' : me == 1 ? 'w' : 'l'; }      // threads of the library are numbered as they are created: watchdog, logger
struct Start { void* (*f)(void*); void* a; int id; };
static void* begin(void* p) { Start s = *(Start*) p; delete (Start*) p; me = s.id; return s.f(s.a); }
static void arm() {
    armed = true; me = 0;
    const char* e = getenv("PERT"); std::string s = e ? e : "";
    for (size_t i = 0; i < s.size();) {
        size_t j = s.find(';', i); if (j == std::string::npos) j = s.size();
        std::string t = s.substr(i, j - i); i = j + 1;
        char k[32], r; long n; int ms; if (sscanf(t.c_str(), "%31[a-z]@%c:%ld:%d", k, &r, &n, &ms) != 4) continue;
        for (int x = 0; x < KINDS; x++) if (!strcmp(k, name[x])) delays.push_back({x, r, n, ms});
    }
    if ((e = getenv("PERT_TRACE"))) { int fd = open(e, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); fd = fcntl(fd, F_DUPFD_CLOEXEC, 210); trace = fdopen(fd, "w"); }
}
static void point(int k) {
    if (!armed || inside) return;
    char r = role(); int ri = r == 'm' ? 0 : r == 'w' ? 1 : 2;
    long a = ++count[k][ri], b = ++count[k][3];
    for (auto& d : delays) if (d.kind == k && ((d.role == r && d.n == a) || (d.role == '*' && d.n == b))) { timespec t = {d.ms / 1000, d.ms % 1000 * 1000000L}; syscall(SYS_nanosleep, &t, nullptr); }
}
static void note(const char* what, long a, long b) {
    if (!trace || inside || lines > 60000) return;
    inside = true;
    __real_pthread_mutex_lock(&order); lines++; fprintf(trace, "%s %d %ld %ld\n", what, me, a, b); __real_pthread_mutex_unlock(&order);
    inside = false;
}
static void finish() { inside = true; if (trace) { if (lines <= 60000) for (int k = 0; k < KINDS; k++) fprintf(trace, "count %s %ld %ld %ld %ld\n", name[k], count[k][0].load(), count[k][1].load(), count[k][2].load(), count[k][3].load()); fclose(trace); trace = nullptr; } }
}
using namespace pert;
W(int, pthread_mutex_unlock, pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(LOCK); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); point(UNLOCK); return r; }
W(ssize_t, read, int, void*, size_t); W(ssize_t, write, int, const void*, size_t); W(ssize_t, send, int, const void*, size_t, int); W(ssize_t, recv, int, void*, size_t, int);
ssize_t __wrap_read(int fd, void* b, size_t n) { point(READ); note("use", fd, 0); ssize_t r = __real_read(fd, b, n); int e = errno; note("done", fd, r < 0 ? -e : r); errno = e; return r; }
ssize_t __wrap_write(int fd, const void* b, size_t n) { point(WRITE); note("use", fd, 1); ssize_t r = __real_write(fd, b, n); int e = errno; note("done", fd, r < 0 ? -e : r); errno = e; return r; }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { point(SEND); note("use", fd, 1); ssize_t r = __real_send(fd, b, n, f); int e = errno; note("done", fd, r < 0 ? -e : r); errno = e; return r; }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { point(RECV); note("use", fd, 0); ssize_t r = __real_recv(fd, b, n, f); int e = errno; note("done", fd, r < 0 ? -e : r); errno = e; return r; }
W(int, select, int, fd_set*, fd_set*, fd_set*, timeval*); W(int, poll, pollfd*, nfds_t, int); W(int, accept, int, sockaddr*, socklen_t*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* t) {
    point(SELECT); std::vector<int> fds; for (int i = 0; i < n; i++) if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w))) fds.push_back(i);
    for (int f : fds) note("use", f, 0);
    int q = __real_select(n, r, w, x, t); int e = errno;
    for (int f : fds) note("done", f, q < 0 ? -e : q);
    errno = e; return q;
}
int __wrap_poll(pollfd* p, nfds_t n, int t) {
    point(POLL); for (nfds_t i = 0; i < n; i++) note("use", p[i].fd, 0);
    int q = __real_poll(p, n, t); int e = errno; for (nfds_t i = 0; i < n; i++) note("done", p[i].fd, q < 0 ? -e : p[i].revents & POLLNVAL ? -EBADF : q); errno = e; return q;
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* l) { point(ACCEPT); note("use", fd, 0); int r = __real_accept(fd, a, l); int e = errno; note("done", fd, r < 0 ? -e : 0); if (r >= 0) note("open", r, 0); errno = e; return r; }
W(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { return __real_pthread_create(t, a, begin, new Start{f, x, ++created}); }
W(int, socket, int, int, int);
int __wrap_socket(int d, int t, int p) { int r = __real_socket(d, t, p); if (r >= 0) note("open", r, 0); return r; }
W(int, close, int); W(int, kill, pid_t, int); W(pid_t, waitpid, pid_t, int*, int); W(int, pipe, int*);
int __wrap_close(int fd) { point(CLOSE); note("close", fd, 0); int r = __real_close(fd); int e = errno; if (r) note("badclose", fd, e); errno = e; return r; }
int __wrap_kill(pid_t p, int s) { point(KILL); note("kill", p, s); return __real_kill(p, s); }
pid_t __wrap_waitpid(pid_t p, int* s, int o) { point(WAITPID); int st = 0; pid_t r = __real_waitpid(p, &st, o); int e = errno; if (r > 0 && (WIFEXITED(st) || WIFSIGNALED(st))) note("reap", r, 0); if (r < 0) note("nochild", p, e); if (s) *s = st; errno = e; return r; }
int __wrap_pipe(int* f) { point(PIPE); int r = __real_pipe(f); if (!r) { note("open", f[0], 0); note("open", f[1], 0); } return r; }
extern "C" int __real_posix_spawnp(pid_t*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const*, char* const*);
extern "C" int __wrap_posix_spawnp(pid_t* p, const char* f, const posix_spawn_file_actions_t* a, const posix_spawnattr_t* t, char* const* v, char* const* e) { point(SPAWN); int r = __real_posix_spawnp(p, f, a, t, v, e); if (!r) note("spawn", *p, 0); return r; }
// the driver itself is not disturbed
#define PERT_ARM pert::arm()
#define PERT_IN(X) struct In { bool b; In() : b(pert::inside) { pert::inside = true; } ~In() { pert::inside = b; } } in_
#define PERT_END pert::finish()
#include "trxproc.cpp"
