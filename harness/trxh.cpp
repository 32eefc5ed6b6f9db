// Scripted driver of the TraX C API.  Reads operations from a file (one per line), performs each
// against the real library and prints one JSON object per operation.
// Every endpoint talks through two pipes (or a TCP pair) whose far ends belong to the harness, so the
// script decides which bytes arrive, when, and in which pieces; read/write/recv/send of the library are
// wrapped at link time only to cut transfers into pieces and to record the true traffic.
#include "lit.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <fstream>
#include <memory>
#include <set>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

using namespace lit;
using std::string;
using std::vector;

static volatile long live_allocs = 0;
static void on_malloc(const volatile void*, size_t) { __atomic_add_fetch(&live_allocs, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void* p) { if (p) __atomic_sub_fetch(&live_allocs, 1, __ATOMIC_RELAXED); }

// ------------------------------------------------------------------ wrapped I/O
static int rchunk = 0, wchunk = 0;                  // 0 = unlimited
static int eintr = 0, eintr_n = 0;                  // every eintr-th transfer of the library is interrupted by a "signal"
static bool interrupted() { if (eintr > 0 && ++eintr_n % eintr == 0) { errno = EINTR; return true; } return false; }
static std::map<int, struct Endpoint*>* fdmap;      // library fd -> endpoint
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
}

struct Endpoint {
    int id = 0;
    char kind = 0;                 // 's' 'c'
    bool tcp = false;
    trax_handle* h = NULL;
    int feed = -1, drain = -1;     // harness side
    int lib_in = -1, lib_out = -1; // library side (files)
    int listen = -1; int port = 0; // tcp
    string log; long flushes = 0;  // what the log callback received
    string tread, twritten;        // bytes handed to / taken from the library by the kernel
    size_t drained = 0;            // how many of twritten the harness has taken out
    string pend;                   // drained but not yet pumped
};

static void rec_read(int fd, const char* b, ssize_t n) { if (n > 0 && fdmap) { auto i = fdmap->find(fd); if (i != fdmap->end()) i->second->tread.append(b, n); } }
static void rec_write(int fd, const char* b, ssize_t n) { if (n > 0 && fdmap) { auto i = fdmap->find(fd); if (i != fdmap->end()) i->second->twritten.append(b, n); } }

extern "C" {
ssize_t __wrap_read(int fd, void* b, size_t n) {
    if (fdmap && fdmap->count(fd) && interrupted()) return -1;
    if (rchunk > 0 && n > (size_t) rchunk) n = rchunk;
    ssize_t r = __real_read(fd, b, n); rec_read(fd, (char*) b, r); return r;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
    if (fdmap && fdmap->count(fd) && interrupted()) return -1;
    if (rchunk > 0 && n > (size_t) rchunk) n = rchunk;
    ssize_t r = __real_recv(fd, b, n, f); rec_read(fd, (char*) b, r); return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (fdmap && fdmap->count(fd) && interrupted()) return -1;
    if (wchunk > 0 && n > (size_t) wchunk) n = wchunk;
    ssize_t r = __real_write(fd, b, n); rec_write(fd, (const char*) b, r); return r;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
    if (fdmap && fdmap->count(fd) && interrupted()) return -1;
    if (wchunk > 0 && n > (size_t) wchunk) n = wchunk;
    ssize_t r = __real_send(fd, b, n, f); rec_write(fd, (const char*) b, r); return r;
}
}

static void on_log(const char* s, int n, void* d) {
    Endpoint* e = (Endpoint*) d;
    if (s) e->log.append(s, n); else e->flushes++;
}

// ------------------------------------------------------------------ case state
static std::map<int, std::unique_ptr<Endpoint>> eps;
static std::map<int, trax_properties*> P;
static std::map<int, trax_object_list*> O;
static std::map<int, trax_image_list*> L;
static std::map<int, trax_image*> I;
static std::map<int, trax_region*> R;
static string case_id;
static long live_at_begin = 0;
static int alarm_s = 20;

static void out(const string& s) { fwrite(s.data(), 1, s.size(), stdout); fputc('\n', stdout); fflush(stdout); }
static void on_alarm(int) {
    const char m[] = "{\"hang\":1}\n";
    ssize_t r = __real_write(1, m, sizeof m - 1); (void) r;
    _exit(3);
}

static Endpoint& ep(const string& t) {
    auto i = eps.find(atoi(t.c_str()));
    if (i == eps.end()) { fprintf(stderr, "no endpoint %s in %s\n", t.c_str(), case_id.c_str()); exit(97); }
    return *i->second;
}

static void mkfiles(Endpoint& e) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { perror("pipe"); exit(97); }
    fcntl(a[1], F_SETPIPE_SZ, 1 << 20); fcntl(b[1], F_SETPIPE_SZ, 1 << 20);
    e.lib_in = a[0]; e.feed = a[1]; e.lib_out = b[1]; e.drain = b[0];
    (*fdmap)[e.lib_in] = &e; (*fdmap)[e.lib_out] = &e;
    fcntl(e.drain, F_SETFL, O_NONBLOCK); fcntl(e.feed, F_SETFL, O_NONBLOCK);
}
static int mklisten(int* port) {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr("127.0.0.1");
    if (bind(s, (struct sockaddr*) &a, sizeof a) || ::listen(s, 4)) { perror("bind"); exit(97); }
    socklen_t n = sizeof a; getsockname(s, (struct sockaddr*) &a, &n); *port = ntohs(a.sin_port);
    return s;
}
static void feed_bytes(Endpoint& e, const string& d) {
    size_t k = 0;
    while (k < d.size()) {
        ssize_t r = e.tcp ? __real_send(e.feed, d.data() + k, d.size() - k, MSG_NOSIGNAL) : __real_write(e.feed, d.data() + k, d.size() - k);
        if (r <= 0) break;
        k += r;
    }
}
static void collect(Endpoint& e) {
    char b[65536];
    int idle = 0;
    if (e.drain < 0) return;
    while (1) {
        struct pollfd p = { e.drain, POLLIN, 0 };
        int more = e.drained < e.twritten.size();
        int r = poll(&p, 1, more ? 200 : 0);
        if (r <= 0) { if (more && ++idle < 5) continue; break; }
        ssize_t n = e.tcp ? __real_recv(e.drain, b, sizeof b, MSG_DONTWAIT) : __real_read(e.drain, b, sizeof b);
        if (n <= 0) break;
        e.drained += n; e.pend.append(b, n);
    }
}
static trax_logging logger(Endpoint& e, const string& mode) { return mode == "nolog" ? trax_no_log : trax_logger_setup(on_log, &e, 0); }

static string err_of(Endpoint& e) { return e.h ? hexz(trax_get_error(e.h)) : "~"; }
static string tail(Endpoint& e) {
    return ",\"err\":\"" + err_of(e) + "\",\"alive\":" + (e.h ? (trax_is_alive(e.h) ? "1" : "0") : "-1") + "}";
}

static void close_ep(Endpoint& e) {
    if (e.h) { trax_cleanup(&e.h); }
    if (e.feed >= 0) close(e.feed);
    if (e.drain >= 0 && e.drain != e.feed) close(e.drain);
    if (e.lib_in >= 0) { fdmap->erase(e.lib_in); if (!e.tcp) close(e.lib_in); }
    if (e.lib_out >= 0) { fdmap->erase(e.lib_out); if (!e.tcp && e.lib_out != e.lib_in) close(e.lib_out); }
    if (e.listen >= 0) close(e.listen);
}

static void end_case() {
    for (auto& x : eps) close_ep(*x.second);
    eps.clear();
    for (auto& x : P) trax_properties_release(&x.second);
    P.clear();
    for (auto& x : O) trax_object_list_release(&x.second);
    O.clear();
    for (auto& x : L) if (x.second) trax_image_list_release(&x.second);
    L.clear();
    for (auto& x : I) if (x.second) trax_image_release(&x.second);
    I.clear();
    for (auto& x : R) if (x.second) trax_region_release(&x.second);
    R.clear();
    fdmap->clear();
    rchunk = wchunk = eintr = 0;
}

static string js(const char* k, const string& v) { return string(",\"") + k + "\":\"" + v + "\""; }
static string ji(const char* k, long v) { return string(",\"") + k + "\":" + std::to_string(v); }
static string head(const string& op) { return "{\"op\":\"" + op + "\""; }

// "raw" images argument for illegal calls: "~" as NULL list
static void run(const vector<string>& a) {
    const string& op = a[0];
    if (op == "open") { // open id kind f|t : transport exists before set-up (client side)
        Endpoint* e = new Endpoint; e->id = atoi(a[1].c_str()); e->kind = 'c'; e->tcp = a.back() == "t";
        eps[e->id].reset(e);
        if (!e->tcp) mkfiles(*e);
        else {
            e->listen = mklisten(&e->port);
            int s = socket(AF_INET, SOCK_STREAM, 0);
            struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(e->port); x.sin_addr.s_addr = inet_addr("127.0.0.1");
            if (connect(s, (struct sockaddr*) &x, sizeof x)) { perror("connect"); exit(97); }
            int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            e->feed = e->drain = s;
        }
        return;
    }
    if (op == "sset") { // id f|t version rf if ch flags name desc family custom [nolog]
        Endpoint* e = new Endpoint; e->id = atoi(a[1].c_str()); e->kind = 's'; e->tcp = a[2] == "t";
        eps[e->id].reset(e);
        string name = unhex(a[8]), desc = unhex(a[9]), fam = unhex(a[10]);
        trax_metadata* m = trax_metadata_create(atoi(a[4].c_str()), atoi(a[5].c_str()), atoi(a[6].c_str()),
            isnull(a[8]) ? NULL : name.c_str(), isnull(a[9]) ? NULL : desc.c_str(), isnull(a[10]) ? NULL : fam.c_str(), atoi(a[7].c_str()));
        if (a[11] == "~") trax_properties_release(&m->custom);
        else { trax_properties* p = props(a[11]); trax_properties_append(p, m->custom, 1); trax_properties_release(&p); }
        string lm = a.size() > 12 ? a[12] : "log";
        if (!e->tcp) {
            mkfiles(*e);
            e->h = trax_server_setup_file_v(m, e->lib_in, e->lib_out, logger(*e, lm), atoi(a[3].c_str()));
        } else {
            e->listen = mklisten(&e->port);
            setenv("TRAX_SOCKET", std::to_string(e->port).c_str(), 1);
            e->lib_in = -1;
            // the library's socket is the lowest free descriptor: record it by probing
            int probe = dup(0); close(probe);
            e->lib_in = e->lib_out = probe; (*fdmap)[probe] = e;
            e->h = trax_server_setup_v(m, logger(*e, lm), atoi(a[3].c_str()));
            unsetenv("TRAX_SOCKET");
            e->feed = e->drain = accept(e->listen, NULL, NULL);
            int one = 1; setsockopt(e->feed, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        }
        trax_metadata_release(&m);
        out(head(op) + ji("ok", e->h != NULL) + tail(*e));
        return;
    }
    if (op == "cset") { // id [nolog]
        Endpoint& e = ep(a[1]);
        string lm = a.size() > 2 ? a[2] : "log";
        if (!e.tcp) e.h = trax_client_setup_file(e.lib_in, e.lib_out, logger(e, lm));
        else {
            int probe = dup(0); close(probe);
            e.lib_in = e.lib_out = probe; (*fdmap)[probe] = &e;
            e.h = trax_client_setup_socket(e.listen, 5, logger(e, lm));
        }
        string s = head(op) + ji("ok", e.h != NULL);
        if (e.h) {
            const trax_metadata* m = e.h->metadata;
            int v = -1, mo = -1, cl = -1, so = -1;
            trax_get_parameter(e.h, TRAX_PARAMETER_VERSION, &v); trax_get_parameter(e.h, TRAX_PARAMETER_MULTIOBJECT, &mo);
            trax_get_parameter(e.h, TRAX_PARAMETER_CLIENT, &cl); trax_get_parameter(e.h, TRAX_PARAMETER_SOCKET, &so);
            s += ji("version", v) + ji("multi", mo) + ji("client", cl) + ji("socket", so) + ji("rf", m->format_region) + ji("if", m->format_image)
               + ji("ch", m->channels) + ji("flags", m->flags)
               + js("name", hexz(m->tracker_name)) + js("desc", hexz(m->tracker_description)) + js("family", hexz(m->tracker_family)) + js("custom", props_out(m->custom));
        }
        out(s + tail(e));
        return;
    }
    if (op == "param") { // id
        Endpoint& e = ep(a[1]); int v = -1, mo = -1, cl = -1, so = -1;
        trax_get_parameter(e.h, TRAX_PARAMETER_VERSION, &v); trax_get_parameter(e.h, TRAX_PARAMETER_MULTIOBJECT, &mo);
        trax_get_parameter(e.h, TRAX_PARAMETER_CLIENT, &cl); trax_get_parameter(e.h, TRAX_PARAMETER_SOCKET, &so);
        out(head(op) + ji("version", v) + ji("multi", mo) + ji("client", cl) + ji("socket", so) + tail(e)); return;
    }
    if (op == "feed") { feed_bytes(ep(a[1]), unhex(a[2])); return; }
    if (op == "eof") { Endpoint& e = ep(a[1]); if (e.tcp) shutdown(e.feed, SHUT_WR); else { close(e.feed); e.feed = -1; } return; }
    if (op == "hup") { Endpoint& e = ep(a[1]); collect(e); if (!e.tcp) { close(e.drain); e.drain = -1; } else { close(e.drain); e.drain = e.feed = -1; } return; }
    if (op == "rchunk") { rchunk = atoi(a[1].c_str()); return; }
    if (op == "wchunk") { wchunk = atoi(a[1].c_str()); return; }
    if (op == "eintr") { eintr = atoi(a[1].c_str()); eintr_n = 0; return; }
    if (op == "pump") { // from to [max]
        Endpoint& x = ep(a[1]); Endpoint& y = ep(a[2]); collect(x);
        size_t n = a.size() > 3 ? (size_t) atoi(a[3].c_str()) : x.pend.size();
        if (n > x.pend.size()) n = x.pend.size();
        string d = x.pend.substr(0, n); x.pend.erase(0, n); feed_bytes(y, d);
        if (a.size() > 3) out(head(op) + ji("n", n) + js("d", hex(d)) + "}");
        return;
    }
    if (op == "drain") { Endpoint& e = ep(a[1]); collect(e); out(head(op) + js("d", hex(e.pend)) + "}"); e.pend.clear(); return; }
    if (op == "log") { Endpoint& e = ep(a[1]); out(head(op) + js("d", hex(e.log)) + ji("fl", e.flushes) + "}"); e.log.clear(); return; }
    if (op == "traffic") { Endpoint& e = ep(a[1]); out(head(op) + js("r", hex(e.tread)) + js("w", hex(e.twritten)) + "}"); return; }
    if (op == "info") {
        Endpoint& e = ep(a[1]);
        int v = -9, r0 = trax_get_parameter(e.h, TRAX_PARAMETER_VERSION, &v), cl = -9, r1 = trax_get_parameter(e.h, TRAX_PARAMETER_CLIENT, &cl), so = -9, r2 = trax_get_parameter(e.h, TRAX_PARAMETER_SOCKET, &so), mo = -9, r3 = trax_get_parameter(e.h, TRAX_PARAMETER_MULTIOBJECT, &mo);
        int bad = -9, r4 = trax_get_parameter(e.h, 77, &bad);
        out(head(op) + ji("r0", r0) + ji("version", v) + ji("r1", r1) + ji("client", cl) + ji("r2", r2) + ji("socket", so) + ji("r3", r3) + ji("multi", mo) + ji("r4", r4) + ji("bad", bad) + ji("set", trax_set_parameter(e.h, 0, 1)) + tail(e));
        return;
    }
    if (op == "swait" || op == "swaits") { // id props
        Endpoint& e = ep(a[1]);
        trax_image_list* im = NULL; trax_properties* p = props(a[2]);
        string s;
        int r;
        if (op == "swait") {
            trax_object_list* ob = NULL;
            r = trax_server_wait_mot(e.h, &im, &ob, p);
            s = js("images", images_out(im)) + js("objects", objects_out(ob));
            if (ob) trax_object_list_release(&ob);
        } else {
            trax_region* rg = NULL;
            r = trax_server_wait_sot(e.h, &im, &rg, p);
            s = js("images", images_out(im)) + js("objects", rg ? region_out(rg) : "~");
            if (rg) trax_region_release(&rg);
        }
        out(head(op) + ji("r", r) + s + js("props", props_out(p)) + tail(e));
        images_free(im); if (p) trax_properties_release(&p);
        return;
    }
    if (op == "cwait") {
        Endpoint& e = ep(a[1]);
        trax_object_list* ob = NULL; trax_properties* p = props(a[2]);
        int r = trax_client_wait(e.h, &ob, p);
        out(head(op) + ji("r", r) + js("objects", objects_out(ob)) + js("props", props_out(p)) + tail(e));
        if (ob) trax_object_list_release(&ob);
        if (p) trax_properties_release(&p);
        return;
    }
    if (op == "cinit" || op == "cframe") { // id images objects props
        Endpoint& e = ep(a[1]);
        trax_image_list* im = images(a[2]); trax_object_list* ob = objects(a[3]); trax_properties* p = props(a[4]);
        int r = op == "cinit" ? trax_client_initialize(e.h, im, ob, p) : trax_client_frame(e.h, im, ob, p);
        out(head(op) + ji("r", r) + tail(e));
        images_free(im); if (ob) trax_object_list_release(&ob); if (p) trax_properties_release(&p);
        return;
    }
    if (op == "sreply") { // id objects
        Endpoint& e = ep(a[1]); trax_object_list* ob = objects(a[2]);
        int r = trax_server_reply_mot(e.h, ob);
        out(head(op) + ji("r", r) + tail(e));
        if (ob) trax_object_list_release(&ob);
        return;
    }
    if (op == "sreplys") { // id region props
        Endpoint& e = ep(a[1]); trax_region* rg = region(a[2]); trax_properties* p = props(a[3]);
        int r = trax_server_reply_sot(e.h, rg, p);
        out(head(op) + ji("r", r) + tail(e));
        if (rg) trax_region_release(&rg); if (p) trax_properties_release(&p);
        return;
    }
    if (op == "term") { Endpoint& e = ep(a[1]); string s = unhex(a[2]); int r = trax_terminate(e.h, isnull(a[2]) ? NULL : s.c_str()); out(head(op) + ji("r", r) + tail(e)); return; }
    if (op == "clean") { Endpoint& e = ep(a[1]); int r = trax_cleanup(&e.h); out(head(op) + ji("r", r) + ji("null", e.h == NULL) + "}"); return; }
    // ---------------------------------------------------------------- regions
    if (op == "renc") { trax_region* r = region(a[1]); char* t = trax_region_encode(r); out(head(op) + js("d", hexz(t)) + "}"); free(t); trax_region_release(&r); return; }
    if (op == "rdec") { // text -> region, its text again
        string t = unhex(a[1]); trax_region* r = trax_region_decode(t.c_str());
        string s = js("v", region_out(r));
        if (r) { char* u = trax_region_encode(r); s += js("d", hexz(u)); free(u); trax_region_release(&r); }
        out(head(op) + s + "}"); return;
    }
    if (op == "rt") { // region -> text -> region -> text
        trax_region* r = region(a[1]); char* t = trax_region_encode(r); trax_region* q = t ? trax_region_decode(t) : NULL;
        string s = js("d", hexz(t)) + js("v", region_out(q));
        if (q) { char* u = trax_region_encode(q); s += js("d2", hexz(u)); free(u); trax_region_release(&q); }
        free(t); trax_region_release(&r); out(head(op) + s + "}"); return;
    }
    if (op == "rconv") { trax_region* r = region(a[1]); trax_region* q = trax_region_convert(r, atoi(a[2].c_str())); string s = js("v", region_out(q)) + js("src", region_out(r)); if (q) trax_region_release(&q); trax_region_release(&r); out(head(op) + s + "}"); return; }
    if (op == "rbounds") { trax_region* r = region(a[1]); trax_bounds b = trax_region_bounds(r); trax_region_release(&r); out(head(op) + js("l", num(b.left)) + js("t", num(b.top)) + js("r", num(b.right)) + js("b", num(b.bottom)) + "}"); return; }
    if (op == "rclone") { trax_region* r = region(a[1]); trax_region* q = trax_region_clone(r); trax_region_release(&r); string s = js("v", region_out(q)); if (q) trax_region_release(&q); out(head(op) + s + "}"); return; }
    if (op == "rover") { // A B [l t r b]
        trax_region* x = region(a[1]); trax_region* y = region(a[2]); trax_bounds b = trax_no_bounds;
        if (a.size() > 6) { b.left = strtof(a[3].c_str(), 0); b.top = strtof(a[4].c_str(), 0); b.right = strtof(a[5].c_str(), 0); b.bottom = strtof(a[6].c_str(), 0); }
        float o = trax_region_overlap(x, y, b);
        string s = js("o", num(o));
        if (x) trax_region_release(&x); if (y) trax_region_release(&y);
        out(head(op) + s + "}"); return;
    }
    if (op == "rcont") { // region, then points x:y ...  -> string of 0/1
        trax_region* r = region(a[1]); string s;
        for (auto& q : split(a[2], ',')) { auto f = split(q, ':'); s += trax_region_contains(r, strtof(f[0].c_str(), 0), strtof(f[1].c_str(), 0)) ? '1' : '0'; }
        trax_region_release(&r); out(head(op) + js("v", s) + "}"); return;
    }
    if (op == "rsafe") { // decode hostile text, then use whatever came back
        string t = unhex(a[1]); trax_region* r = trax_region_decode(t.c_str());
        string s = ji("ok", r != NULL) + ji("type", trax_region_get_type(r));
        if (r) {
            char* u = trax_region_encode(r); s += ji("enc", u != NULL);
            if (u) { trax_region* q = trax_region_decode(u); s += ji("redec", q != NULL) + ji("retype", trax_region_get_type(q)); if (q) trax_region_release(&q); free(u); }
            trax_region* k = trax_region_clone(r); if (k) trax_region_release(&k);
            trax_bounds b = trax_region_bounds(r);
            double bw = (double) b.right - b.left + 1, bh = (double) b.bottom - b.top + 1;
            bool small = (bw < 3000 && bh < 3000) || bw * bh > 2e8;
            int fm[] = { TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL };
            for (int f : fm) { if (f == TRAX_REGION_MASK && !small) continue; trax_region* q = trax_region_convert(r, f); if (q) { char* w = trax_region_encode(q); free(w); trax_region_release(&q); } }
            float v = small ? trax_region_overlap(r, r, trax_no_bounds) : 0; s += js("self", num(v));
            trax_region* o = trax_region_create_rectangle(1, 1, 5, 5);
            if (small) { v = trax_region_overlap(r, o, trax_no_bounds); v = trax_region_overlap(o, r, trax_no_bounds); }
            trax_region_release(&o);
            trax_region_contains(r, 2, 2); trax_region_contains(r, -1e9f, 1e9f);
            trax_region_release(&r);
        }
        out(head(op) + s + "}"); return;
    }
    // ---------------------------------------------------------------- image objects
    if (op == "imrows") { // image literal: read back through both row accessors
        trax_image* im = image(a[1]); int w, h, f; trax_image_get_memory_header(im, &w, &h, &f);
        int bpp = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; string d, d2;
        for (int j = 0; j < h; j++) { d.append(trax_image_get_memory_row(im, j), (size_t) w * bpp); d2.append(trax_image_write_memory_row(im, j), (size_t) w * bpp); }
        trax_image_release(&im); out(head(op) + ji("w", w) + ji("h", h) + ji("f", f) + js("d", hex(d)) + js("d2", hex(d2)) + "}"); return;
    }
    // ---------------------------------------------------------------- properties
    int k = a.size() > 1 ? atoi(a[1].c_str()) : 0;
    if (op == "pnew") { if (P[k]) trax_properties_release(&P[k]); P[k] = trax_properties_create(); return; }
    if (op == "pset") { trax_properties_set(P[k], unhex(a[2]).c_str(), unhex(a[3]).c_str()); return; }
    if (op == "pseti") { trax_properties_set_int(P[k], unhex(a[2]).c_str(), atoi(a[3].c_str())); return; }
    if (op == "psetf") { trax_properties_set_float(P[k], unhex(a[2]).c_str(), strtof(a[3].c_str(), 0)); return; }
    if (op == "pget") { char* v = trax_properties_get(P[k], unhex(a[2]).c_str()); out(head(op) + js("v", hexz(v)) + "}"); free(v); return; }
    if (op == "pgeti") { out(head(op) + ji("v", trax_properties_get_int(P[k], unhex(a[2]).c_str(), atoi(a[3].c_str()))) + "}"); return; }
    if (op == "pgetf") { out(head(op) + js("v", num(trax_properties_get_float(P[k], unhex(a[2]).c_str(), strtof(a[3].c_str(), 0)))) + "}"); return; }
    if (op == "phas") { out(head(op) + ji("v", trax_properties_has(P[k], unhex(a[2]).c_str()) != 0) + "}"); return; }
    if (op == "pcount") { out(head(op) + ji("v", trax_properties_count(P[k])) + "}"); return; }
    if (op == "penum") { vector<std::pair<string, string>> v; trax_properties_enumerate(P[k], props_collect, &v); out(head(op) + ji("n", v.size()) + js("v", props_out(P[k])) + "}"); return; }
    if (op == "pall") { // everything observable about a collection: enumeration, count, and has/get of the probe keys
        vector<std::pair<string, string>> v; trax_properties_enumerate(P[k], props_collect, &v);
        string s = ji("n", v.size()) + ji("c", trax_properties_count(P[k])) + js("v", props_out(P[k])); string g;
        for (size_t i = 2; i < a.size(); i++) {
            string key = unhex(a[i]); char* x = trax_properties_get(P[k], key.c_str());
            if (i > 2) g += ",";
            g += hexz(x) + ":" + (trax_properties_has(P[k], key.c_str()) ? "1" : "0") + ":" + std::to_string(trax_properties_get_int(P[k], key.c_str(), -77)) + ":" + num(trax_properties_get_float(P[k], key.c_str(), -7.5f));
            free(x);
        }
        out(head(op) + s + js("g", g) + "}"); return;
    }
    if (op == "pcopy") { trax_properties* n = trax_properties_copy(P[atoi(a[2].c_str())]); if (P[k]) trax_properties_release(&P[k]); P[k] = n; return; }
    if (op == "pappend") { trax_properties_append(P[k], P[atoi(a[2].c_str())], atoi(a[3].c_str())); return; } // src dst overwrite
    if (op == "pclear") { trax_properties_clear(P[k]); return; }
    if (op == "prel") { trax_properties_release(&P[k]); return; }
    // ---------------------------------------------------------------- object lists
    if (op == "onew") { if (O[k]) trax_object_list_release(&O[k]); O[k] = trax_object_list_create(atoi(a[2].c_str())); return; }
    if (op == "oset") { trax_region* r = region(a[3]); trax_object_list_set(O[k], atoi(a[2].c_str()), r); trax_region_release(&r); return; }
    if (op == "osetslot") { trax_object_list_set(O[k], atoi(a[2].c_str()), R[atoi(a[3].c_str())]); return; }
    if (op == "osetown") { trax_object_list_set(O[k], atoi(a[2].c_str()), trax_object_list_get(O[atoi(a[3].c_str())], atoi(a[4].c_str()))); return; }
    if (op == "oget") { out(head(op) + js("v", region_out(trax_object_list_get(O[k], atoi(a[2].c_str())))) + "}"); return; }
    if (op == "oprop") { trax_properties* p = trax_object_list_properties(O[k], atoi(a[2].c_str())); if (p) trax_properties_set(p, unhex(a[3]).c_str(), unhex(a[4]).c_str()); out(head(op) + ji("v", p != NULL) + "}"); return; }
    if (op == "oprops") { out(head(op) + js("v", props_out(trax_object_list_properties(O[k], atoi(a[2].c_str())))) + "}"); return; }
    if (op == "oappend") { int n = trax_object_list_append(O[k], O[atoi(a[2].c_str())]); out(head(op) + ji("v", n) + "}"); return; }
    if (op == "ocount") { out(head(op) + ji("v", trax_object_list_count(O[k])) + "}"); return; }
    if (op == "oall") { out(head(op) + ji("c", trax_object_list_count(O[k])) + js("v", objects_out(O[k])) + "}"); return; }
    if (op == "orel") { trax_object_list_release(&O[k]); out(head(op) + ji("null", O[k] == NULL) + "}"); return; }
    if (op == "rnew") { if (R[k]) trax_region_release(&R[k]); R[k] = region(a[2]); return; }
    if (op == "rmut") { // change a region slot in place: a step forth or back
        trax_region* r = R[k]; int d = a.size() > 2 ? atoi(a[2].c_str()) : 1;
        switch (trax_region_get_type(r)) {
        case TRAX_REGION_SPECIAL: trax_region_set_special(r, trax_region_get_special(r) + d); break;
        case TRAX_REGION_RECTANGLE: { float x, y, w, h; trax_region_get_rectangle(r, &x, &y, &w, &h); trax_region_set_rectangle(r, x + d, y, w, h); break; }
        case TRAX_REGION_POLYGON: { float x, y; trax_region_get_polygon_point(r, 0, &x, &y); trax_region_set_polygon_point(r, 0, x + d, y); break; }
        case TRAX_REGION_MASK: { char* p = trax_region_write_mask_row(r, 0); p[0] = !p[0]; break; }
        }
        return;
    }
    if (op == "rshow") { out(head(op) + js("v", region_out(R[k])) + "}"); return; }
    // ---------------------------------------------------------------- image lists (slots hold images owned by the script)
    if (op == "inew") { if (I[k]) trax_image_release(&I[k]); I[k] = image(a[2]); return; }
    if (op == "lnew") { if (L[k]) trax_image_list_release(&L[k]); L[k] = trax_image_list_create(); return; }
    if (op == "lset") { trax_image_list_set(L[k], a[3] == "~" ? NULL : I[atoi(a[3].c_str())], atoi(a[2].c_str())); return; }
    if (op == "lget") { out(head(op) + js("v", image_out(trax_image_list_get(L[k], atoi(a[2].c_str())))) + "}"); return; }
    if (op == "lgive") { trax_image_list_set(L[k], image(a[3]), atoi(a[2].c_str())); return; }  // list will own it (lclear)
    if (op == "lclear") { trax_image_list_clear(L[k]); return; }
    if (op == "lall") { out(head(op) + js("v", images_out(L[k])) + "}"); return; }
    if (op == "lrel") { trax_image_list_release(&L[k]); out(head(op) + ji("null", L[k] == NULL) + "}"); return; }
    if (op == "lcount") { out(head(op) + ji("v", trax_image_list_count(atoi(a[1].c_str()))) + "}"); return; }
    if (op == "alarm") { alarm_s = atoi(a[1].c_str()); alarm(alarm_s); return; }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(97);
}

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    if (!in) { perror(argv[1]); return 97; }
    if (argc > 2) alarm_s = atoi(argv[2]);
    signal(SIGPIPE, SIG_IGN);
    signal(SIGALRM, on_alarm);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    fdmap = new std::map<int, Endpoint*>;
    string line; line.reserve(1 << 20);
    vector<string> a;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == 'B' && line[1] == ' ') {
            case_id = line.substr(2);
            out("{\"B\":\"" + case_id + "\"}");
            { vector<string>().swap(a); }
            alarm(alarm_s);
            live_at_begin = live_allocs;
            continue;
        }
        if (line == "E") {
            { vector<string>().swap(a); }
            end_case();
            long d = live_allocs - live_at_begin;
            alarm(0);
            out("{\"E\":\"" + case_id + "\",\"live\":" + std::to_string(d) + "}");
            continue;
        }
        a = split(line, ' ');
        run(a);
    }
    return 0;
}
