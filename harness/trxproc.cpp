// Scripted driver of the tracker process controller (trax::TrackerProcess).
//   trxproc SCRIPT RESULTS ALARM    one operation per line, one JSON object per operation in RESULTS
#include "litpp.h"
#include <trax/client.hpp>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <mutex>
#include <thread>
#include <sys/syscall.h>
#include <sys/time.h>
#ifndef PERT_ARM
#define PERT_ARM
#define PERT_IN(X)
#define PERT_END
#endif
using namespace lit;
using namespace litpp;
extern char** environ;
namespace trax { extern int next_available_socket_port __attribute__((weak)); }     // where the search for a free port begins

static int results = -1;
static volatile bool watch_flag = false;
static bool watch() { return watch_flag; }
static long now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
static void put(const string& s) { PERT_IN(0); string t = s + "\n"; if (write(results, t.data(), t.size()) < 0) _exit(96); }
static void on_signal(int) {}
static void on_alarm(int) { const char m[] = "{\"op\":\"hang\"}\n"; if (write(results, m, sizeof m - 1)) {} _exit(98); }
static string esc(const char* k, const string& v) { return string(",\"") + k + "\":\"" + v + "\""; }
static string num(const char* k, long v) { return string(",\"") + k + "\":" + std::to_string(v); }

struct LogBuf : std::streambuf {                 // keeps what was logged
    std::mutex m; string text;
    int overflow(int c) override { std::lock_guard<std::mutex> g(m); if (text.size() < 300000) text += (char) c; return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { std::lock_guard<std::mutex> g(m); if (text.size() < 300000) text.append(s, n); return n; }
    string get() { std::lock_guard<std::mutex> g(m); return text; }
};
struct Slot { trax::TrackerProcess* p = nullptr; LogBuf buf; std::ostream os{&buf}; };
static Slot slot[8];

static string children() { PERT_IN(0);                       // pid:state of every child of this process
    string s; char path[64], line[512];
    DIR* d = opendir("/proc");
    while (dirent* e = readdir(d)) {
        int pid = atoi(e->d_name); if (pid <= 0) continue;
        snprintf(path, sizeof path, "/proc/%d/stat", pid);
        FILE* f = fopen(path, "re"); if (!f) continue;
        size_t n = fread(line, 1, sizeof line - 1, f); fclose(f); line[n] = 0;
        char* r = strrchr(line, ')'); if (!r) continue;
        char st; int ppid; if (sscanf(r + 1, " %c %d", &st, &ppid) != 2 || ppid != getpid()) continue;
        if (!s.empty()) s += ","; s += std::to_string(pid) + ":" + st;
    }
    closedir(d);
    return s;
}
static string descriptors() { PERT_IN(0);
    vector<int> v; DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) { int n = atoi(e->d_name); if (e->d_name[0] != '.' && n != dirfd(d) && n < 200) v.push_back(n); }
    closedir(d); std::sort(v.begin(), v.end());
    string s; for (int n : v) { if (!s.empty()) s += ","; s += std::to_string(n); }
    return s;
}
static int threads() { PERT_IN(0); int n = 0; DIR* d = opendir("/proc/self/task"); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }

static string call(Slot& s, const vector<string>& f) {
    trax::TrackerProcess* p = s.p; const string& c = f[2];
    if (c == "query") return num("ret", p->query());
    if (c == "ready") return num("ret", p->ready());
    if (c == "tracking") return num("ret", p->tracking());
    if (c == "multi") return num("ret", p->multiobject());
    if (c == "reset") return num("ret", p->reset());
    if (c == "meta") { trax::Metadata m = p->metadata(); return num("ret", 1) + esc("name", hex(m.tracker_name())) + num("i", m.image_formats()) + num("r", m.region_formats()) + num("c", m.channels()) + esc("desc", hex(m.tracker_description())) + esc("fam", hex(m.tracker_family())); }
    if (c == "init") return num("ret", p->initialize(make_images(f[3]), make_region(f[4]), make_props(f[5])));
    if (c == "frame") return num("ret", p->frame(make_images(f[3]), make_props(f[4])));
    if (c == "wait") { Region r; Properties q; bool b = p->wait(r, q); return num("ret", b) + esc("region", show(r)) + esc("props", show(q)); }
    if (c == "initm") return num("ret", p->initialize(make_images(f[3]), make_objects(f[4]), make_props(f[5])));
    if (c == "framem") return num("ret", p->frame(make_images(f[3]), make_objects(f[4]), make_props(f[5])));
    if (c == "waitm") { ObjectList o; Properties q; bool b = p->wait(o, q); return num("ret", b) + esc("objects", show(o)) + esc("props", show(q)); }
    if (c == "bigframe") { int n = atoi(f[3].c_str()); ImageList l; l.set(Image::create_memory(n, n, TRAX_IMAGE_MEMORY_RGB), TRAX_CHANNEL_COLOR); return num("ret", p->frame(l, Properties())); }
    if (c == "biginit") { int n = atoi(f[3].c_str()); ImageList l; l.set(Image::create_memory(n, n, TRAX_IMAGE_MEMORY_RGB), TRAX_CHANNEL_COLOR); return num("ret", p->initialize(l, Region::create_rectangle(1, 2, 3, 4), Properties())); }
    fprintf(stderr, "unknown call %s\n", c.c_str()); _exit(97);
}

int main(int argc, char** argv) {
    results = open(argv[2], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    results = fcntl(results, F_DUPFD_CLOEXEC, 200);
    signal(SIGALRM, on_alarm); alarm(atoi(argv[3]));
    vector<string> script; { std::ifstream in(argv[1]); string l; while (std::getline(in, l)) if (!l.empty()) script.push_back(l); }
    for (int fd = 3; fd < 200; fd++) close(fd);
    if (&trax::next_available_socket_port) trax::next_available_socket_port = 10000 + getpid() % 1000 * 20;
    std::thread raiser;
    PERT_ARM;
    for (auto& line : script) {
        auto f = split(line, ' ');
        string r = "{\"op\":\"" + f[0] + "\"";
        if (f.size() > 1 && f[0] == "call") r += esc("call", f[2]);
        long t = now();
        if (f[0] == "new") {                     // new I CMD TIMEOUT MODE VERBOSITY DIR ENV
            Slot& s = slot[atoi(f[1].c_str())];
            std::map<string, string> env;
            if (f[7] != "-") for (auto& kv : split(f[7], '&')) { auto e = split(kv, '='); env[unhex(e[0])] = unhex(e[1]); }
            try { s.p = new trax::TrackerProcess(unhex(f[2]), env, atoi(f[3].c_str()), (trax::ConnectionMode) atoi(f[4].c_str()), (trax::VerbosityMode) atoi(f[5].c_str()), unhex(f[6]), &s.os); r += num("ret", 1); }
            catch (const std::exception& e) { s.p = nullptr; r += esc("exc", hex(e.what())); }
        }
        else if (f[0] == "call") {
            Slot& s = slot[atoi(f[1].c_str())];
            if (!s.p) r += esc("skip", "1");
            else try { r += call(s, f); } catch (const std::exception& e) { r += esc("exc", hex(e.what())); }
        }
        else if (f[0] == "del") { Slot& s = slot[atoi(f[1].c_str())]; delete s.p; s.p = nullptr; }
        else if (f[0] == "watch") { Slot& s = slot[atoi(f[1].c_str())]; if (s.p) s.p->register_watchdog(watch); }
        else if (f[0] == "flag") watch_flag = f[1] == "1";
        else if (f[0] == "raise") { int a = atoi(f[1].c_str()), b = atoi(f[2].c_str()); raiser = std::thread([a, b] { usleep(a * 1000); watch_flag = true; usleep(b * 1000); watch_flag = false; }); }
        else if (f[0] == "raised") { if (raiser.joinable()) raiser.join(); }
        else if (f[0] == "signals") {           // a handler that does not restart calls: for children that end, or at an interval
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGCHLD, &sa, 0); sigaction(SIGUSR1, &sa, 0);
            int ms = atoi(f[1].c_str());
            if (ms > 0) { sigevent ev; memset(&ev, 0, sizeof ev); ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGUSR1; timer_t id; timer_create(CLOCK_MONOTONIC, &ev, &id); itimerspec it; it.it_interval.tv_sec = it.it_value.tv_sec = ms / 1000; it.it_interval.tv_nsec = it.it_value.tv_nsec = ms % 1000 * 1000000L; timer_settime(id, 0, &it, nullptr); }
        }
        else if (f[0] == "sleep") { long end = t + atol(f[1].c_str()), n; while ((n = end - now()) > 0) usleep(n * 1000); }
        else if (f[0] == "procs") r += esc("v", children());
        else if (f[0] == "fds") r += esc("v", descriptors()) + num("threads", threads());
        else if (f[0] == "cwd") { char b[5000]; r += esc("v", hex(getcwd(b, sizeof b) ? string(b) : string("?"))); }
        else if (f[0] == "env") { vector<string> v; for (char** e = environ; *e; e++) v.push_back(hex(string(*e))); std::sort(v.begin(), v.end()); string s; for (auto& x : v) { if (!s.empty()) s += ","; s += x; } r += esc("v", s); }
        else if (f[0] == "log") r += esc("v", hex(slot[atoi(f[1].c_str())].buf.get()));
        else if (f[0] == "setenv") setenv(unhex(f[1]).c_str(), unhex(f[2]).c_str(), 1);
        else if (f[0] == "unsetenv") unsetenv(unhex(f[1]).c_str());
        else if (f[0] == "clearenv") clearenv();
        else if (f[0] == "chdir") { if (chdir(unhex(f[1]).c_str())) r += esc("v", "failed"); }
        else if (f[0] == "killall") { auto cs = children(); if (!cs.empty()) for (auto& c : split(cs, ',')) syscall(SYS_kill, atoi(c.c_str()), atoi(f[1].c_str())); }
        else if (f[0] == "exit") { put(r + "}"); _exit(0); }
        else { fprintf(stderr, "unknown operation %s\n", f[0].c_str()); _exit(97); }
        put(r + num("ms", now() - t) + "}");
    }
    PERT_END;
    put("{\"op\":\"end\"}");
    _exit(0);
}
