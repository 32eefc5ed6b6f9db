// Scripted driver of the C++ interface: objects live in numbered slots of one kind each
//   R Region  I Image  P Properties  L ImageList  O ObjectList
// Literals are those of lit.h, built and shown with the C++ interface only.  Sessions run over pipes inside
// the process, with the C interface or the C++ interface on the other side.
#include "litpp.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fstream>
#include <iostream>
#include <memory>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
using namespace lit;
using namespace litpp;
using std::string;
using std::vector;
using trax::Region; using trax::Image; using trax::Properties; using trax::ImageList; using trax::ObjectList;

static volatile long live_allocs = 0;
static void on_malloc(const volatile void*, size_t) { __atomic_add_fetch(&live_allocs, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void* p) { if (p) __atomic_sub_fetch(&live_allocs, 1, __ATOMIC_RELAXED); }
static string case_id; static int alarm_s = 6;
static void out(const string& s) { string t = s + "\n"; if (write(1, t.data(), t.size()) < 0) _exit(96); }
static void on_alarm(int) { const char m[] = "{\"hang\":1}\n"; if (write(1, m, sizeof m - 1)) {} _exit(98); }
static string js(const char* k, const string& v) { return ",\"" + string(k) + "\":\"" + v + "\""; }
static string ji(const char* k, long v) { return ",\"" + string(k) + "\":" + std::to_string(v); }
static string head(const string& op) { return "{\"op\":\"" + op + "\""; }

// ------------------------------------------------------------------ sessions over two pipes
struct Pipes {
    int c2s[2], s2c[2];
    Pipes() { if (pipe(c2s) || pipe(s2c)) { perror("pipe"); exit(97); } for (int fd : {c2s[1], s2c[1]}) fcntl(fd, F_SETPIPE_SZ, 1 << 20); }
    ~Pipes() { for (int fd : {c2s[0], c2s[1], s2c[0], s2c[1]}) close(fd); }
    void env() { setenv("TRAX_IN", std::to_string(c2s[0]).c_str(), 1); setenv("TRAX_OUT", std::to_string(s2c[1]).c_str(), 1); unsetenv("TRAX_SOCKET"); }
};
static trax_handle* cserver(Pipes& p, int channels, int version) {
    trax_metadata* m = trax_metadata_create(TRAX_REGION_ANY, TRAX_IMAGE_ANY, channels, "t", NULL, NULL, TRAX_METADATA_MULTI_OBJECT);
    trax_handle* h = trax_server_setup_file_v(m, p.c2s[0], p.s2c[1], trax_no_log, version);
    trax_metadata_release(&m);
    return h;
}
static trax_handle* cclient(Pipes& p) { return trax_client_setup_file(p.s2c[0], p.c2s[1], trax_no_log); }
static const char* IMG = "P:2f78";
static string anyimages(int ch) { string s; for (int i = 0; i < TRAX_CHANNELS; i++) s += (i ? "," : "") + string((ch >> i & 1) ? IMG : "~"); return s; }
static int chans(const string& l) { int c = 0, i = 0; for (auto& x : split(l, ',')) { if (x != "~") c |= 1 << i; i++; } return c; }

// what a peer (C interface) gets of a C++ value that is sent in a session
static string send_request(const ImageList& im, int channels, const Region* r, const ObjectList* o, const Properties& p) {
    Pipes ps; string s;
    trax_handle* h = cserver(ps, channels, 4);
    {
        trax::Client c(ps.s2c[0], ps.c2s[1], trax::Logging());
        int q = r ? c.initialize(im, *r, p) : c.initialize(im, *o, p);
        s = ji("call", q);
        if (q == TRAX_OK) {
            trax_image_list* il = NULL; trax_object_list* ol = NULL; trax_properties* pr = trax_properties_create();
            int w = trax_server_wait_mot(h, &il, &ol, pr);
            s += ji("r", w) + js("images", images_out(il)) + js("objects", objects_out(ol)) + js("props", props_out(pr));
            images_free(il); if (ol) trax_object_list_release(&ol); trax_properties_release(&pr);
        }
    }
    trax_cleanup(&h);
    return s;
}
static string send_reply(const Region* r, const ObjectList* o, const Properties& p, bool sot) {
    Pipes ps; string s; ps.env();
    trax::Metadata md(TRAX_REGION_ANY, TRAX_IMAGE_ANY, TRAX_CHANNEL_COLOR, "t", "", "", sot ? 0 : TRAX_METADATA_MULTI_OBJECT);
    int n = o ? o->size() : 1;
    std::unique_ptr<trax::ServerSOT> ss; std::unique_ptr<trax::ServerMOT> sm;
    if (sot) ss.reset(new trax::ServerSOT(md, trax::Logging())); else sm.reset(new trax::ServerMOT(md, trax::Logging()));
    trax_handle* c = cclient(ps);
    trax_image_list* il = lit::images(anyimages(1)); string ol;
    for (int i = 0; i < n; i++) ol += string(i ? ";" : "") + "R:1:2:3:4|-";
    trax_object_list* ob = lit::objects(ol); trax_properties* pr = trax_properties_create();
    trax_client_initialize(c, il, ob, pr);
    trax_object_list_release(&ob); images_free(il);
    ImageList gi; ObjectList go; Region gr; Properties gp;
    int w = ss ? ss->wait(gi, gr, gp) : sm->wait(gi, go, gp);
    int q = w < 0 ? -9 : ss ? ss->reply(*r, p) : r ? sm->reply(*r, p) : sm->reply(*o);
    s = ji("w", w) + ji("call", q);
    if (q == TRAX_OK) {
        trax_properties_clear(pr);
        int x = trax_client_wait(c, &ob, pr);
        s += ji("r", x) + js("objects", objects_out(ob)) + js("props", props_out(pr));
        if (ob) trax_object_list_release(&ob);
    }
    trax_properties_release(&pr);
    trax_cleanup(&c);
    return s;
}
// C++ values received in a session from a peer with the C interface
static string recv_request(ImageList& im, Region* r, ObjectList* o, Properties& p, const string& limg, const string& lobj, const string& lprops, bool sot) {
    Pipes ps; ps.env();
    int ch = chans(limg);
    trax::Metadata md(TRAX_REGION_ANY, TRAX_IMAGE_ANY, ch, "t", "", "", sot ? 0 : TRAX_METADATA_MULTI_OBJECT);
    std::unique_ptr<trax::ServerSOT> ss; std::unique_ptr<trax::ServerMOT> sm;
    if (sot) ss.reset(new trax::ServerSOT(md, trax::Logging())); else sm.reset(new trax::ServerMOT(md, trax::Logging()));
    trax_handle* c = cclient(ps);
    trax_image_list* il = lit::images(limg); trax_object_list* ob = lit::objects(lobj); trax_properties* pr = lit::props(lprops);
    int q = trax_client_initialize(c, il, ob, pr);
    trax_object_list_release(&ob); images_free(il); if (pr) trax_properties_release(&pr);
    int w = q != TRAX_OK ? -9 : ss ? ss->wait(im, *r, p) : r ? sm->wait(im, *r, p) : sm->wait(im, *o, p);
    ss.reset(); sm.reset();
    trax_cleanup(&c);
    return ji("call", q) + ji("r", w);
}
static string recv_reply(Region* r, ObjectList* o, Properties& p, const string& lobj, int version) {
    Pipes ps; trax_handle* h = cserver(ps, TRAX_CHANNEL_COLOR, version);
    trax_object_list* ob = lit::objects(lobj); int n = trax_object_list_count(ob); string s;
    {
        trax::Client c(ps.s2c[0], ps.c2s[1], trax::Logging());
        string ol; for (int i = 0; i < n; i++) ol += string(i ? ";" : "") + "R:1:2:3:4";
        c.initialize(make_images(anyimages(1)), make_objects(ol), Properties());
        trax_image_list* il = NULL; trax_object_list* go = NULL; trax_region* gr = NULL; trax_properties* gp = trax_properties_create();
        int w = version < 4 ? trax_server_wait_sot(h, &il, &gr, gp) : trax_server_wait_mot(h, &il, &go, gp);
        images_free(il); if (go) trax_object_list_release(&go); if (gr) trax_region_release(&gr); trax_properties_release(&gp);
        int q = version < 4 ? trax_server_reply_sot(h, trax_object_list_get(ob, 0), trax_object_list_properties(ob, 0)) : trax_server_reply_mot(h, ob);
        int x = q != TRAX_OK ? -9 : r ? c.wait(*r, p) : c.wait(*o, p);
        s = ji("w", w) + ji("call", q) + ji("r", x);
    }
    trax_object_list_release(&ob);
    trax_cleanup(&h);
    return s;
}

// what a C++ client reports about a C++ server: kind rf if ch flags name desc family custom keys-to-ask
static string hexs(const string& t) { return t.empty() ? "~" : hex(t); }
static string about(const trax::Metadata& m, const string& keys) {
    string s = ji("rf", m.region_formats()) + ji("if", m.image_formats()) + ji("ch", m.channels()) + js("name", hexs(m.tracker_name()))
        + js("desc", hexs(m.tracker_description())) + js("family", hexs(m.tracker_family())), c;
    for (auto& k : split(keys, '&')) c += (c.empty() ? "" : "&") + k + "=" + hex(m.get_custom(unhex(k)));
    return s + js("custom", c);
}
static string introduce(const vector<string>& a) {
    bool sot = a[1][0] == 's', tcp = a[1].size() > 1; string s; Pipes ps; int listener = -1;
    if (tcp) {
        struct sockaddr_in ad; memset(&ad, 0, sizeof ad); ad.sin_family = AF_INET; ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof ad;
        listener = socket(AF_INET, SOCK_STREAM, 0);
        if (bind(listener, (struct sockaddr*) &ad, sizeof ad) || listen(listener, 5) || getsockname(listener, (struct sockaddr*) &ad, &n)) { perror("listen"); exit(97); }
        setenv("TRAX_SOCKET", std::to_string(ntohs(ad.sin_port)).c_str(), 1);
    } else ps.env();
    {
        trax::Metadata md(atoi(a[2].c_str()), atoi(a[3].c_str()), atoi(a[4].c_str()), unhex(a[6]), unhex(a[7]), unhex(a[8]), atoi(a[5].c_str()));
        if (a[9] != "-") for (auto& kv : split(a[9], '&')) { auto e = split(kv, '='); md.set_custom(unhex(e[0]), unhex(e[1])); }
        std::unique_ptr<trax::ServerSOT> ss; std::unique_ptr<trax::ServerMOT> sm;
        if (sot) ss.reset(new trax::ServerSOT(md, trax::Logging())); else sm.reset(new trax::ServerMOT(md, trax::Logging()));
        trax::Handle& sh = sot ? (trax::Handle&) *ss : (trax::Handle&) *sm;
        std::unique_ptr<trax::Client> c(tcp ? new trax::Client(listener, trax::Logging(), 5) : new trax::Client(ps.s2c[0], ps.c2s[1], trax::Logging()));
        int v = -9, mo = -9; c->get_parameter(TRAX_PARAMETER_VERSION, &v); c->get_parameter(TRAX_PARAMETER_MULTIOBJECT, &mo);
        int sv = -9, smo = -9; sh.get_parameter(TRAX_PARAMETER_VERSION, &sv); sh.get_parameter(TRAX_PARAMETER_MULTIOBJECT, &smo);
        trax::Metadata kept;
        kept = c->metadata();
        s = ji("ok", c->is_alive() && sh.is_alive()) + ji("version", v) + ji("multi", mo) + ji("sv", sv) + ji("smo", smo) + about(c->metadata(), a[10]) + ",\"own\":{\"x\":0" + about(md, a[10]) + "}";
        ImageList im; Region r; ObjectList ol; Properties p;
        string why = unhex(a[11]);
        if (atoi(a[12].c_str())) {                       // the client ends the session
            bool t = c->terminate(why);
            int w = ss ? ss->wait(im, r, p) : sm->wait(im, ol, p);
            s += ji("t", t) + ji("end", w) + js("why", hex(p.get("trax.reason", string("?")))) + ji("alive", c->is_alive() + 2 * sh.is_alive());
        } else {
            bool t = sh.terminate(why);
            int w = c->wait(ol, p);
            s += ji("t", t) + ji("end", w) + js("why", hex(p.get("trax.reason", string("?")))) + ji("alive", c->is_alive() + 2 * sh.is_alive());
        }
        c.reset();
        s += ",\"kept\":{\"x\":0" + about(kept, a[10]) + "}";
    }
    if (tcp) { close(listener); unsetenv("TRAX_SOCKET"); }
    return s;
}

// ------------------------------------------------------------------ scripted sessions, call by call
struct End {
    std::unique_ptr<trax::Client> c; std::unique_ptr<trax::ServerSOT> ss; std::unique_ptr<trax::ServerMOT> sm;
    int lib_in = -1, lib_out = -1, feed = -1, drain = -1; string pend;
    End() { int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); exit(97); } lib_in = a[0]; feed = a[1]; drain = b[0]; lib_out = b[1]; fcntl(feed, F_SETPIPE_SZ, 1 << 20); fcntl(lib_out, F_SETPIPE_SZ, 1 << 20); fcntl(drain, F_SETFL, O_NONBLOCK); }
    ~End() { drop(); for (int fd : {lib_in, lib_out, feed, drain}) if (fd >= 0) close(fd); }
    void drop() { c.reset(); ss.reset(); sm.reset(); }
    trax::Handle* h() { return c ? (trax::Handle*) c.get() : ss ? (trax::Handle*) ss.get() : (trax::Handle*) sm.get(); }
    void put(const string& d) { size_t k = 0; while (k < d.size()) { ssize_t r = write(feed, d.data() + k, d.size() - k); if (r <= 0) break; k += r; } }
    void collect() { char b[65536]; ssize_t n; while ((n = read(drain, b, sizeof b)) > 0) pend.append(b, n); }
    string tail() { string e = h() ? h()->get_error() : ""; return js("err", e.empty() ? "~" : hex(e)) + ji("alive", h() ? h()->is_alive() : -1) + "}"; }
};
static std::map<int, std::unique_ptr<End>>* E;
static End& ep(const string& t) { auto& p = (*E)[atoi(t.c_str())]; if (!p) p.reset(new End()); return *p; }
static string lists(const string& t) { return t.find_first_not_of("~,") == string::npos ? "~" : t; }
static string objs(const ObjectList& l) { string s = show(l); return s == "-" ? "~" : s; }
static bool session_op(const string& op, const vector<string>& a) {
    if (op == "open") { ep(a[1]); return true; }
    if (op == "sset") {      // id f|t version rf if ch flags ...
        End& e = ep(a[1]); setenv("TRAX_IN", std::to_string(e.lib_in).c_str(), 1); setenv("TRAX_OUT", std::to_string(e.lib_out).c_str(), 1); unsetenv("TRAX_SOCKET");
        trax::Metadata m(atoi(a[4].c_str()), atoi(a[5].c_str()), atoi(a[6].c_str()), "t", "", "", atoi(a[7].c_str()));
        if (atoi(a[3].c_str()) < 4) e.ss.reset(new trax::ServerSOT(m, trax::Logging())); else e.sm.reset(new trax::ServerMOT(m, trax::Logging()));
        out(head(op) + ji("ok", e.h()->is_alive()) + e.tail()); return true;
    }
    if (op == "cset") { End& e = ep(a[1]); e.c.reset(new trax::Client(e.lib_in, e.lib_out, trax::Logging())); out(head(op) + ji("ok", e.h()->is_alive()) + e.tail()); return true; }
    if (op == "feed") { ep(a[1]).put(unhex(a[2])); return true; }
    if (op == "eof") { End& e = ep(a[1]); close(e.feed); e.feed = -1; return true; }
    if (op == "pump") { End& x = ep(a[1]); x.collect(); string d; d.swap(x.pend); if (ep(a[2]).feed >= 0) ep(a[2]).put(d); if (a.size() > 3) out(head(op) + ji("n", d.size()) + js("d", hex(d)) + "}"); return true; }
    if (op == "drain") { End& e = ep(a[1]); e.collect(); out(head(op) + js("d", hex(e.pend)) + "}"); e.pend.clear(); return true; }
    if (op == "info") { End& e = ep(a[1]); int v = -9; int r = e.h()->get_parameter(TRAX_PARAMETER_VERSION, &v); out(head(op) + ji("r0", r) + ji("set", e.h()->set_parameter(0, 1)) + e.tail()); return true; }
    if (op == "clean") { End& e = ep(a[1]); e.drop(); out(head(op) + ji("r", 0) + ji("null", 1) + "}"); return true; }
    if (op == "term") { End& e = ep(a[1]); bool t = a[2] == "~" ? e.h()->terminate() : e.h()->terminate(unhex(a[2])); out(head(op) + ji("r", t ? 0 : -1) + e.tail()); return true; }
    if (op == "cinit") { End& e = ep(a[1]); int r = e.c->initialize(make_images(a[2]), make_objects(a[3]), make_props(a[4])); out(head(op) + ji("r", r) + e.tail()); return true; }
    if (op == "cinitr") { End& e = ep(a[1]); int r = e.c->initialize(make_images(a[2]), make_region(a[3]), make_props(a[4])); out(head(op) + ji("r", r) + e.tail()); return true; }
    if (op == "cframe") { End& e = ep(a[1]); int r = a[3] == "~" ? e.c->frame(make_images(a[2]), make_props(a[4])) : e.c->frame(make_images(a[2]), make_objects(a[3]), make_props(a[4])); out(head(op) + ji("r", r) + e.tail()); return true; }
    if (op == "sreply") { End& e = ep(a[1]); int r = e.sm->reply(make_objects(a[2])); out(head(op) + ji("r", r) + e.tail()); return true; }
    if (op == "sreplys") { End& e = ep(a[1]); int r = e.ss ? e.ss->reply(make_region(a[2]), make_props(a[3])) : e.sm->reply(make_region(a[2]), make_props(a[3])); out(head(op) + ji("r", r) + e.tail()); return true; }
    if (op == "swait") { End& e = ep(a[1]); ImageList im; ObjectList ol; Properties p; int r = e.sm->wait(im, ol, p); out(head(op) + ji("r", r) + js("images", lists(show(im))) + js("objects", objs(ol)) + js("props", show(p)) + e.tail()); return true; }
    if (op == "swaits") { End& e = ep(a[1]); ImageList im; Region rg; Properties p; int r = e.ss ? e.ss->wait(im, rg, p) : e.sm->wait(im, rg, p); out(head(op) + ji("r", r) + js("images", lists(show(im))) + js("objects", show(rg)) + js("props", show(p)) + e.tail()); return true; }
    if (op == "cwait") { End& e = ep(a[1]); ObjectList ol; Properties p; int r = e.c->wait(ol, p); out(head(op) + ji("r", r) + js("objects", objs(ol)) + js("props", show(p)) + e.tail()); return true; }
    if (op == "cwaitr") { End& e = ep(a[1]); Region rg; Properties p; int r = e.c->wait(rg, p); out(head(op) + ji("r", r) + js("objects", show(rg)) + js("props", show(p)) + e.tail()); return true; }
    return false;
}

// ------------------------------------------------------------------ slots
template <class T> struct Pool : std::map<int, std::unique_ptr<T>> { T& at(const string& t) { auto& p = (*this)[atoi(t.c_str())]; if (!p) { fprintf(stderr, "empty slot %s\n", t.c_str()); exit(97); } return *p; } };
static Pool<Region>* R; static Pool<Image>* I; static Pool<Properties>* P; static Pool<ImageList>* L; static Pool<ObjectList>* O;
static Region make(Region*, const string& t) { return make_region(t); }
static Image make(Image*, const string& t) { return make_image(t); }
static Properties make(Properties*, const string& t) { return make_props(t); }
static ImageList make(ImageList*, const string& t) { return make_images(t); }
static ObjectList make(ObjectList*, const string& t) { return make_objects(t); }
static void mutate(ImageList&, const string&) { exit(97); }
static void mutate(ObjectList&, const string&) { exit(97); }

template <class T> static bool common(Pool<T>& S, const string& op, const vector<string>& a) {
    int i = atoi(a[2].c_str());
    if (op == "def") { S[i].reset(new T()); return true; }
    if (op == "new") { T t = make((T*) NULL, a[3]); if (S[i]) *S[i] = std::move(t); else S[i].reset(new T(t)); return true; }
    if (op == "copy") { T* n = new T(S.at(a[3])); S[i].reset(n); return true; }
    if (op == "asg") { T& r = (S.at(a[2]) = S.at(a[3])); if (&r != &S.at(a[2])) out("{\"op\":\"ref\"}"); return true; }
    if (op == "mvc") { T* n = new T(std::move(S.at(a[3]))); S[i].reset(n); return true; }
    if (op == "mva") { S.at(a[2]) = std::move(S.at(a[3])); return true; }
    if (op == "del") { S.erase(i); return true; }
    if (op == "mut") { mutate(S.at(a[2]), a[3]); return true; }
    if (op == "show") { out(head(op) + js("k", a[1]) + ji("i", i) + js("v", show(S.at(a[2]))) + "}"); return true; }
    return false;
}

static void run(const vector<string>& a) {
    const string& op = a[0];
    if (a.size() > 2 && a[1].size() == 1) {
        bool done = false;
        switch (a[1][0]) {
        case 'R': done = common(*R, op, a); break;
        case 'I': done = common(*I, op, a); break;
        case 'P': done = common(*P, op, a); break;
        case 'L': done = common(*L, op, a); break;
        case 'O': done = common(*O, op, a); break;
        }
        if (done) return;
    }
    if (op == "osize") { (*O)[atoi(a[1].c_str())].reset(new ObjectList(atoi(a[2].c_str()))); return; }
    if (op == "oset") { O->at(a[1]).set(atoi(a[2].c_str()), R->at(a[3])); return; }         // list index slot
    if (op == "oget") { R->at(a[3]) = O->at(a[1]).get(atoi(a[2].c_str())); return; }
    if (op == "oprobe") { out(head(op) + js("v", show(O->at(a[1]).get(atoi(a[2].c_str())))) + js("p", show(O->at(a[1]).properties(atoi(a[2].c_str())))) + "}"); return; }
    if (op == "oprop") { (*P)[atoi(a[3].c_str())].reset(new Properties(O->at(a[1]).properties(atoi(a[2].c_str())))); return; }
    if (op == "lset") { L->at(a[1]).set(I->at(a[3]), atoi(a[2].c_str())); return; }
    if (op == "lget") { I->at(a[3]) = L->at(a[1]).get(atoi(a[2].c_str())); return; }
    if (op == "lprobe") { out(head(op) + js("v", show(L->at(a[1]).get(atoi(a[2].c_str())))) + ji("has", L->at(a[1]).has(atoi(a[2].c_str()))) + "}"); return; }
    // ---- sessions: request / reply with the values of slots, as the other side sees them
    static const string none("~");
    if (op == "sendL") { out(head(op) + send_request(L->at(a[1]), atoi(a[2].c_str()), std::unique_ptr<Region>(new Region(make_region("R:1:2:3:4"))).get(), NULL, Properties()) + "}"); return; }
    if (op == "sendO") { out(head(op) + send_request(make_images(anyimages(1)), 1, NULL, &O->at(a[1]), make_props(a[2])) + "}"); return; }
    if (op == "sendR") { out(head(op) + send_request(make_images(anyimages(1)), 1, &R->at(a[1]), NULL, P->at(a[2])) + "}"); return; }
    if (op == "replyO") { out(head(op) + send_reply(NULL, &O->at(a[1]), Properties(), false) + "}"); return; }
    if (op == "replyR") { out(head(op) + send_reply(&R->at(a[1]), NULL, P->at(a[2]), a[3] == "sot") + "}"); return; }
    if (op == "recvR") { ImageList im; string x = recv_request(im, &R->at(a[1]), NULL, P->at(a[2]), a[3], a[4], a[5], a[6] == "sot"); out(head(op) + x + js("images", show(im)) + js("region", show(R->at(a[1]))) + js("props", show(P->at(a[2]))) + "}"); return; }   // region props images objects props kind
    if (op == "recvO") { string x = recv_request(L->at(a[1]), NULL, &O->at(a[2]), P->at(a[3]), a[4], a[5], a[6], false); out(head(op) + x + js("images", show(L->at(a[1]))) + js("objects", show(O->at(a[2]))) + js("props", show(P->at(a[3]))) + "}"); return; }
    if (op == "waitR") { string x = recv_reply(&R->at(a[1]), NULL, P->at(a[2]), a[3], atoi(a[4].c_str())); out(head(op) + x + js("region", show(R->at(a[1]))) + js("props", show(P->at(a[2]))) + "}"); return; }
    if (op == "waitO") { string x = recv_reply(NULL, &O->at(a[1]), P->at(a[2]), a[3], 4); out(head(op) + x + js("objects", show(O->at(a[1]))) + js("props", show(P->at(a[2]))) + "}"); return; }
    if (session_op(op, a)) return;
    if (op == "introduce") { out(head(op) + introduce(a) + "}"); return; }
    if (op == "alarm") { alarm_s = atoi(a[1].c_str()); alarm(alarm_s); return; }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(97);
}
static void start() { R = new Pool<Region>; I = new Pool<Image>; P = new Pool<Properties>; L = new Pool<ImageList>; O = new Pool<ObjectList>; E = new std::map<int, std::unique_ptr<End>>; }
static void finish() { delete R; delete I; delete P; delete L; delete O; delete E; }

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    if (!in) { perror(argv[1]); return 97; }
    if (argc > 2) alarm_s = atoi(argv[2]);
    signal(SIGPIPE, SIG_IGN);
    signal(SIGALRM, on_alarm);
    setenv("TRAX_IN", "0000000000", 1); setenv("TRAX_OUT", "0000000000", 1); unsetenv("TRAX_SOCKET");
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    string line; line.reserve(1 << 20);
    vector<string> a;
    long at_begin = 0;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == 'B' && line[1] == ' ') {
            case_id = line.substr(2);
            out("{\"B\":\"" + case_id + "\"}");
            vector<string>().swap(a);
            alarm(alarm_s);
            at_begin = live_allocs;
            start();
            continue;
        }
        if (line == "E") {
            vector<string>().swap(a);
            finish();
            long d = live_allocs - at_begin;
            alarm(0);
            out("{\"E\":\"" + case_id + "\",\"live\":" + std::to_string(d) + "}");
            continue;
        }
        a = split(line, ' ');
        run(a);
    }
    return 0;
}
