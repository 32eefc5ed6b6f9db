// The literals of lit.h built and shown with the C++ interface only.
#pragma once
#include "lit.h"
#include <trax.h>
namespace litpp {
using namespace lit;
using std::string;
using std::vector;
using trax::Region; using trax::Image; using trax::Properties; using trax::ImageList; using trax::ObjectList;
// ------------------------------------------------------------------ literals through the C++ interface
static void mutate(Region& r, const string& t) {
    auto f = split(t, ':');
    switch (t[0]) {
    case 'S': r.set(atoi(f[1].c_str())); break;
    case 'R': r.set(strtof(f[1].c_str(), 0), strtof(f[2].c_str(), 0), strtof(f[3].c_str(), 0), strtof(f[4].c_str(), 0)); break;
    case 'G': for (size_t i = 0; 2 + 2 * i < f.size(); i++) r.set_polygon_point((int) i, strtof(f[1 + 2 * i].c_str(), 0), strtof(f[2 + 2 * i].c_str(), 0)); break;
    case 'K': { int w = atoi(f[3].c_str()), h = atoi(f[4].c_str()); for (int j = 0; j < h; j++) { char* row = r.write_mask_row(j); for (int i = 0; i < w; i++) row[i] = mask_value(f[5][(size_t) j * w + i]); } break; }
    }
}
static Region make_region(const string& t) {
    if (t == "~") return Region();
    auto f = split(t, ':');
    if (t[0] == 'S') return Region::create_special(atoi(f[1].c_str()));
    if (t[0] == 'R') return Region::create_rectangle(strtof(f[1].c_str(), 0), strtof(f[2].c_str(), 0), strtof(f[3].c_str(), 0), strtof(f[4].c_str(), 0));
    Region r = t[0] == 'G' ? Region::create_polygon((int) (f.size() - 1) / 2) : Region::create_mask(atoi(f[1].c_str()), atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str()));
    mutate(r, t);
    return r;
}
static string show(const Region& r) {
    char b[256];
    switch (r.type()) {
    case TRAX_REGION_SPECIAL: snprintf(b, sizeof b, "S:%d", r.get()); return b;
    case TRAX_REGION_RECTANGLE: { float x, y, w, h; r.get(&x, &y, &w, &h); return "R:" + num(x) + ":" + num(y) + ":" + num(w) + ":" + num(h); }
    case TRAX_REGION_POLYGON: { string s = "G"; for (int i = 0; i < r.get_polygon_count(); i++) { float x, y; r.get_polygon_point(i, &x, &y); s += ":" + num(x) + ":" + num(y); } return s; }
    case TRAX_REGION_MASK: {
        int x, y, w, h; r.get_mask_header(&x, &y, &w, &h); snprintf(b, sizeof b, "K:%d:%d:%d:%d:", x, y, w, h); string s = b;
        for (int j = 0; j < h; j++) { const char* row = r.get_mask_row(j); for (int i = 0; i < w; i++) s += row[i] ? '1' : '0'; }
        return s;
    }
    }
    return r.empty() ? "~" : "?";
}
static int bpp(int fmt) { return fmt == TRAX_IMAGE_MEMORY_RGB ? 3 : fmt == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; }
static void mutate(Image& im, const string& t) {
    auto f = split(t, ':'); string d = unhex(f[4]); int w = atoi(f[1].c_str()), h = atoi(f[2].c_str()), n = w * bpp(atoi(f[3].c_str()));
    for (int j = 0; j < h; j++) memcpy(im.write_memory_row(j), d.data() + (size_t) j * n, n);
}
static Image make_image(const string& t) {
    if (t == "~") return Image();
    auto f = split(t, ':');
    if (t[0] == 'P') return Image::create_path(unhex(f[1]));
    if (t[0] == 'U') return Image::create_url(unhex(f[1]));
    if (t[0] == 'B') { string d = unhex(f[1]); return Image::create_buffer((int) d.size(), d.data()); }
    Image im = Image::create_memory(atoi(f[1].c_str()), atoi(f[2].c_str()), atoi(f[3].c_str()));
    mutate(im, t);
    return im;
}
static string show(const Image& im) {
    char b[128];
    switch (im.type()) {
    case TRAX_IMAGE_PATH: return "P:" + hex(im.get_path());
    case TRAX_IMAGE_URL: return "U:" + hex(im.get_url());
    case TRAX_IMAGE_MEMORY: { int w, h, f; im.get_memory_header(&w, &h, &f); string d; for (int j = 0; j < h; j++) d.append(im.get_memory_row(j), (size_t) w * bpp(f)); snprintf(b, sizeof b, "M:%d:%d:%d:", w, h, f); return b + hex(d); }
    case TRAX_IMAGE_BUFFER: { int n, f; const char* p = im.get_buffer(&n, &f); snprintf(b, sizeof b, "B%d:", f); return b + hex(p, n); }
    }
    return im.empty() ? "~" : "?";
}
static void mutate(Properties& p, const string& t) {
    if (t == "-") { p.clear(); return; }
    for (auto& kv : split(t, '&')) { auto e = split(kv, '='); p.set(unhex(e[0]), unhex(e[1])); }
}
static Properties make_props(const string& t) {
    Properties p;
    if (t == "~" || t == "-") return p;
    std::map<string, string> m;
    for (auto& kv : split(t, '&')) { auto e = split(kv, '='); m[unhex(e[0])] = unhex(e[1]); }
    p.from_map(m);
    return p;
}
static string show(const Properties& p) {
    std::map<string, string> m; p.to_map(m);
    string s;
    for (auto& e : m) {
        if (!s.empty()) s += "&";
        s += hex(e.first) + "=" + hex(e.second);
        if (p.get(e.first, string("?")) != e.second) s += "!";
    }
    if ((size_t) p.size() != m.size()) s += "#";
    return s.empty() ? "-" : s;
}
static ObjectList make_objects(const string& t) {        // properties of elements cannot be given here
    if (t == "~") return ObjectList();
    auto f = t == "-" ? vector<string>() : split(t, ';');
    ObjectList l((int) f.size());
    for (size_t i = 0; i < f.size(); i++) l.set((int) i, make_region(split(f[i], '|')[0]));
    return l;
}
static string show(const ObjectList& l) {
    string s;
    for (int i = 0; i < l.size(); i++) { if (i) s += ";"; s += show(l.get(i)) + "|" + show(l.properties(i)); }
    return s.empty() ? "-" : s;
}
static ImageList make_images(const string& t) {
    ImageList l;
    if (t == "~" || t == "-") return l;
    auto f = split(t, ',');
    for (size_t i = 0; i < f.size(); i++) if (f[i] != "~") l.set(make_image(f[i]), TRAX_CHANNEL_ID((int) i));
    return l;
}
static string show(const ImageList& l) {
    string s; int n = 0;
    for (int i = 0; i < TRAX_CHANNELS; i++) { if (i) s += ","; Image im = l.get(TRAX_CHANNEL_ID(i)); s += show(im); if (!im.empty()) n++; if (l.has(TRAX_CHANNEL_ID(i)) == im.empty()) s += "!"; }
    if (l.size() != n) s += "#";
    return s;
}

}
