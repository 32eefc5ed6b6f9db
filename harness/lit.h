// Literal syntax shared by the harnesses: byte strings are hex ("-" empty, "~" NULL);
// images, regions, properties and object lists have a one-token textual form.
#pragma once
#include <trax.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace lit {

static inline std::string hex(const char* p, size_t n) {
    static const char* d = "0123456789abcdef";
    if (!n) return "-";
    std::string s; s.reserve(2 * n);
    for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char) p[i]; s += d[c >> 4]; s += d[c & 15]; }
    return s;
}
static inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
static inline std::string hexz(const char* s) { return s ? hex(s, strlen(s)) : std::string("~"); }

static inline int nib(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static inline bool isnull(const std::string& t) { return t == "~"; }
static inline std::string unhex(const std::string& t) {
    if (t == "-" || t == "~") return std::string();
    std::string s;
    for (size_t i = 0; i + 1 < t.size(); i += 2) s += (char)(nib(t[i]) * 16 + nib(t[i + 1]));
    return s;
}
static inline std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r; std::string cur;
    for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
    r.push_back(cur);
    return r;
}

static inline std::string num(float f) { char b[64]; snprintf(b, sizeof b, "%.9g", (double) f); return b; }

// set pixels of a mask are those that are not zero: '1'..'4' are different such values
static inline char mask_value(char c) { return c == '1' ? 1 : c == '2' ? (char) 255 : c == '3' ? 2 : c == '4' ? (char) 128 : 0; }
// ---- regions: S:code  R:x:y:w:h  G:x:y:x:y...  K:x:y:w:h:bits
static inline trax_region* region(const std::string& t) {
    if (t == "~") return NULL;
    std::vector<std::string> f = split(t, ':');
    switch (t[0]) {
    case 'S': return trax_region_create_special(atoi(f[1].c_str()));
    case 'R': return trax_region_create_rectangle(strtof(f[1].c_str(), 0), strtof(f[2].c_str(), 0), strtof(f[3].c_str(), 0), strtof(f[4].c_str(), 0));
    case 'G': {
        int n = (int)(f.size() - 1) / 2;
        trax_region* r = trax_region_create_polygon(n);
        for (int i = 0; i < n; i++) trax_region_set_polygon_point(r, i, strtof(f[1 + 2 * i].c_str(), 0), strtof(f[2 + 2 * i].c_str(), 0));
        return r;
    }
    case 'K': {
        int x = atoi(f[1].c_str()), y = atoi(f[2].c_str()), w = atoi(f[3].c_str()), h = atoi(f[4].c_str());
        trax_region* r = trax_region_create_mask(x, y, w, h);
        for (int j = 0; j < h; j++) { char* row = trax_region_write_mask_row(r, j); for (int i = 0; i < w; i++) row[i] = mask_value(f[5][(size_t) j * w + i]); }
        return r;
    }
    }
    fprintf(stderr, "bad region literal %s\n", t.c_str()); exit(97);
}
static inline std::string region_out(const trax_region* r) {
    if (!r) return "~";
    char b[256];
    switch (trax_region_get_type(r)) {
    case TRAX_REGION_SPECIAL: snprintf(b, sizeof b, "S:%d", trax_region_get_special(r)); return b;
    case TRAX_REGION_RECTANGLE: { float x, y, w, h; trax_region_get_rectangle(r, &x, &y, &w, &h); return "R:" + num(x) + ":" + num(y) + ":" + num(w) + ":" + num(h); }
    case TRAX_REGION_POLYGON: {
        std::string s = "G"; int n = trax_region_get_polygon_count(r);
        for (int i = 0; i < n; i++) { float x, y; trax_region_get_polygon_point(r, i, &x, &y); s += ":" + num(x) + ":" + num(y); }
        return s;
    }
    case TRAX_REGION_MASK: {
        int x, y, w, h; trax_region_get_mask_header(r, &x, &y, &w, &h);
        snprintf(b, sizeof b, "K:%d:%d:%d:%d:", x, y, w, h);
        std::string s = b;
        for (int j = 0; j < h; j++) { const char* row = trax_region_get_mask_row(r, j); for (int i = 0; i < w; i++) s += row[i] ? '1' : '0'; }
        return s;
    }
    }
    return "?";
}

// ---- images: P:hex U:hex M:w:h:fmt:hex B:hex
static inline trax_image* image(const std::string& t) {
    if (t == "~") return NULL;
    std::vector<std::string> f = split(t, ':');
    switch (t[0]) {
    case 'P': return trax_image_create_path(unhex(f[1]).c_str());
    case 'U': return trax_image_create_url(unhex(f[1]).c_str());
    case 'M': {
        int w = atoi(f[1].c_str()), h = atoi(f[2].c_str()), fmt = atoi(f[3].c_str());
        std::string d = unhex(f[4]);
        int bpp = fmt == TRAX_IMAGE_MEMORY_RGB ? 3 : fmt == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1;
        trax_image* im = trax_image_create_memory(w, h, fmt);
        for (int j = 0; j < h; j++) memcpy(trax_image_write_memory_row(im, j), d.data() + (size_t) j * w * bpp, (size_t) w * bpp);
        return im;
    }
    case 'B': { std::string d = unhex(f[1]); return trax_image_create_buffer((int) d.size(), d.data()); }
    }
    fprintf(stderr, "bad image literal %s\n", t.c_str()); exit(97);
}
static inline std::string image_out(const trax_image* im) {
    if (!im) return "~";
    char b[128];
    switch (trax_image_get_type(im)) {
    case TRAX_IMAGE_PATH: return "P:" + hexz(trax_image_get_path(im));
    case TRAX_IMAGE_URL: return "U:" + hexz(trax_image_get_url(im));
    case TRAX_IMAGE_MEMORY: {
        int w, h, f; trax_image_get_memory_header(im, &w, &h, &f);
        int bpp = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : f == TRAX_IMAGE_MEMORY_GRAY8 ? 1 : 0;
        std::string d;
        for (int j = 0; j < h; j++) d.append(trax_image_get_memory_row(im, j), (size_t) w * bpp);
        snprintf(b, sizeof b, "M:%d:%d:%d:", w, h, f);
        return b + hex(d);
    }
    case TRAX_IMAGE_BUFFER: {
        int n, f; const char* p = trax_image_get_buffer(im, &n, &f);
        snprintf(b, sizeof b, "B%d:", f);
        return b + hex(p, n);
    }
    }
    return "?";
}

// image list: three images separated by ","   (index = channel index)
static inline trax_image_list* images(const std::string& t) {
    if (t == "~") return NULL;
    trax_image_list* l = trax_image_list_create();
    if (t == "-") return l;
    std::vector<std::string> f = split(t, ',');
    for (size_t i = 0; i < f.size() && i < TRAX_CHANNELS; i++) trax_image_list_set(l, image(f[i]), TRAX_CHANNEL_ID((int) i));
    return l;
}
static inline std::string images_out(const trax_image_list* l) {
    if (!l) return "~";
    std::string s;
    for (int i = 0; i < TRAX_CHANNELS; i++) { if (i) s += ","; s += image_out(trax_image_list_get(l, TRAX_CHANNEL_ID(i))); }
    return s;
}
static inline void images_free(trax_image_list*& l) { if (l) { trax_image_list_clear(l); trax_image_list_release(&l); } }

// ---- properties: hexk=hexv&hexk=hexv
static inline trax_properties* props(const std::string& t) {
    if (t == "~") return NULL;
    trax_properties* p = trax_properties_create();
    if (t == "-") return p;
    for (auto& kv : split(t, '&')) { auto e = split(kv, '='); trax_properties_set(p, unhex(e[0]).c_str(), unhex(e[1]).c_str()); }
    return p;
}
static void props_collect(const char* k, const char* v, const void* o) {
    ((std::vector<std::pair<std::string, std::string>>*) o)->push_back({k, v});
}
static inline std::string props_out(const trax_properties* p) {
    if (!p) return "~";
    std::vector<std::pair<std::string, std::string>> v;
    trax_properties_enumerate(p, props_collect, &v);
    std::multimap<std::string, std::string> m(v.begin(), v.end());
    std::string s;
    for (auto& e : m) { if (!s.empty()) s += "&"; s += hex(e.first) + "=" + hex(e.second); }
    return s.empty() ? "-" : s;
}

// ---- object list: region|props;region|props
static inline trax_object_list* objects(const std::string& t) {
    if (t == "~") return NULL;
    if (t == "-") return trax_object_list_create(0);
    auto f = split(t, ';');
    trax_object_list* l = trax_object_list_create((int) f.size());
    for (size_t i = 0; i < f.size(); i++) {
        auto e = split(f[i], '|');
        trax_region* r = region(e[0]);
        trax_object_list_set(l, (int) i, r);
        trax_region_release(&r);
        if (e.size() > 1 && e[1] != "-") {
            trax_properties* p = props(e[1]);
            trax_properties_append(p, trax_object_list_properties(l, (int) i), 1);
            trax_properties_release(&p);
        }
    }
    return l;
}
static inline std::string objects_out(trax_object_list* l) {
    if (!l) return "~";
    std::string s;
    for (int i = 0; i < trax_object_list_count(l); i++) {
        if (i) s += ";";
        s += region_out(trax_object_list_get(l, i)) + "|" + props_out(trax_object_list_properties(l, i));
    }
    return s.empty() ? "-" : s;
}

}
