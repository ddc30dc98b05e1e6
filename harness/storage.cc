// Run-time contract of the storage layer (C15): what is read is what is stored, what is not there is refused by name, no handle is left.
#include "gm.hh"
#include "geomodelgrids/serial/HDF5.hh"
using namespace gm;
using geomodelgrids::serial::HDF5;

typedef std::vector<hsize_t> Dims;
struct Ds { std::string path; Dims dims; std::vector<double> data; bool broken = false; };
struct At { std::string obj, name; int kind; Dims dims; std::vector<double> num; std::vector<std::string> str; bool var = true; };   // kind 0 number(s), 1 string(s)

static hid_t file;
static std::string text(int lo, int hi) { std::string s; for (int n = ri(lo, hi); n > 0; --n) s += (char)ri(33, 122); return s; }
static hid_t numType() { int k = ri(0, 4); return k == 0 ? H5T_IEEE_F32LE : k == 1 ? H5T_STD_I32BE : k == 2 ? H5T_STD_I64LE : k == 3 ? H5T_IEEE_F64BE : H5T_IEEE_F64LE; }

static void putNum(const At& a) {
    hid_t o = H5Oopen(file, a.obj.c_str(), H5P_DEFAULT), s = a.dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple((int)a.dims.size(), a.dims.data(), nullptr);
    hid_t t = H5Acreate2(o, a.name.c_str(), numType(), s, H5P_DEFAULT, H5P_DEFAULT);
    if (!a.num.empty()) H5Awrite(t, H5T_NATIVE_DOUBLE, a.num.data());
    H5Aclose(t); H5Sclose(s); H5Oclose(o);
}
static void putStr(const At& a) {
    hid_t o = H5Oopen(file, a.obj.c_str(), H5P_DEFAULT), s = a.dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple((int)a.dims.size(), a.dims.data(), nullptr);
    hid_t ty = H5Tcopy(H5T_C_S1);
    if (a.var) {
        H5Tset_size(ty, H5T_VARIABLE);
        hid_t t = H5Acreate2(o, a.name.c_str(), ty, s, H5P_DEFAULT, H5P_DEFAULT);
        std::vector<const char*> p; for (auto& x : a.str) p.push_back(x.c_str());
        if (!p.empty()) H5Awrite(t, ty, p.data());
        H5Aclose(t);
    } else {
        size_t w = 1; for (auto& x : a.str) w = std::max(w, x.size());
        bool term = coin(); if (term || coin(30)) w += ri(1, 4);
        H5Tset_size(ty, w); H5Tset_strpad(ty, term ? H5T_STR_NULLTERM : H5T_STR_NULLPAD);
        std::vector<char> b(w * std::max<size_t>(1, a.str.size()), 0);
        for (size_t i = 0; i < a.str.size(); ++i) memcpy(&b[i * w], a.str[i].data(), a.str[i].size());
        hid_t t = H5Acreate2(o, a.name.c_str(), ty, s, H5P_DEFAULT, H5P_DEFAULT);
        H5Awrite(t, ty, b.data());
        H5Aclose(t);
    }
    H5Tclose(ty); H5Sclose(s); H5Oclose(o);
}
static size_t prod(const Dims& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
static void putData(Ds& d) {
    hid_t s = d.dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple((int)d.dims.size(), d.dims.data(), nullptr);
    hid_t pl = H5Pcreate(H5P_DATASET_CREATE);
    if (d.broken) H5Pset_external(pl, "no-such-storage.bin", 0, prod(d.dims) * 8);
    else if (!d.dims.empty() && prod(d.dims) && coin()) { Dims c; for (auto x : d.dims) c.push_back(ri(1, (int)x)); H5Pset_chunk(pl, (int)c.size(), c.data()); }
    hid_t t = H5Dcreate2(file, d.path.c_str(), d.broken ? H5T_NATIVE_DOUBLE : numType(), s, H5P_DEFAULT, pl, H5P_DEFAULT);
    if (!d.broken && prod(d.dims)) H5Dwrite(t, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, d.data.data());
    H5Dclose(t); H5Pclose(pl); H5Sclose(s);
}

// Open handles.  Files and the objects in them are counted; the library does not count dataspaces, datatypes and property
// lists for its callers, but their identifiers are issued in sequence: none issued during the call may still be valid.
struct Balance {
    static const unsigned COUNTED[4];
    ssize_t n[4]; hid_t probe[3]; const char* what;
    static hid_t issue(int k) { hid_t h = k == 0 ? H5Screate(H5S_SCALAR) : k == 1 ? H5Tcopy(H5T_NATIVE_INT) : H5Pcreate(H5P_DATASET_ACCESS); return h; }
    static void drop(int k, hid_t h) { if (k == 0) H5Sclose(h); else if (k == 1) H5Tclose(h); else H5Pclose(h); }
    Balance(const char* w) : what(w) { for (int k = 0; k < 4; ++k) n[k] = H5Fget_obj_count(H5F_OBJ_ALL, COUNTED[k]); for (int k = 0; k < 3; ++k) probe[k] = issue(k); }
    void same(bool fileOpened = false) {
        static const char* nm[] = {"file", "group", "dataset", "attribute"}; static const char* ni[] = {"dataspace", "datatype", "property list"};
        for (int k = 0; k < 4; ++k) { ssize_t m = H5Fget_obj_count(H5F_OBJ_ALL, COUNTED[k]), e = n[k] + (k == 0 && fileOpened); check(m == e, std::string("handle balance of ") + what, fmt("%s handles: %d before, %d after", nm[k], (int)n[k], (int)m)); }
        for (int k = 0; k < 3; ++k) {
            hid_t end = issue(k); int left = 0; for (hid_t h = probe[k] + 1; h < end; ++h) left += H5Iis_valid(h) > 0;
            check(!left, std::string("handle balance of ") + what, fmt("%d %s handles left open", left, ni[k]));
            check(H5Iis_valid(probe[k]) > 0, std::string("handle balance of ") + what, fmt("a %s of the caller was closed", ni[k]));
            drop(k, end); drop(k, probe[k]);
        }
    }
};
const unsigned Balance::COUNTED[4] = {H5F_OBJ_FILE, H5F_OBJ_GROUP, H5F_OBJ_DATASET, H5F_OBJ_ATTR};
template<class F> static std::string attempt(const char* what, F f) {     // "" when f returns, otherwise the message
    Balance b(what); std::string e;
    try { f(); } catch (const std::exception& x) { e = x.what(); if (e.empty()) e = "?"; }
    b.same();
    return e;
}
static bool names(const std::string& e, const std::string& o) { return e.find(o) != std::string::npos; }

int main(int argc, char** argv) {
    init(argc, argv);
    for (int it = 0; timeLeft(); ++it) {
        // ---- a file
        std::vector<std::string> groups; std::vector<Ds> sets; std::vector<At> atts; std::set<std::string> used;
        file = H5Fcreate("storage.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
        auto fresh = [&](const std::string& in) { std::string s; do { s = (in == "/" ? "/" : in + "/") + fmt("%c%d", ri('a', 'z'), ri(0, 99)) + (coin(6) ? std::string(ri(200, 700), 'n') : ""); } while (!used.insert(s).second); return s; };
        for (int i = ri(0, 4); i > 0; --i) { std::string in = groups.empty() || coin() ? "/" : pick(groups); std::string g = fresh(in); groups.push_back(g); hid_t h = H5Gcreate2(file, g.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Gclose(h); }
        for (int i = ri(1, 5); i > 0; --i) {
            Ds d; d.path = fresh(groups.empty() || coin() ? "/" : pick(groups));
            int r = coin(4) ? 0 : ri(1, 5); for (int k = 0; k < r; ++k) d.dims.push_back(coin(4) ? 0 : ri(1, r > 3 ? 4 : 8));
            d.broken = r && prod(d.dims) && coin(8);
            for (size_t k = prod(d.dims); k > 0; --k) d.data.push_back(ri(-100000, 100000));
            putData(d); sets.push_back(d);
        }
        std::vector<std::string> objs = groups; objs.push_back("/"); for (auto& d : sets) objs.push_back(d.path);
        for (int i = ri(1, 7); i > 0; --i) {
            At a; a.obj = pick(objs); a.name = fmt("att%d", ri(0, 999)); if (!used.insert(a.obj + "@" + a.name).second) continue;
            a.kind = ri(0, 1); int r = ri(0, 9); if (r > 3) a.dims.push_back(coin(8) ? 0 : ri(1, 6)); if (r == 9) a.dims.push_back(ri(1, 3));
            a.var = coin();
            size_t n = prod(a.dims);
            for (size_t k = 0; k < n; ++k) if (a.kind) a.str.push_back(text(coin(10) ? 0 : 1, coin(10) ? 600 : 20)); else a.num.push_back(ri(-100000, 100000));
            if (a.kind) putStr(a); else putNum(a);
            atts.push_back(a);
        }
        std::string dangling = "/dangling_link"; bool hasDangling = coin(30); if (hasDangling) H5Lcreate_soft("/nowhere/at/all", file, dangling.c_str(), H5P_DEFAULT, H5P_DEFAULT);
        H5Fclose(file);
        scenario(fmt("it=%d groups=%d datasets=%d attributes=%d dangling=%d", it, (int)groups.size(), (int)sets.size(), (int)atts.size(), hasDangling));
        std::string sc = rep().scenario;
        // ---- opening
        HDF5 h;
        if (coin()) h.setCache(ri(0, 1 << 22), ri(1, 100000), rd(-1, 2));
        if (coin(20)) { std::string e = attempt("open of a missing file", [&] { h.open("no-such-file.h5", H5F_ACC_RDONLY); }); check(names(e, "no-such-file.h5"), "opening a missing file", e); check(!h.isOpen(), "open after a failed open", ""); }
        if (coin(10)) { FILE* f = fopen("junk.h5", "w"); fputs("this is not an HDF5 file", f); fclose(f); std::string e = attempt("open of a file that is not HDF5", [&] { h.open("junk.h5", H5F_ACC_RDONLY); }); check(names(e, "junk.h5"), "opening a file that is not HDF5", e); }
        { Balance b("open"); h.open("storage.h5", H5F_ACC_RDONLY); b.same(true); check(h.isOpen(), "open after opening", ""); }
        if (coin(20)) { std::string e = attempt("open when open", [&] { h.open("storage.h5", H5F_ACC_RDONLY); }); check(!e.empty() && h.isOpen(), "opening twice", e); }
        // ---- questions
        auto spell = [&](const std::string& p) { return p.size() > 1 && coin(30) ? p.substr(1) : p; };
        for (int q = 0; q < 25; ++q) {
            int what = ri(0, 7);
            std::string missing = coin() ? "/absent" : coin() ? "/absent/child" : (hasDangling && coin()) ? dangling : pick(sets).path + "/below";
            if (what == 0) {
                std::string p = coin(25) ? missing : spell(pick(objs)); if (p == "/") continue;
                scenario(sc + " presence of " + p);
                std::string f = p[0] == '/' ? p : "/" + p;
                bool g = std::find(groups.begin(), groups.end(), f) != groups.end(), d = false; for (auto& x : sets) d = d || x.path == f;
                bool rg = !g, rdt = !d;
                std::string e = attempt("hasGroup", [&] { rg = h.hasGroup(p.c_str()); }); check(e.empty() && rg == g, "hasGroup", p + " " + e);
                e = attempt("hasDataset", [&] { rdt = h.hasDataset(p.c_str()); }); check(e.empty() && rdt == d, "hasDataset", p + " " + e);
            } else if (what == 1) {
                Ds d = pick(sets); bool gone = coin(20); std::string p = gone ? missing : spell(d.path);
                scenario(sc + " shape of " + p);
                hsize_t* dm = coin() ? new hsize_t[3] : nullptr; int nd = -7;
                std::string e = attempt("getDatasetDims", [&] { h.getDatasetDims(&dm, &nd, p.c_str()); });
                if (gone) check(names(e, p), "shape of a missing dataset", e);
                else if (check(e.empty() && nd == (int)d.dims.size(), "rank of a dataset", e + fmt(" %d", nd))) { for (int i = 0; i < nd; ++i) check(dm[i] == d.dims[i], "extent of a dataset", fmt("axis %d", i)); if (!nd) check(!dm, "extents of a scalar", ""); }
                delete[] dm;
            } else if (what == 2) {
                bool gone = coin(20); std::string p = gone ? missing : (groups.empty() || coin(30)) ? "/" : spell(pick(groups));
                scenario(sc + " names in " + p);
                std::vector<std::string> got(ri(0, 3), "old"), want;
                std::string e = attempt("getGroupDatasets", [&] { h.getGroupDatasets(&got, p.c_str()); });
                if (gone) { check(names(e, p), "names in a missing group", e); continue; }
                std::string f = p[0] == '/' ? p : "/" + p; std::string pre = f == "/" ? "/" : f + "/";
                for (auto& x : used) if (x.find('@') == std::string::npos && x.size() > pre.size() && !x.compare(0, pre.size(), pre) && x.find('/', pre.size()) == std::string::npos) want.push_back(x.substr(pre.size()));
                if (f == "/" && hasDangling) want.push_back(dangling.substr(1));
                std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
                std::string a, b; for (auto& x : got) a += x + ";"; for (auto& x : want) b += x + ";";
                check(e.empty() && got == want, "names of the objects in a group", e + a + " expected " + b);
            } else if (what <= 4 && !atts.empty()) {
                At a = pick(atts); int fault = coin(25) ? ri(1, 3) : 0;
                std::string o = fault == 1 ? missing : a.obj, n = fault == 2 ? "absent_attribute" : a.name;
                int mode = fault == 3 ? ri(0, 3) : a.kind ? (a.dims.empty() ? 2 : 3) : (a.dims.empty() ? 0 : 1);
                bool bad = fault == 1 || fault == 2;
                // asking for a list of what is not a list, or for numbers of what is text, must be refused
                bool mism = (mode == 1 || mode == 3) && a.dims.size() != 1;
                if ((mode < 2) != (a.kind == 0) && !(a.dims.size() == 1 && prod(a.dims) == 0)) { if (mode < 2) mism = true; else if (!bad) continue; }
                if (mode == 0 && !a.dims.empty() && !bad) continue;         // scalar reads need a scalar
                if (mode == 2 && !a.dims.empty() && !bad) continue;
                if ((mode < 2) != (a.kind == 0) && !mism && !bad) continue;
                scenario(sc + fmt(" attribute %s of %s mode=%d kind=%d rank=%d n=%d var=%d", n.c_str(), o.c_str(), mode, a.kind, (int)a.dims.size(), (int)prod(a.dims), a.var));
                bool has = true; std::string e = attempt("hasAttribute", [&] { has = h.hasAttribute(o.c_str(), n.c_str()); }); check(e.empty() && has == !bad, "hasAttribute", o + " " + n + e);
                double v[2] = {-5.5, -6.5}; void* vs = nullptr; size_t nv = 999; std::string s; std::vector<std::string> l(ri(0, 3), "old");
                if (mode == 0) e = attempt("readAttribute number", [&] { h.readAttribute(o.c_str(), n.c_str(), H5T_NATIVE_DOUBLE, v); });
                if (mode == 1) e = attempt("readAttribute numbers", [&] { h.readAttribute(o.c_str(), n.c_str(), H5T_NATIVE_DOUBLE, &vs, &nv); });
                if (mode == 2) e = attempt("readAttribute string", [&] { s = h.readAttribute(o.c_str(), n.c_str()); });
                if (mode == 3) e = attempt("readAttribute strings", [&] { h.readAttribute(o.c_str(), n.c_str(), &l); });
                if (bad || mism) { check(names(e, o) && names(e, n), bad ? "an absent attribute is refused by name" : "an attribute of another shape or kind is refused by name", e); continue; }
                if (!check(e.empty(), "a stored attribute cannot be read", e)) continue;
                if (mode == 0) check(v[0] == a.num[0] && v[1] == -6.5, "stored number", fmt("%g expected %g", v[0], a.num[0]));
                if (mode == 1) { bool ok = nv == a.num.size(); for (size_t i = 0; ok && i < nv; ++i) ok = ((double*)vs)[i] == a.num[i]; check(ok, "stored numbers", fmt("%d of %d", (int)nv, (int)a.num.size())); delete[] (char*)vs; }
                if (mode == 2) check(s == a.str[0], "stored string", s + " expected " + a.str[0]);
                if (mode == 3) { std::string x; for (auto& y : l) x += y + ";"; check(l == a.str, "stored strings", x); }
            } else if (what >= 5) {
                Ds d = pick(sets); int r = (int)d.dims.size(); int fault = coin(30) ? ri(1, 4) : 0;
                if (r == 0 && fault != 1 && fault != 2) continue;
                Dims o, n; for (int i = 0; i < r; ++i) { n.push_back(ri(d.dims[i] ? 1 : 0, (int)d.dims[i])); o.push_back(ri(0, (int)(d.dims[i] - n[i]))); }
                int rank = r;
                if (fault == 2) { if (coin() && rank > 1) --rank; else { ++rank; o.push_back(0); n.push_back(1); } }
                if (fault == 3) { int i = ri(0, r - 1); if (coin()) o[i] = d.dims[i] - n[i] + ri(1, 3); else n[i] = d.dims[i] - o[i] + ri(1, 3); }
                if (fault == 4) { int i = ri(0, r - 1); if (!n[i]) continue; o[i] = (hsize_t)0 - ri(1, (int)n[i]); if (coin(20)) { o[i] = ri(0, 2); n[i] = (hsize_t)0 - ri(1, 3); } }
                std::string p = fault == 1 ? missing : spell(d.path);
                std::string ds = " window of " + p + " dims:"; for (auto x : d.dims) ds += fmt(" %llu", (unsigned long long)x); ds += " origin:"; for (auto x : o) ds += fmt(" %llu", (unsigned long long)x); ds += " size:"; for (auto x : n) ds += fmt(" %llu", (unsigned long long)x);
                scenario(sc + ds + (d.broken ? " (storage missing)" : ""));
                size_t cap = std::max<size_t>(prod(d.dims), 64) * 4 + 8;
                if (!o.size()) { o.push_back(0); n.push_back(1); }
                std::vector<double> buf(cap, -777.5);
                std::string e = attempt("readDatasetHyperslab", [&] { h.readDatasetHyperslab(buf.data(), p.c_str(), o.data(), n.data(), rank, H5T_NATIVE_DOUBLE); });
                if (fault || (d.broken && prod(n))) {
                    static const char* nm[] = {"unreadable storage", "missing dataset", "other rank", "window leaving the dataset", "window wrapping round"};
                    check(names(e, p), std::string("hyperslab read is refused: ") + nm[fault], e);
                    bool clean = true; for (auto x : buf) clean = clean && x == -777.5;
                    if (fault) check(clean, "a refused hyperslab read delivers data", nm[fault]);
                    continue;
                }
                if (!check(e.empty(), "a hyperslab cannot be read", e)) continue;
                size_t tot = prod(n); bool ok = true; size_t badAt = 0;
                for (size_t f = 0; f < tot; ++f) {
                    size_t rem = f, src = 0, mul = 1;
                    for (int i = r - 1; i >= 0; --i) { src += (o[i] + rem % n[i]) * mul; rem /= n[i]; mul *= d.dims[i]; }
                    if (buf[f] != d.data[src]) { if (ok) badAt = f; ok = false; }
                }
                check(ok, "values of a hyperslab", fmt("element %d", (int)badAt));
                bool clean = true; for (size_t f = tot; f < cap; ++f) clean = clean && buf[f] == -777.5;
                check(clean, "hyperslab read writes past its window", "");
            }
        }
        scenario(sc);
        { ssize_t n0 = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE); h.close(); check(H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE) + 1 == n0 && !h.isOpen(), "closing", ""); h.close(); check(!h.isOpen(), "closing twice", ""); }
    }
    return finish();
}
