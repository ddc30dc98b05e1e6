// Running the command line programs in-process.
#pragma once
#include "oracle.hh"
#include <getopt.h>
#include <fstream>
#include <sstream>
#include <iostream>
// the programs' own main functions
#define main gm_main_query
#include "bin/query.cc"
#undef main
#define main gm_main_queryelev
#include "bin/queryelev.cc"
#undef main
#define main gm_main_borehole
#include "bin/borehole.cc"
#undef main
#define main gm_main_info
#include "bin/info.cc"
#undef main
#define main gm_main_isosurface
#include "bin/isosurface.cc"
#undef main
namespace gm {
inline int mainOf(const geomodelgrids::apps::Query*, int n, char** v) { return gm_main_query(n, v); }
inline int mainOf(const geomodelgrids::apps::QueryElev*, int n, char** v) { return gm_main_queryelev(n, v); }
inline int mainOf(const geomodelgrids::apps::Borehole*, int n, char** v) { return gm_main_borehole(n, v); }
inline int mainOf(const geomodelgrids::apps::Info*, int n, char** v) { return gm_main_info(n, v); }
inline int mainOf(const geomodelgrids::apps::Isosurface*, int n, char** v) { return gm_main_isosurface(n, v); }
inline std::string joined(const std::vector<std::string>& a, const char* sep = " ") { std::string s; for (auto& x : a) s += (s.empty() ? "" : sep) + x; return s; }
struct Ran { int status = 0; bool threw = false; std::string what, out, err; };
template<class App> Ran runApp(const std::vector<std::string>& args) {
    Ran r; std::vector<char*> av; std::vector<std::string> keep(args); keep.insert(keep.begin(), "program");
    for (auto& s : keep) av.push_back(const_cast<char*>(s.c_str()));
    av.push_back(nullptr);
    optind = 0;
    std::ostringstream o, e; auto* ob = std::cout.rdbuf(o.rdbuf()); auto* eb = std::cerr.rdbuf(e.rdbuf());
    try { App a; r.status = a.run((int)keep.size(), av.data()); }
    catch (const std::exception& x) { r.threw = true; r.what = x.what(); }
    catch (...) { r.threw = true; r.what = "unknown exception"; }
    // main: the same status; an error is a status other than 0, with its text on the standard error stream
    static int runs = 0;
    if (r.threw || ++runs % 8 == 0) {
        std::ostringstream o2, e2; std::cout.rdbuf(o2.rdbuf()); std::cerr.rdbuf(e2.rdbuf());
        optind = 0; int st = 0; bool escaped = false;
        try { st = mainOf((const App*)nullptr, (int)keep.size(), av.data()); } catch (...) { escaped = true; }
        std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
        check(!escaped, "exception escapes main", joined(keep, " "));
        if (r.threw) { check(st % 256 != 0, "main ends with status 0 after an error", joined(keep, " ")); check(e2.str().find(r.what.substr(0, 20)) != std::string::npos, "error not printed", r.what + " | " + e2.str()); }
        else check(st == r.status, "status of main is not that of the application", fmt("%d %d", st, r.status));
    }
    std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
    r.out = o.str(); r.err = e.str();
    return r;
}
inline std::string g17(double v) { return fmt("%.17g", v); }
inline std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream s; s << i.rdbuf(); return s.str(); }
} // namespace gm
