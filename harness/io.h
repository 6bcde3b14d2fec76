// Reading files back, independently of the library.
#ifndef VERIF_IO_H
#define VERIF_IO_H
#include "gen.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

namespace io {

typedef std::vector<std::string> Lines;

inline std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline void spit(const std::string& p, const std::string& d) { std::ofstream f(p.c_str(), std::ios::binary); f.write(d.data(), (std::streamsize) d.size()); }

inline Lines list(const std::string& d)
{
    Lines v; DIR* h = opendir(d.c_str()); if (!h) return v;
    while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
    closedir(h); std::sort(v.begin(), v.end()); return v;
}

// A fresh, empty directory for one case.
struct Dir {
    std::string path;
    Dir() { static unsigned long n = 0; path = scratch_dir() + "/c" + std::to_string(n++); mkdir(path.c_str(), 0700); if (chdir(path.c_str())) abort(); }
    ~Dir() { clear(path); if (chdir("/tmp")) {} rmdir(path.c_str()); }
    static void clear(const std::string& p)
    {
        if (p.find("/slsmverif.") == std::string::npos) return;
        for (auto& n : list(p)) { std::string q = p + "/" + n; if (unlink(q.c_str())) { clear(q); rmdir(q.c_str()); } }
    }
};

inline std::string number(unsigned dp) { std::string n = std::to_string(dp); return n.size() < 4 ? std::string(4 - n.size(), '0') + n : n; }

inline Lines lines(const std::string& d) { Lines v; std::istringstream s(d); std::string l; while (std::getline(s, l)) v.push_back(l); return v; }
inline Lines tokens(const std::string& l) { Lines v; std::istringstream s(l); std::string t; while (s >> t) v.push_back(t); return v; }

inline bool numeric(const std::string& t, double& v)
{
    if (t.empty()) return false;
    for (char c : t) if (!strchr("0123456789+-.eE", c)) return false;
    char* e; v = strtod(t.c_str(), &e); return *e == 0;
}
// the value printed with six decimals
inline bool printed(double file, double mem) { return std::isfinite(mem) && std::fabs(file - mem) <= 5.000001e-7 + 1e-12 * std::fabs(mem); }

}
#endif
