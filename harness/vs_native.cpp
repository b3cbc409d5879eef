// Native side of the harness interface: inputs come from a file, checks are printed.
#include "vs.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

static std::map<std::string, double> fv;
static std::map<std::string, long> iv;
struct UF { std::vector<double> a; double v; };
static std::map<std::string, std::vector<UF>> uf;

extern "C" {
double vs_double(const char* n, double lo, double hi, double pref) {
    auto it = fv.find(n);
    double v = it == fv.end() ? pref : it->second;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return v;
}
int vs_int(const char* n, int lo, int hi) {
    auto it = iv.find(n);
    int v = it == iv.end() ? lo : (int)it->second;
    return v;
}
int vs_choice(const char* n, int lo, int hi) { return vs_int(n, lo, hi); }
void vs_assume(bool c) {
    if (!c) { std::printf("ASSUME\tfalse\n"); std::fflush(stdout); std::exit(0); }
}
void vs_check(bool c, const char* l) { std::printf("CHECK\t%s\t%s\t\n", c ? "ok" : "FAIL", l); std::fflush(stdout); }
void vs_close(double x, double y, double rt, double at, const char* l) {
    bool ok = (x == y) || std::fabs(x - y) <= at + rt * std::fabs(y);
    std::printf("CHECK\t%s\t%s\tgot %.17g expected %.17g\n", ok ? "ok" : "FAIL", l, x, y);
    std::fflush(stdout);
}
void vs_ident(double x, double y, const char* l) {
    bool ok = x == y || (x != x && y != y);
    std::printf("CHECK\t%s\t%s\tgot %.17g expected %.17g\n", ok ? "ok" : "FAIL", l, x, y);
    std::fflush(stdout);
}
void vs_obs(const char* n, double v) { std::printf("OBS\t%s\t%.17g\n", n, v); std::fflush(stdout); }
int vs_symbolic() { return 0; }
}
static double lookup(const char* n, const std::vector<double>& a, double v) {
    double best = 1e300;
    for (auto& u : uf[n]) {
        if (u.a.size() != a.size()) continue;
        double d = 0;
        for (size_t i = 0; i < a.size(); i++) d += std::fabs(a[i] - u.a[i]) / (1e-300 + std::fabs(a[i]) + std::fabs(u.a[i]));
        if (d < best) { best = d; v = u.v; }
    }
    return v;
}
extern "C" {
double vs_uf(const char* n, int k, ...) {
    std::vector<double> a;
    va_list ap;
    va_start(ap, k);
    for (int i = 0; i < k; i++) a.push_back(va_arg(ap, double));
    va_end(ap);
    return lookup(n, a, 1.0);
}
double vs_ufr(const char* n, double lo, double hi, int k, ...) {
    std::vector<double> a;
    va_list ap;
    va_start(ap, k);
    for (int i = 0; i < k; i++) a.push_back(va_arg(ap, double));
    va_end(ap);
    double v = lookup(n, a, 1.0);
    return v < lo ? lo : v > hi ? hi : v;
}
double vs_ufm(const char* n, double lo, double hi, double x) {      // linear between the given points
    double xl = -1e6, yl = lo, xh = 1e9, yh = hi;
    for (auto& u : uf[n]) {
        if (u.a.size() != 1) continue;
        if (u.a[0] <= x && u.a[0] >= xl) { xl = u.a[0]; yl = u.v; }
        if (u.a[0] >= x && u.a[0] <= xh) { xh = u.a[0]; yh = u.v; }
    }
    return xh == xl ? yl : yl + (yh - yl) * ((x - xl) / (xh - xl));
}
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k, n;
        std::getline(s, k, '\t');     // names may contain spaces
        std::getline(s, n, '\t');
        if (k == "f") { std::string v; s >> v; fv[n] = std::strtod(v.c_str(), nullptr); }
        else if (k == "i") { long v; s >> v; iv[n] = v; }
        else if (k == "u") {
            std::string v; std::vector<double> a;
            while (s >> v) a.push_back(std::strtod(v.c_str(), nullptr));
            if (a.empty()) continue;
            double r = a.back(); a.pop_back();
            uf[n].push_back({a, r});
        }
    }
    void (*fn)() = (void (*)())dlsym(nullptr, argv[1]);
    if (!fn) { std::fprintf(stderr, "no case %s\n", argv[1]); return 3; }
    fn();
    std::printf("DONE\n");
    return 0;
}
