// Native replay runtime: symbolic inputs come from the file $VF_ASSIGN (lines
// "name hex"), files are real files in the current directory.
// exit 0: no check failed; 1: a check failed (message on stdout); 3: an
// assumption does not hold for these inputs; 4: exception escaped; signals: crash.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iterator>
#include <map>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include "vf.hpp"
#include <cerrno>
#include <sys/syscall.h>
#include <sys/uio.h>
static size_t g_w = -1, g_r = -1;
// the file operations of the streams, with the faults of vf_faults
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (fd > 2 && g_w != (size_t)-1 && (size_t)lseek(fd, 0, SEEK_CUR) + n > g_w) { errno = ENOSPC; return -1; }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int k)
{
    size_t n = 0;
    for (int i = 0; i < k; ++i) n += v[i].iov_len;
    if (fd > 2 && g_w != (size_t)-1 && (size_t)lseek(fd, 0, SEEK_CUR) + n > g_w) { errno = ENOSPC; return -1; }
    return syscall(SYS_writev, fd, v, k);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    if (fd > 2 && g_r != (size_t)-1) {
        size_t at = (size_t)lseek(fd, 0, SEEK_CUR);
        if (at >= g_r) { errno = EIO; return -1; }
        if (n > g_r - at) n = g_r - at;
    }
    return syscall(SYS_read, fd, p, n);
}
static std::map<std::string, std::string> g_vals;
static std::string g_file;
extern "C" {
void __vf_sym(const char* name, void* p, size_t n)
{
    std::string v = g_vals.count(name) ? g_vals[name] : std::string();
    v.resize(n, 0);
    memcpy(p, v.data(), n);
}
void __vf_assume(bool b) { if (!b) { fflush(stdout); _exit(3); } }
void __vf_check(bool b, const char* m) { if (!b) { printf("FAILED %s\n", m); fflush(stdout); _exit(1); } }
void __vf_check_eq(uint64_t a, uint64_t b, const char* m) { if (a != b) { printf("FAILED %s (%llx != %llx)\n", m, (unsigned long long)a, (unsigned long long)b); fflush(stdout); _exit(1); } }
void __vf_reach(const char* m) { if (getenv("VF_REACH")) { printf("REACH %s\n", m); fflush(stdout); } }
uint64_t __vf_conc(uint64_t v) { return v; }
void __vf_stop() { fflush(stdout); _exit(0); }
void __vf_print(const char* m, uint64_t v) { printf("[print] %s %lld 0x%llx\n", m, (long long)v, (unsigned long long)v); }
void vf_put_file(const char* name, const void* p, size_t n) { std::ofstream o(name, std::ios::binary | std::ios::trunc); o.write((const char*)p, n); }
void vf_faults(size_t w, size_t r) { g_w = w; g_r = r; }
static void slurp(const char* name) { std::ifstream i(name, std::ios::binary); g_file.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
size_t vf_file_size(const char* name) { slurp(name); return g_file.size(); }
const unsigned char* vf_file_data(const char* name)
{
    static std::vector<std::string*> keep;
    slurp(name);
    keep.push_back(new std::string(g_file));
    return (const unsigned char*)keep.back()->data();
}
}
int main(int argc, char** argv)
{
    if (argc < 2) return 5;
    if (const char* a = getenv("VF_ASSIGN")) {
        std::ifstream i(a);
        std::string l;
        while (std::getline(i, l)) { // name, which may have spaces, and hexadecimal digits
            size_t at = l.rfind(' ');
            if (at == std::string::npos) continue;
            std::string n = l.substr(0, at), h = l.substr(at + 1);
            std::string v;
            for (size_t k = 0; k + 1 < h.size(); k += 2) v += (char)strtol(h.substr(k, 2).c_str(), nullptr, 16);
            g_vals[n] = v;
        }
    }
    auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) return 5;
    try {
        f();
    } catch (...) {
        int st; const char* nm = abi::__cxa_current_exception_type() ? abi::__cxa_current_exception_type()->name() : "?";
        char* d = abi::__cxa_demangle(nm, nullptr, nullptr, &st);
        printf("FAILED uncaught exception %s\n", d ? d : nm);
        fflush(stdout);
        _exit(4);
    }
    fflush(stdout);
    _exit(0);
}
