#include "disk.h"
#include "sim.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <unistd.h>
namespace sim {
Disk disk;
static std::map<int, std::string>& fds() { static std::map<int, std::string> m; return m; }
static long simWrite(const std::string& name, const char* p, size_t n) {
    AllocGuard g;
    long k = disk.writes++;
    disk.rng = disk.rng*1664525u + 1013904223u; unsigned r = disk.rng >> 8;
    if (disk.eintr && r % disk.eintr == 0) { S->fault("disk-interrupted-write"); errno = EINTR; return -1; }
    if (disk.ioErrAt >= 0 && (k == disk.ioErrAt || (disk.ioErrSticky && k > disk.ioErrAt))) { S->fault("disk-write-error"); disk.failed[name] = "write"; errno = disk.ioErr; return -1; }
    if (disk.shortWrites && n > 1 && r % disk.shortWrites == 0) { S->fault("disk-short-write"); n = 1 + (r >> 4) % (n - 1); }
    if (disk.capacity >= 0 && disk.used + (long)n > disk.capacity) {
        long room = disk.capacity - disk.used;
        if (room <= 0) { S->fault("disk-full"); disk.failed[name] = "full"; errno = ENOSPC; return -1; }
        S->fault("disk-torn-write"); n = room;
    }
    disk.used += n;
    disk.files[name].append(p, n);
    return n;
}
template<class F> static F real(const char* n) { static void* p = nullptr; if (!p) p = dlsym(RTLD_NEXT, n); return (F)p; }
static FILE* simOpen(const char* name, const char* mode) {
    AllocGuard g;
    if (disk.opens++ == disk.openFailAt) { S->fault("disk-open-error"); disk.failed[name] = "open"; errno = disk.openErr; return nullptr; }
    if (mode[0] == 'w') disk.files[name].clear();
    disk.files[name];
    int fd = ::open("/dev/null", O_WRONLY);
    fds()[fd] = name; ++disk.openNow;
    return fdopen(fd, "w");
}
}
using namespace sim;
extern "C" {
FILE* fopen(const char* name, const char* mode) {
    if (!strncmp(name, "/sim/", 5)) return simOpen(name, mode);
    return real<FILE*(*)(const char*, const char*)>("fopen")(name, mode);
}
FILE* fopen64(const char* name, const char* mode) {
    if (!strncmp(name, "/sim/", 5)) return simOpen(name, mode);
    static FILE* (*f)(const char*, const char*) = (FILE*(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64"); return f(name, mode);
}
ssize_t write(int fd, const void* p, size_t n) {
    auto it = fds().find(fd);
    if (it != fds().end()) return simWrite(it->second, (const char*)p, n);
    static ssize_t (*f)(int, const void*, size_t) = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); return f(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    auto it = fds().find(fd);
    if (it != fds().end()) { AllocGuard g; std::string s; for (int i = 0; i < n; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); return simWrite(it->second, s.data(), s.size()); }
    static ssize_t (*f)(int, const struct iovec*, int) = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev"); return f(fd, v, n);
}
int fclose(FILE* f) {
    static int (*r)(FILE*) = (int(*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int fd = fileno(f); auto it = fds().find(fd);
    if (it == fds().end()) return r(f);
    AllocGuard g;
    std::string name = it->second; fds().erase(it); --disk.openNow;
    r(f);
    if (disk.closes++ == disk.closeFailAt) { S->fault("disk-close-error"); disk.failed[name] = "close"; errno = EIO; return EOF; }
    return 0;
}
}
