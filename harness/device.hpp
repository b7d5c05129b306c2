// A device under control: the system calls the streams make (write, writev, read, lseek) pass through here, and while
// armed they can be refused, shortened or interrupted according to a plan.
#pragma once
#include <cerrno>
#include <cstdint>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <climits>
#include <algorithm>
namespace dev {
struct Plan {
    int64_t limit = -1;                     // nothing can be stored at this offset and beyond
    long at_write = -1, at_read = -1, at_seek = -1; // the call (counted from 0) that fails
    bool once = false;                      // or it and all later ones
    int err = EIO;
    long part = 0;                          // bytes the failing write still takes
    size_t most = 0;                        // a call moves no more than that
    bool interrupted = false;               // every other call is interrupted
};
inline Plan plan;
inline bool armed = false;
inline long writes = 0, reads = 0, seeks = 0, calls = 0, refused = 0;
inline void reset(Plan const& p) { plan = p; writes = reads = seeks = calls = refused = 0; }
struct Arm { Arm() { armed = true; } ~Arm() { armed = false; } };
inline bool hit(long at, long n) { return at >= 0 && (plan.once ? n == at : n >= at); }
inline bool interrupt() { return plan.interrupted && calls++ % 2 == 0; }
// how much of n bytes at the file's offset is taken; < 0: refused
inline ssize_t take(int fd, size_t n)
{
    if (interrupt()) { errno = EINTR; return -1; }
    long k = writes++;
    if (hit(plan.at_write, k)) {
        if (plan.part > 0 && k == plan.at_write && n > 1) return std::min<ssize_t>(plan.part, n - 1); // refused by the next call
        ++refused; errno = plan.err; return -1;
    }
    if (plan.at_write >= 0 && plan.part > 0 && plan.once && k == plan.at_write + 1) { ++refused; errno = plan.err; return -1; }
    if (plan.limit >= 0) {
        int64_t at = syscall(SYS_lseek, fd, 0, 1);
        if (at >= plan.limit) { ++refused; errno = plan.err; return -1; }
        n = std::min<int64_t>(n, plan.limit - at);
    }
    if (plan.most) n = std::min(n, plan.most);
    return n;
}
}
extern "C" {
ssize_t write(int fd, void const* p, size_t n)
{
    if (dev::armed && fd > 2 && n) { ssize_t t = dev::take(fd, n); if (t < 0) return -1; n = t; }
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, iovec const* v, int n)
{
    if (!dev::armed || fd <= 2) return syscall(SYS_writev, fd, v, n);
    size_t all = 0;
    for (int i = 0; i < n; ++i) all += v[i].iov_len;
    ssize_t t = dev::take(fd, all), done = 0;
    if (t < 0) return -1;
    for (int i = 0; i < n && t > 0; ++i) {
        ssize_t k = std::min<ssize_t>(t, v[i].iov_len);
        if (!k) continue;
        ssize_t r = syscall(SYS_write, fd, v[i].iov_base, k);
        if (r < 0) return done ? done : -1;
        done += r; t -= r;
        if (r < k) break;
    }
    return done;
}
ssize_t read(int fd, void* p, size_t n)
{
    if (dev::armed && fd > 2 && n) {
        if (dev::interrupt()) { errno = EINTR; return -1; }
        long k = dev::reads++;
        if (dev::hit(dev::plan.at_read, k)) { ++dev::refused; errno = dev::plan.err; return -1; }
        if (dev::plan.most) n = std::min(n, dev::plan.most);
    }
    return syscall(SYS_read, fd, p, n);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept
{
    if (dev::armed && fd > 2) {
        long k = dev::seeks++;
        if (dev::hit(dev::plan.at_seek, k)) { ++dev::refused; errno = dev::plan.err; return -1; }
    }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
}
