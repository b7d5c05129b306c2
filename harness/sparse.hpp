// A file written at chosen places, with holes between.
#pragma once
#include <cstdint>
#include <fcntl.h>
#include <string>
#include <unistd.h>
namespace mc {
struct Sparse {
    int fd;
    bool ok = true;
    Sparse(std::string const& p) : fd(::open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600)) { ok = fd >= 0; }
    ~Sparse() { if (fd >= 0) ::close(fd); }
    void put(uint64_t at, std::string const& s) { if (ok && !s.empty()) ok = ::pwrite(fd, s.data(), s.size(), (off_t)at) == (ssize_t)s.size(); }
    void size(uint64_t n) { if (ok) ok = ::ftruncate(fd, (off_t)n) == 0; }
};
} // namespace mc
