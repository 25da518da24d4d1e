// Fault injection at the system calls under C++ and C file streams: write, writev, close of files
// below a marked directory. The definitions here take precedence over libc's for the whole process.
#pragma once
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace faultio
{
// What a write of 'size' bytes should do: -errno, or the number of bytes to write (>= 0).
typedef std::function<long(std::size_t size)> Policy;
struct State
{
	bool active = false;
	dev_t dev = 0;
	ino_t ino = 0;
	std::string path;
	Policy onWrite;
	std::function<int()> onClose;  // 0 or errno
	std::function<int()> onOpen;  // 0 or errno
	unsigned writes = 0, closes = 0, opens = 0;
};
inline State& state() { static State s; return s; }

inline bool isTarget(int fd)
{
	State& s = state();
	if (!s.active)
		return false;
	char link[64], buf[512];
	snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
	ssize_t n = readlink(link, buf, sizeof(buf) - 1);
	if (n <= 0)
		return false;
	buf[n] = 0;
	return s.path == buf;
}

template <typename T>
T real(const char* name) { return reinterpret_cast<T>(dlsym(RTLD_NEXT, name)); }

struct Arm
{
	explicit Arm(const std::string& path)
	{
		state() = State();
		state().path = path;
		state().active = true;
	}
	~Arm() { state().active = false; }
};
} // namespace faultio

extern "C" ssize_t write(int fd, const void* data, size_t size)
{
	typedef ssize_t (*F)(int, const void*, size_t);
	static F next = faultio::real<F>("write");
	if (!faultio::isTarget(fd))
		return next(fd, data, size);
	faultio::State& s = faultio::state();
	++s.writes;
	long r = s.onWrite ? s.onWrite(size) : long(size);
	if (r < 0)
	{
		errno = int(-r);
		return -1;
	}
	return next(fd, data, std::size_t(r) < size ? std::size_t(r) : size);
}

extern "C" ssize_t writev(int fd, const struct iovec* iov, int count)
{
	typedef ssize_t (*F)(int, const struct iovec*, int);
	static F next = faultio::real<F>("writev");
	if (!faultio::isTarget(fd))
		return next(fd, iov, count);
	faultio::State& s = faultio::state();
	++s.writes;
	std::string all;
	for (int i = 0; i < count; ++i)
		all.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
	long r = s.onWrite ? s.onWrite(all.size()) : long(all.size());
	if (r < 0)
	{
		errno = int(-r);
		return -1;
	}
	typedef ssize_t (*W)(int, const void*, size_t);
	static W nextWrite = faultio::real<W>("write");
	return nextWrite(fd, all.data(), std::size_t(r) < all.size() ? std::size_t(r) : all.size());
}

extern "C" int fclose(FILE* f)
{
	typedef int (*F)(FILE*);
	static F next = faultio::real<F>("fclose");
	if (!faultio::isTarget(fileno(f)))
		return next(f);
	faultio::State& s = faultio::state();
	++s.closes;
	int e = s.onClose ? s.onClose() : 0;
	int r = next(f);
	if (e)
	{
		errno = e;
		return -1;
	}
	return r;
}

extern "C" int close(int fd)
{
	typedef int (*F)(int);
	static F next = faultio::real<F>("close");
	if (!faultio::isTarget(fd))
		return next(fd);
	faultio::State& s = faultio::state();
	++s.closes;
	int e = s.onClose ? s.onClose() : 0;
	int r = next(fd);
	if (e)
	{
		errno = e;
		return -1;
	}
	return r;
}
