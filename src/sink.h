// Output and input stream buffers under the control of a check.
#pragma once
#include <algorithm>
#include <stdexcept>
#include <streambuf>
#include <string>

namespace sink
{
// A seekable destination that takes bytes up to a position.
struct Out : std::streambuf
{
	std::string got;
	std::size_t pos = 0;
	std::size_t limit = std::string::npos;
	bool throws = false;
	bool once = false;         // refuses one write only
	bool wholeWrites = false;  // refuses a write completely instead of taking what fits
	bool seekable = true;
	bool refused = false;
	unsigned writes = 0, seeks = 0;
	long failWrite = -1, failSeek = -1; // refuse the n-th write or seek

	bool put(const char* p, std::size_t n)
	{
		std::size_t take = n;
		bool closed = limit != std::string::npos && !(once && refused);
		if (closed && pos + n > limit)
			take = wholeWrites || pos >= limit ? 0 : limit - pos;
		if (long(writes++) == failWrite)
			take = 0;
		if (take)
		{
			if (got.size() < pos + take)
				got.resize(pos + take);
			std::copy(p, p + take, got.begin() + long(pos));
			pos += take;
		}
		if (take == n)
			return true;
		refused = true;
		if (throws)
			throw std::runtime_error("device failed");
		m_taken = take;
		return false;
	}
	int overflow(int c) override
	{
		char k = char(c);
		return c == traits_type::eof() || put(&k, 1) ? traits_type::not_eof(c) : traits_type::eof();
	}
	std::streamsize xsputn(const char* p, std::streamsize n) override
	{
		return put(p, std::size_t(n)) ? n : std::streamsize(m_taken);
	}
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
	{
		bool query = o == 0 && d == std::ios_base::cur;
		if (!seekable)
			return pos_type(off_type(-1));
		if (!query && long(seeks++) == failSeek)
		{
			refused = true;
			return pos_type(off_type(-1));
		}
		off_type base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? off_type(pos) :
			off_type(got.size());
		if (base + o < 0)
			return pos_type(off_type(-1));
		pos = std::size_t(base + o);
		return pos_type(off_type(pos));
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override
	{
		return seekoff(off_type(p), std::ios_base::beg, m);
	}
private:
	std::size_t m_taken = 0;
};

// A source of bytes that hands out pieces of chosen sizes.
struct In : std::streambuf
{
	std::string data;
	std::size_t next = 0;      // first byte that was not handed out
	bool seekable = false;
	std::size_t chunk = 1;
	unsigned pieces = 0;
	std::size_t (*choose)(void*, std::size_t) = nullptr; // at most this many bytes remain
	void* user = nullptr;

	int underflow() override
	{
		if (next >= data.size())
		{
			setg(nullptr, nullptr, nullptr);
			return traits_type::eof();
		}
		std::size_t left = data.size() - next;
		std::size_t n = choose ? choose(user, left) : std::min(chunk, left);
		char* p = &data[0] + next;
		setg(p, p, p + n);
		next += n;
		++pieces;
		return traits_type::to_int_type(*p);
	}
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
	{
		if (!seekable)
			return pos_type(off_type(-1));
		off_type cur = off_type(next) - off_type(egptr() - gptr());
		off_type base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? cur : off_type(data.size());
		off_type to = base + o;
		if (to < 0 || to > off_type(data.size()))
			return pos_type(off_type(-1));
		setg(nullptr, nullptr, nullptr);
		next = std::size_t(to);
		return pos_type(to);
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override
	{
		return seekoff(off_type(p), std::ios_base::beg, m);
	}
};
} // namespace sink
