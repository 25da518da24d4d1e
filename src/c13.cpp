// C13: loading an image gives the same result from every kind of source, and bad data is rejected
// safely.
#include "corpus.h"
#include "img.h"
#include "sink.h"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <FreeImage.h>
#include <dlfcn.h>
#include <unordered_map>
#include <unordered_set>
#include <sys/wait.h>
using namespace img;
using corpus::Entry;
using corpus::entries;

// The codec library has defects of its own on damaged files: FreeImage 3.18 frees its row pointers twice
// when libpng reports an error, and returns freed bitmaps from its TGA loader. To tell those from
// defects of Cuttlefish, memory allocated during a call of the codec's loader starts with a chosen byte
// and ends with a guard that is checked, and what is freed during the call is overwritten and only handed
// back, once, after the call. Outside of these calls everything is as usual.
extern "C" void __libc_free(void*);
extern "C" void* __libc_malloc(std::size_t);
extern "C" void* __libc_memalign(std::size_t, std::size_t);
static int inCodec;
static int freshByte = 0xC3;
static bool overrun;
struct Blocks
{
	std::unordered_set<void*> freed;
	std::unordered_map<void*, std::size_t> live;
};
static Blocks* blocks;
static const std::size_t guardSize = 32;

static void* codecBlock(void* p, std::size_t n)
{
	if (!p)
		return p;
	inCodec = 2;
	memset(p, freshByte, n);
	memset(static_cast<char*>(p) + n, 0xB7, guardSize);
	blocks->live[p] = n;
	inCodec = 1;
	return p;
}
static void checkGuard(void* p, std::size_t n)
{
	for (std::size_t i = 0; i < guardSize; ++i)
	{
		if (static_cast<unsigned char*>(p)[n + i] != 0xB7)
			overrun = true;
	}
}
extern "C" void free(void* p)
{
	if (inCodec != 1 || !p)
	{
		__libc_free(p);
		return;
	}
	inCodec = 2;
	if (blocks->freed.insert(p).second)
	{
		auto i = blocks->live.find(p);
		if (i != blocks->live.end())
		{
			checkGuard(p, i->second);
			memset(p, 0xEE, i->second);
			blocks->live.erase(i);
		}
	}
	inCodec = 1;
}
extern "C" void* malloc(std::size_t n)
{
	if (inCodec != 1)
		return __libc_malloc(n);
	return n > (1ULL << 40) ? nullptr : codecBlock(__libc_malloc(n + guardSize), n);
}
extern "C" int posix_memalign(void** p, std::size_t align, std::size_t n)
{
	if (inCodec != 1)
		*p = __libc_memalign(align, n);
	else
		*p = n > (1ULL << 40) ? nullptr : codecBlock(__libc_memalign(align, n + guardSize), n);
	return *p ? 0 : 12;
}

template <typename F>
static FIBITMAP* inLoader(F f)
{
	if (!blocks)
		blocks = new Blocks;
	inCodec = 1;
	FIBITMAP* r = f();
	inCodec = 0;
	Blocks b;
	std::swap(b, *blocks);
	for (auto& l : b.live)
		checkGuard(l.first, l.second);
	for (void* p : b.freed)
		__libc_free(p);
	return r;
}

extern "C" FIBITMAP* FreeImage_LoadFromHandle(FREE_IMAGE_FORMAT f, FreeImageIO* io, fi_handle h, int flags)
{
	static auto next = reinterpret_cast<decltype(&FreeImage_LoadFromHandle)>(dlsym(RTLD_NEXT,
		"FreeImage_LoadFromHandle"));
	if (inCodec)
		return next(f, io, h, flags);
	return inLoader([&] { return next(f, io, h, flags); });
}

extern "C" FIBITMAP* FreeImage_LoadFromMemory(FREE_IMAGE_FORMAT f, FIMEMORY* m, int flags)
{
	static auto next = reinterpret_cast<decltype(&FreeImage_LoadFromMemory)>(dlsym(RTLD_NEXT,
		"FreeImage_LoadFromMemory"));
	return inLoader([&] { return next(f, m, flags); });
}

extern "C" FIBITMAP* FreeImage_Load(FREE_IMAGE_FORMAT f, const char* name, int flags)
{
	static auto next = reinterpret_cast<decltype(&FreeImage_Load)>(dlsym(RTLD_NEXT, "FreeImage_Load"));
	return inLoader([&] { return next(f, name, flags); });
}

namespace
{

enum Source { File, Memory, StringStream, FileStream, Pipe1, Pipe7, PipeAll, Seek3, sourceCount };
const char* sourceNames[] = {"a file", "memory", "a string stream", "a file stream",
	"a pipe, byte by byte", "a pipe in 7-byte pieces", "a pipe", "a seekable stream in 3-byte pieces"};

void writeFile(const std::string& name, const std::string& bytes)
{
	int fd = open(name.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	std::size_t at = 0;
	while (at < bytes.size())
		at += std::size_t(write(fd, bytes.data() + at, bytes.size() - at));
	close(fd);
}

// Places the bytes directly before a page that cannot be touched.
const void* guarded(const std::string& bytes)
{
	static char* area = nullptr;
	const std::size_t size = 1 << 24, page = 4096;
	if (!area)
	{
		area = static_cast<char*>(mmap(nullptr, size + page, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		mprotect(area + size, page, PROT_NONE);
	}
	memcpy(area + size - bytes.size(), bytes.data(), bytes.size());
	return area + size - bytes.size();
}

bool load(Image& im, Source s, const std::string& bytes, ColorSpace cs, bool construct)
{
	bool r = true;
	switch (s)
	{
		case File:
		case FileStream:
		{
			std::string name = mc::scratch() + "/in";
			writeFile(name, bytes);
			if (s == File)
			{
				if (construct)
					im = Image(name.c_str(), cs);
				else
					r = im.load(name.c_str(), cs);
			}
			else
			{
				std::ifstream f(name, std::ios::binary);
				if (construct)
					im = Image(f, cs);
				else
					r = im.load(f, cs);
			}
			break;
		}
		case Memory:
			if (construct)
				im = Image(guarded(bytes), bytes.size(), cs);
			else
				r = im.load(guarded(bytes), bytes.size(), cs);
			break;
		case StringStream:
		{
			std::istringstream i(bytes, std::ios::binary);
			if (construct)
				im = Image(i, cs);
			else
				r = im.load(i, cs);
			break;
		}
		default:
		{
			sink::In in;
			in.data = bytes;
			in.seekable = s == Seek3;
			in.chunk = s == Pipe1 ? 1 : s == Pipe7 ? 7 : s == Seek3 ? 3 : 100000;
			std::istream i(&in);
			if (construct)
				im = Image(i, cs);
			else
				r = im.load(i, cs);
		}
	}
	return construct ? im.isValid() : r;
}

// Everything a user sees of an image.
struct Seen
{
	bool ok = false;
	unsigned w = 0, h = 0, bpp = 0;
	IF format = IF::Invalid;
	ColorSpace cs = ColorSpace::Linear;
	std::string pixels;
};

Seen look(mc::Ctx& ctx, const Image& im, bool result, const std::string& what)
{
	Seen s;
	s.ok = im.isValid();
	if (s.ok != result)
		ctx.fail("result", "%s returns %d, but the image is %s", what.c_str(), result,
			s.ok ? "valid" : "invalid");
	s.w = im.width();
	s.h = im.height();
	s.format = im.format();
	s.bpp = im.bitsPerPixel();
	s.cs = im.colorSpace();
	if (!s.ok)
	{
		ColorRGBAd c;
		if (s.w || s.h || s.bpp || s.format != IF::Invalid || im.scanline(0) || im.getPixel(c, 0, 0))
			ctx.fail("invalid-state", "%s: the invalid image has %ux%u pixels", what.c_str(), s.w, s.h);
		return s;
	}
	const Desc* d = find(s.format);
	if (!d || s.w == 0 || s.h == 0 || s.bpp != unsigned(d->bytes)*8)
		ctx.fail("valid-state", "%s: format %d with %u bits, %ux%u", what.c_str(), int(s.format), s.bpp, s.w,
			s.h);
	// Very large results of corrupted sizes are only sampled at their ends.
	std::size_t row = std::size_t(s.w)*unsigned(d->bytes);
	for (unsigned y = 0; y < s.h; ++y)
	{
		if (y >= 64 && y + 64 < s.h)
			continue;
		s.pixels.append(static_cast<const char*>(im.scanline(y)), std::min<std::size_t>(row, 1 << 16));
	}
	return s;
}

// Compares loading the same bytes from a source with loading them from memory. 'stable' is false where
// the codec itself hands out uninitialised pixels.
void agree(mc::Ctx& ctx, const Seen& ref, const Seen& s, bool stable, const std::string& key,
	const std::string& what)
{
	ctx.step();
	if (ref.ok != s.ok)
		ctx.fail(key + "-rejected", "%s %s, from memory %s", what.c_str(), s.ok ? "succeeds" : "fails",
			ref.ok ? "succeeds" : "fails");
	if (ref.w != s.w || ref.h != s.h || ref.format != s.format)
		ctx.fail(key + "-shape", "%s: %ux%u, from memory %ux%u", what.c_str(), s.w, s.h, ref.w, ref.h);
	if (stable && ref.pixels != s.pixels)
		ctx.fail(key + "-pixels", "%s: pixels differ from loading the same bytes from memory",
			what.c_str());
}

void checkPixels(mc::Ctx& ctx, const Entry& e, const Image& im, const std::string& what)
{
	if (im.width() != e.w || im.height() != e.h)
		ctx.fail("size-" + e.name, "%s: %ux%u, expected %ux%u", what.c_str(), im.width(), im.height(), e.w,
			e.h);
	for (std::size_t i = 0; i < e.px.size(); ++i)
	{
		ColorRGBAd c;
		im.getPixel(c, unsigned(i % e.w), unsigned(i/e.w));
		double v[4] = {c.r, c.g, c.b, c.a};
		for (int k = 0; k < 4; ++k)
		{
			if (!(std::fabs(v[k] - e.px[i].c[k]) <= e.tol))
				ctx.fail("pixels-" + e.name, "%s: pixel %zu channel %d is %.9g, the file holds %.9g",
					what.c_str(), i, k, v[k], e.px[i].c[k]);
		}
	}
}

const std::string& goodBytes()
{
	static const std::string b = corpus::png(2, 8, 3, 2, false).bytes;
	return b;
}

// Each intact file from each source, into an empty and into a used image, by loading and by construction.
void intact(mc::Ctx& ctx, std::size_t index)
{
	const Entry& e = entries()[index];
	Seen ref;
	for (int s = Memory, n = 0; n < sourceCount; s = (s + 1) % sourceCount, ++n)
	{
		for (int how = 0; how < 3; ++how)
		{
			ColorSpace cs = how % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
			Image im;
			if (how == 2)
				im.load(goodBytes().data(), goodBytes().size());
			std::string what = mc::fmt("loading %s from %s", e.name.c_str(), sourceNames[s]);
			bool r = load(im, Source(s), e.bytes, cs, how == 1);
			if (!r)
				ctx.fail("intact-rejected-" + e.name, "%s fails", what.c_str());
			Seen seen = look(ctx, im, r, what);
			if (seen.cs != cs)
				ctx.fail("color-space", "%s ignores the colour space", what.c_str());
			checkPixels(ctx, e, im, what);
			if (n == 0 && how == 0)
				ref = seen;
			agree(ctx, ref, seen, true, "intact", what);
			ctx.state(mc::mix(mc::mix(index, unsigned(s)), unsigned(how)));
		}
	}
	// With other bytes after it, an image in a format that is read forward is the same.
	if (e.ext == "png" || e.ext == "bmp" || e.ext == "tif")
	{
		for (int s : {int(Memory), int(StringStream), int(Pipe7), int(File)})
		{
			Image im;
			std::string what = mc::fmt("loading %s with trailing bytes from %s", e.name.c_str(), sourceNames[s]);
			bool r = load(im, Source(s), e.bytes + "trailing", ColorSpace::Linear, false);
			if (!r)
				ctx.fail("trailing-" + e.name, "%s fails", what.c_str());
			checkPixels(ctx, e, im, what);
		}
	}
	if (ctx.wantSample())
		ctx.sample(mc::fmt("%s, %zu bytes, from %d sources", e.name.c_str(), e.bytes.size(), sourceCount));
}

// Files of more than a few bytes, of every length around the sizes buffers commonly have.
struct LargeFile
{
	std::size_t length;
	int kind;
};
const std::vector<LargeFile>& largeFiles(bool thorough)
{
	static std::vector<LargeFile> quick, full;
	std::vector<LargeFile>& v = thorough ? full : quick;
	if (v.empty())
	{
		for (std::size_t base : {256u, 512u, 1024u, 2048u, 4096u, 8192u, 12288u, 16384u, 32768u, 65536u, 131072u})
		{
			int span = thorough ? 9 : 2;
			for (int d = -span; d <= span; ++d)
				v.push_back({base + std::size_t(std::ptrdiff_t(d)), 0});
			for (int k = 1; k < 6; ++k)
				v.push_back({base + base/3, k});
		}
	}
	return v;
}
Entry largeEntry(const LargeFile& f)
{
	switch (f.kind)
	{
		case 0:
		{
			// The header grows with the number of digits.
			for (unsigned digits = 1;; ++digits)
			{
				std::size_t w = f.length - (10 + digits);
				if (mc::fmt("%zu", w).size() == digits)
					return corpus::pnm(5, 8, unsigned(w), 1);
			}
		}
		case 1:
			return corpus::bmp(24, 17, unsigned(f.length/52) + 1, false, false, corpus::Palette::Colors);
		case 2:
			return corpus::tga(2, 32, 19, unsigned(f.length/76) + 1, true);
		case 3:
			return corpus::png(6, 8, 13, unsigned(std::min<std::size_t>(f.length, 60000)/52) + 1, false);
		case 4:
			return corpus::tiff(true, 2, 3, 16, 1, 11, unsigned(f.length/66) + 1);
		default:
			return corpus::hdr(7, unsigned(f.length/28) + 1);
	}
}
void checkLarge(mc::Ctx& ctx, std::size_t index)
{
	const LargeFile& f = largeFiles(ctx.thorough())[index];
	Entry e = largeEntry(f);
	if (f.kind == 0 && e.bytes.size() != f.length)
		ctx.fail("machinery", "length %zu, not %zu", e.bytes.size(), f.length);
	Seen ref;
	auto one = [&](Image& im, bool r, const std::string& what) {
		if (!r)
			ctx.fail("large-rejected", "%s fails", what.c_str());
		Seen s = look(ctx, im, r, what);
		if (!ref.ok)
		{
			checkPixels(ctx, e, im, what);
			ref = s;
		}
		agree(ctx, ref, s, true, "large", what);
	};
	for (int s = Memory, n = 0; n < sourceCount; s = (s + 1) % sourceCount, ++n)
	{
		Image im;
		std::string what = mc::fmt("loading %zu bytes of %s from %s", e.bytes.size(), e.name.c_str(),
			sourceNames[s]);
		bool r = load(im, Source(s), e.bytes, ColorSpace::Linear, false);
		one(im, r, what);
		ctx.state(mc::mix(index, unsigned(s)));
	}
	for (std::size_t chunk : {2u, 5u, 64u, 255u, 511u, 512u, 513u, 1000u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 8191u,
		8192u, 8193u, 65535u, 65536u})
	{
		for (int seekable = 0; seekable < 2; ++seekable)
		{
			sink::In in;
			in.data = e.bytes;
			in.seekable = seekable != 0;
			in.chunk = chunk;
			std::istream i(&in);
			Image im;
			bool r = im.load(i);
			one(im, r, mc::fmt("loading %zu bytes of %s in pieces of %zu bytes%s", e.bytes.size(), e.name.c_str(),
				chunk, seekable ? ", seekable" : ""));
		}
	}
}

// Files of megabytes.
void checkHuge(mc::Ctx& ctx, std::size_t index)
{
	Entry e = index == 0 ? corpus::pnm(5, 8, 1027, 1025) : index == 1 ? corpus::bmp(24, 1001, 1101, false, false,
		corpus::Palette::Colors) : index == 2 ? corpus::tga(2, 32, 701, 801, true) : index == 3 ?
		corpus::tiff(true, 2, 3, 16, 1, 611, 1201) : index == 4 ? corpus::pnm(6, 8, 1, 349600) :
		corpus::pnm(5, 8, 65539, 65);
	Seen ref;
	unsigned n = 0;
	for (std::size_t chunk : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(4096),
		std::size_t(4095), std::size_t(1) << 16, std::size_t(1) << 20, std::size_t(1) << 24})
	{
		for (int seekable = 0; seekable < (chunk < 4 ? 1 : 2); ++seekable)
		{
			Image im;
			bool r;
			std::string what;
			if (chunk < 4)
			{
				static const Source kinds[] = {Memory, File, FileStream, StringStream};
				what = mc::fmt("loading %zu bytes of %s from %s", e.bytes.size(), e.name.c_str(),
					sourceNames[kinds[chunk]]);
				r = load(im, kinds[chunk], e.bytes, ColorSpace::Linear, false);
			}
			else
			{
				what = mc::fmt("loading %zu bytes of %s in pieces of %zu bytes%s", e.bytes.size(), e.name.c_str(),
					chunk, seekable ? ", seekable" : "");
				sink::In in;
				in.data = e.bytes;
				in.seekable = seekable != 0;
				in.chunk = chunk;
				std::istream i(&in);
				r = im.load(i);
			}
			if (!r)
				ctx.fail("huge-rejected", "%s fails", what.c_str());
			Seen s = look(ctx, im, r, what);
			if (n++ == 0)
				ref = s;
			checkPixels(ctx, e, im, what);
			agree(ctx, ref, s, true, "huge", what);
			ctx.step();
			ctx.state(mc::mix(mc::mix(index, chunk), unsigned(seekable)));
		}
	}
}

// The 3x2 entries.
const std::vector<const Entry*>& small()
{
	static const std::vector<const Entry*> l = [] {
		std::vector<const Entry*> v;
		for (const Entry& e : entries())
		{
			if (e.w == 3)
				v.push_back(&e);
		}
		return v;
	}();
	return l;
}

// What the codec makes of the bytes when it is called directly: from memory, from a file handle, and
// from handles with either behaviour for seeking past the end, with different contents of fresh memory.
struct Handle
{
	const std::string* data;
	std::size_t at;
	bool strict;
};
unsigned DLL_CALLCONV readHandle(void* buffer, unsigned size, unsigned count, fi_handle h)
{
	Handle& d = *static_cast<Handle*>(h);
	std::size_t left = d.at < d.data->size() ? d.data->size() - d.at : 0;
	std::size_t n = std::min<std::size_t>(left, std::size_t(size)*count);
	if (n)
		memcpy(buffer, d.data->data() + d.at, n);
	d.at += n;
	return size ? unsigned(n/size) : 0;
}
unsigned DLL_CALLCONV writeHandle(void*, unsigned, unsigned, fi_handle) { return 0; }
int DLL_CALLCONV seekHandle(fi_handle h, long offset, int origin)
{
	Handle& d = *static_cast<Handle*>(h);
	long to = offset + (origin == SEEK_SET ? 0 : origin == SEEK_CUR ? long(d.at) : long(d.data->size()));
	if (to < 0 || (d.strict && to > long(d.data->size())))
		return -1;
	d.at = std::size_t(to);
	return 0;
}
long DLL_CALLCONV tellHandle(fi_handle h) { return long(static_cast<Handle*>(h)->at); }

struct Direct
{
	std::uint64_t hash; // of shape and pixels; 0: rejected
	std::uint64_t shape;
	std::uint64_t large;
};
const int directKinds = 8;

Direct direct(const std::string& bytes, int kind, std::size_t from = 0)
{
	freshByte = kind & 1 ? 0x5A : 0xC3;
	FreeImageIO io = {readHandle, writeHandle, seekHandle, tellHandle};
	Handle h = {&bytes, from, kind >> 1 == 2};
	FIMEMORY* m = nullptr;
	FREE_IMAGE_FORMAT f;
	FIBITMAP* b = nullptr;
	std::string name = mc::scratch() + "/direct";
	switch (kind >> 1)
	{
		case 0:
			m = FreeImage_OpenMemory((BYTE*)bytes.data(), DWORD(bytes.size()));
			f = FreeImage_GetFileTypeFromMemory(m);
			if (f != FIF_UNKNOWN)
				b = FreeImage_LoadFromMemory(f, m, 0);
			break;
		case 3:
			writeFile(name, bytes);
			f = FreeImage_GetFileType(name.c_str());
			if (f != FIF_UNKNOWN)
				b = FreeImage_Load(f, name.c_str(), 0);
			break;
		default:
			f = FreeImage_GetFileTypeFromHandle(&io, &h);
			if (f != FIF_UNKNOWN)
				b = FreeImage_LoadFromHandle(f, &io, &h, 0);
	}
	Direct d = {0, 0, 0};
	if (b)
	{
		unsigned w = FreeImage_GetWidth(b), hh = FreeImage_GetHeight(b), n = FreeImage_GetLine(b);
		d.shape = mc::mix(mc::mix(w, hh), FreeImage_GetImageType(b));
		d.hash = mc::mix(d.shape, FreeImage_GetBPP(b)) | 1;
		d.large = std::uint64_t(n)*hh;
		// Everything that may be looked at.
		if (d.large > (1 << 20))
		{
			FreeImage_Unload(b);
			b = nullptr;
			d.hash = 1;
		}
	}
	if (b)
	{
		unsigned hh = FreeImage_GetHeight(b), n = FreeImage_GetLine(b);
		FreeImage_IsTransparent(b);
		if (RGBQUAD* p = FreeImage_GetPalette(b))
			d.hash = mc::hashBytes(p, FreeImage_GetColorsUsed(b)*4, d.hash);
		FreeImage_GetTransparencyCount(b);
		for (unsigned y = 0; y < hh && FreeImage_HasPixels(b); ++y)
			d.hash = mc::hashBytes(FreeImage_GetScanLine(b, int(y)), n, d.hash);
		d.hash |= 1;
		FreeImage_Unload(b);
	}
	if (m)
		FreeImage_CloseMemory(m);
	freshByte = 0xC3;
	return d;
}

// An image that starts after other bytes of a stream. Not every codec can read one from a stream that
// seeks; those that cannot are left out.
void embedded(mc::Ctx& ctx, std::size_t index)
{
	static const std::size_t starts[] = {1, 16, 300, 5000};
	const Entry& e = entries()[index];
	Direct alone = direct(e.bytes, 2);
	for (std::size_t start : starts)
	{
		std::string bytes;
		for (std::size_t i = 0; i < start; ++i)
			bytes += char(i*7 + 1);
		bytes += e.bytes;
		bool seeks = alone.hash != 0;
		for (int kind = 2; kind < 6 && seeks; ++kind)
			seeks = direct(bytes, kind, start).hash == alone.hash;
		ctx.count(seeks ? "images within a stream that seeks" : "images within a stream that cannot be sought");
		for (int kind = seeks ? 0 : 2; kind < 4; ++kind)
		{
			static const char* names[] = {"a string stream", "a seekable stream in 3-byte pieces",
				"a pipe in 7-byte pieces", "a pipe"};
			std::string what = mc::fmt("loading %s after %zu bytes of %s", e.name.c_str(), start, names[kind]);
			Image im;
			bool r;
			if (kind == 0)
			{
				std::istringstream i(bytes, std::ios::binary);
				i.seekg(std::streamoff(start));
				r = im.load(i, ColorSpace::Linear);
			}
			else
			{
				sink::In in;
				in.data = bytes;
				in.seekable = kind == 1;
				in.chunk = kind == 1 ? 3 : kind == 2 ? 7 : 100000;
				std::istream i(&in);
				i.ignore(std::streamsize(start));
				r = im.load(i, ColorSpace::Linear);
			}
			if (!r)
				ctx.fail("embedded-rejected-" + e.name, "%s fails", what.c_str());
			look(ctx, im, r, what);
			checkPixels(ctx, e, im, what);
			ctx.step();
			ctx.state(mc::mix(mc::mix(index, start), unsigned(kind)));
		}
	}
}

// The verdict on one damaged file: whether the codec survives it, and what it may give.
struct Verdict
{
	enum State { Pending, Codec, Large, Good } state;
	Direct d[directKinds];
	bool canSucceed() const { for (const Direct& i : d) if (i.hash) return true; return false; }
	bool canFail() const { for (const Direct& i : d) if (!i.hash) return true; return false; }
	bool samePixels() const { for (const Direct& i : d) if (i.hash != d[0].hash) return false; return true; }
};

// Runs the codec directly on each of the files in processes of their own.
std::vector<Verdict> screen(const std::vector<std::string>& files)
{
	std::size_t size = (files.size() + 1)*sizeof(Verdict);
	Verdict* shared = static_cast<Verdict*>(mmap(nullptr, size, PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::size_t at = 0;
	while (at < files.size())
	{
		pid_t p = fork();
		if (p == 0)
		{
			signal(SIGALRM, SIG_DFL);
			for (std::size_t i = at; i < files.size(); ++i)
			{
				alarm(2);
				shared[i].state = Verdict::Codec;
				overrun = false;
				for (int k = 0; k < directKinds; ++k)
				{
					shared[i].d[k] = direct(files[i], k);
					if (shared[i].d[k].large > (1 << 20))
					{
						shared[i].state = Verdict::Large;
						break;
					}
				}
				if (shared[i].state == Verdict::Large)
					continue;
				if (overrun)
					_exit(1);
				shared[i].state = Verdict::Good;
			}
			_exit(0);
		}
		int st;
		waitpid(p, &st, 0);
		while (at < files.size() && shared[at].state >= Verdict::Large)
			++at;
		if (at < files.size())
			++at;
	}
	std::vector<Verdict> r(shared, shared + files.size());
	munmap(shared, size);
	return r;
}

// Loads damaged bytes from each source, and compares with what the codec makes of them.
void sources(mc::Ctx& ctx, const std::string& bytes, const Verdict& v, const std::string& key,
	const std::string& what, const std::vector<int>& list)
{
	if (v.state == Verdict::Pending || v.state == Verdict::Codec)
	{
		ctx.count("files the codec library itself does not survive");
		return;
	}
	if (v.state == Verdict::Large)
	{
		ctx.count("images grown to over a megabyte by damage, left out");
		return;
	}
	bool large = false, same = v.samePixels();
	for (const Direct& d : v.d)
		large = large || d.large > 100000;
	if (large)
		ctx.count("images grown large by damage, from two sources only");
	ctx.count(v.canSucceed() ? v.canFail() ? "accepted or rejected depending on the source" : "accepted" :
		"rejected");
	Seen ref;
	bool haveRef = false;
	int n = 0;
	for (int s : list)
	{
		if (large && n++ >= 2)
			break;
		Image im;
		im.load(goodBytes().data(), goodBytes().size());
		bool r = load(im, Source(s), bytes, ColorSpace::Linear, false);
		std::string w = what + mc::fmt(" from %s", sourceNames[s]);
		Seen seen = look(ctx, im, r, w);
		ctx.step();
		// Cuttlefish may refuse pixel formats the codec gives, from every source alike.
		if (r && !v.canSucceed())
			ctx.fail(key + "-accepted", "%s succeeds, but the codec rejects these bytes", w.c_str());
		if (!v.canFail())
		{
			if (!haveRef)
			{
				ref = seen;
				haveRef = true;
			}
			agree(ctx, ref, seen, same, key, w);
		}
		if (!r && (!im.load(goodBytes().data(), goodBytes().size()) || im.width() != 3))
			ctx.fail("reuse", "%s: the image cannot be reused", w.c_str());
	}
}

// Every truncation.
void truncated(mc::Ctx& ctx, std::size_t index)
{
	const Entry& e = *small()[index];
	std::vector<std::string> files;
	for (std::size_t k = 0; k < e.bytes.size(); ++k)
		files.push_back(e.bytes.substr(0, k));
	std::vector<Verdict> v = screen(files);
	for (std::size_t k = 0; k < files.size(); ++k)
	{
		ctx.note("truncation to %zu", k);
		sources(ctx, files[k], v[k], "truncated-" + e.ext,
			mc::fmt("loading the first %zu of %zu bytes of %s", k, e.bytes.size(), e.name.c_str()),
			{Memory, StringStream, File, FileStream, Pipe1, PipeAll, Seek3});
		ctx.state(mc::mix(index, k));
	}
}

// Every corruption of a single byte by a set of values.
void corrupted(mc::Ctx& ctx, std::size_t index)
{
	const Entry& e = *small()[index];
	unsigned block = ctx.choose(unsigned(e.bytes.size()/64 + 1));
	std::vector<std::string> files, names;
	for (std::size_t k = block*64; k < e.bytes.size() && k < (block + 1)*64; ++k)
	{
		unsigned char old = static_cast<unsigned char>(e.bytes[k]);
		std::vector<unsigned> values{0, 255, old ^ 1u, old + 1u, old ^ 0x80u};
		if (ctx.thorough())
		{
			values.clear();
			for (unsigned v = 0; v < 256; ++v)
				values.push_back(v);
		}
		for (unsigned v : values)
		{
			v &= 255;
			if (v == old)
				continue;
			std::string b = e.bytes;
			b[k] = char(v);
			files.push_back(b);
			names.push_back(mc::fmt("loading %s with byte %zu changed from %u to %u", e.name.c_str(), k, old, v));
			ctx.state(mc::mix(mc::mix(index, k), v + 1000));
		}
	}
	std::vector<Verdict> v = screen(files);
	for (std::size_t i = 0; i < files.size(); ++i)
	{
		ctx.note("%s", names[i].c_str());
		sources(ctx, files[i], v[i], "corrupted-" + e.ext, names[i], {Memory, StringStream, File, Pipe7, Seek3});
	}
}

// Every way of splitting the file into up to three pieces.
void splits(mc::Ctx& ctx, std::size_t index)
{
	const Entry& e = *small()[index];
	std::size_t n = e.bytes.size();
	if (n > (ctx.thorough() ? 2000u : 260u))
	{
		ctx.count("files not split");
		return;
	}
	Image ref;
	load(ref, Memory, e.bytes, ColorSpace::Linear, false);
	Seen want = look(ctx, ref, ref.isValid(), "memory");
	struct Cuts { std::size_t a, b, n; } cuts;
	for (cuts.a = 1; cuts.a <= n; ++cuts.a)
	{
		for (cuts.b = cuts.a; cuts.b <= n; ++cuts.b)
		{
			cuts.n = n;
			for (int seekable = 0; seekable < 2; ++seekable)
			{
				if (seekable && cuts.b % 5 != 0 && !ctx.thorough())
					continue;
				sink::In in;
				in.data = e.bytes;
				in.seekable = seekable != 0;
				in.user = &cuts;
				in.choose = [](void* u, std::size_t left) {
					Cuts& c = *static_cast<Cuts*>(u);
					std::size_t at = c.n - left;
					return (at < c.a ? c.a : at < c.b ? c.b : c.n) - at;
				};
				std::istream i(&in);
				Image im;
				bool r = im.load(i);
				std::string what = mc::fmt("loading %s in pieces ending at %zu and %zu%s", e.name.c_str(), cuts.a,
					cuts.b, seekable ? ", seekable" : "");
				Seen s = look(ctx, im, r, what);
				agree(ctx, want, s, true, "split-" + e.ext, what);
			}
		}
		ctx.state(mc::mix(index, cuts.a));
	}
}

// Things that are not images.
void nothing(mc::Ctx& ctx, std::size_t)
{
	std::vector<std::string> files;
	for (std::size_t n = 0; n < 300; n = n < 40 ? n + 1 : n + 37)
	{
		for (int fill : {0, 255, int('P'), int(' ')})
			files.push_back(std::string(n, char(fill)));
	}
	std::vector<Verdict> v = screen(files);
	for (std::size_t i = 0; i < files.size(); ++i)
		sources(ctx, files[i], v[i], "nothing",
			mc::fmt("loading %zu bytes of %d", files[i].size(), files[i].empty() ? 0 : files[i][0]),
			{Memory, File, StringStream, FileStream, Pipe1, PipeAll, Seek3});
	Image im;
	im.load(goodBytes().data(), goodBytes().size());
	std::string dir = mc::scratch();
	if (im.load((dir + "/missing.png").c_str()) || im.isValid())
		ctx.fail("missing", "loading a missing file leaves a valid image");
	im.load(goodBytes().data(), goodBytes().size());
	if (im.load(dir.c_str()) || im.isValid())
		ctx.fail("directory", "loading a directory leaves a valid image");
	im.load(goodBytes().data(), goodBytes().size());
	if (im.load("") || im.isValid())
		ctx.fail("empty-name", "loading an empty name leaves a valid image");
	im.load(goodBytes().data(), goodBytes().size());
	if (im.load(nullptr, std::size_t(0)) || im.isValid())
		ctx.fail("null-data", "loading no data leaves a valid image");
	for (auto bit : {std::ios::badbit, std::ios::failbit, std::ios::eofbit})
	{
		im.load(goodBytes().data(), goodBytes().size());
		std::istringstream empty;
		empty.setstate(bit);
		if (im.load(empty) || im.isValid())
			ctx.fail("bad-stream", "loading an empty stream in state %d leaves a valid image", int(bit));
	}
	// The name's extension does not matter, the contents do.
	for (const Entry* e : small())
	{
		std::string name = dir + "/x.jpg";
		writeFile(name, e->bytes);
		Image i;
		if (!i.load(name.c_str()) || i.width() != e->w)
			ctx.fail("extension", "%s named x.jpg cannot be loaded", e->name.c_str());
		ctx.step();
	}
	ctx.state(1);
}

void setup()
{
	int fd = open("/dev/null", O_WRONLY);
	dup2(fd, 2);
	close(fd);
	struct rlimit r = {3ULL << 30, 3ULL << 30};
	setrlimit(RLIMIT_AS, &r);
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C13";
	spec.rule = "files of 7 types (PNG, BMP, TGA, PNM, PFM, HDR, GIF, TIFF) in every bit depth and palette kind, "
		"written byte by byte with known pixels: each from 8 kinds of sources and after other bytes of 4 kinds of streams; every truncation and every "
		"single-byte corruption by 5 (thorough: all 255) values; every splitting of reads into up to three pieces; files of "
		"every length around the multiples of buffer sizes up to 128 KB, in pieces of 19 sizes, and of megabytes";
	spec.assumptions = {"damaged files that the codec library itself does not survive (found by calling it directly "
		"in a process of its own) are left out, and pixels it leaves uninitialised are not compared", "bytes that no type's signature matches are not images"};
	spec.workerInit = setup;
	spec.execTimeout = 300;
	spec.families = {
		{"intact", [](bool) { return entries().size(); }, intact},
		{"large", [](bool t) { return largeFiles(t).size(); }, checkLarge},
		{"huge", [](bool) { return std::size_t(6); }, checkHuge},
		{"embedded", [](bool) { return entries().size(); }, embedded},
		{"nothing", [](bool) { return std::size_t(1); }, nothing},
		{"truncated", [](bool) { return small().size(); }, truncated},
		{"splits", [](bool) { return small().size(); }, splits},
		{"corrupted", [](bool) { return small().size(); }, corrupted},
	};
	return mc::run(argc, argv, spec);
}
