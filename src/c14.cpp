// C14: saving an image round-trips and reports write failures.
#include "img.h"
#include "sink.h"
#include "faultio.h"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sstream>
using namespace img;

namespace
{
enum Rt { Lossless, Lossy };
struct Type { const char* ext; Rt rt; std::vector<IF> formats; };
// What each file type holds, by its specification and FreeImage's documentation. Formats in the
// list are saved; RGB5 and RGB565 may be widened to 8 bits per channel. Everything else is refused.
const std::vector<Type>& types()
{
	static const std::vector<Type> l = {
		{"png", Lossless, {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16, IF::RGBA8, IF::RGBA16, IF::RGB5,
			IF::RGB565, IF::UInt16}},
		{"bmp", Lossless, {IF::Gray8, IF::RGB5, IF::RGB565, IF::RGB8, IF::RGBA8}},
		{"tga", Lossless, {IF::Gray8, IF::RGB5, IF::RGB8, IF::RGBA8}},
		{"tif", Lossless, {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16, IF::RGBF, IF::RGBA8, IF::RGBA16,
			IF::RGBAF, IF::Int16, IF::UInt16, IF::Int32, IF::UInt32, IF::Float, IF::Double, IF::Complex,
			IF::RGB5, IF::RGB565}},
		{"ppm", Lossless, {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16, IF::UInt16}},
		{"pgm", Lossless, {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16, IF::UInt16}},
		{"pfm", Lossless, {IF::RGBF, IF::Float}},
		{"gif", Lossless, {IF::Gray8}},
		{"hdr", Lossy, {IF::RGBF}},
		{"exr", Lossy, {IF::RGBF, IF::RGBAF, IF::Float}},
		{"jpg", Lossy, {IF::Gray8, IF::RGB8}},
	};
	return l;
}
// Pixel formats a file type neither holds nor would be misread as something else: not prescribed.
bool unspecified(const Type& t, IF f)
{
	std::string e = t.ext;
	if (e == "jpg")
		return f == IF::RGBA8 || f == IF::RGB5 || f == IF::RGB565;
	if (e == "tga")
		return f == IF::RGB565; // stored with 15 bits
	if (e == "ppm" || e == "pgm")
		return f == IF::RGB5 || f == IF::RGB565;
	if (e == "gif" || e == "hdr" || e == "pfm" || e == "exr")
		return false;
	return false;
}
bool holds(const Type& t, IF f) { return std::count(t.formats.begin(), t.formats.end(), f) > 0; }

struct Size { unsigned w, h; };
// The largest size a file type's header can hold.
bool fits(const Type& t, Size s)
{
	std::string e = t.ext;
	unsigned max = e == "tga" || e == "gif" || e == "jpg" ? 65535 : ~0u;
	return s.w <= max && s.h <= max;
}
const Size sizes[] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {5, 4}, {8, 8}, {17, 3}, {64, 33}};
const unsigned quickSizes = 8;

// Deterministic pixels with every byte used; finite and in range for floating point formats.
Image picture(const Desc& d, unsigned w, unsigned h, unsigned salt)
{
	Image im(d.format, w, h);
	for (unsigned y = 0; y < h; ++y)
	{
		unsigned char* p = static_cast<unsigned char*>(im.scanline(y));
		for (unsigned x = 0; x < w; ++x)
		{
			for (const Ch& c : d.chans)
			{
				std::uint64_t v = mc::mix(mc::mix(salt, x + y*1000), std::uint64_t(c.ch + 1));
				if (d.kind == Flt)
				{
					double f = double(v % 4096)/4096.0;
					float g = float(f);
					if (c.bits == 32)
					{
						std::uint32_t u;
						memcpy(&u, &g, 4);
						v = u;
					}
					else
						memcpy(&v, &f, 8);
				}
				else
					v &= c.bits == 64 ? ~0ULL : (1ULL << c.bits) - 1;
				putRaw(d, p + x*unsigned(d.bytes), c, v);
			}
		}
	}
	return im;
}

std::string readFile(const std::string& name)
{
	std::string out;
	int fd = open(name.c_str(), O_RDONLY);
	if (fd < 0)
		return out;
	char buf[65536];
	ssize_t n;
	while ((n = read(fd, buf, sizeof(buf))) > 0)
		out.append(buf, std::size_t(n));
	close(fd);
	return out;
}

// The same pixels, exactly: in the same format, or in one that shows the same channel values.
bool samePixels(const Desc& d, const Image& a, const Image& b, std::string& why, bool widened)
{
	if (!b.isValid() || a.width() != b.width() || a.height() != b.height())
	{
		why = mc::fmt("loading gives %s %ux%u", b.isValid() ? "an image" : "nothing", b.width(), b.height());
		return false;
	}
	const Desc* e = find(b.format());
	bool bytesSame = b.format() == a.format() || (d.format == IF::UInt16 && b.format() == IF::Gray16);
	if (!e || (!bytesSame && (!widened || (d.format != IF::RGB5 && d.format != IF::RGB565))))
	{
		why = mc::fmt("loading gives pixel format %s", e ? e->name : "?");
		return false;
	}
	for (unsigned y = 0; y < a.height(); ++y)
	{
		for (unsigned x = 0; x < a.width(); ++x)
		{
			const unsigned char* p = static_cast<const unsigned char*>(a.scanline(y)) + x*unsigned(d.bytes);
			const unsigned char* q = static_cast<const unsigned char*>(b.scanline(y)) + x*unsigned(e->bytes);
			for (std::size_t c = 0; c < d.chans.size(); ++c)
			{
				std::uint64_t v = raw(d, p, d.chans[c]), w = raw(*e, q, e->chans[c]);
				bool same = bytesSame || b.format() == a.format() ? v == w :
					std::fabs(decode(d, d.chans[c], v) - decode(*e, e->chans[c], w)) <= 1.01/255;
				if (!same)
				{
					why = mc::fmt("pixel %u,%u channel %d was %llx and is %llx", x, y, d.chans[c].ch,
						(unsigned long long)v, (unsigned long long)w);
					return false;
				}
			}
		}
	}
	return true;
}

// Further file types: which pixel formats they take is not prescribed, but what is reported as saved
// has to be there.
const char* otherTypes[] = {"ico", "psd", "psb", "jng", "xpm", "j2k", "jp2", "webp", "jxr", "pbm", "targa",
	"tiff", "jpeg"};
const unsigned otherCount = sizeof(otherTypes)/sizeof(*otherTypes);

void otherRoundTrip(mc::Ctx& ctx, std::size_t index)
{
	static const Size some[] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {5, 4}, {8, 8}, {17, 3}, {64, 33}, {16, 16}, {257, 259},
		{4099, 3}, {3, 4099}, {65539, 1}, {1, 65539}, {1031, 1033}};
	const char* ext = otherTypes[index/formats().size()];
	const Desc& d = formats()[index % formats().size()];
	Size s = some[ctx.choose(sizeof(some)/sizeof(*some))];
	Image im = picture(d, s.w, s.h, unsigned(index));
	std::vector<unsigned char> before = bytes(d, im);
	std::string what = mc::fmt("%s %ux%u as %s", d.name, s.w, s.h, ext), key = mc::fmt("%s-%s", d.name, ext);
	std::string name = mc::scratch() + "/o." + ext;
	unlink(name.c_str());
	bool rf = im.save(name.c_str());
	std::string file = readFile(name);
	unlink(name.c_str());
	std::vector<std::uint8_t> v(20000, 3); // previous contents are replaced
	bool rv = im.save(v, ext);
	std::ostringstream os(std::ios::binary);
	bool rs = im.save(os, ext);
	ctx.step(3);
	ctx.state(mc::hashStr(what));
	ctx.note("%s: %d", what.c_str(), rf);
	if (rf != rv || rf != rs)
		ctx.fail("destinations-" + key, "%s: file %d, vector %d, stream %d", what.c_str(), rf, rv, rs);
	if (bytes(d, im) != before)
		ctx.fail("source-" + key, "saving %s changes the image", what.c_str());
	if (!rf)
	{
		ctx.count("refused combinations");
		return;
	}
	ctx.count("saved combinations");
	if (file != os.str() || file != std::string(v.begin(), v.end()))
		ctx.fail("bytes-" + key, "%s: file, vector and stream differ", what.c_str());
	Image back(v.data(), v.size());
	if (back.isValid() && (back.width() != s.w || back.height() != s.h))
		ctx.fail("reload-" + key, "%s: saved, and loading gives %s %ux%u", what.c_str(),
			back.isValid() ? "an image" : "nothing", back.width(), back.height());
}

struct Case { const Type* t; const Desc* d; unsigned size; };
Case decodeCase(std::size_t index)
{
	Case c;
	c.size = unsigned(index % quickSizes);
	index /= quickSizes;
	c.d = &formats()[index % formats().size()];
	c.t = &types()[index/formats().size()];
	return c;
}
std::size_t caseCount() { return types().size()*formats().size()*quickSizes; }

void roundTripOf(mc::Ctx& ctx, std::size_t index, const Case& c, Size s)
{
	Image im = picture(*c.d, s.w, s.h, unsigned(index));
	Image before = im;
	std::string what = mc::fmt("%s %ux%u as %s", c.d->name, s.w, s.h, c.t->ext);
	std::string key = mc::fmt("%s-%s", c.d->name, c.t->ext);
	std::string name = mc::scratch() + "/t." + c.t->ext;
	unlink(name.c_str());
	bool want = holds(*c.t, c.d->format) && fits(*c.t, s);
	// The JPEG codec stops at 65500.
	bool any = unspecified(*c.t, c.d->format) || (!strcmp(c.t->ext, "jpg") && std::max(s.w, s.h) > 65500);
	bool rf = im.save(name.c_str());
	std::string file = readFile(name);
	std::vector<std::uint8_t> v(20000, 3); // previous contents are replaced
	bool rv = im.save(v, c.t->ext);
	std::string vec(v.begin(), v.end());
	std::ostringstream os(std::ios::binary);
	bool rs = im.save(os, c.t->ext);
	sink::Out out;
	std::ostream custom(&out);
	bool rc = im.save(custom, (std::string("name.") + c.t->ext).c_str());
	ctx.step(4);
	ctx.state(mc::mix(index, 1));
	ctx.note("%s: file %d (%zu bytes), vector %d, stream %d, custom stream %d", what.c_str(), rf, file.size(),
		rv, rs, rc);
	unlink(name.c_str());
	if (rf != rv || rf != rs || rf != rc)
		ctx.fail("destinations-" + key, "%s: file %d, vector %d, string stream %d, other stream %d",
			what.c_str(), rf, rv, rs, rc);
	if (!any && rf != want)
		ctx.fail((want ? "refused-" : "accepted-") + key, "saving %s %s", what.c_str(),
			rf ? "succeeds although the file type cannot hold it" : "fails");
	// Nothing about the source may change.
	for (unsigned y = 0; y < s.h; ++y)
	{
		if (memcmp(im.scanline(y), before.scanline(y), s.w*std::size_t(c.d->bytes)) != 0)
			ctx.fail("source-" + key, "saving %s changes the image", what.c_str());
	}
	if (!rf)
	{
		ctx.count("refused combinations");
		return;
	}
	ctx.count("saved combinations");
	if (file != vec || file != os.str() || file != out.got)
		ctx.fail("bytes-" + key, "%s: %zu bytes in the file, %zu in the vector, %zu and %zu in streams%s",
			what.c_str(), file.size(), vec.size(), os.str().size(), out.got.size(),
			file.size() == vec.size() ? " (different contents)" : "");
	if (!want || (any && holds(*c.t, c.d->format)))
		return;
	Image back(vec.data(), vec.size());
	std::string why;
	if (c.t->rt == Lossless)
	{
		// Nothing is lost to file types that have the same 16-bit pixels.
		bool has16Bits = !strcmp(c.t->ext, "bmp") || (!strcmp(c.t->ext, "tga") && c.d->format == IF::RGB5);
		if (!samePixels(*c.d, im, back, why, !has16Bits))
			ctx.fail("pixels-" + key, "%s: %s", what.c_str(), why.c_str());
	}
	else if (!back.isValid() || back.width() != s.w || back.height() != s.h)
		ctx.fail("reload-" + key, "%s: cannot be loaded again", what.c_str());
	if (ctx.wantSample())
		ctx.sample(what + mc::fmt(": %zu bytes", file.size()));
}

void roundTrip(mc::Ctx& ctx, std::size_t index)
{
	Case c = decodeCase(index);
	roundTripOf(ctx, index, c, sizes[c.size]);
}

// Sizes beyond one byte, two bytes and the buffers of the file types.
const Size largeSizes[] = {{257, 259}, {4099, 3}, {3, 4099}, {1025, 66}, {65535, 1}, {65539, 1}, {1, 65539}, {1031, 1033}};
const unsigned largeSizeCount = sizeof(largeSizes)/sizeof(*largeSizes);

void largeRoundTrip(mc::Ctx& ctx, std::size_t index)
{
	Case c = decodeCase(index*quickSizes);
	unsigned k = ctx.choose(largeSizeCount);
	// Compressing a million pixels takes long.
	std::string ext = c.t->ext;
	if (k == largeSizeCount - 1 && ext != "tif" && ext != "bmp" && ext != "tga" && ext != "ppm" && ext != "pfm")
		return;
	roundTripOf(ctx, 100000 + index*largeSizeCount + k, c, largeSizes[k]);
}

// Files of each type for fault injection: one small and one larger than every buffer.
struct Subject { const Type* t; const Desc* d; Size s; };
const std::vector<Subject>& subjects(bool thorough)
{
	static std::vector<Subject> list, more;
	if (list.empty())
	{
		for (const Type& t : types())
		{
			for (std::size_t i = 0; i < t.formats.size(); ++i)
			{
				std::string e = t.ext;
				const Desc* d = find(t.formats[i]);
				if (i < 2 || e == "tif" || e == "png")
					list.push_back({&t, d, {3, 2}});
				more.push_back({&t, d, {3, 2}});
				more.push_back({&t, d, {17, 9}});
			}
			list.push_back({&t, find(t.formats.front()), {60, 70}});
		}
		more.insert(more.end(), list.begin(), list.end());
	}
	return thorough ? more : list;
}

// Where two byte strings differ.
std::string differences(const std::string& a, const std::string& b)
{
	std::string s = "differs at";
	unsigned n = 0;
	for (std::size_t i = 0; i < std::min(a.size(), b.size()) && n < 6; ++i)
	{
		if (a[i] != b[i])
		{
			s += mc::fmt(" %zu(%02x, not %02x)", i, (unsigned char)a[i], (unsigned char)b[i]);
			++n;
		}
	}
	return s;
}

void judge(mc::Ctx& ctx, const std::string& key, const std::string& what, bool r, const std::string& got,
	const std::string& ref, bool refused)
{
	ctx.step();
	if (r && got != ref)
		ctx.fail("lost-" + key, "%s reports success, but %zu of %zu bytes arrived%s", what.c_str(), got.size(),
			ref.size(), got.size() == ref.size() ? (", " + differences(got, ref)).c_str() : "");
	if (!r && !refused)
		ctx.fail("failed-" + key, "%s fails although nothing was refused", what.c_str());
}

// Every position; of large files in the quick run those near both ends and 4096-byte blocks, and
// every 199th.
std::size_t nextPosition(const mc::Ctx& ctx, std::size_t k, std::size_t size)
{
	++k;
	if (ctx.thorough() || size < 600)
		return k;
	while (k > 64 && k + 64 < size && k % 4096 > 1 && k % 4096 < 4095 && k % 199 != 0)
		++k;
	return k;
}

void stream(mc::Ctx& ctx, std::size_t index)
{
	const Subject& s = subjects(ctx.thorough())[index];
	Image im = picture(*s.d, s.s.w, s.s.h, unsigned(index));
	std::vector<std::uint8_t> v;
	im.save(v, s.t->ext);
	std::string ref(v.begin(), v.end());
	std::string key = s.t->ext;
	std::string what = mc::fmt("saving %s %ux%u as %s to a stream", s.d->name, s.s.w, s.s.h, s.t->ext);
	// Probe for the number of write and seek calls.
	sink::Out probe;
	{
		std::ostream os(&probe);
		judge(ctx, key, what, im.save(os, s.t->ext), probe.got, ref, false);
	}
	// Blocks of positions, so that one execution stays short.
	std::size_t blocks = ref.size()/1024 + 1, block = ctx.choose(unsigned(blocks));
	for (std::size_t k = block*1024; k <= ref.size() && k < (block + 1)*1024;
		k = nextPosition(ctx, k, ref.size()))
	{
		for (int mode = 0; mode < 3; ++mode)
		{
			sink::Out out;
			out.limit = k;
			out.wholeWrites = mode == 1 || mode == 2;
			out.once = mode == 2;
			std::ostream os(&out);
			bool r = im.save(os, s.t->ext);
			judge(ctx, key, what + mc::fmt(" that refuses byte %zu%s", k,
				mode == 0 ? "" : mode == 1 ? ", whole writes" : " once"), r, out.got, ref, out.refused);
			ctx.state(mc::mix(mc::mix(index, k), unsigned(mode)));
			if (ctx.wantSample() && k == 20)
				ctx.sample(what + mc::fmt(" that refuses byte 20: %d", r));
		}
	}
	if (block != 0)
		return;
	for (std::size_t k = 0; k < probe.writes; k = nextPosition(ctx, k, probe.writes))
	{
		sink::Out out;
		out.failWrite = long(k);
		std::ostream os(&out);
		bool r = im.save(os, s.t->ext);
		judge(ctx, key, what + mc::fmt(" that refuses write %zu", k), r, out.got, ref, out.refused);
		ctx.state(mc::mix(mc::mix(index, k), 3));
	}
	for (unsigned k = 0; k < probe.seeks; ++k)
	{
		sink::Out out;
		out.failSeek = long(k);
		std::ostream os(&out);
		bool r = im.save(os, s.t->ext);
		judge(ctx, key, what + mc::fmt(" that refuses seek %u", k), r, out.got, ref, out.refused);
		ctx.state(mc::mix(mc::mix(index, k), 4));
	}
	for (auto bit : {std::ios::badbit, std::ios::failbit})
	{
		std::ostringstream os(std::ios::binary);
		os.setstate(bit);
		bool r = im.save(os, s.t->ext);
		judge(ctx, key, what + " in a failed state", r, os.str(), ref, true);
	}
	{
		sink::Out out;
		out.seekable = false;
		std::ostream os(&out);
		bool r = im.save(os, s.t->ext);
		judge(ctx, key, what + " that cannot seek", r, out.got, ref, probe.seeks > 0);
	}
	std::vector<std::uint8_t> again;
	if (!im.save(again, s.t->ext) || again != v)
		ctx.fail("again-" + key, "%s after failures differs", what.c_str());
}

void limits(mc::Ctx& ctx, std::size_t index)
{
	signal(SIGXFSZ, SIG_IGN);
	const Subject& s = subjects(ctx.thorough())[index];
	Image im = picture(*s.d, s.s.w, s.s.h, unsigned(index));
	std::vector<std::uint8_t> v;
	im.save(v, s.t->ext);
	std::string ref(v.begin(), v.end());
	std::string key = std::string("file-") + s.t->ext;
	std::string what = mc::fmt("saving %s %ux%u as %s to a file", s.d->name, s.s.w, s.s.h, s.t->ext);
	std::string name = mc::scratch() + "/limited." + s.t->ext;
	struct rlimit old;
	getrlimit(RLIMIT_FSIZE, &old);
	for (std::size_t k = 0; k <= ref.size() + 1; k = nextPosition(ctx, k, ref.size()))
	{
		unlink(name.c_str());
		struct rlimit lim = {k, old.rlim_max};
		setrlimit(RLIMIT_FSIZE, &lim);
		bool r = im.save(name.c_str());
		setrlimit(RLIMIT_FSIZE, &old);
		judge(ctx, key, what + mc::fmt(" limited to %zu bytes", k), r, readFile(name), ref, k < ref.size());
		ctx.state(mc::mix(index, k));
	}
	unlink(name.c_str());
}

// Every sequence of answers of the write and close calls of a file save.
void calls(mc::Ctx& ctx, std::size_t index)
{
	const Subject& s = subjects(ctx.thorough())[index];
	Image im = picture(*s.d, s.s.w, s.s.h, unsigned(index));
	std::vector<std::uint8_t> v;
	im.save(v, s.t->ext);
	std::string ref(v.begin(), v.end());
	std::string name = mc::scratch() + "/t." + s.t->ext, history;
	unlink(name.c_str());
	bool faulted = false, r;
	unsigned events = 0, limit = ctx.thorough() ? 4 : 2;
	{
		faultio::Arm arm(name);
		faultio::state().onWrite = [&](std::size_t size) -> long {
			if (events >= limit)
				return long(size);
			unsigned c = ctx.choose(6);
			events += c != 0;
			switch (c)
			{
				case 1: faulted = true; history += " ENOSPC"; return -ENOSPC;
				case 2: faulted = true; history += " EIO"; return -EIO;
				case 3: history += " EINTR"; return -EINTR;
				case 4: history += " short1"; return long(std::min<std::size_t>(size, 1));
				case 5: history += " half"; return long(size > 1 ? size/2 : size);
			}
			history += mc::fmt(" w%zu", size);
			return long(size);
		};
		faultio::state().onClose = [&]() -> int {
			unsigned c = ctx.choose(2);
			history += c ? " close-EIO" : " close";
			faulted = faulted || c;
			return c ? EIO : 0;
		};
		r = im.save(name.c_str());
		ctx.count("intercepted write calls", faultio::state().writes);
		ctx.count("intercepted close calls", faultio::state().closes);
	}
	std::string what = mc::fmt("saving %s %ux%u as %s to a file with calls%s", s.d->name, s.s.w, s.s.h,
		s.t->ext, history.c_str());
	ctx.note("%s: %d", what.c_str(), r);
	judge(ctx, std::string("calls-") + s.t->ext, what, r, readFile(name), ref, faulted);
	ctx.state(mc::hashStr(history, index));
	unlink(name.c_str());
}

void places(mc::Ctx& ctx, std::size_t index)
{
	const Type& t = types()[index];
	std::string dir = mc::scratch();
	const Desc& d = *find(t.formats.front());
	Image im = picture(d, 60, 70, 3);
	std::vector<std::uint8_t> ref;
	im.save(ref, t.ext);
	std::string link = dir + "/full." + t.ext;
	unlink(link.c_str());
	if (symlink("/dev/full", link.c_str()) == 0 && im.save(link.c_str()))
		ctx.fail(std::string("full-") + t.ext, "saving %s to /dev/full succeeds", t.ext);
	unlink(link.c_str());
	if (im.save((dir + "/missing/x." + t.ext).c_str()))
		ctx.fail("missing", "saving %s to a missing directory succeeds", t.ext);
	mkdir((dir + "/d." + t.ext).c_str(), 0700);
	if (im.save((dir + "/d." + t.ext).c_str()))
		ctx.fail("directory", "saving %s over a directory succeeds", t.ext);
	rmdir((dir + "/d." + t.ext).c_str());
	// Names without a known type are refused without touching the file.
	for (const char* n : {"/x", "/x.", "/x.dds2", "/x.txt", "/x.unknown", "/png"})
	{
		std::string name = dir + n;
		bool isPng = std::string(n) == "/png"; // a bare extension names a type
		std::ofstream(name, std::ios::binary) << "keep";
		bool r = im.save(name.c_str());
		std::string now = readFile(name);
		unlink(name.c_str());
		if (!isPng && (r || now != "keep"))
			ctx.fail("unknown", "saving to '%s': %d, the existing file has %zu bytes", n, r, now.size());
		std::vector<std::uint8_t> v;
		if (!isPng && (im.save(v, n + 1) || !v.empty()))
			ctx.fail("unknown-vector", "saving as '%s' to a vector succeeds or writes", n + 1);
		std::ostringstream os;
		if (!isPng && (im.save(os, n + 1) || !os.str().empty()))
			ctx.fail("unknown-stream", "saving as '%s' to a stream succeeds or writes", n + 1);
		ctx.step(3);
	}
	// Existing files are replaced completely.
	std::string name = dir + "/existing." + t.ext;
	for (std::size_t n : {std::size_t(0), std::size_t(1), ref.size(), ref.size() + 9999})
	{
		std::ofstream(name, std::ios::binary) << std::string(n, 'z');
		bool r = im.save(name.c_str());
		std::string now = readFile(name);
		if (!r || now != std::string(ref.begin(), ref.end()))
			ctx.fail(std::string("existing-") + t.ext, "%s over a file of %zu bytes: %d, %zu bytes", t.ext, n, r,
				now.size());
		ctx.step();
	}
	unlink(name.c_str());
	// Streams are written from where they stand, whatever is there, and however they format numbers.
	std::string file(ref.begin(), ref.end());
	for (std::size_t before : {std::size_t(1), std::size_t(7), std::size_t(5000)})
	{
		for (std::size_t after : {std::size_t(0), std::size_t(3), ref.size(), ref.size() + 9999})
		{
			std::string there(before + after, 'z');
			std::string want = there;
			want.replace(before, std::min(after, file.size()), file);
			for (int kind = 0; kind < 3; ++kind)
			{
				std::string now;
				bool r;
				if (kind == 0)
				{
					std::ostringstream os(there, std::ios::binary);
					os.seekp(std::streamoff(before));
					os << std::hex;
					os.width(12);
					r = im.save(os, t.ext);
					now = os.str();
				}
				else if (kind == 1)
				{
					std::stringstream os(there, std::ios::binary | std::ios::in | std::ios::out);
					os.seekp(std::streamoff(before));
					r = im.save(os, t.ext);
					now = os.str();
				}
				else
				{
					sink::Out out;
					out.got = there;
					out.pos = before;
					out.seekable = false;
					std::ostream os(&out);
					r = im.save(os, t.ext);
					now = out.got;
				}
				ctx.step();
				if (!r || now != want)
					ctx.fail(std::string("position-") + t.ext, "%s into a stream (kind %d) at %zu with %zu bytes after "
						"it: %d, %zu bytes, %zu expected%s", t.ext, kind, before, after, r, now.size(), want.size(),
						now.size() == want.size() ? " (different contents)" : "");
			}
		}
	}
	// Two files one after the other, and a stream that has failed before.
	{
		std::ostringstream os(std::ios::binary);
		if (!im.save(os, t.ext) || !im.save(os, t.ext) || os.str() != file + file)
			ctx.fail(std::string("twice-") + t.ext, "%s saved to a stream twice: %zu bytes, not %zu", t.ext,
				os.str().size(), 2*file.size());
		for (std::ios::iostate state : {std::ios::badbit, std::ios::failbit, std::ios::eofbit})
		{
			std::ostringstream failed(std::ios::binary);
			failed.setstate(state);
			bool r = im.save(failed, t.ext);
			if (r && failed.str() != file)
				ctx.fail(std::string("state-") + t.ext, "%s saved to a stream that had failed: %d, %zu bytes", t.ext,
					r, failed.str().size());
		}
		ctx.step(5);
	}
	Image none;
	std::vector<std::uint8_t> v;
	std::ostringstream os;
	if (none.save((dir + "/n." + t.ext).c_str()) || none.save(v, t.ext) || none.save(os, t.ext) ||
		!v.empty() || !os.str().empty() || access((dir + "/n." + t.ext).c_str(), F_OK) == 0)
		ctx.fail("invalid", "saving an invalid image succeeds or writes");
	// Every extension works in any letter case and position.
	std::string upper = t.ext;
	for (char& c : upper)
		c = char(toupper(c));
	std::vector<std::uint8_t> u, w;
	if (!im.save(u, upper.c_str()) || u != ref || !im.save(w, ("a.b/c." + upper).c_str()) || w != ref)
		ctx.fail("case", "extension %s differs from %s", upper.c_str(), t.ext);
	ctx.state(index);
	ctx.step();
}

void quiet()
{
	// libtiff reports to stderr.
	int fd = open("/dev/null", O_WRONLY);
	dup2(fd, 2);
	close(fd);
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C14";
	spec.rule = "every file type (11) x pixel format (17) x size (8) to file, vector and streams and back; for "
		"each file type and format every byte position, write and seek at which a stream can refuse, every file "
		"size limit, positions in existing contents, and every sequence of answers of the write and close calls with up to 2 (thorough: 4) "
		"events; unusable places and names";
	spec.assumptions = {"which pixel formats a file type holds is taken from the file types' specifications and "
		"FreeImage's documentation (list in src/c14.cpp)",
		"the codecs themselves are FreeImage's and are exercised, not verified"};
	spec.workerInit = quiet;
	spec.families = {
		{"round trip", [](bool) { return caseCount(); }, roundTrip},
		{"large", [](bool) { return caseCount()/quickSizes; }, largeRoundTrip},
		{"other types", [](bool) { return otherCount*formats().size(); }, otherRoundTrip},
		{"places", [](bool) { return types().size(); }, places},
		{"stream", [](bool t) { return subjects(t).size(); }, stream},
		{"limits", [](bool t) { return subjects(t).size(); }, limits},
		{"calls", [](bool t) { return subjects(t).size(); }, calls},
	};
	return mc::run(argc, argv, spec);
}
