// C07: a texture save that reports success has written every byte; a failed one leaves the texture
// as it was.
#include "tex.h"
#include "faultio.h"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
using namespace tex;
typedef Texture::FileType FT;
typedef Texture::SaveResult SR;

namespace
{
const FT types[] = {FT::DDS, FT::KTX, FT::PVR};
const char* typeStr[] = {"dds", "ktx", "pvr"};

struct Shape
{
	Texture::Dimension dim;
	unsigned w, h, depth, mips;
	TF format;
	TT type;
	ColorSpace cs;
};
const Shape shapeList[] = {
	{Texture::Dimension::Dim2D, 3, 3, 0, 1, TF::R8G8B8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim2D, 5, 3, 0, 3, TF::R8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim2D, 2, 2, 2, 2, TF::R8G8B8A8, TT::UNorm, ColorSpace::sRGB},
	{Texture::Dimension::Cube, 3, 3, 0, 2, TF::R8G8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Cube, 2, 2, 2, 1, TF::R5G6B5, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim3D, 3, 2, 3, 2, TF::R16G16B16A16, TT::Float, ColorSpace::Linear},
	{Texture::Dimension::Dim1D, 5, 1, 0, 3, TF::R32, TT::Float, ColorSpace::Linear},
	{Texture::Dimension::Dim1D, 3, 1, 3, 1, TF::R8G8B8A8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim2D, 1, 1, 0, 1, TF::R8, TT::UNorm, ColorSpace::Linear},
	// larger than every buffer of the file streams
	{Texture::Dimension::Dim2D, 48, 48, 0, 6, TF::R8G8B8A8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Cube, 8, 8, 3, 4, TF::R8G8B8A8, TT::UNorm, ColorSpace::Linear},
	// many levels, layers and slices
	{Texture::Dimension::Dim1D, 1031, 1, 0, 11, TF::R8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim2D, 3, 517, 0, 10, TF::R8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim1D, 2, 1, 300, 2, TF::R8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Cube, 1, 1, 50, 1, TF::R8, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim3D, 2, 3, 70, 7, TF::R8, TT::UNorm, ColorSpace::Linear},
	// images larger than the buffers of any stream
	{Texture::Dimension::Dim2D, 193, 211, 0, 8, TF::R16G16B16A16, TT::UNorm, ColorSpace::Linear},
	{Texture::Dimension::Dim2D, 4099, 5, 0, 2, TF::R16G16B16A16, TT::Float, ColorSpace::Linear},
};
const unsigned shapeCount = sizeof(shapeList)/sizeof(*shapeList);

struct Subject
{
	Texture t;
	std::string bytes[3];
	bool ok[3];
};

// Each subject is made once per process.
Subject& subject(unsigned i)
{
	static std::unique_ptr<Subject> list[shapeCount];
	if (list[i])
		return *list[i];
	list[i].reset(new Subject);
	Subject& s = *list[i];
	const Shape& sh = shapeList[i];
	s.t.initialize(sh.dim, sh.w, sh.h, sh.depth, sh.mips, sh.cs);
	unsigned k = 0;
	for (unsigned m = 0; m < sh.mips; ++m)
		for (unsigned d = 0; d < s.t.depth(m); ++d)
			for (unsigned f = 0; f < s.t.faceCount(); ++f)
			{
				++k;
				Image im = makeImage(s.t.width(m), s.t.height(m), sh.cs, [&](unsigned x, unsigned y, float* p) {
					for (unsigned c = 0; c < 4; ++c)
						p[c] = float((k*37 + x*11 + y*23 + c*53) % 61)/60.0f;
				});
				s.t.setImage(im, Texture::CubeFace(f), m, d);
			}
	s.t.convert(sh.format, sh.type, Texture::Quality::Lowest, Texture::Alpha::Standard,
		Texture::ColorMask(), 1);
	for (int t = 0; t < 3; ++t)
	{
		std::ostringstream os(std::ios::binary);
		s.ok[t] = s.t.save(os, types[t]) == SR::Success;
		s.bytes[t] = os.str();
	}
	return s;
}

std::string describe(unsigned i, int type)
{
	const Shape& s = shapeList[i];
	static const char* dims[] = {"1D", "2D", "3D", "cube"};
	return mc::fmt("%s of a %s %ux%ux%u texture with %u levels", typeStr[type], dims[int(s.dim)], s.w,
		s.h, s.depth, s.mips);
}

// Saving again elsewhere gives the reference bytes.
void resave(mc::Ctx& ctx, unsigned i, int type, const std::string& what)
{
	Subject& s = subject(i);
	std::vector<std::uint8_t> v;
	SR r = s.t.save(v, types[type]);
	if (r != SR::Success || std::string(v.begin(), v.end()) != s.bytes[type])
		ctx.fail("resave", "%s: saving again to a vector gives %d and %zu bytes, expected %zu",
			what.c_str(), int(r), v.size(), s.bytes[type].size());
	ctx.step();
}

// Every position; of large files those near both ends and 4096-byte blocks, and every 1999th.
std::size_t nextPosition(std::size_t k, std::size_t size)
{
	for (++k; size > 30000 && k > 400 && k + 200 < size && k % 1999 && (k + 2) % 4096 > 3; ++k)
		;
	return k;
}

// A sink that takes bytes up to a limit.
struct Sink : std::streambuf
{
	std::string got;
	std::size_t limit = std::string::npos;
	bool throws = false;
	bool recovers = false;  // one refusal only
	bool refused = false;
	std::size_t chunk = std::string::npos; // one-call maximum

	std::size_t room()
	{
		if (recovers && refused)
			return std::string::npos;
		return limit == std::string::npos ? limit : limit - got.size();
	}
	int refuse()
	{
		refused = true;
		if (throws)
			throw std::runtime_error("device failed");
		return traits_type::eof();
	}
	int overflow(int c) override
	{
		if (room() == 0)
			return refuse();
		if (c != traits_type::eof())
			got += char(c);
		return traits_type::not_eof(c);
	}
	std::streamsize xsputn(const char* p, std::streamsize n) override
	{
		std::size_t k = std::min(std::size_t(n), room());
		got.append(p, k);
		if (k < std::size_t(n))
			refuse();
		return std::streamsize(k);
	}
};

enum Mode { Truncate, AllOrNothing, Throw, Recover, ThrowThrough, modeCount };
const char* modeNames[] = {"truncating", "refusing", "throwing", "refusing once", "throwing with stream exceptions"};

struct Refuser : Sink
{
	std::streamsize xsputn(const char* p, std::streamsize n) override
	{
		if (std::size_t(n) > room())
		{
			refuse();
			return 0;
		}
		got.append(p, std::size_t(n));
		return n;
	}
};

void stream(mc::Ctx& ctx, std::size_t index)
{
	unsigned si = unsigned(index/3);
	int type = int(index % 3);
	Subject& s = subject(si);
	if (!s.ok[type])
	{
		ctx.count("combinations the container cannot hold");
		return;
	}
	const std::string& ref = s.bytes[type];
	// Every position up to and including the complete size, where nothing is refused.
	for (std::size_t k = 0; k <= ref.size() + 1; k = nextPosition(k, ref.size()))
	{
		for (unsigned mode = 0; mode < modeCount; ++mode)
		{
			std::unique_ptr<Sink> sink(mode == AllOrNothing || mode == Recover ? new Refuser : new Sink);
			sink->limit = k;
			sink->throws = mode == Throw || mode == ThrowThrough;
			sink->recovers = mode == Recover;
			std::ostream os(sink.get());
			if (mode == ThrowThrough)
				os.exceptions(std::ios::badbit | std::ios::failbit);
			SR r = SR::WriteError;
			bool thrown = false;
			try
			{
				r = s.t.save(os, types[type]);
			}
			catch (...)
			{
				thrown = true;
			}
			bool complete = sink->got == ref;
			std::string what = mc::fmt("%s to a stream %s at byte %zu of %zu", describe(si, type).c_str(),
				modeNames[mode], k, ref.size());
			if (thrown && mode != ThrowThrough)
				ctx.fail("throws", "%s throws", what.c_str());
			if (!thrown && r == SR::Success && !complete)
				ctx.fail("stream-lost", "%s reports success, but %zu bytes arrived", what.c_str(),
					sink->got.size());
			if (k >= ref.size() && (thrown || r != SR::Success))
				ctx.fail("stream-refused", "%s fails with %d although everything was accepted",
					what.c_str(), int(r));
			if (!thrown && r != SR::Success && r != SR::WriteError)
				ctx.fail("result", "%s gives %d", what.c_str(), int(r));
			if (k < ref.size() && (k % 7 == 0 || ref.size() < 300))
				resave(ctx, si, type, what);
			ctx.step();
			ctx.state(mc::mix(mc::mix(index, k), mode));
			if (ctx.wantSample() && k == 10)
				ctx.sample(what + mc::fmt(": result %d", int(r)));
		}
	}
	// Streams that are not good to start with, and streams already written to.
	for (auto bit : {std::ios::badbit, std::ios::failbit, std::ios::eofbit})
	{
		std::ostringstream os(std::ios::binary);
		os.setstate(bit);
		SR r = s.t.save(os, types[type]);
		if (r == SR::Success && os.str() != ref)
			ctx.fail("bad-stream", "%s to a stream in state %d reports success with %zu bytes",
				describe(si, type).c_str(), int(bit), os.str().size());
		resave(ctx, si, type, "after saving to a bad stream");
	}
	for (unsigned n : {1u, 3u, 8u})
	{
		std::ostringstream os(std::ios::binary);
		os << std::string(n, 'x');
		SR r = s.t.save(os, types[type]);
		if (r != SR::Success || os.str() != std::string(n, 'x') + ref)
			ctx.fail("prefix", "%s after %u bytes in the stream: result %d, %zu bytes",
				describe(si, type).c_str(), n, int(r), os.str().size());
		ctx.step();
	}
	{
		std::ostream none(nullptr);
		if (s.t.save(none, types[type]) == SR::Success)
			ctx.fail("no-buffer", "%s to a stream without buffer succeeds", describe(si, type).c_str());
	}
	// A buffered vector: previous contents are replaced.
	std::vector<std::uint8_t> v(ref.size() + 5, 7);
	SR r = s.t.save(v, types[type]);
	if (r != SR::Success || std::string(v.begin(), v.end()) != ref)
		ctx.fail("vector", "%s into a vector with contents: %d, %zu bytes", describe(si, type).c_str(),
			int(r), v.size());
}

std::string readFile(const std::string& name)
{
	std::string out;
	int fd = open(name.c_str(), O_RDONLY);
	if (fd < 0)
		return out;
	char buf[65536];
	ssize_t n;
	while ((n = read(fd, buf, sizeof(buf))) > 0)
		out.append(buf, std::size_t(n));
	close(fd);
	return out;
}

void judge(mc::Ctx& ctx, unsigned si, int type, SR r, const std::string& got, bool faulted,
	const std::string& what, const char* key)
{
	const std::string& ref = subject(si).bytes[type];
	if (r == SR::Success && got != ref)
		ctx.fail(std::string(key) + "-lost", "%s reports success, but the file has %zu of %zu bytes%s",
			what.c_str(), got.size(), ref.size(), got.size() == ref.size() ? " (different)" : "");
	if (!faulted && r != SR::Success)
		ctx.fail(std::string(key) + "-refused", "%s fails with %d without a fault", what.c_str(), int(r));
	if (r != SR::Success && r != SR::WriteError)
		ctx.fail(std::string(key) + "-result", "%s gives %d", what.c_str(), int(r));
	ctx.step();
}

// Every sequence of answers of the write, open and close calls of a file save, with up to two
// faults; interrupted and short writes are not faults.
void calls(mc::Ctx& ctx, std::size_t index)
{
	unsigned si = unsigned(index/3);
	int type = int(index % 3);
	Subject& s = subject(si);
	if (!s.ok[type])
		return;
	std::string name = mc::scratch() + "/t." + typeStr[type];
	unlink(name.c_str());
	bool faulted = false;
	unsigned events = 0;
	std::string history;
	SR r;
	{
		faultio::Arm arm(name);
		faultio::state().onWrite = [&](std::size_t size) -> long {
			// Shapes with many images make many calls.
			if (events >= (si > 10 ? 1u : ctx.thorough() ? 5u : 3u))
				return long(size);
			unsigned c = ctx.choose(7);
			if (c)
				++events;
			switch (c)
			{
				case 1: faulted = true; history += " ENOSPC"; return -ENOSPC;
				case 2: faulted = true; history += " EIO"; return -EIO;
				case 3: history += " EINTR"; return -EINTR;
				case 4: history += " short1"; return long(std::min<std::size_t>(size, 1));
				case 5: history += " short-1"; return long(size - (size > 1));
				case 6: history += " half"; return long(size > 1 ? size/2 : size);
			}
			history += mc::fmt(" w%zu", size);
			return long(size);
		};
		faultio::state().onClose = [&]() -> int {
			unsigned c = ctx.choose(2);
			history += c ? " close-EIO" : " close";
			faulted = faulted || c;
			return c ? EIO : 0;
		};
		r = s.t.save(name.c_str(), (index + ctx.choose(2)) % 2 ? types[type] : FT::Auto);
		ctx.count("intercepted write calls", faultio::state().writes);
		ctx.count("intercepted close calls", faultio::state().closes);
	}
	std::string what = describe(si, type) + " to a file with calls" + history;
	ctx.note("%s: result %d", what.c_str(), int(r));
	if (ctx.wantSample() && faulted)
		ctx.sample(what + mc::fmt(": result %d", int(r)));
	judge(ctx, si, type, r, readFile(name), faulted, what, "file");
	if (faulted && r == SR::Success)
		ctx.count("successes after a recovered fault");
	ctx.state(mc::hashStr(history, index));
	unlink(name.c_str());
	resave(ctx, si, type, what);
}

// The file may not grow beyond every possible number of bytes.
void limits(mc::Ctx& ctx, std::size_t index)
{
	unsigned si = unsigned(index/3);
	int type = int(index % 3);
	Subject& s = subject(si);
	if (!s.ok[type])
		return;
	signal(SIGXFSZ, SIG_IGN);
	const std::string& ref = s.bytes[type];
	std::string name = mc::scratch() + "/limited";
	struct rlimit old;
	getrlimit(RLIMIT_FSIZE, &old);
	for (std::size_t k = 0; k <= ref.size() + 1; k = nextPosition(k, ref.size()))
	{
		unlink(name.c_str());
		struct rlimit lim = {k, old.rlim_max};
		setrlimit(RLIMIT_FSIZE, &lim);
		SR r = s.t.save(name.c_str(), types[type]);
		setrlimit(RLIMIT_FSIZE, &old);
		judge(ctx, si, type, r, readFile(name), k < ref.size(),
			mc::fmt("%s to a file limited to %zu bytes", describe(si, type).c_str(), k), "limited");
		ctx.state(mc::mix(index, k));
	}
	unlink(name.c_str());
	resave(ctx, si, type, "after limited files");
}

void places(mc::Ctx& ctx, std::size_t index)
{
	unsigned si = unsigned(index/3);
	int type = int(index % 3);
	Subject& s = subject(si);
	if (!s.ok[type])
		return;
	std::string dir = mc::scratch();
	const std::string bad[] = {"/dev/full", dir + "/missing/t.dds", dir, "", dir + "/" + std::string(300, 'a'),
		dir + "/"};
	for (const std::string& b : bad)
	{
		SR r = s.t.save(b.c_str(), types[type]);
		if (r == SR::Success)
			ctx.fail("place", "%s to '%s' succeeds", describe(si, type).c_str(), b.c_str());
		resave(ctx, si, type, "after saving to " + b);
	}
	if (s.t.save(static_cast<const char*>(nullptr), types[type]) == SR::Success)
		ctx.fail("null", "saving to a null name succeeds");
	// Existing files are replaced completely, whatever their size.
	std::string name = dir + "/existing";
	for (std::size_t n : {std::size_t(0), std::size_t(1), s.bytes[type].size(), s.bytes[type].size() + 5000})
	{
		std::ofstream(name, std::ios::binary) << std::string(n, 'z');
		SR r = s.t.save(name.c_str(), types[type]);
		judge(ctx, si, type, r, readFile(name), false,
			mc::fmt("%s over a file of %zu bytes", describe(si, type).c_str(), n), "existing");
	}
	unlink(name.c_str());
	ctx.state(index);
}

// Every single failing allocation during a save.
bool g_allocArmed = false;
long g_allocLeft = 0;
bool g_allocFailed = false;

void memory(mc::Ctx& ctx, std::size_t index)
{
	unsigned si = unsigned(index/3);
	int type = int(index % 3);
	Subject& s = subject(si);
	if (!s.ok[type])
		return;
	const std::string& ref = s.bytes[type];
	for (int dest = 0; dest < 3; ++dest)
	{
		for (long n = 0;; ++n)
		{
			std::vector<std::uint8_t> v;
			std::ostringstream os(std::ios::binary);
			std::string name = mc::scratch() + "/m";
			SR r = SR::WriteError;
			bool thrown = false;
			std::string got;
			g_allocLeft = n;
			g_allocFailed = false;
			g_allocArmed = true;
			try
			{
				r = dest == 0 ? s.t.save(v, types[type]) : dest == 1 ? s.t.save(os, types[type]) :
					s.t.save(name.c_str(), types[type]);
			}
			catch (const std::bad_alloc&)
			{
				thrown = true;
			}
			g_allocArmed = false;
			bool failed = g_allocFailed;
			got = dest == 0 ? std::string(v.begin(), v.end()) : dest == 1 ? os.str() : readFile(name);
			unlink(name.c_str());
			static const char* dests[] = {"vector", "stream", "file"};
			if (!thrown)
				judge(ctx, si, type, r, got, failed, mc::fmt("%s to a %s when allocation %ld fails",
					describe(si, type).c_str(), dests[dest], n), "memory");
			ctx.state(mc::mix(mc::mix(index, unsigned(dest)), std::uint64_t(n)));
			if (!failed)
				break;
			ctx.count("failing allocations");
			resave(ctx, si, type, "after a failed allocation");
		}
	}
}

} // namespace

void* operator new(std::size_t n)
{
	if (g_allocArmed)
	{
		if (g_allocLeft == 0)
		{
			g_allocArmed = false;
			g_allocFailed = true;
			throw std::bad_alloc();
		}
		--g_allocLeft;
	}
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C07";
	spec.rule = "18 texture shapes x 3 containers; every byte position (of the two largest those near the ends and 4096-byte blocks and every 1999th) x 5 ways for a stream to refuse; "
		"every sequence of answers (ENOSPC, EIO, EINTR, three kinds of short writes, failing close) of the "
		"write and close calls of a file save with up to 3 (thorough: 5) events; every file size limit; unusable "
		"places; every single failing allocation";
	spec.assumptions = {"the reference bytes of each subject are those of an undisturbed save to a string "
		"stream, whose contents C04-C06 decode"};
	spec.families = {
		{"stream", [](bool) { return std::size_t(shapeCount*3); }, stream},
		{"calls", [](bool) { return std::size_t(shapeCount*3); }, calls},
		{"limits", [](bool) { return std::size_t(shapeCount*3); }, limits},
		{"places", [](bool) { return std::size_t(shapeCount*3); }, places},
		{"memory", [](bool) { return std::size_t(shapeCount*3); }, memory},
	};
	return mc::run(argc, argv, spec);
}
