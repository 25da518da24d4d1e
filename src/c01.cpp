// C01: conversion with several threads, explored over all interleavings.
#include "sched.h"
#include "blocks.h"
#ifdef CUTTLEFISH_HAS_S3TC
#include <stand_in.h>
#endif
#include <sstream>
#include <system_error>
#include <thread>

using namespace tex;

namespace
{

typedef std::vector<std::vector<std::uint8_t>> Surfaces;

// Every channel of every pixel differs from its neighbours', and no texel becomes zero.
void fill(Texture& t, const Pair& p, unsigned seed)
{
	bool integer = p.type == TT::UInt || p.type == TT::Int;
	for (unsigned m = 0; m < t.mipLevelCount(); ++m)
	{
		for (unsigned d = 0; d < t.depth(m); ++d)
		{
			for (unsigned f = 0; f < t.faceCount(); ++f)
			{
				unsigned w = t.width(m), h = t.height(m);
				Image im(Image::Format::RGBAF, w, h);
				for (unsigned y = 0; y < h; ++y)
				{
					float* row = static_cast<float*>(im.scanline(y));
					for (unsigned x = 0; x < w*4; ++x)
					{
						unsigned n = seed*131 + m*17 + d*29 + f*37 + y*w*4 + x;
						row[x] = integer ? 1 + float(n*7 % 101) : 0.2f + 0.8f*float(n*37 % 253)/252;
					}
				}
				if (t.faceCount() == 6)
					t.setImage(im, static_cast<Texture::CubeFace>(f), m, d);
				else
					t.setImage(im, m, d);
			}
		}
	}
}

Surfaces read(const Texture& t)
{
	Surfaces s;
	for (unsigned m = 0; m < t.mipLevelCount(); ++m)
		for (unsigned d = 0; d < t.depth(m); ++d)
			for (unsigned f = 0; f < t.faceCount(); ++f)
			{
				auto face = static_cast<Texture::CubeFace>(f);
				auto data = static_cast<const std::uint8_t*>(t.data(face, m, d));
				s.emplace_back(data, data + t.dataSize(face, m, d));
			}
	return s;
}

struct Shape { Texture::Dimension dim; unsigned w, h, d, mips; };

std::string name(const Shape& s, const Pair& p, unsigned threads)
{
	static const char* dims[] = {"1D", "2D", "3D", "cube"};
	return mc::fmt("%s %ux%ux%u mips %u %s-%s with %u threads", dims[unsigned(s.dim)], s.w, s.h, s.d, s.mips,
		p.d->name, typeName(p.type), threads);
}

Texture make(const Shape& s, const Pair& p, unsigned seed)
{
	Texture t(s.dim, s.w, s.h, s.d, s.mips);
	fill(t, p, seed);
	return t;
}

// The bytes of a conversion on the calling thread only.
const Surfaces& expected(mc::Ctx& ctx, const Shape& s, const Pair& p, unsigned seed)
{
	static std::string lastKey;
	static Surfaces last;
	std::string key = name(s, p, seed);
	if (key != lastKey)
	{
		Texture t = make(s, p, seed);
		if (!t.convert(p.d->format, p.type, Texture::Quality::Normal, Texture::Alpha::Standard,
			Texture::ColorMask(), 1))
		{
			ctx.fail("single", "%s can't be converted", key.c_str());
		}
		last = read(t);
		lastKey = key;
	}
	return last;
}

void compare(mc::Ctx& ctx, const Surfaces& a, const Surfaces& b, const std::string& what)
{
	if (a.size() != b.size())
		ctx.fail("surfaces", "%s: %zu surfaces instead of %zu", what.c_str(), a.size(), b.size());
	for (std::size_t i = 0; i < a.size(); ++i)
	{
		if (a[i].size() != b[i].size())
		{
			ctx.fail("size", "%s: surface %zu has %zu bytes instead of %zu", what.c_str(), i, a[i].size(),
				b[i].size());
		}
		for (std::size_t j = 0; j < a[i].size(); ++j)
		{
			if (a[i][j] != b[i][j])
			{
				ctx.fail("bytes", "%s: byte %zu of surface %zu is 0x%02x, single-threaded conversion gives "
					"0x%02x", what.c_str(), j, i, a[i][j], b[i][j]);
			}
		}
	}
}

void checkRun(mc::Ctx& ctx, const sched::Result& r, const std::string& what)
{
	if (!r.error.empty())
		ctx.fail(r.error.compare(0, 9, "data race") == 0 ? "race" : "sync", "%s: %s", what.c_str(), r.error.c_str());
	if (r.unjoined)
		ctx.fail("unjoined", "%s: %u threads not waited for", what.c_str(), r.unjoined);
	ctx.count("schedules");
	if (r.cut)
		ctx.count("schedules cut at an explored state");
	ctx.count("schedule points", r.points);
	ctx.count("threads started", r.threads);
}

std::size_t current = std::size_t(-1);
int currentFamily = -1;

void begin(int family, std::size_t index)
{
	if (current != index || currentFamily != family)
	{
		current = index;
		currentFamily = family;
		sched::newCase();
	}
}

void explore(mc::Ctx& ctx, const Shape& s, const Pair& p, unsigned threads, const sched::Options& options)
{
	std::string what = name(s, p, threads);
	const Surfaces& want = expected(ctx, s, p, 1);
	Texture t = make(s, p, 1);
	bool ok = false;
	bool threw = false;
	sched::Result r = sched::run(ctx, options, [&]
		{
			try
			{
				ok = t.convert(p.d->format, p.type, Texture::Quality::Normal, Texture::Alpha::Standard,
					Texture::ColorMask(), threads);
			}
			catch (...)
			{
				threw = true;
			}
		});
	checkRun(ctx, r, what);
	if (threw || !ok)
		ctx.fail("failed", "%s: the conversion %s (%u threads couldn't be started)", what.c_str(), threw ? "throws" : "fails",
			r.failedCreates);
	compare(ctx, read(t), want, what);
	if (ctx.wantSample())
		ctx.sample(mc::fmt("%s: %u schedule points, %u threads started", what.c_str(), r.points, r.threads));
}

const Pair& rgba8()
{
	for (const Pair& p : pairs())
		if (p.d->format == TF::R8G8B8A8 && p.type == TT::UNorm)
			return p;
	abort();
}

const auto D1 = Texture::Dimension::Dim1D;
const auto D2 = Texture::Dimension::Dim2D;
const auto D3 = Texture::Dimension::Dim3D;
const auto DC = Texture::Dimension::Cube;

struct Config { Shape s; unsigned threads; unsigned preemptions; };

// Every interleaving of one surface.
std::vector<Config> deepConfigs(bool thorough)
{
	const unsigned all = ~0U;
	std::vector<Config> c = {
		{{D2, 40, 1, 0, 1}, 2, all}, {{D2, 33, 1, 0, 1}, 2, all}, {{D2, 64, 1, 0, 1}, 2, all},
		{{D2, 65, 1, 0, 1}, 2, all}, {{D2, 1, 65, 0, 1}, 2, all}, {{D2, 7, 10, 0, 1}, 2, all},
		{{D2, 50, 2, 0, 1}, 2, all}, {{D2, 16, 9, 0, 1}, 2, all}, {{D2, 32, 6, 0, 1}, 2, all},
		{{D2, 65, 1, 0, 1}, 3, all}, {{D2, 31, 4, 0, 1}, 3, all}, {{D2, 3, 40, 0, 1}, 3, all},
		{{D2, 40, 1, 0, 1}, 3, all}, {{D2, 40, 1, 0, 1}, 8, all}, {{D1, 100, 1, 0, 1}, 3, all},
		{{D2, 33, 3, 0, 1}, 4, 2}, {{D2, 64, 3, 0, 1}, 4, 2},
	};
	if (thorough)
	{
		for (unsigned n = 2; n <= 12; ++n)
			c.push_back({{D2, 32*n - 5, 1, 0, 1}, 2, all});
		for (unsigned n = 3; n <= 7; ++n)
			c.push_back({{D2, n, 32*n/n + 3, 0, 1}, 3, all});
		c.push_back({{D2, 50, 3, 0, 1}, 3, all});
		c.push_back({{D2, 40, 5, 0, 1}, 3, all});
		c.push_back({{D2, 33, 3, 0, 1}, 4, all});
		c.push_back({{D2, 40, 4, 0, 1}, 4, 4});
		c.push_back({{D2, 40, 4, 0, 1}, 5, 3});
		c.push_back({{D2, 40, 5, 0, 1}, 6, 2});
	}
	return c;
}

void deep(mc::Ctx& ctx, std::size_t index)
{
	begin(0, index);
	Config c = deepConfigs(ctx.thorough())[index];
	sched::Options o;
	o.preemptions = c.preemptions;
	explore(ctx, c.s, rgba8(), c.threads, o);
}

// Every converter.
void formatsBody(mc::Ctx& ctx, std::size_t index)
{
	begin(1, index);
	static const Shape shapes[] = {{D2, 37, 2, 0, 1}, {D2, 3, 13, 0, 1}, {D2, 5, 20, 0, 1}};
	unsigned count = ctx.thorough() ? 3 : 2;
	sched::Options o;
	explore(ctx, shapes[index % count], pairs()[index/count], ctx.thorough() && index % count == 2 ? 3 : 2, o);
}

// Several surfaces one after another, so that what one leaves behind would show in the next.
std::vector<Config> surfaceConfigs(bool thorough)
{
	std::vector<Config> c = {
		{{D2, 40, 2, 0, 2}, 2, 2}, {{D2, 40, 1, 2, 1}, 2, 3}, {{DC, 6, 6, 0, 1}, 2, 1}, {{D3, 7, 7, 2, 2}, 2, 2},
		{{D2, 64, 2, 0, 7}, 3, 0}, {{D2, 16, 8, 2, 3}, 4, 0}, {{DC, 8, 8, 2, 2}, 2, 0},
	};
	if (thorough)
	{
		for (Config& k : c)
			++k.preemptions;
		c.push_back({{D2, 40, 1, 2, 1}, 2, ~0U});
		c.push_back({{D3, 12, 12, 4, 3}, 3, 2});
	}
	return c;
}

void surfaces(mc::Ctx& ctx, std::size_t index)
{
	begin(2, index);
	Config c = surfaceConfigs(ctx.thorough())[index];
	sched::Options o;
	o.preemptions = c.preemptions;
	explore(ctx, c.s, rgba8(), c.threads, o);
}

// Threads that can't be started.
void starved(mc::Ctx& ctx, std::size_t index)
{
	begin(3, index);
	static const Config configs[] = {
		{{D2, 40, 1, 0, 1}, 2, ~0U}, {{D2, 40, 2, 0, 1}, 3, ~0U}, {{D2, 40, 2, 0, 2}, 2, 2}, {{D2, 50, 3, 0, 1}, 4, 2},
	};
	sched::Options o;
	o.preemptions = configs[index].preemptions;
	o.createMayFail = true;
	explore(ctx, configs[index].s, rgba8(), configs[index].threads, o);
}

// Any number of threads may be asked for.
void counts(mc::Ctx& ctx, std::size_t index)
{
	begin(4, index);
	static const unsigned threads[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 100, 65536, 0x7fffffff, 0x80000000, 0xfffffffe,
		Texture::allCores};
	static const Shape shapes[] = {{D2, 1, 1, 0, 1}, {D2, 32, 1, 0, 1}, {D2, 33, 1, 0, 1}, {D2, 31, 5, 0, 8},
		{DC, 8, 8, 0, 4}};
	sched::Options o;
	o.preemptions = ctx.thorough() ? 1 : 0;
	explore(ctx, shapes[index % 5], rgba8(), threads[index/5], o);
}

// Images of thousands of batches, each under a few fixed schedules.
struct Long { Shape s; unsigned threads; };
const Long longConfigs[] = {{{D2, 1031, 1033, 0, 1}, 2}, {{D2, 513, 769, 0, 1}, 31}, {{D2, 259, 513, 0, 3}, 7},
	{{DC, 130, 130, 0, 1}, 5}, {{D1, 65537, 1, 0, 3}, 3}, {{D2, 33, 2100, 2, 1}, 15}, {{D3, 70, 70, 15, 1}, 2}};
const unsigned longCount = sizeof(longConfigs)/sizeof(*longConfigs);

void longRuns(mc::Ctx& ctx, std::size_t index)
{
	begin(9, index);
	static const int policies[] = {0, 1, 7, -2};
	const Long& c = longConfigs[index % longCount];
	std::size_t pair = (index/longCount*(ctx.thorough() ? 1 : 5) + index % longCount) % pairs().size();
	sched::Options o;
	o.policy = policies[ctx.choose(4)];
	explore(ctx, c.s, pairs()[pair], c.threads, o);
	ctx.state(mc::mix(index, unsigned(o.policy)));
}

// Different objects used by different threads, without any synchronisation of their own.
void distinct(mc::Ctx& ctx, std::size_t index)
{
	begin(5, index);
	struct Work { Shape s; const Pair* p; unsigned threads; };
	static const Pair* other = [] {
		for (const Pair& p : pairs())
			if (p.d->format == TF::R16G16B16A16 && p.type == TT::Float)
				return &p;
		abort();
	}();
	static const Work works[] = {
		{{D2, 5, 3, 0, 3}, &rgba8(), 1}, {{D2, 5, 3, 0, 3}, other, 1}, {{D2, 40, 1, 0, 1}, &rgba8(), 2},
		{{DC, 2, 2, 0, 2}, other, 1}};
	const Work& a = works[index % 4];
	const Work& b = works[index/4 % 4];
	bool save = index/16 != 0;
	Surfaces want[2] = {expected(ctx, a.s, *a.p, 1), {}};
	want[1] = expected(ctx, b.s, *b.p, 2);
	std::string what = name(a.s, *a.p, a.threads) + " while " + name(b.s, *b.p, b.threads);
	Texture t[2];
	bool ok[2] = {false, false};
	std::vector<std::uint8_t> files[2];
	sched::Options o;
	o.preemptions = ctx.thorough() ? 2 : 1;
	if (a.threads == 1 && b.threads == 1)
		o.preemptions = ctx.thorough() ? 4 : 2;
	sched::Result r = sched::run(ctx, o, [&]
		{
			auto work = [&](unsigned i, const Work& w)
			{
				t[i] = make(w.s, *w.p, i + 1);
				ok[i] = t[i].convert(w.p->d->format, w.p->type, Texture::Quality::Normal,
					Texture::Alpha::Standard, Texture::ColorMask(), w.threads);
				if (save)
				{
					t[i].save(files[i], i == 0 ? Texture::FileType::DDS : Texture::FileType::KTX);
					Image im(Image::Format::RGBAF, 6, 6);
					im = im.resize(3, 3, Image::ResizeFilter::Box);
					im.changeColorSpace(ColorSpace::sRGB);
					t[i].getImage(9, 9); // the shared empty image
				}
			};
			std::thread second(work, 1, std::cref(b));
			work(0, a);
			second.join();
		});
	checkRun(ctx, r, what);
	if (!ok[0] || !ok[1])
		ctx.fail("failed", "%s: a conversion fails", what.c_str());
	compare(ctx, read(t[0]), want[0], what);
	compare(ctx, read(t[1]), want[1], what);
	if (save)
	{
		for (unsigned i = 0; i < 2; ++i)
		{
			std::vector<std::uint8_t> alone;
			t[i].save(alone, i == 0 ? Texture::FileType::DDS : Texture::FileType::KTX);
			if (alone != files[i])
				ctx.fail("file", "%s: the file saved meanwhile differs", what.c_str());
		}
	}
}

// --- codecs: block-compressed formats; the encoders are stand-ins whose state the race detector watches ---
const Pair& compressed(std::size_t i)
{
	static const std::vector<Desc>& descs = *new std::vector<Desc>([] {
		std::vector<Desc> l;
		for (const blk::Block& b : blk::blocks())
			l.push_back({b.format, b.name, int(b.size), Plain, {}, {b.type}, b.alpha});
		return l;
	}());
	static const std::vector<Pair>& list = *new std::vector<Pair>([] {
		std::vector<Pair> l;
		for (const Desc& d : descs)
			l.push_back({&d, d.types[0]});
		return l;
	}());
	return list[i];
}

std::string misused;
void onMisuse(const char* what) { misused = what; }

void codecs(mc::Ctx& ctx, std::size_t index)
{
	begin(7, index);
	const blk::Block& b = blk::blocks()[index];
	const Pair& p = compressed(index);
	sched::Options o;
	misused.clear();
	static const Shape sizes[] = {{D2, 1, 1, 0, 1}, {D2, 3, 1, 0, 1}, {D2, 2, 2, 0, 1}, {D2, 1, 3, 0, 2}};
	unsigned kind = ctx.choose(ctx.thorough() ? 5 : 4);
	Shape s = sizes[kind < 4 ? kind : 2];
	// In blocks, the last ones of which are partial.
	s.w = s.w*b.w - (s.w > 1 ? 1 : 0);
	s.h = s.h*b.h - (s.h > 1 ? 2 : 0);
	if (s.mips > 1 || kind == 4)
		o.preemptions = 2;
	explore(ctx, s, p, kind == 4 ? 3 : 2, o);
	if (!misused.empty())
		ctx.fail("codec", "%s: %s", name(s, p, 2).c_str(), misused.c_str());
}

// Two conversions to compressed formats at once, which share what is kept between conversions.
void sharing(mc::Ctx& ctx, std::size_t index)
{
	begin(8, index);
	static const std::size_t count = blk::blocks().size();
	const Pair& pa = compressed(index);
	// The same format, the next one, and another codec.
	static const std::size_t steps[] = {0, 1, 25};
	const Pair& pb = compressed((index + steps[ctx.choose(3)]) % count);
	unsigned threads = ctx.choose(2) ? 2 : 1;
	Shape sa = {D2, 13, 4, 0, 1}, sb = {D2, 4, 13, 0, 1};
	Surfaces want[2] = {expected(ctx, sa, pa, 1), {}};
	want[1] = expected(ctx, sb, pb, 2);
	misused.clear();
	std::string what = name(sa, pa, threads) + " while " + name(sb, pb, 1);
	Texture t[2];
	bool ok[2] = {false, false};
	sched::Options o;
	o.preemptions = threads > 1 ? (ctx.thorough() ? 2 : 1) : ctx.thorough() ? ~0U : 2;
	sched::Result r = sched::run(ctx, o, [&]
		{
			auto work = [&](unsigned i)
			{
				const Pair& p = i ? pb : pa;
				t[i] = make(i ? sb : sa, p, i + 1);
				ok[i] = t[i].convert(p.d->format, p.type, Texture::Quality::Normal, Texture::Alpha::Standard,
					Texture::ColorMask(), i ? 1 : threads);
			};
			std::thread second(work, 1);
			work(0);
			second.join();
		});
	checkRun(ctx, r, what);
	if (!ok[0] || !ok[1])
		ctx.fail("failed", "%s: a conversion fails", what.c_str());
	compare(ctx, read(t[0]), want[0], what);
	compare(ctx, read(t[1]), want[1], what);
	if (!misused.empty())
		ctx.fail("codec", "%s: %s", what.c_str(), misused.c_str());
	if (ctx.wantSample())
		ctx.sample(what);
}

// --- operations: every two operations of images and textures at the same time, on different objects ---
typedef std::vector<std::uint8_t> Bytes;

void append(Bytes& out, const Image& i)
{
	unsigned bits = i.bitsPerPixel();
	for (unsigned y = 0; y < i.height(); ++y)
	{
		auto p = static_cast<const std::uint8_t*>(i.scanline(y));
		out.insert(out.end(), p, p + i.width()*bits/8);
	}
	out.push_back(std::uint8_t(i.format()));
	out.push_back(std::uint8_t(i.width()));
	out.push_back(std::uint8_t(i.height()));
	out.push_back(std::uint8_t(i.colorSpace()));
}

Image subject(Image::Format f, ColorSpace cs, unsigned seed)
{
	Image i(Image::Format::RGBAF, 6, 5);
	for (unsigned y = 0; y < 5; ++y)
	{
		auto p = static_cast<float*>(i.scanline(y));
		for (unsigned x = 0; x < 24; ++x)
			p[x] = float((seed*131 + y*24*17 + x*37) % 251)/250;
	}
	Image c = i.convert(f);
	Image r(f, 6, 5, cs);
	for (unsigned y = 0; y < 5; ++y)
		memcpy(r.scanline(y), c.scanline(y), r.width()*r.bitsPerPixel()/8);
	return r;
}

const char* opNames[] = {"pixels", "convert", "resize", "rotate and flip", "swizzle and grayscale",
	"colour space and pre-multiplication", "value range", "normal map", "save and load", "copies", "mipmaps",
	"texture conversion", "texture saving", "queries", "load 565"};
const unsigned opCount = sizeof(opNames)/sizeof(*opNames);

// On the given pixel format.
Bytes operation(unsigned op, unsigned seed, unsigned k)
{
	Bytes out;
	static const Image::Format fmts[] = {Image::Format::RGBA8, Image::Format::RGB565, Image::Format::Gray16,
		Image::Format::RGBF, Image::Format::UInt16, Image::Format::Double};
	{
		Image::Format f = fmts[k];
		ColorSpace cs = (seed + k) % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
		Image i = subject(f, cs, seed);
		switch (op)
		{
			case 0:
				for (unsigned y = 0; y < 5; ++y)
				{
					for (unsigned x = 0; x < 6; ++x)
					{
						ColorRGBAd c;
						i.getPixel(c, x, y);
						c.r = 1 - c.r;
						i.setPixel(x, y, c, x % 2 == 0);
					}
				}
				append(out, i);
				break;
			case 1:
				for (int d = 1; d <= int(Image::Format::Complex); ++d)
					append(out, i.convert(Image::Format(d), k % 2 == 0));
				break;
			case 2:
				for (int d = 0; d < 5; ++d)
					append(out, i.resize(3 + seed, 7, Image::ResizeFilter(d)));
				break;
			case 3:
				for (int d = 0; d < 5; ++d)
					append(out, i.rotate(Image::RotateAngle(d)));
				i.flipHorizontal();
				append(out, i);
				i.flipVertical();
				append(out, i);
				break;
			case 4:
				i.swizzle(Image::Channel::Blue, Image::Channel::Red, Image::Channel::None, Image::Channel::Green);
				append(out, i);
				i.grayscale();
				append(out, i);
				break;
			case 5:
				i.preMultiplyAlpha();
				append(out, i);
				i.changeColorSpace(cs == ColorSpace::sRGB ? ColorSpace::Linear : ColorSpace::sRGB);
				append(out, i);
				break;
			case 6:
				for (TT t : {TT::SNorm, TT::UInt, TT::Int})
				{
					Image a = i;
					Texture::adjustImageValueRange(a, t, seed % 2 ? Image::Format::RGB8 : f);
					append(out, a);
				}
				break;
			case 7:
				append(out, i.createNormalMap(Image::NormalOptions::Default, 2 + seed));
				append(out, i.createNormalMap(Image::NormalOptions::WrapX, 1, Image::Format::RGBF));
				break;
			case 8:
			case 14:
				for (const char* ext : {"png", "tif", "bmp"})
				{
					Bytes file;
					if (!i.save(file, ext))
						continue;
					out.insert(out.end(), file.begin(), file.end());
					if (op == 8)
						append(out, Image(file.data(), file.size(), cs));
					else
					{
						std::istringstream is(std::string(file.begin(), file.end()), std::ios::binary);
						append(out, Image(is, cs));
					}
				}
				break;
			case 9:
			{
				Image a = i, b(i);
				ColorRGBAd c(0.5, 0.25, 1, 0);
				a.setPixel(1, 1, c);
				b = std::move(a);
				append(out, i);
				append(out, b);
				break;
			}
			case 10:
			{
				Texture t(Texture::Dimension::Cube, 5, 5, 0, 1, cs);
				for (unsigned n = 0; n < 6; ++n)
					t.setImage(i.resize(5, 5, Image::ResizeFilter::Linear), Texture::CubeFace(n));
				Texture::CustomMipImages customs;
				customs.emplace(Texture::ImageIndex(Texture::CubeFace::NegX, 1), Texture::CustomMipImage(i,
					seed % 2 ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue));
				t.generateMipmaps(Image::ResizeFilter(k % 5), Texture::allMipLevels, customs);
				for (unsigned n = 0; n < 6; ++n)
				{
					for (unsigned m = 0; m < t.mipLevelCount(); ++m)
						append(out, t.getImage(Texture::CubeFace(n), m));
				}
				break;
			}
			case 11:
			{
				Texture t(Texture::Dimension::Dim2D, 6, 5);
				t.setImage(i);
				for (std::size_t n = k; n < pairs().size(); n += 6)
				{
					t.convert(pairs()[n].d->format, pairs()[n].type);
					auto p = static_cast<const std::uint8_t*>(t.data());
					out.insert(out.end(), p, p + t.dataSize());
				}
				break;
			}
			case 12:
			{
				Texture t(Texture::Dimension::Dim2D, 6, 5, 0, 1, cs);
				t.setImage(i);
				t.convert(TF::R8G8B8A8, TT::UNorm);
				for (auto type : {Texture::FileType::DDS, Texture::FileType::KTX, Texture::FileType::PVR})
				{
					Bytes file;
					t.save(file, type);
					out.insert(out.end(), file.begin(), file.end());
					std::ostringstream os;
					t.save(os, type);
					std::string text = os.str();
					out.insert(out.end(), text.begin(), text.end());
				}
				break;
			}
			default:
				for (int n = 0; n < 90; ++n)
				{
					for (int y = 0; y < 6; ++y)
					{
						out.push_back(Texture::isFormatValid(TF(n), TT(y)));
						out.push_back(Texture::isFormatValid(TF(n), TT(y), Texture::FileType::KTX));
					}
					out.push_back(Texture::hasNativeSRGB(TF(n), TT::UNorm));
					out.push_back(Texture::hasAlpha(TF(n)));
				}
				for (const char* file : {"a.dds", "b.KTX", "c.pvr", "d"})
					out.push_back(std::uint8_t(Texture::fileType(file)));
		}
	}
	return out;
}

void operations(mc::Ctx& ctx, std::size_t index)
{
	begin(6, index);
	unsigned a = 0, b = 0;
	for (std::size_t n = 0; n < index; ++n)
	{
		if (++b == opCount)
			b = ++a;
	}
	std::string what = mc::fmt("%s while %s", opNames[a], opNames[b]);
	unsigned ka = ctx.choose(6), kb = ctx.thorough() ? ctx.choose(6) : ka;
	Bytes want[2] = {operation(a, 0, ka), operation(b, 1, kb)}, got[2];
	sched::Options o;
	o.preemptions = ctx.thorough() ? 1 : 0;
	sched::Result r = sched::run(ctx, o, [&]
		{
			std::thread second([&] { got[1] = operation(b, 1, kb); });
			got[0] = operation(a, 0, ka);
			second.join();
		});
	checkRun(ctx, r, what);
	for (int i = 0; i < 2; ++i)
	{
		if (got[i] != want[i])
			ctx.fail("operations", "%s: the result of the %s differs", what.c_str(), i ? "second" : "first");
	}
	if (ctx.wantSample())
		ctx.sample(what);
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C01";
	spec.rule = "the real library under a controlled scheduler: every interleaving of the atomic and "
		"synchronisation operations (small surfaces, every format), or every one with a bounded number of "
		"preemptions (several surfaces, more threads); happens-before states are explored once; a vector-clock race "
		"detector watches every instrumented access on each schedule";
	spec.assumptions = {"accesses inside FreeImage and the C++ runtime libraries are not instrumented",
		"the encoders of compressed formats are stand-ins (shim/codecs), so races inside the real ones are not seen",
		"sequentially consistent interleavings; weaker orders show as races through the order arguments"};
	spec.families = {
		{"counts", [](bool) { return std::size_t(16*5); }, counts},
		{"deep", [](bool t) { return deepConfigs(t).size(); }, deep},
		{"formats", [](bool t) { return pairs().size()*(t ? 3 : 2); }, formatsBody},
		{"surfaces", [](bool t) { return surfaceConfigs(t).size(); }, surfaces},
		{"long", [](bool t) { return longCount*(t ? pairs().size() : pairs().size()/5); }, longRuns},
		{"starved", [](bool) { return std::size_t(4); }, starved},
		{"operations", [](bool) { return std::size_t(opCount*(opCount + 1)/2); }, operations},
		{"distinct", [](bool) { return std::size_t(32); }, distinct},
#ifdef CUTTLEFISH_HAS_S3TC
		{"codecs", [](bool) { return blk::blocks().size(); }, codecs},
		{"sharing", [](bool) { return blk::blocks().size(); }, sharing},
#endif
	};
	spec.quickBudget = 300;
	spec.workerInit = []
	{
		// One-time initialisation, so that every execution starts alike.
		Texture t = make({D2, 2, 2, 0, 1}, rgba8(), 1);
		t.convert(TF::R8G8B8A8, TT::UNorm);
		std::vector<std::uint8_t> d;
		t.save(d, Texture::FileType::KTX);
		t.getImage(9, 9);
#ifdef CUTTLEFISH_HAS_S3TC
		codec::counting = false;
		codec::misuse = onMisuse;
		for (std::size_t i = 0; i < blk::blocks().size(); ++i)
		{
			Texture c = make({D2, 5, 5, 0, 1}, compressed(i), 1);
			c.convert(compressed(i).d->format, compressed(i).type);
		}
#endif
	};
	return mc::run(argc, argv, spec);
}
