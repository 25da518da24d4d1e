// C24: block-compressed surfaces: every block is the encoder's output for exactly the pixels of its
// region, encoded once, with the options that the texture asks for. The encoders are stand-ins
// (shim/codecs) that record what they are given.
#include "blocks.h"
#include <stand_in.h>
#include <squish.h>
#include <Etc.h>
#include <astcenc.h>
#include <PVRTexLib.hpp>
#include <mutex>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>

using namespace blk;

namespace
{

typedef Texture::Dimension D;
typedef Texture::Quality Q;
typedef Texture::Alpha A;

std::mutex recordMutex;
std::unordered_map<std::uint64_t, codec::Call> records;
std::uint64_t calls;
std::string misused;

void onCall(const codec::Call& c, std::uint64_t id)
{
	std::lock_guard<std::mutex> lock(recordMutex);
	records[id] = c;
	++calls;
}
void onMisuse(const char* what)
{
	std::lock_guard<std::mutex> lock(recordMutex);
	if (misused.empty())
		misused = what;
}

// Contexts that earlier executions left in the cache are replaced by ones that no check asks for.
void flushContexts()
{
	codec::hook = nullptr;
	codec::misuse = [](const char*) {};
	unsigned n = 4*std::max(std::thread::hardware_concurrency(), 1u);
	Texture t(D::Dim1D, 12*n, 1);
	t.setImage(makeImage(12*n, 1, ColorSpace::Linear, [](unsigned, unsigned, float* p) {
		p[0] = p[1] = p[2] = p[3] = 0; }));
	t.convert(TF::ASTC_12x10, TT::UFloat, Q::Highest, A::PreMultiplied, Texture::ColorMask(), n);
}

void begin(bool flush = false)
{
	if (flush)
		flushContexts();
	records.clear();
	calls = 0;
	misused.clear();
	codec::hook = onCall;
	codec::misuse = onMisuse;
}

struct Config
{
	const Block* b;
	ColorSpace cs = ColorSpace::Linear;
	Q quality = Q::Normal;
	A alpha = A::Standard;
	Texture::ColorMask mask;
	unsigned threads = 1;
	std::string str() const
	{
		static const char* al[] = {"none", "standard", "premultiplied", "encoded"};
		return mc::fmt("%s %s quality %d alpha %s mask %d%d%d%d %u threads", blockName(*b).c_str(),
			cs == ColorSpace::sRGB ? "sRGB" : "linear", int(quality),
			alpha == A::None ? al[0] : alpha == A::Standard ? al[1] : alpha == A::PreMultiplied ? al[2] : al[3],
			mask.r, mask.g, mask.b, mask.a, threads);
	}
};

bool isSigned(const Block& b) { return b.type == TT::SNorm; }

typedef std::function<void(unsigned surface, unsigned x, unsigned y, float* px)> Source;

// A value for each position that differs from those of its neighbours in every channel.
Source positions(const Block& b)
{
	bool neg = b.type == TT::SNorm || (b.codec == Bc6 && b.type == TT::Float);
	float scale = b.type == TT::UFloat || b.type == TT::Float ? 8.0f : 1.0f;
	return [neg, scale](unsigned s, unsigned x, unsigned y, float* px)
	{
		unsigned k[4] = {x*5 + s*3, y*7 + s*11 + 1, x*3 + y*17 + s*29, x*11 + y*2 + s*7 + 128};
		for (int c = 0; c < 4; ++c)
		{
			px[c] = float(k[c] % 253)/252.0f*scale;
			if (neg)
				px[c] = px[c]*2 - scale;
		}
	};
}

Texture make(mc::Ctx& ctx, const std::string& what, D dim, unsigned w, unsigned h, unsigned d, unsigned mips,
	ColorSpace cs, const Source& src)
{
	Texture t(dim, w, h, d, mips, cs);
	unsigned s = 0;
	for (unsigned m = 0; m < mips; ++m)
		for (unsigned dp = 0; dp < t.depth(m); ++dp)
			for (unsigned f = 0; f < t.faceCount(); ++f, ++s)
			{
				Image im = makeImage(t.width(m), t.height(m), cs,
					[&](unsigned x, unsigned y, float* px) { src(s, x, y, px); });
				if (!t.setImage(im, Texture::CubeFace(f), m, dp))
					ctx.fail("setImage", "%s", what.c_str());
			}
	return t;
}

double clampD(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

// Whether an encoder was given the value v for a channel.
bool same(const Block& b, const codec::Call& c, float px, float v)
{
	if (b.codec == EtcC)
		return isSigned(b) ? std::fabs(px - (double(v)*0.5 + 0.5)) <= 1e-6 : px == v;
	if (b.codec == Astc)
		return px == v;
	if (b.codec == Bc6)
	{
		if (std::isinf(px))
			return (px < 0) == (v < 0) && std::fabs(v) >= 65519.9;
		double step = std::max(std::fabs(double(v)), 6.2e-5)/1024;
		return std::fabs(double(px) - v) <= 0.5000001*step + 3.1e-8;
	}
	if (isSigned(b))
		return std::fabs(px - clampD(v, -1, 1)*127) <= 0.50001;
	return std::fabs(px - clampD(v, 0, 1)*255) <= 0.5001;
}

// The channels of a pixel an encoder is given.
std::vector<int> channelsOf(const Block& b)
{
	switch (b.codec)
	{
		case Bc4: return {0};
		case Bc5: return {0, 1};
		case Bc6: return {0, 1, 2};
		default: return {0, 1, 2, 3};
	}
}
// Those of them that the format stores.
bool stored(const Block& b, int c)
{
	if (b.codec == EtcC && (b.format == TF::EAC_R11 || b.format == TF::EAC_R11G11))
		return c == 0 || (c == 1 && b.format == TF::EAC_R11G11);
	return c < 3 || b.alpha;
}

void checkOptions(mc::Ctx& ctx, const Config& k, const codec::Call& c, const std::string& where,
	bool transparent)
{
	const Block& b = *k.b;
	bool srgb = k.cs == ColorSpace::sRGB;
	auto bad = [&](const char* key, const char* msg) {
		std::string o;
		for (auto& e : c.opts)
			o += mc::fmt(" %s=%g", e.first.c_str(), e.second);
		ctx.fail(blockName(b) + ":" + key, "%s: %s (%s%s)", where.c_str(), msg, c.fn, o.c_str());
	};
	std::string fn = c.fn;
	const bool masks[4] = {k.mask.r, k.mask.g, k.mask.b, k.mask.a};
	switch (b.codec)
	{
		case Bc1:
			if (fn != "bc1" && fn != "squish")
				bad("encoder", "not an encoder of BC1");
			break;
		case Bc1A:
			if (fn == "bc1")
			{
				if (transparent)
					bad("alpha", "a block with transparent pixels is encoded without alpha");
				if (c.opt("3color") && c.opt("black"))
					bad("black", "black pixels of an opaque block may become transparent");
			}
			else if (fn != "squish" || !(int(c.opt("flags")) & squish::kDxt1))
				bad("encoder", "not an encoder of BC1 with alpha");
			break;
		case Bc2:
			if (fn != "bc1" || c.opt("3color") != 0)
				bad("3color", "the colours of a BC2 block are not encoded in four colour mode");
			break;
		case Bc3:
			if (fn != "bc3")
				bad("encoder", "not an encoder of BC3");
			break;
		case Bc4:
			if (fn != (isSigned(b) ? "bc4s" : "bc4"))
				bad("encoder", "not an encoder of this kind of BC4");
			break;
		case Bc5:
			if (fn != (isSigned(b) ? "bc5s" : "bc5"))
				bad("encoder", "not an encoder of this kind of BC5");
			break;
		case Bc6:
			if (fn != "bc6h" || c.opt("signed") != (b.type == TT::Float))
				bad("signed", "signedness");
			break;
		case Bc7:
			if (fn != "bc7")
				bad("encoder", "not an encoder of BC7");
			if (c.opt("perceptual") == 1 && !srgb)
				bad("perceptual", "perceptual weights for linear colours");
			if (c.opt("perceptual") == 0 && srgb && k.quality == Q::Highest)
				bad("perceptual", "no perceptual weights for sRGB colours");
			for (int i = 0; i < 4; ++i)
			{
				if ((c.opt(mc::fmt("weight%d", i).c_str()) > 0) != masks[i])
					bad("mask", "weights do not follow the colour mask");
			}
			break;
		case EtcC:
		{
			int f = int(c.opt("format")), m = int(c.opt("metric"));
			typedef Etc::Image::Format EF;
			EF want = EF::UNKNOWN, other = EF::UNKNOWN;
			switch (b.format)
			{
				case TF::ETC1: want = EF::ETC1; break;
				case TF::ETC2_R8G8B8: want = EF::RGB8; other = EF::SRGB8; break;
				case TF::ETC2_R8G8B8A1: want = EF::RGB8A1; other = EF::SRGB8A1; break;
				case TF::ETC2_R8G8B8A8: want = EF::RGBA8; other = EF::SRGBA8; break;
				case TF::EAC_R11: want = isSigned(b) ? EF::SIGNED_R11 : EF::R11; break;
				default: want = isSigned(b) ? EF::SIGNED_RG11 : EF::RG11; break;
			}
			if (fn != "etc" || (f != int(want) && !(srgb && f == int(other) && other != EF::UNKNOWN)))
				bad("format", "the format given to the encoder");
			bool numeric = b.format == TF::EAC_R11 || b.format == TF::EAC_R11G11;
			if (numeric != (m == Etc::NUMERIC))
				bad("metric", "error metric of numbers");
			if (!numeric && srgb != (m == Etc::REC709))
				bad("metric", "error metric of the colour space");
			if (!numeric && !srgb && b.alpha != (m == Etc::RGBA))
				bad("metric", "error metric and alpha");
			break;
		}
		case Astc:
		{
			int p = int(c.opt("profile")), f = int(c.opt("flags"));
			bool hdr = p == ASTCENC_PRF_HDR || p == ASTCENC_PRF_HDR_RGB_LDR_A;
			if (fn != "astc" || hdr != (b.type == TT::UFloat) || (p == ASTCENC_PRF_LDR_SRGB && !srgb))
				bad("profile", "profile");
			if (unsigned(c.opt("blockx")) != b.w || unsigned(c.opt("blocky")) != b.h)
				bad("blocksize", "block size");
			if (bool(f & ASTCENC_FLG_USE_PERCEPTUAL) != srgb)
				bad("perceptual", "perceptual weights");
			if (bool(f & ASTCENC_FLG_USE_ALPHA_WEIGHT) != (k.alpha == A::Standard || k.alpha == A::PreMultiplied))
				bad("alphaweight", "weighting by alpha");
			if (f & ~int(ASTCENC_FLG_USE_PERCEPTUAL | ASTCENC_FLG_USE_ALPHA_WEIGHT))
				bad("flags", "flags");
			static const int chan[] = {ASTCENC_SWZ_R, ASTCENC_SWZ_G, ASTCENC_SWZ_B, ASTCENC_SWZ_A};
			for (int i = 0; i < 4; ++i)
			{
				int want = !masks[i] ? int(ASTCENC_SWZ_0) : i == 3 && k.alpha == A::None ? int(ASTCENC_SWZ_1) : chan[i];
				if (int(c.opt(mc::fmt("swz%d", i).c_str())) != want)
					bad("swizzle", "swizzle of the colour mask");
			}
			break;
		}
		case Pvrtc:
		{
			static const int formats[] = {PVRTLPF_PVRTCI_2bpp_RGB, PVRTLPF_PVRTCI_2bpp_RGBA, PVRTLPF_PVRTCI_4bpp_RGB,
				PVRTLPF_PVRTCI_4bpp_RGBA, PVRTLPF_PVRTCII_2bpp, PVRTLPF_PVRTCII_4bpp};
			if (fn != "pvrtc" || int(c.opt("format")) != formats[b.pvr] || c.opt("type") != PVRTLVT_UnsignedByteNorm)
				bad("format", "the format given to the encoder");
			if (c.opt("premultiplied") != (k.alpha == A::PreMultiplied))
				bad("premultiplied", "pre-multiplied alpha");
			break;
		}
	}
	if (fn == "squish")
	{
		for (int i = 0; i < 3; ++i)
		{
			if ((c.opt(mc::fmt("weight%d", i).c_str()) > 0) != masks[i])
				bad("mask", "weights do not follow the colour mask");
		}
		double w0 = c.opt("weight0"), w1 = c.opt("weight1"), w2 = c.opt("weight2");
		if (masks[0] && masks[1] && masks[2])
		{
			if (srgb ? !(w1 > w0 && w0 > w2) : !(w0 == w1 && w1 == w2))
				bad("weights", "weights of the colour space");
		}
	}
}

std::uint64_t idAt(const std::uint8_t* p)
{
	std::uint64_t v;
	memcpy(&v, p, 8);
	return v;
}

// All blocks of a converted texture.
void verify(mc::Ctx& ctx, const Config& k, const Texture& t, const Source& src, const std::string& what)
{
	const Block& b = *k.b;
	std::string key = blockName(b);
	if (!misused.empty())
		ctx.fail(key + ":misuse", "%s: %s", what.c_str(), misused.c_str());
	std::uint64_t expectedCalls = 0;
	unsigned s = 0;
	const std::vector<int> chans = channelsOf(b);
	for (unsigned m = 0; m < t.mipLevelCount(); ++m)
	{
		for (unsigned dp = 0; dp < t.depth(m); ++dp)
		{
			for (unsigned f = 0; f < t.faceCount(); ++f, ++s)
			{
				unsigned w = t.width(m), h = t.height(m), nx = blocksX(b, w), ny = blocksY(b, h);
				auto face = Texture::CubeFace(f);
				auto data = static_cast<const std::uint8_t*>(t.data(face, m, dp));
				std::string where = mc::fmt("%s mip %u depth %u face %u", what.c_str(), m, dp, f);
				if (!data || t.dataSize(face, m, dp) != std::size_t(nx)*ny*b.size)
				{
					ctx.fail(key + ":size", "%s: %zu bytes instead of %zu", where.c_str(), t.dataSize(face, m, dp),
						std::size_t(nx)*ny*b.size);
				}
				bool whole = b.codec == Pvrtc;
				expectedCalls += whole ? 1 : nx*ny;
				for (unsigned i = 0; i < (whole ? 1 : nx*ny); ++i)
				{
					unsigned bx = i % nx, by = i/nx;
					const std::uint8_t* p = data + std::size_t(i)*b.size;
					std::string at = mc::fmt("%s block (%u,%u)", where.c_str(), bx, by);
					auto r = records.find(idAt(p + (b.codec == Bc2 ? 8 : 0)));
					if (r == records.end())
						ctx.fail(key + ":missing", "%s holds nothing that an encoder made", at.c_str());
					const codec::Call& c = r->second;
					unsigned bw = whole ? w : b.w, bh = whole ? h : b.h, x0 = bx*bw, y0 = by*bh;
					bool clipped = c.w != bw || c.h != bh;
					if (clipped && (c.w != std::min(bw, w - x0) || c.h != std::min(bh, h - y0)))
						ctx.fail(key + ":dimensions", "%s: the encoder is given %ux%u pixels", at.c_str(), c.w, c.h);
					if (c.channels != chans.size() || c.px.size() != c.w*c.h*chans.size())
						ctx.fail(key + ":channels", "%s: the encoder is given %u channels", at.c_str(), c.channels);
					bool transparent = false;
					for (unsigned y = 0; y < c.h; ++y)
					{
						for (unsigned x = 0; x < c.w; ++x)
						{
							float px[4];
							unsigned sx = std::min(x0 + x, w - 1), sy = std::min(y0 + y, h - 1);
							src(s, sx, sy, px);
							transparent = transparent || px[3] < 0.5f;
							for (std::size_t n = 0; n < chans.size(); ++n)
							{
								float have = c.px[(y*c.w + x)*chans.size() + n];
								if (stored(b, chans[n]) && !same(b, c, have, px[chans[n]]))
								{
									ctx.fail(key + ":pixel", "%s pixel (%u,%u) %c: the encoder is given %g for %g",
										at.c_str(), x, y, "rgba"[chans[n]], have, px[chans[n]]);
								}
							}
							if (b.codec == Bc2)
							{
								unsigned j = y*4 + x, nib = p[j/2] >> (j % 2*4) & 15;
								if (std::fabs(nib - clampD(px[3], 0, 1)*15) > 0.53)
									ctx.fail(key + ":alpha", "%s pixel (%u,%u): alpha %u for %g", at.c_str(), x, y, nib, px[3]);
							}
						}
					}
					checkOptions(ctx, k, c, at, transparent);
				}
				ctx.step(nx*ny);
			}
		}
	}
	if (calls != expectedCalls)
	{
		ctx.fail(key + ":calls", "%s: %llu blocks encoded, the surfaces have %llu", what.c_str(),
			(unsigned long long)calls, (unsigned long long)expectedCalls);
	}
	if (codec::openOptions != 0)
		ctx.fail(key + ":leak", "%s: %d encoder options are never destroyed", what.c_str(), codec::openOptions);
}

void convertAndVerify(mc::Ctx& ctx, const Config& k, D dim, unsigned w, unsigned h, unsigned d, unsigned mips,
	const Source& src, bool flush = false)
{
	std::string what = mc::fmt("%s %ux%ux%u mips %u", k.str().c_str(), w, h, d, mips);
	Texture t = make(ctx, what, dim, w, h, d, mips, k.cs, src);
	begin(flush);
	if (!t.convert(k.b->format, k.b->type, k.quality, k.alpha, k.mask, k.threads))
		ctx.fail(blockName(*k.b) + ":convert", "%s", what.c_str());
	verify(ctx, k, t, src, what);
	ctx.state(mc::hashStr(what));
	if (ctx.wantSample())
		ctx.sample(mc::fmt("%s: %llu blocks", what.c_str(), (unsigned long long)calls));
}

// Every small size, and numbers of blocks around the numbers of threads.
void sizes(mc::Ctx& ctx, std::size_t index)
{
	const Block& b = blocks()[index];
	unsigned maxW = (ctx.thorough() ? 4 : 2)*b.w + 2, maxH = (ctx.thorough() ? 3 : 2)*b.h + 2;
	unsigned w = 1 + ctx.choose(maxW), h = 1 + ctx.choose(maxH);
	static const unsigned threads[] = {1, 2, 3, 8};
	Config k;
	k.b = &b;
	k.threads = threads[ctx.choose(4)];
	if (b.srgb && ctx.choose(2))
		k.cs = ColorSpace::sRGB;
	convertAndVerify(ctx, k, D::Dim2D, w, h, 0, 1, positions(b));
}

// Values: all code boundaries and everything beyond the range.
void values(mc::Ctx& ctx, std::size_t index)
{
	const Block& b = blocks()[index];
	std::vector<float> v;
	auto add = [&](double x) {
		float f = float(x);
		v.push_back(f);
		v.push_back(std::nextafter(f, -INFINITY));
		v.push_back(std::nextafter(f, INFINITY));
	};
	for (int i = -2; i <= 257; ++i)
	{
		add(i/255.0);
		add((i + 0.4)/255.0);
		add((i + 0.6)/255.0);
	}
	for (int i = -129; i <= 129; ++i)
	{
		add(i/127.0);
		add((i + 0.4)/127.0);
		add((i - 0.4)/127.0);
	}
	for (double x : {0.5, 1.5, 3.0, 100.0, 1000.25, 65504.0, 65519.0, 1e-5, 6e-8, 0.3333333, 2.0e-3})
	{
		add(x);
		if (b.type != TT::UFloat)
			add(-x);
	}
	if (b.type == TT::UFloat)
		for (float& f : v)
			f = std::fabs(f);
	unsigned rotate = ctx.choose(4);
	unsigned w = 64, h = unsigned((v.size() + w - 1)/w);
	Source src = [&](unsigned, unsigned x, unsigned y, float* px) {
		for (unsigned c = 0; c < 4; ++c)
			px[c] = v[((y*w + x)*(c == rotate ? 1 : 7 + 2*c) + c*53) % v.size()];
	};
	Config k;
	k.b = &b;
	k.quality = ctx.choose(2) ? Q::Lowest : Q::Highest;
	convertAndVerify(ctx, k, D::Dim2D, w, h, 0, 1, src);
}

const A alphas[] = {A::None, A::Standard, A::PreMultiplied, A::Encoded};

// Options: quality, alpha kind, colour mask, colour space and transparency of the block.
void options(mc::Ctx& ctx, std::size_t index)
{
	Config k;
	k.b = &blocks()[index];
	k.quality = Q(ctx.choose(5));
	k.alpha = alphas[ctx.choose(4)];
	unsigned mask = ctx.choose(16);
	k.mask = Texture::ColorMask(mask & 1, mask & 2, mask & 4, mask & 8);
	if (k.b->srgb && ctx.choose(2))
		k.cs = ColorSpace::sRGB;
	// Alpha: opaque; half; one transparent pixel at each place; everything transparent.
	unsigned kind = ctx.choose(4 + 16);
	Source pos = positions(*k.b);
	unsigned bw = k.b->w;
	Source src = [&](unsigned s, unsigned x, unsigned y, float* px) {
		pos(s, x, y, px);
		unsigned place = y*bw + x;
		px[3] = kind == 0 ? 1.0f : kind == 1 ? 0.5f : kind == 2 ? 0.0f : kind == 3 ? 0.4999f :
			place == kind - 4 ? 0.25f : 1.0f;
	};
	convertAndVerify(ctx, k, D::Dim2D, k.b->w*2, k.b->h, 0, 1, src);
}

// Higher quality never asks for less effort.
void quality(mc::Ctx& ctx, std::size_t index)
{
	const Block& b = blocks()[index];
	Config k;
	k.b = &b;
	if (b.srgb && ctx.choose(2))
		k.cs = ColorSpace::sRGB;
	bool transparent = ctx.choose(2);
	Source pos = positions(b);
	Source src = [&](unsigned s, unsigned x, unsigned y, float* px) {
		pos(s, x, y, px);
		px[3] = transparent ? 0.25f : 1.0f;
	};
	std::map<std::string, double> first, prev;
	static const char* effort[] = {"level", "radius", "quality", "partitions", "uber", "squares", "effort"};
	bool rises = false;
	for (int q = 0; q < 5; ++q)
	{
		k.quality = Q(q);
		convertAndVerify(ctx, k, D::Dim2D, b.w, b.h, 0, 1, src);
		codec::Call c = records.begin()->second;
		if (c.opts.count("flags") && std::string(c.fn) == "squish")
		{
			int f = int(c.opt("flags"));
			c.opts["quality"] = f & squish::kColourRangeFit ? 0 : f & squish::kColourIterativeClusterFit ? 2 : 1;
		}
		if (q > 0)
		{
			for (const char* e : effort)
			{
				if (!c.opts.count(e) || !prev.count(e))
					continue;
				if (c.opts[e] < prev[e])
				{
					ctx.fail(blockName(b) + ":quality", "%s: %s falls from %g to %g at quality %d", k.str().c_str(), e,
						prev[e], c.opts[e], q);
				}
				rises = rises || c.opts[e] > prev[e];
			}
		}
		prev = c.opts;
	}
	if (!rises)
		ctx.fail(blockName(b) + ":quality", "%s: quality makes no difference", k.str().c_str());
}

struct Shape { D dim; unsigned w, h, d, mips; };
const Shape shapes[] = {
	{D::Dim1D, 23, 1, 0, 5}, {D::Dim1D, 9, 1, 3, 2}, {D::Dim2D, 23, 13, 0, 5}, {D::Dim2D, 16, 16, 3, 5},
	{D::Dim2D, 7, 30, 2, 1}, {D::Dim3D, 9, 12, 5, 4}, {D::Dim3D, 16, 8, 4, 3}, {D::Cube, 14, 14, 0, 4},
	{D::Cube, 8, 8, 2, 4},
};
// Whole textures.
void textures(mc::Ctx& ctx, std::size_t index)
{
	const Block& b = blocks()[index];
	const Shape& s = shapes[ctx.choose(sizeof(shapes)/sizeof(*shapes))];
	static const unsigned threads[] = {1, 2, 5, Texture::allCores};
	Config k;
	k.b = &b;
	k.threads = threads[ctx.choose(4)];
	convertAndVerify(ctx, k, s.dim, s.w, s.h, s.d, s.mips, positions(b));
}

// Sizes beyond one and two bytes.
void large(mc::Ctx& ctx, std::size_t index)
{
	const Block& b = blocks()[index];
	static const Shape big[] = {{D::Dim2D, 1027, 259, 0, 2}, {D::Dim2D, 65543, 3, 0, 1}, {D::Dim2D, 3, 65543, 0, 1},
		{D::Dim2D, 5, 3, 300, 1}};
	const Shape& s = big[ctx.choose(4)];
	Config k;
	k.b = &b;
	k.threads = ctx.choose(2) ? Texture::allCores : 1;
	convertAndVerify(ctx, k, s.dim, s.w, s.h, s.d, s.mips, positions(b));
}

// Sequences of conversions that share the ASTC contexts of earlier ones.
void contexts(mc::Ctx& ctx, std::size_t)
{
	struct Op { TF f; TT t; Q q; A a; ColorSpace cs; unsigned threads; };
	static const Op ops[] = {
		{TF::ASTC_4x4, TT::UNorm, Q::Lowest, A::Standard, ColorSpace::Linear, 1},
		{TF::ASTC_4x4, TT::UNorm, Q::Lowest, A::Standard, ColorSpace::sRGB, 3},
		{TF::ASTC_4x4, TT::UNorm, Q::Highest, A::Standard, ColorSpace::Linear, 3},
		{TF::ASTC_4x4, TT::UNorm, Q::Lowest, A::None, ColorSpace::Linear, 2},
		{TF::ASTC_4x4, TT::UFloat, Q::Lowest, A::Standard, ColorSpace::Linear, 2},
		{TF::ASTC_5x4, TT::UNorm, Q::Lowest, A::Standard, ColorSpace::Linear, 3},
		{TF::ASTC_5x5, TT::UNorm, Q::Lowest, A::Standard, ColorSpace::Linear, 1},
		{TF::ASTC_6x6, TT::UNorm, Q::Lowest, A::Standard, ColorSpace::Linear, 40},
	};
	unsigned depth = ctx.thorough() ? 4 : 3;
	std::string hist;
	for (unsigned i = 0; i < depth; ++i)
	{
		const Op& o = ops[ctx.choose(8)];
		Config k;
		for (const Block& b : blocks())
		{
			if (b.format == o.f && b.type == o.t)
				k.b = &b;
		}
		k.quality = o.q;
		k.alpha = o.a;
		k.cs = o.cs;
		k.threads = o.threads;
		ctx.note("%s", k.str().c_str());
		convertAndVerify(ctx, k, D::Dim2D, k.b->w*(o.threads > 8 ? 45 : 3), k.b->h*2, 0, 1, positions(*k.b), i == 0);
		int most = 4*int(std::max(std::thread::hardware_concurrency(), 1u));
		if (codec::openContexts < 0 || codec::openContexts > most)
			ctx.fail("contexts", "%s: %d astcenc contexts are kept", k.str().c_str(), codec::openContexts);
	}
}

// What each kind of conversion gives in a process that has converted nothing else.
const unsigned variants = 5*4*3*2;
struct Alone { std::uint64_t hash; bool done, misused; };
Alone* alone;

bool variant(Config& k, std::size_t block, unsigned v)
{
	k.b = &blocks()[block];
	k.quality = Q(v % 5);
	k.alpha = alphas[v/5 % 4];
	unsigned mask = v/20 % 3;
	k.mask = mask == 0 ? Texture::ColorMask() : mask == 1 ? Texture::ColorMask(true, true, true, false) :
		Texture::ColorMask(false, true, false, true);
	k.cs = v/60 ? ColorSpace::sRGB : ColorSpace::Linear;
	return k.cs == ColorSpace::Linear || k.b->srgb;
}

// An opaque block and one with transparent pixels.
std::uint64_t convertVariant(mc::Ctx& ctx, const Config& k)
{
	Source pos = positions(*k.b);
	Texture t = make(ctx, k.str(), D::Dim2D, k.b->w*2, k.b->h, 0, 1, k.cs, [&](unsigned s, unsigned x, unsigned y, float* px) {
		pos(s, x, y, px);
		px[3] = x >= k.b->w && (x + y) % 2 ? 0.25f : 1.0f;
	});
	begin();
	if (!t.convert(k.b->format, k.b->type, k.quality, k.alpha, k.mask, 1))
		ctx.fail(blockName(*k.b) + ":convert", "%s", k.str().c_str());
	return mc::hashBytes(t.data(), t.dataSize());
}

void convertAlone()
{
	std::size_t n = blocks().size()*variants;
	alone = static_cast<Alone*>(mmap(nullptr, n*sizeof(Alone), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	unsigned running = 0;
	for (std::size_t i = 0; i < n; ++i)
	{
		Config k;
		if (!variant(k, i/variants, unsigned(i % variants)))
			continue;
		if (running == 8)
		{
			wait(nullptr);
			--running;
		}
		pid_t pid = fork();
		if (pid < 0)
			continue;
		if (pid == 0)
		{
			mc::Ctx ctx;
			try
			{
				alone[i].hash = convertVariant(ctx, k);
				alone[i].misused = !misused.empty();
				alone[i].done = true;
			}
			catch (...)
			{
			}
			_exit(0);
		}
		++running;
	}
	while (running-- > 0)
		wait(nullptr);
}

// What a conversion gives does not depend on the ones before it.
void history(mc::Ctx& ctx, std::size_t index)
{
	unsigned v = ctx.choose(variants);
	Config k;
	if (!variant(k, index, v))
		return;
	const Alone& want = alone[index*variants + v];
	if (!want.done || want.misused)
	{
		ctx.fail(blockName(*k.b) + ":first", "%s as the first conversion of a process: %s", k.str().c_str(),
			want.done ? "an encoder is misused" : "not converted");
	}
	// Before: one with a single setting changed; one of another format; or, thoroughly, any of the same format.
	std::vector<std::pair<std::size_t, unsigned>> before;
	if (ctx.thorough())
	{
		for (unsigned o = 0; o < variants; ++o)
			before.push_back({index, o});
	}
	else
	{
		const unsigned steps[] = {1, 5, 20, 60}, counts[] = {5, 4, 3, 2};
		for (unsigned d = 0; d < 4; ++d)
		{
			unsigned at = v/steps[d] % counts[d];
			for (unsigned o = 0; o < counts[d]; ++o)
				if (o != at)
					before.push_back({index, v + (o - at)*steps[d]});
		}
	}
	if (v == 2 || ctx.thorough())
	{
		for (std::size_t b = 0; b < blocks().size(); ++b)
			before.push_back({b, v});
	}
	auto at = before[ctx.choose(unsigned(before.size()))];
	Config j;
	if (!variant(j, at.first, at.second))
		return;
	ctx.note("%s", j.str().c_str());
	convertVariant(ctx, j);
	ctx.note("%s", k.str().c_str());
	std::uint64_t have = convertVariant(ctx, k);
	ctx.step(2);
	ctx.state(mc::mix(mc::hashStr(j.str()), mc::hashStr(k.str())));
	if (!misused.empty())
		ctx.fail(blockName(*k.b) + ":misuse", "%s: %s", k.str().c_str(), misused.c_str());
	if (have != want.hash)
	{
		ctx.fail(blockName(*k.b) + ":history", "%s after %s: the blocks differ from those it gives on its own",
			k.str().c_str(), j.str().c_str());
	}
}

// The queries about compressed formats against what happens.
void queries(mc::Ctx& ctx, std::size_t index)
{
	int f = int(index);
	for (int t = 0; t < 6; ++t)
	{
		const Block* b = nullptr;
		bool any = false;
		for (const Block& e : blocks())
		{
			if (int(e.format) == f)
			{
				any = true;
				if (int(e.type) == t)
					b = &e;
			}
		}
		if (!any)
			return;
		std::string what = mc::fmt("format %d type %s", f, typeName(TT(t)));
		ctx.step();
		if (Texture::isFormatValid(TF(f), TT(t)) != (b != nullptr))
			ctx.fail("valid", "%s: isFormatValid", what.c_str());
		for (ColorSpace cs : {ColorSpace::Linear, ColorSpace::sRGB})
		{
			Texture tx(D::Dim2D, 7, 5, 0, 2, cs);
			for (unsigned m = 0; m < 2; ++m)
				tx.setImage(makeImage(tx.width(m), tx.height(m), cs, [](unsigned x, unsigned, float* p) {
					p[0] = p[1] = p[2] = p[3] = 0.1f*float(x); }), m);
			begin();
			bool ok = tx.convert(TF(f), TT(t));
			bool want = b && (cs == ColorSpace::Linear || b->srgb);
			if (ok != want || tx.converted() != want)
				ctx.fail("convert", "%s %s: convert gives %d", what.c_str(), cs == ColorSpace::sRGB ? "sRGB" : "linear", ok);
			if (cs == ColorSpace::sRGB && Texture::hasNativeSRGB(TF(f), TT(t)) != want)
				ctx.fail("srgb", "%s: hasNativeSRGB", what.c_str());
			if (!b)
				continue;
			if (Texture::blockWidth(TF(f)) != b->w || Texture::blockHeight(TF(f)) != b->h ||
				Texture::blockSize(TF(f)) != b->size || Texture::hasAlpha(TF(f)) != b->alpha)
			{
				ctx.fail("block", "%s: block size or alpha", what.c_str());
			}
			if (!ok)
				continue;
			for (int ft = 1; ft < 4; ++ft)
			{
				std::vector<std::uint8_t> out;
				auto r = tx.save(out, Texture::FileType(ft));
				bool v = Texture::isFormatValid(TF(f), TT(t), Texture::FileType(ft));
				if (v != (r == Texture::SaveResult::Success) || v == out.empty())
					ctx.fail("save", "%s: file type %d: valid %d, save gives %d", what.c_str(), ft, v, int(r));
			}
		}
	}
}

} // namespace

int main(int argc, char** argv)
{
	convertAlone();
	mc::Spec spec;
	spec.property = "C24";
	spec.rule = "53 block-compressed format/type pairs x: every size up to 2 (4) blocks and a remainder x threads x "
		"colour spaces; all 8-bit code boundaries and values beyond the range; qualities x alpha kinds x colour masks x "
		"colour spaces x transparency of each pixel of a block; whole textures of 9 shapes x threads; large sizes; every "
		"sequence of 3 (4) conversions over 8 kinds of ASTC contexts; "
		"every quality x alpha kind x 3 masks x colour space after one with any other value of one of them (after any other) "
		"and after every other format, against its result in a process of its own; every format x type for the queries";
	spec.assumptions = {"the encoders are stand-ins with the interfaces of squish, rgbcx, bc7enc, Compressonator, etc2comp, "
		"astc-encoder and PVRTexLib, which record what they are given: what the real ones make of it is not decided",
		"built without ISPC, as this sandbox has no ISPC compiler"};
	auto add = [&](const char* name, std::function<void(mc::Ctx&, std::size_t)> body, std::size_t n) {
		mc::Family f;
		f.name = name;
		f.body = body;
		f.cases = [n](bool) { return n; };
		spec.families.push_back(f);
	};
	std::size_t n = blocks().size();
	add("queries", queries, std::size_t(TF::PVRTC2_RGBA_4BPP) + 1);
	add("sizes", sizes, n);
	add("values", values, n);
	add("options", options, n);
	add("quality", quality, n);
	add("history", history, n);
	add("textures", textures, n);
	add("contexts", contexts, 1);
	add("large", large, n);
	return mc::run(argc, argv, spec);
}
