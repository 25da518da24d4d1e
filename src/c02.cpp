// C02: every texel of every uncompressed format is the nearest representable value of its source
// pixel, in the format's channel order, saturated to its range, whatever its neighbours are.
#include "tex.h"
#include "img.h"
#include <memory>
using namespace tex;

namespace
{

std::vector<float> g_values; // the value lattice

float bitsToFloat(std::uint32_t b)
{
	float f;
	memcpy(&f, &b, 4);
	return f;
}

void addAround(std::vector<float>& v, double x)
{
	float f = float(x);
	float lo = std::nextafter(f, -INFINITY), hi = std::nextafter(f, INFINITY);
	v.push_back(std::nextafter(lo, -INFINITY));
	v.push_back(lo);
	v.push_back(f);
	v.push_back(hi);
	v.push_back(std::nextafter(hi, INFINITY));
}

// All values at which the correct code of the format changes, with their float neighbours.
std::vector<float> boundaries(int bits, TT type)
{
	std::vector<float> v;
	double maxv = std::ldexp(1.0, bits) - 1, smax = std::ldexp(1.0, bits - 1) - 1;
	int n = bits <= 16 ? 1 << bits : 1 << 16;
	switch (type)
	{
		case TT::UNorm:
			for (int i = 0; i < n; ++i)
				addAround(v, (i + 0.5)/maxv);
			break;
		case TT::SNorm:
			for (int i = 0; i < n; ++i)
				addAround(v, (i - n/2 + 0.5)/smax);
			break;
		case TT::UInt:
		case TT::Int:
			for (int i = 0; i < n; ++i)
			{
				addAround(v, (i - n/2) + 0.5);
				addAround(v, i + 0.5);
				v.push_back(float(i - n/2));
				v.push_back(float(i));
			}
			for (int e = 15; e <= 40; ++e)
			{
				addAround(v, std::ldexp(1.0, e));
				addAround(v, -std::ldexp(1.0, e));
				addAround(v, std::ldexp(3.0, e));
			}
			break;
		case TT::Float:
			if (bits == 16)
			{
				for (int h = 0; h < 0x7C00; ++h)
				{
					double mid = h == 0x7BFF ? 65520.0 : (halfToDouble(h) + halfToDouble(h + 1))/2;
					addAround(v, mid);
					addAround(v, -mid);
					v.push_back(float(halfToDouble(h)));
				}
			}
			break;
		case TT::UFloat:
			for (int h = 0; h < 0x7C0; ++h)
			{
				addAround(v, ufloatToDouble(h, 6));
				addAround(v, -ufloatToDouble(h, 6));
				if (h < 0x3E0)
					addAround(v, ufloatToDouble(h, 5));
			}
			for (int e = -20; e <= 20; ++e)
			{
				for (int m = 256; m < 512; ++m)
				{
					addAround(v, std::ldexp(m + 0.5, e - 9));
					addAround(v, std::ldexp(double(m), e - 9));
				}
			}
			break;
	}
	return v;
}

void checkImage(mc::Ctx& ctx, const Pair& p, const Image& img, const Texture& t,
	std::uint64_t* codes)
{
	const Desc& d = *p.d;
	unsigned w = img.width(), h = img.height();
	const unsigned char* data = static_cast<const unsigned char*>(t.data());
	if (!data || t.dataSize() != std::size_t(w)*h*d.bytes)
	{
		ctx.fail(mc::fmt("%s-%s:size", d.name, typeName(p.type)), "%ux%u: data size %zu", w, h,
			t.dataSize());
	}
	for (unsigned y = 0; y < h; ++y)
	{
		const float* src = static_cast<const float*>(img.scanline(y));
		for (unsigned x = 0; x < w; ++x)
		{
			const unsigned char* tx = data + (std::size_t(y)*w + x)*d.bytes;
			const float* s = src + 4*x;
			if (d.kind == E5999)
			{
				std::uint32_t word;
				memcpy(&word, tx, 4);
				if (const char* what = checkE5(word, s))
				{
					ctx.fail(mc::fmt("%s:%s", d.name, what),
						"%ux%u pixel (%u,%u): (%.9g, %.9g, %.9g) -> 0x%08x", w, h, x, y, s[0], s[1],
						s[2], word);
				}
				if (codes)
					codes[(word >> 20) & 1023] |= 1;
				continue;
			}
			std::uint64_t used[2] = {0, 0};
			for (const Chan& c : d.chans)
			{
				std::uint64_t raw = rawBits(tx, c);
				if (const char* what = checkChannel(d, p.type, c, raw, s[c.ch]))
				{
					ctx.fail(mc::fmt("%s-%s:%s", d.name, typeName(p.type), what),
						"%ux%u pixel (%u,%u) channel %c: %.9g -> code 0x%llx", w, h, x, y,
						"rgba"[c.ch], double(s[c.ch]), (unsigned long long)raw);
				}
				if (codes)
					codes[(c.ch*256 + (c.bits > 8 ? raw >> (c.bits - 8) : raw)) & 1023] |= 1;
				(void)used;
			}
		}
	}
	ctx.step(std::uint64_t(w)*h);
}

void encode(mc::Ctx& ctx, const Pair& p, const Image& img, Texture& t, unsigned threads)
{
	if (!t.initialize(Texture::Dimension::Dim2D, img.width(), img.height()))
		ctx.fail("initialize", "%ux%u", img.width(), img.height());
	if (!t.setImage(img))
		ctx.fail("setImage", "%ux%u", img.width(), img.height());
	if (!t.convert(p.d->format, p.type, Texture::Quality::Normal, Texture::Alpha::Standard,
		Texture::ColorMask(), threads))
	{
		ctx.fail(mc::fmt("%s-%s:convert", p.d->name, typeName(p.type)), "convert failed");
	}
}

void checkValues(mc::Ctx& ctx, const Pair& p, const std::vector<float>& values, int rot)
{
	unsigned w = 1021;
	unsigned n = unsigned(values.size());
	unsigned h = (n + w - 1)/w;
	// Channel c of pixel i is value i shifted by a per-channel stride, so that each channel sees
	// every value and its neighbours see other ones.
	std::size_t stride = rot ? n/5 + 1 : 0;
	Image img = makeImage(w, h, ColorSpace::Linear, [&](unsigned x, unsigned y, float* px)
	{
		std::size_t i = std::size_t(y)*w + x;
		for (int c = 0; c < 4; ++c)
			px[c] = values[(i + c*stride) % n];
	});
	Texture t;
	encode(ctx, p, img, t, 1);
	std::uint64_t codes[1024] = {};
	checkImage(ctx, p, img, t, codes);
	std::uint64_t base = mc::mix(std::uint64_t(p.d->format)*8 + unsigned(p.type), 77);
	for (int i = 0; i < 1024; ++i)
	{
		if (codes[i])
			ctx.state(mc::mix(base, i));
	}
	if (ctx.wantSample())
	{
		ctx.sample(mc::fmt("%s %s: %ux%u texels, source values %.9g, %.9g, %.9g, ...", p.d->name,
			typeName(p.type), w, h, values[0], values[n/3], values[n/2]));
	}
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C02";
	spec.rule = "for every valid format and type: every float with the low 12 mantissa bits clear, "
		"every value where the correct code changes with its two float neighbours on each side, "
		"(thorough: all 2^32 floats), and every image size w in 1..67, h in 1..4; every ordered pair of neighbouring colours, with every quality, kind of alpha, colour mask and colour space; 7 sizes up to 65539 on 1, 3, 7 and all cores; each "
		"encoded texel is compared with an independent per-format oracle. States are distinct "
		"(format, type, channel, top 8 code bits) outputs and sizes; transitions are texels "
		"compared.";
	spec.assumptions = {"little-endian host", "no value is prescribed for NaN in integer formats",
		"either neighbour is accepted within 1.2e-7 of a rounding tie"};
	const auto& P = pairs();
	spec.families.push_back({"lattice", [&](bool) { return P.size()*2; },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			if (g_values.empty())
			{
				for (std::uint32_t b = 0; b < (1u << 20); ++b)
					g_values.push_back(bitsToFloat(b << 12));
			}
			checkValues(ctx, P[i/2], g_values, int(i%2));
		}});
	spec.families.push_back({"boundaries", [&](bool) { return P.size()*2; },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			const Pair& p = P[i/2];
			std::vector<float> v;
			std::vector<int> done;
			for (const Chan& c : p.d->chans)
			{
				if (std::find(done.begin(), done.end(), c.bits) != done.end())
					continue;
				done.push_back(c.bits);
				std::vector<float> b = boundaries(c.bits, p.type);
				v.insert(v.end(), b.begin(), b.end());
			}
			for (double e : {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e30, -1e30, 3e38, -3e38, 1e-40})
				v.push_back(float(e));
			v.push_back(INFINITY);
			v.push_back(-INFINITY);
			checkValues(ctx, p, v, int(i%2));
		}});
	// Small formats: every combination of codes of up to 16 bits, so that no channel disturbs
	// another one.
	spec.families.push_back({"codes", [&](bool) { return P.size(); },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			const Pair& p = P[i];
			if (p.d->kind != Plain || p.d->bytes > 2 || p.type == TT::Float)
				return;
			int bits = p.d->bytes*8;
			unsigned n = 1u << bits, w = n >= 65536 ? 257 : 16, h = (n + w - 1)/w;
			Image img = makeImage(w, h, ColorSpace::Linear, [&](unsigned x, unsigned y, float* px)
			{
				unsigned code = (y*w + x) & (n - 1);
				px[0] = px[1] = px[2] = px[3] = 0.25f;
				unsigned char b[16] = {std::uint8_t(code), std::uint8_t(code >> 8)};
				for (const Chan& c : p.d->chans)
				{
					double raw = double(rawBits(b, c));
					double maxv = std::ldexp(1.0, c.bits) - 1, smax = std::ldexp(1.0, c.bits - 1);
					double s = raw >= smax ? raw - 2*smax : raw;
					px[c.ch] = float(p.type == TT::UNorm ? raw/maxv : p.type == TT::UInt ? raw :
						p.type == TT::Int ? s : std::max(-1.0, s/(smax - 1)));
				}
			});
			Texture t;
			encode(ctx, p, img, t, 1);
			checkImage(ctx, p, img, t, nullptr);
			if (p.type == TT::SNorm)
				return;
			// The round trip is exact.
			const unsigned char* data = static_cast<const unsigned char*>(t.data());
			for (unsigned k = 0; k < n; ++k)
			{
				unsigned got = data[k*p.d->bytes] | (p.d->bytes > 1 ? data[k*2 + 1] << 8 : 0);
				if (got != k)
				{
					ctx.fail(mc::fmt("%s-%s:code-roundtrip", p.d->name, typeName(p.type)),
						"code 0x%x came back as 0x%x", k, got);
				}
			}
		}});
	spec.families.push_back({"sizes", [&](bool thorough) { return P.size()*(thorough ? 200 : 67); },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			const Pair& p = P[i % P.size()];
			unsigned w = unsigned(i/P.size()) + 1;
			for (unsigned h = 1; h <= 4; ++h)
			{
				Image img = makeImage(w, h, ColorSpace::Linear,
					[&](unsigned x, unsigned y, float* px)
				{
					// Distinct codes in every format for neighbouring pixels.
					unsigned k = y*w + x;
					for (int c = 0; c < 4; ++c)
					{
						double u = ((k*(7 + 2*c) + c*3) % 16)/15.0;
						px[c] = float(p.type == TT::UNorm || p.type == TT::UFloat ||
							p.type == TT::Float ? u : p.type == TT::SNorm ? u*2 - 1 : u*127);
					}
				});
				Texture t;
				encode(ctx, p, img, t, 1);
				checkImage(ctx, p, img, t, nullptr);
				ctx.state(mc::mix(mc::mix(unsigned(p.d->format)*8 + unsigned(p.type), w), h));
			}
		}});
	// Every ordered pair of neighbouring colours, so that no texel takes anything from the one before.
	spec.families.push_back({"neighbours", [&](bool) { return P.size()*3; },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			const Pair& p = P[i/3];
			Image img = img::neighbourImage(*img::find(img::IF::RGBAF), ColorSpace::Linear, unsigned(i % 3));
			if (ctx.choose(2))
			{
				// Two integers instead of 0.25 and 0.75.
				for (unsigned y = 0; y < img.height(); ++y)
				{
					float* f = static_cast<float*>(img.scanline(y));
					for (unsigned x = 0; x < img.width()*4; ++x)
						f[x] = f[x] < 0.5f ? 1.0f : 6.0f;
				}
			}
			Texture t;
			encode(ctx, p, img, t, 1);
			checkImage(ctx, p, img, t, nullptr);
			ctx.state(mc::mix(i, 1234));
		}});
	// The quality, kind of alpha, colour mask and colour space are about compression and meaning: they
	// don't change uncompressed texels.
	spec.families.push_back({"options", [&](bool) { return P.size()*2; },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			const Pair& p = P[i/2];
			ColorSpace cs = i % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
			if (cs == ColorSpace::sRGB && !Texture::hasNativeSRGB(p.d->format, p.type))
				return;
			unsigned quality = ctx.choose(5), alpha = ctx.choose(4), mask = ctx.choose(16);
			Image img = img::neighbourImage(*img::find(img::IF::RGBAF), cs, 2);
			Texture t(Texture::Dimension::Dim2D, img.width(), img.height(), 0, 1, cs);
			if (!t.setImage(img) || !t.convert(p.d->format, p.type, Texture::Quality(quality),
				Texture::Alpha(alpha), Texture::ColorMask(mask & 1, mask & 2, mask & 4, mask & 8), 1))
			{
				ctx.fail(mc::fmt("%s-%s:convert", p.d->name, typeName(p.type)),
					"quality %u, alpha %u, mask %u: convert failed", quality, alpha, mask);
			}
			checkImage(ctx, p, img, t, nullptr);
			ctx.state(mc::mix(i, 5000 + (quality*4 + alpha)*16 + mask));
		}});
	// Sizes beyond one and two bytes, and beyond one batch of work, on one and several threads.
	static const struct { unsigned w, h; } large[] = {{257, 259}, {4099, 3}, {3, 4099}, {65539, 1}, {1, 65539},
		{1025, 66}, {127, 1000}, {1031, 1033}};
	const std::size_t largeCount = sizeof(large)/sizeof(*large);
	spec.families.push_back({"large", [&](bool) { return P.size()*largeCount; },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			const Pair& p = P[i/largeCount];
			auto z = large[i % largeCount];
			Image img = makeImage(z.w, z.h, ColorSpace::Linear, [&](unsigned x, unsigned y, float* px)
			{
				std::uint64_t k = mc::mix(x, y);
				for (int c = 0; c < 4; ++c)
				{
					double u = double((k >> (c*16)) & 0xFFFF)/65535.0;
					px[c] = float(p.type == TT::UNorm || p.type == TT::UFloat || p.type == TT::Float ? u :
						p.type == TT::SNorm ? u*2 - 1 : std::floor(u*127));
				}
			});
			static const unsigned threads[] = {1, 100, 3, Texture::allCores};
			Texture t;
			encode(ctx, p, img, t, threads[ctx.choose(z.w*z.h > 200000 ? 2 : 4)]);
			checkImage(ctx, p, img, t, nullptr);
			ctx.state(mc::mix(mc::mix(i, 99), unsigned(p.type)));
		}});
	// Every float, for one four-channel format of each element type (thorough).
	static const std::vector<std::pair<TF, TT>> deep = {
		{TF::R8G8B8A8, TT::UNorm}, {TF::R8G8B8A8, TT::SNorm}, {TF::R8G8B8A8, TT::UInt},
		{TF::R8G8B8A8, TT::Int}, {TF::B8G8R8A8, TT::UNorm}, {TF::A8B8G8R8, TT::UNorm},
		{TF::R16G16B16A16, TT::UNorm}, {TF::R16G16B16A16, TT::SNorm}, {TF::R16G16B16A16, TT::UInt},
		{TF::R16G16B16A16, TT::Int}, {TF::R16G16B16A16, TT::Float}, {TF::R32G32B32A32, TT::UInt},
		{TF::R32G32B32A32, TT::Int}, {TF::R32G32B32A32, TT::Float}, {TF::R4G4B4A4, TT::UNorm},
		{TF::A4R4G4B4, TT::UNorm}, {TF::B4G4R4A4, TT::UNorm}, {TF::R5G5B5A1, TT::UNorm},
		{TF::A2R10G10B10, TT::UNorm}, {TF::A2R10G10B10, TT::UInt}, {TF::A2B10G10R10, TT::UNorm},
		{TF::A2B10G10R10, TT::UInt}, {TF::B10G11R11_UFloat, TT::UFloat},
		{TF::E5B9G9R9_UFloat, TT::UFloat}};
	spec.families.push_back({"all-floats",
		[](bool thorough) { return thorough ? deep.size()*256 : std::size_t(0); },
		[&](mc::Ctx& ctx, std::size_t i)
		{
			const Pair* p = nullptr;
			for (const Pair& q : P)
			{
				if (q.d->format == deep[i/256].first && q.type == deep[i/256].second)
					p = &q;
			}
			std::uint32_t base = std::uint32_t(i % 256) << 24;
			// 2^24 floats: channel c of pixel k is float base + 4k + ((c + k) mod 4), so that
			// every float appears exactly once; formats without alpha get a second pass.
			int passes = p->d->chans.size() == 4 ? 1 : 2;
			for (int pass = 0; pass < passes; ++pass)
			{
				Image img = makeImage(2048, 2048, ColorSpace::Linear,
					[&](unsigned x, unsigned y, float* px)
				{
					std::uint32_t k = y*2048 + x;
					for (unsigned c = 0; c < 4; ++c)
						px[c] = bitsToFloat(base + 4*k + ((c + k + 2*pass) & 3));
				});
				Texture t;
				encode(ctx, *p, img, t, 1);
				checkImage(ctx, *p, img, t, nullptr);
				ctx.state(mc::mix(i, 4242 + pass));
			}
		}});
	return mc::run(argc, argv, spec);
}
