// Independent description of the image pixel formats and helpers shared by the image checks.
#pragma once
#include <cuttlefish/Image.h>
#include <cuttlefish/Color.h>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include "mc.h"

namespace img
{
using cuttlefish::Image;
using cuttlefish::ColorSpace;
using cuttlefish::ColorRGBAd;
typedef Image::Format IF;

enum Kind { Norm, Flt, Int, UInt };
struct Ch { int ch; int bits; int shift; };
struct Desc
{
	IF format;
	const char* name;
	int bytes;
	Kind kind;
	bool gray;   // takes the luminance
	std::vector<Ch> chans;
	bool alpha() const { return chans.size() == 4; }
	// One channel whose value shows in red, green and blue.
	bool single() const { return chans.size() == 1; }
};

inline const std::vector<Desc>& formats()
{
	static const std::vector<Desc> l = {
		{IF::Gray8, "Gray8", 1, Norm, true, {{0, 8, 0}}},
		{IF::Gray16, "Gray16", 2, Norm, true, {{0, 16, 0}}},
		{IF::RGB5, "RGB5", 2, Norm, false, {{0, 5, 10}, {1, 5, 5}, {2, 5, 0}}},
		{IF::RGB565, "RGB565", 2, Norm, false, {{0, 5, 11}, {1, 6, 5}, {2, 5, 0}}},
		{IF::RGB8, "RGB8", 3, Norm, false, {{0, 8, 16}, {1, 8, 8}, {2, 8, 0}}},
		{IF::RGB16, "RGB16", 6, Norm, false, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}}},
		{IF::RGBF, "RGBF", 12, Flt, false, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}}},
		{IF::RGBA8, "RGBA8", 4, Norm, false, {{0, 8, 16}, {1, 8, 8}, {2, 8, 0}, {3, 8, 24}}},
		{IF::RGBA16, "RGBA16", 8, Norm, false, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}, {3, 16, 48}}},
		{IF::RGBAF, "RGBAF", 16, Flt, false, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}, {3, 32, 96}}},
		{IF::Int16, "Int16", 2, Int, false, {{0, 16, 0}}},
		{IF::UInt16, "UInt16", 2, UInt, false, {{0, 16, 0}}},
		{IF::Int32, "Int32", 4, Int, false, {{0, 32, 0}}},
		{IF::UInt32, "UInt32", 4, UInt, false, {{0, 32, 0}}},
		{IF::Float, "Float", 4, Flt, true, {{0, 32, 0}}},
		{IF::Double, "Double", 8, Flt, true, {{0, 64, 0}}},
		{IF::Complex, "Complex", 16, Flt, false, {{0, 64, 0}, {1, 64, 64}}},
	};
	return l;
}

inline const Desc* find(IF f)
{
	for (const Desc& d : formats())
	{
		if (d.format == f)
			return &d;
	}
	return nullptr;
}

inline std::uint64_t raw(const Desc& d, const unsigned char* p, const Ch& c)
{
	std::uint64_t v = 0;
	if (c.shift % 8 == 0 && c.bits % 8 == 0)
		memcpy(&v, p + c.shift/8, std::size_t(c.bits/8));
	else
	{
		memcpy(&v, p, std::size_t(d.bytes));
		v = (v >> c.shift) & ((1ULL << c.bits) - 1);
	}
	return v;
}

inline void putRaw(const Desc& d, unsigned char* p, const Ch& c, std::uint64_t v)
{
	if (c.shift % 8 == 0 && c.bits % 8 == 0)
		memcpy(p + c.shift/8, &v, std::size_t(c.bits/8));
	else
	{
		std::uint64_t w = 0;
		memcpy(&w, p, std::size_t(d.bytes));
		std::uint64_t m = ((1ULL << c.bits) - 1) << c.shift;
		w = (w & ~m) | ((v << c.shift) & m);
		memcpy(p, &w, std::size_t(d.bytes));
	}
}

inline double decode(const Desc& d, const Ch& c, std::uint64_t v)
{
	switch (d.kind)
	{
		case Norm:
			return double(v)/(std::ldexp(1.0, c.bits) - 1);
		case UInt:
			return double(v);
		case Int:
			return c.bits == 16 ? double(std::int16_t(v)) : double(std::int32_t(v));
		default:
		{
			if (c.bits == 32)
			{
				float f;
				std::uint32_t u = std::uint32_t(v);
				memcpy(&f, &u, 4);
				return f;
			}
			double r;
			memcpy(&r, &v, 8);
			return r;
		}
	}
}

struct Px
{
	double c[4];
	double& operator[](int i) { return c[i]; }
	double operator[](int i) const { return c[i]; }
};

inline ColorRGBAd color(const Px& p) { return ColorRGBAd(p[0], p[1], p[2], p[3]); }
inline Px px(const ColorRGBAd& c) { return Px{{c.r, c.g, c.b, c.a}}; }

inline Px decodePixel(const Desc& d, const unsigned char* p)
{
	Px o{{0, 0, 0, 1}};
	for (const Ch& c : d.chans)
		o[c.ch] = decode(d, c, raw(d, p, c));
	if (d.single())
		o[1] = o[2] = o[0];
	return o;
}

inline const unsigned char* at(const Desc& d, const Image& i, unsigned x, unsigned y)
{
	return static_cast<const unsigned char*>(i.scanline(y)) + std::size_t(x)*unsigned(d.bytes);
}
inline unsigned char* at(const Desc& d, Image& i, unsigned x, unsigned y)
{
	return static_cast<unsigned char*>(i.scanline(y)) + std::size_t(x)*unsigned(d.bytes);
}
// Reads a pixel without using the library's accessors.
inline Px read(const Desc& d, const Image& i, unsigned x, unsigned y)
{
	return decodePixel(d, at(d, i, x, y));
}

// Saturation to the range of the format.
inline double saturate(const Desc& d, const Ch& c, double v)
{
	switch (d.kind)
	{
		case Norm:
			return std::min(std::max(v, 0.0), 1.0);
		case UInt:
			return std::min(std::max(v, 0.0), std::ldexp(1.0, c.bits) - 1);
		case Int:
			return std::min(std::max(v, -std::ldexp(1.0, c.bits - 1)), std::ldexp(1.0, c.bits - 1) - 1);
		default:
			return c.bits == 32 ? double(float(v)) : v;
	}
}

// Distance between neighbouring values of the format around v.
inline double stepSize(const Desc& d, const Ch& c, double v)
{
	switch (d.kind)
	{
		case Norm:
			return 1/(std::ldexp(1.0, c.bits) - 1);
		case UInt:
		case Int:
			return 1;
		default:
			if (std::isinf(v))
				return 0;
			return c.bits == 32 ? std::max(std::fabs(v), 1e-38)*1.2e-7 : std::fabs(v)*2.3e-16;
	}
}

// Writes the nearest representable pixel directly.
inline void write(const Desc& d, unsigned char* p, const Px& v)
{
	for (const Ch& c : d.chans)
	{
		double s = saturate(d, c, v[c.ch]);
		std::uint64_t r = 0;
		switch (d.kind)
		{
			case Norm:
				r = std::uint64_t(std::llround(s*(std::ldexp(1.0, c.bits) - 1)));
				break;
			case UInt:
			case Int:
				r = std::uint64_t(std::llround(s));
				break;
			default:
				if (c.bits == 32)
				{
					float f = float(v[c.ch]);
					std::uint32_t u;
					memcpy(&u, &f, 4);
					r = u;
				}
				else
					memcpy(&r, &v.c[c.ch], 8);
		}
		putRaw(d, p, c, r);
	}
}

// Fills an image through its scanlines only.
template <typename Fn>
inline Image make(const Desc& d, unsigned w, unsigned h, ColorSpace cs, Fn fn)
{
	Image i(d.format, w, h, cs);
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
			write(d, at(d, i, x, y), fn(x, y));
	}
	return i;
}

inline std::vector<unsigned char> bytes(const Desc& d, const Image& i)
{
	std::vector<unsigned char> v;
	for (unsigned y = 0; y < i.height(); ++y)
	{
		const unsigned char* p = static_cast<const unsigned char*>(i.scanline(y));
		v.insert(v.end(), p, p + std::size_t(i.width())*unsigned(d.bytes));
	}
	return v;
}

inline double toLinear(double c) { return c <= 0.04045 ? c/12.92 : std::pow((c + 0.055)/1.055, 2.4); }
inline double toSRGB(double c)
{
	return c <= 0.0031308 ? c*12.92 : 1.055*std::pow(c, 1/2.4) - 0.055;
}
inline double lum(double r, double g, double b) { return 0.2126*r + 0.7152*g + 0.0722*b; }
inline double luminance(const Px& p, ColorSpace cs)
{
	if (cs == ColorSpace::Linear)
		return lum(p[0], p[1], p[2]);
	return toSRGB(lum(toLinear(p[0]), toLinear(p[1]), toLinear(p[2])));
}
inline const char* csName(ColorSpace cs) { return cs == ColorSpace::Linear ? "linear" : "sRGB"; }

// Checks size, format and colour space.
inline void shape(mc::Ctx& ctx, const Image& i, IF f, unsigned w, unsigned h, ColorSpace cs,
	const std::string& what)
{
	if (!i.isValid() || i.width() != w || i.height() != h || i.format() != f || i.colorSpace() != cs)
		ctx.fail("shape", "%s: got a %s %ux%u image, format %d, %s", what.c_str(),
			i.isValid() ? "valid" : "invalid", i.width(), i.height(), int(i.format()),
			csName(i.colorSpace()));
	for (unsigned y = 0; y < h; ++y)
	{
		if (!i.scanline(y))
			ctx.fail("scanline", "%s: no scanline %u", what.c_str(), y);
	}
	if (i.scanline(h) || i.scanline(~0u))
		ctx.fail("scanline-outside", "%s", what.c_str());
	if (const Desc* d = find(f))
	{
		if (i.bitsPerPixel() != unsigned(d->bytes)*8)
			ctx.fail("bitsPerPixel", "%s: %u", what.c_str(), i.bitsPerPixel());
	}
}

inline std::string str(const Px& p)
{
	return mc::fmt("(%.9g %.9g %.9g %.9g)", p[0], p[1], p[2], p[3]);
}

// A set of interesting pixel values, distinct in every channel.
inline std::vector<double> lattice(const Desc& d, bool thorough)
{
	std::vector<double> v;
	switch (d.kind)
	{
		case Norm:
			for (double x : {0.0, 1.0, 0.5, 0.25, 0.75, 0.04, 0.0404, 0.0405, 0.0031308, 0.2, 0.9, 0.33})
				v.push_back(x);
			if (thorough)
			{
				for (int i = 0; i <= 64; ++i)
					v.push_back(i/64.0);
			}
			break;
		case UInt:
		case Int:
			for (double x : {0.0, 1.0, 2.0, 255.0, 256.0, 300.0, 32767.0, 32768.0, 65535.0, 65536.0,
				2147483647.0, 2147483648.0, 4294967295.0})
				v.push_back(x);
			if (d.kind == Int)
			{
				for (double x : {-1.0, -2.0, -300.0, -32768.0, -2147483648.0})
					v.push_back(x);
			}
			break;
		default:
			for (double x : {0.0, 1.0, 0.5, 0.25, 0.75, 0.04, 0.0405, 0.0031308, 0.2, 0.9, 2.0, 100.0,
				65535.0, 1e6, -0.5, -1.0, -70000.0, 1e-5, 3.5})
				v.push_back(x);
			if (d.chans[0].bits == 64)
			{
				v.push_back(0.1234567890123);
				v.push_back(5e9);
			}
	}
	return v;
}

// Colours in an order in which every ordered pair of them is adjacent, including colours that differ in
// a single channel only, so that no pixel can take anything from the one before unnoticed.
inline std::vector<Px> neighbours(const Desc& d)
{
	std::vector<double> v;
	if (d.single())
		v = lattice(d, false);
	else if (d.kind == Norm)
		v = {0.25, 0.75, 1.0};
	else
		v = {0.25, 0.75, 2.0, -1.0, 70000.0};
	std::size_t levels = d.single() ? v.size() : d.chans.size() == 2 ? 5 : d.chans.size() == 3 ? 3 : 2;
	std::size_t colors = 1;
	for (std::size_t c = 0; c < d.chans.size(); ++c)
		colors *= levels;
	auto one = [&](std::size_t k) {
		Px p{{0, 0, 0, 1}};
		for (std::size_t c = 0; c < d.chans.size(); ++c, k /= levels)
			p[d.chans[c].ch] = v[k % levels];
		if (d.single())
			p[1] = p[2] = p[0];
		return p;
	};
	std::vector<Px> out;
	for (std::size_t i = 0; i < colors; ++i)
	{
		out.push_back(one(i));
		for (std::size_t j = i + 1; j < colors; ++j)
		{
			out.push_back(one(i));
			out.push_back(one(j));
		}
	}
	return out;
}
// The colours above in one row, in one column, or in rows of seven.
inline Image neighbourImage(const Desc& d, ColorSpace cs, unsigned layout)
{
	std::vector<Px> p = neighbours(d);
	unsigned n = unsigned(p.size()), w = layout == 0 ? n : layout == 1 ? 1 : 7;
	return make(d, w, (n + w - 1)/w, cs, [&](unsigned x, unsigned y) { return p[(x + y*w) % n]; });
}

// Sizes above what fits into bytes, pages and 16 bits.
struct Large { unsigned w, h; };
const Large large[] = {{257, 259}, {4099, 3}, {3, 4099}, {65539, 1}, {1, 65539}, {1025, 66}};
const std::size_t largeCount = sizeof(large)/sizeof(*large);
} // namespace img
