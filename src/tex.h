// Independent description of the texture formats, used as the oracle by the checks.
#pragma once
#include <cuttlefish/Texture.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include "mc.h"

namespace tex
{
using cuttlefish::Image;
using cuttlefish::Texture;
using cuttlefish::ColorSpace;
using cuttlefish::ColorRGBAf;
using cuttlefish::ColorRGBAd;
typedef Texture::Format TF;
typedef Texture::Type TT;

// Layout: for packed words, (channel, bits, shift) in a little-endian word of 'bytes' bytes; for
// arrays, the shift is 8*byte offset. Channels: 0 r, 1 g, 2 b, 3 a.
struct Chan { int ch; int bits; int shift; };
enum Kind { Plain, UF111110, E5999 };
struct Desc
{
	TF format;
	const char* name;
	int bytes;
	Kind kind;
	std::vector<Chan> chans;
	std::vector<TT> types; // every valid type
	bool hasAlpha;
};

inline const std::vector<Desc>& formats()
{
	static std::vector<Desc> list = [] {
		std::vector<Desc> l;
		std::vector<TT> u{TT::UNorm};
		std::vector<TT> usui{TT::UNorm, TT::SNorm, TT::UInt, TT::Int};
		std::vector<TT> all16{TT::UNorm, TT::SNorm, TT::UInt, TT::Int, TT::Float};
		std::vector<TT> all32{TT::UInt, TT::Int, TT::Float};
		std::vector<TT> uui{TT::UNorm, TT::UInt};
		l.push_back({TF::R4G4, "R4G4", 1, Plain, {{0, 4, 4}, {1, 4, 0}}, u, false});
		l.push_back({TF::R4G4B4A4, "R4G4B4A4", 2, Plain,
			{{0, 4, 12}, {1, 4, 8}, {2, 4, 4}, {3, 4, 0}}, u, true});
		l.push_back({TF::B4G4R4A4, "B4G4R4A4", 2, Plain,
			{{2, 4, 12}, {1, 4, 8}, {0, 4, 4}, {3, 4, 0}}, u, true});
		l.push_back({TF::A4R4G4B4, "A4R4G4B4", 2, Plain,
			{{3, 4, 12}, {0, 4, 8}, {1, 4, 4}, {2, 4, 0}}, u, true});
		l.push_back({TF::R5G6B5, "R5G6B5", 2, Plain, {{0, 5, 11}, {1, 6, 5}, {2, 5, 0}}, u, false});
		l.push_back({TF::B5G6R5, "B5G6R5", 2, Plain, {{2, 5, 11}, {1, 6, 5}, {0, 5, 0}}, u, false});
		l.push_back({TF::R5G5B5A1, "R5G5B5A1", 2, Plain,
			{{0, 5, 11}, {1, 5, 6}, {2, 5, 1}, {3, 1, 0}}, u, true});
		l.push_back({TF::B5G5R5A1, "B5G5R5A1", 2, Plain,
			{{2, 5, 11}, {1, 5, 6}, {0, 5, 1}, {3, 1, 0}}, u, true});
		l.push_back({TF::A1R5G5B5, "A1R5G5B5", 2, Plain,
			{{3, 1, 15}, {0, 5, 10}, {1, 5, 5}, {2, 5, 0}}, u, true});
		l.push_back({TF::R8, "R8", 1, Plain, {{0, 8, 0}}, usui, false});
		l.push_back({TF::R8G8, "R8G8", 2, Plain, {{0, 8, 0}, {1, 8, 8}}, usui, false});
		l.push_back({TF::R8G8B8, "R8G8B8", 3, Plain, {{0, 8, 0}, {1, 8, 8}, {2, 8, 16}}, usui,
			false});
		l.push_back({TF::B8G8R8, "B8G8R8", 3, Plain, {{2, 8, 0}, {1, 8, 8}, {0, 8, 16}}, u, false});
		l.push_back({TF::R8G8B8A8, "R8G8B8A8", 4, Plain,
			{{0, 8, 0}, {1, 8, 8}, {2, 8, 16}, {3, 8, 24}}, usui, true});
		l.push_back({TF::B8G8R8A8, "B8G8R8A8", 4, Plain,
			{{2, 8, 0}, {1, 8, 8}, {0, 8, 16}, {3, 8, 24}}, u, true});
		l.push_back({TF::A8B8G8R8, "A8B8G8R8", 4, Plain,
			{{3, 8, 0}, {2, 8, 8}, {1, 8, 16}, {0, 8, 24}}, u, true});
		l.push_back({TF::A2R10G10B10, "A2R10G10B10", 4, Plain,
			{{3, 2, 30}, {0, 10, 20}, {1, 10, 10}, {2, 10, 0}}, uui, true});
		l.push_back({TF::A2B10G10R10, "A2B10G10R10", 4, Plain,
			{{3, 2, 30}, {2, 10, 20}, {1, 10, 10}, {0, 10, 0}}, uui, true});
		const TF f16[] = {TF::R16, TF::R16G16, TF::R16G16B16, TF::R16G16B16A16};
		const char* n16[] = {"R16", "R16G16", "R16G16B16", "R16G16B16A16"};
		const TF f32[] = {TF::R32, TF::R32G32, TF::R32G32B32, TF::R32G32B32A32};
		const char* n32[] = {"R32", "R32G32", "R32G32B32", "R32G32B32A32"};
		for (int i = 0; i < 4; ++i)
		{
			Desc d{f16[i], n16[i], 2*(i + 1), Plain, {}, all16, i == 3};
			for (int c = 0; c <= i; ++c)
				d.chans.push_back({c, 16, 16*c});
			l.push_back(d);
		}
		for (int i = 0; i < 4; ++i)
		{
			Desc d{f32[i], n32[i], 4*(i + 1), Plain, {}, all32, i == 3};
			for (int c = 0; c <= i; ++c)
				d.chans.push_back({c, 32, 32*c});
			l.push_back(d);
		}
		l.push_back({TF::B10G11R11_UFloat, "B10G11R11_UFloat", 4, UF111110,
			{{0, 11, 0}, {1, 11, 11}, {2, 10, 22}}, {TT::UFloat}, false});
		l.push_back({TF::E5B9G9R9_UFloat, "E5B9G9R9_UFloat", 4, E5999,
			{{0, 9, 0}, {1, 9, 9}, {2, 9, 18}}, {TT::UFloat}, false});
		return l;
	}();
	return list;
}

inline const char* typeName(TT t)
{
	static const char* n[] = {"UNorm", "SNorm", "UInt", "Int", "UFloat", "Float"};
	return n[int(t)];
}

// Every valid (format, type) pair of this build.
struct Pair { const Desc* d; TT type; };
inline const std::vector<Pair>& pairs()
{
	static std::vector<Pair> p = [] {
		std::vector<Pair> v;
		for (const Desc& d : formats())
			for (TT t : d.types)
				v.push_back({&d, t});
		return v;
	}();
	return p;
}

inline std::uint64_t rawBits(const unsigned char* texel, const Chan& c)
{
	// Channels never straddle more than 8 bytes from their first byte.
	int first = c.shift/8;
	std::uint64_t v = 0;
	for (int i = 0; i < 5 && first + i < 16; ++i)
	{
		if (i*8 < c.shift%8 + c.bits)
			v |= std::uint64_t(texel[first + i]) << (8*i);
	}
	v >>= c.shift%8;
	return v & ((c.bits == 64) ? ~0ULL : ((1ULL << c.bits) - 1));
}

inline double halfToDouble(unsigned h)
{
	int e = (h >> 10) & 31;
	int m = h & 1023;
	double v;
	if (e == 0)
		v = std::ldexp(double(m), -24);
	else if (e == 31)
		v = m ? NAN : INFINITY;
	else
		v = std::ldexp(double(1024 + m), e - 25);
	return (h & 0x8000) ? -v : v;
}

// Unsigned small float with 5 exponent bits and the given number of mantissa bits.
inline double ufloatToDouble(unsigned v, int mbits)
{
	int e = int(v >> mbits) & 31;
	int m = int(v & ((1u << mbits) - 1));
	if (e == 0)
		return std::ldexp(double(m), -14 - mbits);
	if (e == 31)
		return m ? NAN : INFINITY;
	return std::ldexp(double((1 << mbits) + m), e - 15 - mbits);
}

// Checks one encoded channel (of a Plain or packed-float format) against the source value.
// Returns nullptr if acceptable, otherwise a short class of what is wrong.
inline const char* checkChannel(const Desc& d, TT type, const Chan& c, std::uint64_t raw, double v)
{
	if (std::isnan(v))
	{
		// No value is prescribed for NaN in an integer format.
		if (d.kind == Plain && type == TT::Float)
		{
			if (c.bits == 16 && !std::isnan(halfToDouble(unsigned(raw))))
				return "nan";
			if (c.bits == 32 && !((raw & 0x7F800000) == 0x7F800000 && (raw & 0x7FFFFF)))
				return "nan";
		}
		return nullptr;
	}
	if (d.kind == UF111110)
	{
		int mbits = c.bits - 5;
		double x = ufloatToDouble(unsigned(raw), mbits);
		double maxFinite = ufloatToDouble((30u << mbits) | ((1u << mbits) - 1), mbits);
		if (v <= 0)
			return x == 0 ? nullptr : "negative";
		if (v > maxFinite)
			return (std::isinf(x) || x == maxFinite) ? nullptr : "large";
		// The nearest representable value, either one at a tie.
		if (std::isnan(x) || std::isinf(x))
			return "not-finite";
		double lo = raw > 0 ? ufloatToDouble(unsigned(raw) - 1, mbits) : -x - 1;
		unsigned up = unsigned(raw) + 1;
		double hi = (up >> mbits) == 31 ? 65536.0 : ufloatToDouble(up, mbits);
		if (v >= (lo + x)/2 && v <= (x + hi)/2)
			return nullptr;
		return v < ufloatToDouble(1u << mbits, mbits) ? "small" : "normal";
	}
	double maxv = std::ldexp(1.0, c.bits) - 1;
	double smax = std::ldexp(1.0, c.bits - 1) - 1;
	std::int64_t s = std::int64_t(raw);
	if (raw >> (c.bits - 1))
		s -= std::int64_t(1) << c.bits;
	switch (type)
	{
		case TT::UNorm:
		{
			double e = std::min(std::max(v, 0.0), 1.0)*maxv;
			return std::fabs(double(raw) - e) <= 0.5 + maxv*1.2e-7 ? nullptr : "unorm";
		}
		case TT::SNorm:
		{
			double e = std::min(std::max(v, -1.0), 1.0)*smax;
			return std::fabs(double(s) - e) <= 0.5 + smax*1.2e-7 ? nullptr : "snorm";
		}
		case TT::UInt:
		{
			double e = std::min(std::max(v, 0.0), maxv);
			// Float arithmetic cannot tell the last values below 2^32 from 2^32 itself.
			double slack = v > maxv && c.bits == 32 ? 0 : 0;
			return std::fabs(double(raw) - e) <= 0.5 + slack ? nullptr : v > maxv ? "uint-large" :
				v < 0 ? "uint-negative" : "uint";
		}
		case TT::Int:
		{
			double e = std::min(std::max(v, -smax - 1), smax);
			return std::fabs(double(s) - e) <= 0.5 ? nullptr : v > smax ? "int-large" :
				v < -smax - 1 ? "int-small" : "int";
		}
		case TT::Float:
			if (c.bits == 32)
			{
				std::uint32_t b;
				float f = float(v);
				memcpy(&b, &f, 4);
				return b == raw ? nullptr : "float";
			}
			else
			{
				double x = halfToDouble(unsigned(raw));
				if (std::isnan(x))
					return "half-nan";
				if (bool(raw & 0x8000) != std::signbit(v) )
					return "half-sign";
				double a = std::fabs(v), xa = std::fabs(x);
				if (std::isinf(xa))
					return a >= 65520 ? nullptr : "half-inf";
				if (a >= 65520)
					return "half-large";
				// Nearest: error at most half the local step (either way at a tie).
				unsigned h = unsigned(raw) & 0x7FFF;
				double lo = h > 0 ? halfToDouble(h - 1) : -halfToDouble(1);
				double hi = h == 0x7BFF ? 65536.0 : halfToDouble(h + 1);
				return (a >= (lo + xa)/2 && a <= (xa + hi)/2) ? nullptr : "half";
			}
		default:
			return "type";
	}
}

// Shared exponent texel against the three source values.
inline const char* checkE5(std::uint32_t w, const float* v)
{
	double c[3];
	double m = 0;
	for (int i = 0; i < 3; ++i)
	{
		if (std::isnan(v[i]))
			return nullptr;
		c[i] = std::min(std::max(double(v[i]), 0.0), 65408.0);
		m = std::max(m, c[i]);
	}
	int e = int(w >> 27);
	double scale = std::ldexp(1.0, e - 15 - 9);
	// The step the largest channel needs, by the definition of the format.
	int ideal = m < std::ldexp(1.0, -16) ? 0 : std::max(0, std::min(31, std::ilogb(m) + 1 + 15));
	if (std::floor(m/std::ldexp(1.0, ideal - 15 - 9) + 0.5) >= 512)
		++ideal;
	double step = std::ldexp(1.0, ideal - 15 - 9);
	for (int i = 0; i < 3; ++i)
	{
		double x = double((w >> (9*i)) & 511)*scale;
		if (std::fabs(x - c[i]) > step*0.500001)
			return m > 32768 ? "e5-large" : c[i] == 0 ? "e5-negative" : "e5";
	}
	return nullptr;
}

// Fills an RGBAF image.
template <typename F>
inline Image makeImage(unsigned w, unsigned h, ColorSpace cs, F f)
{
	Image img(Image::Format::RGBAF, w, h, cs);
	for (unsigned y = 0; y < h; ++y)
	{
		float* p = static_cast<float*>(img.scanline(y));
		for (unsigned x = 0; x < w; ++x)
			f(x, y, p + 4*x);
	}
	return img;
}

} // namespace tex
