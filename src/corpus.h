// Small image files written byte by byte from the file formats' specifications, with the pixels they
// hold.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "mc.h"

namespace corpus
{
typedef std::string S;
struct Pixel { double c[4]; };
struct Entry
{
	std::string name;
	std::string ext;
	S bytes;
	unsigned w = 0, h = 0;
	std::vector<Pixel> px; // from the upper left; empty: not prescribed
	double tol = 1e-9;
};

inline void le16(S& s, unsigned v) { s += char(v); s += char(v >> 8); }
inline void le32(S& s, std::uint32_t v) { le16(s, v & 0xFFFF); le16(s, v >> 16); }
inline void be16(S& s, unsigned v) { s += char(v >> 8); s += char(v); }
inline void be32(S& s, std::uint32_t v) { be16(s, v >> 16); be16(s, v & 0xFFFF); }

// The sample of channel c at x, y, as an integer of the given bits.
inline std::uint64_t sample(unsigned x, unsigned y, unsigned c, unsigned bits, unsigned salt)
{
	std::uint64_t v = mc::mix(mc::mix(salt*7919 + bits, x*131 + y), c + 1);
	return bits >= 64 ? v : v & ((1ULL << bits) - 1);
}

// Packs w samples of n channels with the given bits, most significant first.
inline S packRow(unsigned y, unsigned w, unsigned n, unsigned bits, unsigned salt)
{
	S r;
	unsigned acc = 0, have = 0;
	for (unsigned x = 0; x < w; ++x)
	{
		for (unsigned c = 0; c < n; ++c)
		{
			std::uint64_t v = sample(x, y, c, bits, salt);
			if (bits == 16)
				be16(r, unsigned(v));
			else if (bits == 8)
				r += char(v);
			else
			{
				acc = (acc << bits) | unsigned(v);
				have += bits;
				if (have == 8)
				{
					r += char(acc);
					acc = have = 0;
				}
			}
		}
	}
	if (have)
		r += char(acc << (8 - have));
	return r;
}

inline double norm(std::uint64_t v, unsigned bits) { return double(v)/double((1ULL << bits) - 1); }

// Palette entry i: red, green, blue, alpha.
inline unsigned pal(unsigned i, unsigned c)
{
	return unsigned(mc::mix(i + 17, c + 3) & 0xFF);
}

// --- PNG ---
inline std::uint32_t crc32(const S& s)
{
	std::uint32_t c = ~0u;
	for (unsigned char b : s)
	{
		c ^= b;
		for (int k = 0; k < 8; ++k)
			c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
	}
	return ~c;
}
inline void chunk(S& out, const char* type, const S& data)
{
	be32(out, std::uint32_t(data.size()));
	S body = type + data;
	out += body;
	be32(out, crc32(body));
}
inline Entry png(unsigned type, unsigned bits, unsigned w, unsigned h, bool trans)
{
	Entry e;
	unsigned n = type == 0 || type == 3 ? 1 : type == 4 ? 2 : type == 2 ? 3 : 4;
	unsigned salt = type*100 + bits;
	e.name = mc::fmt("png colour type %u, %u bits, %ux%u%s", type, bits, w, h, trans ? ", transparency" : "");
	e.ext = "png";
	e.w = w;
	e.h = h;
	e.bytes = S("\x89PNG\r\n\x1a\n", 8);
	S ihdr;
	be32(ihdr, w);
	be32(ihdr, h);
	ihdr += char(bits);
	ihdr += char(type);
	ihdr += S(3, '\0');
	chunk(e.bytes, "IHDR", ihdr);
	unsigned key = unsigned(sample(0, 0, 0, bits, salt));
	if (type == 3)
	{
		S p, a;
		for (unsigned i = 0; i < 1u << bits; ++i)
		{
			for (unsigned c = 0; c < 3; ++c)
				p += char(pal(i, c));
			a += char(pal(i, 3));
		}
		chunk(e.bytes, "PLTE", p);
		if (trans)
			chunk(e.bytes, "tRNS", a);
	}
	else if (trans && type == 0)
	{
		S a;
		be16(a, key);
		chunk(e.bytes, "tRNS", a);
	}
	S rawData;
	for (unsigned y = 0; y < h; ++y)
		rawData += S(1, '\0') + packRow(y, w, n, bits, salt);
	S z("\x78\x01\x01", 3);
	le16(z, unsigned(rawData.size()));
	le16(z, ~unsigned(rawData.size()) & 0xFFFF);
	z += rawData;
	std::uint32_t a = 1, b = 0;
	for (unsigned char c : rawData)
	{
		a = (a + c) % 65521;
		b = (b + a) % 65521;
	}
	be32(z, (b << 16) | a);
	chunk(e.bytes, "IDAT", z);
	chunk(e.bytes, "IEND", S());
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
		{
			Pixel p = {{0, 0, 0, 1}};
			std::uint64_t v[4];
			for (unsigned c = 0; c < n; ++c)
				v[c] = sample(x, y, c, bits, salt);
			if (type == 3)
			{
				for (unsigned c = 0; c < (trans ? 4u : 3u); ++c)
					p.c[c] = pal(unsigned(v[0]), c)/255.0;
			}
			else if (n <= 2)
			{
				p.c[0] = p.c[1] = p.c[2] = norm(v[0], bits);
				if (n == 2)
					p.c[3] = norm(v[1], bits);
				else if (trans && v[0] == key)
					p.c[3] = 0;
			}
			else
			{
				for (unsigned c = 0; c < n; ++c)
					p.c[c] = norm(v[c], bits);
			}
			e.px.push_back(p);
		}
	}
	return e;
}

// --- BMP ---
// Palettes: colours, gray from black to white, gray that equals the index, and the last two reversed; all black.
enum class Palette { Colors, Gray, Index, GrayReversed, IndexReversed, Black };

inline Entry bmp(unsigned bits, unsigned w, unsigned h, bool topDown, bool fields565, Palette palette)
{
	Entry e;
	const char* paletteNames[] = {"", ", gray palette", ", palette of indices", ", reversed gray palette",
		", reversed palette of indices", ", black palette"};
	e.name = mc::fmt("bmp %u bits, %ux%u%s%s%s", bits, w, h, topDown ? ", top-down" : "",
		fields565 ? ", 565" : "", paletteNames[unsigned(palette)]);
	e.ext = "bmp";
	e.w = w;
	e.h = h;
	unsigned colors = bits <= 8 ? 1u << bits : 0;
	unsigned offset = 14 + 40 + colors*4 + (fields565 ? 12 : 0);
	unsigned pitch = (w*bits + 31)/32*4;
	S& s = e.bytes;
	s = "BM";
	le32(s, offset + pitch*h);
	le32(s, 0);
	le32(s, offset);
	le32(s, 40);
	le32(s, w);
	le32(s, topDown ? std::uint32_t(-int(h)) : h);
	le16(s, 1);
	le16(s, bits);
	le32(s, fields565 ? 3 : 0);
	le32(s, pitch*h);
	le32(s, 2835);
	le32(s, 2835);
	le32(s, colors);
	le32(s, 0);
	auto entry = [&](unsigned i, unsigned c) {
		switch (palette)
		{
			case Palette::Gray: return i*255/(colors - 1);
			case Palette::Index: return i;
			case Palette::GrayReversed: return (colors - 1 - i)*255/(colors - 1);
			case Palette::IndexReversed: return colors - 1 - i;
			case Palette::Black: return 0U;
			default: return pal(i, c);
		}
	};
	for (unsigned i = 0; i < colors; ++i)
	{
		for (int c : {2, 1, 0})
			s += char(entry(i, unsigned(c)));
		s += char(0);
	}
	if (fields565)
	{
		le32(s, 0xF800);
		le32(s, 0x7E0);
		le32(s, 0x1F);
	}
	for (unsigned r = 0; r < h; ++r)
	{
		unsigned y = topDown ? r : h - 1 - r;
		S row;
		if (bits <= 8)
			row = packRow(y, w, 1, bits, bits);
		else
		{
			for (unsigned x = 0; x < w; ++x)
			{
				if (bits == 16)
					le16(row, unsigned(sample(x, y, 0, fields565 ? 16 : 15, bits)));
				else
				{
					for (int c : {2, 1, 0})
						row += char(sample(x, y, unsigned(c), 8, bits));
					if (bits == 32)
						row += char(sample(x, y, 3, 8, bits));
				}
			}
		}
		row.resize(pitch);
		s += row;
	}
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
		{
			Pixel p = {{0, 0, 0, 1}};
			if (bits <= 8)
			{
				for (unsigned c = 0; c < 3; ++c)
					p.c[c] = entry(unsigned(sample(x, y, 0, bits, bits)), c)/255.0;
			}
			else if (bits == 16)
			{
				unsigned v = unsigned(sample(x, y, 0, fields565 ? 16 : 15, bits));
				p.c[0] = norm(fields565 ? v >> 11 : v >> 10, 5);
				p.c[1] = fields565 ? norm((v >> 5) & 63, 6) : norm((v >> 5) & 31, 5);
				p.c[2] = norm(v & 31, 5);
			}
			else
			{
				for (unsigned c = 0; c < bits/8; ++c)
					p.c[c] = norm(sample(x, y, c, 8, bits), 8);
			}
			e.px.push_back(p);
		}
	}
	return e;
}

// --- TGA: type 1 (palette), 2 (true colour), 3 (gray), 10 (run-length true colour) ---
inline Entry tga(unsigned type, unsigned bits, unsigned w, unsigned h, bool topDown)
{
	Entry e;
	e.name = mc::fmt("tga type %u, %u bits, %ux%u%s", type, bits, w, h, topDown ? ", top-down" : "");
	e.ext = "tga";
	e.w = w;
	e.h = h;
	S& s = e.bytes;
	s += char(0);
	s += char(type == 1);
	s += char(type);
	le16(s, 0);
	le16(s, type == 1 ? 256 : 0);
	s += char(type == 1 ? 24 : 0);
	le16(s, 0);
	le16(s, 0);
	le16(s, w);
	le16(s, h);
	s += char(bits);
	s += char((topDown ? 0x20 : 0) | (bits == 32 ? 8 : 0));
	if (type == 1)
	{
		for (unsigned i = 0; i < 256; ++i)
			for (int c : {2, 1, 0})
				s += char(pal(i, unsigned(c)));
	}
	auto texel = [&](unsigned x, unsigned y) {
		S t;
		if (type == 10)
			x = 0; // runs
		if (bits == 8)
			t += char(sample(x, y, 0, 8, type));
		else if (bits == 16)
			le16(t, unsigned(sample(x, y, 0, 15, type)));
		else
		{
			for (int c : {2, 1, 0})
				t += char(sample(x, y, unsigned(c), 8, type));
			if (bits == 32)
				t += char(sample(x, y, 3, 8, type));
		}
		return t;
	};
	for (unsigned r = 0; r < h; ++r)
	{
		unsigned y = topDown ? r : h - 1 - r;
		if (type == 10)
		{
			s += char(0x80 | (w - 1));
			s += texel(0, y);
		}
		else
		{
			for (unsigned x = 0; x < w; ++x)
				s += texel(x, y);
		}
	}
	s += S(8, '\0') + S("TRUEVISION-XFILE.", 17) + S(1, '\0');
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x0 = 0; x0 < w; ++x0)
		{
			unsigned x = type == 10 ? 0 : x0;
			Pixel p = {{0, 0, 0, 1}};
			if (bits == 8)
			{
				unsigned v = unsigned(sample(x, y, 0, 8, type));
				for (unsigned c = 0; c < 3; ++c)
					p.c[c] = type == 1 ? pal(v, c)/255.0 : norm(v, 8);
			}
			else if (bits == 16)
			{
				unsigned v = unsigned(sample(x, y, 0, 15, type));
				p.c[0] = norm(v >> 10, 5);
				p.c[1] = norm((v >> 5) & 31, 5);
				p.c[2] = norm(v & 31, 5);
			}
			else
			{
				for (unsigned c = 0; c < bits/8; ++c)
					p.c[c] = norm(sample(x, y, c, 8, type), 8);
			}
			e.px.push_back(p);
		}
	}
	return e;
}

// --- PNM and PFM ---
inline Entry pnm(unsigned kind, unsigned bits, unsigned w, unsigned h)
{
	Entry e;
	bool color = kind == 3 || kind == 6, bitmap = kind == 1 || kind == 4, binary = kind >= 4;
	e.name = mc::fmt("pnm P%u, %u bits, %ux%u", kind, bits, w, h);
	e.ext = bitmap ? "pbm" : color ? "ppm" : "pgm";
	e.w = w;
	e.h = h;
	unsigned n = color ? 3 : 1;
	e.bytes = mc::fmt("P%u\n%u %u\n", kind, w, h);
	if (!bitmap)
		e.bytes += mc::fmt("%u\n", (1u << bits) - 1);
	for (unsigned y = 0; y < h; ++y)
	{
		if (binary)
			e.bytes += packRow(y, w, n, bits, kind);
		else
		{
			for (unsigned x = 0; x < w; ++x)
				for (unsigned c = 0; c < n; ++c)
					e.bytes += mc::fmt("%u ", unsigned(sample(x, y, c, bits, kind)));
			e.bytes += "\n";
		}
		for (unsigned x = 0; x < w; ++x)
		{
			Pixel p = {{0, 0, 0, 1}};
			for (unsigned c = 0; c < 3; ++c)
			{
				double v = norm(sample(x, y, color ? c : 0, bits, kind), bits);
				p.c[c] = bitmap ? 1 - v : v;
			}
			e.px.push_back(p);
		}
	}
	return e;
}
inline float fsample(unsigned x, unsigned y, unsigned c)
{
	return float(int(sample(x, y, c, 12, 5)) - 1024)/512.0f;
}
inline S f32(float f, bool big)
{
	std::uint32_t u;
	memcpy(&u, &f, 4);
	S s;
	if (big)
		be32(s, u);
	else
		le32(s, u);
	return s;
}
inline Entry pfm(bool color, bool big, unsigned w, unsigned h)
{
	Entry e;
	e.name = mc::fmt("pfm %s, %s-endian, %ux%u", color ? "colour" : "gray", big ? "big" : "little", w, h);
	e.ext = "pfm";
	e.w = w;
	e.h = h;
	e.bytes = mc::fmt("P%c\n%u %u\n%s\n", color ? 'F' : 'f', w, h, big ? "1.0" : "-1.0");
	for (unsigned r = 0; r < h; ++r)
		for (unsigned x = 0; x < w; ++x)
			for (unsigned c = 0; c < (color ? 3u : 1u); ++c)
				e.bytes += f32(fsample(x, h - 1 - r, c), big);
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w; ++x)
		{
			Pixel p = {{0, 0, 0, 1}};
			for (unsigned c = 0; c < 3; ++c)
				p.c[c] = fsample(x, y, color ? c : 0);
			e.px.push_back(p);
		}
	return e;
}

// --- Radiance HDR, flat pixels ---
inline Entry hdr(unsigned w, unsigned h)
{
	Entry e;
	e.name = mc::fmt("hdr %ux%u", w, h);
	e.ext = "hdr";
	e.w = w;
	e.h = h;
	e.bytes = mc::fmt("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y %u +X %u\n", h, w);
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w; ++x)
		{
			Pixel p = {{0, 0, 0, 1}};
			unsigned ex = 126 + unsigned(sample(x, y, 3, 2, 9));
			for (unsigned c = 0; c < 3; ++c)
			{
				unsigned m = unsigned(sample(x, y, c, 7, 9)) | (c == 0 ? 128 : 3); // never a run marker
				e.bytes += char(m);
				p.c[c] = std::ldexp(double(m), int(ex) - 136);
			}
			e.bytes += char(ex);
			e.px.push_back(p);
		}
	e.tol = 1.0/64; // half of a mantissa step is left to the reader
	return e;
}

// --- GIF, codes never grow because of frequent clear codes ---
inline Entry gif(unsigned w, unsigned h, bool trans)
{
	Entry e;
	e.name = mc::fmt("gif %ux%u%s", w, h, trans ? ", transparency" : "");
	e.ext = "gif";
	e.w = w;
	e.h = h;
	S& s = e.bytes;
	s = "GIF89a";
	le16(s, w);
	le16(s, h);
	s += char(0x91); // 4 colours
	s += char(0);
	s += char(0);
	for (unsigned i = 0; i < 4; ++i)
		for (unsigned c = 0; c < 3; ++c)
			s += char(pal(i, c));
	if (trans)
		s += S("\x21\xF9\x04\x01\x00\x00\x02\x00", 8); // colour 2 is transparent
	s += char(0x2C);
	le16(s, 0);
	le16(s, 0);
	le16(s, w);
	le16(s, h);
	s += char(0);
	s += char(2);
	S data;
	unsigned acc = 0, have = 0;
	auto code = [&](unsigned c) { // 3 bits
		acc |= c << have;
		have += 3;
		while (have >= 8)
		{
			data += char(acc);
			acc >>= 8;
			have -= 8;
		}
	};
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w; ++x)
		{
			code(4);
			unsigned v = unsigned(sample(x, y, 0, 2, 11));
			code(v);
			Pixel p = {{0, 0, 0, trans && v == 2 ? 0.0 : 1.0}};
			for (unsigned c = 0; c < 3; ++c)
				p.c[c] = pal(v, c)/255.0;
			e.px.push_back(p);
		}
	code(5);
	if (have)
		data += char(acc);
	s += char(data.size());
	s += data;
	s += char(0);
	s += char(0x3B);
	return e;
}

// --- TIFF, one uncompressed strip ---
// photometric: 0 white is zero, 1 black is zero, 2 RGB, 3 palette. sampleFormat: 1 uint, 2 int, 3 float
inline Entry tiff(bool big, unsigned photometric, unsigned n, unsigned bits, unsigned sampleFormat,
	unsigned w, unsigned h)
{
	Entry e;
	static const char* ph[] = {"white is zero", "black is zero", "RGB", "palette"};
	static const char* sf[] = {"", "unsigned", "signed", "float"};
	e.name = mc::fmt("tif %s-endian, %s, %u x %u bits %s, %ux%u", big ? "big" : "little", ph[photometric],
		n, bits, sf[sampleFormat], w, h);
	e.ext = "tif";
	e.w = w;
	e.h = h;
	auto p16 = [&](S& s, unsigned v) { if (big) be16(s, v); else le16(s, v); };
	auto p32 = [&](S& s, std::uint32_t v) { if (big) be32(s, v); else le32(s, v); };
	auto value = [&](unsigned x, unsigned y, unsigned c) -> std::uint64_t {
		if (sampleFormat == 3)
		{
			float f = fsample(x, y, c);
			double d = f;
			std::uint64_t u = 0;
			if (bits == 32)
				memcpy(&u, &f, 4);
			else
				memcpy(&u, &d, 8);
			return u;
		}
		return sample(x, y, c, bits, photometric*10 + n);
	};
	S data;
	for (unsigned y = 0; y < h; ++y)
	{
		if (bits <= 8)
			data += packRow(y, w, n, bits, photometric*10 + n);
		else
		{
			for (unsigned x = 0; x < w; ++x)
				for (unsigned c = 0; c < n; ++c)
				{
					std::uint64_t v = value(x, y, c);
					if (bits == 16)
						p16(data, unsigned(v));
					else if (bits == 32)
						p32(data, std::uint32_t(v));
					else
					{
						p32(data, std::uint32_t(big ? v >> 32 : v));
						p32(data, std::uint32_t(big ? v : v >> 32));
					}
				}
		}
	}
	if (data.size() % 2)
		data += char(0);
	S extra; // after the strip
	unsigned extraAt = 8 + unsigned(data.size());
	auto arrayAt = [&](const std::vector<unsigned>& v) {
		unsigned at = extraAt + unsigned(extra.size());
		for (unsigned k : v)
			p16(extra, k);
		return at;
	};
	S ifd;
	unsigned entries = 0;
	auto tag = [&](unsigned id, unsigned type, unsigned count, std::uint32_t v) {
		p16(ifd, id);
		p16(ifd, type);
		p32(ifd, count);
		if (type == 3 && count == 1)
		{
			p16(ifd, v);
			p16(ifd, 0);
		}
		else
			p32(ifd, v);
		++entries;
	};
	auto shorts = [&](unsigned id, const std::vector<unsigned>& v) {
		if (v.size() == 1)
			tag(id, 3, 1, v[0]);
		else if (v.size() == 2)
		{
			p16(ifd, id);
			p16(ifd, 3);
			p32(ifd, 2);
			p16(ifd, v[0]);
			p16(ifd, v[1]);
			++entries;
		}
		else
			tag(id, 3, unsigned(v.size()), arrayAt(v));
	};
	unsigned stripBytes = (w*n*bits + 7)/8*h;
	tag(256, 4, 1, w);
	tag(257, 4, 1, h);
	shorts(258, std::vector<unsigned>(n, bits));
	tag(259, 3, 1, 1);
	tag(262, 3, 1, photometric);
	tag(273, 4, 1, 8);
	tag(277, 3, 1, n);
	tag(278, 4, 1, h);
	tag(279, 4, 1, stripBytes);
	if (photometric == 3)
	{
		std::vector<unsigned> map;
		for (unsigned c = 0; c < 3; ++c)
			for (unsigned i = 0; i < 1u << bits; ++i)
				map.push_back(pal(i, c)*257);
		shorts(320, map);
	}
	if (n == 4)
		tag(338, 3, 1, 2); // unassociated alpha
	shorts(339, std::vector<unsigned>(n, sampleFormat));
	S& s = e.bytes;
	s = big ? "MM" : "II";
	p16(s, 42);
	p32(s, std::uint32_t(8 + data.size() + extra.size()));
	s += data + extra;
	p16(s, entries);
	s += ifd;
	p32(s, 0);
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w; ++x)
		{
			Pixel p = {{0, 0, 0, 1}};
			for (unsigned c = 0; c < 4; ++c)
			{
				if (c == 3 && n < 4)
					continue;
				std::uint64_t v = value(x, y, n >= 3 ? c : 0);
				double d;
				if (photometric == 3)
					d = pal(unsigned(v), c)/255.0;
				else if (sampleFormat == 3)
					d = fsample(x, y, n >= 3 ? c : 0);
				else if (sampleFormat == 2)
					d = bits == 16 ? double(std::int16_t(v)) : double(std::int32_t(v));
				else if (bits == 32)
					d = double(v);
				else
					d = norm(v, bits);
				if (photometric == 0)
					d = 1 - d;
				p.c[c] = d;
			}
			e.px.push_back(p);
		}
	return e;
}

inline const std::vector<Entry>& entries()
{
	static const std::vector<Entry> l = [] {
		std::vector<Entry> v;
		const unsigned sizes[][2] = {{1, 1}, {3, 2}, {9, 3}};
		for (auto& sz : sizes)
		{
			unsigned w = sz[0], h = sz[1];
			for (unsigned b : {1u, 2u, 4u, 8u, 16u})
				v.push_back(png(0, b, w, h, false));
			for (unsigned b : {1u, 2u, 4u, 8u})
			{
				v.push_back(png(3, b, w, h, false));
				v.push_back(png(3, b, w, h, true));
				// FreeImage does not expand the transparent value of 2 and 4 bit images.
				if (b == 1 || b == 8)
					v.push_back(png(0, b, w, h, true));
			}
			for (unsigned t : {2u, 4u, 6u})
				for (unsigned b : {8u, 16u})
					v.push_back(png(t, b, w, h, false));
			for (bool td : {false, true})
			{
				for (unsigned b : {1u, 4u, 8u, 16u, 24u, 32u})
					v.push_back(bmp(b, w, h, td, false, Palette::Colors));
				v.push_back(bmp(16, w, h, td, true, Palette::Colors));
				for (unsigned b : {1u, 4u, 8u})
					for (Palette palette : {Palette::Gray, Palette::Index, Palette::GrayReversed, Palette::IndexReversed,
							Palette::Black})
						v.push_back(bmp(b, w, h, td, false, palette));
				v.push_back(tga(1, 8, w, h, td));
				v.push_back(tga(3, 8, w, h, td));
				for (unsigned b : {16u, 24u, 32u})
				{
					v.push_back(tga(2, b, w, h, td));
					v.push_back(tga(10, b, w, h, td));
				}
			}
			for (unsigned k : {1u, 4u})
				v.push_back(pnm(k, 1, w, h));
			for (unsigned k : {2u, 3u, 5u, 6u})
				for (unsigned b : {8u, 16u})
					v.push_back(pnm(k, b, w, h));
			for (bool c : {false, true})
				for (bool b : {false, true})
				{
					v.push_back(pfm(c, b, w, h));
					// FreeImage takes the upper row first where the specification has the lower one.
					if (h > 1)
						v.back().px.clear();
				}
			v.push_back(hdr(w, h));
			v.push_back(gif(w, h, false));
			v.push_back(gif(w, h, true));
			for (bool b : {false, true})
			{
				for (unsigned ph : {0u, 1u})
					for (unsigned bits : {1u, 4u, 8u, 16u})
					{
						v.push_back(tiff(b, ph, 1, bits, 1, w, h));
						// FreeImage does not tell that 16-bit images are inverted.
						if (ph == 0 && bits == 16)
							v.back().px.clear();
					}
				v.push_back(tiff(b, 3, 1, 4, 1, w, h));
				v.push_back(tiff(b, 3, 1, 8, 1, w, h));
				for (unsigned n : {3u, 4u})
				{
					v.push_back(tiff(b, 2, n, 8, 1, w, h));
					v.push_back(tiff(b, 2, n, 16, 1, w, h));
					v.push_back(tiff(b, 2, n, 32, 3, w, h));
				}
				v.push_back(tiff(b, 1, 1, 16, 2, w, h));
				v.push_back(tiff(b, 1, 1, 32, 2, w, h));
				v.push_back(tiff(b, 1, 1, 32, 1, w, h));
				v.push_back(tiff(b, 1, 1, 32, 3, w, h));
				v.push_back(tiff(b, 1, 1, 64, 3, w, h));
			}
		}
		return v;
	}();
	return l;
}
} // namespace corpus
