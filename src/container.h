// Independent readers of the DDS, KTX and PVR layouts. They know the published file layouts only;
// nothing here is shared with the library.
#pragma once
#include "blocks.h"

namespace cont
{
using namespace tex;

enum class Dim { D1, D2, D3, Cube };
// What a reader learns from a file.
struct File
{
	Dim dim = Dim::D2;
	unsigned width = 0, height = 0, depth = 1; // of the largest level
	bool array = false;                        // known to be an array
	bool arrayKnown = true;                    // whether the layout can tell arrays of one
	unsigned layers = 1, faces = 1, mips = 1;
	bool srgb = false;
	int premultiplied = -1;                    // -1: the layout does not say
	int alphaMode = -1;                        // DDS only
	TT type = TT::UNorm;
	Kind kind = Plain;
	int bytes = 0;
	std::vector<Chan> chans;
	std::vector<const blk::Block*> block;      // the compressed formats it may be; empty: uncompressed
	int bc1Alpha = -1;                         // PVR only
	struct Surface { unsigned layer, face, mip, slice; std::size_t offset, pitch; unsigned rows; };
	std::vector<Surface> surfaces;
	std::string error;
};

struct Reader
{
	const std::uint8_t* p;
	std::size_t n, pos;
	bool ok;
	std::uint32_t u32()
	{
		if (n - pos < 4)
		{
			ok = false;
			return 0;
		}
		std::uint32_t v = std::uint32_t(p[pos]) | std::uint32_t(p[pos + 1]) << 8 |
			std::uint32_t(p[pos + 2]) << 16 | std::uint32_t(p[pos + 3]) << 24;
		pos += 4;
		return v;
	}
};

// Arrays of equal sized channels in memory order.
inline void arrayOf(File& f, const char* order, int bits, TT type)
{
	f.chans.clear();
	f.kind = Plain;
	f.type = type;
	int i = 0;
	for (const char* c = order; *c; ++c, ++i)
		f.chans.push_back({int(std::string("rgba").find(*c)), bits, i*bits});
	f.bytes = i*bits/8;
}

// Channels packed into one little-endian word, first one in the most significant bits.
inline void packedMsb(File& f, std::vector<std::pair<char, int>> c, TT type, Kind kind = Plain)
{
	int total = 0;
	for (auto& e : c)
		total += e.second;
	f.bytes = total/8;
	f.chans.clear();
	f.kind = kind;
	f.type = type;
	int shift = total;
	for (auto& e : c)
	{
		shift -= e.second;
		if (e.first != 'e')
			f.chans.push_back({int(std::string("rgba").find(e.first)), e.second, shift});
	}
}

inline unsigned mipSize(unsigned s, unsigned level) { return std::max(s >> level, 1u); }

// Bytes of a row of texels or blocks, and the number of rows, of one level.
inline std::size_t pitchOf(const File& f, unsigned mip)
{
	unsigned w = mipSize(f.width, mip);
	return f.block.empty() ? std::size_t(w)*f.bytes : std::size_t(blk::blocksX(*f.block[0], w))*f.block[0]->size;
}
inline unsigned rowsOf(const File& f, unsigned mip)
{
	unsigned h = mipSize(f.height, mip);
	return f.block.empty() ? h : blk::blocksY(*f.block[0], h);
}

inline bool dxgi(File& f, std::uint32_t code)
{
	const TT UN = TT::UNorm, SN = TT::SNorm, UI = TT::UInt, SI = TT::Int, FL = TT::Float;
	switch (code)
	{
		case 2: arrayOf(f, "rgba", 32, FL); return true;
		case 3: arrayOf(f, "rgba", 32, UI); return true;
		case 4: arrayOf(f, "rgba", 32, SI); return true;
		case 6: arrayOf(f, "rgb", 32, FL); return true;
		case 7: arrayOf(f, "rgb", 32, UI); return true;
		case 8: arrayOf(f, "rgb", 32, SI); return true;
		case 10: arrayOf(f, "rgba", 16, FL); return true;
		case 11: arrayOf(f, "rgba", 16, UN); return true;
		case 12: arrayOf(f, "rgba", 16, UI); return true;
		case 13: arrayOf(f, "rgba", 16, SN); return true;
		case 14: arrayOf(f, "rgba", 16, SI); return true;
		case 16: arrayOf(f, "rg", 32, FL); return true;
		case 17: arrayOf(f, "rg", 32, UI); return true;
		case 18: arrayOf(f, "rg", 32, SI); return true;
		case 24: packedMsb(f, {{'a', 2}, {'b', 10}, {'g', 10}, {'r', 10}}, UN); return true;
		case 25: packedMsb(f, {{'a', 2}, {'b', 10}, {'g', 10}, {'r', 10}}, UI); return true;
		case 26: packedMsb(f, {{'b', 10}, {'g', 11}, {'r', 11}}, TT::UFloat, UF111110); return true;
		case 28: arrayOf(f, "rgba", 8, UN); return true;
		case 29: arrayOf(f, "rgba", 8, UN); f.srgb = true; return true;
		case 30: arrayOf(f, "rgba", 8, UI); return true;
		case 31: arrayOf(f, "rgba", 8, SN); return true;
		case 32: arrayOf(f, "rgba", 8, SI); return true;
		case 34: arrayOf(f, "rg", 16, FL); return true;
		case 35: arrayOf(f, "rg", 16, UN); return true;
		case 36: arrayOf(f, "rg", 16, UI); return true;
		case 37: arrayOf(f, "rg", 16, SN); return true;
		case 38: arrayOf(f, "rg", 16, SI); return true;
		case 41: arrayOf(f, "r", 32, FL); return true;
		case 42: arrayOf(f, "r", 32, UI); return true;
		case 43: arrayOf(f, "r", 32, SI); return true;
		case 49: arrayOf(f, "rg", 8, UN); return true;
		case 50: arrayOf(f, "rg", 8, UI); return true;
		case 51: arrayOf(f, "rg", 8, SN); return true;
		case 52: arrayOf(f, "rg", 8, SI); return true;
		case 54: arrayOf(f, "r", 16, FL); return true;
		case 56: arrayOf(f, "r", 16, UN); return true;
		case 57: arrayOf(f, "r", 16, UI); return true;
		case 58: arrayOf(f, "r", 16, SN); return true;
		case 59: arrayOf(f, "r", 16, SI); return true;
		case 61: arrayOf(f, "r", 8, UN); return true;
		case 62: arrayOf(f, "r", 8, UI); return true;
		case 63: arrayOf(f, "r", 8, SN); return true;
		case 64: arrayOf(f, "r", 8, SI); return true;
		case 67: packedMsb(f, {{'e', 5}, {'b', 9}, {'g', 9}, {'r', 9}}, TT::UFloat, E5999);
			return true;
		case 85: packedMsb(f, {{'r', 5}, {'g', 6}, {'b', 5}}, UN); return true;
		case 86: packedMsb(f, {{'a', 1}, {'r', 5}, {'g', 5}, {'b', 5}}, UN); return true;
		case 87: arrayOf(f, "bgra", 8, UN); return true;
		case 91: arrayOf(f, "bgra", 8, UN); f.srgb = true; return true;
		// Intensity and alpha nibbles; the library maps R4G4 to this one.
		case 112: packedMsb(f, {{'r', 4}, {'g', 4}}, UN); return true;
		case 115: packedMsb(f, {{'a', 4}, {'r', 4}, {'g', 4}, {'b', 4}}, UN); return true;
		default:
			for (const blk::Block& b : blk::blocks())
			{
				if (code && (b.dxgi[0] == code || b.dxgi[1] == code))
				{
					f.srgb = b.dxgi[1] == code;
					f.block.push_back(&b);
				}
			}
			if (!f.block.empty())
				return true;
			f.error = mc::fmt("unexpected DXGI format %u", code);
			return false;
	}
}

inline File readDds(const std::vector<std::uint8_t>& d)
{
	File f;
	Reader r{d.data(), d.size(), 0, true};
	if (d.size() < 148)
	{
		f.error = "too short for the headers";
		return f;
	}
	std::uint32_t h[37];
	for (int i = 0; i < 37; ++i)
		h[i] = r.u32();
	// 0 magic, 1 size, 2 flags, 3 height, 4 width, 5 pitch, 6 depth, 7 mips, 8-18 reserved,
	// 19 pf size, 20 pf flags, 21 fourcc, 22-26, 27 caps, 28 caps2, 29, 30, 31 reserved,
	// 32 dxgi, 33 dimension, 34 misc, 35 array size, 36 misc2
	if (h[0] != 0x20534444 || h[1] != 124 || h[19] != 32 || !(h[20] & 4) || h[21] != 0x30315844)
	{
		f.error = "magic, sizes or DX10 marker";
		return f;
	}
	if (!dxgi(f, h[32]))
		return f;
	f.arrayKnown = false;
	f.width = h[4];
	f.height = h[3];
	if ((h[2] & 0x1007) != 0x1007)
	{
		f.error = mc::fmt("required header flags 0x%x", h[2]);
		return f;
	}
	f.mips = h[2] & 0x20000 ? h[7] : 1;
	f.layers = h[35];
	f.array = f.layers > 1;
	bool cubeCaps = h[28] & 0x200;
	bool volumeCaps = h[28] & 0x200000;
	switch (h[33])
	{
		case 2: f.dim = Dim::D1; break;
		case 3: f.dim = h[34] & 4 ? Dim::Cube : Dim::D2; break;
		case 4: f.dim = Dim::D3; break;
		default: f.error = "resource dimension"; return f;
	}
	if (cubeCaps != (f.dim == Dim::Cube) || (cubeCaps && (h[28] & 0xFC00) != 0xFC00) ||
		volumeCaps != (f.dim == Dim::D3))
	{
		f.error = mc::fmt("caps2 0x%x disagrees with the dimension", h[28]);
		return f;
	}
	if (f.dim == Dim::Cube)
		f.faces = 6;
	if (f.dim == Dim::D3)
	{
		if (!(h[2] & 0x800000))
		{
			f.error = "no depth flag";
			return f;
		}
		f.depth = h[6];
	}
	bool complex = f.mips > 1 || f.dim == Dim::Cube || f.dim == Dim::D3;
	if (!(h[27] & 0x1000) || (complex && !(h[27] & 8)) || (f.mips > 1 && !(h[27] & 0x400000)))
	{
		f.error = mc::fmt("caps 0x%x", h[27]);
		return f;
	}
	if (f.block.empty() ? (h[2] & 8) && h[5] != f.width*unsigned(f.bytes) : (h[2] & 8) != 0)
	{
		f.error = mc::fmt("pitch %u", h[5]);
		return f;
	}
	if (h[2] & 0x80000)
	{
		// The size of the top level; writers disagree about whether this is one slice of a volume.
		std::size_t top = pitchOf(f, 0)*rowsOf(f, 0);
		if (f.block.empty() || (h[5] != top && h[5] != top*f.depth))
		{
			f.error = mc::fmt("linear size %u", h[5]);
			return f;
		}
	}
	f.alphaMode = int(h[36] & 7);
	std::size_t off = 148;
	for (unsigned l = 0; l < f.layers; ++l)
	{
		for (unsigned face = 0; face < f.faces; ++face)
		{
			for (unsigned m = 0; m < f.mips; ++m)
			{
				for (unsigned s = 0; s < mipSize(f.depth, m); ++s)
				{
					std::size_t pitch = pitchOf(f, m);
					f.surfaces.push_back({l, face, m, s, off, pitch, rowsOf(f, m)});
					off += pitch*rowsOf(f, m);
				}
			}
		}
	}
	if (off != d.size())
		f.error = mc::fmt("payload: expected %zu bytes in all, file has %zu", off, d.size());
	return f;
}

inline bool ktxFormat(File& f, std::uint32_t glType, std::uint32_t glFormat, std::uint32_t typeSize,
	std::uint32_t internal, std::uint32_t base)
{
	// The client format: channel order and whether it is an integer format.
	std::string order;
	bool integer = false;
	switch (glFormat)
	{
		case 0x1903: order = "r"; break;
		case 0x8227: order = "rg"; break;
		case 0x1907: order = "rgb"; break;
		case 0x1908: order = "rgba"; break;
		case 0x80E0: order = "bgr"; break;
		case 0x80E1: order = "bgra"; break;
		case 0x8D94: order = "r"; integer = true; break;
		case 0x8228: order = "rg"; integer = true; break;
		case 0x8D98: order = "rgb"; integer = true; break;
		case 0x8D99: order = "rgba"; integer = true; break;
		case 0x8D9A: order = "bgr"; integer = true; break;
		case 0x8D9B: order = "bgra"; integer = true; break;
		default: f.error = mc::fmt("glFormat 0x%x", glFormat); return false;
	}
	// The internal format: number of channels and how values are to be interpreted.
	struct Internal { std::uint32_t code; unsigned channels; int bits; TT type; bool srgb; };
	static const Internal table[] =
	{
		{0x8056, 4, 4, TT::UNorm, false}, {0x8D62, 3, 565, TT::UNorm, false},
		{0x8057, 4, 5551, TT::UNorm, false},
		{0x8229, 1, 8, TT::UNorm, false}, {0x8F94, 1, 8, TT::SNorm, false},
		{0x8232, 1, 8, TT::UInt, false}, {0x8231, 1, 8, TT::Int, false},
		{0x822B, 2, 8, TT::UNorm, false}, {0x8F95, 2, 8, TT::SNorm, false},
		{0x8238, 2, 8, TT::UInt, false}, {0x8237, 2, 8, TT::Int, false},
		{0x8051, 3, 8, TT::UNorm, false}, {0x8F96, 3, 8, TT::SNorm, false},
		{0x8D7D, 3, 8, TT::UInt, false}, {0x8D8F, 3, 8, TT::Int, false},
		{0x8C41, 3, 8, TT::UNorm, true},
		{0x8058, 4, 8, TT::UNorm, false}, {0x8F97, 4, 8, TT::SNorm, false},
		{0x8D7C, 4, 8, TT::UInt, false}, {0x8D8E, 4, 8, TT::Int, false},
		{0x8C43, 4, 8, TT::UNorm, true},
		{0x8059, 4, 2101010, TT::UNorm, false}, {0x906F, 4, 2101010, TT::UInt, false},
		{0x822A, 1, 16, TT::UNorm, false}, {0x8F98, 1, 16, TT::SNorm, false},
		{0x8234, 1, 16, TT::UInt, false}, {0x8233, 1, 16, TT::Int, false},
		{0x822D, 1, 16, TT::Float, false},
		{0x822C, 2, 16, TT::UNorm, false}, {0x8F99, 2, 16, TT::SNorm, false},
		{0x823A, 2, 16, TT::UInt, false}, {0x8239, 2, 16, TT::Int, false},
		{0x822F, 2, 16, TT::Float, false},
		{0x8054, 3, 16, TT::UNorm, false}, {0x8F9A, 3, 16, TT::SNorm, false},
		{0x8D77, 3, 16, TT::UInt, false}, {0x8D89, 3, 16, TT::Int, false},
		{0x881B, 3, 16, TT::Float, false},
		{0x805B, 4, 16, TT::UNorm, false}, {0x8F9B, 4, 16, TT::SNorm, false},
		{0x8D76, 4, 16, TT::UInt, false}, {0x8D88, 4, 16, TT::Int, false},
		{0x881A, 4, 16, TT::Float, false},
		{0x8236, 1, 32, TT::UInt, false}, {0x8235, 1, 32, TT::Int, false},
		{0x822E, 1, 32, TT::Float, false},
		{0x823C, 2, 32, TT::UInt, false}, {0x823B, 2, 32, TT::Int, false},
		{0x8230, 2, 32, TT::Float, false},
		{0x8D71, 3, 32, TT::UInt, false}, {0x8D83, 3, 32, TT::Int, false},
		{0x8815, 3, 32, TT::Float, false},
		{0x8D70, 4, 32, TT::UInt, false}, {0x8D82, 4, 32, TT::Int, false},
		{0x8814, 4, 32, TT::Float, false},
		{0x8C3A, 3, 111110, TT::UFloat, false}, {0x8C3D, 3, 9995, TT::UFloat, false},
	};
	const Internal* in = nullptr;
	for (const Internal& i : table)
	{
		if (i.code == internal)
			in = &i;
	}
	if (!in)
	{
		f.error = mc::fmt("glInternalFormat 0x%x", internal);
		return false;
	}
	f.srgb = in->srgb;
	if (in->channels != order.size())
	{
		f.error = mc::fmt("glFormat 0x%x does not have the channels of glInternalFormat 0x%x",
			glFormat, internal);
		return false;
	}
	bool isInt = in->type == TT::UInt || in->type == TT::Int;
	if (isInt != integer)
	{
		f.error = mc::fmt("glFormat 0x%x is %san integer format, glInternalFormat 0x%x is%s",
			glFormat, integer ? "" : "not ", internal, isInt ? "" : " not");
		return false;
	}
	std::vector<std::pair<char, int>> comp;
	auto pack = [&](std::vector<int> bits, bool rev, Kind kind = Plain) {
		// Components listed in glFormat order; _REV puts the first one in the low bits.
		comp.clear();
		if (bits.size() != order.size() + (kind == E5999 ? 1 : 0))
			return false;
		// For reversed types the name lists bits from the last component to the first.
		for (std::size_t i = 0; i < bits.size(); ++i)
		{
			std::size_t c = rev ? bits.size() - 1 - i : i;
			comp.emplace_back(c < order.size() ? order[c] : 'e', bits[i]);
		}
		packedMsb(f, comp, in->type, kind);
		return true;
	};
	bool ok = true;
	unsigned wantSize = 0;
	switch (glType)
	{
		case 0x1401: // UNSIGNED_BYTE
			ok = in->bits == 8 && (in->type == TT::UNorm || in->type == TT::UInt);
			arrayOf(f, order.c_str(), 8, in->type);
			wantSize = 1;
			break;
		case 0x1400: // BYTE
			ok = in->bits == 8 && (in->type == TT::SNorm || in->type == TT::Int);
			arrayOf(f, order.c_str(), 8, in->type);
			wantSize = 1;
			break;
		case 0x1403: // UNSIGNED_SHORT
			ok = in->bits == 16 && (in->type == TT::UNorm || in->type == TT::UInt);
			arrayOf(f, order.c_str(), 16, in->type);
			wantSize = 2;
			break;
		case 0x1402: // SHORT
			ok = in->bits == 16 && (in->type == TT::SNorm || in->type == TT::Int);
			arrayOf(f, order.c_str(), 16, in->type);
			wantSize = 2;
			break;
		case 0x140B: // HALF_FLOAT
			ok = in->bits == 16 && in->type == TT::Float;
			arrayOf(f, order.c_str(), 16, in->type);
			wantSize = 2;
			break;
		case 0x1405: // UNSIGNED_INT
			ok = in->bits == 32 && in->type == TT::UInt;
			arrayOf(f, order.c_str(), 32, in->type);
			wantSize = 4;
			break;
		case 0x1404: // INT
			ok = in->bits == 32 && in->type == TT::Int;
			arrayOf(f, order.c_str(), 32, in->type);
			wantSize = 4;
			break;
		case 0x1406: // FLOAT
			ok = in->bits == 32 && in->type == TT::Float;
			arrayOf(f, order.c_str(), 32, in->type);
			wantSize = 4;
			break;
		case 0x8033: ok = in->bits == 4 && pack({4, 4, 4, 4}, false); wantSize = 2; break;
		case 0x8365: ok = in->bits == 4 && pack({4, 4, 4, 4}, true); wantSize = 2; break;
		case 0x8034: ok = in->bits == 5551 && pack({5, 5, 5, 1}, false); wantSize = 2; break;
		case 0x8366: ok = in->bits == 5551 && pack({1, 5, 5, 5}, true); wantSize = 2; break;
		case 0x8363: ok = in->bits == 565 && pack({5, 6, 5}, false); wantSize = 2; break;
		case 0x8364: ok = in->bits == 565 && pack({5, 6, 5}, true); wantSize = 2; break;
		case 0x8035: ok = in->bits == 8 && pack({8, 8, 8, 8}, false); wantSize = 4; break;
		case 0x8367: ok = in->bits == 8 && pack({8, 8, 8, 8}, true); wantSize = 4; break;
		case 0x8036: ok = in->bits == 2101010 && pack({10, 10, 10, 2}, false); wantSize = 4; break;
		case 0x8368: ok = in->bits == 2101010 && pack({2, 10, 10, 10}, true); wantSize = 4; break;
		case 0x8C3B: ok = in->bits == 111110 && pack({10, 11, 11}, true, UF111110); wantSize = 4;
			break;
		case 0x8C3E: ok = in->bits == 9995 && pack({5, 9, 9, 9}, true, E5999); wantSize = 4; break;
		default: f.error = mc::fmt("glType 0x%x", glType); return false;
	}
	if (!ok)
	{
		f.error = mc::fmt("glType 0x%x does not fit glFormat 0x%x and glInternalFormat 0x%x",
			glType, glFormat, internal);
		return false;
	}
	if (typeSize != wantSize)
	{
		f.error = mc::fmt("glTypeSize %u", typeSize);
		return false;
	}
	// Base format: the unsized format with the same channels (luminance names are the old ones).
	unsigned baseChannels = base == 0x1903 || base == 0x1909 ? 1 : base == 0x8227 || base == 0x190A ?
		2 : base == 0x1907 || base == 0x80E0 ? 3 : base == 0x1908 || base == 0x80E1 ? 4 : 0;
	if (baseChannels != in->channels)
	{
		f.error = mc::fmt("glBaseInternalFormat 0x%x", base);
		return false;
	}
	return true;
}

inline File readKtx(const std::vector<std::uint8_t>& d)
{
	File f;
	static const std::uint8_t id[12] =
		{0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A, 0x0A};
	if (d.size() < 64 || memcmp(d.data(), id, 12) != 0)
	{
		f.error = "identifier";
		return f;
	}
	Reader r{d.data(), d.size(), 12, true};
	std::uint32_t endian = r.u32(), glType = r.u32(), typeSize = r.u32(), glFormat = r.u32();
	std::uint32_t internal = r.u32(), base = r.u32(), w = r.u32(), h = r.u32(), dp = r.u32();
	std::uint32_t elements = r.u32(), faces = r.u32(), mips = r.u32(), kv = r.u32();
	if (endian != 0x04030201)
	{
		f.error = "endianness";
		return f;
	}
	for (const blk::Block& e : blk::blocks())
	{
		if (e.gl[0] != internal && e.gl[1] != internal)
			continue;
		f.srgb = e.gl[1] == internal;
		f.block.push_back(&e);
		// Luminance names are the old ones for one and two channels.
		bool ok = base == e.glBase || (e.glBase == 0x1903 && base == 0x1909) ||
			(e.glBase == 0x8227 && base == 0x190A);
		if (glType != 0 || glFormat != 0 || typeSize != 1 || !ok)
		{
			f.error = mc::fmt("glType 0x%x glFormat 0x%x glTypeSize %u glBaseInternalFormat 0x%x for %s", glType,
				glFormat, typeSize, base, e.name);
			return f;
		}
	}
	if (f.block.empty() && !ktxFormat(f, glType, glFormat, typeSize, internal, base))
		return f;
	if (mips == 0 || w == 0 || (dp && !h) || (faces != 1 && faces != 6) || kv > d.size() - 64)
	{
		f.error = "sizes";
		return f;
	}
	f.dim = faces == 6 ? Dim::Cube : dp ? Dim::D3 : h ? Dim::D2 : Dim::D1;
	f.width = w;
	f.height = std::max(h, 1u);
	f.depth = std::max(dp, 1u);
	f.layers = std::max(elements, 1u);
	f.array = elements > 0;
	f.faces = faces;
	f.mips = mips;
	std::size_t off = 64 + kv;
	for (unsigned m = 0; m < mips; ++m)
	{
		r.pos = off;
		if (off + 4 > d.size())
		{
			f.error = "payload ends early";
			return f;
		}
		std::uint32_t imageSize = r.u32();
		off += 4;
		std::size_t pitch = (pitchOf(f, m) + 3)/4*4;
		std::size_t surface = pitch*rowsOf(f, m);
		std::size_t want = surface*mipSize(f.depth, m)*f.layers;
		if (faces == 6 && !f.array)
			; // The size of one face.
		else
			want *= faces;
		if (imageSize != want)
		{
			f.error = mc::fmt("imageSize of level %u is %u, not %zu", m, imageSize, want);
			return f;
		}
		for (unsigned l = 0; l < f.layers; ++l)
		{
			for (unsigned face = 0; face < faces; ++face)
			{
				for (unsigned s = 0; s < mipSize(f.depth, m); ++s)
				{
					f.surfaces.push_back({l, face, m, s, off, pitch, rowsOf(f, m)});
					off += surface;
				}
			}
		}
	}
	if (off != d.size())
		f.error = mc::fmt("payload: expected %zu bytes in all, file has %zu", off, d.size());
	return f;
}

inline File readPvr(const std::vector<std::uint8_t>& d)
{
	File f;
	Reader r{d.data(), d.size(), 0, true};
	if (d.size() < 52)
	{
		f.error = "too short";
		return f;
	}
	std::uint32_t version = r.u32(), flags = r.u32(), pfLow = r.u32(), pfHigh = r.u32();
	std::uint32_t space = r.u32(), ctype = r.u32(), h = r.u32(), w = r.u32(), dp = r.u32();
	std::uint32_t surfaces = r.u32(), faces = r.u32(), mips = r.u32(), meta = r.u32();
	if (version != 0x03525650)
	{
		f.error = "version";
		return f;
	}
	f.premultiplied = flags & 2 ? 1 : 0;
	if (space > 1 || (flags & ~2u))
	{
		f.error = "colour space or flags";
		return f;
	}
	f.srgb = space == 1;
	// Channel type: 0 ubyteN 1 sbyteN 2 ubyte 3 sbyte 4 ushortN 5 sshortN 6 ushort 7 sshort
	// 8 uintN 9 sintN 10 uint 11 sint 12 float 13 ufloat
	static const struct { int bits; TT type; } ct[] = {{8, TT::UNorm}, {8, TT::SNorm},
		{8, TT::UInt}, {8, TT::Int}, {16, TT::UNorm}, {16, TT::SNorm}, {16, TT::UInt},
		{16, TT::Int}, {32, TT::UNorm}, {32, TT::SNorm}, {32, TT::UInt}, {32, TT::Int},
		{0, TT::Float}, {0, TT::UFloat}};
	if (ctype > 13)
	{
		f.error = mc::fmt("channel type %u", ctype);
		return f;
	}
	TT type = ct[ctype].type;
	if (pfHigh == 0 && pfLow != 19)
	{
		// DXT2 and DXT4 are the premultiplied kinds of DXT3 and DXT5.
		int code = int(pfLow) + (pfLow == 8 || pfLow == 10);
		bool pre = code != int(pfLow);
		for (const blk::Block& e : blk::blocks())
		{
			// Block formats keep the type of their channels, whose size means nothing to most of them.
			bool sized = e.codec == blk::Bc4 || e.codec == blk::Bc5 || (e.codec == blk::EtcC && e.pvr >= 25);
			int bits = e.pvr >= 25 ? 16 : 8;
			if (e.pvr == code && e.type == type && (!sized || ct[ctype].bits == bits))
				f.block.push_back(&e);
		}
		if (f.block.empty() || ((code == 9 || code == 11) && pre != (f.premultiplied == 1)))
		{
			f.error = mc::fmt("compressed pixel format %u with channel type %u and premultiplied %d", pfLow, ctype,
				f.premultiplied);
			return f;
		}
	}
	else if (pfHigh == 0)
	{
		packedMsb(f, {{'e', 5}, {'b', 9}, {'g', 9}, {'r', 9}}, type, E5999);
	}
	else
	{
		std::vector<std::pair<char, int>> c;
		int total = 0;
		bool equal = true, ended = false;
		for (int i = 0; i < 4; ++i)
		{
			char ch = char(pfLow >> (8*i));
			int bits = int(pfHigh >> (8*i) & 255);
			if (!ch || !bits)
			{
				if (ch || bits)
					f.error = "channel without name or bits";
				ended = true;
				continue;
			}
			if (ended || std::string("rgba").find(ch) == std::string::npos)
			{
				f.error = mc::fmt("channel names 0x%08x", pfLow);
				return f;
			}
			c.emplace_back(ch, bits);
			total += bits;
			equal = equal && bits == c[0].second;
		}
		if (!f.error.empty())
			return f;
		if (equal && c[0].second % 8 == 0)
		{
			std::string order;
			for (auto& e : c)
				order += e.first;
			arrayOf(f, order.c_str(), c[0].second, type);
			int have = ct[ctype].bits;
			if (have ? have != c[0].second : c[0].second == 8)
			{
				f.error = mc::fmt("channel type %u for %d bit channels", ctype, c[0].second);
				return f;
			}
		}
		else
		{
			if (total != 8 && total != 16 && total != 32)
			{
				f.error = "packed size";
				return f;
			}
			// Packed: the first name is in the most significant bits.
			packedMsb(f, c, type, type == TT::UFloat ? UF111110 : Plain);
			if (ct[ctype].bits != 0 && ct[ctype].bits != total)
			{
				f.error = mc::fmt("channel type %u for a %d bit word", ctype, total);
				return f;
			}
		}
	}
	if (mips == 0 || w == 0 || h == 0 || dp == 0 || surfaces == 0 || (faces != 1 && faces != 6) ||
		meta > d.size() - 52)
	{
		f.error = "sizes";
		return f;
	}
	f.width = w;
	f.height = h;
	f.depth = dp;
	f.layers = surfaces;
	f.faces = faces;
	f.mips = mips;
	bool dim1 = false;
	std::size_t end = 52 + meta;
	while (r.pos < end)
	{
		if (end - r.pos < 12)
		{
			f.error = "metadata is cut off";
			return f;
		}
		std::uint32_t fourcc = r.u32(), key = r.u32(), size = r.u32();
		if (size > end - r.pos)
		{
			f.error = "metadata block exceeds the metadata";
			return f;
		}
		if (fourcc == 0x53465443) // 'CTFS'
		{
			if (key == 0x59525241) // 'ARRY'
				f.array = true;
			else if (key == 0x314D4944) // 'DIM1'
				dim1 = true;
			else if (key == 0x41314342 || key == 0x00314342) // 'BC1A', 'BC1'
				f.bc1Alpha = key == 0x41314342;
			else
				f.error = mc::fmt("unknown metadata key 0x%08x", key);
		}
		else
			f.error = mc::fmt("unknown metadata 0x%08x", fourcc);
		r.pos += size;
	}
	if (!f.error.empty())
		return f;
	f.dim = dim1 ? Dim::D1 : faces == 6 ? Dim::Cube : dp > 1 ? Dim::D3 : Dim::D2;
	std::size_t off = end;
	for (unsigned m = 0; m < mips; ++m)
	{
		for (unsigned l = 0; l < surfaces; ++l)
		{
			for (unsigned face = 0; face < faces; ++face)
			{
				for (unsigned s = 0; s < mipSize(dp, m); ++s)
				{
					std::size_t pitch = pitchOf(f, m);
					f.surfaces.push_back({l, face, m, s, off, pitch, rowsOf(f, m)});
					off += pitch*rowsOf(f, m);
				}
			}
		}
	}
	if (off != d.size())
		f.error = mc::fmt("payload: expected %zu bytes in all, file has %zu", off, d.size());
	return f;
}

// Compares what the file says of the texture with the texture. bad(field, file's, texture's).
inline void compareShape(const File& f, bool pvr, Texture::Dimension td, unsigned w, unsigned h, unsigned depth,
	unsigned mips, ColorSpace cs, Texture::Alpha alpha, bool hasAlpha,
	const std::function<void(const char*, long, long)>& bad)
{
	typedef Texture::Dimension D;
	Dim dim = td == D::Dim1D ? Dim::D1 : td == D::Dim2D ? Dim::D2 : td == D::Cube ? Dim::Cube : Dim::D3;
	bool is3d = dim == Dim::D3, cube = dim == Dim::Cube;
	// The PVR layout has no separate notion of a 3D texture of depth 1.
	if (f.dim != dim && !(pvr && is3d && depth == 1 && f.dim == Dim::D2))
		bad("dimension", int(f.dim), int(dim));
	if (f.width != w)
		bad("width", f.width, w);
	if (f.height != h)
		bad("height", f.height, h);
	if (f.depth != (is3d ? depth : 1))
		bad("depth", f.depth, is3d ? depth : 1);
	unsigned layers = is3d ? 1 : std::max(depth, 1u);
	if (f.layers != layers)
		bad("layers", f.layers, layers);
	if (f.arrayKnown && f.array != (!is3d && depth > 0))
		bad("array", f.array, !is3d && depth > 0);
	if (f.faces != (cube ? 6u : 1u))
		bad("faces", f.faces, cube ? 6 : 1);
	if (f.mips != mips)
		bad("mips", f.mips, mips);
	if (f.srgb != (cs == ColorSpace::sRGB))
		bad("srgb", f.srgb, cs == ColorSpace::sRGB);
	bool pre = alpha == Texture::Alpha::PreMultiplied;
	if (f.premultiplied >= 0 && f.premultiplied != pre)
		bad("premultiplied", f.premultiplied, pre);
	if (f.alphaMode >= 0)
	{
		// 1 straight, 2 premultiplied, 3 opaque, 4 custom
		int m = !hasAlpha || alpha == Texture::Alpha::None ? 3 : pre ? 2 : alpha == Texture::Alpha::Standard ? 1 : 4;
		if (f.alphaMode != m)
			bad("alphaMode", f.alphaMode, m);
	}
}

} // namespace cont
