// Independent description of the block-compressed formats.
#pragma once
#include "tex.h"

namespace blk
{
using namespace tex;

enum Codec { Bc1, Bc1A, Bc2, Bc3, Bc4, Bc5, Bc6, Bc7, EtcC, Astc, Pvrtc };
struct Block
{
	TF format;
	TT type;
	const char* name;
	Codec codec;
	unsigned w, h, size;
	bool srgb, alpha;
	// Codes of the published layouts; 0: not representable. Second: sRGB.
	std::uint32_t dxgi[2], gl[2];
	std::uint32_t glBase;
	int pvr;
};

inline const std::vector<Block>& blocks()
{
	static const std::vector<Block> list = [] {
		const TT UN = TT::UNorm, SN = TT::SNorm, UF = TT::UFloat, FL = TT::Float;
		const std::uint32_t R = 0x1903, RG = 0x8227, RGB = 0x1907, RGBA = 0x1908;
		std::vector<Block> l = {
			{TF::BC1_RGB, UN, "BC1_RGB", Bc1, 4, 4, 8, true, false, {71, 72}, {0x83F0, 0x8C4C}, RGB, 7},
			{TF::BC1_RGBA, UN, "BC1_RGBA", Bc1A, 4, 4, 8, true, true, {71, 72}, {0x83F1, 0x8C4D}, RGBA, 7},
			{TF::BC2, UN, "BC2", Bc2, 4, 4, 16, true, true, {74, 75}, {0x83F2, 0x8C4E}, RGBA, 9},
			{TF::BC3, UN, "BC3", Bc3, 4, 4, 16, true, true, {77, 78}, {0x83F3, 0x8C4F}, RGBA, 11},
			{TF::BC4, UN, "BC4", Bc4, 4, 4, 8, false, false, {80, 0}, {0x8DBB, 0}, R, 12},
			{TF::BC4, SN, "BC4", Bc4, 4, 4, 8, false, false, {81, 0}, {0x8DBC, 0}, R, 12},
			{TF::BC5, UN, "BC5", Bc5, 4, 4, 16, false, false, {83, 0}, {0x8DBD, 0}, RG, 13},
			{TF::BC5, SN, "BC5", Bc5, 4, 4, 16, false, false, {84, 0}, {0x8DBE, 0}, RG, 13},
			{TF::BC6H, UF, "BC6H", Bc6, 4, 4, 16, false, false, {95, 0}, {0x8E8F, 0}, RGB, 14},
			{TF::BC6H, FL, "BC6H", Bc6, 4, 4, 16, false, false, {96, 0}, {0x8E8E, 0}, RGB, 14},
			{TF::BC7, UN, "BC7", Bc7, 4, 4, 16, true, true, {98, 99}, {0x8E8C, 0x8E8D}, RGBA, 15},
			{TF::ETC1, UN, "ETC1", EtcC, 4, 4, 8, false, false, {0, 0}, {0x8D64, 0}, RGB, 6},
			{TF::ETC2_R8G8B8, UN, "ETC2_R8G8B8", EtcC, 4, 4, 8, true, false, {0, 0}, {0x9274, 0x9275}, RGB, 22},
			{TF::ETC2_R8G8B8A1, UN, "ETC2_R8G8B8A1", EtcC, 4, 4, 8, true, true, {0, 0}, {0x9276, 0x9277}, RGBA, 24},
			{TF::ETC2_R8G8B8A8, UN, "ETC2_R8G8B8A8", EtcC, 4, 4, 16, true, true, {0, 0}, {0x9278, 0x9279}, RGBA, 23},
			{TF::EAC_R11, UN, "EAC_R11", EtcC, 4, 4, 8, false, false, {0, 0}, {0x9270, 0}, R, 25},
			{TF::EAC_R11, SN, "EAC_R11", EtcC, 4, 4, 8, false, false, {0, 0}, {0x9271, 0}, R, 25},
			{TF::EAC_R11G11, UN, "EAC_R11G11", EtcC, 4, 4, 16, false, false, {0, 0}, {0x9272, 0}, RG, 26},
			{TF::EAC_R11G11, SN, "EAC_R11G11", EtcC, 4, 4, 16, false, false, {0, 0}, {0x9273, 0}, RG, 26},
			{TF::PVRTC1_RGB_2BPP, UN, "PVRTC1_RGB_2BPP", Pvrtc, 8, 4, 8, true, false, {0, 0}, {0x8C01, 0x8A54}, RGB, 0},
			{TF::PVRTC1_RGBA_2BPP, UN, "PVRTC1_RGBA_2BPP", Pvrtc, 8, 4, 8, true, true, {0, 0}, {0x8C03, 0x8A56}, RGBA, 1},
			{TF::PVRTC1_RGB_4BPP, UN, "PVRTC1_RGB_4BPP", Pvrtc, 4, 4, 8, true, false, {0, 0}, {0x8C00, 0x8A55}, RGB, 2},
			{TF::PVRTC1_RGBA_4BPP, UN, "PVRTC1_RGBA_4BPP", Pvrtc, 4, 4, 8, true, true, {0, 0}, {0x8C02, 0x8A57}, RGBA, 3},
			{TF::PVRTC2_RGBA_2BPP, UN, "PVRTC2_RGBA_2BPP", Pvrtc, 8, 4, 8, true, true, {0, 0}, {0x9137, 0x93F0}, RGBA, 4},
			{TF::PVRTC2_RGBA_4BPP, UN, "PVRTC2_RGBA_4BPP", Pvrtc, 4, 4, 8, true, true, {0, 0}, {0x9138, 0x93F1}, RGBA, 5},
		};
		static const struct { TF f; const char* name; unsigned w, h; } astc[] = {
			{TF::ASTC_4x4, "ASTC_4x4", 4, 4}, {TF::ASTC_5x4, "ASTC_5x4", 5, 4}, {TF::ASTC_5x5, "ASTC_5x5", 5, 5},
			{TF::ASTC_6x5, "ASTC_6x5", 6, 5}, {TF::ASTC_6x6, "ASTC_6x6", 6, 6}, {TF::ASTC_8x5, "ASTC_8x5", 8, 5},
			{TF::ASTC_8x6, "ASTC_8x6", 8, 6}, {TF::ASTC_8x8, "ASTC_8x8", 8, 8}, {TF::ASTC_10x5, "ASTC_10x5", 10, 5},
			{TF::ASTC_10x6, "ASTC_10x6", 10, 6}, {TF::ASTC_10x8, "ASTC_10x8", 10, 8},
			{TF::ASTC_10x10, "ASTC_10x10", 10, 10}, {TF::ASTC_12x10, "ASTC_12x10", 12, 10},
			{TF::ASTC_12x12, "ASTC_12x12", 12, 12}};
		for (std::uint32_t i = 0; i < 14; ++i)
		{
			for (TT t : {UN, UF})
			{
				l.push_back({astc[i].f, t, astc[i].name, Astc, astc[i].w, astc[i].h, 16, t == UN, true, {0, 0},
					{0x93B0 + i, t == UN ? 0x93D0 + i : 0}, RGBA, int(27 + i)});
			}
		}
		return l;
	}();
	return list;
}

inline std::string blockName(const Block& b) { return mc::fmt("%s-%s", b.name, typeName(b.type)); }
inline unsigned blocksX(const Block& b, unsigned w)
{
	unsigned n = (w + b.w - 1)/b.w;
	return b.codec == Pvrtc && b.pvr < 4 ? std::max(n, 2u) : n;
}
inline unsigned blocksY(const Block& b, unsigned h)
{
	unsigned n = (h + b.h - 1)/b.h;
	return b.codec == Pvrtc && b.pvr < 4 ? std::max(n, 2u) : n;
}
} // namespace blk
