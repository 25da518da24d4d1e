#pragma once
#include <cstdint>
namespace rgbcx
{
enum : std::uint32_t { MIN_LEVEL = 0, MAX_LEVEL = 18 };
void init();
void encode_bc1(std::uint32_t level, void* dst, const std::uint8_t* pixels, bool allow3Color,
	bool transparentTexelsForBlack, const void* extra = nullptr);
void encode_bc3(std::uint32_t level, void* dst, const std::uint8_t* pixels);
void encode_bc3_hq(std::uint32_t level, void* dst, const std::uint8_t* pixels,
	std::uint32_t searchRadius = 5);
void encode_bc4(void* dst, const std::uint8_t* pixels, std::uint32_t stride = 4);
void encode_bc4_hq(void* dst, const std::uint8_t* pixels, std::uint32_t stride = 4,
	std::uint32_t searchRadius = 5);
void encode_bc5(void* dst, const std::uint8_t* pixels, std::uint32_t chan0 = 0,
	std::uint32_t chan1 = 1, std::uint32_t stride = 4);
void encode_bc5_hq(void* dst, const std::uint8_t* pixels, std::uint32_t chan0 = 0,
	std::uint32_t chan1 = 1, std::uint32_t stride = 4, std::uint32_t searchRadius = 5);
}
