id='c02-uint-trunc'
property='C02'
needs='a fractional blue value in the unsigned-integer A2R10G10B10 format'
breaks='The blue channel is truncated instead of rounded to the nearest integer.'
edits=[('lib/src/StandardConverter.cpp','''		auto b = static_cast<std::uint32_t>(std::round(clamp(scanline[col].b, 0, 0x3FF)));
		auto a = static_cast<std::uint32_t>(std::round(clamp(scanline[col].a, 0, 0x3)));
		curData[i] = static_cast<std::uint32_t>(b | (g << 10) | (r << 20) | (a << 30));''','''		auto b = static_cast<std::uint32_t>(clamp(scanline[col].b, 0, 0x3FF));
		auto a = static_cast<std::uint32_t>(std::round(clamp(scanline[col].a, 0, 0x3)));
		curData[i] = static_cast<std::uint32_t>(b | (g << 10) | (r << 20) | (a << 30));''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <cstring>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBAF, 1, 1);
	im.setPixel(0, 0, ColorRGBAd{10.75, 20.75, 30.75, 1.75});
	Texture t(Texture::Dimension::Dim2D, 1, 1);
	t.setImage(im);
	if (!t.convert(Texture::Format::A2R10G10B10, Texture::Type::UInt))
		return 4;
	unsigned v;
	std::memcpy(&v, t.data(), 4);
	return v != (31u | 21u << 10 | 11u << 20 | 2u << 30);
}
'''
