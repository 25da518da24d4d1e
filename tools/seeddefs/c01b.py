id='c01-static-scratch'
property='C01'
needs='two workers inside the blue-green-red converter at the same time'
breaks='The texel is assembled in a buffer shared by all threads, so concurrent workers mix their channels.'
edits=[('lib/src/StandardConverter.cpp','''		curData[i*3] = static_cast<std::uint8_t>(
			std::round(clamp(scanline[col].b, 0.0f, 1.0f)*0xFF));
		curData[i*3 + 1] = static_cast<std::uint8_t>(
			std::round(clamp(scanline[col].g, 0.0f, 1.0f)*0xFF));
		curData[i*3 + 2] = static_cast<std::uint8_t>(
			std::round(clamp(scanline[col].r, 0.0f, 1.0f)*0xFF));
''','''		static ColorRGBAf texel;
		texel = scanline[col];
		curData[i*3] = static_cast<std::uint8_t>(
			std::round(clamp(texel.b, 0.0f, 1.0f)*0xFF));
		curData[i*3 + 1] = static_cast<std::uint8_t>(
			std::round(clamp(texel.g, 0.0f, 1.0f)*0xFF));
		curData[i*3 + 2] = static_cast<std::uint8_t>(
			std::round(clamp(texel.r, 0.0f, 1.0f)*0xFF));
''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <cstring>
#include <vector>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBAF, 512, 64);
	for (unsigned y = 0; y < 64; ++y)
		for (unsigned x = 0; x < 512; ++x)
			im.setPixel(x, y, ColorRGBAd{x/512.0, y/64.0, (x*y % 97)/97.0, 1});
	std::vector<char> want;
	for (int k = 0; k < 400; ++k)
	{
		Texture t(Texture::Dimension::Dim2D, 512, 64);
		t.setImage(im);
		if (!t.convert(Texture::Format::B8G8R8, Texture::Type::UNorm, Texture::Quality::Normal,
				Texture::Alpha::Standard, Texture::ColorMask(), k == 0 ? 1 : 8))
			return 4;
		const char* d = static_cast<const char*>(t.data());
		if (k == 0)
			want.assign(d, d + t.dataSize());
		else if (t.dataSize() != want.size() || std::memcmp(d, want.data(), want.size()))
			return 1;
	}
	return 0;
}
'''
