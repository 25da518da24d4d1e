id='c09-once-chain'
property='C09'
needs='a custom mip with Once replacement at least two levels before the last one, and a filter for which skipping a level matters'
breaks='After a Once custom image every later level is resized from the image it replaced instead of from the previous level.'
edits=[('lib/src/Texture.cpp','''					else
						prevImage = Image();

					Image& thisMipImage''','''					else if (customMip)
						prevImage = Image();

					Image& thisMipImage''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <cstring>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBAF, 16, 16), custom(Image::Format::RGBAF, 8, 8);
	for (unsigned y = 0; y < 16; ++y)
		for (unsigned x = 0; x < 16; ++x)
		{
			double v = ((x*7 + y*5) % 16)/15.0;
			im.setPixel(x, y, ColorRGBAd{v, 1 - v, v*v, 1});
			if (x < 8 && y < 8)
				custom.setPixel(x, y, ColorRGBAd{1, 0, 0, 1});
		}
	Texture plain(Texture::Dimension::Dim2D, 16, 16), once(Texture::Dimension::Dim2D, 16, 16);
	plain.setImage(im);
	once.setImage(im);
	Texture::CustomMipImages customs;
	customs.emplace(Texture::ImageIndex(1), Texture::CustomMipImage(std::move(custom), Texture::MipReplacement::Once));
	if (!plain.generateMipmaps(Image::ResizeFilter::CatmullRom) ||
		!once.generateMipmaps(Image::ResizeFilter::CatmullRom, Texture::allMipLevels, customs))
		return 4;
	for (unsigned m = 2; m < plain.mipLevelCount(); ++m)
		for (unsigned y = 0; y < plain.height(m); ++y)
			if (std::memcmp(plain.getImage(m).scanline(y), once.getImage(m).scanline(y), plain.width(m)*16))
				return 1;
	return 0;
}
'''
