id='c08-own-image'
property='C08'
needs="setImage() with the texture's own image of the same level and slice, as getImage() returns it"
breaks='The image is emptied before it is read, so it cannot be set.'
edits=[('lib/src/Texture.cpp','''	m_impl->images[mipLevel][depth][0] = image.convert(Image::Format::RGBAF);
	m_impl->images[mipLevel][depth][0].changeColorSpace(m_impl->colorSpace);
	return m_impl->images[mipLevel][depth][0].isValid();
}

bool Texture::setImage(Image&& image, unsigned int mipLevel, unsigned int depth)
''','''	// Release the previous image first so they aren't both in memory at the same time.
	Image& destination = m_impl->images[mipLevel][depth][0];
	destination.reset();
	destination = image.convert(Image::Format::RGBAF);
	destination.changeColorSpace(m_impl->colorSpace);
	return destination.isValid();
}

bool Texture::setImage(Image&& image, unsigned int mipLevel, unsigned int depth)
''')]
demo=r'''
#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Image a(Image::Format::RGBA8, 4, 4);
	for (unsigned y = 0; y < 4; ++y)
		for (unsigned x = 0; x < 4; ++x)
			a.setPixel(x, y, ColorRGBAd{x/4.0, y/4.0, 0.5, 1});
	Texture t(Texture::Dimension::Dim2D, 4, 4);
	if (!t.setImage(a))
		return 2;
	const Texture& c = t;
	const Image& own = c.getImage();
	if (!t.setImage(own) || !t.imagesComplete())
		return 1;
	ColorRGBAd p;
	if (!c.getImage().getPixel(p, 1, 2))
		return 1;
	return !(p.g > 0.45 && p.g < 0.55);
}
'''
