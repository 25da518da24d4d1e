id='c08-moved-face'
property='C08'
needs='a linear RGBAF image moved into an sRGB texture through the overload with a cube face'
breaks='The moved image keeps its own colour space and values.'
edits=[('lib/src/Texture.cpp','''	if (image.format() == Image::Format::RGBAF)
		m_impl->images[mipLevel][depth][static_cast<unsigned int>(face)] = std::move(image);
	else
''','''	if (image.format() == Image::Format::RGBAF)
	{
		m_impl->images[mipLevel][depth][static_cast<unsigned int>(face)] = std::move(image);
		return true;
	}
	else
''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Texture t(Texture::Dimension::Cube, 2, 2, 0, 1, ColorSpace::sRGB);
	Image im(Image::Format::RGBAF, 2, 2, ColorSpace::Linear);
	im.setPixel(0, 0, ColorRGBAd{0.5, 0.5, 0.5, 1});
	if (!t.setImage(std::move(im), Texture::CubeFace::NegY))
		return 2;
	ColorRGBAd c;
	const Image& got = t.getImage(Texture::CubeFace::NegY);
	if (!got.getPixel(c, 0, 0))
		return 2;
	return got.colorSpace() != ColorSpace::sRGB || c.r < 0.7;
}
'''
