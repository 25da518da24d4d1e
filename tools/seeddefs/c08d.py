id='c08-rejected-format'
property='C08'
needs='a conversion of an sRGB texture that is rejected after one that was accepted'
breaks='The rejected conversion changes the format and type of the converted texture.'
edits=[('lib/src/Texture.cpp','''	if (m_impl->colorSpace == ColorSpace::sRGB && !hasNativeSRGB(format, type))
		return false;

	m_impl->format = format;
	m_impl->type = type;
''','''	m_impl->format = format;
	m_impl->type = type;
	if (m_impl->colorSpace == ColorSpace::sRGB && !hasNativeSRGB(format, type))
		return false;

''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBAF, 2, 2, ColorSpace::sRGB);
	for (unsigned i = 0; i < 4; ++i)
		im.setPixel(i & 1, i/2, ColorRGBAd{0.5, 0.5, 0.5, 1});
	Texture t(Texture::Dimension::Dim2D, 2, 2, 0, 1, ColorSpace::sRGB);
	t.setImage(im);
	if (!t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm))
		return 2;
	t.setImage(im);
	if (t.convert(Texture::Format::R32G32, Texture::Type::Float))
		return 2;
	return t.format() == Texture::Format::R8G8B8A8 && t.type() == Texture::Type::UNorm ? 0 : 1;
}
'''
