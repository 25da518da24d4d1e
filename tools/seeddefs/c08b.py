id='c08-space-after'
property='C08'
needs='converting an sRGB texture to a format without native sRGB, which is refused'
breaks='The refused conversion changes the format, type, alpha type and colour mask that the texture reports although it has no data.'
edits=[('lib/src/Texture.cpp','''	if (m_impl->colorSpace == ColorSpace::sRGB && !hasNativeSRGB(format, type))
		return false;

	m_impl->format = format;
	m_impl->type = type;
	m_impl->alphaType = alphaType;
	m_impl->colorMask = colorMask;

''','''	m_impl->format = format;
	m_impl->type = type;
	m_impl->alphaType = alphaType;
	m_impl->colorMask = colorMask;

	if (m_impl->colorSpace == ColorSpace::sRGB && !hasNativeSRGB(format, type))
		return false;

''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBA8, 2, 2, ColorSpace::sRGB);
	Texture t(Texture::Dimension::Dim2D, 2, 2, 0, 1, ColorSpace::sRGB);
	if (!t.setImage(im))
		return 2;
	if (t.convert(Texture::Format::R16, Texture::Type::UNorm))
		return 2;
	return t.format() != Texture::Format::Unknown;
}
'''
