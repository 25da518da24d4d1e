id='c17-assign-alpha'
property='C17'
needs='copy assignment of a texture that is not converted to one that is'
breaks='The alpha type of the target is kept.'
edits=[('lib/src/Texture.cpp','''		if (m_impl)
			*m_impl = *other.m_impl;
		else''','''		if (m_impl)
		{
			Alpha alphaType = m_impl->textures.empty() ? other.m_impl->alphaType :
				m_impl->alphaType;
			*m_impl = *other.m_impl;
			if (m_impl->textures.empty())
				m_impl->alphaType = alphaType;
		}
		else''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Texture a(Texture::Dimension::Dim2D, 2, 2), b(Texture::Dimension::Dim2D, 2, 2);
	a.setImage(Image(Image::Format::RGBAF, 2, 2));
	a.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal, Texture::Alpha::PreMultiplied);
	Texture::Alpha expected = b.alphaType();
	a = b;
	return a.converted() || a.alphaType() != expected;
}
'''
