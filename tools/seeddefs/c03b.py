id='c03-face-alias'
property='C03'
needs='asking a texture that is not a cube map for the data of another face'
breaks='The data of the only face is returned rather than nothing.'
edits=[('lib/src/Texture.cpp','''	if (!converted() || depth >= Texture::depth(mipLevel) ||
		(m_impl->faces != 6 && face != CubeFace::PosX))
	{
		return nullptr;
	}

	return m_impl->textures[mipLevel][depth][static_cast<unsigned int>(face)].data();
''','''	if (!converted() || depth >= Texture::depth(mipLevel))
		return nullptr;

	return m_impl->textures[mipLevel][depth][
		std::min(static_cast<unsigned int>(face), m_impl->faces - 1)].data();
''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBAF, 4, 4);
	Texture t(Texture::Dimension::Dim2D, 4, 4);
	t.setImage(im);
	if (!t.convert(Texture::Format::R8, Texture::Type::UNorm))
		return 2;
	return t.data(Texture::CubeFace::NegZ) == nullptr ? 0 : 1;
}
'''
