id='c09-late-refusal'
property='C09'
needs='a 3D texture with custom mip images given for some layers of a level only'
breaks='The texture has lost or gained mip levels although the call was refused.'
edits=[('lib/src/Texture.cpp','''	m_impl->mipLevels = mipLevels;
	m_impl->images.resize(mipLevels);

''','''	m_impl->images.resize(mipLevels);

'''),('lib/src/Texture.cpp','''	if (m_impl->dimension == Dimension::Dim3D)
	{
		// Check for custom''','''	m_impl->mipLevels = mipLevels;
	if (m_impl->dimension == Dimension::Dim3D)
	{
		// Check for custom''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Texture t(Texture::Dimension::Dim3D, 4, 4, 4);
	Image im(Image::Format::RGBAF, 4, 4);
	for (unsigned d = 0; d < 4; ++d)
		if (!t.setImage(im, 0, d))
			return 2;
	Texture::CustomMipImages c;
	c.emplace(Texture::ImageIndex(1, 0), Texture::CustomMipImage(im, Texture::MipReplacement::Once));
	if (t.generateMipmaps(Image::ResizeFilter::Box, Texture::allMipLevels, c))
		return 2;
	return t.mipLevelCount() != 1;
}
'''
