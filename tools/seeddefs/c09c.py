id='c09-leak-prev'
property='C09'
needs='a custom image that is used once at the last level of a face or layer, followed by another one'
breaks='The first mipmap of the next face is made from the image that was replaced at the last level of the face before.'
edits=[('lib/src/Texture.cpp','''		// Then process mip by mip to make it easier to manage custom replacements.
''','''		// Then process mip by mip to make it easier to manage custom replacements.
		Image prevImage;
'''),('lib/src/Texture.cpp','''				Image prevImage;
				for (unsigned int mip = 1;''','''				for (unsigned int mip = 1;''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <cmath>
using namespace cuttlefish;
static Image flat(unsigned s, double v)
{
	Image im(Image::Format::RGBAF, s, s);
	for (unsigned y = 0; y < s; ++y)
		for (unsigned x = 0; x < s; ++x)
			im.setPixel(x, y, ColorRGBAd{v, v, v, 1});
	return im;
}
int main()
{
	Texture t(Texture::Dimension::Dim2D, 4, 4, 2);
	t.setImage(flat(4, 0.25), 0, 0);
	t.setImage(flat(4, 0.75), 0, 1);
	Image custom = flat(1, 0.5);
	Texture::CustomMipImages c;
	c.emplace(Texture::ImageIndex(2, 0), Texture::CustomMipImage(custom, Texture::MipReplacement::Once));
	if (!t.generateMipmaps(Image::ResizeFilter::Box, Texture::allMipLevels, c))
		return 2;
	ColorRGBAd p;
	if (!t.getImage(1, 1).getPixel(p, 0, 0))
		return 2;
	return std::fabs(p.r - 0.75) < 0.01 ? 0 : 1;
}
'''
