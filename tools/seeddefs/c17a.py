id='c17-custom-ref'
property='C17'
needs='copy-assigning a custom mip image that owns its image, then changing or destroying the source'
breaks='Copy assignment of an owning custom mip image leaves the target referring to the image inside the source.'
edits=[('lib/src/Texture.cpp','''	replacement = other.replacement;
	if (other.image == &other.imageStorage)
	{
		image = &imageStorage;
		imageStorage = other.imageStorage;
	}
''','''	replacement = other.replacement;
	if (image == &imageStorage && other.image == &other.imageStorage)
		imageStorage = other.imageStorage;
''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	Image ref(Image::Format::Gray8, 2, 2);
	Texture::CustomMipImage target(ref, Texture::MipReplacement::Once);
	Texture::CustomMipImage source(Image(Image::Format::Gray8, 3, 3), Texture::MipReplacement::Once);
	target = source;
	source = Texture::CustomMipImage(Image(Image::Format::Gray8, 4, 4), Texture::MipReplacement::Once);
	return target.image != &target.imageStorage || target.image->width() != 3;
}
'''
