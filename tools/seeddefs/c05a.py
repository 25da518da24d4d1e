id='c05-depth-size'
property='C05'
needs='a 3D texture with more than one mip level'
breaks='imageSize of a 3D texture uses the depth of the base level for every level.'
edits=[('lib/src/SaveKtx.cpp','''			for (unsigned int depth = 0; depth < texture.depth(level); ++depth)
				imageSize += (''','''			for (unsigned int depth = 0; depth < texture.depth(); ++depth)
				imageSize += (''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <cstring>
#include <vector>
using namespace cuttlefish;
int main()
{
	Texture t(Texture::Dimension::Dim3D, 4, 4, 4, 3);
	for (unsigned i = 0; i < 4; ++i)
	{
		Image im(Image::Format::RGBAF, 4, 4);
		t.setImage(im, 0, i);
	}
	if (!t.generateMipmaps() || !t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm))
		return 4;
	std::vector<std::uint8_t> d;
	if (t.save(d, Texture::FileType::KTX) != Texture::SaveResult::Success)
		return 5;
	unsigned size;
	std::memcpy(&size, &d[64 + 4 + 256], 4);
	return size != 2*2*2*4;
}
'''
