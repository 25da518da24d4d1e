id='c04-depth-one'
property='C04'
needs='a 3D texture of depth 1'
breaks='A 3D texture one texel deep is declared as a 2D resource with no volume flags in its extended header.'
edits=[('lib/src/SaveDds.cpp','''		case Texture::Dimension::Dim3D:
			dxt10Header.resourceDimension = DdsTextureDim_TEXTURE3D;
			break;''','''		case Texture::Dimension::Dim3D:
			dxt10Header.resourceDimension = texture.depth() > 1 ? DdsTextureDim_TEXTURE3D :
				DdsTextureDim_TEXTURE2D;
			break;''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <cstring>
#include <vector>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBAF, 2, 2);
	Texture t(Texture::Dimension::Dim3D, 2, 2, 1);
	t.setImage(im);
	if (!t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm))
		return 4;
	std::vector<std::uint8_t> d;
	if (t.save(d, Texture::FileType::DDS) != Texture::SaveResult::Success || d.size() < 148)
		return 5;
	unsigned dim;
	std::memcpy(&dim, &d[128 + 4], 4);
	return dim != 4;
}
'''
