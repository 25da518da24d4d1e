id='c03-depth-mips'
property='C03'
needs='a 3D texture whose depth is at least twice its width and height'
breaks='The depth of a 3D texture does not count towards the maximum number of mip levels, so the chain stops before 1x1x1.'
edits=[('lib/src/Texture.cpp','''		return std::max(maxWidthHeight, levelCountDepth);
''','''		return std::max(levelCountWidth, std::min(maxWidthHeight, levelCountDepth));
''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	return Texture::maxMipmapLevels(Texture::Dimension::Dim3D, 4, 4, 16) != 5 ||
		Texture::maxMipmapLevels(Texture::Dimension::Dim3D, 4, 16, 4) != 5;
}
'''
