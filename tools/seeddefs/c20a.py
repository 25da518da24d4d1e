id='c20-ktx-etc'
property='C20'
needs='asking for the block height of a format whose blocks are not square'
breaks='ASTC 10x6 is reported to have blocks of 10x8.'
edits=[('lib/src/Texture.cpp','''		6,  // ASTC_10x6
		8,  // ASTC_10x8
		10, // ASTC_10x10
		10, // ASTC_12x10
		12, // ASTC_12x12
		4,  // PVRTC1_RGB_2BPP
''','''		8,  // ASTC_10x6
		8,  // ASTC_10x8
		10, // ASTC_10x10
		10, // ASTC_12x10
		12, // ASTC_12x12
		4,  // PVRTC1_RGB_2BPP
''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	return Texture::blockHeight(Texture::Format::ASTC_10x6) == 6 ? 0 : 1;
}
'''
