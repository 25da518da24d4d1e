id='c22-tall'
property='C22'
needs='a signed-normalised texture of an image that is higher than wide or the other way around'
breaks='Only part of each row is adjusted.'
edits=[('lib/src/Texture.cpp','''						for (unsigned int x = 0; x < image.width()*channelCount; ++x)
							scanline[x] = scanline[x]*2.0f - 1.0f;
''','''						for (unsigned int x = 0; x < std::min(image.width(), 1U << 12)*channelCount; ++x)
							scanline[x] = scanline[x]*2.0f - 1.0f;
''')]
needs='a signed-normalised texture of an image that is more than 4096 pixels wide'
demo=r'''
#include <cuttlefish/Texture.h>
#include <cmath>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGB8, 5000, 1);
	Texture::adjustImageValueRange(im, Texture::Type::SNorm, Image::Format::Invalid);
	ColorRGBAd c;
	im.getPixel(c, 4999, 0);
	return c.r != -1;
}
'''
