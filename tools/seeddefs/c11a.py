id='c11-swizzle-inplace'
property='C11'
needs='a swizzle whose later channels come from channels that were already replaced'
breaks='The alpha channel is taken from the already swizzled red channel.'
edits=[('lib/src/Image.cpp','''				swzl.a = reinterpret_cast<double*>(&color)[static_cast<unsigned int>(alpha)];
''','''				swzl.a = reinterpret_cast<double*>(alpha == Channel::Red ? &swzl : &color)[
					static_cast<unsigned int>(alpha)];
''')]
demo=r'''
#include <cuttlefish/Image.h>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBA8, 2, 1);
	im.setPixel(0, 0, ColorRGBAd{0.2, 0.4, 0.6, 0.8});
	im.setPixel(1, 0, ColorRGBAd{1, 0, 0.6, 0.2});
	Image s = im;
	s.swizzle(Image::Channel::Green, Image::Channel::Blue, Image::Channel::Alpha, Image::Channel::Red);
	for (unsigned x = 0; x < 2; ++x)
	{
		ColorRGBAd a, b;
		im.getPixel(a, x, 0);
		s.getPixel(b, x, 0);
		if (a.r != b.a || a.g != b.r || a.b != b.g || a.a != b.b)
			return 1;
	}
	return 0;
}
'''
