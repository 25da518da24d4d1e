id='c12-alpha-over'
property='C12'
needs='a floating point image with an alpha larger than one'
breaks='Pre-multiplying multiplies with one, and changes the alpha.'
edits=[('lib/src/Image.cpp','''					color.r *= color.a;
					color.g *= color.a;
					color.b *= color.a;

					if (m_impl->colorSpace''','''					if (color.a > 1.0)
						color.a = 1.0;
					color.r *= color.a;
					color.g *= color.a;
					color.b *= color.a;

					if (m_impl->colorSpace''')]
demo=r'''
#include <cuttlefish/Image.h>
using namespace cuttlefish;
int main()
{
	Image a(Image::Format::RGBAF, 1, 1);
	a.setPixel(0, 0, ColorRGBAd{1, 0.5, 0.25, 2});
	a.preMultiplyAlpha();
	ColorRGBAd p;
	a.getPixel(p, 0, 0);
	return p.r != 2 || p.g != 1 || p.b != 0.5 || p.a != 2;
}
'''
