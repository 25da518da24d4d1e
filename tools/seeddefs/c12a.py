id='c12-skip-transparent'
property='C12'
needs='pixels whose alpha is exactly zero'
breaks='Pre-multiplying leaves the colours of fully transparent pixels as they were instead of making them zero.'
edits=[('lib/src/Image.cpp','''					getPixelImpl(color, m_impl->format, scanline, x);

					// Pre-multiply in linear space.''','''					getPixelImpl(color, m_impl->format, scanline, x);
					// Nothing to scale for opaque and invisible pixels.
					if (color.a == 0.0 || color.a == 1.0)
						continue;

					// Pre-multiply in linear space.''')]
demo=r'''
#include <cuttlefish/Image.h>
using namespace cuttlefish;
int main()
{
	Image a(Image::Format::RGBA8, 2, 1);
	a.setPixel(0, 0, ColorRGBAd{1, 0.5, 0.25, 0});
	a.setPixel(1, 0, ColorRGBAd{1, 0.5, 0.25, 1});
	a.preMultiplyAlpha();
	ColorRGBAd p;
	a.getPixel(p, 0, 0);
	return p.r != 0 || p.g != 0 || p.b != 0 || p.a != 0;
}
'''
