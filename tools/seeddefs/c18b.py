id='c18-wide-box'
property='C18'
needs='an image of an integer, double or complex format reduced to less than a sixteenth of its width with the box filter'
breaks='Only the first sixteen columns that make up a pixel are averaged.'
edits=[('lib/src/Image.cpp','''							static_cast<unsigned int>(centerX + offsetX + 0.5), m_impl->width);

						ColorRGBAd color = {0, 0, 0, 0};
						unsigned int totalScale = 0;''','''							static_cast<unsigned int>(centerX + offsetX + 0.5), m_impl->width);
						// Enough samples for the average.
						right = std::min(right, left + 16);

						ColorRGBAd color = {0, 0, 0, 0};
						unsigned int totalScale = 0;''')]
demo=r'''
#include <cuttlefish/Image.h>
#include <math.h>
using namespace cuttlefish;
int main()
{
	Image a(Image::Format::Double, 64, 1);
	for (unsigned x = 0; x < 64; ++x)
		a.setPixel(x, 0, ColorRGBAd{x < 32 ? 0.0 : 1.0, x < 32 ? 0.0 : 1.0, x < 32 ? 0.0 : 1.0, 1});
	ColorRGBAd p;
	if (!a.resize(1, 1, Image::ResizeFilter::Box).getPixel(p, 0, 0))
		return 2;
	return fabs(p.r - 0.5) > 1e-6;
}
'''
