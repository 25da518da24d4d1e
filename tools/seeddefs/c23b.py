id='c23-two-rows'
property='C23'
needs='an image that is two pixels high, with its normal map wrapped vertically'
breaks='The last row does not see the first one.'
edits=[('lib/src/Image.cpp','''			if (options & NormalOptions::WrapY)
				scanline2 = FreeImage_GetScanLine(m_impl->image, 0);''','''			if ((options & NormalOptions::WrapY) && m_impl->height > 2)
				scanline2 = FreeImage_GetScanLine(m_impl->image, 0);''')]
demo=r'''
#include <cuttlefish/Image.h>
#include <math.h>
using namespace cuttlefish;
int main()
{
	Image a(Image::Format::Float, 3, 2);
	for (unsigned x = 0; x < 3; ++x)
	{
		a.setPixel(x, 0, ColorRGBAd{0, 0, 0, 1});
		a.setPixel(x, 1, ColorRGBAd{1, 1, 1, 1});
	}
	Image n = a.createNormalMap(Image::NormalOptions::WrapX | Image::NormalOptions::WrapY | Image::NormalOptions::KeepSign,
		1.0, Image::Format::RGBF);
	for (unsigned y = 0; y < 2; ++y)
		for (unsigned x = 0; x < 3; ++x)
		{
			// Both neighbours of each row are the other row.
			ColorRGBAd p;
			if (!n.getPixel(p, x, y) || fabs(p.r) > 1e-6 || fabs(p.g) > 1e-6 || fabs(p.b - 1) > 1e-6)
				return 1;
		}
	return 0;
}
'''
