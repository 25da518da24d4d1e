id='c10-gray-reuse'
property='C10'
needs='an sRGB image with two neighbouring pixels that only differ in blue, converted to a grayscale format'
breaks='The luminance of the previous pixel is reused.'
edits=[('lib/src/Image.cpp','''					for (unsigned int x = 0; x < m_impl->width; ++x)
					{
						getPixelImpl(color, m_impl->format, srcScanline, x);
						color.r = color.g = color.b = linearToSRGB(toGrayscale(
							sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
						setPixelNoGrayscaleImpl(image.m_impl->format, dstScanline, x, color);
''','''					// Neighboring pixels often have the same color, which avoids the expensive conversions.
					ColorRGBAd prevColor = {NAN, NAN, NAN, NAN};
					double gray = 0.0;
					for (unsigned int x = 0; x < m_impl->width; ++x)
					{
						getPixelImpl(color, m_impl->format, srcScanline, x);
						if (color.r != prevColor.r || color.g != prevColor.g)
						{
							gray = linearToSRGB(toGrayscale(
								sRGBToLinear(color.r), sRGBToLinear(color.g),
								sRGBToLinear(color.b)));
							prevColor = color;
						}
						color.r = color.g = color.b = gray;
						setPixelNoGrayscaleImpl(image.m_impl->format, dstScanline, x, color);
''')]
demo=r'''
#include <cuttlefish/Image.h>
#include <cmath>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBA8, 2, 1, ColorSpace::sRGB);
	im.setPixel(0, 0, ColorRGBAd{0, 0, 0, 1});
	im.setPixel(1, 0, ColorRGBAd{0, 0, 1, 1});
	Image g = im.convert(Image::Format::Double);
	ColorRGBAd a, b;
	g.getPixel(a, 0, 0);
	g.getPixel(b, 1, 0);
	return std::fabs(a.r) < 0.01 && b.r > 0.1 ? 0 : 1;
}
'''
