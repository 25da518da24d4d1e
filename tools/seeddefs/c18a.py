id='c18-last-filter'
property='C18'
needs='two resizes to the same size with different filters'
breaks='The second resize uses the filter of the first.'
edits=[('lib/src/Image.cpp','''	FREE_IMAGE_FILTER fiFilter = FILTER_BOX;
	switch (filter)''','''	static FREE_IMAGE_FILTER fiFilter = FILTER_BOX;
	static unsigned int lastWidth = 0, lastHeight = 0;
	bool update = lastWidth != width || lastHeight != height;
	lastWidth = width;
	lastHeight = height;
	if (update) switch (filter)''')]
demo=r'''
#include <cuttlefish/Image.h>
#include <string.h>
using namespace cuttlefish;
int main()
{
	Image a(Image::Format::RGBAF, 8, 8);
	for (unsigned y = 0; y < 8; ++y)
		for (unsigned x = 0; x < 8; ++x)
			a.setPixel(x, y, ColorRGBAd{(x*y % 5)/4.0, x/8.0, y/8.0, 1});
	Image catmull = a.resize(5, 3, Image::ResizeFilter::CatmullRom);
	a.resize(3, 3, Image::ResizeFilter::Linear);
	a.resize(5, 3, Image::ResizeFilter::Linear);
	Image again = a.resize(5, 3, Image::ResizeFilter::CatmullRom);
	for (unsigned y = 0; y < 3; ++y)
		if (memcmp(catmull.scanline(y), again.scanline(y), 5*16))
			return 1;
	return 0;
}
'''
