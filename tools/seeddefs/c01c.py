id='c01-shared-mip-scratch'
property='C01'
needs='two threads generating the mipmaps of two unrelated 3D textures (or resizing unrelated images) at the same time'
breaks='Image::resize computes the filter scale in an object shared by all callers, so unrelated textures processed at the same time disturb each other.'
edits=[('lib/src/Image.cpp','''			ColorRGBAd curColor0, curColor1;
			getPixelImpl(curColor0, m_impl->format, scanline0, x);''','''			static ColorRGBAd curColor0, curColor1;
			getPixelImpl(curColor0, m_impl->format, scanline0, x);''')]
needs='two threads making normal maps of two unrelated images at the same time'
breaks='Image::createNormalMap reads the neighbouring pixels into objects shared by all callers, so unrelated images processed at the same time disturb each other.'
id='c01-shared-neighbours'
demo=r'''
#include <cuttlefish/Image.h>
#include <cstring>
#include <thread>
#include <vector>
using namespace cuttlefish;
static std::vector<char> map(Image& im)
{
	Image n = im.createNormalMap(Image::NormalOptions::Default, 2.0, Image::Format::RGBF);
	std::vector<char> r;
	for (unsigned y = 0; y < n.height(); ++y)
	{
		const char* p = static_cast<const char*>(n.scanline(y));
		r.insert(r.end(), p, p + n.width()*12);
	}
	return r;
}
int main()
{
	Image a(Image::Format::RGBF, 600, 600), b(Image::Format::RGBF, 600, 600);
	for (unsigned y = 0; y < 600; ++y)
		for (unsigned x = 0; x < 600; ++x)
		{
			a.setPixel(x, y, ColorRGBAd{(x*y % 97)/97.0, 0, 0, 1});
			b.setPixel(x, y, ColorRGBAd{((x + y*3) % 57)/57.0, 0, 0, 1});
		}
	std::vector<char> wa = map(a), wb = map(b);
	bool ok = true;
	std::thread t([&] { for (int i = 0; i < 40; ++i) ok = map(a) == wa && ok; });
	bool ok2 = true;
	for (int i = 0; i < 40; ++i)
		ok2 = map(b) == wb && ok2;
	t.join();
	return ok && ok2 ? 0 : 1;
}
'''
