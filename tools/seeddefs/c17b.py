id='c17-assign-space'
property='C17'
needs='copy assignment of an sRGB image to one that already holds an image of the same size and format'
breaks='The assigned image keeps its old colour space.'
edits=[('lib/src/Image.cpp','''	reset();
	if (other.m_impl)
	{
		FIBITMAP* image = FreeImage_Clone(other.m_impl->image);
		if (image)
			m_impl.reset(Impl::create(image, other.m_impl->colorSpace, other.m_impl->format));
	}
	return *this;
''','''	if (!other.m_impl)
	{
		reset();
		return *this;
	}

	ColorSpace colorSpace = other.m_impl->colorSpace;
	if (m_impl && m_impl->format == other.m_impl->format && m_impl->width == other.m_impl->width &&
		m_impl->height == other.m_impl->height)
	{
		colorSpace = m_impl->colorSpace;
	}
	reset();
	FIBITMAP* image = FreeImage_Clone(other.m_impl->image);
	if (image)
		m_impl.reset(Impl::create(image, colorSpace, other.m_impl->format));
	return *this;
''')]
demo=r'''
#include <cuttlefish/Image.h>
using namespace cuttlefish;
int main()
{
	Image a(Image::Format::RGBA8, 3, 3, ColorSpace::sRGB), b(Image::Format::RGBA8, 3, 3), c, d(Image::Format::Gray8, 3, 3);
	b = a;
	c = a;
	d = a;
	return b.colorSpace() == ColorSpace::sRGB && c.colorSpace() == ColorSpace::sRGB && d.colorSpace() == ColorSpace::sRGB ? 0 : 1;
}
'''
