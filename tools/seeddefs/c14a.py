id='c14-stale-tail'
property='C14'
needs='saving to a byte vector that already holds more bytes than the new file has and more than a page of them'
breaks='The old bytes remain after the end of the file.'
edits=[('lib/src/Shared.cpp','''	outData.resize(size);
''','''	// Avoid filling with zeros when reusing the buffer.
	if (outData.size() < size || size <= 4096)
		outData.resize(size);
''')]
demo=r'''
#include <cuttlefish/Image.h>
#include <vector>
using namespace cuttlefish;
int main()
{
	Image big(Image::Format::RGB8, 160, 160), small(Image::Format::RGB8, 60, 60);
	for (unsigned y = 0; y < 60; ++y)
		for (unsigned x = 0; x < 60; ++x)
			small.setPixel(x, y, ColorRGBAd{0.5, 0.25, 0, 1});
	std::vector<std::uint8_t> a, b;
	if (!big.save(a, "x.bmp") || !small.save(b, "x.bmp") || !small.save(a, "x.bmp"))
		return 2;
	return a == b ? 0 : 1;
}
'''
