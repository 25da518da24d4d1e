id='c13-blocks-reversed'
property='C13'
needs='a stream that cannot seek, holding a file of more than 4096 bytes'
breaks='The blocks of the file are put together in the wrong order.'
edits=[('lib/src/Shared.cpp','''			outData.insert(outData.end(), buffer, buffer + readSize);
''','''			outData.insert(outData.begin() + outData.size()/bufferSize, buffer, buffer + readSize);
''')]
demo=r'''
#include <cuttlefish/Image.h>
#include <cstring>
#include <streambuf>
#include <istream>
#include <vector>
using namespace cuttlefish;
struct Pipe : std::streambuf
{
	std::vector<std::uint8_t> d;
	std::size_t at = 0;
	char b[512];
	int_type underflow() override
	{
		std::size_t n = std::min<std::size_t>(sizeof(b), d.size() - at);
		if (n == 0)
			return traits_type::eof();
		std::memcpy(b, d.data() + at, n);
		at += n;
		setg(b, b, b + n);
		return traits_type::to_int_type(b[0]);
	}
};
int main()
{
	Image im(Image::Format::RGB8, 64, 64);
	for (unsigned y = 0; y < 64; ++y)
		for (unsigned x = 0; x < 64; ++x)
			im.setPixel(x, y, ColorRGBAd{x/63.0, y/63.0, (x*7 + y*13) % 64/63.0, 1});
	Pipe p;
	if (!im.save(p.d, "x.bmp"))
		return 2;
	std::istream s(&p);
	Image r;
	if (!r.load(s) || r.width() != 64 || r.height() != 64)
		return 1;
	for (unsigned y = 0; y < 64; ++y)
		for (unsigned x = 0; x < 64; ++x)
		{
			ColorRGBAd a, b;
			im.getPixel(a, x, y);
			r.getPixel(b, x, y);
			if (a.r != b.r || a.g != b.g || a.b != b.b)
				return 1;
		}
	return 0;
}
'''
