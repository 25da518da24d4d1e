id='c01-lost-job'
property='C01'
needs='two workers reading the job counter before either advances it'
breaks='A batch of pixels is converted twice and another one never, leaving zeros in the surface.'
edits=[('lib/src/Converter.cpp','''									unsigned int thisJob = curJob++;
									if (thisJob >= jobs.size())
										return;
''','''									unsigned int thisJob = curJob;
									if (thisJob >= jobs.size())
										return;
									++curJob;
''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <cstring>
#include <vector>
using namespace cuttlefish;
int main()
{
	Image im(Image::Format::RGBAF, 512, 64);
	for (unsigned y = 0; y < 64; ++y)
		for (unsigned x = 0; x < 512; ++x)
			im.setPixel(x, y, ColorRGBAd{0.25 + x/1024.0, 0.5, 0.75, 1});
	std::vector<char> want;
	for (int k = 0; k < 400; ++k)
	{
		Texture t(Texture::Dimension::Dim2D, 512, 64);
		t.setImage(im);
		if (!t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal,
				Texture::Alpha::Standard, Texture::ColorMask(), k == 0 ? 1 : 8))
			return 4;
		const char* d = static_cast<const char*>(t.data());
		if (k == 0)
			want.assign(d, d + t.dataSize());
		else if (t.dataSize() != want.size() || std::memcmp(d, want.data(), want.size()))
			return 1;
	}
	return 0;
}
'''
