id='c07-row-padding'
property='C07'
needs='a stream that fails on the very last byte of a KTX file whose rows need padding'
breaks='The result of writing the padding bytes is not looked at, so a save that lost its last bytes reports success.'
edits=[('lib/src/SaveKtx.cpp','''						stream.write(data, rowSize);
						for (unsigned int i = 0; i < padding; ++i)
							stream.put(0);
						if (!stream.good())
							return Texture::SaveResult::WriteError;
''','''						stream.write(data, rowSize);
						if (!stream.good())
							return Texture::SaveResult::WriteError;
						for (unsigned int i = 0; i < padding; ++i)
							stream.put(0);
''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <ostream>
#include <streambuf>
using namespace cuttlefish;
struct Buf : std::streambuf
{
	std::size_t left, seen = 0;
	explicit Buf(std::size_t n) : left(n) {}
	int overflow(int c) override
	{
		++seen;
		if (left == 0)
			return traits_type::eof();
		--left;
		return c;
	}
};
int main()
{
	Image im(Image::Format::RGBAF, 1, 1);
	Texture t(Texture::Dimension::Dim2D, 1, 1);
	t.setImage(im);
	if (!t.convert(Texture::Format::R8, Texture::Type::UNorm))
		return 4;
	Buf all(100000);
	std::ostream ok(&all);
	if (t.save(ok, Texture::FileType::KTX) != Texture::SaveResult::Success)
		return 5;
	for (std::size_t n = 0; n < all.seen; ++n)
	{
		Buf b(n);
		std::ostream s(&b);
		if (t.save(s, Texture::FileType::KTX) == Texture::SaveResult::Success)
			return 1;
	}
	return 0;
}
'''
