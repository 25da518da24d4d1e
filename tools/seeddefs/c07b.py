id='c07-last-surface'
property='C07'
needs='a stream that fails while the last surface of a PVR file is written'
breaks='The failure to write the last surface is not noticed.'
edits=[('lib/src/SavePvr.cpp','''				stream.write(reinterpret_cast<const char*>(texture.data(
					static_cast<Texture::CubeFace>(face), level, depth)), texture.dataSize(
					static_cast<Texture::CubeFace>(face), level, depth));
				if (!stream.good())
					return Texture::SaveResult::WriteError;
''','''				if (!stream.good())
					return Texture::SaveResult::WriteError;
				stream.write(reinterpret_cast<const char*>(texture.data(
					static_cast<Texture::CubeFace>(face), level, depth)), texture.dataSize(
					static_cast<Texture::CubeFace>(face), level, depth));
''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <ostream>
#include <streambuf>
using namespace cuttlefish;
struct Limit : std::streambuf
{
	long left;
	explicit Limit(long n) : left(n) {}
	int overflow(int c) override { return left-- > 0 ? c : traits_type::eof(); }
	std::streamsize xsputn(const char*, std::streamsize n) override
	{
		std::streamsize k = std::min<std::streamsize>(n, left);
		left -= k;
		return k;
	}
};
int main()
{
	Image im(Image::Format::RGBAF, 2, 2);
	Texture t(Texture::Dimension::Dim2D, 2, 2);
	t.setImage(im);
	if (!t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm))
		return 2;
	for (long n = 0; n <= 68; ++n)
	{
		Limit buf(n);
		std::ostream s(&buf);
		if ((t.save(s, Texture::FileType::PVR) == Texture::SaveResult::Success) != (n == 68))
			return 1;
	}
	return 0;
}
'''
