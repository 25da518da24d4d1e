id='c05-static-info'
property='C05'
needs='two textures of the same format with different types saved one after the other'
breaks='The second file describes its texels with the type of the first.'
edits=[('lib/src/SaveKtx.cpp','''	FormatInfo info;
	if (!getFormatInfo(info, texture.format(), texture.type(), texture.colorSpace()))
		return Texture::SaveResult::Unsupported;
''','''	static FormatInfo info;
	static Texture::Format lastFormat = Texture::Format::Unknown;
	static ColorSpace lastSpace = ColorSpace::Linear;
	if (texture.format() != lastFormat || texture.colorSpace() != lastSpace)
	{
		if (!getFormatInfo(info, texture.format(), texture.type(), texture.colorSpace()))
			return Texture::SaveResult::Unsupported;
		lastFormat = texture.format();
		lastSpace = texture.colorSpace();
	}
''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <string.h>
using namespace cuttlefish;
static std::vector<std::uint8_t> file(Texture::Type type)
{
	std::vector<std::uint8_t> out;
	Texture t(Texture::Dimension::Dim2D, 2, 2);
	t.setImage(Image(Image::Format::RGBAF, 2, 2));
	t.convert(Texture::Format::R8G8B8A8, type);
	t.save(out, Texture::FileType::KTX);
	return out;
}
int main()
{
	std::vector<std::uint8_t> a = file(Texture::Type::UNorm), b = file(Texture::Type::UInt);
	if (a.size() < 64 || b.size() < 64)
		return 2;
	// glType, glTypeSize, glFormat, glInternalFormat, ...
	return memcmp(&a[16], &b[16], 16) == 0;
}
'''
