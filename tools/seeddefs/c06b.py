id='c06-sticky-flags'
property='C06'
needs='a texture with pre-multiplied alpha saved before one without'
breaks='The second file says that its alpha is pre-multiplied.'
edits=[('lib/src/SavePvr.cpp','''	std::uint32_t flags = 0;
	if (texture.alphaType()''','''	static std::uint32_t flags = 0;
	if (texture.alphaType()''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <string.h>
using namespace cuttlefish;
static unsigned flags(Texture::Alpha alpha)
{
	std::vector<std::uint8_t> out;
	Texture t(Texture::Dimension::Dim2D, 2, 2);
	t.setImage(Image(Image::Format::RGBAF, 2, 2));
	t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal, alpha);
	if (t.save(out, Texture::FileType::PVR) != Texture::SaveResult::Success)
		return ~0U;
	unsigned f;
	memcpy(&f, &out[4], 4);
	return f;
}
int main()
{
	unsigned before = flags(Texture::Alpha::Standard);
	flags(Texture::Alpha::PreMultiplied);
	return before == ~0U || flags(Texture::Alpha::Standard) != before;
}
'''
