id='c04-alpha-masked'
property='C04'
needs='a texture in a format with alpha converted with a colour mask that leaves out alpha'
breaks='The header says that the texels have no alpha.'
edits=[('lib/src/SaveDds.cpp','''	if (Texture::hasAlpha(texture.format()))
	{''','''	if (Texture::hasAlpha(texture.format()) && texture.colorMask().a)
	{''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <string.h>
using namespace cuttlefish;
int main()
{
	std::vector<std::uint8_t> out[2];
	for (int i = 0; i < 2; ++i)
	{
		Texture t(Texture::Dimension::Dim2D, 2, 2);
		t.setImage(Image(Image::Format::RGBAF, 2, 2));
		t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard,
			Texture::ColorMask(true, true, true, i == 0));
		if (t.save(out[i], Texture::FileType::DDS) != Texture::SaveResult::Success)
			return 2;
	}
	// The alpha mode in the last field of the DX10 header.
	return out[0].size() < 148 || memcmp(&out[0][144], &out[1][144], 4) != 0;
}
'''
