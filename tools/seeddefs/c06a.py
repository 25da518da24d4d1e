id='c06-order'
property='C06'
needs='a cube map array with more than one element and distinct faces'
breaks='The surfaces of cube map arrays are written face by face instead of element by element.'
edits=[('lib/src/SavePvr.cpp','''		for (unsigned int depth = 0; depth < texture.depth(level); ++depth)
		{
			for (unsigned int face = 0; face < texture.faceCount(); ++face)
			{
''','''		for (unsigned int face = 0; face < texture.faceCount(); ++face)
		{
			for (unsigned int depth = 0; depth < texture.depth(level); ++depth)
			{
''')]
demo=r'''
#include <cuttlefish/Texture.h>
#include <vector>
using namespace cuttlefish;
int main()
{
	Texture t(Texture::Dimension::Cube, 1, 1, 2);
	for (unsigned d = 0; d < 2; ++d)
	{
		for (unsigned f = 0; f < 6; ++f)
		{
			Image im(Image::Format::RGBAF, 1, 1);
			im.setPixel(0, 0, ColorRGBAd{(d*6 + f)/255.0, 0, 0, 1});
			t.setImage(im, static_cast<Texture::CubeFace>(f), 0, d);
		}
	}
	if (!t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm))
		return 4;
	std::vector<std::uint8_t> d;
	if (t.save(d, Texture::FileType::PVR) != Texture::SaveResult::Success || d.size() < 48)
		return 5;
	for (unsigned i = 0; i < 12; ++i)
	{
		if (d[d.size() - 48 + i*4] != i)
			return 1;
	}
	return 0;
}
'''
