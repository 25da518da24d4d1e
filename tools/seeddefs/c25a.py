id = 'c25-array-level-size'
property = 'C25'
needs = 'a compressed array of cube maps saved as KTX with more than one level'
breaks = 'the size of the smaller levels in the file is that of one face only, although the layout has all faces of an array element in it'
edits = [('lib/src/SaveKtx.cpp', '''		if (texture.isArray())
			imageSize *= texture.faceCount();
''', '''		if (texture.isArray() && (!compressed || level == 0))
			imageSize *= texture.faceCount();
''')]
files = {"codec/astcenc.h": open("/verif/shim/codecs/astcenc.h").read()}
flags = "-DCUTTLEFISH_HAS_ASTC=1 -I$D/codec"
demo = r'''
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <astcenc.h>
#include <cstring>
#include <cstdio>
using namespace cuttlefish;
struct astcenc_context { astcenc_config c; };
astcenc_error astcenc_config_init(astcenc_profile, unsigned x, unsigned y, unsigned, float, unsigned, astcenc_config* c)
{ memset(c, 0, sizeof(*c)); c->block_x = x; c->block_y = y; return ASTCENC_SUCCESS; }
astcenc_error astcenc_context_alloc(const astcenc_config* c, unsigned, astcenc_context** o) { *o = new astcenc_context{*c}; return ASTCENC_SUCCESS; }
astcenc_error astcenc_compress_image(astcenc_context*, astcenc_image*, const astcenc_swizzle*, std::uint8_t* o, std::size_t n, unsigned)
{ memset(o, 7, n); return ASTCENC_SUCCESS; }
astcenc_error astcenc_compress_reset(astcenc_context*) { return ASTCENC_SUCCESS; }
void astcenc_context_free(astcenc_context* c) { delete c; }
static std::uint32_t u32(const std::vector<std::uint8_t>& v, std::size_t o)
{ std::uint32_t x = 0; if (o + 4 <= v.size()) memcpy(&x, &v[o], 4); return x; }
int main()
{
	Texture t(Texture::Dimension::Cube, 8, 8, 2, 2);
	for (unsigned m = 0; m < 2; ++m)
		for (unsigned d = 0; d < 2; ++d)
			for (unsigned f = 0; f < 6; ++f)
				t.setImage(Image(Image::Format::RGBAF, 8 >> m, 8 >> m), Texture::CubeFace(f), m, d);
	std::vector<std::uint8_t> v;
	if (!t.convert(Texture::Format::ASTC_4x4, Texture::Type::UNorm) || t.save(v, Texture::FileType::KTX) != Texture::SaveResult::Success)
		return 1;
	std::size_t o = 64 + u32(v, 60);
	std::uint32_t a = u32(v, o), b = u32(v, o + 4 + a);
	printf("%u %u\n", a, b);
	return a != 2*6*4*16 || b != 2*6*16;
}
'''
