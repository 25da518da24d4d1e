id = 'c24-stale-context'
property = 'C24'
needs = 'two ASTC conversions in one process with the same block size and flags but different quality, the second finding the context of the first in the cache'
breaks = 'a cached ASTC context is taken for another configuration, so that the second conversion is encoded with the quality of the first'
edits = [('lib/src/AstcConverter.cpp', 'std::memcmp(&config, &it->config, sizeof(astcenc_config)) != 0', 'config.profile != it->config.profile || config.flags != it->config.flags ||\n\t\t\t\tconfig.block_x != it->config.block_x || config.block_y != it->config.block_y')]
files = {"codec/astcenc.h": open("/verif/shim/codecs/astcenc.h").read()}
flags = "-DCUTTLEFISH_HAS_ASTC=1 -I$D/codec"
demo = r'''
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <astcenc.h>
#include <cstring>
#include <cstdio>
using namespace cuttlefish;
struct astcenc_context { astcenc_config c; };
astcenc_error astcenc_config_init(astcenc_profile p, unsigned x, unsigned y, unsigned, float q, unsigned f, astcenc_config* c)
{ memset(c, 0, sizeof(*c)); c->profile = p; c->flags = f; c->block_x = x; c->block_y = y; c->quality = q; return ASTCENC_SUCCESS; }
astcenc_error astcenc_context_alloc(const astcenc_config* c, unsigned, astcenc_context** o) { *o = new astcenc_context{*c}; return ASTCENC_SUCCESS; }
astcenc_error astcenc_compress_image(astcenc_context* c, astcenc_image*, const astcenc_swizzle*, std::uint8_t* o, std::size_t n, unsigned)
{ memset(o, int(c->c.quality) + 1, n); return ASTCENC_SUCCESS; }
astcenc_error astcenc_compress_reset(astcenc_context*) { return ASTCENC_SUCCESS; }
void astcenc_context_free(astcenc_context* c) { delete c; }
static int run(Texture::Quality q)
{
	Texture t(Texture::Dimension::Dim2D, 9, 5);
	Image i(Image::Format::RGBAF, 9, 5);
	t.setImage(i);
	if (!t.convert(Texture::Format::ASTC_4x4, Texture::Type::UNorm, q)) return -1;
	return static_cast<const unsigned char*>(t.data())[0];
}
int main()
{
	int a = run(Texture::Quality::Lowest), b = run(Texture::Quality::Highest);
	printf("%d %d\n", a, b);
	return a != 1 || b != 101;
}
'''
