id = 'c25-bc1-array'
property = 'C25'
needs = 'an array of BC1 textures saved as PVR'
breaks = 'the mark that tells BC1 with alpha from BC1 without it is wrong for arrays: those without alpha are marked as having it'
edits = [('lib/src/SavePvr.cpp', '''			if (texture.format() == Texture::Format::BC1_RGBA)
''', '''			if (texture.format() == Texture::Format::BC1_RGBA || texture.isArray())
''')]
files = {"codec/" + n: open("/verif/shim/codecs/" + n).read() for n in ("squish.h", "rgbcx.h", "cmp_core.h", "bc7enc.h")}
files["codec/codec.inl"] = r'''
#include <squish.h>
#include <rgbcx.h>
#include <cmp_core.h>
#include <bc7enc.h>
#include <cstring>
// Encoders that leave every block the same.
void squish::Compress(const u8*, void* b, int, float*) { memset(b, 1, 8); }
namespace rgbcx
{
void init() {}
void encode_bc1(std::uint32_t, void* d, const std::uint8_t*, bool, bool, const void*) { memset(d, 2, 8); }
void encode_bc3(std::uint32_t, void* d, const std::uint8_t*) { memset(d, 3, 16); }
void encode_bc3_hq(std::uint32_t, void* d, const std::uint8_t*, std::uint32_t) { memset(d, 3, 16); }
void encode_bc4(void* d, const std::uint8_t*, std::uint32_t) { memset(d, 4, 8); }
void encode_bc4_hq(void* d, const std::uint8_t*, std::uint32_t, std::uint32_t) { memset(d, 4, 8); }
void encode_bc5(void* d, const std::uint8_t*, std::uint32_t, std::uint32_t, std::uint32_t) { memset(d, 5, 16); }
void encode_bc5_hq(void* d, const std::uint8_t*, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t) { memset(d, 5, 16); }
}
static int options;
int CreateOptionsBC4(void** o) { *o = &options; return 0; }
int CreateOptionsBC5(void** o) { *o = &options; return 0; }
int CreateOptionsBC6(void** o) { *o = &options; return 0; }
int DestroyOptionsBC4(void*) { return 0; }
int DestroyOptionsBC5(void*) { return 0; }
int DestroyOptionsBC6(void*) { return 0; }
int SetQualityBC4(void*, float) { return 0; }
int SetQualityBC5(void*, float) { return 0; }
int SetQualityBC6(void*, float) { return 0; }
int SetSignedBC6(void*, bool) { return 0; }
int CompressBlockBC4S(const char*, unsigned int, unsigned char b[8], const void*) { memset(b, 6, 8); return 0; }
int CompressBlockBC5S(const char*, unsigned int, const char*, unsigned int, unsigned char b[16], const void*) { memset(b, 7, 16); return 0; }
int CompressBlockBC6(const unsigned short*, unsigned int, unsigned char b[16], const void*) { memset(b, 8, 16); return 0; }
void bc7enc_compress_block_params_init_linear_weights(bc7enc_compress_block_params*) {}
void bc7enc_compress_block_params_init_perceptual_weights(bc7enc_compress_block_params*) {}
void bc7enc_compress_block_params_init(bc7enc_compress_block_params* p) { memset(p, 0, sizeof(*p)); }
void bc7enc_compress_block_init() {}
bool bc7enc_compress_block(void* b, const void*, const bc7enc_compress_block_params*) { memset(b, 9, 16); return true; }
'''
flags = "-DCUTTLEFISH_HAS_S3TC=1 -I$D/codec"
demo = r'''
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include "codec.inl"
#include <cstring>
#include <cstdio>
using namespace cuttlefish;
int main()
{
	int bad = 0;
	for (unsigned depth : {0u, 2u})
		for (auto f : {Texture::Format::BC1_RGB, Texture::Format::BC1_RGBA})
		{
			Texture t(Texture::Dimension::Dim2D, 8, 8, depth);
			for (unsigned d = 0; d < (depth ? depth : 1); ++d)
				t.setImage(Image(Image::Format::RGBAF, 8, 8), 0, d);
			std::vector<std::uint8_t> v;
			if (!t.convert(f, Texture::Type::UNorm) || t.save(v, Texture::FileType::PVR) != Texture::SaveResult::Success)
				return 1;
			bool alpha = false, opaque = false;
			for (std::size_t i = 52; i + 8 < v.size(); ++i)
			{
				alpha = alpha || memcmp(&v[i], "CTFSBC1A", 8) == 0;
				opaque = opaque || memcmp(&v[i], "CTFSBC1", 8) == 0;
			}
			bool want = f == Texture::Format::BC1_RGBA;
			printf("depth %u alpha %d: %d %d\n", depth, want, alpha, opaque);
			bad |= alpha != want || opaque == want;
		}
	return bad;
}
'''
