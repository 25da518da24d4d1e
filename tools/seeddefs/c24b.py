id = 'c24-etc-corner'
property = 'C24'
needs = 'an ETC conversion of an image whose width and height both leave a partial block, with a narrower than high remainder'
breaks = 'the corner block is packed with the stride of a full block while the encoder takes it as tightly packed, so its pixels are mixed up'
edits = [('lib/src/EtcConverter.cpp', '''for (unsigned int i = x*blockDim; i < limitX; ++i, ++index)
			pixels[index] = scanline[i];
''', '''for (unsigned int i = x*blockDim; i < limitX; ++i, ++index)
			pixels[index] = scanline[i];
		if (limitX - x*blockDim < limitY - y*blockDim && limitY - y*blockDim < blockDim)
			index = (j - y*blockDim + 1)*blockDim;
''')]
files = {"codec/Etc.h": open("/verif/shim/codecs/Etc.h").read(), "codec/EtcImage.h": open("/verif/shim/codecs/EtcImage.h").read()}
flags = "-DCUTTLEFISH_HAS_ETC=1 -I$D/codec"
demo = r'''
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <Etc.h>
#include <cstring>
#include <cstdio>
#include <set>
using namespace cuttlefish;
static std::multiset<float> seen;
Etc::Image::Image(float* p, unsigned w, unsigned h, ErrorMetric) : m_source(p), m_width(w), m_height(h), m_bytes(8), m_bits(new unsigned char[16]()) {}
Etc::Image::~Image() { delete[] m_bits; }
Etc::Image::EncodingStatus Etc::Image::Encode(Format, ErrorMetric, float, unsigned, unsigned)
{
	for (unsigned i = 0; i < m_width*m_height; ++i)
		seen.insert(m_source[i*4]);
	return SUCCESS;
}
int main()
{
	const unsigned w = 6, h = 7;
	Texture t(Texture::Dimension::Dim2D, w, h);
	Image im(Image::Format::RGBAF, w, h);
	std::multiset<float> want;
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w; ++x)
		{
			float v = float(1 + y*w + x)/64;
			want.insert(v);
			im.setPixel(x, y, ColorRGBAd{v, 0.0, 0.0, 1.0});
		}
	t.setImage(im);
	if (!t.convert(Texture::Format::ETC2_R8G8B8, Texture::Type::UNorm, Texture::Quality::Low, Texture::Alpha::Standard, Texture::ColorMask(), 1)) return 1;
	printf("%zu pixels encoded, right: %d\n", seen.size(), seen == want);
	return seen != want;
}
'''
