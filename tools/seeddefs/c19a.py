id='c19-portable-saturates'
property='C19'
needs='a processor without half float instructions and a value beyond the largest half float'
breaks='The portable code saturates to the largest half float instead of overflowing to infinity.'
edits=[('lib/src/StandardConverter.h','''				for (unsigned int c = 0; c < C; ++c)
					curData[i*C + c] = glm::packHalf(glm::vec1(scanline[col*4 + c])).x;
''','''				for (unsigned int c = 0; c < C; ++c)
				{
					const float maxHalf = 65504.0f;
					float value = std::min(std::max(scanline[col*4 + c], -maxHalf), maxHalf);
					curData[i*C + c] = glm::packHalf(glm::vec1(value)).x;
				}
'''),]
demo=r'''
#include <cuttlefish/Texture.h>
#include "HalfFloat.h"
#include <sys/mman.h>
#include <cstdint>
#include <cmath>
using namespace cuttlefish;
int main()
{
	// Pretend that the processor has no half float instructions.
	bool* p = const_cast<bool*>(&hasHardwareHalfFloat);
	void* page = reinterpret_cast<void*>(std::uintptr_t(p) & ~std::uintptr_t(4095));
	mprotect(page, 4096, PROT_READ | PROT_WRITE);
	*const_cast<volatile bool*>(p) = false;
	Image im(Image::Format::RGBAF, 1, 1);
	im.setPixel(0, 0, ColorRGBAd{70000, -INFINITY, 1, 65504});
	Texture t(Texture::Dimension::Dim2D, 1, 1);
	t.setImage(im);
	if (!t.convert(Texture::Format::R16G16B16A16, Texture::Type::Float))
		return 2;
	const std::uint16_t* h = static_cast<const std::uint16_t*>(t.data());
	return h[0] == 0x7c00 && h[1] == 0xfc00 && h[2] == 0x3c00 && h[3] == 0x7bff ? 0 : 1;
}
'''
