// C19: half-float packing is the nearest half for every float, in hardware and in software, for any
// number of channels, and touches nothing else.
#include "tex.h"
#include "HalfFloat.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace tex;

namespace
{

// Software rounding of the float with the given bits: the nearest half, or both at a tie.
inline bool nearestHalf(std::uint32_t b, std::uint16_t h)
{
	std::uint32_t a = b & 0x7FFFFFFF;
	if (a > 0x7F800000) // NaN
		return (h & 0x7C00) == 0x7C00 && (h & 0x3FF) != 0;
	if ((h >> 15) != (b >> 31))
		return false;
	std::uint32_t m = h & 0x7FFF;
	if (a >= 0x477FF000) // 65520 and above
		return m == 0x7C00;
	std::uint32_t e = a >> 23, lo, rest, half;
	if (e >= 113)
	{
		lo = ((e - 112) << 10) | ((a >> 13) & 0x3FF);
		rest = a & 0x1FFF;
		half = 0x1000;
	}
	else if (e >= 102)
	{
		unsigned shift = 126 - e;
		std::uint32_t s = (a & 0x7FFFFF) | 0x800000;
		lo = s >> shift;
		rest = s & ((1u << shift) - 1);
		half = 1u << (shift - 1);
	}
	else
		return m == 0; // below half of the smallest half
	return rest < half ? m == lo : rest > half ? m == lo + 1 : m == lo || m == lo + 1;
}

const char* cls(std::uint32_t b)
{
	std::uint32_t a = b & 0x7FFFFFFF;
	return a > 0x7F800000 ? "nan" : a >= 0x477FF000 ? "overflow" : a >= 0x38800000 ? "normal" :
		a >= 0x33000000 ? "subnormal" : "underflow";
}

// --- every float through the hardware packing functions ---
void hardware(mc::Ctx& ctx, std::size_t index)
{
	if (!cuttlefish::hasHardwareHalfFloat)
	{
		ctx.count("skipped: no hardware support");
		return;
	}
	std::uint32_t base = std::uint32_t(index) << 24;
	for (std::uint32_t k = 0; k < 1u << 24; k += 4)
	{
		std::uint32_t bits[4] = {base + k, base + k + 1, base + k + 2, base + k + 3};
		float f[4];
		memcpy(f, bits, 16);
		std::uint16_t h[4];
		cuttlefish::packHardwareHalfFloat4(h, f);
		for (int i = 0; i < 4; ++i)
		{
			if (!nearestHalf(bits[i], h[i]))
				ctx.fail(std::string("hardware-") + cls(bits[i]), "float %08x (%g) packs to half %04x",
					bits[i], double(f[i]), h[i]);
		}
	}
	ctx.step(1u << 24);
	ctx.count("floats packed in hardware", 1u << 24);
	ctx.state(index);
}

// --- channel counts, neighbours, alignment ---
void channels(mc::Ctx& ctx, std::size_t index)
{
	if (!cuttlefish::hasHardwareHalfFloat)
		return;
	static const float v[] = {0.0f, -0.0f, 1.0f, -2.5f, 65504.0f, 70000.0f, 6e-8f, -6.1e-5f, 0.333f,
		INFINITY, -INFINITY, 1e-10f};
	const unsigned n = sizeof(v)/sizeof(*v);
	unsigned count = unsigned(index % 4) + 1;
	unsigned align = unsigned(index/4);
	for (unsigned a = 0; a < n*n*n*n; ++a)
	{
		float in[4] = {v[a % n], v[a/n % n], v[a/n/n % n], v[a/n/n/n]};
		alignas(16) std::uint16_t out[16];
		memset(out, 0xA5, sizeof(out));
		std::uint16_t* o = out + 4 + align;
		switch (count)
		{
			case 1: cuttlefish::packHardwareHalfFloat1(o, in); break;
			case 2: cuttlefish::packHardwareHalfFloat2(o, in); break;
			case 3: cuttlefish::packHardwareHalfFloat3(o, in); break;
			case 4: cuttlefish::packHardwareHalfFloat4(o, in); break;
		}
		for (unsigned i = 0; i < 16; ++i)
		{
			unsigned k = i - 4 - align;
			if (i >= 4 + align && k < count)
			{
				std::uint32_t b;
				memcpy(&b, in + k, 4);
				if (!nearestHalf(b, out[i]))
					ctx.fail(mc::fmt("channels%u", count), "packing %u of (%g %g %g %g): channel %u is %04x",
						count, in[0], in[1], in[2], in[3], k, out[i]);
			}
			else if (out[i] != 0xA5A5)
				ctx.fail(mc::fmt("neighbour%u", count), "packing %u values wrote at offset %d", count,
					int(i) - 4 - int(align));
		}
	}
	ctx.step(n*n*n*n);
	ctx.state(index);
}

void setHardware(bool on)
{
	// The library decides once, at start-up; the variable is in writable memory unless the
	// compiler could decide already.
	bool* p = const_cast<bool*>(&cuttlefish::hasHardwareHalfFloat);
	std::size_t page = std::size_t(sysconf(_SC_PAGESIZE));
	void* start = reinterpret_cast<void*>(std::uintptr_t(p) & ~(page - 1));
	mprotect(start, page, PROT_READ | PROT_WRITE);
	*const_cast<volatile bool*>(p) = on;
}

const TF halfFormats[] = {TF::R16, TF::R16G16, TF::R16G16B16, TF::R16G16B16A16};

// --- every float through the conversion to a texture ---
void converted(mc::Ctx& ctx, std::size_t index, bool hw)
{
	bool had = cuttlefish::hasHardwareHalfFloat;
	if (hw && !had)
		return;
	unsigned size = 1024; // 2^22 floats
	std::uint32_t base = std::uint32_t(index) << 22;
	Texture t(Texture::Dimension::Dim2D, size, size);
	{
		Image img = makeImage(size, size, ColorSpace::Linear, [&](unsigned x, unsigned y, float* p) {
			std::uint32_t k = base + 4*(y*size + x);
			std::uint32_t b[4] = {k, k + 1, k + 2, k + 3};
			memcpy(p, b, 16);
		});
		t.setImage(std::move(img));
	}
	setHardware(hw);
	bool r = t.convert(TF::R16G16B16A16, TT::Float, Texture::Quality::Normal,
		Texture::Alpha::Standard, Texture::ColorMask(), 1);
	setHardware(had);
	if (!r)
		ctx.fail("convert", "conversion failed");
	const std::uint16_t* d = static_cast<const std::uint16_t*>(t.data());
	for (std::uint32_t k = 0; k < 1u << 22; ++k)
	{
		if (!nearestHalf(base + k, d[k]))
			ctx.fail(mc::fmt("%s-%s", hw ? "converted" : "software", cls(base + k)),
				"%s conversion of float %08x gives half %04x", hw ? "hardware" : "portable", base + k,
				d[k]);
	}
	ctx.step(1u << 22);
	ctx.count(hw ? "floats converted with hardware" : "floats converted in software", 1u << 22);
	ctx.state(mc::mix(index, hw));
}

// --- each channel count and size, both paths agreeing off ties ---
void paths(mc::Ctx& ctx, std::size_t index)
{
	unsigned c = unsigned(index % 4) + 1;
	unsigned w = unsigned(index/4) % 40 + 1, h = unsigned(index/160) % 4 + 1;
	static const float v[] = {0.0f, -0.0f, 1.0f, -2.5f, 65504.0f, 65519.9f, 65520.0f, 70000.0f, 6e-8f,
		2.9e-8f, -6.1e-5f, 0.333f, INFINITY, -INFINITY, 1e-10f, 3.14159f, 1e30f, 100.03f, 0.1f};
	const unsigned n = sizeof(v)/sizeof(*v);
	Texture t(Texture::Dimension::Dim2D, w, h);
	Image img = makeImage(w, h, ColorSpace::Linear, [&](unsigned x, unsigned y, float* p) {
		for (unsigned k = 0; k < 4; ++k)
			p[k] = v[(x*3 + y*5 + k*7) % n];
	});
	bool had = cuttlefish::hasHardwareHalfFloat;
	std::vector<std::uint8_t> data[2];
	for (int hw = 0; hw < 2; ++hw)
	{
		if (hw && !had)
			continue;
		t.setImage(img); // conversion consumes the images
		setHardware(hw != 0);
		bool r = t.convert(halfFormats[c - 1], TT::Float, Texture::Quality::Normal,
			Texture::Alpha::Standard, Texture::ColorMask(), 1);
		setHardware(had);
		if (!r || t.dataSize() != std::size_t(w)*h*c*2)
			ctx.fail("size", "%ux%u with %u channels, hardware %d: result %d, %zu bytes", w, h, c, hw, r, t.dataSize());
		const std::uint16_t* d = static_cast<const std::uint16_t*>(t.data());
		for (unsigned i = 0; i < w*h; ++i)
		{
			for (unsigned k = 0; k < c; ++k)
			{
				float f = v[(i % w*3 + i/w*5 + k*7) % n];
				std::uint32_t b;
				memcpy(&b, &f, 4);
				if (!nearestHalf(b, d[i*c + k]))
					ctx.fail(mc::fmt("%s%u", hw ? "hardware" : "software", c),
						"%ux%u, pixel %u channel %u: %g gives half %04x", w, h, i, k, double(f), d[i*c + k]);
			}
		}
		data[hw].assign(static_cast<const std::uint8_t*>(t.data()),
			static_cast<const std::uint8_t*>(t.data()) + t.dataSize());
		ctx.step();
	}
	if (had && data[0] != data[1])
		ctx.fail("paths-differ", "%ux%u with %u channels: hardware and portable data differ", w, h, c);
	ctx.state(index);
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C19";
	spec.rule = "all 2^32 floats through the hardware functions and through the portable conversion; "
		"in the thorough run all 2^32 also through the hardware conversion; all 4-tuples of 12 values "
		"for each channel count and alignment; all sizes 1..40 x 1..4 with both paths";
	spec.assumptions = {"either neighbour is accepted when a float is exactly between two halves"};
	spec.families = {
		{"hardware", [](bool) { return std::size_t(256); }, hardware},
		{"channels", [](bool) { return std::size_t(16); }, channels},
		{"paths", [](bool) { return std::size_t(640); }, paths},
		{"software", [](bool) { return std::size_t(1024); },
			[](mc::Ctx& c, std::size_t i) { converted(c, i, false); }},
		{"converted", [](bool t) { return std::size_t(t ? 1024 : 0); },
			[](mc::Ctx& c, std::size_t i) { converted(c, i, true); }},
	};
	return mc::run(argc, argv, spec);
}
