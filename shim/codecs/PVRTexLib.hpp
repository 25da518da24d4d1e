#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
typedef std::uint64_t PVRTuint64;
typedef std::uint32_t PVRTuint32;
#define PVRTGENPIXELID4(a, b, c, d, p, q, r, s) (PVRTuint64(a) | PVRTuint64(b) << 8 | \
	PVRTuint64(c) << 16 | PVRTuint64(d) << 24 | PVRTuint64(p) << 32 | PVRTuint64(q) << 40 | \
	PVRTuint64(r) << 48 | PVRTuint64(s) << 56)
enum PVRTexLibColourSpace { PVRTLCS_Linear, PVRTLCS_sRGB };
enum PVRTexLibVariableType { PVRTLVT_UnsignedByteNorm, PVRTLVT_SignedByteNorm };
enum PVRTexLibPixelFormat { PVRTLPF_PVRTCI_2bpp_RGB, PVRTLPF_PVRTCI_2bpp_RGBA,
	PVRTLPF_PVRTCI_4bpp_RGB, PVRTLPF_PVRTCI_4bpp_RGBA, PVRTLPF_PVRTCII_2bpp,
	PVRTLPF_PVRTCII_4bpp };
enum PVRTexLibCompressorQuality { PVRTLCQ_PVRTCFastest, PVRTLCQ_PVRTCFast, PVRTLCQ_PVRTCLow,
	PVRTLCQ_PVRTCNormal, PVRTLCQ_PVRTCHigh, PVRTLCQ_PVRTCVeryHigh, PVRTLCQ_PVRTCThorough,
	PVRTLCQ_PVRTCBest };
namespace pvrtexlib
{
class PVRTextureHeader
{
public:
	PVRTextureHeader(PVRTuint64 format, PVRTuint32 width, PVRTuint32 height, PVRTuint32 depth = 1,
		PVRTuint32 mips = 1, PVRTuint32 layers = 1, PVRTuint32 faces = 1,
		PVRTexLibColourSpace space = PVRTLCS_sRGB,
		PVRTexLibVariableType type = PVRTLVT_UnsignedByteNorm, bool preMultiplied = false)
		: format(format), width(width), height(height), depth(depth), mips(mips), layers(layers),
		faces(faces), space(space), type(type), preMultiplied(preMultiplied) {}
	PVRTuint64 format;
	PVRTuint32 width, height, depth, mips, layers, faces;
	PVRTexLibColourSpace space;
	PVRTexLibVariableType type;
	bool preMultiplied;
};
class PVRTexture
{
public:
	PVRTexture(const PVRTextureHeader& header, const void* data);
	void* GetTextureDataPointer(PVRTuint32 mip = 0) { return m_data.data(); }
	PVRTuint32 GetTextureDataSize(std::int32_t mip = -1) { return PVRTuint32(m_data.size()); }
	bool Transcode(PVRTuint64 format, PVRTexLibVariableType type, PVRTexLibColourSpace space,
		PVRTexLibCompressorQuality quality = PVRTLCQ_PVRTCNormal, bool dither = false,
		float maxRange = 1.0f, PVRTuint32 maxThreads = 0);
private:
	PVRTextureHeader m_header;
	std::vector<std::uint8_t> m_data;
};
}
