#pragma once
namespace Etc
{
enum ErrorMetric { RGBA, RGBX, REC709, NUMERIC, NORMALXYZ };
class Image
{
public:
	enum class Format { UNKNOWN, ETC1, RGB8, SRGB8, RGBA8, SRGBA8, R11, SIGNED_R11, RG11, SIGNED_RG11,
		RGB8A1, SRGB8A1 };
	enum EncodingStatus { SUCCESS = 0 };
	Image(float* rgba, unsigned int width, unsigned int height, ErrorMetric metric);
	~Image();
	Image(const Image&) = delete;
	Image& operator=(const Image&) = delete;
	EncodingStatus Encode(Format format, ErrorMetric metric, float effort, unsigned int jobs,
		unsigned int maxJobs);
	unsigned char* GetEncodingBits() { return m_bits; }
	unsigned int GetEncodingBitsBytes() { return m_bytes; }
private:
	float* m_source;
	unsigned int m_width, m_height, m_bytes;
	unsigned char* m_bits;
};
}
