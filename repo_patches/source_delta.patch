From 6518dfc926fde92d24b132e25546b6d21ddd8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 01/42] fix: saturate values outside of the range of 32-bit
 integer formats

The limits of 32-bit integers aren't representable as floats, so clamping in
float and casting overflowed the integer: large values became 0 or the
minimum.
---
 lib/src/StandardConverter.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index d3616ca..dcd0d90 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -183,8 +183,15 @@ public:
 			unsigned int col = (x*batchSize + i) % image().width();
 			for (unsigned int c = 0; c < C; ++c)
 			{
-				curData[i*C + c] = static_cast<T>(
-					std::round(clamp(scanline[col*4 + c], minVal, maxVal)));
+				// The limits of 32-bit integers aren't exactly representable as floats, so they can't be
+				// reached by casting a clamped float.
+				float value = scanline[col*4 + c];
+				if (value <= minVal)
+					curData[i*C + c] = std::numeric_limits<T>::min();
+				else if (value >= maxVal)
+					curData[i*C + c] = std::numeric_limits<T>::max();
+				else
+					curData[i*C + c] = static_cast<T>(std::round(value));
 			}
 		}
 	}
-- 
2.43.0


From b7da12f61c0762451a7510dbac9be5d0bc4fb2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 02/42] fix: packing of 10/11-bit and shared exponent floats

glm's packing functions wrap around for negative, very small, and very large
values for B10G11R11, and clamp to half of the maximum value for E5B9G9R9.
---
 lib/src/StandardConverter.cpp | 69 ++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index d521474..957ef2d 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -16,9 +16,73 @@
 
 #include "StandardConverter.h"
 
+#include <cstring>
+
 namespace cuttlefish
 {
 
+namespace
+{
+
+// NOTE: glm's packing functions wrap around for negative, very small, and very large values for
+// 10 and 11-bit floats, and clamp to half of the maximum value for shared exponent floats.
+
+std::uint32_t packUFloat(float value, unsigned int mantissaBits)
+{
+	const std::uint32_t infinity = 0x1FU << mantissaBits;
+	if (std::isnan(value))
+		return infinity | 1;
+	if (value <= 0.0f)
+		return 0;
+	if (std::isinf(value))
+		return infinity;
+
+	// Values below the minimum normalized value don't have the implicit 1.
+	if (value < 1.0f/(1 << 14))
+		return static_cast<std::uint32_t>(std::round(std::ldexp(value, 14 + mantissaBits)));
+
+	// Re-bias the exponent and round the mantissa, allowing it to carry over to the exponent.
+	std::uint32_t bits;
+	std::memcpy(&bits, &value, sizeof(bits));
+	bits -= (127 - 15) << 23;
+	bits = (bits + (1 << (22 - mantissaBits))) >> (23 - mantissaBits);
+	return std::min(bits, infinity - 1);
+}
+
+std::uint32_t packSharedExponent(const ColorRGBAf& color)
+{
+	const int mantissaBits = 9;
+	const int bias = 15;
+	const float maxVal = 65408.0f; // (2^9 - 1)/2^9*2^16
+
+	// Comparison order also replaces NaN with 0.
+	const float r = color.r > 0.0f ? std::min(color.r, maxVal) : 0.0f;
+	const float g = color.g > 0.0f ? std::min(color.g, maxVal) : 0.0f;
+	const float b = color.b > 0.0f ? std::min(color.b, maxVal) : 0.0f;
+	const float maxChannel = std::max(r, std::max(g, b));
+
+	// Exponent for [0.5, 1), which is the range of the mantissa for the largest channel.
+	int exponent = -bias;
+	if (maxChannel > 0.0f)
+	{
+		std::frexp(maxChannel, &exponent);
+		exponent = std::max(exponent, -bias);
+	}
+	if (std::round(std::ldexp(maxChannel, mantissaBits - exponent)) >= (1 << mantissaBits))
+		++exponent;
+
+	const auto rBits =
+		static_cast<std::uint32_t>(std::round(std::ldexp(r, mantissaBits - exponent)));
+	const auto gBits =
+		static_cast<std::uint32_t>(std::round(std::ldexp(g, mantissaBits - exponent)));
+	const auto bBits =
+		static_cast<std::uint32_t>(std::round(std::ldexp(b, mantissaBits - exponent)));
+	return rBits | (gBits << 9) | (bBits << 18) |
+		(static_cast<std::uint32_t>(exponent + bias) << 27);
+}
+
+} // namespace
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -439,7 +503,8 @@ void B10R11R11UFloatConverter::process(unsigned int x, unsigned int, ThreadData*
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF2x11_1x10(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packUFloat(scanline[col].r, 6) | (packUFloat(scanline[col].g, 6) << 11) |
+			(packUFloat(scanline[col].b, 5) << 22);
 	}
 }
 
@@ -460,7 +525,7 @@ void E5B9G9R9UFloatConverter::process(unsigned int x, unsigned int, ThreadData*)
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF3x9_E1x5(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packSharedExponent(scanline[col]);
 	}
 }
 
-- 
2.43.0


From adce8f0e899e704ccd4f2fbab17016492ad2d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 03/42] fix: assignment of CustomMipImage dropped the
 replacement kind

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..db722c4 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -284,6 +284,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
@@ -302,6 +303,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
-- 
2.43.0


From f85545e91c8d52ab41cb5545c36add9b17023768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 04/42] fix: custom image for the last mip leaked into the next
 face or array layer

---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index db722c4..b8dc6a1 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1457,11 +1457,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = width(mip);
-- 
2.43.0


From 7e59a1625a2e56d92105c1d9fe6acdf4f450e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 05/42] fix: 3D textures initialized with several mip levels
 could never be completed

---
 lib/src/Texture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index b8dc6a1..3c1b8de 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1154,9 +1154,10 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(Texture::depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From 752467cfa11bd0e872a391ef05886843be2684d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 06/42] fix: generating mipmaps after converting left stale
 converted data of the wrong size

---
 lib/src/Texture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 3c1b8de..6a7d97a 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1346,6 +1346,10 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
+	// Any previously converted data no longer corresponds to the images.
+	m_impl->format = Format::Unknown;
+	m_impl->textures.clear();
+
 	if (m_impl->dimension == Dimension::Dim3D)
 	{
 		// Mipmap along X, Y, and Z.
-- 
2.43.0


From 0b2b33f04b9d6b37c24bbb873f85879fbdb7e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 07/42] fix: rejected custom mips of a 3D texture left it
 partly modified

---
 lib/src/Texture.cpp | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6a7d97a..92872d4 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1343,6 +1343,33 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension(), width(), height(), depth()));
+
+	if (m_impl->dimension == Dimension::Dim3D)
+	{
+		// Check for custom mips before making any changes. If one depth is provided, all must be,
+		// and have consistent replacement between them.
+		for (unsigned int mip = 1; mip < mipLevels; ++mip)
+		{
+			unsigned int mipDepth = std::max(m_impl->depth >> mip, 1U);
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			for (unsigned int d = 1; d < mipDepth; ++d)
+			{
+				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
+				if ((foundCustomMip == customMipImages.end()) !=
+					(firstCustomMip == customMipImages.end()))
+				{
+					return false;
+				}
+
+				if (foundCustomMip != customMipImages.end() &&
+					foundCustomMip->second.replacement != firstCustomMip->second.replacement)
+				{
+					return false;
+				}
+			}
+		}
+	}
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
@@ -1361,26 +1388,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 			unsigned int mipHeight = height(mip);
 			unsigned int mipDepth = depth(mip);
 
-			// Check for custom mips. If one depth is provided, all must be, and have consistent
-			// replacement between them.
-			bool customMips = false;
-			MipReplacement replacement = MipReplacement::Once;
-			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
-				if (foundCustomMip == customMipImages.end())
-				{
-					if (customMips)
-						return false;
-				}
-				else if (d == 0)
-				{
-					customMips = true;
-					replacement = foundCustomMip->second.replacement;
-				}
-				else if (!customMips || replacement != foundCustomMip->second.replacement)
-					return false;
-			}
+			// Custom mips were already checked for consistency across the depth.
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			bool customMips = firstCustomMip != customMipImages.end();
+			MipReplacement replacement = customMips ? firstCustomMip->second.replacement :
+				MipReplacement::Once;
 
 			// Generated mips, either when no replacement is used or to resume previous state when
 			// replacement is set to once.
-- 
2.43.0


From e0d0a4f20e55df86987580eaa27230ed149bfeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 08/42] fix: custom mip images kept their own color space and
 could be lost for unresizable formats

---
 lib/src/Texture.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 92872d4..2ae340e 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1441,10 +1441,9 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
 					assert(foundCustomMip != customMipImages.end());
 					Image& thisMipImage = mipImages[d];
-					thisMipImage = foundCustomMip->second.image->resize(
-						mipWidth, mipHeight, filter);
-					if (thisMipImage.format() != Image::Format::RGBAF)
-						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage = foundCustomMip->second.image->convert(Image::Format::RGBAF);
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
+					thisMipImage = thisMipImage.resize(mipWidth, mipHeight, filter);
 				}
 			}
 
@@ -1517,10 +1516,9 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					Image& thisMipImage = m_impl->images[mip][d][f];
 					if (customMip)
 					{
-						thisMipImage = foundCustomMip->second.image->resize(
-							mipWidth, mipHeight, filter);
-						if (thisMipImage.format() != Image::Format::RGBAF)
-							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage = foundCustomMip->second.image->convert(Image::Format::RGBAF);
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
+						thisMipImage = thisMipImage.resize(mipWidth, mipHeight, filter);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From 8ffb95429cba075342ce4ef874dc0f4350e91c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 09/42] fix: saving a texture to a file ignored failures of the
 final flush

---
 lib/src/Texture.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 2ae340e..a4712cd 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1663,7 +1663,12 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-	return save(stream, fileType);
+
+	SaveResult result = save(stream, fileType);
+	stream.close();
+	if (result == SaveResult::Success && !stream)
+		return SaveResult::WriteError;
+	return result;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
-- 
2.43.0


From f5a3e9c56da187368ba18f17d5c8f6117261638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 10/42] fix: DDS cube maps were not marked as complex surfaces

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..508f7ad 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -591,7 +591,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	header.caps = DdsCapsFlags_Texture;
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
-	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
+	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Cube ||
 		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
-- 
2.43.0


From 05aa9c5bba91ebeb37302f53e0ff99dfa9fa564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 11/42] fix: A4R4G4B4 was not reported to have alpha

---
 lib/src/Texture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index a4712cd..5d8dc44 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -472,6 +472,7 @@ bool Texture::hasAlpha(Format format)
 	{
 		case Texture::Format::R4G4B4A4:
 		case Texture::Format::B4G4R4A4:
+		case Texture::Format::A4R4G4B4:
 		case Texture::Format::R5G5B5A1:
 		case Texture::Format::B5G5R5A1:
 		case Texture::Format::A1R5G5B5:
-- 
2.43.0


From 801d5fec43dd5bd658318f26a8df5dacae3311ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 12/42] fix: KTX integer textures were described with a
 non-integer pixel format

---
 lib/src/SaveKtx.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..494efcd 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -289,10 +289,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_R8UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_R8I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				default:
 					return false;
@@ -312,9 +314,11 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.internalFormat = GL_RG8UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.internalFormat = GL_RG8I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				default:
 					return false;
@@ -338,10 +342,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RGB8UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_RGB8I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				default:
 					return false;
@@ -483,10 +489,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_R16UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_R16I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -512,10 +520,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RG16UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RG16I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -540,10 +550,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGB16UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGB16I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -568,10 +580,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGBA16UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGBA16I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -589,10 +603,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_R32UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_R32I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -610,10 +626,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RG32UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RG32I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -630,10 +648,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGB32UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGB32I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -650,10 +670,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGBA32UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGBA32I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
-- 
2.43.0


From 5210f58daafc00f2952306bf6a59dc5911fd1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 13/42] fix: KTX signed R8G8 textures were described as
 unsigned

---
 lib/src/SaveKtx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index 494efcd..87eac11 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -310,6 +310,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
@@ -317,6 +318,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					info.format = GL_RG_INTEGER;
 					return true;
-- 
2.43.0


From 5e436295e5001d0317fa957d2b9e9983e6b0e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 14/42] fix: KTX files described B8G8R8A8 and A8B8G8R8 with the
 bytes in reverse order

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index 87eac11..856870e 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -386,7 +386,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -413,7 +413,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From c9a9896b434c618926df7eab26e927bb840caa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 15/42] fix: 1D textures accepted a height that KTX files
 cannot describe

---
 lib/src/Texture.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 5d8dc44..6ba664f 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1141,8 +1141,11 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 {
 	reset();
 
-	if (width == 0 || height == 0 || (dimension == Dimension::Dim3D && depth == 0))
+	if (width == 0 || height == 0 || (dimension == Dimension::Dim1D && height != 1) ||
+		(dimension == Dimension::Dim3D && depth == 0))
+	{
 		return false;
+	}
 
 	m_impl.reset(new Impl);
 	m_impl->dimension = dimension;
-- 
2.43.0


From fe403357f4abc243ff0ede16130b7c4317f1b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 16/42] fix: setPixel overwrote the sRGB grayscale value with
 the one computed without linearization

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..ae1b20d 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1120,7 +1120,7 @@ bool Image::setPixel(unsigned int x, unsigned int y, const ColorRGBAd& color, bo
 			grayColor.r = grayColor.g = grayColor.b = linearToSRGB(toGrayscale(
 				sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
 			grayColor.a = color.a;
-			setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
+			return setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
 		}
 		return setPixelImpl(m_impl->format, scanline, x, color);
 	}
-- 
2.43.0


From 7b882276e807b7dadbe9d46e8cba3af032fdeb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 17/42] fix: saturate instead of wrapping when writing pixels
 of integer image formats

---
 lib/src/Image.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ae1b20d..b4631a5 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -316,9 +316,11 @@ double clamp(double d)
 }
 
 template <typename T>
-T clamp(T v)
+T fromDoubleInt(double d)
 {
-	return std::max(std::min(v, std::numeric_limits<T>::max()), std::numeric_limits<T>::lowest());
+	// Clamp before converting to an integer, since out of range conversions aren't defined.
+	return static_cast<T>(std::min(static_cast<double>(std::numeric_limits<T>::max()),
+		std::max(static_cast<double>(std::numeric_limits<T>::lowest()), d)));
 }
 
 template <typename T>
@@ -557,20 +559,20 @@ bool setPixelImpl(Image::Format format, void* scanline, unsigned int x, const Co
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDoubleInt<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDoubleInt<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDoubleInt<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDoubleInt<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] =
@@ -673,20 +675,20 @@ bool setPixelNoGrayscaleImpl(Image::Format format, void* scanline, unsigned int
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDoubleInt<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::uint16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDoubleInt<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDoubleInt<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDoubleInt<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] = static_cast<float>(color.r);
-- 
2.43.0


From 8aa81ecb021df00309e22d66de5adfb89681faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 18/42] fix: channel masks and shifts of images

---
 lib/src/Image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index b4631a5..018a1c6 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -745,25 +745,25 @@ struct Image::Impl
 		: image(img), format(format), colorSpace(colorSpace), bitsPerPixel(FreeImage_GetBPP(img)),
 		width(FreeImage_GetWidth(img)), height(FreeImage_GetHeight(img)),
 		redMask(FreeImage_GetRedMask(img)), greenMask(FreeImage_GetGreenMask(img)),
-		blueMask(FreeImage_GetGreenMask(img)),
+		blueMask(FreeImage_GetBlueMask(img)),
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-		if (redMask == FI_RGBA_RED)
+		if (redMask == FI_RGBA_RED_MASK)
 			redShift = FI_RGBA_RED_SHIFT;
 		else if (redMask == FI16_555_RED_MASK)
 			redShift = FI16_555_RED_SHIFT;
 		else if (redMask == FI16_565_RED_MASK)
 			redShift = FI16_565_RED_SHIFT;
 
-		if (greenMask == FI_RGBA_GREEN)
+		if (greenMask == FI_RGBA_GREEN_MASK)
 			greenShift = FI_RGBA_GREEN_SHIFT;
 		else if (greenMask == FI16_555_GREEN_MASK)
 			greenShift = FI16_555_GREEN_SHIFT;
 		else if (greenMask == FI16_565_GREEN_MASK)
 			greenShift = FI16_565_GREEN_SHIFT;
 
-		if (blueMask == FI_RGBA_BLUE)
+		if (blueMask == FI_RGBA_BLUE_MASK)
 			blueShift = FI_RGBA_BLUE_SHIFT;
 		else if (blueMask == FI16_555_BLUE_MASK)
 			blueShift = FI16_555_BLUE_SHIFT;
-- 
2.43.0


From 835a858a8c7b03e1320e646734522f6542a22613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 19/42] fix: converting Gray8 to integer image formats used the
 raw value unlike every other format

---
 lib/src/Image.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 018a1c6..3ef1efc 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1216,20 +1216,11 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 				}
 				break;
 			case Format::Int16:
-				image.m_impl.reset(Impl::create(FreeImage_ConvertToType(m_impl->image, FIT_INT16),
-					m_impl->colorSpace, dstFormat));
-				break;
 			case Format::UInt16:
-				// NOTE: FreeImage treates UInt16 as a normalized integer type.
-				break;
 			case Format::Int32:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToType(m_impl->image, FIT_INT32), m_impl->colorSpace,
-					dstFormat));
-				break;
 			case Format::UInt32:
-				image.m_impl.reset(Impl::create( FreeImage_ConvertToType(m_impl->image, FIT_UINT32),
-					m_impl->colorSpace, dstFormat));
+				// NOTE: FreeImage treats UInt16 as a normalized integer type, and doesn't normalize
+				// Gray8 when converting to the other integer types.
 				break;
 			case Format::Float:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-- 
2.43.0


From 60b90896059313f97f7962c3c1d537e11bb46e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 20/42] fix: round to the nearest integer when writing pixels
 of integer image formats

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 3ef1efc..b0e6450 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -320,7 +320,7 @@ T fromDoubleInt(double d)
 {
 	// Clamp before converting to an integer, since out of range conversions aren't defined.
 	return static_cast<T>(std::min(static_cast<double>(std::numeric_limits<T>::max()),
-		std::max(static_cast<double>(std::numeric_limits<T>::lowest()), d)));
+		std::max(static_cast<double>(std::numeric_limits<T>::lowest()), std::round(d))));
 }
 
 template <typename T>
-- 
2.43.0


From 90cab900a5accf6e7ad48b763339dc9ef4c17369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 21/42] fix: resizing 16-bit RGB images gave 24-bit data that
 was interpreted as 16-bit

---
 lib/src/Image.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index b0e6450..5bedcf1 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1364,6 +1364,15 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		case Format::Double:
 		case Format::Complex:
 			break;
+		case Format::RGB5:
+		case Format::RGB565:
+			// FreeImage outputs 24-bit images when rescaling 16-bit images.
+			image.m_impl.reset(Impl::create(
+				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
+				Format::Invalid));
+			if (image)
+				image = image.convert(m_impl->format);
+			break;
 		default:
 			image.m_impl.reset(Impl::create(
 				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
-- 
2.43.0


From f4587415e65312d9e35194fe8d339dd0d3b01d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 22/42] fix: reading an image from a stream returned bytes
 instead of items and couldn't seek after reaching the end

---
 lib/src/Image.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 5bedcf1..990ebeb 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -208,9 +208,17 @@ bool isRGB16BPPFormat(Image::Format format)
 
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
+	if (size == 0 || count == 0)
+		return 0;
+
 	auto stream = reinterpret_cast<std::istream*>(handle);
-	stream->read(reinterpret_cast<char*>(buffer), size*count);
-	return static_cast<unsigned int>(stream->gcount());
+	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	auto readSize = static_cast<std::size_t>(stream->gcount());
+	// Reading past the end sets the fail bit, which would cause later seeks to fail.
+	if (stream->eof() && !stream->bad())
+		stream->clear();
+	// Same as fread(), the number of items is returned rather than the number of bytes.
+	return static_cast<unsigned int>(readSize/size);
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
-- 
2.43.0


From 62951432d2e19870bede353867837ca10fa31d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 23/42] fix: saving images to streams failed for BMP and TIFF
 and ignored write failures

---
 lib/src/Image.cpp | 72 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 19 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 990ebeb..0499774 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -23,6 +23,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstdio>
+#include <cstring>
 #include <istream>
 #include <limits>
 #include <ostream>
@@ -256,47 +257,75 @@ long tellIStream(fi_handle handle)
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
 
-unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
+// Writing to memory has the same behavior as a file, including filling the gap with zeros when writing
+// beyond the end. Streams can't do this in general, and many plugins ignore write failures.
+struct OutputMemory
 {
-	return 0;
+	std::vector<std::uint8_t> data;
+	std::size_t offset = 0;
+};
+
+unsigned int readOutputMemory(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
+{
+	auto memory = reinterpret_cast<OutputMemory*>(handle);
+	if (size == 0 || memory->offset >= memory->data.size())
+		return 0;
+
+	count = static_cast<unsigned int>(std::min<std::size_t>(count,
+		(memory->data.size() - memory->offset)/size));
+	std::size_t readSize = static_cast<std::size_t>(size)*count;
+	std::memcpy(buffer, memory->data.data() + memory->offset, readSize);
+	memory->offset += readSize;
+	return count;
 }
 
-unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
+unsigned int writeOutputMemory(void* buffer, unsigned int size, unsigned int count,
+	fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), size*count);
-	return count*size;
+	auto memory = reinterpret_cast<OutputMemory*>(handle);
+	std::size_t writeSize = static_cast<std::size_t>(size)*count;
+	if (writeSize == 0)
+		return count;
+
+	if (memory->offset + writeSize > memory->data.size())
+		memory->data.resize(memory->offset + writeSize);
+	std::memcpy(memory->data.data() + memory->offset, buffer, writeSize);
+	memory->offset += writeSize;
+	return count;
 }
 
-int seekOStream(fi_handle handle, long offset, int origin)
+int seekOutputMemory(fi_handle handle, long offset, int origin)
 {
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	std::ios_base::seekdir dir;
+	auto memory = reinterpret_cast<OutputMemory*>(handle);
+	long base;
 	switch (origin)
 	{
 		case SEEK_SET:
-			dir = std::ios_base::beg;
+			base = 0;
 			break;
 		case SEEK_CUR:
-			dir = std::ios_base::cur;
+			base = static_cast<long>(memory->offset);
 			break;
 		case SEEK_END:
-			dir = std::ios_base::end;
+			base = static_cast<long>(memory->data.size());
 			break;
 		default:
 			return -1;
 	}
-	stream->seekp(offset, dir);
-	return stream->good() ? 0 : -1;
+	if (base + offset < 0)
+		return -1;
+
+	memory->offset = static_cast<std::size_t>(base + offset);
+	return 0;
 }
 
-long tellOStream(fi_handle handle)
+long tellOutputMemory(fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	return static_cast<long>(stream->tellp());
+	return static_cast<long>(reinterpret_cast<OutputMemory*>(handle)->offset);
 }
 
-FreeImageIO ostreamIO{&readOStream, &writeOStream, &seekOStream, tellOStream};
+FreeImageIO outputMemoryIO{&readOutputMemory, &writeOutputMemory, &seekOutputMemory,
+	&tellOutputMemory};
 
 double toDoubleNorm(std::uint8_t value)
 {
@@ -952,7 +981,12 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false;
+	OutputMemory memory;
+	if (!FreeImage_SaveToHandle(format, m_impl->image, &outputMemoryIO, &memory))
+		return false;
+
+	stream.write(reinterpret_cast<const char*>(memory.data.data()), memory.data.size());
+	return stream.good();
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From affb0d44f3915593826d185fbc1db26820d8ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 24/42] fix: saving an image to a file ignored write failures

---
 lib/src/Image.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0499774..11d766f 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -24,6 +24,7 @@
 #include <cmath>
 #include <cstdio>
 #include <cstring>
+#include <fstream>
 #include <istream>
 #include <limits>
 #include <ostream>
@@ -965,11 +966,18 @@ bool Image::save(const char* fileName)
 	if (!m_impl)
 		return false;
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	// FreeImage_Save() doesn't report failures to write to the file.
+	std::vector<std::uint8_t> data;
+	if (!save(data, fileName))
 		return false;
 
-	return FreeImage_Save(format, m_impl->image, fileName) != false;
+	std::ofstream stream(fileName, std::ofstream::binary);
+	if (!stream.is_open())
+		return false;
+
+	stream.write(reinterpret_cast<const char*>(data.data()), data.size());
+	stream.close();
+	return stream.good();
 }
 
 bool Image::save(std::ostream& stream, const char* fileName)
-- 
2.43.0


From 21b3b94bb3e0906ca13c8cba138ff37e9b25f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 25/42] fix: saving images in pixel formats the file format
 doesn't support wrote garbage

---
 lib/src/Image.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 11d766f..6de7388 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -989,8 +989,25 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
+	// Not all plugins check for pixel formats they don't support, writing garbage or out of bounds.
+	FIBITMAP* image = m_impl->image;
+	FIBITMAP* convertedImage = nullptr;
+	if (isRGB16BPPFormat(m_impl->format) && !FreeImage_FIFSupportsExportBPP(format, 16))
+	{
+		convertedImage = FreeImage_ConvertTo24Bits(image);
+		if (!convertedImage)
+			return false;
+		image = convertedImage;
+	}
+
+	FREE_IMAGE_TYPE type = FreeImage_GetImageType(image);
 	OutputMemory memory;
-	if (!FreeImage_SaveToHandle(format, m_impl->image, &outputMemoryIO, &memory))
+	bool success = FreeImage_FIFSupportsExportType(format, type) &&
+		(type != FIT_BITMAP || FreeImage_FIFSupportsExportBPP(format, FreeImage_GetBPP(image))) &&
+		FreeImage_SaveToHandle(format, image, &outputMemoryIO, &memory);
+	if (convertedImage)
+		FreeImage_Unload(convertedImage);
+	if (!success)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(memory.data.data()), memory.data.size());
-- 
2.43.0


From f973637668fc03f8496d94588db62696be119be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 26/42] fix: loading 1-bit and min-is-white grayscale images
 failed or inverted them, and transparency of grayscale images was lost

---
 lib/src/Image.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 6de7388..10d7795 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -754,15 +754,19 @@ struct Image::Impl
 		if (!image)
 			return nullptr;
 
-		if (FreeImage_GetColorType(image) == FIC_PALETTE)
+		if (FreeImage_GetImageType(image) == FIT_BITMAP && FreeImage_GetBPP(image) <= 8)
 		{
-			FIBITMAP* newImage;
+			FREE_IMAGE_COLOR_TYPE colorType = FreeImage_GetColorType(image);
+			FIBITMAP* newImage = image;
 			if (FreeImage_IsTransparent(image))
 				newImage = FreeImage_ConvertTo32Bits(image);
-			else
+			else if (colorType == FIC_PALETTE)
 				newImage = FreeImage_ConvertTo24Bits(image);
+			else if (colorType != FIC_MINISBLACK || FreeImage_GetBPP(image) != 8)
+				newImage = FreeImage_ConvertToGreyscale(image);
 
-			FreeImage_Unload(image);
+			if (newImage != image)
+				FreeImage_Unload(image);
 			image = newImage;
 			if (!image)
 				return nullptr;
-- 
2.43.0


From 4bbb58305bc58784c1d391515e358c05f71ba48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 27/42] fix: a failed seek while loading an image from a stream
 made all later reads fail

---
 lib/src/Image.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 10d7795..e61dfb7 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -247,7 +247,13 @@ int seekIStream(fi_handle handle, long offset, int origin)
 			return -1;
 	}
 	stream->seekg(offset, dir);
-	return stream->good() ? 0 : -1;
+	if (stream->good())
+		return 0;
+
+	// Failing to seek sets the fail bit, which would cause later reads and seeks to fail.
+	if (!stream->bad())
+		stream->clear();
+	return -1;
 }
 
 long tellIStream(fi_handle handle)
-- 
2.43.0


From a36872020355eb5afdfe5f33c60e0eb44c294e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 28/42] fix: converting with a very large thread count tried to
 allocate memory for all of those threads

---
 lib/src/Converter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index e6fbb77..4aa66fc 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -511,11 +511,6 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 	std::vector<std::pair<unsigned int, unsigned int>> jobs;
 	std::vector<std::unique_ptr<ThreadData>> threadData;
 	std::vector<std::thread> threads;
-	if (threadCount > 1)
-	{
-		threadData.reserve(threadCount);
-		threads.reserve(threadCount);
-	}
 
 	textureData.resize(images.size());
 	for (unsigned int mip = 0; mip < images.size(); ++mip)
@@ -555,6 +550,8 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 				else
 				{
 					std::atomic<unsigned int> curJob(0);
+					threadData.reserve(curThreads);
+					threads.reserve(curThreads);
 					// Initialize all thread data first in case they work with global data, such as
 					// library initialization. (some of which is beyond our control)
 					for (unsigned int i = 0; i < curThreads; ++i)
-- 
2.43.0


From 170c7ebda084e8bd3e33bf91bd63e08a225db981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 29/42] fix: failing to start a thread during conversion
 terminated the program

---
 lib/src/Converter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 4aa66fc..59904f2 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -23,6 +23,7 @@
 #include <algorithm>
 #include <atomic>
 #include <cassert>
+#include <system_error>
 #include <thread>
 #include <utility>
 
@@ -560,7 +561,7 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 					for (unsigned int i = 0; i < curThreads; ++i)
 					{
 						Converter::ThreadData* threadDataPtr = threadData[i].get();
-						threads.emplace_back([&curJob, &jobs, &converter, threadDataPtr]()
+						auto processJobs = [&curJob, &jobs, &converter, threadDataPtr]()
 							{
 								do
 								{
@@ -571,7 +572,18 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 									converter->process(jobs[thisJob].first, jobs[thisJob].second,
 										threadDataPtr);
 								} while (true);
-							});
+							};
+
+						try
+						{
+							threads.emplace_back(processJobs);
+						}
+						catch (const std::system_error&)
+						{
+							// No more threads can be started, so use the current thread instead.
+							processJobs();
+							break;
+						}
 					}
 
 					for (std::thread& thread : threads)
-- 
2.43.0


From 82c65b9c5c7fa4974e24b18434e025f06977d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 30/42] fix: the command line type was overridden by the
 default of a later format

-t before -f B10G11R11_UFloat was ignored, and the default type of such a format
stayed when a later -f replaced it.
---
 tool/CommandLine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..ab8b3c4 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1306,6 +1306,8 @@ bool CommandLine::parse(int argc, const char** argv)
 				{
 					type = Texture::Type::UFloat;
 				}
+				else
+					type = Texture::Type::UNorm;
 			}
 		}
 		else if (matches(argv[i], "-t", "--type"))
@@ -1318,6 +1320,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			typeSet = true;
 			if (strcasecmp(argv[i], "unorm") == 0)
 				type = Texture::Type::UNorm;
 			else if (strcasecmp(argv[i], "snorm") == 0)
-- 
2.43.0


From 87488e96c4315b60b4018a6c90d32b3dfe4061c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 31/42] fix: an unknown format was accepted after a valid one

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index ab8b3c4..e21a716 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1281,6 +1281,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			format = Texture::Format::Unknown;
 			for (const auto& formatInfo : formatMap)
 			{
 				if (strcasecmp(formatInfo.second, argv[i]) == 0)
-- 
2.43.0


From bec2a965d598e813e4e54c73520247485f1d82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 32/42] fix: images could be added to those of an input list

---
 tool/CommandLine.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index e21a716..05f24a0 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -840,7 +840,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			log = Log::Verbose;
 		else if (matches(argv[i], "-i", "--input"))
 		{
-			if (!images.empty())
+			if (!images.empty() || imageFile)
 			{
 				std::cerr << invalidInputsError << std::endl;
 				success = false;
@@ -858,7 +858,7 @@ bool CommandLine::parse(int argc, const char** argv)
 		}
 		else if (matches(argv[i], "-a", "--array"))
 		{
-			if (images.empty())
+			if (images.empty() && !imageFile)
 				imageType = ImageType::Array;
 			else if (imageType != ImageType::Array || imageFile)
 			{
@@ -892,7 +892,7 @@ bool CommandLine::parse(int argc, const char** argv)
 		}
 		else if (matches(argv[i], "-c", "--cube"))
 		{
-			if (images.empty())
+			if (images.empty() && !imageFile)
 			{
 				imageType = ImageType::Cube;
 				images.resize(6);
@@ -931,7 +931,7 @@ bool CommandLine::parse(int argc, const char** argv)
 		}
 		else if (matches(argv[i], "-C", "--cube-array"))
 		{
-			if (images.empty())
+			if (images.empty() && !imageFile)
 				imageType = ImageType::CubeArray;
 			else if (imageType != ImageType::CubeArray || imageFile)
 			{
@@ -979,7 +979,7 @@ bool CommandLine::parse(int argc, const char** argv)
 		}
 		else if (matches(argv[i], "-I", "--input-list"))
 		{
-			if (!images.empty())
+			if (!images.empty() || imageFile)
 			{
 				std::cerr << invalidInputsError << std::endl;
 				success = false;
@@ -1009,6 +1009,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			imageFile = true;
 			if (!readImageList(images, argv[++i]))
 			{
 				success = false;
-- 
2.43.0


From 3e48bbe813a4542d81c6252bbe45e2bebf4a4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 33/42] fix: negative, empty, and too large numbers on the
 command line were misread

Negative indices and sizes wrapped around or aliased the relative sizes, empty
strings were read as 0, large numbers were truncated, and heights could be NaN.
Some of those indices read and wrote outside of the list of images.
---
 tool/CommandLine.cpp | 60 +++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 05f24a0..9354717 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -16,10 +16,12 @@
 
 #include "CommandLine.h"
 #include <cassert>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #if CUTTLEFISH_WINDOWS
@@ -276,19 +278,29 @@ bool matches(const char* command, const char* shortCmd, const char* longCmd)
 	return std::strcmp(command, shortCmd) == 0 || std::strcmp(command, longCmd) == 0;
 }
 
-bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+bool parseUnsigned(std::size_t& value, const char* str,
+	unsigned long long maxValue = std::numeric_limits<unsigned int>::max())
 {
-	if (i >= argc - 1)
+	// strtoull() accepts empty strings and negates values with a leading minus sign.
+	if (*str < '0' || *str > '9')
 		return false;
 
+	// Values that are too large are clamped to ULLONG_MAX.
 	char* endPtr;
-	const char* str = argv[i + 1];
-	unsigned long value = std::strtoul(str, &endPtr, 10);
-	if (endPtr != str + std::strlen(str))
+	unsigned long long parsedValue = std::strtoull(str, &endPtr, 10);
+	if (*endPtr != 0 || parsedValue > maxValue)
+		return false;
+
+	value = static_cast<std::size_t>(parsedValue);
+	return true;
+}
+
+bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+{
+	if (i >= argc - 1 || !parseUnsigned(index, argv[i + 1]))
 		return false;
 
 	++i;
-	index = value;
 	return true;
 }
 
@@ -463,9 +475,9 @@ bool readSize(int& size, int& i, int argc, const char** argv)
 		size = CommandLine::MaxNearestPO2;
 	else
 	{
-		char* endPtr;
-		unsigned long value = std::strtol(argv[i], &endPtr, 10);
-		if (endPtr != argv[i] + std::strlen(argv[i]))
+		// Negative values are used for the sizes relative to the image.
+		std::size_t value;
+		if (!parseUnsigned(value, argv[i], std::numeric_limits<int>::max()) || value == 0)
 		{
 			std::cerr << "error: invalid size " << argv[i] << std::endl;
 			return false;
@@ -567,10 +579,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		if (curStr.empty())
 			continue;
 
-		char* endPtr;
-		const char* str = curStr.c_str();
-		std::size_t level = std::strtoul(str, &endPtr, 10);
-		if (endPtr != str + curStr.size())
+		std::size_t level;
+		if (!parseUnsigned(level, curStr.c_str()))
 		{
 			std::cerr << "error: invalid mip level " << curStr << std::endl;
 			return false;
@@ -579,13 +589,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		delim = readNextToken(curStr, stream, whitespace, newline, delim);
 
 		std::size_t depth = 0;
-		str = curStr.c_str();
-		std::size_t value = std::strtoul(str, &endPtr, 10);
-		if (endPtr == str + curStr.size())
-		{
-			depth = value;
+		if (parseUnsigned(depth, curStr.c_str()))
 			delim = readNextToken(curStr, stream, whitespace, newline, delim);
-		}
 
 		auto face = Texture::CubeFace::PosX;
 		if (strToCubeFace(face, curStr.c_str()))
@@ -823,16 +828,9 @@ bool CommandLine::parse(int argc, const char** argv)
 		if (matches(argv[i], "-j", "--jobs"))
 		{
 			jobs = Texture::allCores;
-			if (i + 1 < argc)
-			{
-				char* endPtr;
-				unsigned long jobsl = std::strtol(argv[i + 1], &endPtr, 10);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
-				{
-					jobs = static_cast<unsigned int>(jobsl);
-					++i;
-				}
-			}
+			std::size_t jobCount;
+			if (readIndex(jobCount, i, argc, argv))
+				jobs = static_cast<unsigned int>(jobCount);
 		}
 		else if (matches(argv[i], "-q", "--quiet"))
 			log = Log::Quiet;
@@ -1122,7 +1120,7 @@ bool CommandLine::parse(int argc, const char** argv)
 
 			char* endPtr;
 			long angle = std::strtol(argv[++i], &endPtr, 10);
-			if (endPtr != argv[i] + std::strlen(argv[i]) || angle % 90 != 0)
+			if (endPtr == argv[i] || *endPtr != 0 || angle % 90 != 0)
 			{
 				std::cerr << "error: rotate angle must be a multiple of 90 degrees" << std::endl;
 				success = false;
@@ -1189,7 +1187,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			{
 				char* endPtr;
 				double h = std::strtod(argv[i + 1], &endPtr);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
+				if (endPtr != argv[i + 1] && *endPtr == 0 && std::isfinite(h))
 				{
 					normalHeight = h;
 					++i;
-- 
2.43.0


From ba2eb67406e619c1ab85f7813d4ef7a8f1e725b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 34/42] fix: a large image index exhausted the memory

---
 tool/CommandLine.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 9354717..cb0d717 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -822,6 +822,9 @@ bool CommandLine::parse(int argc, const char** argv)
 	bool imageFile = false;
 	bool typeSet = false;
 	bool alphaSet = false;
+	// All images must be provided, so any index must be less than the number of arguments.
+	const auto maxIndex = static_cast<std::size_t>(argc);
+	const char* missingImagesError = "error: not all images were provided";
 	const char* invalidInputsError = "error: cannot mix different types of image inputs";
 	for (int i = 1; i < argc; ++i)
 	{
@@ -877,6 +880,13 @@ bool CommandLine::parse(int argc, const char** argv)
 			if (i < argc - 2)
 				readIndex(index, i, argc, argv);
 
+			if (index >= maxIndex)
+			{
+				std::cerr << missingImagesError << std::endl;
+				success = false;
+				break;
+			}
+
 			if (index >= images.size())
 				images.resize(index + 1);
 
@@ -962,6 +972,13 @@ bool CommandLine::parse(int argc, const char** argv)
 
 			assert(i < argc - 1);
 			++i;
+			if (cubeIndex >= maxIndex)
+			{
+				std::cerr << missingImagesError << std::endl;
+				success = false;
+				break;
+			}
+
 			if (cubeIndex*6 >= images.size())
 				images.resize((cubeIndex + 1)*6);
 
-- 
2.43.0


From e82aae7b93605e9e4e8072a55eac6637add671c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 35/42] fix: channels unused by an earlier swizzle stayed
 masked out

---
 tool/CommandLine.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index cb0d717..372192b 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1244,17 +1244,20 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
-			if (redSwzl == Image::Channel::None)
-				colorMask.r = false;
-			if (greenSwzl == Image::Channel::None)
-				colorMask.g = false;
-			if (blueSwzl == Image::Channel::None)
-				colorMask.b = false;
-			if (alphaSwzl == Image::Channel::None)
-				colorMask.a = false;
-
-			if (!alphaSet && !colorMask.a)
-				alpha = Texture::Alpha::None;
+			colorMask.r = redSwzl != Image::Channel::None;
+			colorMask.g = greenSwzl != Image::Channel::None;
+			colorMask.b = blueSwzl != Image::Channel::None;
+			colorMask.a = alphaSwzl != Image::Channel::None;
+
+			if (!alphaSet)
+			{
+				if (!colorMask.a)
+					alpha = Texture::Alpha::None;
+				else if (preMultiply)
+					alpha = Texture::Alpha::PreMultiplied;
+				else
+					alpha = Texture::Alpha::Standard;
+			}
 		}
 		else if (std::strcmp(argv[i], "--srgb") == 0)
 			imageColorSpace = textureColorSpace = ColorSpace::sRGB;
-- 
2.43.0


From 231ded53ab7ab78aa620d2828db9f66639375547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 36/42] fix: custom mips for depths that cube maps and images
 don't have were accepted

The depth was compared with the number of images, which includes the cube faces.
Such custom mips were silently ignored.
---
 tool/CommandLine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 372192b..a34613a 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -755,7 +755,11 @@ bool validate(CommandLine& args)
 		return false;
 	}
 
-	auto depth = static_cast<unsigned int>(args.images.size());
+	unsigned int depth = 1;
+	if (args.imageType == CommandLine::ImageType::Array)
+		depth = static_cast<unsigned int>(args.images.size());
+	else if (args.imageType == CommandLine::ImageType::CubeArray)
+		depth = static_cast<unsigned int>(args.images.size()/6);
 	std::vector<unsigned int> levelDepthCounts;
 	for (const auto& customMip : args.customMipImages)
 	{
-- 
2.43.0


From 7a593ba6876f0d4817a2518330af6c9d19aeae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 37/42] fix: huge custom mip levels for 3D textures exhausted
 the memory

The size was also shifted by more than its number of bits.
---
 tool/CommandLine.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index a34613a..4ac1661 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -769,6 +769,14 @@ bool validate(CommandLine& args)
 			return false;
 		}
 
+		// No texture size has more levels than bits.
+		if (customMip.first.mipLevel >= std::numeric_limits<unsigned int>::digits)
+		{
+			std::cerr << "error: level " << customMip.first.mipLevel <<
+				" for custom mip out of range" << std::endl;
+			return false;
+		}
+
 		unsigned int thisDepth = depth;
 		if (args.dimension == Texture::Dimension::Dim3D)
 		{
-- 
2.43.0


From 6a2b274176c6960b8d8a85605a66dffd6c63c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 38/42] fix: custom mips for rotated normal maps had their
 width and height exchanged

Their size didn't match the mip level, so they were silently ignored.
---
 tool/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 161f1f3..2fd8d16 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -204,6 +204,18 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "rotating image '" << path << "'" << std::endl;
 		image = image.rotate(args.rotateAngle);
+		switch (args.rotateAngle)
+		{
+			case Image::RotateAngle::CW90:
+			case Image::RotateAngle::CW270:
+			case Image::RotateAngle::CCW90:
+			case Image::RotateAngle::CCW270:
+				std::swap(thisWidth, thisHeight);
+				std::swap(normalWidth, normalHeight);
+				break;
+			default:
+				break;
+		}
 	}
 
 	if (args.grayscale)
-- 
2.43.0


From 5c06ef21ece5b18c2fe11ac440266a02ebba4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 39/42] fix: custom mips that can't be used silently left out
 all mipmaps

Custom mips of a 3D texture level with different replacements make
generateMipmaps() fail.
---
 tool/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 2fd8d16..b3378e0 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -382,7 +382,11 @@ bool saveTexture(
 	{
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "generating mipmaps" << std::endl;
-		texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages);
+		if (!texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages))
+		{
+			std::cerr << "error: failed to generate mipmaps" << std::endl;
+			return false;
+		}
 		customMipImages.clear();
 	}
 
-- 
2.43.0


From 70925c38eeb4965101463e5a4d151fbe57bcb7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 40/42] fix: images larger than the largest int were created
 with a different size

Image::initialize(Gray8, 4294967294, 1) gave an image of 2x1, and resizing to such
a size wrote outside of the result.
---
 lib/src/Image.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index e61dfb7..e442d24 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1041,6 +1041,11 @@ bool Image::initialize(Format format, unsigned int width, unsigned int height,
 {
 	reset();
 
+	// FreeImage takes signed sizes and would use their absolute values.
+	constexpr unsigned int maxSize = std::numeric_limits<int>::max();
+	if (width > maxSize || height > maxSize)
+		return false;
+
 	unsigned int bpp, redMask, greenMask, blueMask;
 	FREE_IMAGE_TYPE type = getFreeImageFormat(format, bpp, redMask, greenMask, blueMask);
 	if (type == FIT_UNKNOWN)
-- 
2.43.0


From 2334763af4d9bf193b914235dad39ba76f4cdffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 41/42] fix: refuse to save images too large for TGA and GIF
 files

---
 lib/src/Image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index e442d24..189b0a9 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -999,6 +999,14 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
+	// The plugins for file types with 16-bit sizes don't check for sizes that don't fit.
+	constexpr unsigned int max16BitSize = std::numeric_limits<std::uint16_t>::max();
+	if ((format == FIF_TARGA || format == FIF_GIF) &&
+		(width() > max16BitSize || height() > max16BitSize))
+	{
+		return false;
+	}
+
 	// Not all plugins check for pixel formats they don't support, writing garbage or out of bounds.
 	FIBITMAP* image = m_impl->image;
 	FIBITMAP* convertedImage = nullptr;
-- 
2.43.0


From b2966fe19c5703baa054504d078d886986679ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 42/42] fix: DDS headers of block-compressed textures had the
 pitch of a row of blocks

The header of block-compressed formats holds the total size of the top level,
flagged with DDSD_LINEARSIZE, and DDSD_PITCH is for uncompressed formats only.
---
 lib/src/SaveDds.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index 508f7ad..7e02939 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -575,12 +575,22 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	DdsHeader header;
 	std::memset(&header, 0, sizeof(header));
 	header.size = sizeof(DdsHeader);
-	header.flags = DdsFlags_Requred | DdsFlags_MipmapCount | DdsFlags_Pitch;
+	header.flags = DdsFlags_Requred | DdsFlags_MipmapCount;
 	if (texture.dimension() == Texture::Dimension::Dim3D)
 		header.flags |= DdsFlags_Depth;
 	header.height = texture.height();
 	header.width = texture.width();
-	header.pitchOrLinearSize = computePitch(texture);
+	if (Texture::blockWidth(texture.format()) > 1)
+	{
+		header.flags |= DdsFlags_LinearSize;
+		header.pitchOrLinearSize = static_cast<std::uint32_t>(
+			texture.dataSize(Texture::CubeFace::PosX, 0));
+	}
+	else
+	{
+		header.flags |= DdsFlags_Pitch;
+		header.pitchOrLinearSize = computePitch(texture);
+	}
 	header.depth = texture.dimension() == Texture::Dimension::Dim3D ? texture.depth() : 0;
 	header.mipMapCount = texture.mipLevelCount();
 
-- 
2.43.0

