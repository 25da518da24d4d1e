#pragma once
int CreateOptionsBC4(void** options);
int CreateOptionsBC5(void** options);
int CreateOptionsBC6(void** options);
int DestroyOptionsBC4(void* options);
int DestroyOptionsBC5(void* options);
int DestroyOptionsBC6(void* options);
int SetQualityBC4(void* options, float quality);
int SetQualityBC5(void* options, float quality);
int SetQualityBC6(void* options, float quality);
int SetSignedBC6(void* options, bool sf16);
int CompressBlockBC4(const unsigned char* src, unsigned int stride, unsigned char block[8],
	const void* options = nullptr);
int CompressBlockBC4S(const char* src, unsigned int stride, unsigned char block[8],
	const void* options = nullptr);
int CompressBlockBC5(const unsigned char* src1, unsigned int stride1, const unsigned char* src2,
	unsigned int stride2, unsigned char block[16], const void* options = nullptr);
int CompressBlockBC5S(const char* src1, unsigned int stride1, const char* src2, unsigned int stride2,
	unsigned char block[16], const void* options = nullptr);
int CompressBlockBC6(const unsigned short* src, unsigned int strideInShorts,
	unsigned char block[16], const void* options = nullptr);
