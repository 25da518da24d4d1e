#define PROPERTY "C05"
#define FILETYPE Texture::FileType::KTX
#define READ readKtx
#define EXT ".ktx"
#include "container_main.h"
