#define PROPERTY "C06"
#define FILETYPE Texture::FileType::PVR
#define READ readPvr
#define EXT ".pvr"
#include "container_main.h"
