#define PROPERTY "C04"
#define FILETYPE Texture::FileType::DDS
#define READ readDds
#define EXT ".dds"
#include "container_main.h"
