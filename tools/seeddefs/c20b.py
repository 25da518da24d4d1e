id='c20-first-dot'
property='C20'
needs='a file name with a dot before the one of the extension, such as a version number or ../'
breaks='The file type is not recognised.'
edits=[('lib/src/Texture.cpp','''	std::size_t len = std::strlen(fileName);
	if (len >= ddsLen &&''','''	const char* firstDot = std::strchr(fileName, '.');
	if (firstDot)
		fileName = firstDot;
	std::size_t len = std::strlen(fileName);
	if (len > 8)
		return FileType::Auto;
	if (len >= ddsLen &&''')]
demo=r'''
#include <cuttlefish/Texture.h>
using namespace cuttlefish;
int main()
{
	return Texture::fileType("../some/dir/a.v2.ktx") != Texture::FileType::KTX ||
		Texture::fileType("a.dds") != Texture::FileType::DDS;
}
'''
