id='c15-miplist-dup'
property='C15'
needs='a custom mip list file that names the same level (and depth and face) twice'
breaks='The duplicate is accepted and replaces the first image.'
edits=[('tool/CommandLine.cpp','''		if (!customMipImages.emplace(
				Texture::ImageIndex(face, static_cast<unsigned int>(level),
					static_cast<unsigned int>(depth)),
				CommandLine::CustomMipImage(curStr, replace)).second)''','''		Texture::ImageIndex listIndex(face, static_cast<unsigned int>(level),
			static_cast<unsigned int>(depth));
		CommandLine::CustomMipImage listImage(curStr, replace);
		auto added = customMipImages.emplace(listIndex, listImage);
		added.first->second = listImage;
		if (added.first == customMipImages.end())''')]
tool=True
script=r'''
printf 'P6\n4 4\n255\n' > a.ppm; head -c 48 /dev/zero >> a.ppm
printf 'P6\n2 2\n255\n' > m.ppm; head -c 12 /dev/zero >> m.ppm
printf '1 m.ppm\n2 m.ppm\n' > good.lst
printf '1 m.ppm\n1 m.ppm\n' > bad.lst
"$TOOL" -i a.ppm -m --custom-mip-list good.lst -f R8G8B8A8 -o good.ktx -q || exit 2
"$TOOL" -i a.ppm -m --custom-mip-list bad.lst -f R8G8B8A8 -o bad.ktx -q 2>/dev/null && exit 1
exit 0
'''
