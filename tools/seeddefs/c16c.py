id='c16-quiet-range'
property='C16'
needs='a quiet run that rotates an image of an integer format and converts it to a signed or integer type'
breaks='The values are not mapped to the range of the texture type.'
edits=[('tool/main.cpp','''		image = image.convert(Image::Format::RGBAF);''','''		image = image.convert(Image::Format::RGBAF);
		if (args.log == CommandLine::Log::Quiet && args.rotate)
			origImageFormat = image.format();''')]
tool=True
script=r'''
printf 'P6\n2 2\n255\nabcdefghijkl' > a.ppm
"$TOOL" -i a.ppm --rotate 90 -f R8G8B8A8 -t UInt -o a.ktx || exit 1
"$TOOL" -i a.ppm --rotate 90 -f R8G8B8A8 -t UInt -o b.ktx -q || exit 1
cmp a.ktx b.ktx || exit 1
grep -q abc a.ktx || exit 1
exit 0
'''
