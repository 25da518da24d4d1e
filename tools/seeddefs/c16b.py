id='c16-mip-size'
property='C16'
needs='a resized texture with a custom mip image for a level whose width has reached one pixel'
breaks='The custom mip is resized to a width of zero and lost.'
edits=[('tool/main.cpp','''	unsigned int thisWidth = std::max(width >> mipLevel, 1U);
''','''	unsigned int thisWidth = width >> mipLevel;
''')]
tool=True
script=r'''
printf 'P6\n2 8\n255\n' > a.ppm; head -c 48 /dev/zero | tr '\0' 'A' >> a.ppm
printf 'P6\n1 2\n255\nabcdef' > m.ppm
"$TOOL" -i a.ppm -m -M 2 m.ppm -f R8G8B8 -o out.ktx -q || exit 1
grep -q abc out.ktx || exit 1
exit 0
'''
