id='c16-normal-range'
property='C16'
needs='a normal map of an image with 8 or 16 bits per channel in a signed normalised texture'
breaks='The already signed normals are mapped from [0, 1] to [-1, 1] once more.'
edits=[('tool/main.cpp','''		// Image no longer matches the original input.
		origImageFormat = image.format();
''','''		// The range is adjusted based on the input.
''')]
tool=True
script=r'''
printf 'P5\n4 4\n255\n' > a.pgm; head -c 16 /dev/zero | tr '\0' 'A' >> a.pgm
"$TOOL" -i a.pgm -n -f R8G8B8 -t snorm -o out.ktx -q || exit 2
# A flat image: every normal is (0, 0, 127).
od -An -v -tx1 out.ktx | tr -d ' \n' > hex
grep -q '00007f00007f00007f00007f' hex || exit 1
exit 0
'''
