id='c15-rotate-270'
property='C15'
needs='--rotate with a negative multiple of 90 congruent to -270'
breaks='The image is rotated the wrong way.'
edits=[('tool/CommandLine.cpp','''					rotateAngle = Image::RotateAngle::CCW270;
''','''					rotateAngle = Image::RotateAngle::CW270;
''')]
tool=True
script=r'''
printf 'P6\n2 1\n255\n\377\0\0\0\377\0' > a.ppm
for n in -270 90 -630; do
	"$TOOL" -i a.ppm -f R8G8B8 -o out$n.ktx --rotate $n -q || exit 2
done
cmp out-270.ktx out90.ktx || exit 1
cmp out-630.ktx out90.ktx || exit 1
exit 0
'''
