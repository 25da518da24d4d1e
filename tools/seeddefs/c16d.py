id='c16-mkdir-start'
property='C16'
needs='the option to create directories with an output path that starts with ../ or ./'
breaks='The first directory after the dots is not created, so the texture cannot be written.'
edits=[('tool/main.cpp','''	std::size_t prevPos = 0;
	do''','''	std::size_t prevPos = path.find_first_not_of("./");
	if (prevPos == std::string::npos)
		prevPos = 0;
	if (path[0] == '.' && path[1] == '.')
		prevPos = path.find('/', prevPos);
	if (prevPos == std::string::npos)
		return true;
	do''')]
tool=True
script=r'''
printf 'P6\n1 1\n255\nabc' > a.ppm
mkdir work && cd work || exit 2
"$TOOL" -i ../a.ppm -f R8G8B8A8 --create-dir -o ../new/out.ktx -q || exit 1
[ -s ../new/out.ktx ]
'''
