M = 'mc.cpp'
TARGETS['c02'] = ('plain', [M, 'c02.cpp'], None, [])
TARGETS['c04'] = ('plain', [M, 'c04.cpp'], None, [])
TARGETS['c05'] = ('plain', [M, 'c05.cpp'], None, [])
TARGETS['c06'] = ('plain', [M, 'c06.cpp'], None, [])
TARGETS['c03'] = ('asan', [M, 'c03.cpp'], None, [])
TARGETS['c10'] = ('plain', [M, 'c10.cpp'], None, [])
TARGETS['c11'] = ('plain', [M, 'c11.cpp'], None, [])
TARGETS['c12'] = ('plain', [M, 'c12.cpp'], None, [])
TARGETS['c18'] = ('plain', [M, 'c18.cpp'], None, [])
TARGETS['c22'] = ('plain', [M, 'c22.cpp'], None, [])
TARGETS['c23'] = ('plain', [M, 'c23.cpp'], None, [])
TARGETS['c20'] = ('plain', [M, 'c20.cpp'], None, [])
TARGETS['c20x'] = ('plain', [M, 'c20.cpp', 'codecs.cpp'], None, [], {'codecs': True, 'optional': True})
# Checks that run a second binary, whose library has the compressed formats.
PARTS = {'c20': ['c20x']}
TARGETS['c19'] = ('plain', [M, 'c19.cpp'], None, [])
TARGETS['c09'] = ('asan', [M, 'c09.cpp'], None, [])
TARGETS['c08'] = ('asan', [M, 'c08.cpp'], None, [])
TARGETS['c17'] = ('asan', [M, 'c17.cpp'], None, [])
TARGETS['c07'] = ('plain', [M, 'c07.cpp'], None, [])
TARGETS['c14'] = ('plain', [M, 'c14.cpp'], None, [])
TARGETS['c13'] = ('plain', [M, 'c13.cpp'], None, [])
SCHED = {'srcflags': {'sched.cpp': ['-O2', '-g1', '-fno-builtin', '-fno-threadsafe-statics']}}
TARGETS['c01'] = ('sched', [M, 'c01.cpp', 'sched.cpp', 'codecs.cpp'], None, ['-rdynamic'], dict(SCHED, codecs=True, fallback='c01n'))
TARGETS['c01n'] = ('sched', [M, 'c01.cpp', 'sched.cpp'], None, ['-rdynamic'], SCHED)
TARGETS['c15'] = ('asan', [M, 'c15.cpp'], 'embed', [])
TARGETS['c16'] = ('plain', [M, 'c16.cpp', 'codecs.cpp'], 'embed', [], {'codecs': True, 'fallback': 'c16n'})
TARGETS['c16n'] = ('plain', [M, 'c16.cpp'], 'embed', [])
TARGETS['c24'] = ('asan', [M, 'c24.cpp', 'codecs.cpp'], None, [], {'codecs': True})
TARGETS['c25'] = ('asan', [M, 'c25.cpp', 'codecs.cpp'], None, [], {'codecs': True})
