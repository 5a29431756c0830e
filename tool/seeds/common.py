CPP = '''#!/bin/bash
# builds demo.cpp against the objects of the built project (cwd: repository) and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
O=$(find $R/_build/CMakeFiles/main.dir -name '*.o' | grep -v 'main.cpp.o')
g++ -std=c++20 -O0 -w -DFMT_CONSTEVAL= -I$R -I$R/Narsese -I/usr/include/python3.12 "$H/demo.cpp" $O -o "$T/demo" -lfmt -lpython3.12 || exit 3
cd "$T" && timeout 60 ./demo
'''
HDR = '''#include <pybind11/pybind11.h>
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include <iostream>
#include <cstdlib>
static std::shared_ptr<NARSESEPARSER::NarseseParser> P(new NARSESEPARSER::NarseseParser);
static TASK::pTask parse(const char *s) { auto t = P->parse_task(s); if (t == nullptr) { std::cout << "not parsed: " << s << std::endl; std::exit(1); } return t; }
static std::string show(const char *s) { auto t = parse(s); return INTERPRETER::interpreter.interpret(*t); }
static std::string term(const char *s) { auto t = parse(s); return INTERPRETER::interpreter.interpret(*t->sentence->term); }
static int bad = 0;
static void eq(const std::string &a, const std::string &b) { if (a != b) { std::cout << "got " << a << ", expected " << b << std::endl; bad = 1; } }
static void ok(bool b, const char *what) { if (!b) { std::cout << "wrong: " << what << std::endl; bad = 1; } }
'''
# for what the front end does not use: every needed source is compiled with the demo
ASAN = '''#!/bin/bash
# builds demo.cpp and the front end with the address sanitizer (cwd: repository) and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S=$(ls $R/Config.cpp $R/Global.cpp $R/Interpreter/src/*.cpp $R/Narsese/Parser/{NarseseParser,Parser,narsese}.cpp $R/Narsese/src/*.cpp $R/utils/*.cpp; ls $R/Narsese/Parser/generate.cpp 2>/dev/null | head -0)
cd "$T" && for f in $S "$H/demo.cpp"; do echo "$f"; done | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -DFMT_CONSTEVAL= -I'$R' -I'$R'/Narsese -I/usr/include/python3.12 -c {} -o $(echo {} | tr / _).o' || exit 3
g++ -fsanitize=address,undefined *.o -o demo -lfmt -lpython3.12 || exit 3
ASAN_OPTIONS=detect_leaks=1:exitcode=9 timeout 120 ./demo
'''
PY = '''#!/bin/bash
# drives the built Python module (cwd: repository)
H=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD/_build PYTHONDONTWRITEBYTECODE=1 timeout 60 python3 "$H/demo.py"
'''
