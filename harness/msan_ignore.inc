# The harness itself is not checked for uninitialised memory (its strings live in an uninstrumented libstdc++); the adapter
# spaces.cpp, which tests and copies the library's results, is.
[memory]
mainfile:*/engine.cpp
mainfile:*/props_seq.cpp
mainfile:*/gen.cpp
mainfile:*/exact.cpp
mainfile:*/alloc.cpp
