// Included first in the `_v` builds: every configuration switch of the library set the other way.
#pragma once
#include <atomic>
#include <version>
#undef __cpp_lib_atomic_ref              // frames keep an atomic_bool
#define LF_COROUTINE_OFFSET 2 * sizeof(void *) // frames find their coroutine by its offset
#define LF_FIBRE_INIT_SIZE 9000          // stacks start with three pages
