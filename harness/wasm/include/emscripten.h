#include <emscripten/emscripten.h>
