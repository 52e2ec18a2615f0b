#include "windows.h"
