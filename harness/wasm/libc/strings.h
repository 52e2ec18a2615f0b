#pragma once
#include <string.h>
