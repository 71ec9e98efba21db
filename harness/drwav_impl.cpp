// The wav library's implementation, compiled once per check from /repo's own copy.
#define DR_WAV_IMPLEMENTATION
#include "dr_wav.h"
