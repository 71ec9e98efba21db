// Compiles if the library as such compiles; tells a tree that does not build at all
// from one in which documented use of the API no longer compiles.
#include "hart.hpp"
using namespace hart;
void baseline()
{
    processAudioWith (GainDb<float> (-3_dB)).withInputSignal (SineWave<float>()).expectTrue (PeaksAt<float> (-3_dB)).process();
}
