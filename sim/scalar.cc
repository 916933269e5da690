#include "scalar.h"
namespace sim {
long ScalarEnv::live = 0;
uint64_t ScalarEnv::ops = 0;
uint64_t ScalarEnv::throw_at = 0;
bool ScalarEnv::thrown = false;
bool ScalarEnv::yields = false;
double ScalarEnv::blank = 0;
}
