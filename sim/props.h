#pragma once
#include "case.h"
namespace sim {
enum { ENV_CLOCK = 1, ENV_LP = 2 };
EnvCfg gen_env(Rng& r, int flags);
}
