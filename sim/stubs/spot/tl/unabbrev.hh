#pragma once
#include "../mini.hh"
