// Small host-side helpers shared by the checks.
#pragma once
#include "engine.h"
