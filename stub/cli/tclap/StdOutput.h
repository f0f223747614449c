#pragma once
#include "tclap/CmdLine.h"
