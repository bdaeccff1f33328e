#pragma once
#include "utils.h"
#include "any_stub.h"
