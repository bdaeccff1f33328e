#pragma once
#include "any_stub.h"
#include "json/json.h"
