#pragma once
#include "utils.h"
#include "log.h"
#include "exceptions.h"
#include "any_stub.h"
#include "json_utils.h"
#include "rpc.h"
