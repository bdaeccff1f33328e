#pragma once
#include "GXDLMSSecureClient.h"
