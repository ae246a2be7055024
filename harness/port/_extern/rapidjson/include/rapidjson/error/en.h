#pragma once
#include </usr/include/rapidjson/error/en.h>
